"""C11: AXI-Lite master reads and writes are exact under every schedule."""
from .common import *                                   # noqa: F401,F403
from .common import S, E, W
from .. import masterdom as D
from ..masterdom import L, AL, SLOW3, P2

CHK = ('data', 'cover', 'attr', 'resp', 'once', 'live', 'order')


def configs(tier):
    q = tier == 'quick'
    out = []
    scheds = {'fast': dict(ready=(AL, AL, AL), resp=('fifo', 'fifo')), 'slow': dict(ready=(SLOW3, P2, SLOW3), resp=(SLOW3, SLOW3)),
              'mix': dict(ready=(P2, SLOW3, P2), resp=((1, 1, 0, 1), P2))}
    for kind in 'wr':
        out += D.scale(kind, CHK, True)
        for dw in (8, 16, 32, 64) + (() if q else (128,)):
            bw = dw // 8
            offs = range(0, 2 * bw) if dw < 64 or not q else range(0, bw)
            lens = range(0, 4 * bw + 2)
            inp = D.geo(kind, dw, offs, lens, (None,))
            inp += [dict(ops=[D.op(kind, 0x1000 - k, n)]) for k in range(1, 4 * bw + 1) for n in (1, bw, k) if n <= k]
            inp += [dict(ops=[D.op(kind, 0x200 - k, 2 * bw + 1, prot=p, form=f), D.op(kind, 5, bw)]) for p in range(8) for k in range(bw)
                    for f in ('coro', 'init', 'ev')]
            for s, kw in scheds.items():
                if q and s == 'mix' and dw != 32:
                    continue
                out.append(E('master_in', '%s dw=%d %s' % (kind, dw, s), inp, proto='axil', half=kind, dw=dw, aw=12, checks=CHK, weight=4, **kw))
        inp = [dict(opt=o, ops=[D.op(kind, 8, 12), D.op(kind, 4, 4, form='init')]) for o in ((), ('awprot', 'arprot'), ('wstrb', 'rresp'), ('bresp',))]
        out.append(E('master_in', '%s optional signals' % kind, inp, proto='axil', half=kind, checks=CHK, ready=(AL, AL, AL), resp=('fifo',)))
        o = lambda a, n, **k: D.op(kind, a, n, **k)
        sets = {'one': [o(1, 6)], 'two': [o(1, 6, prot=1), o(8, 3, form='ev', prot=5)], 'three': [o(5, 2), o(0, 4, form='init'), o(10, 5, form='ev')]}
        for n, ops in sets.items():
            for w in ('mid',) if q else ('mid', 'early', 'late'):
                a = dict(proto='axil', ops=ops, half=kind, dw=32, where=w, issue='choose', checks=CHK, resp=('stall', 'stall'))
                if kind == 'w':
                    if n != 'three':
                        out.append(S('master', '%s %s %s aw+w+b' % (kind, n, w), ready=(L, L), weight=9, **a))
                    if n != 'one':
                        out.append(S('master', '%s %s %s aw+b' % (kind, n, w), ready=(L, AL), weight=6, **a))
                        out.append(S('master', '%s %s %s w+b' % (kind, n, w), ready=(AL, L), weight=6, **a))
                else:
                    out.append(S('master', '%s %s %s ar+r' % (kind, n, w), ready=(L, L, L), weight=6, **a))
    for c in (('choose4', 'choose4'),):
        pass
    # combined master: reads and writes at the same time, all responses
    ops = [W(1, 2), D.op('r', 2, 3, form='init')] if q else [W(1, 6), D.op('r', 2, 7, form='init')]
    for w in ('mid', 'early', 'late'):
        out.append(S('master', 'both %s' % w, proto='axil', ops=ops, half='rw', dw=32, where=w, issue='choose', checks=CHK, ready=(L, AL, AL),
                     resp=('stall', 'stall'), codes=(0, 2, 0, 3), weight=8))
    return out
