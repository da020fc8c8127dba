"""C08: AXI writes store exactly the given bytes at the given addresses."""
from .common import *                                   # noqa: F401,F403
from .common import S, E, W
from .. import masterdom as D
from ..masterdom import L, AL, SLOW3, P2

CHK = ('data', 'resp', 'once', 'live')
KIND = 'w'


def family(kind, chk, q):
    """Input-exhaustive configurations for one direction."""
    out = []
    scheds = {'fast': dict(ready=(AL, AL, AL), resp=('fifo',)), 'slow': dict(ready=(SLOW3, P2, SLOW3), resp=(SLOW3,)),
              'mix': dict(ready=(P2, SLOW3, P2), resp=((1, 1, 0, 1),))}
    for dw in (8, 16, 32, 64) + (() if q else (128, 256)):
        bw = dw // 8
        sizes = list(range(bw.bit_length()))
        offs = range(0, 2 * bw) if q else range(0, 4 * bw)
        lens = range(0, 2 * bw + 3) if q or dw > 64 else range(0, 5 * bw + 2)
        if q and dw == 64:
            offs = range(0, 2 * bw, 1)
            lens = list(range(0, 12)) + [15, 16, 17, 23, 24, 25]
        if dw > 64:
            offs = list(range(0, bw, 3)) + [bw - 1]
            lens = list(range(0, 2 * bw + 3, 3)) + [bw - 1, bw, bw + 1]
        inp = D.geo(kind, dw, offs, lens, sizes)
        for s, kw in scheds.items():
            if q and s == 'mix':
                continue
            out.append(E('master_in', 'incr dw=%d %s' % (dw, s), inp, half=kind, dw=dw, checks=chk, weight=5, **kw))
        # around a 4 KiB boundary and at the end of the address space (8 KiB)
        ks = sorted(set([1, 2, 3, bw - 1, bw, bw + 1, 2 * bw, 2 * bw + 1, 4 * bw]) - {0})
        inp = [dict(ops=[dict(o, addr=base - k) for o in [W(0, n, size=s)]])
               for base, lim in ((0x1000, 0), (0x2000, 1)) for k in ks for s in sizes
               for n in sorted(set([1, 2, bw, bw + 1, 3 * bw, 4 * bw + 1, k, k + 1, k + bw])) if not lim or n <= k]
        for i in inp:
            for o in i['ops']:
                o['kind'] = kind
        out.append(E('master_in', '4k dw=%d' % dw, inp, half=kind, dw=dw, aw=13, checks=chk, weight=3, ready=(AL, AL, AL), resp=('fifo',)))
        # maximum burst length
        for m in (1, 2, 3, 16):
            inp = D.geo(kind, dw, (0, 1, bw - 1, 0xffe), (1, bw, 3 * bw, 5 * bw + 1, 6 * bw, 17 * bw), sizes if not q else sizes[-2:])
            out.append(E('master_in', 'mbl=%d dw=%d' % (m, dw), inp, half=kind, dw=dw, mbl=m, checks=chk, weight=3,
                         ready=(AL, AL, AL), resp=('fifo',)))
        # fixed and wrapping
        if dw <= 64:
            inp = D.fixed(kind, dw, range(0, 2 * bw), (0, 1, 2, 3, bw, bw + 1, 2 * bw + 1, 16 * bw, 17 * bw, 33), sizes)
            out.append(E('master_in', 'fixed dw=%d' % dw, inp, half=kind, dw=dw, checks=chk, weight=3, ready=(AL, AL, AL), resp=('fifo',)))
            out.append(E('master_in', 'wrap dw=%d' % dw, D.wraps(kind, dw, 1 if q else 2), half=kind, dw=dw, checks=chk, weight=3,
                         ready=(AL, AL, AL), resp=('fifo',)))
    # more than 256 beats
    for dw, ns in ((8, (255, 256, 257, 512, 513)), (32, (1023, 1024, 1025, 1028))):
        inp = [dict(ops=[D.op(kind, a, n, size=s)]) for a in (0, 1, 0xe03) for n in ns for s in ((0,) if dw == 8 else (2, 1) if q else (2, 1, 0))]
        out.append(E('master_in', 'long dw=%d' % dw, inp, half=kind, dw=dw, checks=chk, weight=9, chunk=2, ready=(AL, AL, AL), resp=('fifo',),
                     K=6000))
    return out


def schedules(kind, chk, q):
    """Every schedule of the channels for a few operations."""
    out = []
    o = lambda a, n, **k: D.op(kind, a, n, **k)
    sets = {
        'one': [o(1, 6)],
        'one split': [o(2, 9)],
        'same id': [o(1, 6, id=1), o(8, 3, id=1, form='ev')],
        'two ids': [o(1, 6, id=1), o(8, 9, id=2, form='init')],
        'narrow': [o(3, 3, size=0), o(6, 4, size=1)],
    }
    if kind == 'w' and q:
        sets['two ids'] = [o(1, 6, id=1), o(8, 4, id=2, form='init')]
    for n, ops in sets.items():
        for mbl in (256, 1) if n in ('one', 'two ids', 'same id') else (2,):
            for w in ('mid',) if q else ('mid', 'early', 'late'):
                a = dict(ops=ops, half=kind, dw=32, mbl=mbl, where=w, issue='choose', checks=chk, resp=('choose',))
                nm = '%s mbl=%d %s' % (n, mbl, w)
                if kind == 'w':
                    out.append(S('master', nm + ' aw+b', ready=(L, AL), weight=6, **a))
                    out.append(S('master', nm + ' w+b', ready=(AL, L), weight=6, **a))
                    if not q or n == 'one':
                        out.append(S('master', nm + ' aw+w+b', ready=(L, L), weight=9, **a))
                else:
                    out.append(S('master', nm + ' ar+r', ready=(L, L, L), weight=6, **a))
    if not q:
        three = [o(1, 6, id=1), o(8, 3, id=2, form='ev'), o(17, 5, id=1, form='init')]
        for mbl in (256, 1):
            out.append(S('master', 'three mbl=%d' % mbl, ops=three, half=kind, dw=32, mbl=mbl, issue='choose', checks=chk, ready=(L, L, L),
                         resp=('choose',), weight=20))
    return out


def configs(tier):
    q = tier == 'quick'
    return family(KIND, CHK, q) + schedules(KIND, CHK, q) + D.scale(KIND, CHK)
