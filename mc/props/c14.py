"""C14: error responses and user fields are reported to the requester."""
import itertools
from .common import *                                   # noqa: F401,F403
from .common import S, E, W, R, BW, BR, AW_, AR_
from .. import masterdom as D
from ..masterdom import L, AL, SLOW3, P2

CHK = ('resp', 'user', 'live', 'once')
SCHK = ('resp', 'fault', 'live', 'once')


def configs(tier):
    q = tier == 'quick'
    out = []
    for p in ('axi', 'axil'):
        for kind in 'wr':
            # every assignment of the four response codes to the parts of an operation, alone or followed by a clean one
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                a = dict(proto=p, half=kind, mbl=1, checks=CHK, codes='choose4', ready=(AL, AL, AL), resp=('fifo',), weight=5)
                out.append(E('master_in', '%s %s all codes, %d parts' % (p, kind, n),
                             [dict(ops=[D.op(kind, 1, 4 * n - 1, form=f)]) for f in ('coro', 'init', 'ev')], **a))
            for m in (256, 2):
                out.append(E('master_in', '%s %s two operations mbl=%d' % (p, kind, m),
                             [dict(ops=[D.op(kind, 1, 7, id=i), D.op(kind, 16, 8, id=j, form='init')]) for i, j in ((1, 1), (1, 2), (None, None))],
                             proto=p, half=kind, mbl=m, checks=CHK, codes='choose4' if m > 2 and kind == 'w' or not q else 'choose2',
                             ready=(AL, AL, AL), resp=('fifo',), weight=5))
            pats = [c for r in (1, 2, 3) for c in itertools.product((0, 1, 2, 3), repeat=r)]
            inp = [dict(codes=c, mbl=m, ops=[D.op(kind, 1, 9, id=1), D.op(kind, 16, 8, id=2, form='init'), D.op(kind, 33, 13, form='ev')]) for c in pats for m in (1, 2, 256)]
            for nm, kw in (('lifo', dict(ready=(AL, AL, AL), resp=('lifo' if p == 'axi' else 'fifo',))), ('slow', dict(ready=(P2, SLOW3, P2), resp=(SLOW3,)))):
                out.append(E('master_in', '%s %s patterns %s' % (p, kind, nm), inp, proto=p, half=kind, checks=CHK, weight=5, **kw))
            full = ('wstrb', 'bresp', 'rresp', 'buser', 'ruser')
            opts = [c for r in range(len(full) + 1) for c in itertools.combinations(full, r)]
            inp = [dict(opt=o, codes=(2, 0, 3), mbl=m, ops=[D.op(kind, 0, 12), D.op(kind, 16, 8)]) for o in opts for m in (1, 256)]
            out.append(E('master_in', '%s %s optional signals' % (p, kind), inp, proto=p, half=kind, checks=CHK, ready=(AL, AL, AL), resp=('fifo',)))
            out.append(S('master', '%s %s schedules' % (p, kind), proto=p, half=kind, mbl=1, checks=CHK, ops=[D.op(kind, 1, 5, id=1), D.op(kind, 8, 4, id=2, form='init')],
                         codes=(2, 0, 3, 0) if kind == 'w' else (0, 2, 0), issue='choose', ready=(AL, AL, AL), resp=('choose' if p == 'axi' else 'stall',), weight=5))
    # slaves: every pattern of failing target accesses
    for p in ('axi', 'axil'):
        for k in 'wr':
            o = BW if k == 'w' else BR
            n = 3 if p == 'axi' else 1
            for size in (2, 1) if p == 'axi' else (2,):
                out.append(E('slave_in', '%s slave %s size=%d every failure' % (p, k, size),
                             [dict(ops=[o(a, n, id=1, size=size, **(dict(strb=st) if k == 'w' else {})), o(9, 1, id=2)] + ([o(2, 1)] if p == 'axil' else []), delay=dl)
                              for a in (0, 5) for st in (((-1,), (5, 10, 5))[k == 'w']) for dl in (0, 1)], proto=p, half=k, fail='choose', checks=SCHK, weight=4))
            out.append(E('slave_in', '%s slave %s patterns' % (p, k),
                         [dict(ops=[o(4 * i, 1 if p == 'axil' else 1 + i % 3, id=i % 2, burst=(1, 0)[i == 2]) for i in range(5)], fail=f)
                          for r in (1, 2, 3, 4) for f in itertools.product((0, 1), repeat=r)], proto=p, half=k, checks=SCHK, ready=((0, 1),) * 2, weight=3))
            out.append(S('slave', '%s slave %s schedules' % (p, k), proto=p, half=k, ops=[o(5, 2 if p == 'axi' else 1, id=1), o(9, 1, id=2)], fail='choose',
                         delay='choose' if not q else 0, valid=('choose', AL, 'choose'), ready=(L,) * 2, checks=SCHK, weight=6))
    for kind in itertools.product((0, 1), repeat=3):
        ops = [AR_(4 * i) if b else AW_(4 * i + 1, (15, 5, 0)[i]) for i, b in enumerate(kind)]
        out.append(S('apbslave', 'apb slave ' + ''.join(map(str, kind)), ops=ops, fail='choose', delay='choose', gap='choose', checks=SCHK, weight=2))
    inp = [dict(ops=[D.op(k, 1, n, form=f), D.op(k2, 20, 6)]) for k in 'wr' for k2 in 'wr' for n in (2, 7, 11) for f in ('coro', 'init', 'ev')]
    for n, kw in (('fast', dict(wait='never')), ('slow', dict(wait=2))):
        out.append(E('apb_in', 'apb master, all error patterns, %s' % n, inp, checks=CHK, codes='choose', weight=3, **kw))
    return out
