"""C10: the AXI master emits only legal bursts carrying the requested attributes."""
import itertools
from .common import *                                   # noqa: F401,F403
from .common import S, E, W
from .. import masterdom as D
from ..masterdom import L, AL, SLOW3, P2
from .c08 import family
from ..scn_master import AW_OPT, AR_OPT

CHK = ('cover', 'legal', 'attr', 'live')
VALS = dict(lock=(0, 1), cache=tuple(range(16)), prot=tuple(range(8)), qos=(0, 1, 7, 8, 15), region=(0, 1, 8, 15), user=(0, 1, 6, 15))


def attrs(kind, q):
    """Every value of every attribute on its own, and all pairs at distinct values, over several bursts."""
    out = []
    for (a, n) in ((5, 3), (0xffd, 18)):
        for k, vs in VALS.items():
            for v in vs:
                out.append(dict(ops=[D.op(kind, a, n, **{k: v}), D.op(kind, 9, 5)]))
        for k1, k2 in itertools.permutations(VALS, 2):
            out.append(dict(ops=[D.op(kind, a, n, **{k1: VALS[k1][-1], k2: VALS[k2][1]})]))
        for i in (None, -1, 0, 1, 2, 3):
            for j in (None, 0, 1, 2, 3):
                out.append(dict(ops=[D.op(kind, a, n, id=i), D.op(kind, 7, 5, id=j, form='init'), D.op(kind, 20, 4, form='ev')]))
        vals = [{k: v[(i * 5 + j) % len(v)] for i, (k, v) in enumerate(VALS.items())} for j in range(16)]
        for v in vals:
            for b, s in ((1, 2), (1, 0), (0, 1)):
                for f in ('coro', 'init', 'ev'):
                    out.append(dict(ops=[D.op(kind, a, n, form=f, burst=b, size=s, id=1, **v), D.op(kind, 30, 3)]))
        if kind == 'w':
            for wu in (None, 0, 5, 15, [], [1], [3, 2, 1], list(range(1, 9)), (9, 8), [1] * 20):
                for m in (1, 2, 256):
                    for f in ('coro', 'init'):
                        out.append(dict(mbl=m, ops=[D.op(kind, a, n, wuser=wu, form=f), D.op(kind, 3, 9, wuser=7, form=f), D.op(kind, 30, 3)]))
    return out


def configs(tier):
    q = tier == 'quick'
    out = []
    for kind in 'wr':
        out += D.scale(kind, CHK)
        for c in family(kind, CHK, q):
            if q and ('slow' in c.name or 'fixed dw=8' in c.name):
                continue
            c.name = kind + ' ' + c.name
            out.append(c)
        for n, kw in (('fast', dict(ready=(AL, AL, AL), resp=('fifo',))), ('slow', dict(ready=(SLOW3, P2, SLOW3), resp=(SLOW3,)))):
            out.append(E('master_in', '%s attributes %s' % (kind, n), attrs(kind, q), half=kind, dw=32, checks=CHK, weight=5, **kw))
        # every subset of the optional signals
        opts = AW_OPT if kind == 'w' else AR_OPT
        inp = []
        for r in range(len(opts) + 1):
            for sub in itertools.combinations(opts, r):
                if q and r not in (0, 1, len(opts) - 1, len(opts)):
                    continue
                kw = {}
                for k in VALS:
                    if ('aw' if kind == 'w' else 'ar') + k in sub:
                        kw[k] = VALS[k][-1]
                if kind == 'w':
                    if 'wuser' in sub:
                        kw['wuser'] = [3, 1]
                    # without strobes only whole words can be written
                    a, n = (4, 12) if 'wstrb' not in sub else (5, 9)
                else:
                    a, n = 5, 9
                inp.append(dict(opt=sub, ops=[D.op(kind, a, n, **kw)]))
        out.append(E('master_in', '%s optional signals' % kind, inp, half=kind, dw=32, checks=CHK, weight=4, ready=(P2, AL, P2), resp=('fifo',)))
        for w in ('mid', 'early', 'late'):
            out.append(S('master', '%s schedules %s' % (kind, w), ops=[D.op(kind, 0xffe, 5, id=1, prot=1, cache=5), D.op(kind, 9, 2, prot=6, form='init')],
                         half=kind, dw=32, mbl=2, where=w, issue='choose', checks=CHK, ready=(L, AL, L), resp=('stall',), weight=6))
            if kind == 'w':
                out.append(S('master', '%s schedules %s w' % (kind, w), ops=[D.op(kind, 0xffe, 5, id=1, prot=1, cache=5), D.op(kind, 9, 2, prot=6, form='init')],
                             half=kind, dw=32, mbl=2, where=w, issue='choose', checks=CHK, ready=(L, L, L), resp=('fifo',), weight=6))
    return out
