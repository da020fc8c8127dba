"""C12: the APB master follows the APB protocol and transfers exactly the bytes."""
import itertools
from .common import *                                   # noqa: F401,F403
from .common import S, E, W, R
from .. import masterdom as D
from ..masterdom import SLOW3, P2

CHK = ('data', 'proto', 'attr', 'resp', 'once', 'idle', 'live', 'pause')


def configs(tier):
    q = tier == 'quick'
    out = scale()
    F = ('coro', 'init', 'ev')
    for dw in (8, 16, 32) + (() if q else (64,)):
        bw = dw // 8
        for kind in 'wr':
            inp = D.geo(kind, dw, range(0, 2 * bw), range(0, 3 * bw + 2), (None,))
            inp += [dict(ops=[D.op(kind, 0x1000 - k, n)]) for k in range(1, 3 * bw + 1) for n in (1, bw, k) if n <= k]
            inp += [dict(ops=[D.op(kind, 0x200 - k, 2 * bw + 1, prot=p, form=f), D.op('r' if kind == 'w' else 'w', 5, bw)]) for p in range(8)
                    for k in range(bw) for f in F]
            for n, kw in (('fast', dict(wait='never')), ('fast rdy', dict(wait='never', idle_ready=1)), ('wait 1', dict(wait=1)),
                          ('wait 3', dict(wait=3, idle_ready=1)), ('pattern', dict(wait=(1, 0, 0))), ('x on writes', dict(wait=1, junk=2))):
                if q and n in ('wait 3', 'fast rdy') and dw != 16:
                    continue
                out.append(E('apb_in', '%s dw=%d %s' % (kind, dw, n), inp, dw=dw, aw=12, checks=CHK, weight=4, **kw))
    inp = [dict(opt=o, ops=[W(5, 7, form='init'), R(2, 9)], codes=c) for o in ((), ('pprot',), ('pslverr',)) for c in ((0,), (1, 0), (0, 0, 1))]
    out.append(E('apb_in', 'optional signals', inp, checks=CHK))
    inp = [dict(via=v, ops=[W(a, n, form='init', prot=2), R(a, n)]) for v in ('prefix', 'entity', 'sep') for a in (0, 3, 9) for n in (1, 4, 9)]
    out.append(E('apb_in', 'bus objects', inp, checks=CHK))
    # mixtures of reads and writes issued together, with every error pattern
    inp = [dict(codes=c, issue=i, ops=[D.op(k, 1 + 5 * j, 2 + 3 * j, form=f[j]) for j, k in enumerate(ks)])
           for ks in itertools.product('wr', repeat=3) for f in (F, ('init', 'coro', 'coro'))
           for c in ((0,), (1,), (1, 0), (0, 1), (0, 0, 1), (1, 0, 0)) for i in ('all', 'serial', (0, 2, 3), (0, 1, 9), (1, 4, 5))]
    for n, kw in (('fast', dict(wait='never')), ('slow', dict(wait=(1, 0, 0), idle_ready=1))):
        out.append(E('apb_in', 'mix %s' % n, inp, checks=CHK, weight=4, **kw))
    out.append(E('apb_in', 'all errors', [dict(ops=[D.op(k, 1, 11, form=f), W(20, 4)]) for k in 'wr' for f in F], codes='choose', checks=CHK))
    # every schedule: wait states, times of issue, pauses
    for w in ('mid', 'early', 'late'):
        for ir in (0, 1):
            out.append(S('apb', 'w then r %s rdy=%d' % (w, ir), ops=[W(1, 6, prot=1), R(9, 2, form='init', prot=6)], where=w, issue='choose', wait='choose',
                         idle_ready=ir, checks=CHK, weight=3))
            out.append(S('apb', 'r r w %s rdy=%d' % (w, ir), ops=[R(1, 6), R(9, 2, form='init'), W(4, 4, form='ev')], where=w, issue='choose', wait='choose',
                         idle_ready=ir, checks=CHK, codes=(0, 1, 0, 1, 1), weight=3))
        out.append(S('apb', 'pause %s' % w, ops=[W(1, 6), R(9, 2, form='init')], where=w, issue='choose', wait='choose', checks=CHK, actions=('pause',), weight=5))
        out.append(S('apb', 'pause gen %s' % w, ops=[W(1, 5)], where=w, issue='choose', wait='never', checks=CHK, actions=('gen',), weight=5))
        out.append(S('apb', 'wait %s' % w, ops=[W(1, 3), R(9, 2, form='init')], where=w, issue='choose', wait='choose', checks=CHK, actions=('wait',), weight=5))
        if not q:
            out.append(S('apb', 'pause wait %s' % w, ops=[W(1, 6), R(9, 6, form='init'), W(4, 5, form='ev')], where=w, issue='choose', wait='choose', checks=CHK,
                         actions=('pause', 'wait'), weight=9))
    return out


def scale():
    """Wide data buses, high addresses, long operations."""
    out = []
    for kind in 'wr':
        for dw in (64, 128):
            out.append(E('apb_in', '%s scale dw=%d' % (kind, dw), D.wide(kind, dw, True), dw=dw, aw=16, checks=CHK, wait=(1, 0), chunk=10, weight=3))
        for dw, aw in ((32, 64), (64, 64), (8, 40), (32, 32), (16, 48)):
            out.append(E('apb_in', '%s scale aw=%d dw=%d' % (kind, aw, dw), D.high(kind, dw, aw, True), dw=dw, aw=aw, checks=CHK, wait='never', chunk=10, weight=3))
        many = [dict(issue=i, ops=[D.op(kind, 5 * k, 1 + k % 7, form=f) for k in range(n)]) for n, i, f in ((300, 'all', 'init'), (300, 'all', 'coro'), (520, 'serial', 'coro'))]
        out.append(E('apb_in', '%s scale many' % kind, many, dw=32, aw=16, weight=9, chunk=1, K=9000, checks=CHK))
        for dw in (8, 32, 64):
            out.append(E('apb_in', '%s scale big dw=%d' % (kind, dw), D.big(kind, dw, (257, 520)), dw=dw, aw=20, checks=CHK, wait='never', chunk=1, K=20000, weight=5))
    return out
