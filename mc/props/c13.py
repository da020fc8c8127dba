"""C13: concurrent master operations complete exactly once with their own results."""
import itertools
from .common import *                                   # noqa: F401,F403
from .common import S, E, W, R
from .. import masterdom as D
from ..masterdom import L, AL, SLOW3, P2

CHK = ('data', 'resp', 'once', 'live', 'idle', 'order', 'user')


def configs(tier):
    q = tier == 'quick'
    out = []
    F = ('coro', 'init', 'ev')
    for kind in 'wr':
        # all assignments of IDs (and automatic) and call forms to three or four operations; several response orders
        inp = []
        for ids in itertools.product((None, 0, 1, 3), repeat=3):
            for fi, forms in enumerate(itertools.product(F, repeat=3) if not q else (F, ('init', 'coro', 'coro'), ('ev', 'init', 'coro'))):
                inp.append(dict(ops=[D.op(kind, 1 + 8 * i, 3 + 4 * (i % 2), id=d, form=f) for i, (d, f) in enumerate(zip(ids, forms))]))
        inp += [dict(ops=[D.op(kind, 4 * i, 4, form=F[i % 3]) for i in range(n)]) for n in range(1, 12)]
        inp += [dict(ops=[D.op(kind, 4 * i, 4, form=F[i % 3], id=i % m) for i in range(n)]) for n in (5, 9) for m in (1, 2, 3)]
        for nm, kw in (('fifo', dict(ready=(AL, AL, AL), resp=('fifo',))), ('lifo', dict(ready=(AL, AL, AL), resp=('lifo',))),
                       ('rot slow', dict(ready=(SLOW3, P2, P2), resp=('rot',))), ('late', dict(ready=(AL, AL, AL), resp=((0,) * 12 + (1,) * 8,)))):
            for m in (256, 1):
                out.append(E('master_in', '%s ids %s mbl=%d' % (kind, nm, m), inp, half=kind, checks=CHK, mbl=m, codes=(0, 0, 2, 0, 3), weight=4, **kw))
        out.append(E('master_in', '%s staggered' % kind, [dict(issue=t, ops=[D.op(kind, 1 + 8 * i, 6, id=i % 2 if k else None, form=F[(i + k) % 3]) for i in range(3)])
                                                    for t in itertools.combinations_with_replacement(range(0, 12), 3) for k in (0, 1)],
                     half=kind, checks=CHK, mbl=1, ready=(AL, AL, AL), resp=('lifo',), weight=4))
        # narrow ID signals: automatic IDs wrap around
        out.append(E('master_in', '%s idw=1' % kind, [dict(ops=[D.op(kind, 8 * i, 4 + i % 5) for i in range(n)]) for n in range(1, 8)], idw=1,
                     half=kind, checks=CHK, ready=(AL, AL, AL), resp=('lifo',)))
        # every response order and interleaving, all schedules
        o = lambda a, n, **k: D.op(kind, a, n, **k)
        sets = {
            'two ids': ([o(1, 6, id=1), o(8, 4, id=2, form='init')], 1, ('choose',)),
            'auto ids': ([o(1, 2), o(8, 4, form='init'), o(16, 4, form='ev')], 256, ('choose',)),
            'aba': ([o(1, 2, id=1), o(8, 4, id=2, form='init'), o(16, 4, form='ev', id=1)], 256, ('choose',)),
            'aab': ([o(1, 5, id=1), o(8, 4, id=1, form='init'), o(16, 4, form='ev', id=2)], 1, ('order',)),
        }
        for n, (ops, mbl, rs) in sets.items():
            for w in ('mid',) if q else ('mid', 'early', 'late'):
                out.append(S('master', '%s %s %s' % (kind, n, w), ops=ops, half=kind, mbl=mbl, where=w, issue='choose', checks=CHK,
                             ready=(L if n == 'two ids' and kind == 'r' else AL, AL, L if n == 'two ids' and kind == 'r' else AL), resp=rs, weight=8))
        for w in ('mid', 'early', 'late'):
            out.append(S('master', '%s wait %s' % (kind, w), ops=[o(1, 2, id=1), o(8, 4, id=2, form='init')], half='rw', where=w, issue='choose',
                         checks=CHK, ready=(AL, AL, AL), resp=('choose', 'choose'), actions=('wait', 'wait_' + ('write' if kind == 'w' else 'read')), weight=6))
            out.append(S('master', 'axil %s wait %s' % (kind, w), proto='axil', ops=[o(1, 2), o(8, 4, form='init')], half='rw', where=w, issue='choose',
                         checks=CHK, ready=(AL, AL, AL), resp=('stall', 'stall'), actions=('wait', 'wait_' + ('write' if kind == 'w' else 'read')), weight=6))
    for p in ('axi', 'axil'):
        for w in ('mid', 'early', 'late'):
            out.append(S('master', '%s both %s' % (p, w), proto=p, ops=[W(1, 2), R(3, 5 if not q else 1, form='init')], half='rw', where=w, issue='choose',
                         checks=CHK, ready=(AL, AL, AL), resp=('stall', 'stall'), actions=('wait', 'wait_read')[:1 if q else 2], weight=6))
            out.append(S('master', '%s read first %s' % (p, w), proto=p, ops=[R(3, 5 if not q else 1), W(1, 2, form='init')], half='rw', where=w, issue='choose',
                         checks=CHK, ready=(AL, AL, AL), resp=('stall', 'stall'), actions=('wait', 'wait_write')[:1 if q else 2], weight=6))
    # operations started by a user who has just learnt that another one has finished
    ch = {'w': [D.op('w', 1, 2), D.op('w', 8, 4, form='init'), D.op('w', 16, 4, form='ev')], 'r': [D.op('r', 1, 2), D.op('r', 8, 4, form='init'), D.op('r', 16, 4, form='ev')],
          'rw': [D.op('r', 1, 2), D.op('w', 8, 4, form='init'), D.op('r', 16, 4, form='ev')], 'wr': [D.op('w', 1, 2), D.op('r', 8, 4, form='ev'), D.op('w', 16, 4, form='init')]}
    for k, ops in ch.items():
        for p in ('axi', 'axil'):
            out.append(S('master', '%s chain %s' % (p, k), proto=p, ops=ops, half='rw', where='mid', issue='chain', checks=CHK, ready=(AL, AL, AL),
                         resp=('stall', 'stall'), actions=('wait', 'wait_write' if k == 'w' else 'wait_read' if k == 'r' else 'wait'), weight=2))
            if len(k) == 1:
                out.append(S('master', '%s chain half %s' % (p, k), proto=p, ops=ops, half=k, where='mid', issue='chain', checks=CHK, ready=(AL, AL, AL),
                             resp=('stall',), actions=('wait',), weight=2))
        out.append(S('apb', 'apb chain %s' % k, ops=ops, where='mid', issue='chain', wait='choose', checks=CHK, actions=('wait',)))
    for w in ('mid', 'early', 'late'):
        out.append(S('apb', 'apb %s' % w, ops=[W(1, 3), R(9, 2, form='init'), R(4, 5, form='ev')], where=w, issue='choose', wait='choose',
                     checks=CHK, actions=('wait',), weight=3))
    inp = [dict(issue=i, ops=[D.op(k, 1 + 5 * j, 2 + 3 * j, form=f[j]) for j, k in enumerate(ks)])
           for ks in itertools.product('wr', repeat=3) for f in itertools.product(F, repeat=3)
           for i in ('all', 'serial', (0, 2, 3), (0, 3, 3), (1, 4, 5))]
    for n, kw in (('fast', dict(wait='never')), ('slow', dict(wait=(1, 0, 0), idle_ready=1))):
        out.append(E('apb_in', 'apb mix %s' % n, inp, checks=CHK, weight=3, **kw))
    for p in ('axi', 'axil'):
        out.append(E('master_in', '%s mix' % p, [dict(i, half='rw') for i in inp if i['issue'] != 'serial'], proto=p, checks=CHK, weight=4,
                     ready=(AL, P2, AL), resp=('fifo', 'fifo')))
    return out
