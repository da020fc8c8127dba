"""C15: reset at any moment flushes cleanly and leaves every component usable."""
from .common import *                                   # noqa: F401,F403
from .common import S, E, W, R, BW, BR, AW_, AR_, Geo, ALLCH
from ..masterdom import L, AL
from ..scn_sys import sysrst, sequences                  # noqa: F401
from .. import scn_master, scn_apbm, scn_slave, scn_apbs

MC = scn_master.ALLCAT
AC = scn_apbm.ALLCAT


def configs(tier):
    q = tier == 'quick'
    out = []
    # channels
    for c in ('gen', 'axi_aw', 'axil_r') if q else ALLCH:
        pols = (1, 0) if c == 'gen' or not q else (0,) if c == 'axil_r' else (1,)
        for pol in pols:
            for w in ('mid', 'late') if c == 'gen' or not q else ('mid',):
                out.append(S('ch_source', ch=c, where=w, actions=('send', 'reset'), maxq=1, polarity=pol, weight=3))
                out.append(S('ch_sink', ch=c, where=w, actions=('recv', 'reset'), maxq=1, polarity=pol, weight=3))
    out.append(S('ch_source', ch='gen', where='mid', actions=('send', 'creset'), maxq=1, weight=3))
    out.append(S('ch_sink', ch='gen', where='mid', actions=('recv', 'creset'), maxq=1, weight=3))
    # reset held by call, repeated calls, and both ways of resetting at the same time
    for a in ((), ('reset',)):
        out.append(S('ch_source', ch='gen', where='mid', actions=('send', 'lreset') + a, maxq=1, weight=3, ready='always' if q else 'choose'))
        out.append(S('ch_sink', ch='gen', where='mid', actions=('recv', 'lreset') + a, maxq=1, weight=3))
        if not a or not q:
            out.append(S('as_source', where='mid', actions=('send', 'lreset') + a, which=(1,), maxq=1, weight=6))
            out.append(S('as_sink', where='mid', actions=('recv', 'lreset') + a, which=(1,), weight=6))
    if not q:
        out.append(S('ch_source', ch='gen', where='mid', actions=('send', 'pause', 'reset'), maxq=1, weight=5))
        out.append(S('ch_sink', ch='gen', where='mid', actions=('recv', 'pause', 'reset'), maxq=1, weight=5))
        out.append(S('as_source', where='mid', actions=('send', 'pause', 'reset'), which=(1,), maxq=1, weight=8))
    # AXI stream
    for pol in (1, 0):
        for w in ('mid', 'late') if q else ('mid', 'early', 'late'):
            out.append(S('as_source', where=w, actions=('send', 'reset'), which=(1,), maxq=1, polarity=pol, weight=6))
            out.append(S('as_sink', where=w, actions=('recv', 'reset'), which=(1,), polarity=pol, weight=6))
    out.append(S('as_source', where='mid', actions=('send', 'creset'), which=(1,), maxq=1, weight=6))
    out.append(S('as_sink', where='mid', actions=('recv', 'creset'), which=(1,), weight=6))
    out.append(S('as_sink', where='mid', actions=('rd', 'reset'), reads=(1,), which=(1,), maxrq=2, weight=8))
    # masters
    for pol in (1, 0):
        for w in ('mid',) if q else ('mid', 'early', 'late'):
            for rw in ('mid', 'late'):
                if q and (pol == 1) != (rw == 'mid'):
                    continue
                out.append(S('apb', 'apb pol=%d %s %s' % (pol, w, rw), ops=[W(1, 6), R(9, 2, form='init')], where=w, rwhere=rw,
                             issue='choose', wait='choose', actions=('reset',), max_resets=2, polarity=pol, checks=AC, weight=9))
                for p in ('axi', 'axil'):
                    for k in 'wr':
                        o = W if k == 'w' else R
                        out.append(S('master', '%s %s pol=%d %s %s' % (p, k, pol, w, rw), proto=p, half=k,
                                     ops=[o(1, 6, id=1), o(8, 3, form='ev')] if p == 'axi' else [o(1, 4), o(8, 3, form='ev')],
                                     issue='choose', where=w, rwhere=rw, ready=(L, AL, AL) if k == 'w' else (AL, AL, L), resp=('choose',),
                                     actions=('reset',), max_resets=1 if q else 2, polarity=pol, checks=MC, weight=10))
                        if p == 'axil' and (not q or rw == 'mid'):
                            # an operation of several words holds the next ones back
                            out.append(S('master', 'axil %s words pol=%d %s %s' % (k, pol, w, rw), proto=p, half=k, ops=[o(1, 14), o(0x44, 7, form='ev'), o(8, 3, form='init')],
                                         issue='all', where=w, rwhere=rw, ready=(L, AL, AL) if k == 'w' else (AL, AL, L), resp=('fifo',), actions=('reset',),
                                         max_resets=1 if q else 2, polarity=pol, checks=MC, codes=(2, 0), weight=10))
                        if p == 'axi' and (not q or rw == 'mid'):
                            # answers to the first bursts of an operation arrive while the others are still to be sent
                            for i2 in (1, 2) if not q else (1,):
                                out.append(S('master', 'axi %s split id=%d pol=%d %s %s' % (k, i2, pol, w, rw), half=k, mbl=1,
                                             ops=[o(0, 24 if k == 'w' else 20, id=1), o(0x44, 7, form='ev', id=i2)], issue='choose', where=w, rwhere=rw,
                                             ready=(AL, L, AL) if k == 'w' else (AL, AL, L), resp=('fifo',), actions=('reset',),
                                             max_resets=1 if q else 2, polarity=pol, checks=MC, codes=(2, 0), weight=10))
    # both ends from the library; the reset goes through every sequence of values, undefined ones included
    for k in ('gen', 'axis', 'axi', 'axil', 'apb') + (() if q else ALLCH[1:]):
        out.append(E('sysrst', k, sequences(q), kind=k, weight=3))
    # slaves and RAMs
    SC = tuple(c for c in scn_slave.ALLCAT if c != 'fault')
    for pol in (1, 0):
        for rw in ('mid', 'late'):
            if q and (pol == 1) != (rw == 'mid'):
                continue
            for kind in ('slave', 'ram'):
                for p in ('axi', 'axil'):
                    for k in 'wr':
                        o = BW if k == 'w' else BR
                        n = 2 if p == 'axi' else 1
                        kw = dict(valid=('always', 'choose', 'always') if k == 'w' and q else ('choose',) * 3, ready=(L,) * 2)
                        if q and kind == 'ram':
                            kw = dict(valid=('always',) * 3, ready=(L,) * 2)
                        out.append(S('slave', '%s %s %s pol=%d %s' % (p, kind, k, pol, rw), proto=p, kind=kind, half=k, size=32, ops=[o(5, n, id=1), o(9, 1, id=2)] + ([o(2, 1)] if p == 'axil' else []),
                                     actions=('reset',), rwhere=rw, polarity=pol, max_resets=1 if q else 2, checks=SC, weight=7, **kw))
                out.append(S('apbslave', 'apb %s pol=%d %s' % (kind, pol, rw), kind=kind, size=32, ops=[AW_(5, 5), AR_(4), AW_(6, 15, other=True), AW_(8), AR_(9)], gap='choose',
                             actions=('reset',), rwhere=rw, polarity=pol, max_resets=2, delay='choose' if kind == 'slave' else 0, checks=scn_apbs.ALLCAT, weight=4))
    if not q:
        for p in ('axi', 'axil'):
            for k in 'wr':
                o = BW if k == 'w' else BR
                out.append(S('slave', '%s slave %s slow target' % (p, k), proto=p, half=k, size=32, ops=[o(5, 2 if p == 'axi' else 1, id=1), o(9, 1, id=2), o(2, 1)],
                             actions=('reset',), max_resets=1, delay='choose', valid=('always',) * 3, ready=(L,) * 2, checks=SC, weight=9))
    return out
