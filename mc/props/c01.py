"""C01: a valid/ready handshake is held until accepted and never waits for ready."""
from .common import *                                   # noqa: F401,F403
from .common import S, E, W, R, BW, BR, Geo, ALLCH
from .. import masterdom as D, slavedom as SD
from ..masterdom import L, AL

# `live` with a peer that never raises ready: valid must not wait for it
MC = ('stable', 'live')
SC = ('stable', 'live')
NV = 'never'


def configs(tier):
    q = tier == 'quick'
    out = []
    # sources of every channel type: every schedule of sends, pauses, readiness
    for c in ALLCH:
        out.append(S('ch_source', ch=c, where='mid', actions=('send', 'pause'), maxq=1, weight=2))
        out.append(S('ch_source', ch=c, where='mid', actions=('send',), maxq=1, ready='never', weight=1))
        if not q:
            for w in ('early', 'late'):
                out.append(S('ch_source', ch=c, where=w, actions=('send', 'pause', 'reset') if c == 'gen' else ('send', 'pause'), maxq=2, weight=6))
    for w in ('mid', 'early', 'late'):
        if w != 'early' or not q:
            out.append(S('ch_source', ch='gen', where=w, actions=('send', 'clear') if q else ('send', 'pause', 'clear'), maxq=1, weight=4))
            out.append(S('ch_source', ch='gen', where=w, actions=('send', 'reset'), maxq=1, weight=4))
        out.append(S('as_source', where=w, actions=('send', 'pause'), which=(0, 1), maxq=1, weight=4))
        out.append(S('as_source', where=w, actions=('send', 'clear'), which=(1,), maxq=1, weight=4))
        out.append(S('as_source', where=w, actions=('send', 'reset'), which=(1,), maxq=1, weight=6))
        if not q:
            out.append(S('as_source', where=w, actions=('send', 'pause', 'reset', 'gen'), which=(0, 1), maxq=1, weight=9, max_states=60000))
    out.append(S('as_source', where='mid', actions=('send', 'pause'), which=(0, 1), maxq=1, ready='never', weight=2))
    # masters: every stall pattern of each channel; a slave that never becomes ready
    for p in ('axi', 'axil'):
        for k in 'wr':
            o = W if k == 'w' else R
            ops = [o(1, 6), o(9, 3, form='init')]
            rdy = ((L, AL, AL), (AL, L, AL)) if k == 'w' else ((AL, AL, L),)
            for i, rd in enumerate(rdy):
                out.append(S('master', '%s %s stall %d' % (p, k, i), proto=p, half=k, ops=ops, issue='choose', mbl=1, ready=rd, resp=('stall',), checks=MC, weight=6))
            if not q:
                out.append(S('master', '%s %s stall all' % (p, k), proto=p, half=k, ops=ops, issue='choose', mbl=1, ready=(L, L, L), resp=('stall',), checks=MC, weight=8))
            out.append(S('master', '%s %s reset' % (p, k), proto=p, half=k, ops=ops[:1], issue='choose', ready=(L, L, L), actions=('reset',), resp=('fifo',), checks=MC, weight=6))
            out.append(E('stuck', '%s %s' % (p, k), [dict(ops=[o(a, n)], never=c) for a in (0, 1, 3) for n in (1, 4, 9)
                                                    for c in (('aw', 'w', 'aw w') if k == 'w' else ('ar',))], proto=p, half=k))
    # slaves
    for p in ('axi', 'axil'):
        for k in 'wr':
            o = BW if k == 'w' else BR
            ops = [o(5, 2, id=1), o(9, 1, id=2)] if p == 'axi' else [o(5, 1), o(9, 1)]
            out.append(S('slave', '%s %s' % (p, k), proto=p, half=k, ops=ops + [o(4, 1)] if k == 'r' else ops, valid=('choose',) * 3 if k == 'r' else ('choose', AL, AL),
                         ready=(L,) * 2, checks=SC, delay='choose', weight=6))
            out.append(S('slave', '%s %s reset' % (p, k), proto=p, half=k, ops=ops, valid=(AL,) * 3, ready=(L,) * 2, checks=SC, actions=('reset',), weight=6))
            out.append(E('sstuck', '%s %s' % (p, k), [dict(ops=[o(a, n if p == 'axi' else 1), o(1, 1)]) for a in (0, 5) for n in (1, 4)], proto=p, half=k))
    return out


def stuck(ch, inp, proto, half):
    """A slave that never raises ready on some channels: each of these must show valid soon, and keep it."""
    from ..core import Violation
    from ..scn_master import MSc
    from ..bfm import ReadyPeer        # noqa: F401
    never = inp['never'].split()
    rd = tuple('never' if c in never else 'always' for c in ('aw', 'w', 'ar'))
    sc = MSc(ch, inp['ops'], proto=proto, half=half, ready=rd, checks=('stable',))
    x = sc.x
    for k in range(30):
        sc.actor.mid()
        x.cycle()
        if k >= 12:
            for c in never:
                if sc.ch[c].valid.val != '1':
                    raise Violation('%s: valid is not raised (or withdrawn) while ready is never high' % c)
    x.close()
    return 'ok'


def sstuck(ch, inp, proto, half):
    """A master that never takes a response: valid must come all the same."""
    from ..core import Violation
    from ..scn_slave import SSc
    sc = SSc(ch, inp['ops'], proto=proto, half=half, ready=('never', 'never'), checks=('stable',))
    c = sc.ch['b' if half == 'w' else 'r']
    for k in range(30):
        sc.x.cycle()
        if k >= 16 and c.valid.val != '1':
            raise Violation('%s: valid is not raised (or withdrawn) while ready is never high' % c.name)
    sc.x.close()
    return 'ok'
