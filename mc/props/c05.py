"""C05: AXI stream accounting, status and completion notices are exact."""
from .common import *                                   # noqa: F401,F403
from .common import S, Cfg


def configs(tier):
    q = tier == 'quick'
    out = [Cfg("waits", "waits", inputs=[("axis " + c, a, t, u) for c in ("sink", "monitor") for a in (None, 0, 1, 3, 6) for t in (None, 0, 1, 2, 3, 5, 9) for u in ("step", "ns")])]
    for w in ('mid', 'early', 'late'):
        for t in ('call', 'event'):
            if q and t == 'event' and w != 'mid':
                continue
            out.append(S('as_source', where=w, actions=('send', 'clear'), which=(0, 1), maxq=2, txc=t, weight=4))
            out.append(S('as_source', where=w, actions=('send', 'reset'), which=(1,), maxq=1, txc=t, weight=6))
        out.append(S('as_source', where=w, actions=('send', 'wait'), which=(1,), maxq=1, weight=2))
        out.append(S('as_source', where=w, actions=('bsend', 'send'), which=(0, 1), maxq=3, lim=(0, 3), weight=4))
        out.append(S('as_source', where=w, actions=('bsend', 'send'), which=(0, 3), maxq=3, lim=(1, 0), weight=4))
        out.append(S('as_sink', where=w, actions=('recv', 'clear', 'pause'), which=(1,), lim=(0, 2), weight=4))
        out.append(S('as_sink', where=w, actions=('recv', 'wait'), which=(0, 1), weight=2))
        out.append(S('as_sink', where=w, actions=('brecv', 'recv'), which=(0, 1), weight=2))
        out.append(S('as_sink', where=w, actions=('rd', 'recv'), which=(1,), weight=2))
        out.append(S('as_sink', where=w, actions=('recv', 'reset'), which=(1,), weight=2))
        if w == 'mid' or not q:
            out.append(S('as_source', where=w, actions=('send', 'wait', 'clear', 'pause'), which=(1,), maxq=1, weight=6))
    out.append(S('as_source', where='mid', actions=('send', 'creset'), which=(1,), maxq=1, weight=6))
    out.append(S('as_sink', where='mid', actions=('recv', 'creset'), which=(1,), weight=6))
    if not q:
        for w in ('mid', 'early', 'late'):
            out.append(S('as_source', where=w, actions=('send', 'clear', 'reset'), which=(0, 1), maxq=2, weight=9, max_states=40000))
            out.append(S('as_source', where=w, actions=('send', 'bsend', 'pause', 'wait'), which=(0, 1), lim=(1, 0), maxq=2, weight=9, max_states=40000))
            out.append(S('as_sink', where=w, actions=('recv', 'brecv', 'clear', 'wait', 'pause'), which=(0, 1), weight=9, max_states=40000))
            out.append(S('as_sink', where=w, actions=('recv', 'clear', 'reset'), which=(0, 1), weight=9, max_states=40000))
            out.append(S('as_sink', where=w, actions=('recv', 'rd', 'brd'), which=(0, 1, 2), maxq=2, weight=9, max_states=40000))
    return out


def waits(ch, inp):
    from .. import scn_long
    return scn_long.timeout(ch, inp)
