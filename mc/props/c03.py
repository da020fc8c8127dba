"""C03: pause, queue limits and backpressure stop transfers and always recover."""
from .common import *                                   # noqa: F401,F403
from .common import S, Geo, W, R, AW_, AR_


def configs(tier):
    q = tier == 'quick'
    out = []
    for w in ('mid', 'early', 'late'):
        out.append(S('ch_source', ch='gen', where=w, actions=('send', 'pause'), maxq=1, weight=2))
        out.append(S('ch_sink', ch='gen', where=w, actions=('recv', 'pause'), maxq=1, weight=2))
        out.append(S('ch_sink', ch='gen', where=w, actions=('recv', 'pause', 'clear'), maxq=1, limit=1, weight=2))
        out.append(S('ch_sink', ch='gen', where=w, actions=('recv', 'gen'), maxq=1, weight=3))
        out.append(S('ch_source', ch='gen', where=w, actions=('bsend',), maxq=2, limit=1, weight=2))
        out.append(S('as_source', where=w, actions=('send', 'pause'), which=(1,), maxq=1, weight=3))
        out.append(S('as_source', where=w, actions=('bsend',), which=(0,), maxq=2, lim=(1, 0), weight=3))
        # several senders waiting for a place
        out.append(S('ch_source', ch='gen', where=w, actions=('bsend',), maxq=4, limit=1, weight=2))
        out.append(S('ch_source', ch='gen', where=w, actions=('bsend',), maxq=4, limit=2, weight=2))
        out.append(S('as_source', where=w, actions=('bsend',), which=(0,), maxq=4, lim=(1, 0), weight=3))
        out.append(S('as_source', where=w, actions=('bsend',), which=(0, 1), maxq=4, lim=(0, 2), weight=3))
        out.append(S('as_sink', where=w, actions=('recv', 'pause'), which=(1,), weight=3))
        out.append(S('as_sink', where=w, actions=('recv', 'pause'), which=(0, 1), lim=(1, 0), weight=6))
        out.append(S('as_sink', where=w, actions=('recv', 'clear'), which=(0, 1), lim=(0, 2), weight=3))
        if w == 'mid' or not q:
            out.append(S('ch_source', ch='gen', where=w, actions=('send', 'gen'), maxq=1, weight=7))
            out.append(S('as_source', where=w, actions=('send', 'gen'), which=(1,), maxq=1, weight=7))
            out.append(S('as_sink', where=w, actions=('recv', 'gen'), which=(1,), weight=6))
            out.append(S('as_sink', where=w, actions=('rd', 'pause'), which=(1,), reads=(-1,), lim=(0, 2), weight=6))
    for c in ('axi_aw', 'axi_w', 'axi_b', 'axi_ar', 'axi_r', 'axil_aw', 'axil_w', 'axil_b', 'axil_ar', 'axil_r'):
        for w in ('mid',) if q else ('mid', 'early', 'late'):
            out.append(S('ch_source', ch=c, where=w, actions=('send', 'pause'), maxq=1))
            out.append(S('ch_sink', ch=c, where=w, actions=('recv', 'pause'), maxq=1, limit=1))
    # APB master and slave
    for w in ('mid', 'early', 'late'):
        for a in ('pause', 'gen'):
            out.append(S('apb', 'apb master %s %s' % (a, w), ops=[W(1, 6), R(9, 2, form='init')] if a == 'pause' else [W(1, 5)], where=w, issue='choose',
                         wait='choose' if a == 'pause' else 'never', checks=('pause', 'live'), actions=(a,), weight=3))
            out.append(S('apbslave', 'apb slave %s %s' % (a, w), ops=[AW_(5, 5), AR_(4), AW_(8, 3)], size=32, gap='choose', actions=(a,), where=w,
                         checks=('pause', 'live'), weight=2))
    if not q:
        for w in ('mid', 'early', 'late'):
            out.append(S('ch_source', ch='gen', where=w, actions=('send', 'bsend', 'pause', 'clear'), maxq=2, limit=1, weight=9))
            out.append(S('ch_sink', ch='gen', where=w, actions=('recv', 'brecv', 'pause', 'clear'), maxq=3, limit=2, weight=9))
            out.append(S('ch_sink', ch='gen', where=w, actions=('recv', 'pause', 'gen'), maxq=2, limit=1, weight=9))
            out.append(S('as_source', where=w, actions=('send', 'pause', 'gen'), which=(0, 1), maxq=2, weight=9, max_states=60000))
            out.append(S('as_sink', where=w, actions=('recv', 'pause', 'clear'), which=(0, 1, 2), lim=(1, 0), weight=9))
            out.append(S('as_sink', where=w, actions=('recv', 'pause', 'clear'), which=(0, 1, 2), lim=(0, 3), weight=9))
            out.append(S('as_sink', where=w, actions=('rd', 'recv', 'pause'), which=(0, 1), lim=(1, 0), weight=9))
            out.append(S('as_sink', where=w, actions=('recv', 'pause', 'reset'), which=(0, 1), lim=(1, 0), weight=9))
    return out
