"""C02: channel sources, sinks and monitors deliver every item exactly once, in order."""
from .common import *                                   # noqa: F401,F403
from .common import S, Cfg, ALLCH


def configs(tier):
    q = tier == 'quick'
    out = longs(q) + [Cfg("waits", "waits", inputs=[(c, a, t, u) for c in ("sink", "monitor") for a in (None, 0, 1, 3, 6) for t in (None, 0, 1, 2, 3, 5, 9) for u in ("step", "ns")])]
    for c in ALLCH:
        out.append(S('ch_source', ch=c, where='mid', actions=('send',), maxq=2))
        out.append(S('ch_sink', ch=c, where='mid', actions=('recv',), maxq=2))
        if c != 'gen' or not q:
            for o in ('none', 'one'):
                out.append(S('ch_source', ch=c, where='mid', actions=('send',), maxq=1, opt=o))
                out.append(S('ch_sink', ch=c, where='late', actions=('recv',), maxq=1, opt=o, idle='x'))
    for w in ('mid', 'early', 'late'):
        for c in ('gen', 'axi_w', 'axil_r') if q else ALLCH:
            if c == 'gen' or not q:
                out.append(S('ch_source', ch=c, where=w, actions=('send', 'pause'), maxq=2, weight=3))
                out.append(S('ch_sink', ch=c, where=w, actions=('recv', 'pause'), maxq=2, weight=3))
            out.append(S('ch_source', ch=c, where=w, actions=('bsend', 'send'), maxq=2, limit=1, weight=3))
            out.append(S('ch_sink', ch=c, where=w, actions=('brecv', 'recv'), maxq=2, limit=1, weight=3))
    for w in ('mid', 'early', 'late'):
        out.append(S('ch_source', ch='gen', where=w, actions=('send', 'wait'), maxq=2, weight=2))
    out.append(S('ch_source', ch='gen', where='mid', actions=('send', 'wait', 'clear'), maxq=1, weight=3))
    out.append(S('ch_source', ch='gen', where='mid', actions=('send', 'reset'), maxq=1, weight=4))
    out.append(S('ch_sink', ch='gen', where='mid', actions=('recv', 'reset'), maxq=1, weight=4))
    out.append(S('ch_sink', ch='gen', where='mid', actions=('recv', 'clear', 'pause'), maxq=2, weight=4))
    if not q:
        for w in ('mid', 'early', 'late'):
            out.append(S('ch_source', ch='gen', where=w, actions=('send', 'pause', 'clear'), maxq=3, weight=9))
            out.append(S('ch_source', ch='gen', where=w, actions=('send', 'pause', 'reset'), maxq=2, weight=9))
            out.append(S('ch_sink', ch='gen', where=w, actions=('recv', 'brecv', 'pause', 'clear'), maxq=3, limit=2, weight=9))
            out.append(S('ch_sink', ch='gen', where=w, actions=('recv', 'pause', 'reset'), maxq=2, weight=9))
    return out


def long(ch, inp):
    from .. import scn_long
    return scn_long.channel(ch, inp)


def longs(q):
    P = (None, (0, 1), (1, 0, 0, 1, 1), (0,) * 9 + (1,) * 5)
    I = []
    for n, (sender, receiver, sl, kl) in enumerate((s, r, sl, kl) for s in ('all', 'block', 'try') for r in ('poll', 'block', 'wait', 'late') for sl in (0, 1, 3) for kl in (0, 1, 4)
                                                    if (sl == 0 or s != 'all') and (kl == 0 or r != 'late')):
        for i, p in enumerate(P):
            for c in (('gen', 'axi_aw', 'axi_w', 'axil_b', 'axi_r')[n % 5],):
                I.append((c, 40, p, P[(i + n) % 4], sl, kl, sender, receiver))
    for c in ('genn', 'geno', 'genl', 'genp'):
        for sender in ('all', 'block', 'try'):
            for receiver in ('poll', 'block', 'wait', 'late'):
                for i, p in enumerate(P):
                    I.append((c, 30, p, P[3 - i] if c != 'genn' else None, 2 if sender != 'all' else 0, 3 if receiver != 'late' and c != 'genn' else 0, sender, receiver))
    for c in ('gen', 'axi_aw', 'axi_r', 'axil_w', 'geno', 'genl'):
        for v in ('entity', 'sep'):
            I.append((c + '@' + v, 12, P[1], P[2], 0, 0, 'all', 'poll'))
    L = [(c, n, None, None, 0, 0, s, r) for c in ('gen', 'axi_r') for n in (300, 1100) for s, r in (('all', 'late'), ('block', 'block'), ('try', 'poll'))]
    return [Cfg('long:users', 'long', inputs=I, weight=3, chunk=5), Cfg('long:many items', 'long', inputs=L, weight=9, chunk=1)]


def waits(ch, inp):
    from .. import scn_long
    return scn_long.timeout(ch, inp)
