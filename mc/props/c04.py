"""C04: AXI stream frames arrive intact at sinks and monitors."""
from .common import *                                   # noqa: F401,F403
from .common import S, Cfg, Geo, sub, frameset, ALLSIG

PATS = ((None, None), ((0, 1), None), (None, (0, 1)), ((1, 0, 0), (0, 1, 1)))


def geos(q):
    out = []
    for lanes in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 8, 16):
        for sg in sub(ALLSIG):
            out.append(Geo(lanes, 8, sg, 'lanes' if lanes == 3 else 'size'))
    for bs in (1, 4, 9, 16) if q else (1, 2, 4, 7, 9, 10, 16, 32):
        for lanes in (1, 2, 3):
            out.append(Geo(lanes, bs, ALLSIG, 'tkeep'))
            out.append(Geo(lanes, bs, ('tvalid', 'tready', 'tlast', 'tid'), 'lanes'))
            out.append(Geo(lanes, bs, ('tvalid', 'tready', 'tlast', 'tuser'), 'size'))
    return out


def e2e_inputs(q):
    out = []
    for g in geos(q):
        L = g.lanes
        lens = sorted({1, 2, L - 1, L, L + 1, 2 * L - 1, 2 * L, 2 * L + 1, 3 * L} - {0})
        for pi, (sp, kp) in enumerate(PATS):
            if q and pi in (1,):
                continue
            if 'tready' not in g.sigs and kp:
                continue
            forms = ((0, 1, 2, 3) if 'tkeep' not in g.sigs else (0, 1, 2, 3, 4))
            if q and len(g.sigs) not in (7, 6, 1, 2):
                forms = (2, 4) if 'tkeep' in g.sigs else (2, 3)
            out.append((g, frameset(g, lens, forms), sp, kp))
    return out


def wide_inputs():
    """Streams of many lanes, and of lanes of many bits."""
    out = []
    sigs = (ALLSIG, tuple(s for s in ALLSIG if s != 'tkeep'), ('tvalid', 'tready', 'tlast', 'tkeep'), ('tvalid', 'tready', 'tkeep', 'tuser'), ('tvalid', 'tready'))
    for lanes, bs in ((5, 8), (6, 8), (7, 8), (8, 8), (12, 8), (16, 8), (32, 8), (64, 8), (128, 8), (8, 1), (64, 1), (16, 32), (4, 64), (2, 128)):
        for i, sg in enumerate(sigs):
            if i > 2 and (lanes > 16 or bs != 8):
                continue
            g = Geo(lanes, bs, sg, 'tkeep' if 'tkeep' in sg and i % 2 else 'lanes' if bs != 8 else 'size')
            lens = sorted({1, 2, lanes - 1, lanes, lanes + 1, 2 * lanes, 3 * lanes + 1})
            for sp, kp in (PATS if lanes in (5, 8) else PATS[:1] + PATS[3:]):
                out.append((g, frameset(g, lens, (0, 1, 2, 3) + ((4,) if 'tkeep' in sg else ())), sp, kp))
    for via in ('entity', 'sep'):
        for sg in sigs[:3]:
            g = Geo(2, 8, sg, 'size', via=via)
            out.append((g, frameset(g, (1, 2, 3, 5), (0, 2)), None, (0, 1)))
    out += [(Geo(l, 8, ALLSIG), frameset(Geo(l, 8, ALLSIG), (n,), (0, 2)), None, None) for l in (1, 4, 8) for n in (255, 256, 257, 1024, 1500, 2049)]
    return out


def configs(tier):
    q = tier == 'quick'
    I = e2e_inputs(q)
    wd = wide_inputs()
    out = [Cfg('wide streams', 'as_e2e', inputs=wd, weight=5, chunk=3), Cfg('wide streams, raw', 'as_e2e', args=dict(compact=False), inputs=wd[::3], weight=5, chunk=3),
           Cfg('source-to-sink', 'as_e2e', inputs=I, weight=5, chunk=20),
           Cfg('source-to-sink-raw', 'as_e2e', args=dict(compact=False), inputs=I[::5] if q else I, weight=5, chunk=20),
           Cfg('source-to-sink, read late', 'as_e2e', args=dict(rd=(7, 4)), inputs=I[1::5] if q else I, weight=5, chunk=20),
           Cfg('source-to-sink, read last', 'as_e2e', args=dict(rd=(10 ** 6, 10 ** 6), compact=False), inputs=I[2::5] if q else I, weight=5, chunk=20),
           Cfg('concurrent-senders', 'as_e2e', args=dict(how='send'), inputs=I[::7] if q else I, weight=5, chunk=20)]
    for w in ('mid', 'early', 'late'):
        if w == 'mid' or not q:
            out.append(S('as_source', where=w, actions=('send', 'pause'), which=(1, 2), maxq=2, weight=8))
        out.append(S('as_source', where=w, actions=('bsend',), which=(0, 1), maxq=2, lim=(1, 0), weight=3))
        out.append(S('as_sink', where=w, actions=('recv', 'pause'), which=(1, 2), weight=8))
        out.append(S('as_sink', where=w, actions=('recv',), which=(0, 1, 2), compact=False, idle='x', weight=3))
        out.append(S('as_sink', where=w, actions=('recv',), which=(1, 2), lazy=1, weight=3))
        out.append(S('as_sink', where=w, actions=('recv',), which=(4, 1, 5), weight=3))
    out.append(S('as_source', where='mid', actions=('send', 'reset'), which=(1,), maxq=1, weight=8))
    out.append(S('as_sink', where='mid', actions=('recv', 'reset'), which=(1,), weight=8))
    out.append(S('as_sink', where='mid', actions=('recv', 'pause'), which=(1, 2), weight=8, lim=(1, 0)))
    if not q:
        for w in ('mid', 'early', 'late'):
            for g in (Geo(1, 8, ALLSIG), Geo(3, 4, ALLSIG), Geo(2, 8, ('tvalid', 'tready', 'tlast'), 'size'), Geo(2, 8, ('tvalid', 'tlast', 'tkeep')),
                      Geo(2, 16, ('tvalid', 'tready', 'tid'), 'lanes')):
                out.append(S('as_source', name='%s,%r' % (w, g), g=g, where=w, actions=('send', 'pause'), which=(0, 1, 2), maxq=2, weight=9,
                             max_states=40000))
                out.append(S('as_sink', name='%s,%r' % (w, g), g=g, where=w, actions=('recv', 'pause'), which=(0, 1, 2), maxq=2, weight=9,
                             max_states=40000))
    return out
