"""C07: byte-stream reads return every byte once, in order, across frame boundaries."""
from .common import *                                   # noqa: F401,F403
from .common import S, Cfg, Geo


def configs(tier):
    q = tier == 'quick'
    out = longs(q)
    for w in ('mid', 'early', 'late'):
        out.append(S('as_sink', where=w, actions=('rd', 'recv'), which=(0, 1), reads=(1, -1), weight=6))
        out.append(S('as_sink', where=w, actions=('brd', 'rd'), which=(1,), reads=(1, 4), weight=9))
        if w == 'mid' or not q:
            out.append(S('as_sink', where=w, actions=('rd', 'brd', 'brecv'), which=(2,), reads=(2,), weight=6))
            out.append(S('as_sink', where=w, actions=('rd', 'pause'), which=(1,), reads=(2,), lim=(1, 0), weight=9))
            out.append(S('as_sink', where=w, actions=('rd', 'recv', 'clear'), which=(1,), reads=(2, 0), weight=4))
        # frames, and beats, without any byte
        out.append(S('as_sink', where=w, actions=('brd', 'rd'), which=(4, 5), reads=(1, -1), weight=6))
        out.append(S('as_sink', where=w, actions=('brd', 'recv'), which=(4, 0), reads=(2,), weight=6))
    if not q:
        for w in ('mid', 'early', 'late'):
            out.append(S('as_sink', where=w, actions=('rd', 'brd', 'recv'), which=(0, 1, 2), maxq=2, reads=(1, 2, 5, -1), maxrq=8, weight=9, max_states=60000))
            out.append(S('as_sink', where=w, actions=('rd', 'brd', 'pause'), which=(1, 2), maxq=2, reads=(1, 3, -1), maxrq=8, weight=9, max_states=60000))
            for g in (Geo(3, 4), Geo(1, 8), Geo(2, 8, ('tvalid', 'tready', 'tlast'), 'size')):
                out.append(S('as_sink', name='%s,%r' % (w, g), g=g, where=w, actions=('rd', 'brd', 'recv'), which=(0, 1), maxq=2,
                             reads=(1, 2, -1), maxrq=8, weight=9, max_states=60000))
    return out


def long(ch, inp):
    from .. import scn_long
    return scn_long.bytestream(ch, inp)


def longs(q):
    I = []
    sig = ('tvalid', 'tready', 'tlast', 'tkeep')
    geos = (Geo(1, 8), Geo(4, 8), Geo(3, 8, sig), Geo(8, 8, sig), Geo(4, 16, sig, 'lanes'), Geo(1, 8, ('tvalid', 'tready', 'tlast'), 'size'))
    lens = ((1, 2, 3, 4, 5, 6, 7), (16, 1, 1, 1, 33, 2), (1,) * 20, (100, 7))
    cnt = ((1,), (2, 3), (7, 1, 0), (-1,), (4,), (64,), (13, -1), (1000,))
    P = ((None, None), ((0, 1), None), (None, (1, 0, 1)))
    for i, g in enumerate(geos):
        for j, l in enumerate(lens):
            for k, c in enumerate(cnt):
                for form in ('poll', 'block', 'late'):
                    if 0 in c and form != 'late' and len(c) == 1:
                        continue
                    I.append((g, l) + P[(i + j + k) % 3] + (0, 0, c, form))
                    if form != 'late' and (j + k) % 3 == 0 or not q:
                        I.append((g, l) + P[(i + k) % 3] + (1, 0, c, form))
                        I.append((g, l) + P[(i + k) % 3] + (0, 8, c, form))
    L = [(g, l, None, None, 0, 0, c, f) for g in (Geo(1, 8), Geo(8, 8, sig)) for l in ((3,) * 400, (1500,) * 3, (1, 300) * 20) for c in ((1,), (64,), (1499, 2)) for f in ('poll', 'block', 'late')]
    return [Cfg('long:reads', 'long', inputs=I, weight=3, chunk=5), Cfg('long:many', 'long', inputs=L, weight=9, chunk=1)]
