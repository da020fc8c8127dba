"""C22: address spaces and windows route every access to the right target."""
import itertools
from .common import E
from ..scn_space import layout, high, nested, windows, typed, defaults   # noqa: F401

def routed(ch, inp, **k):
    from .. import scn_bus
    return scn_bus.routed(ch, inp, **k)


def bridge(ch, inp, **k):
    from .. import scn_bus
    return scn_bus.bridge(ch, inp, **k)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def configs(tier):
    q = tier == 'quick'
    out = []
    bases, sizes, offs = (0, 4, 8, 12, 16, 20), (4, 8, 12), (0, None, 4)
    one = [(b, s, o) for b in bases for s in sizes for o in offs if b + s <= 24]
    out.append(E('layout', 'one region', [(e,) for e in one] + [((b, s, 0, 0),) for b in bases for s in sizes if b + s <= 24] + [(e + (5,),) for e in one]))
    two = [(a, b) for a in one for b in one]
    out.append(E('layout', 'two regions', two, weight=4))
    out.append(E('layout', 'odd overlaps', [((b, s, 0), (b2, s2, 0, 0)) for b in range(0, 9) for s in (1, 3, 5) for b2 in range(0, 13) for s2 in (1, 2, 4)], weight=2))
    out.append(E('layout', 'registered twice', [((b, s, 0, 16), (b2, s2, o2, 'same')) for b in bases for s in (4, 8) for b2 in bases for s2 in (4, 8) for o2 in (0, 2, 8)
                                              if b + s <= 24 and b2 + s2 <= 24]))
    small = [e for e in one if e[1] != 12 and (e[0] % 8 == 0 or e[1] == 4)]
    three = list(itertools.product(small, repeat=3))
    disjoint = [t for t in three if not any(a[0] < b[0] + b[1] and b[0] < a[0] + a[1] for a, b in itertools.combinations(t, 2))]
    out.append(E('layout', 'three regions', disjoint[::9] + three[::97] if q else three, weight=5))
    G = 1 << 32
    hb, hs = (0, 8, G - 16, G - 1, G, G + 8, (1 << 40) - 4, 1 << 53, (1 << 53) + 1, 1 << 63, (1 << 64) - 32), (16, 32, G, 1 << 53)
    h1 = [(b, s, o) for b in hb for s in hs for o in (0, None, 8, G + 4) if b + s <= 1 << 64]
    out.append(E('high', 'high one', [(1 << 64, (e,)) for e in h1], chunk=5))
    h2 = [(a, b) for a in h1 for b in h1 if a[1] != b[1] or a[0] > b[0]]
    out.append(E('high', 'high two', [(1 << 64, t) for t in (h2[::41] if q else h2[::3])], chunk=5, weight=4))
    out.append(E('high', 'high sizes', [(S, ((0, S, o),)) for S in (G - 1, G, G + 1, (1 << 53) + 1, (1 << 64) - 1, 1 << 65) for o in (0, None, 1)]))
    inner = [((b, s, o), (b2, s2, o2)) for b, s in ((0, 4), (2, 4), (0, 8)) for o in (0, 2, None) for b2, s2 in ((4, 4), (8, 4), (6, 2)) for o2 in (0, None)]
    out.append(E('nested', 'two levels', [(ob, osz, off, i, t) for ob in (0, 4, 16) for osz in (8, 12) for off in (0, 2, None) for i in (inner[::2] if q else inner)
                                         for t in (None, (0, 4, 0), (12, 4, 0), (28, 4, 4))], weight=4))
    for pk in ('rec', 'mem', 'sparse', 'sync', 'async', 'resp', 'reg', 'regs', 'regt', 'regn', 'space', 'inner'):
        c1 = [((o, s),) for o in range(-1, 14) for s in (None, 0, 1, 2, 4, 7, 12, 13)]
        c2 = [((o, s), (o2, s2)) for o, s in ((0, 12), (0, None), (3, 8), (5, 5), (4, 1), (9, 3)) for o2 in range(-1, 8) for s2 in (None, 0, 1, 3, 5, 8)]
        c3 = [((o, s), (o2, s2), (o3, s3)) for o, s in ((2, 10), (1, None)) for o2, s2 in ((0, 8), (3, 6), (2, None)) for o3 in (0, 1, 2, 5, 6) for s3 in (1, 3, 4, 5, None)]
        for how in ('plain', 'pool', 'type'):
            if how != 'plain' and pk in ('sparse', 'async', 'resp', 'regs') and q:
                continue
            out.append(E('windows', '%s %s' % (pk, how), [(pk, c, how) for c in c1 + c2 + c3]))
    out.append(E('typed', 'types', [0, 5, 0x1000]))
    out.append(E('defaults', 'defaults', [(h, S, b, s) for h in ('pool', 'space', 'region') for S in (16, 32, 64) for b in (None, 0, 8, 16, 24, S - 8, S, S + 4)
                                          for s in (None, 4, 8, 16, 32, 64)]))
    buses = (('axi', 32, 5), ('axil', 32, 5), ('apb', 32, 5), ('axi', 16, 5), ('axil', 64, 5), ('apb', 8, 5))
    lens = (0, 1, 2, 3, 5, 8, 9, 16, 17, 24)
    for b in buses:
        for b2 in (('rec', 'mem') if q else ('rec', 'mem', 'async', 'resp') + buses[:3]):
            for off in (0, 4, None):
                # bus | other | hole | bus-sized range elsewhere
                spec = ((b, 8, 16, off if off is None else off), (b2, 24, 8, 0))
                grid = [(a, n) for a in range(-1, 36) for n in lens]
                for pat in ((0, 1) if q else (0, 1, 2, 3)):
                    if q and pat and b2 == 'mem':
                        continue
                    g = grid[pat % 3::3] if q else grid
                    out.append(E('routed', '%s-%s off %s pat %d' % (b, b2, off, pat), [(spec, 40, c, 'plain') for c in chunks(g, 40)], pat=pat))
        for view in ('window', 'target window', 'outer'):
            spec = ((b, 0, 32, 0), ('rec', 36, 8, 0))
            g = [(a, n) for a in range(-1, 44) for n in lens]
            out.append(E('routed', '%s %s' % (b, view), [(spec, 48, c, view) for c in chunks(g[::4] if q else g, 40)], pat=1))
    for b in (('axi', 32, 7), ('axil', 32, 7), ('apb', 32, 7), ('axi', 64, 7), ('axil', 8, 7)):
        for t in (('axil', 32, 5), ('apb', 16, 5), ('axi', 32, 5)):
            for off in (0, None) if not q else (0,):
                spec = ((t, 8, 16, off), ('rec', 24, 8, 0), ('mem', 32, 8, 0), ('sync', 64, 64, 0))
                g = [(a, n) for a in range(4, 45) for n in (1, 2, 3, 4, 5, 8, 9, 16)] + [(60, 8), (120, 8), (126, 2), (124, 3)]
                for pat in (0, 1) if q else (0, 1, 2, 3):
                    for lv in ((20,) if pat else (20, 10)):
                        out.append(E('bridge', '%s to %s off %s pat %d log %d' % (b, t, off, pat, lv), [(b, spec, c) for c in chunks(g[pat::6] if q else g, 20)], pat=pat, loglevel=lv))
    for b in (('axi', 32, 7), ('axil', 32, 7), ('apb', 32, 7), ('axi', 64, 7), ('axil', 8, 7)):
        for t in (('axil', 32, 5), ('apb', 16, 5), ('axi', 32, 5), 'resp', 'async'):
            g = [(a, n) for a in list(range(0, 8)) + list(range(24, 36)) for n in (1, 2, 3, 4, 5, 8, 9, 16)]
            if not isinstance(t, tuple):
                spec = ((t, 0, 32, 0),)
            else:
                spec = ((t, None, None, None),)
            for lv in (20, 10):
                out.append(E('bridge', '%s to %s direct log %d' % (b, t, lv), [(b, spec, c) for c in chunks(g[(lv > 10)::4] if q else g, 20)], pat=2, loglevel=lv))
    return out
