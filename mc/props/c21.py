"""C21: memories and memory regions behave as a flat byte array."""
from .common import E
from ..scn_mem import mem_in, dump_util, KINDS           # noqa: F401
from .. import scn_mem

SIM = False             # no simulator is involved


def grids(size, rich):
    edges = {0, 1, size - 1, size - 2, size, size + 1, size // 2}
    if size > 4096:
        for b in range(4096, min(size, 12289), 4096):
            edges |= {b - 2, b - 1, b, b + 1}
    if size > 1 << 40:
        edges |= {size - 4097, size - 4096, (1 << 63) - 1, 1 << 63, (1 << 32) - 1}
    edges = sorted(e for e in edges if e >= 0)
    lens = [0, 1, 2, 3] + ([4095, 4096, 4097, 8195] if size > 4096 else [size - 1, size, size + 1])
    lens = sorted(set(n for n in lens if n >= 0))
    grid = [(a, n) for a in edges for n in lens]
    items = [(a, None) for a in edges if a >= 0] + [(a, n) for a in edges for n in (0, 1, 3, 4097)]
    return edges, lens, grid, items


def configs(tier):
    q = tier == 'quick'
    out = []
    for size in (1, 2, 5, 16, 4095, 4096, 4097, 3 * 4096 + 7):
        edges, lens, grid, items = grids(size, not q)
        big = size > 4096
        neg = [(-1, 1), (-1, 0), (-1, 2), (-5, 3), (0, -1), (1, -2), (size, -1)]
        for kind in KINDS:
            mm = kind.startswith('memory')
            ops = [('write', a, n) for a in edges for n in lens if n or a < 2]
            if not mm:
                ops += [('write', a, n) for a, n in ((-1, 1), (-2, 1), (-1, 2), (-1, 0), (-size, size))]
            ops += [('slice', a, n) for a in edges for n in (1, 3, 4097) if a + n <= size] + [('slice', size - 1, 3), ('slice', size, 1)]
            ops += [('item', a, 1) for a in edges]
            ops += [('badslice', a, n, k) for a, n, k in ((0, 2, 1), (0, 1, 3), (1, 0, 1), (0, 3, 0)) if a + k <= size]
            if size >= 5:
                ops += [('stepped', 0, 2), ('stepped', size - 5, 2)]
            if kind == 'sparse':
                ops.append(('clear', 0, 0))
            g = grid + ([] if mm else neg)
            dumps = [(0, min(size, 40)), (size // 2, min(17, size - size // 2)), (max(0, size - 5), min(5, size))] + ([(4090, 20)] if size > 4110 else [])
            out.append(E('mem_in', '%s size=%d depth 2' % (kind, size), list(range(len(ops))), kind=kind, size=size, ops=ops, depth=2, grid=g, items=items, dumps=dumps,
                         weight=5 if big else 2, later=1 if not q else 5 if big else 2))
            few = [o for o in ops if o[1] + o[2] <= size and o[2] and o[1] >= 0 and o[0] in ('write', 'item', 'clear')]
            if big or q:
                few = few[::2 if not q else max(1, len(few) // (9 if big else 7))]
            out.append(E('mem_in', '%s size=%d depth %d' % (kind, size, 3 if q else 4), list(range(len(few))), kind=kind, size=size, ops=few, depth=3 if q else 4, grid=g[::3], items=items[::3],
                         dumps=dumps[:1], weight=5 if big else 2))
    size = 1 << 64
    edges, lens, grid, items = grids(size, True)
    neg = [(-1, 1), (-1, 2), (0, -1)]
    for kind in ('sparse', 'memory', 'memory default', 'sparse region', 'sparse region default', 'memory on sparse'):
        mm = kind.startswith('memory')
        ops = [('write', a, n) for a in edges for n in (1, 2, 4097)] + [('item', a, 1) for a in edges[::2]] + [('slice', a, 3) for a in edges[::2]]
        if not mm:
            ops += [('write', -1, 1), ('write', -1, 2)]
        dumps = [(0, 20), ((1 << 63) - 9, 20), (size - 16, 16)]
        out.append(E('mem_in', '%s size=2**64 depth 2' % kind, list(range(len(ops))), kind=kind, size=size, ops=ops, depth=2, grid=grid[::2 if q else 1] + ([] if mm else neg),
                     items=items[::2], dumps=dumps, weight=4, later=8 if q else 1))
    inp = [(n, s, ln, row, off) for n in (0, 1, 15, 16, 17, 33) for s in range(0, n + 1, 3) for ln in (None, 1, 16, 20, 40) for row in (16, 8, 1, 5) for off in (0, 0x1234, 1 << 40)]
    out.append(E('dump_util', 'dump functions', inp))
    return out
