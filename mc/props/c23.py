"""C23: allocators never hand out overlapping, misaligned or out-of-range blocks."""
from .common import E, S
from ..scn_alloc import buddy as _buddy, poolseq, winpool   # noqa: F401

SIM = False             # no simulator is involved


def buddy(ch, size, mn, subset=None):
    return _buddy(ch, (size, mn, subset))


def configs(tier):
    q = tier == 'quick'
    out = []
    for size in range(1, 9 if q else 12):
        for mn in (None, 1, 2, 3, 4, 5):
            if mn and mn > size + 1:
                continue
            if size > (6 if q and mn else 8) and mn in (None, 1):
                continue
            out.append(S('buddy', size=size, mn=mn, weight=size, max_states=20000 if q else 400000))
    for size, sub in ((12, (0, 3, 4, 5, 8, 9, 12, 13)), (12, (2, 4, 6, 8)), (16, (0, 3, 4, 8, 9, 16, 17)), (16, (2, 7)), (24, (4, 5, 8, 17, 24)), (32, (4, 8, 16, 32)), (33, (5, 8, 16, 33)),
                      (1000, (1000, 512, 300, 200, 129)), (2 ** 20, (2 ** 18, 2 ** 20, 2 ** 17 + 1))):
        out.append(S('buddy', size=size, mn=None, subset=sub, max_states=20000 if q else 400000))
    # sizes of real address spaces
    T = 1 << 54
    for size, mn, sub in ((4 * T, None, (T // 2 + 1, T, T - 1, T + 1, 4 * T)), (1 << 64, None, (1 << 62, (1 << 61) + 1, (1 << 64) - 1, (1 << 63) + 1)), (7 << 61, 4096, (1 << 62, (1 << 61) - 1, 7 << 61)),
                          (5 * (1 << 32) + 7, 1 << 20, (1 << 32, (1 << 31) + 1, 1 << 33, 5 << 32)), (3 << 60, None, (1 << 60, (1 << 59) + 1, 1 << 61, 3 << 60))):
        out.append(S('buddy', size=size, mn=mn, subset=sub, max_states=20000 if q else 400000))
    if not q:
        for size, sub in ((16, (1, 2, 4, 16)), (14, (1, 2, 5, 14)), (32, (2, 4, 9, 32)), (15, (1, 3, 8)), (64, (8, 9, 17, 33, 64))):
            for mn in (None, 3):
                out.append(S('buddy', size=size, mn=mn, subset=sub, max_states=400000))
    for kind in ('plain', 'sparse', 'nested', 'next to a region', 'pool in pool'):
        for base, size in ((0, 8), (8, 12), (4, 16), (3, 7)):
            d = 4 if q else 5
            sz = (1, 2, 3, 4, 5, 8, size, 0, size + 1)
            out.append(E('poolseq', '%s %d+%d' % (kind, base, size), [(kind, base, size, d, sz)], weight=2))
    for kind in ('memory', 'sparse', 'region', 'translated', 'space', 'window', 'pool'):
        for off, size, tail in ((0, 8, 0), (4, 12, 4), (3, 16, 0), (1, 5, 2)):
            sz = (1, 2, 3, 4, 8, size, 0, size + 1) if q else (1, 2, 3, 4, 5, 7, 8, size, 0, size + 1)
            out.append(E('winpool', '%s %d+%d' % (kind, off, size), [(kind, off, size, 4 if q or kind != 'memory' else 5, sz, tail)], weight=2))
    return out
