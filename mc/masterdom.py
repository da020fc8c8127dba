"""Bounded domains of operations for the master checks."""
from .bfm import VIA
from .scn_master import W, R, FIXED, WRAP

L = 'lazy'
AL = 'always'
SLOW3 = (1, 0, 0)
P2 = (0, 1)


def op(kind, a, n, **k):
    return (W if kind == 'w' else R)(a, n, **k)


def geo(kind, dw, offs, lens, sizes, bases=(0,), follow=True, **k):
    """Operation lists: every (base+offset, length, size), with a plain operation after it."""
    out = []
    bw = dw // 8
    forms = ('coro', 'init', 'ev')
    i = 0
    for b in bases:
        for o in offs:
            for n in lens:
                for s in sizes:
                    a = b + o
                    if a < 0:
                        continue
                    ops = [op(kind, a, n, size=s, form=forms[i % 3], **k)]
                    if follow:
                        ops.append(op(kind, (a * 3 + n + 5) % 61, bw + 1, form=forms[(i + 1) % 3]))
                    out.append(dict(ops=ops))
                    i += 1
    return out


def fixed(kind, dw, offs, lens, sizes, **k):
    return geo(kind, dw, offs, lens, sizes, burst=FIXED, **k)


def wraps(kind, dw, mul=1):
    """All legal wrapping bursts of the bus width, at every aligned start in two wrap blocks."""
    out = []
    bw = dw // 8
    for s in range(bw.bit_length()):
        nb = 1 << s
        for beats in (2, 4, 8, 16):
            span = nb * beats
            for st in range(0, span, nb):
                for base in (0, 0x1000 - span) if mul > 1 else ((0x1000 - span) if st % (2 * nb) else 0x40 // span * span,):
                    out.append(dict(ops=[op(kind, base + st, span, size=s, burst=WRAP), op(kind, 3, bw + 2)]))
    return out


def wide(kind, dw, lite=False):
    """A few operations of every shape on a wide data bus."""
    bw = dw // 8
    full = bw.bit_length() - 1
    out = []
    for s in (None,) if lite else (None, full, full - 1, full // 2, 0):
        nb = bw if s is None else 1 << s
        for o in (0, 1, bw // 2 - 1, bw // 2, bw - 1):
            for n in sorted({1, nb, nb + 1, 3 * nb - 1, bw - 1, bw, 2 * bw + 1}):
                if n <= 40 * nb:
                    out.append(dict(ops=[op(kind, 0x1000 + o, n, size=s), op(kind, 0x840 - bw + o, bw + 1, form='init')]))
    return out


def high(kind, dw, aw, lite=False):
    """Operations around high addresses."""
    bw = dw // 8
    out = []
    top = 1 << aw
    for b in (1 << 12, 1 << 16, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 0x1000, 1 << 33, 0xdeadbeef0000, 1 << 48, 1 << 52, 1 << 53, 1 << 63, top):
        if b > top:
            continue
        for d in (1, 2, bw, bw + 1, 2 * bw + 1, 30):
            for n in (1, 2, bw + 1, 17, 30):
                if b - d + n <= top:
                    for s in (None,) if lite else (None, 0):
                        out.append(dict(ops=[op(kind, b - d, n, size=s), op(kind, top - bw, bw, form='init')]))
    return out


def big(kind, dw, lens=None):
    """Operations over several 4 KiB pages and many bursts."""
    bw = dw // 8
    out = []
    for a in (0, 0xfff, 0x1003):
        for n in lens or (4097, 8192, 9001):
            out.append(dict(ops=[op(kind, a, n), op(kind, 5, bw)]))
    out.append(dict(ops=[op(kind, 0x7fd, (lens or (4097,))[0], form='init'), op(kind, 0x5001, (lens or (4097,))[0], form='ev', id=1)]))
    return out


def scale(kind, chk, lite=False):
    """Sizes a test bench may really have: wide buses, 64-bit addresses, operations of many bursts."""
    from .props.common import E
    fast = dict(ready=(AL, AL, AL), resp=('fifo', 'fifo'), checks=chk, half=kind)
    if lite:
        fast['proto'] = 'axil'
    out = []
    for dw in (64, 128, 256) if lite else (64, 128, 256, 512, 1024):
        out.append(E('master_in', '%s scale dw=%d' % (kind, dw), wide(kind, dw, lite), dw=dw, aw=16, weight=3, chunk=10, **fast))
    for dw, aw in ((32, 64), (64, 64), (8, 40), (32, 32), (128, 48)):
        out.append(E('master_in', '%s scale aw=%d dw=%d' % (kind, aw, dw), high(kind, dw, aw, lite), dw=dw, aw=aw, weight=3, chunk=20, **fast))
    for dw in (64, 8) if lite else (64, 512, 1024, 8):
        out.append(E('master_in', '%s scale big dw=%d' % (kind, dw), big(kind, dw, (257, 520) if lite else (2051,) if dw == 8 else (12301, 40000) if dw > 64 else None), dw=dw, aw=20,
                     weight=9, chunk=1, K=20000, **fast))
    many = [dict(issue=i, ops=[op(kind, 5 * k, 1 + k % 7, form=f) for k in range(n)]) for n, i, f in ((300, 'all', 'init'), (300, 'all', 'coro'), (520, 'serial', 'coro'))]
    out.append(E('master_in', '%s scale many' % kind, many, dw=32, aw=16, weight=9, chunk=1, K=9000, **fast))
    # other ways to make the bus object
    for h in (kind, 'rw'):
        inp = [dict(via=v, ops=[op(kind, a, n, form=f, prot=3), op(kind, 5, 9)]) for v in VIA for a in (0, 3, 0xffe) for n in (1, 4, 11) for f in ('coro', 'init')]
        out.append(E('master_in', '%s bus objects %s' % (kind, h), inp, dw=32, aw=16, **dict(fast, half=h)))
    if not lite:
        inp = [dict(mbl=m, ops=[op(kind, a, n), op(kind, 5, 9)]) for m in (-1, 0, 255, 257, 512, 100000) for a in (0, 0x8ff) for n in (1, 17, 255, 256, 257, 600)]
        out.append(E('master_in', '%s scale mbl' % kind, inp, dw=8, aw=16, weight=5, chunk=4, K=3000, **fast))
        inp = [dict(idw=i, ops=[op(kind, 4 * k, 4, form='init') for k in range(n)]) for i, n in ((1, 20), (4, 40), (8, 300), (9, 60), (16, 40))]
        out.append(E('master_in', '%s scale ids' % kind, inp, dw=32, aw=16, weight=9, chunk=1, K=3000, **fast))
        inp = [dict(idw=i, ops=[op(kind, 4 * k, 4 + k % 3, form='init', id=((1 << i) - 1 - k * 7) % (1 << i)) for k in range(12)]) for i in (4, 8, 9, 16, 32)]
        out.append(E('master_in', '%s scale given ids' % kind, inp, dw=32, aw=16, weight=2, **dict(fast, resp=('lifo', 'lifo'))))
    return out
