"""Bounded domains of bursts and accesses for the slave checks."""
import itertools
from .bfm import VIA
from .scn_slave import BW, BR, FIXED, INCR, WRAP


def B(kind, *a, **k):
    if kind == 'r':
        k.pop('strb', None)
    return (BW if kind == 'w' else BR)(*a, **k)


def tail(kind, i):
    """A second burst right behind."""
    return B(kind, (i * 7 + 3) % 64, 1 + i % 3, id=(i + 1) % 4, strb=(i * 5 + 1) % 16 | 1)


STRB = (-1, (0x55, 0xaa), (0x0f, 0xf0), (0, -1), (1, 2, 4, 8, 16, 32, 64, 128), (-2, -3, 0x7e))


def incr(kind, dw, lens, offs=None, strbs=STRB, base=0):
    bw = dw // 8
    out = []
    i = 0
    for s in range(bw.bit_length()):
        for o in offs if offs is not None else range(2 * bw):
            for n in lens:
                for st in strbs if kind == 'w' else (0,):
                    out.append(dict(ops=[B(kind, base + o, n, size=s, burst=INCR, id=i % 4, strb=st), tail(kind, i)]))
                    i += 1
    return out


def fixed(kind, dw, lens=(1, 2, 3, 5, 16), strbs=STRB[:3]):
    bw = dw // 8
    out = []
    i = 0
    for s in range(bw.bit_length()):
        for o in range(2 * bw):
            for n in lens:
                for st in strbs if kind == 'w' else (0,):
                    out.append(dict(ops=[B(kind, 0x20 + o, n, size=s, burst=FIXED, id=i % 4, strb=st), tail(kind, i)]))
                    i += 1
    return out


def wraps(kind, dw, strbs=(-1, (0x5a, 0xc3))):
    bw = dw // 8
    out = []
    i = 0
    for s in range(bw.bit_length()):
        nb = 1 << s
        for n in (2, 4, 8, 16):
            span = nb * n
            for st in range(0, span, nb):
                base = 0x1000 - span if i % 2 else 0x40 // span * span
                out.append(dict(ops=[B(kind, base + st, n, size=s, burst=WRAP, id=i % 4, strb=strbs[i % len(strbs)] if kind == 'w' else 0), tail(kind, i)]))
                i += 1
    return out


def edges(kind, dw):
    """Long bursts and bursts that end at the 4 KiB boundary or the top of the address space (16-bit addresses)."""
    bw = dw // 8
    full = bw.bit_length() - 1
    out = []
    for top in (0x1000, 0x10000):
        for n in (1, 2, 7, 16, 255, 256):
            for s in range(full + 1):
                nb = 1 << s
                if nb * n > 0x1000:
                    continue
                for d in (0, nb - 1):
                    out.append(dict(ops=[B(kind, top - nb * n + d, n, size=s, id=1, strb=-1 if n < 10 else (0x55, 0xff, 0)), tail(kind, n)]))
    return out


def strobes(dw, beats):
    """Every strobe pattern of one or two full-width beats."""
    bw = dw // 8
    out = []
    for st in itertools.product(range(1 << bw), repeat=beats):
        for o in (0,) if beats > 1 else range(bw):
            out.append(dict(ops=[BW(4 * bw + o, beats, strb=st, id=1), BW(4 * bw, 1, strb=1, id=2)]))
    return out


HIGH = (1 << 12, 1 << 16, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 0x1000, 0xdeadbeef0000, 1 << 48, 1 << 52, 1 << 53, 1 << 63, 1 << 64)


def wide(kind, dw):
    """Bursts of every type and several sizes on a wide data bus."""
    bw = dw // 8
    full = bw.bit_length() - 1
    out = []
    i = 0
    for s in sorted({full, full - 1, full // 2, 0}):
        nb = 1 << s
        for n in (1, 2, 4, 16):
            for o in (0, 1, bw // 2 - 1, bw // 2, bw - 1, bw + nb):
                a = 0x1000 - 0x800 + o
                for bt in (INCR, FIXED, WRAP):
                    if bt == WRAP:
                        if n == 1:
                            continue
                        a = 0x800 + o // nb * nb
                    if bt == INCR and nb * n + o > 0x800:
                        continue
                    for st in ((-1, (0x5a5a << 3) % (1 << bw) | 1) if kind == 'w' else (0,)):
                        out.append(dict(ops=[B(kind, a, n, size=s, burst=bt, id=i % 4, strb=st), tail(kind, i)]))
                        i += 1
    return out


def high(kind, dw, aw, lite=False):
    """Bursts of every type ending or starting at high addresses."""
    bw = dw // 8
    full = bw.bit_length() - 1
    out = []
    i = 0
    top = 1 << aw
    for b in HIGH:
        if b > top:
            continue
        if lite:
            for d in (-bw, -1, 0, bw + 1):
                if b + d + bw <= top:
                    out.append(dict(ops=[B(kind, b + d, 1, strb=-1 - i % 2), B(kind, top - bw, 1)]))
                    i += 1
            continue
        for s in (full, 0):
            nb = 1 << s
            for n in (1, 2, 4):
                for d, bt in ((-nb * n, INCR), (-1, FIXED), (-nb, WRAP), (nb - 1, INCR), (0, WRAP)):
                    if bt == WRAP and n == 1 or bt == FIXED and n == 4 or b + d + nb * n > top and d >= 0:
                        continue
                    out.append(dict(ops=[B(kind, b + d, n, size=s, burst=bt, id=i % 4), tail(kind, i)]))
                    i += 1
    return out


def scale(kind, chk, lite=False):
    """Sizes a test bench may really have: wide buses, high addresses, wide IDs, the longest bursts."""
    from .props.common import E
    out = []
    kw = dict(half=kind, checks=chk)
    if lite:
        kw['proto'] = 'axil'
    for dw in (64, 128, 256, 512, 1024):
        bw = dw // 8
        if lite:
            if dw > 256:
                continue
            inp = [dict(ops=[B(kind, a, 1, strb=st), B(kind, 3 * bw, 1)]) for a in (0, 1, bw - 1, bw, 0x10000 - bw, 0x10000 - 1)
                   for st in ((-1, 1, 1 << bw // 2, 1 << (bw - 1), 0x69 << 3, -2, 0) if kind == 'w' else (0,))]
        else:
            inp = wide(kind, dw)
        for sn, k in (('fast', {}), ('gappy', dict(valid=((1, 0, 0), (0, 1), (1, 0, 0)), ready=((0, 1),) * 2, delay=(0, 1, 2)))):
            out.append(E('slave_in', '%s scale dw=%d %s' % (kind, dw, sn), inp, dw=dw, aw=16, weight=3, chunk=10, **dict(kw, **k)))
        if lite:
            for i in inp:
                for o in i['ops']:
                    o['addr'] %= 0x100
            out.append(E('slave_in', '%s scale ram dw=%d' % (kind, dw), inp, dw=dw, aw=8, kind='ram', size=0x100, weight=3, chunk=10, **kw))
        else:
            out.append(E('slave_in', '%s scale ram dw=%d' % (kind, dw), inp[::7], dw=dw, aw=13, kind='ram', size=0x2000, weight=3, chunk=10, **kw))
    for dw, aw in ((32, 64), (64, 64), (8, 40), (32, 32), (128, 48)):
        inp = high(kind, dw, aw, lite)
        out.append(E('slave_in', '%s scale aw=%d dw=%d' % (kind, aw, dw), inp, dw=dw, aw=aw, weight=3, chunk=20, **kw))
        out.append(E('slave_in', '%s scale ram aw=%d dw=%d' % (kind, aw, dw), inp[::2], dw=dw, aw=aw, kind='ram', size=0x1000, weight=3, chunk=20, **kw))
    # other ways to make the bus object
    for h in (kind, 'rw'):
        for k in ('slave', 'ram'):
            inp = [dict(via=v, ops=[B(kind, a, 1 if lite else n, id=1, strb=st), tail(kind, n) if not lite else B(kind, 5, 1)]) for v in VIA for a in (0, 3, 0x7c) for n in (1, 4) for st in (-1, 6)]
            out.append(E('slave_in', '%s bus objects %s %s' % (kind, k, h), inp, dw=32, aw=16, kind=k, size=None if k == 'slave' else 0x80, **dict(kw, half=h)))
    if lite:
        for n, r in ((300, 'always'), (520, 'always'), (120, (0,) * 90 + (1,) * 60)):
            inp = [dict(ops=[B(kind, 5 * k, 1, strb=k * 5 % 16) for k in range(n)], ready=(r, r))]
            out.append(E('slave_in', '%s scale many %d' % (kind, n), inp, dw=32, aw=16, weight=9, chunk=1, K=6000, **kw))
    if not lite:
        for dw, n in ((8, 256), (64, 256), (128, 256), (256, 128), (1024, 32)):
            bw = dw // 8
            inp = [dict(ops=[B(kind, a, n, id=1), B(kind, 0x2001, n // 2, id=2), B(kind, 5, 1)]) for a in (0x1000, 0x2000 - bw * n)]
            out.append(E('slave_in', '%s scale long dw=%d' % (kind, dw), inp, dw=dw, weight=9, chunk=1, K=2000, **kw))
        inp = [dict(idw=i, ops=[B(kind, 4 * k, 1 + k % 2, id=((1 << i) - 1 - k * 37) % (1 << i)) for k in range(n)]) for i, n in ((1, 9), (4, 20), (8, 24), (9, 24), (16, 24), (32, 24))]
        out.append(E('slave_in', '%s scale ids' % kind, inp, dw=32, aw=16, weight=2, chunk=1, K=2000, **kw))
        # many bursts outstanding at once
        for n in (40, 120, 520):
            inp = [dict(ops=[B(kind, 8 * k, 1 + k % 2, id=k % 4) for k in range(n)], ready=r) for r in (('always',) * 2, ((0,) * 90 + (1,) * 60,) * 2)]
            out.append(E('slave_in', '%s scale many %d' % (kind, n), inp, dw=32, aw=16, weight=9, chunk=1, K=6000, **kw))
    return out
