"""Allocators: every reachable state of the buddy allocator, pools and window pools."""
import mmap
from .core import Violation
from .scn_mem import run
from cocotbext.axi import AddressSpace, MemoryRegion, SparseMemoryRegion, Window, WindowPool, Pool
from cocotbext.axi.buddy_allocator import BuddyAllocator


def freeze(o, ids=None):
    """Structure of an object as a hashable value (dictionaries without regard to order)."""
    if ids is None:
        ids = {}
    if isinstance(o, (int, str, bytes, type(None), float, type)):
        return o
    if id(o) in ids:
        return ('#', ids[id(o)])
    ids[id(o)] = len(ids)
    if isinstance(o, mmap.mmap):
        return ('mmap', o[:])
    if isinstance(o, bytearray):
        return bytes(o)
    if isinstance(o, dict):
        try:
            ks = sorted(o)
        except TypeError:
            ks = list(o)
        return tuple((freeze(k, ids), freeze(o[k], ids)) for k in ks)
    if isinstance(o, (set, frozenset)):
        return tuple(sorted(o, key=repr))
    if isinstance(o, (list, tuple)) or hasattr(o, '__iter__') and not hasattr(o, '__dict__'):
        return tuple(freeze(e, ids) for e in o)
    d = getattr(o, '__dict__', None)
    return (type(o).__name__, freeze(d, ids) if d is not None else repr(type(o)))


def p2(n):
    return 1 << (n - 1).bit_length()


class Blocks:
    """Reference: the blocks handed out."""

    def __init__(self, size, mn):
        self.size, self.mn = size, mn
        self.got = {}       # address -> power-of-two block size

    def can(self, s):
        need = max(s, self.mn)
        p = p2(need)
        return any(not any(a < b + q and b < a + p for b, q in self.got.items()) for a in range(0, self.size, p) if a + need <= self.size)

    def took(self, what, a, s):
        if not isinstance(a, int) or a < 0 or a + s > self.size:
            raise Violation('%s: allocation of %d bytes is at %r, outside the %d managed bytes' % (what, s, a, self.size))
        p = p2(max(s, self.mn))
        if a % p:
            raise Violation('%s: allocation of %d bytes at %d is misaligned' % (what, s, a))
        for b, q in self.got.items():
            if a < b + q and b < a + p:
                raise Violation('%s: allocation of %d bytes at %d overlaps the block of %d at %d' % (what, s, a, q, b))
        self.got[a] = p


def sizes_of(size):
    return range(-1, size + 2)


def buddy(ch, inp):
    size, mn, subset = inp
    b = BuddyAllocator(size) if mn is None else BuddyAllocator(size, mn)
    mn = mn or 1
    ref = Blocks(size, mn)
    hist = []
    al = list(sizes_of(size)) if subset is None else list(subset)
    while True:
        ch.step((inp, freeze(b)))
        what = 'allocator of %d bytes (min %d) after %s' % (size, mn, hist)
        if size <= 16 and subset is None:
            fr = list(range(-1, size + 1))
        else:
            fr = sorted(set(ref.got) | {a + 1 for a in ref.got} | {-1, 0, size // 2, size})
        k = ch.choose(len(al) + len(fr), 'op')
        if k < len(al):
            s = al[k]
            hist.append('alloc %d' % s)
            ok = 1 <= s <= size and ref.can(s)
            try:
                a = b.alloc(s)
            except Exception as e:
                if ok:
                    raise Violation('%s: alloc(%d) raises %r although a free aligned block exists' % (what, s, e))
                continue
            if not ok:
                raise Violation('%s: alloc(%d) returns %r instead of an error' % (what, s, a))
            ref.took(what, a, s)
        else:
            a = fr[k - len(al)]
            hist.append('free %d' % a)
            try:
                b.free(a)
            except Exception as e:
                if a in ref.got:
                    raise Violation('%s: free(%d) raises %r' % (what, a, e))
                continue
            if a not in ref.got:
                raise Violation('%s: free(%d) of something not allocated is not refused' % (what, a))
            del ref.got[a]


class MyRegion(MemoryRegion):
    pass


class MyWin(Window):
    pass


def pattern(k, n):
    return bytes((0x35 * k + 7 * i + 1) & 0xff for i in range(n))


def poolseq(ch, inp):
    """Pools of regions: every sequence of allocations up to a depth; addresses through the parent and absolute."""
    kind, base, size, depth, sizes = inp
    root = AddressSpace(base + size + 24)
    parent = root
    pbase = base
    if kind == 'nested':
        parent = AddressSpace(base + size + 8)
        root.register_region(parent, 16)
    other = MemoryRegion(4)
    if kind == 'next to a region':
        root.register_region(other, base + size)
    kw = {}
    if kind == 'sparse':
        kw['region_type'] = SparseMemoryRegion
    pool = parent.create_pool(base, size, **kw)
    if kind == 'pool in pool':
        pool = parent = pool
        pool = parent.create_pool(0, size)
    abs0 = pbase + (16 if kind == 'nested' else 0)
    if pool.size != size or pool.get_absolute_address(0) != abs0 or not isinstance(pool, Pool):
        raise Violation('a pool of %d bytes at %d has size %s and absolute address %s' % (size, abs0, pool.size, pool.get_absolute_address(0)))
    for o, s in ((base, size), (base + size - 1, 2), (max(base - 1, 0), 2)):
        if kind == 'pool in pool':
            break
        try:
            parent.create_pool(o, s)
        except Exception:
            continue
        raise Violation('a pool at %d overlapping another at %d is not refused' % (o, base))
    ref = Blocks(size, 1)
    got = []
    for d in range(depth):
        k = ch.choose(len(sizes), 'size')
        s = sizes[k]
        what = 'pool %s after %s' % (inp, [(g[0], g[1]) for g in got])
        t = MyRegion if d == 1 else None
        ok = 1 <= s <= size and ref.can(s)
        try:
            r = pool.alloc_region(s, region_type=t) if t else pool.alloc_region(s)
        except Exception as e:
            if ok:
                raise Violation('%s: alloc_region(%d) raises %r' % (what, s, e))
            ch.step()
            continue
        if not ok:
            raise Violation('%s: alloc_region(%d) is not refused' % (what, s))
        tt = t or kw.get('region_type') or MemoryRegion
        if type(r) is not tt:
            raise Violation('%s: region type is %s instead of %s' % (what, type(r).__name__, tt.__name__))
        ab = r.get_absolute_address(0)
        if ab is None:
            raise Violation('%s: a region of a pool has no absolute address' % what)
        a = ab - abs0
        ref.took(what, a, s)
        if r.size != s or len(r) != s:
            raise Violation('%s: a region of %d bytes has size %d' % (what, s, r.size))
        if r.parent is not pool:
            raise Violation('%s: the parent of a region is not its pool' % what)
        got.append((s, a, r))
        # through the outermost space, the pool and the region itself
        run(root.write(ab, pattern(d + 1, s)))
        img = {}
        for s2, a2, r2 in got:
            if r2 is r:
                exp = pattern(d + 1, s)
                r2.exp = exp
            exp = r2.exp
            for w, g in (('itself', run(r2.read(0, s2))), ('the pool', run(pool.read(a2, s2))), ('the outer space', run(root.read(abs0 + a2, s2)))):
                if bytes(g) != exp:
                    raise Violation('%s: the region of %d bytes at %d reads %s through %s instead of %s' % (what, s2, a2, bytes(g).hex(), w, exp.hex()))
            for j in range(s2):
                img[a2 + j] = exp[j]
        nw = pattern(d + 40, s)
        run(r.write(0, nw))
        r.exp = nw
        if bytes(run(pool.read(a, s))) != nw:
            raise Violation('%s: what the region at %d was written is not read through the pool' % (what, a))
        for x in range(size):
            try:
                run(pool.read(x, 1))
                m = True
            except Exception:
                m = False
            if m != (x in img):
                raise Violation('%s: address %d of the pool is %s' % (what, x, 'mapped' if m else 'not mapped'))
        ch.step((inp, tuple((g[0], g[1]) for g in got)))
    if kind == 'next to a region' and any(bytes(other)):
        raise Violation('pool %s: regions of the pool change the region after it' % (inp,))
    return 'ok'


def parent_win(kind, n):
    """(memory interface of n bytes, absolute base or None, plain read function)"""
    if kind == 'memory':
        m = MemoryRegion(n)
        return m, 0
    if kind == 'sparse':
        return SparseMemoryRegion(n), 0
    sp = AddressSpace(n + 16)
    m = MemoryRegion(n)
    if kind == 'region':
        sp.register_region(m, 8)
        return m, 8
    if kind == 'translated':
        sp.register_region(MemoryRegion(n + 4), 8, size=n, offset=4)
        return sp.create_window(8, n), 8
    if kind == 'space':
        inner = AddressSpace(n)
        sp.register_region(inner, 16)
        inner.register_region(MemoryRegion(n // 2), 0)
        inner.register_region(MemoryRegion(n - n // 2), n // 2)
        return inner, 16
    if kind == 'window':
        return MemoryRegion(n + 5).create_window(5), 5
    if kind == 'pool':
        q = WindowPool(MemoryRegion(n + 3), 3, n, base=3)
        return q, 3
    raise RuntimeError(kind)


def winpool(ch, inp):
    """Window pools: every sequence of allocations and releases up to a depth."""
    kind, off, size, depth, sizes, tail = inp
    n = off + size + tail
    m, ab = parent_win(kind, n)
    wp = m.create_window_pool(off, size) if tail else m.create_window_pool(off)
    if wp.size != size or wp.get_absolute_address(0) != ab + off:
        raise Violation('window pool %s has size %d and absolute address %s' % (inp, wp.size, wp.get_absolute_address(0)))
    shadow = bytearray(n)
    ref = Blocks(size, 1)
    live = []
    hist = []
    for d in range(depth):
        k = ch.choose(len(sizes) + len(live), 'op')
        what = 'window pool %s after %s' % (inp, hist)
        if k >= len(sizes):
            s, a, w = live.pop(k - len(sizes))
            hist.append('free %d' % a)
            try:
                wp.allocator.free(w.offset)
            except Exception as e:
                raise Violation('%s: free(%d) raises %r' % (what, a, e))
            del ref.got[a]
            ch.step((inp, tuple(hist)))
            continue
        s = sizes[k]
        t = MyWin if d % 2 else None
        ok = 1 <= s <= size and ref.can(s)
        hist.append('alloc %d' % s)
        try:
            w = wp.alloc_window(s, window_type=t) if t else wp.alloc_window(s)
        except Exception as e:
            if ok:
                raise Violation('%s: alloc_window(%d) raises %r' % (what, s, e))
            ch.step()
            continue
        if not ok:
            raise Violation('%s: alloc_window(%d) is not refused' % (what, s))
        if type(w) is not (t or Window):
            raise Violation('%s: window type is %s' % (what, type(w).__name__))
        a = w.get_absolute_address(0) - ab - off
        if w.offset != a or w.parent is not wp:
            raise Violation('%s: the window at %d has offset %d' % (what, a, w.offset))
        ref.took(what, a, s)
        if w.size != s or len(w) != s:
            raise Violation('%s: a window of %d bytes has size %d' % (what, s, w.size))
        live.append((s, a, w))
        p = pattern(d + 1, s)
        run(w.write(0, p))
        shadow[off + a:off + a + s] = p
        for bad in ((s, 1), (-1, 1), (0, s + 1), (s - 1, 2)):
            for wr in (0, 1):
                try:
                    run(w.write(bad[0], bytes(bad[1])) if wr else w.read(*bad))
                except Exception:
                    continue
                raise Violation('%s: an access of %d bytes at %d of a window of %d bytes is not refused' % (what, bad[1], bad[0], s))
        if bytes(run(m.read(0, n))) != bytes(shadow):
            raise Violation('%s: a window of %d bytes at %d changes other bytes' % (what, s, a))
        for s2, a2, w2 in live:
            g = bytes(run(w2.read(0, s2)))
            if g != bytes(shadow[off + a2:off + a2 + s2]):
                raise Violation('%s: the window of %d bytes at %d reads %s' % (what, s2, a2, g.hex()))
        ch.step((inp, tuple(hist)))
    return 'ok'
