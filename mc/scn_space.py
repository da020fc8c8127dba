"""Address spaces, regions and windows against a reference address map."""
import itertools
from .core import Violation
from .scn_mem import run
from cocotbext.axi import AddressSpace, Region, MemoryRegion, SparseMemoryRegion, PeripheralRegion, Window, WindowPool, MemoryInterface


def initb(r, a):
    return (0x21 * (r + 1) + 0x47 * a + (a >> 8) * 0x1f + 0x13) & 0xff


class Store:
    """A target of the reference map: its bytes, and the accesses that reached it."""

    def __init__(self, n, kind, size):
        self.n, self.kind, self.size = n, kind, size
        self.log = []
        self.ref = {}
        self.opts = []
        self.touched = []
        data = bytes(initb(n, a) for a in range(min(size, 256)))
        st = self

        class Obj:
            def __init__(self):
                self.d = bytearray(data)

            def read(self, address, length, **kwargs):
                st.log.append(('r', address, length))
                st.opts.append(kwargs)
                return bytes(self.d[address:address + length])

            def write(self, address, data, **kwargs):
                st.log.append(('w', address, bytes(data)))
                st.opts.append(kwargs)
                self.d[address:address + len(data)] = data

        class AObj(Obj):
            async def read(self, address, length, **kwargs):
                return Obj.read(self, address, length, **kwargs)

            async def write(self, address, data, **kwargs):
                return Obj.write(self, address, data, **kwargs)

        class RObj(Obj):
            def read(self, address, length, **kwargs):
                return RetResp(Obj.read(self, address, length, **kwargs))

            def write(self, address, data, **kwargs):
                Obj.write(self, address, data, **kwargs)
                return len(data)

        class Rec(Region):
            def __init__(self, size):
                super().__init__(size)
                self.o = Obj()

            async def _read(self, address, length, **kwargs):
                return self.o.read(address, length, **kwargs)

            async def _write(self, address, data, **kwargs):
                self.o.write(address, data, **kwargs)

        self.logged = True
        if kind in ('mem', 'sparse'):
            self.o = (MemoryRegion if kind == 'mem' else SparseMemoryRegion)(size)
            self.o[0:len(data)] = data
            self.peek = lambda a: self.o[a]
            self.logged = False
        elif kind in ('sync', 'async', 'resp'):
            p = (Obj if kind == 'sync' else AObj if kind == 'async' else RObj)()
            self.o = PeripheralRegion(p, size)
            self.peek = lambda a: p.d[a]
        else:
            self.o = Rec(size)
            self.peek = lambda a: self.o.o.d[a]

    def get(self, a):
        return self.ref.get(a, initb(self.n, a) if a < 256 else 0)

    def put(self, a, v):
        self.ref[a] = v
        self.touched.append(a)


class RetResp:
    """Read data wrapped the way a bus master returns it."""

    def __init__(self, data):
        self.data = data

    def __bytes__(self):
        return self.data


KINDS = ('rec', 'mem', 'sync', 'sparse', 'async', 'resp')


class Map:
    """What a space or window maps each address to: a function address -> (store, address) or None."""

    def __init__(self, size, fn, base=0):
        self.size, self.fn, self.base = size, fn, base

    def at(self, a):
        return self.fn(a) if 0 <= a < self.size else None

    def segs(self, a, n):
        """Accesses the targets see for bytes a..a+n-1 (one per registered range touched)."""
        out = []
        for k in range(n):
            t = self.at(a + k)
            if t is None:
                return None
            r, s, x = t
            if out and out[-1][0] == r:
                out[-1][3] += 1
            else:
                out.append([r, s, x, 1])
        return out


def dat(a, n, k):
    return bytes((0x6d * (a + i) + 0x0b * k + 0x31) & 0xff for i in range(n))


def access(what, o, m, stores, a, n, k, kw={}, strict=True, run=run):
    """Reads and writes n bytes at a through o and compares with the map."""
    segs = m.segs(a, n)
    for wr in (0, 1):
        for s in stores:
            del s.log[:], s.opts[:], s.touched[:]
        d = dat(a, n, k)
        try:
            if wr:
                g = run(o.write(a, d, **kw))
            else:
                g = bytes(run(o.read(a, n, **kw)))
        except Violation:
            raise
        except Exception as e:
            if segs is not None and n > 0 and 0 <= a:
                raise Violation('%s: %s of %d bytes at %d raises %r' % (what, 'write' if wr else 'read', n, a, e))
            if segs is not None and n == 0 and m.at(a) is not None:
                raise Violation('%s: %s of no bytes at %d raises %r' % (what, 'write' if wr else 'read', a, e))
            # a refused access changes nothing outside the range asked for
            ok = {}
            for j in range(n):
                t = m.at(a + j)
                if t:
                    ok.setdefault((t[1].n, t[2]), set()).add(d[j])
            for s in stores:
                for l in s.log:
                    for j in range(len(l[2]) if l[0] == 'w' else l[2]):
                        if (s.n, l[1] + j) not in ok:
                            raise Violation('%s: refused %s of %d bytes at %d touches target %d at %d' % (what, 'write' if wr else 'read', n, a, s.n, l[1] + j))
                if wr:
                    for x in sorted(set(range(min(s.size, 64))) | {y for i, y in ok if i == s.n and y < s.size}):
                        v = s.peek(x)
                        if v != s.get(x):
                            if v in ok.get((s.n, x), ()):
                                s.ref[x] = v
                                continue
                            raise Violation('%s: refused write of %d bytes at %d changes target %d at %d' % (what, n, a, s.n, x))
            continue
        if segs is None:
            raise Violation('%s: %s of %d bytes at %d, partly unmapped or out of range, is not refused' % (what, 'write' if wr else 'read', n, a))
        if n == 0 and m.at(a) is None:
            continue
        if n:
            for s in stores:
                if not s.logged:
                    continue
                want = []
                off = 0
                for r, t, x, c in segs:
                    if t is s:
                        want.append(('w', x, d[off:off + c]) if wr else ('r', x, c))
                    off += c
                if s.log != want and not (strict is False and merged(s.log) == merged(want)):
                    raise Violation('%s: %s of %d bytes at %d: target %d (%s) sees %s instead of %s' % (what, 'write' if wr else 'read', n, a, s.n, s.kind, s.log, want))
                for q in s.opts:
                    if q != kw and s.kind != 'bus':
                        raise Violation('%s: options %s reach target %d as %s' % (what, kw, s.n, q))
        if wr:
            off = 0
            for r, t, x, c in segs:
                for j in range(c):
                    t.ref[x + j] = d[off]
                    off += 1
            for s in stores:
                for x in range(min(s.size, 64)):
                    if s.peek(x) != s.get(x):
                        raise Violation('%s: after a write of %d bytes at %d target %d (%s) has 0x%02x at %d instead of 0x%02x' % (
                            what, n, a, s.n, s.kind, s.peek(x), x, s.get(x)))
        else:
            want = bytes(t.get(x + j) for r, t, x, c in segs for j in range(c))
            if g != want:
                raise Violation('%s: read of %d bytes at %d returns %s instead of %s' % (what, n, a, g.hex(), want.hex()))


def merged(log):
    out = []
    for k, a, v in log:
        n = len(v) if k == 'w' else v
        if out and out[-1][0] == k and out[-1][1] + out[-1][2] == a:
            out[-1][2] += n
            if k == 'w':
                out[-1][3] += v
        else:
            out.append([k, a, n, v if k == 'w' else b''])
    return out


def overlap(a, b):
    return a[0] < b[0] + b[1] and b[0] < a[0] + a[1]


def build(space, S, inp, stores, what, kinds=KINDS, rot=0):
    """Registers (base, size, offset, same) ranges; returns the ranges accepted: (base, size, translate, store)."""
    ranges = []
    for i, e in enumerate(inp):
        base, size, off = e[:3]
        explicit = e[3] if len(e) > 3 else 1
        if explicit == 'same' and stores:
            st = stores[0]
        else:
            need = base + size if off is None else off + size
            st = Store(len(stores), kinds[(i + rot) % len(kinds)], need if explicit == 1 else size if explicit == 0 else need + explicit)
            stores.append(st)
        clash = any(overlap((base, size), r) for r in ranges)
        kw = dict(offset=off)
        if explicit == 0:       # size taken from the region
            pass
        else:
            kw['size'] = size
        if off == 0 and explicit == 0:
            kw.pop('offset')
        try:
            space.register_region(st.o, base, **kw)
        except Exception as ex:
            if clash:
                continue
            raise Violation('%s: registering %s raises %r' % (what, e, ex))
        if clash:
            raise Violation('%s: registration of %s overlaps another region and is not refused' % (what, e))
        ranges.append((base, size, off, st))
    return ranges


def map_of(S, ranges):
    def fn(a):
        for i, (b, s, off, st) in enumerate(ranges):
            if b <= a < b + s:
                return i, st, a if off is None else a - b + off
        return None
    return Map(S, fn)


def grid_of(S, ranges):
    e = {0, 1, S - 1, S}
    for b, s, off, st in ranges:
        e |= {b - 1, b, b + 1, b + s - 1, b + s}
    e = sorted(x for x in e if -1 <= x <= S)
    out = [(a, n) for a in e for n in sorted({0, 1, 2} | {x - a for x in e if x > a} | {x - a + 1 for x in e if x > a} | {S - a, S - a + 1, S + 3})]
    return [(a, n) for a, n in out if n >= 0] + [(-1, 1), (-1, 2), (-3, 5), (-1, 0)]


def layout(ch, inp, S=24):
    """Regions in one address space."""
    sp = AddressSpace(S)
    stores = []
    what = 'layout %s' % (inp,)
    ranges = build(sp, S, inp, stores, what, rot=sum(e[0] for e in inp) // 4 + len(inp))
    m = map_of(S, ranges)
    for k, (a, n) in enumerate(grid_of(S, ranges)):
        access(what, sp, m, stores, a, n, k, dict(prot=k) if not any(s.kind in ('mem', 'sparse') for s in stores) and k % 3 == 0 else {})
        ch.step((inp, a, n))
    for b, s, off, st in ranges:
        if sum(1 for r in ranges if r[3] is st) == 1:
            for x in (0, s - 1):
                g = st.o.get_absolute_address(x)
                if off == 0 and g != b + x or off != 0 and g is not None:
                    raise Violation('%s: the absolute address of %d in the region at %d is %r' % (what, x, b, g))
            if st.o.parent is not sp:
                raise Violation('%s: the parent of a region is not its address space' % what)
    return 'refused%d' % (len(inp) - len(ranges))


def high(ch, inp):
    """Regions at the addresses of real systems: (size of the space, ranges), also through windows, accesses around every edge."""
    S, ents = inp
    sp = AddressSpace(S)
    stores = []
    what = 'layout of %d bytes with %s' % (S, ents)
    ranges = build(sp, S, ents, stores, what, kinds=('sparse',))
    m = map_of(S, ranges)

    def grid(S, rs):
        e = {0, S}
        for b, s, off, st in rs:
            e |= {b, b + s}
        return [(a + d, n) for a in sorted(e) for d in (-17, -8, -1, 0, 1, 8) for n in (1, 2, 8, 16, 33) if a + d >= 0]
    for k, (a, n) in enumerate(grid(S, ranges)):
        access(what, sp, m, stores, a, n, k)
        ch.step((inp, a, n))
    for b, s, off, st in ranges:
        for d, ws in ((0, min(s, 64)), (s - 16, 16), (s // 2, s - s // 2)):
            if d < 0 or not ws:
                continue
            w = sp.create_window(b + d, ws)
            if len(w.size.to_bytes(9, 'big')) != 9 or w.size != ws:
                raise Violation('%s: window of %d bytes has size %r' % (what, ws, w.size))
            wm = Map(ws, lambda a, o=b + d: m.at(a + o))
            for k, (a, n) in enumerate([(a + x, n) for a in (0, ws) for x in (-17, -8, -1, 0, 1) for n in (1, 8, 17) if a + x >= 0]):
                access(what + ' window of %d bytes at %d' % (ws, b + d), w, wm, stores, a, n, k)
            for x in (0, ws - 1):
                if w.get_absolute_address(x) != b + d + x:
                    raise Violation('%s: absolute address of %d in the window at %d is %r' % (what, x, b + d, w.get_absolute_address(x)))
    return 'refused%d' % (len(ents) - len(ranges))


def nested(ch, inp):
    """A space inside a space: (base and offset of the inner space, its regions, a region of the outer space)."""
    ob, osz, off, inner, third = inp
    S = 32
    outer = AddressSpace(S)
    isz = osz + 4 if off is not None else ob + osz
    mid = AddressSpace(isz + (off or 0))
    what = 'nested %s' % (inp,)
    outer.register_region(mid, ob, size=osz, offset=off)
    stores = []
    ir = build(mid, isz, [e for e in inner if e[0] + e[1] <= mid.size], stores, what, rot=ob)
    im = map_of(mid.size, ir)
    rec = []
    if third is not None and not overlap((ob, osz), third):
        rec = build(outer, S, [third], stores, what, kinds=('rec',))

    def fn(a):
        if ob <= a < ob + osz:
            t = im.at(a if off is None else a - ob + off)
            return None if t is None else (t[0] + 10, t[1], t[2])
        for b, s, o, st in rec:
            if b <= a < b + s:
                return 0, st, a if o is None else a - b + o
        return None
    m = Map(S, fn)
    g = [(ob, osz, 0, None)] + [(ob + b - (off or 0), s, 0, None) for b, s, o, st in ir] + rec
    for k, (a, n) in enumerate(grid_of(S, g)):
        access(what, outer, m, stores, a, n, k)
        ch.step((inp, a, n))
    for k, (a, n) in enumerate(grid_of(mid.size, ir)):
        access(what + ' inner', mid, im, stores, a, n, k)
    for b, s, o, st in ir:
        g = st.o.get_absolute_address(0)
        want = ob + b if off == 0 and o == 0 else None
        if g != want:
            raise Violation('%s: the absolute address of the region at %d of the inner space is %r' % (what, b, g))
    return 'ok'


class MyWindow(Window):
    pass


def parent_of(pk, stores):
    """(memory interface, its map, absolute base or None)"""
    if pk in KINDS:         # a region on its own
        st = Store(0, pk, 12)
        stores.append(st)
        return st.o, Map(12, lambda a: (0, st, a)), 0
    S = 32
    sp = AddressSpace(S)
    if pk.startswith('reg'):
        st = Store(0, 'rec' if pk != 'regs' else 'mem', 24)
        stores.append(st)
        off = {'reg': 0, 'regs': 0, 'regt': 4, 'regn': None}[pk]
        sp.register_region(st.o, 8, size=12, offset=off)
        return st.o, Map(24, lambda a: (0, st, a)), 8 if off == 0 else None
    if pk == 'space':
        rs = build(sp, S, [(4, 4, 0), (8, 3, 2), (12, 8, None)], stores, pk)
        m = map_of(S, rs)
        return sp, m, 0
    if pk == 'inner':
        mid = AddressSpace(16)
        sp.register_region(mid, 8)
        rs = build(mid, 16, [(0, 6, 0), (6, 6, 0)], stores, pk)
        return mid, map_of(16, rs), 8
    raise RuntimeError(pk)


def rangecheck(o, m, what):
    for a in range(-2, m.size + 2):
        ok = 0 <= a < m.size
        if m.base is None:
            continue
        try:
            g = o.get_absolute_address(a)
        except Exception:
            if ok:
                raise Violation('%s: get_absolute_address(%d) raises' % (what, a))
            continue
        if not ok or g != m.base + a:
            raise Violation('%s: get_absolute_address(%d) is %r instead of %s' % (what, a, g, m.base + a if ok else 'an error'))
    if m.base is None and o.get_absolute_address(0) is not None:
        raise Violation('%s: get_absolute_address(0) of a window onto a translated region is %r' % (what, o.get_absolute_address(0)))


def windows(ch, inp):
    """Windows onto windows: (kind of parent, ((offset, size), ...), how)"""
    pk, chain, how = inp
    stores = []
    o, m, base = parent_of(pk, stores)
    m.base = base
    what = 'windows %s' % (inp,)
    for d, (off, size) in enumerate(chain):
        eff = size if size else m.size - off
        ok = 0 <= off < m.size and off + eff <= m.size
        kw = {}
        if size is not None:
            kw['size'] = size
        try:
            if how == 'pool':
                kw['offset'] = off
                w = o.create_window_pool(**kw)
            elif how == 'type':
                w = o.create_window(off, window_type=MyWindow, **kw)
            else:
                w = o.create_window(off, **kw)
        except Exception as e:
            if ok and not (how == 'pool' and size == 0):
                raise Violation('%s: creating window %d raises %r' % (what, d, e))
            return 'refused'
        if not ok:
            raise Violation('%s: window %d at %d of %s bytes exceeds its parent of %d bytes and is not refused' % (what, d, off, size, m.size))
        if how == 'pool' and size == 0:
            return 'empty'
        want = WindowPool if how == 'pool' else MyWindow if how == 'type' else Window
        if not isinstance(w, want):
            raise Violation('%s: window %d is a %s' % (what, d, type(w).__name__))
        if w.size != eff or len(w) != eff or w.offset != off or w.parent is not o:
            raise Violation('%s: window %d has size %d, offset %d' % (what, d, w.size, w.offset))
        pm = m
        m = Map(eff, lambda a, pm=pm, off=off: pm.at(a + off), None if pm.base is None else pm.base + off)
        o = w
        rangecheck(o, m, what)
    lens = sorted(set((0, 1, 2, 3, m.size - 1, m.size, m.size + 1, m.size + 5)))
    for k, (a, n) in enumerate(itertools.product(range(-2, m.size + 2), lens)):
        if n < 0:
            continue
        access(what, o, m, stores, a, n, k, dict(prot=k, user=1) if pk == 'rec' else {}, strict=False)
        ch.step((inp, a, n))
    return 'ok'


def typed(ch, inp):
    """Default window and pool types of an interface."""
    class MyMem(MemoryInterface):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.d = bytearray(range(self.size))

        async def _read(self, address, length, **kwargs):
            return bytes(self.d[address:address + length])

        async def _write(self, address, data, **kwargs):
            self.d[address:address + len(data)] = data

    class MyPool(WindowPool):
        pass
    m = MyMem(64, base=inp)
    m.window_type = MyWindow
    m.window_pool_type = MyPool
    w = m.create_window(4, 8)
    p = m.create_window_pool(16, 16)
    v = p.alloc_window(4)
    if type(w) is not MyWindow or type(p) is not MyPool or type(v) is not MyWindow:
        raise Violation('window types are %s, %s, %s' % (type(w), type(p), type(v)))
    if w.get_absolute_address(1) != inp + 5 or p.get_absolute_address(0) != inp + 16 or v.get_absolute_address(3) != inp + 19:
        raise Violation('absolute addresses are %s' % [w.get_absolute_address(1), p.get_absolute_address(0), v.get_absolute_address(3)])
    if bytes(run(v.read(1, 3))) != bytes(range(17, 20)):
        raise Violation('a window of a pool reads %s' % run(v.read(1, 3)))
    ch.step((inp,))
    return 'ok'


def defaults(ch, inp):
    """(what, size of the parent, place, size): pools made with and without their optional arguments."""
    how, S, base, size = inp
    sp = AddressSpace(S)
    kw = {}
    b, n = base or 0, S - (base or 0) if size is None else size
    ok = b < S and b + n <= S
    if how == 'pool':
        if base is not None:
            kw['base'] = base
    else:
        r = MemoryRegion(S)
        sp.register_region(r, 0)
        if base is not None:
            kw['offset'] = base
    if size is not None:
        kw['size'] = size
    try:
        p = sp.create_pool(**kw) if how == 'pool' else (r if how == 'region' else sp).create_window_pool(**kw)
    except Exception as e:
        if ok:
            raise Violation('%s: raises %r' % (inp, e))
        return 'refused'
    if not ok:
        raise Violation('%s: not refused' % (inp,))
    if p.size != n or p.base != b or p.get_absolute_address(0) != b or p.parent is not (r if how == 'region' else sp):
        raise Violation('%s: pool has size %r, base %r, parent %r' % (inp, p.size, p.base, p.parent))
    # all of it can be allocated, and is reached where it lies
    parts = []
    for k in range(n // 4):
        w = p.alloc_region(4) if how == 'pool' else p.alloc_window(4)
        parts.append((w.get_absolute_address(0), w))
    if n % 4 == 0 and n & (n - 1) == 0 and sorted(a for a, w in parts) != list(range(b, b + n, 4)):
        raise Violation('%s: parts at %s' % (inp, [a for a, w in parts]))
    for k, (a, w) in enumerate(parts):
        run(w.write(0, bytes([k, k + 1, k + 2, 7])))
    for k, (a, w) in enumerate(parts):
        if bytes(run(sp.read(a, 4))) != bytes([k, k + 1, k + 2, 7]):
            raise Violation('%s: the part at %d reads %s through the space' % (inp, a, bytes(run(sp.read(a, 4)))))
        ch.step((inp, a))
    # helpers refuse what is out of range
    if how != 'pool':
        for a in (-1, n, n + 3):
            try:
                v = p.get_parent_address(a)
            except ValueError:
                continue
            raise Violation('%s: get_parent_address(%d) is %r' % (inp, a, v))
        for a in (0, n - 1):
            if p.get_parent_address(a) != b + a:
                raise Violation('%s: get_parent_address(%d) is %r' % (inp, a, p.get_parent_address(a)))
    for a, l in ((-1, 1), (S, 1), (0, -1), (S - 1, -3)):
        try:
            v = sp.find_regions(a, l)
        except ValueError:
            continue
        raise Violation('%s: find_regions(%d, %d) is %r' % (inp, a, l, v))
    for a, l in ((b, n), (b, 1), (b + n - 1, 1), (0, S)):
        v = sp.find_regions(a, l)
        if len(v) != 1 or v[0][3] is not (p if how == 'pool' else r):
            raise Violation('%s: find_regions(%d, %d) is %r' % (inp, a, l, v))
    if b > 0 and how == 'pool' and sp.find_regions(0, b):
        raise Violation('%s: find_regions before the pool gives %r' % (inp, sp.find_regions(0, b)))
    return 'ok'
