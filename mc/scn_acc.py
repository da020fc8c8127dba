"""Typed accessors of every interface against plain bytes."""
import mmap
from .core import Exec, Violation
from .scn_mem import run as run0
from cocotbext.axi import AddressSpace, MemoryRegion, SparseMemoryRegion, PeripheralRegion, MemoryInterface, Region
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory


def initb(a):
    return (0x47 * a + (a >> 8) * 0x1f + 0x13) & 0xff


class Iface:
    """An object with accessors: peek(a) shows the byte at a, clean() and seen() what else reached the target."""

    def __init__(self, ch, kind, size, mode):
        self.kind, self.size = kind, size
        self.x = None
        self.log = None
        self.mon = None
        self.run = run0
        self.asyn = True
        self.halves = 'rw'
        init = bytes(initb(a) for a in range(size))
        k = kind
        if k.startswith('memory') or k.startswith('ram'):
            self.asyn = False
            mem = mmap.mmap(-1, size) if 'mmap' in k else SparseMemory(size)
            if k.startswith('ram'):
                from .scn_bus import MST, Link
                x = self.x = Exec(ch)
                l = Link(x, 0, k.split()[1], 32, 8, mem=mem)
                self.o = l.s
            else:
                self.o = Memory(mem=mem)
            mem[0:size] = init
            self.peek = lambda a: mem[a]
            return
        if k in ('axi', 'axil', 'apb', 'axi half', 'axil half') or k.startswith('window on bus'):
            from .scn_bus import Link, runner, PAUSES
            x = self.x = Exec(ch)
            proto = k.split()[-1] if k.startswith('window') else k.split()[0]
            dw, pat = mode
            if k.endswith('half'):
                from .scn_bus import HALF
                l = Link(x, 0, proto, dw, 8, size=size, half='w')
                hb, hm = HALF[proto, 'r']
                self.o2 = hm(hb.from_prefix(x.dut, 'b0'), x.clk, x.rst)
            else:
                l = Link(x, 0, proto, dw, 8, size=size)
                x.call(l.pause, PAUSES[pat])
            l.s.mem[0:size] = init
            self.o = l.m
            self.peek = lambda a: l.s.mem[a]
            self.mon = l.mon
            x.settle()
            x.cycle(2)
            self.run = runner(x)
            if k.startswith('window'):
                self.o = l.m.create_window(5, size - 9)
                self.size = size - 9
                self.peek = lambda a: l.s.mem[a + 5]
            return
        if k == 'region':
            m = self.o = MemoryRegion(size)
            m[0:size] = init
            self.peek = lambda a: m[a]
        elif k == 'sparse region':
            m = self.o = SparseMemoryRegion(size)
            m[0:size] = init
            self.peek = lambda a: m[a]
        elif k in ('space', 'nested', 'pool', 'window', 'window pool', 'window of space'):
            sp = AddressSpace(size + 16)
            h = size // 2 + 1
            if k == 'pool':
                sp = sp.create_pool(0, size)
                r = sp.alloc_region(32)
                r[0:32] = init[:32]
                self.o = sp
                self.peek = lambda a: r[a]
                self.size = 32
                return
            m1, m2 = MemoryRegion(h), SparseMemoryRegion(size - h)
            m1[0:h] = init[:h]
            m2[0:size - h] = init[h:]
            self.peek = lambda a: m1[a] if a < h else m2[a - h]
            if k == 'space':
                sp.register_region(m1, 0)
                sp.register_region(m2, h)
                self.o = sp
            else:
                inner = AddressSpace(size)
                sp.register_region(inner, 8)
                inner.register_region(m1, 0)
                inner.register_region(m2, h)
                self.o = inner
                if k == 'window':
                    self.o = inner.create_window(3, size - 5)
                    self.size = size - 5
                    p = self.peek
                    self.peek = lambda a: p(a + 3)
                elif k == 'window of space':
                    self.o = sp.create_window(8, size)
                elif k == 'window pool':
                    q = inner.create_window_pool(1, 32)
                    self.o = q.alloc_window(32)
                    self.size = 32
                    p = self.peek
                    self.peek = lambda a: p(a + 1)
        elif k in ('custom', 'peripheral', 'window of custom', 'custom region'):
            d = bytearray(init)
            log = self.log = []

            class If(MemoryInterface if k != 'custom region' else Region):
                async def _read(self, address, length, **kw):
                    log.append(('r', address, length, kw))
                    return bytes(d[address:address + length])

                async def _write(self, address, data, **kw):
                    log.append(('w', address, bytes(data), kw))
                    d[address:address + len(data)] = data

            class Per:
                async def read(self, address, length, **kw):
                    log.append(('r', address, length, kw))
                    return Wrapped(bytes(d[address:address + length]))

                async def write(self, address, data, **kw):
                    log.append(('w', address, bytes(data), kw))
                    d[address:address + len(data)] = data
            self.peek = lambda a: d[a]
            self.o = PeripheralRegion(Per(), size) if k == 'peripheral' else If(size)
            if k == 'window of custom':
                self.o = self.o.create_window(4, size - 6)
                self.size = size - 6
                self.peek = lambda a: d[a + 4]
                self.base = 4
        else:
            raise RuntimeError(k)

    base = 0

    def call(self, name, *a, **kw):
        o = self.o
        if self.kind.endswith('half') and name.startswith('read'):
            o = self.o2
        f = getattr(o, name)
        return self.run(f(*a, **kw)) if self.asyn else f(*a, **kw)

    def image(self):
        return bytes(self.peek(a) for a in range(self.n))


class Wrapped:
    def __init__(self, d):
        self.d = d

    def __bytes__(self):
        return self.d


OPTS = {'custom': dict(prot=3, foo='x'), 'peripheral': dict(user=9), 'window of custom': dict(prot=1), 'custom region': dict(a=None)}


def vals_of(k, ws, n):
    top = (1 << 8 * ws) - 1
    v = [int.from_bytes(bytes((0x35 * k + 0x61 * i + 11 * j + 1) & 0xff for j in range(ws)), 'big') for i in range(n)]
    for i in range(n):
        if (k + i) % 5 == 1:
            v[i] = 0
        if (k + i) % 5 == 2:
            v[i] = top
        if (k + i) % 5 == 3:
            v[i] = 1 << 8 * ws - 1
    return v


# (name suffix, word size or None for the ws argument, takes a list)
FORMS = (('byte', 1, False), ('word', None, False), ('dword', 4, False), ('qword', 8, False), ('words', None, True), ('dwords', 4, True), ('qwords', 8, True))


def acc(ch, inp, size=40):
    """inp: (kind, mode, list of (form, ws, count, byteorder, address, flavour))"""
    kind, mode, ops = inp
    f = Iface(ch, kind, size, mode)
    f.n = min(f.size, size)
    if f.x is not None:
        f.x.settle()
        f.x.cycle(1)
    ref = bytearray(f.image())
    for k, (form, ws, cnt, bo, addr, flav) in enumerate(ops):
        name, fixed, lst = FORMS[form]
        w = fixed or ws or 2
        n = cnt if lst else 1
        kw = {}
        pos = []
        if bo is not None and name != 'byte':
            kw['byteorder'] = bo
        if ws is not None and fixed is None:
            kw['ws'] = ws
        if flav == 'pos' and 'byteorder' in kw:
            pos = [kw.pop('byteorder')]
            if 'ws' in kw:
                pos.append(kw.pop('ws'))
        order = bo if bo is not None else 'little'
        opts = {}
        if kind in OPTS and k % 2 == 0:
            opts = OPTS[kind]
        prot = None
        if f.mon is not None and k % 2 == 0:
            prot = (3 * k + 1) % 8
            opts = dict(prot=prot)
        kw.update(opts)
        what = '%s: write_%s(0x%x, %s values, %s, %s)' % (kind, name, addr, n, pos, kw)
        vals = vals_of(k, w, n)
        if flav in ('big', 'neg') and n:
            # the last value does not fit
            vals[-1] = 1 << 8 * w if flav == 'big' else -1
        arg = (tuple(vals) if k % 3 == 1 else list(vals)) if lst else vals[0]
        keep = list(vals)
        if f.log is not None:
            del f.log[:]
        if f.mon is not None:
            del f.mon.w[:], f.mon.r[:]
        raised = None
        try:
            f.call('write_' + name, addr, arg, *pos, **kw)
        except Violation:
            raise
        except Exception as e:
            raised = e
        bad = flav in ('big', 'neg') and n
        inside = 0 <= addr < f.n and addr + n * w <= f.n
        if lst and list(arg) != keep:
            raise Violation('%s changes the values given to it' % what)
        if bad:
            if raised is None:
                raise Violation('%s: the value %d is not refused' % (what, vals[-1]))
            if f.log:
                raise Violation('%s with a value that does not fit reaches the target: %s' % (what, f.log))
            if f.mon is not None and (f.mon.w or f.mon.r):
                raise Violation('%s with a value that does not fit reaches the bus' % what)
        elif inside:
            if raised is not None:
                raise Violation('%s raises %r' % (what, raised))
            data = b''.join(v.to_bytes(w, order) for v in vals)
            ref[addr:addr + n * w] = data
            if f.log is not None and n:
                if [e[:3] for e in f.log] != [('w', addr + f.base, data)] or f.log[0][3] != opts:
                    raise Violation('%s reaches the target as %s' % (what, f.log))
            if prot is not None and n and (not f.mon.w or any(p != format(prot, '03b') for p in f.mon.w)):
                raise Violation('%s: protection on the bus is %s' % (what, f.mon.w))
        else:
            # equal to the plain write of the same bytes: refused by everything that checks its range
            if raised is None and n and f.asyn and f.mon is None:
                raise Violation('%s outside the %d bytes is not refused' % (what, f.size))
            if raised is None:
                break
            if kind in ('space', 'nested', 'pool'):
                # the mapped part of a refused access may have been written
                data = b''.join(v.to_bytes(w, order) for v in vals)
                for a in range(addr, f.n):
                    if f.peek(a) == data[a - addr]:
                        ref[a] = data[a - addr]
        got = f.image()
        if got != bytes(ref):
            d = [a for a in range(f.n) if got[a] != ref[a]]
            raise Violation('%s: the bytes at %s are %s instead of %s' % (what, d, [got[a] for a in d], [ref[a] for a in d]))
        # read it back through the same accessor
        rd = '%s: read_%s(0x%x, %s, %s, %s)' % (kind, name, addr, n, pos, kw)
        if f.log is not None:
            del f.log[:]
        if f.mon is not None:
            del f.mon.w[:], f.mon.r[:]
        try:
            g = f.call('read_' + name, addr, *([cnt] if lst else []), *pos, **kw)
        except Violation:
            raise
        except Exception as e:
            if inside:
                raise Violation('%s raises %r' % (rd, e))
            continue
        if not inside:
            if n and f.asyn and f.mon is None:
                raise Violation('%s outside the %d bytes is not refused' % (rd, f.size))
            continue
        want = [int.from_bytes(ref[addr + i * w:addr + (i + 1) * w], order) for i in range(n)]
        if (list(g) if lst else [g]) != want:
            raise Violation('%s returns %s instead of %s' % (rd, g, want))
        if f.log is not None and n:
            if [e[:3] for e in f.log] != [('r', addr + f.base, n * w)] or f.log[0][3] != opts:
                raise Violation('%s reaches the target as %s' % (rd, f.log))
        if prot is not None and n and (not f.mon.r or any(p != format(prot, '03b') for p in f.mon.r)):
            raise Violation('%s: protection on the bus is %s' % (rd, f.mon.r))
        plain = f.call('read', addr, n * w, **opts)
        if bytes(getattr(plain, 'data', plain) if not isinstance(plain, (bytes, bytearray)) else plain) != bytes(ref[addr:addr + n * w]) and not isinstance(plain, Wrapped):
            raise Violation('%s: the plain read of the same bytes returns %r' % (rd, plain))
        if k % 4 == 3 and n and inside:
            # words see what a plain write stores
            d = bytes((0x17 * k + 5 * i + 3) & 0xff for i in range(n * w))
            f.call('write', addr, d, **opts)
            ref[addr:addr + n * w] = d
            g = f.call('read_' + name, addr, *([cnt] if lst else []), *pos, **kw)
            want = [int.from_bytes(d[i * w:(i + 1) * w], order) for i in range(n)]
            if (list(g) if lst else [g]) != want:
                raise Violation('%s after a plain write returns %s instead of %s' % (rd, g, want))
        ch.step((kind, mode, ops[k], k))
    if f.x is not None:
        f.x.close()
    return 'ok'
