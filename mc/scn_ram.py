"""Several RAM models sharing one memory, driven through all their ports and direct calls."""
import mmap
from .core import Exec, Violation
from .bfm import axi_beats, axi_write_sigs, axi_read_sigs, axil_write_sigs, axil_read_sigs, apb_sigs, ival, INCR
from .scn_master import AW_OPT, AR_OPT
from cocotbext.axi import AxiBus, AxiWriteBus, AxiReadBus, AxiLiteBus, AxiLiteWriteBus, AxiLiteReadBus, ApbBus
from cocotbext.axi import AxiRam, AxiRamWrite, AxiRamRead, AxiLiteRam, AxiLiteRamWrite, AxiLiteRamRead, ApbRam
from cocotbext.axi.sparse_memory import SparseMemory

CLS = {('axi', 'rw'): (AxiRam, AxiBus), ('axi', 'w'): (AxiRamWrite, AxiWriteBus), ('axi', 'r'): (AxiRamRead, AxiReadBus),
       ('axil', 'rw'): (AxiLiteRam, AxiLiteBus), ('axil', 'w'): (AxiLiteRamWrite, AxiLiteWriteBus), ('axil', 'r'): (AxiLiteRamRead, AxiLiteReadBus),
       ('apb', 'rw'): (ApbRam, ApbBus)}


class Port:
    """A RAM model and a simple master for its bus; operations are generators, one step per clock cycle."""

    def __init__(self, x, i, spec, aw, kw):
        self.x = x
        self.proto, self.dw, self.half = spec
        self.bw = self.dw // 8
        p = self.p = 'p%d' % i
        d = self.d = {}
        dw = self.dw
        if self.proto == 'apb':
            d.update(apb_sigs(x, p, dw, aw, ('pprot', 'pslverr')))
            for k in ('psel', 'penable', 'pwrite', 'paddr', 'pwdata', 'pstrb', 'pprot'):
                d[k].val = '0' * d[k].width
        else:
            if 'w' in self.half:
                d.update(axil_write_sigs(x, p, dw, aw) if self.proto == 'axil' else axi_write_sigs(x, p, dw, aw, 4))
            if 'r' in self.half:
                d.update(axil_read_sigs(x, p, dw, aw) if self.proto == 'axil' else axi_read_sigs(x, p, dw, aw, 4))
            for k in d:
                if k[:2] in ('aw', 'ar') and not k.endswith('ready') or k[0] == 'w' and k != 'wready' or k in ('bready', 'rready'):
                    d[k].val = '0' * d[k].width
        cls, bus = CLS[self.proto, self.half]
        self.m = cls(bus.from_prefix(x.dut, p), x.clk, x.rst, **kw)

    def set(self, **k):
        for n, v in k.items():
            if n in self.d:
                self.x.drive_now(self.d[n], int(v))

    def hi(self, a, b):
        return self.d[a].val == '1' and self.d[b].val == '1'

    def write(self, addr, beats, size=None, burst=INCR, skew=0, bstall=0):
        """beats: (data, strb) of the whole bus width."""
        d = self.d
        if self.proto == 'apb':
            for k, (v, st) in enumerate(beats):
                yield from self.apb(addr + k * self.bw, v, st)
            return 0
        size = self.bw.bit_length() - 1 if size is None else size
        if self.proto == 'axil':
            code = 0
            for k, (v, st) in enumerate(beats):
                code |= yield from self.axw(addr + k * self.bw, [(v, st)], size, INCR, skew, bstall)
            return code
        return (yield from self.axw(addr, beats, size, burst, skew, bstall))

    def axw(self, addr, beats, size, burst, skew, bstall):
        d = self.d
        t = 0
        a_done = b_done = False
        k = 0
        while not b_done:
            if t > 80:
                raise Violation('%s: a write burst is not answered' % self.p)
            on = not a_done and t >= max(0, skew)
            self.set(awvalid=on)
            if on:
                self.set(awaddr=addr, awlen=len(beats) - 1, awsize=size, awburst=burst, awid=3, awcache=3, awprot=2)
            on = k < len(beats) and t >= max(0, -skew)
            self.set(wvalid=on, wlast=k == len(beats) - 1)
            if on:
                self.set(wdata=beats[k][0], wstrb=beats[k][1])
            self.set(bready=t >= bstall)
            fa, fw, fb = self.hi('awvalid', 'awready'), self.hi('wvalid', 'wready'), self.hi('bvalid', 'bready')
            code = d['bresp'].val
            yield
            a_done |= fa
            k += fw
            b_done = fb
            t += 1
        self.set(awvalid=0, wvalid=0, bready=0)
        return ival(code, 'bresp')

    def read(self, addr, n, size=None, burst=INCR, rstall=0):
        """Returns the words of the beats."""
        size = self.bw.bit_length() - 1 if size is None else size
        if self.proto == 'apb':
            out = []
            for k in range(n):
                out.append((yield from self.apb(addr + k * self.bw)))
            return out
        if self.proto == 'axil':
            out = []
            for k in range(n):
                out += yield from self.axr(addr + k * self.bw, 1, size, INCR, rstall)
            return out
        return (yield from self.axr(addr, n, size, burst, rstall))

    def axr(self, addr, n, size, burst, rstall):
        d = self.d
        t = 0
        a_done = False
        out = []
        while len(out) < n:
            if t > 80:
                raise Violation('%s: a read burst is not answered' % self.p)
            self.set(arvalid=not a_done)
            if not a_done:
                self.set(araddr=addr, arlen=n - 1, arsize=size, arburst=burst, arid=5, arcache=3, arprot=2)
            self.set(rready=t >= rstall)
            fa, fr = self.hi('arvalid', 'arready'), self.hi('rvalid', 'rready')
            v, c = d['rdata'].val, d['rresp'].val
            yield
            a_done |= fa
            if fr:
                if ival(c, 'rresp'):
                    raise Violation('%s: read response %s' % (self.p, c))
                out.append(ival(v, 'rdata'))
            t += 1
        self.set(arvalid=0, rready=0)
        return out

    def apb(self, addr, v=None, st=0):
        d = self.d
        self.set(psel=1, penable=0, paddr=addr, pwrite=v is not None, pwdata=v or 0, pstrb=st)
        yield
        self.set(penable=1)
        t = 0
        while True:
            r, q, e = d['pready'].val, d['prdata'].val, d['pslverr'].val
            yield
            if r == '1':
                break
            t += 1
            if t > 20:
                raise Violation('%s: an APB transfer is not completed' % self.p)
        self.set(psel=0, penable=0)
        if e != '0':
            raise Violation('%s: pslverr %s' % (self.p, e))
        return ival(q, 'prdata') if v is None else None


def pat(n, k):
    return (0x3b * (n + 1) + 0x17 * k + 5) & 0xff


class World:
    def __init__(self, chooser, ports, size, backing='own', aw=16):
        x = self.x = Exec(chooser)
        self.size = size
        self.ports = []
        mem = None
        if backing == 'mmap':
            mem = mmap.mmap(-1, size)
        elif backing == 'sparse':
            mem = SparseMemory(size)
        for i, s in enumerate(ports):
            if mem is not None:
                kw = dict(mem=mem)
            elif backing == 'default':
                kw = {}
            else:
                kw = dict(size=size)
            p = Port(x, i, s, aw, kw)
            self.ports.append(p)
            if mem is None:
                mem = p.m.mem
        self.mem = mem
        self.ref = {}
        self.n = 0
        x.settle()
        x.cycle(2)

    def get(self, a):
        return self.ref.get(a % self.size, 0)

    def bytes(self, a, n):
        return bytes(self.get(a + i) for i in range(n))

    def bad(self, what, *a):
        raise Violation(what % a)

    # ---- bus operations: (generator, effect, check)
    def bus(self, op):
        kind, pi, addr, n = op[:4]
        o = dict(op[4]) if len(op) > 4 else {}
        p = self.ports[pi]
        bw = p.bw
        size = o.pop('size', None)
        burst = o.pop('burst', INCR)
        full = bw.bit_length() - 1
        view = axi_beats(addr, n, full if size is None else size, burst, bw) if p.proto == 'axi' else \
            [(addr // bw * bw + k * bw, 0, bw - 1) for k in range(n)]
        self.n += 1
        if kind == 'W':
            stx = o.pop('strb', -1)
            beats = []
            eff = []
            for k, (a, lo, hi) in enumerate(view):
                st = stx & ((1 << hi + 1) - 1) & ~((1 << lo) - 1)
                v = 0
                for l in range(bw):
                    b = pat(self.n, k * bw + l)
                    v |= b << 8 * l
                    if st >> l & 1:
                        eff.append(((a // bw * bw + l) % self.size, b))
                beats.append((v, st))
            return p.write(addr, beats, size=size, burst=burst, **o), eff, None
        return p.read(addr, n, size=size, burst=burst, **o), None, view

    def verify(self, op, view, words, alt=()):
        p = self.ports[op[1]]
        alt = dict(alt)
        for (a, lo, hi), w in zip(view, words):
            for l in range(lo, hi + 1):
                ad = (a // p.bw * p.bw + l) % self.size
                g = w >> 8 * l & 0xff
                if g != self.get(ad) and g != alt.get(ad, -1):
                    self.bad('port %d (%s): 0x%02x read at 0x%x, the memory has 0x%02x at 0x%x', op[1], p.proto, g, a // p.bw * p.bw + l, self.get(ad), ad)

    def run(self, gens):
        """Runs bus operations side by side: (start cycle, generator)."""
        t = 0
        live = [[s, g, None, False] for s, g in gens]
        while not all(l[3] for l in live):
            for l in live:
                if not l[3] and t >= l[0]:
                    try:
                        next(l[1])
                    except StopIteration as e:
                        l[2], l[3] = e.value, True
            if not all(l[3] for l in live):
                self.x.cycle()
            t += 1
        return [l[2] for l in live]

    def do(self, op):
        k = op[0]
        if k in 'WR':
            g, eff, view = self.bus(op)
            r = self.run([(0, g)])[0]
            if k == 'W':
                if r:
                    self.bad('port %d: write response %d', op[1], r)
                self.ref.update(eff)
            else:
                self.verify(op, view, r)
        elif k == 'par':
            ps = [self.bus(o) for o in op[2]]
            rs = self.run(list(zip(op[1], [g for g, e, v in ps])))
            alt = {}
            for g, e, v in ps:
                if e:
                    for a, b in e:
                        if a in alt:
                            raise RuntimeError('overlapping writes')
                    alt.update(e)
            for o, (g, e, v), r in zip(op[2], ps, rs):
                if v:
                    self.verify(o, v, r, alt)
            self.ref.update(alt)
        else:
            self.direct(op)

    def direct(self, op):
        k, pi = op[:2]
        m = self.ports[pi].m if pi is not None else None
        a = op[2]
        self.n += 1
        if k == 'w':
            d = bytes(pat(self.n, i) for i in range(op[3]))
            m.write(a, d)
            self.ref.update((a + i, b) for i, b in enumerate(d))
        elif k == 'r':
            d = bytes(m.read(a, op[3]))
            if d != self.bytes(a, op[3]):
                self.bad('read(0x%x, %d) of model %d returns %s instead of %s', a, op[3], pi, d.hex(), self.bytes(a, op[3]).hex())
        elif k in ('words', 'dwords', 'qwords'):
            ws = dict(words=2, dwords=4, qwords=8)[k]
            bo = op[4]
            vals = [int.from_bytes(bytes(pat(self.n, i * ws + j) for j in range(ws)), 'big') for i in range(op[3])]
            getattr(m, 'write_' + k)(a, vals, byteorder=bo)
            self.ref.update((a + i, b) for i, b in enumerate(b''.join(v.to_bytes(ws, bo) for v in vals)))
            g = getattr(m, 'read_' + k)(a, op[3], byteorder=bo)
            if list(g) != vals:
                self.bad('read_%s(0x%x, %d, %s) returns %s instead of %s', k, a, op[3], bo, g, vals)
        elif k == 'byte':
            v = pat(self.n, 0)
            m.write_byte(a, v)
            self.ref[a] = v
            if m.read_byte(a) != v:
                self.bad('read_byte(0x%x) returns 0x%x instead of 0x%x', a, m.read_byte(a), v)
        elif k == 'item':
            mem = m.mem
            d = bytes(pat(self.n, i) for i in range(op[3]))
            mem[a:a + op[3]] = d
            self.ref.update((a + i, b) for i, b in enumerate(d))
        elif k == 'dump':
            n = op[3]
            want = []
            for o in range(a, a + n, 16):
                want.append(('%08x' % o, [b for b in self.bytes(o, min(16, a + n - o))]))
            lines = m.hexdump_lines(a, n, prefix='#')
            s = m.hexdump_str(a, n, prefix='#')
            if s.split('\n') != list(lines):
                self.bad('hexdump_str and hexdump_lines differ')
            got = []
            for ln in lines:
                if not ln.startswith('#'):
                    self.bad('dump line without its prefix: %r', ln)
                ad, _, rest = ln[1:].partition(':')
                toks = rest[1:1 + 48].split()
                got.append((ad.strip(), [int(t, 16) for t in toks]))
            if [(int(p, 16), q) for p, q in got] != [(int(p, 16), q) for p, q in want]:
                self.bad('dump of %d bytes at 0x%x shows %s instead of %s', n, a, got, want)
        else:
            raise RuntimeError(k)

    def final(self, spots=None):
        """Everything is readable through every port and every call."""
        for i, p in enumerate(self.ports):
            if 'r' in p.half:
                if spots is None and self.size // p.bw > 16:
                    # the words written, and their neighbours
                    ws = sorted(set((a + j) % self.size // p.bw for a in self.ref for j in (-1, 0, 1)))
                    for k in ws[:8] + ws[8::3]:
                        self.do(('R', i, (i + 1) * self.size + k * p.bw, 1))
                elif spots is None:
                    n = self.size // p.bw
                    m = min(n, 16)
                    for k in range(0, n, m):
                        self.do(('R', i, (i + 1) * self.size + k * p.bw, m))
                else:
                    for a in spots:
                        self.do(('R', i, a // p.bw * p.bw, 1))
            if spots is None:
                self.direct(('r', i, 0, self.size))
            else:
                for a in spots:
                    self.direct(('r', i, a, 8))
        if spots is None:
            g = bytes(self.mem[0:self.size])
            if g != self.bytes(0, self.size):
                self.bad('the memory holds %s instead of %s', g.hex(), self.bytes(0, self.size).hex())


def ram(ch, inp, ports, size, backing='own', aw=16, spots=None):
    w = World(ch, ports, size, backing, aw)
    for op in inp:
        w.do(op)
    w.final(spots)
    w.x.close()
    return 'ok'
