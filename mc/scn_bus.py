"""Real bus masters in front of real RAM models and slaves, as targets of address spaces."""
from .core import Exec, Violation
from .bfm import axi_write_sigs, axi_read_sigs, axil_write_sigs, axil_read_sigs, apb_sigs
from cocotbext.axi import AxiBus, AxiWriteBus, AxiReadBus, AxiLiteBus, AxiLiteWriteBus, AxiLiteReadBus, ApbBus
from cocotbext.axi import AxiMaster, AxiMasterWrite, AxiMasterRead, AxiLiteMaster, AxiLiteMasterWrite, AxiLiteMasterRead, ApbMaster
from cocotbext.axi import AxiRam, AxiLiteRam, ApbRam, AxiSlave, AxiLiteSlave, ApbSlave

MST = {'axi': (AxiBus, AxiMaster, AxiRam, AxiSlave), 'axil': (AxiLiteBus, AxiLiteMaster, AxiLiteRam, AxiLiteSlave),
       'apb': (ApbBus, ApbMaster, ApbRam, ApbSlave)}
HALF = {('axi', 'w'): (AxiWriteBus, AxiMasterWrite), ('axi', 'r'): (AxiReadBus, AxiMasterRead),
        ('axil', 'w'): (AxiLiteWriteBus, AxiLiteMasterWrite), ('axil', 'r'): (AxiLiteReadBus, AxiLiteMasterRead)}


class ProtMon:
    """Protection values of the accesses on a bus."""

    def __init__(self, x, d, proto):
        self.d, self.proto = d, proto
        self.w, self.r = [], []
        x.monitors.append(self)

    def sample(self, x):
        d = self.d
        if self.proto == 'apb':
            if d['psel'].val == '1' and d['penable'].val == '1' and d['pready'].val == '1':
                (self.w if d['pwrite'].val == '1' else self.r).append(d['pprot'].val)
            return
        for c, l in (('aw', self.w), ('ar', self.r)):
            if d[c + 'valid'].val == '1' and d[c + 'ready'].val == '1':
                l.append(d[c + 'prot'].val)


class Link:
    """A master and a RAM or slave on the same signals."""

    def __init__(self, x, i, proto, dw, aw, size=None, target=None, mem=None, half=None, rst=None):
        self.x, self.proto = x, proto
        p = 'b%d' % i
        rst = (x.rst,) if rst is None else rst
        d = self.d = {}
        if proto == 'apb':
            d.update(apb_sigs(x, p, dw, aw, ('pprot', 'pslverr')))
        elif proto == 'axil':
            d.update(axil_write_sigs(x, p, dw, aw))
            d.update(axil_read_sigs(x, p, dw, aw))
        else:
            d.update(axi_write_sigs(x, p, dw, aw, 4))
            d.update(axi_read_sigs(x, p, dw, aw, 4))
        bus, mst, ram, slv = MST[proto]
        if half:
            hb, hm = HALF[proto, half]
            self.m = hm(hb.from_prefix(x.dut, p), x.clk, *rst)
        else:
            self.m = mst(bus.from_prefix(x.dut, p), x.clk, *rst)
        if target is not None:
            self.s = slv(bus.from_prefix(x.dut, p), x.clk, *rst, target=target)
        else:
            self.s = ram(bus.from_prefix(x.dut, p), x.clk, *rst, size=size) if mem is None else ram(bus.from_prefix(x.dut, p), x.clk, *rst, mem=mem)
        self.mon = ProtMon(x, d, proto)

    def pause(self, pats):
        """Pause patterns for the channels of the RAM or slave side and of the master."""
        if self.proto == 'apb':
            if pats.get('s'):
                self.s.set_pause_generator(loop(pats['s']))
            if pats.get('m'):
                self.m.set_pause_generator(loop(pats['m']))
            return
        for k, pt in pats.items():
            for o in (self.m, self.s):
                for side in ('write_if', 'read_if'):
                    c = getattr(getattr(o, side, None), k + '_channel', None)
                    if c is not None:
                        c.set_pause_generator(loop(pt))


def loop(p):
    while True:
        yield from p


def runner(x, limit=600):
    """A function that runs a coroutine inside the simulation to its end."""
    def run(coro):
        r = x.start(coro)
        n = 0
        while not r.done:
            x.cycle()
            n += 1
            if n > limit:
                raise Violation('an access does not complete within %d cycles' % limit)
        if r.exc is not None:
            raise r.exc
        return r.value
    return run


PAUSES = (
    {},
    dict(aw=(0, 1), w=(1, 0, 0), b=(1, 1, 0), ar=(1, 0), r=(0, 0, 1), s=(1, 0), m=(0, 1)),
    dict(aw=(1, 1, 0), w=(0,), b=(0, 1), ar=(0,), r=(1, 1, 0), s=(1, 1, 0), m=(0,)),
    dict(aw=(0,), w=(1, 1, 1, 0), b=(0,), ar=(1, 1, 0), r=(0, 1), s=(0, 0, 1), m=(1, 1, 0)),
)


def initb(n, a):
    return (0x51 * (n + 1) + 0x2f * a + 0x13) & 0xff


class BusStore:
    """A bus master with a RAM model behind it, as a target of the reference map."""
    kind = 'bus'
    logged = False

    def __init__(self, x, n, proto, dw, aw, pats):
        self.n = n
        self.size = 1 << aw
        self.link = Link(x, n, proto, dw, aw, size=self.size)
        self.mem = self.link.s.mem
        self.mem[0:self.size] = bytes(initb(n, a) for a in range(self.size))
        self.ref = {}
        self.log, self.opts, self.touched = [], [], []
        self.o = self.link.m
        x.call(self.link.pause, pats)

    def get(self, a):
        return self.ref.get(a, initb(self.n, a))

    def peek(self, a):
        return self.mem[a]


def routed(ch, inp, pat=0):
    """Bus masters and memories side by side in an address space: every access in turn."""
    from .scn_space import Store, Map, access, map_of
    from cocotbext.axi import AddressSpace
    spec, S, grid, view = inp
    x = Exec(ch)
    space = AddressSpace(S)
    stores = []
    ranges = []
    nbus = 0
    for i, (kind, base, size, off) in enumerate(spec):
        if isinstance(kind, tuple):
            st = BusStore(x, i, kind[0], kind[1], kind[2], PAUSES[pat])
            nbus += 1
        else:
            st = Store(i, kind, base + size if off is None else off + size)
        stores.append(st)
        space.register_region(st.o, base, size=size, offset=off)
        ranges.append((base, size, off, st))
    x.settle()
    x.cycle(2)
    m = map_of(S, ranges)
    o = space
    what = 'bus targets %s' % (spec,)
    if view == 'window':
        o = space.create_window(2, S - 4)
        pm = m
        m = Map(S - 4, lambda a: pm.at(a + 2))
    elif view == 'target window':
        o = stores[0].o.create_window(3, stores[0].size - 3)
        m = Map(stores[0].size - 3, lambda a: (0, stores[0], a + 3))
    elif view == 'outer':
        o = AddressSpace(S + 16)
        o.register_region(space, 8)
        pm = m
        m = Map(S + 16, lambda a: pm.at(a - 8))
    run = runner(x)
    for k, (a, n) in enumerate(grid):
        kw = dict(prot=(k * 3 + 1) % 8) if k % 2 else {}
        for st in stores:
            if st.kind == 'bus':
                del st.link.mon.w[:], st.link.mon.r[:]
        access(what, o, m, stores, a, n, k, kw, strict=False, run=run)
        segs = m.segs(a, n) or []
        if kw:
            for st in stores:
                if st.kind != 'bus':
                    continue
                # prot of a region access is carried by every access on the bus
                bad = [v for v in st.link.mon.w + st.link.mon.r if v != format(kw['prot'], '03b')]
                if bad:
                    raise Violation('%s: protection value %d reaches the bus as %s' % (what, kw['prot'], bad[0]))
        for st in stores:
            if st.kind == 'bus' and segs and not any(t is st for r, t, y, c in segs) and n and (st.link.mon.w or st.link.mon.r):
                raise Violation('%s: an access of %d bytes at %d reaches the bus of target %d' % (what, n, a, st.n))
    x.close()
    return 'ok'


def bridge(ch, inp, pat=0):
    """master - slave - address space - masters with RAMs behind them, and memories."""
    from .scn_space import Store, Map, map_of
    from cocotbext.axi import AddressSpace
    (proto, dw, aw), spec, grid = inp
    x = Exec(ch)
    space = AddressSpace(1 << aw)
    stores, ranges = [], []
    for i, (kind, base, size, off) in enumerate(spec):
        st = BusStore(x, i, kind[0], kind[1], kind[2], PAUSES[(pat + i) % len(PAUSES)]) if isinstance(kind, tuple) else Store(i, kind, base + size if off is None else off + size)
        stores.append(st)
        if base is None:
            base, size, off = 0, st.size, 0
            ranges.append((base, size, off, st))
            break
        space.register_region(st.o, base, size=size, offset=off)
        ranges.append((base, size, off, st))
    # a target registered at None is the slave's target itself
    direct = spec[0][1] is None
    link = Link(x, 9, proto, dw, aw, target=stores[0].o if direct else space)
    x.call(link.pause, PAUSES[pat])
    x.settle()
    x.cycle(2)
    m = map_of(1 << aw, ranges)
    run = runner(x, 2000)
    bw = dw // 8
    for k, (a, n) in enumerate(grid):
        what = 'bridge %s %s: %d bytes at 0x%x' % (inp[0], spec, n, a)
        at = [m.at(a + j) for j in range(n)]
        words = [m.at(j) for j in range(a // bw * bw, (a + n + bw - 1) // bw * bw)] if proto in ('axil', 'apb') else at
        ok = all(at)
        okr = all(words)
        d = bytes((0x6d * (a + i) + 0x0b * k + 0x31) & 0xff for i in range(n))
        r = run(link.m.write(a, d))
        if (int(r.resp) == 0) != ok:
            raise Violation('%s: write response %s although the range is %smapped' % (what, r.resp, '' if ok else 'not entirely '))
        for j, t in enumerate(at):
            if t:
                # bytes of a failing access may or may not be written
                if ok or t[1].peek(t[2]) == d[j]:
                    t[1].ref[t[2]] = d[j]
        for st in stores:
            for y in range(min(st.size, 64)):
                if st.peek(y) != st.get(y):
                    raise Violation('%s: after the write target %d has 0x%02x at %d instead of 0x%02x' % (what, st.n, st.peek(y), y, st.get(y)))
        r = run(link.m.read(a, n))
        if ok and okr != (int(r.resp) == 0) or not ok and int(r.resp) == 0:
            raise Violation('%s: read response %s although the words are %smapped' % (what, r.resp, '' if okr else 'not entirely '))
        if ok and okr:
            want = bytes(t[1].get(t[2]) for t in at)
            if bytes(r.data) != want:
                raise Violation('%s: reads %s instead of %s' % (what, bytes(r.data).hex(), want.hex()))
    x.close()
    return 'ok'
