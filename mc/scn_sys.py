"""Both ends of a bus from the library, one reset: every sequence of reset values, with and without a reset signal."""
from .core import Exec, Violation
from .bfm import need
from . import scn_chan
from .scn_bus import Link
from .scn_axis import Geo
from cocotbext.axi import AxiStreamBus, AxiStreamSource, AxiStreamSink, AxiStreamMonitor, AxiStreamFrame
import cocotb.triggers as ct


class Items:
    """Source, sink and monitor of a channel."""

    def __init__(self, x, kind, rst):
        self.x = x
        if kind == 'axis':
            g = Geo(2)
            S = g.build(x)
            b = lambda: AxiStreamBus.from_prefix(x.dut, 's')    # noqa: E731
            self.src, self.snk, self.mon = (c(b(), x.clk, *rst) for c in (AxiStreamSource, AxiStreamSink, AxiStreamMonitor))
            self.hs = [S['tvalid'], S['tready']]
        else:
            cls, bus, S, v, r, f = scn_chan.mkbus(x, kind)
            mk = lambda: cls[0].from_prefix(x.dut, 's')         # noqa: E731
            self.cls = cls
            self.src, self.snk, self.mon = cls[2](mk(), x.clk, *rst), cls[3](mk(), x.clk, *rst), cls[4](mk(), x.clk, *rst)
            self.hs = [v, r]
        self.kind = kind
        self.n = 0

    async def op(self, i):
        n = self.n = self.n + 1
        if self.kind == 'axis':
            await self.src.send(AxiStreamFrame(bytes([n, n + 1, n + 2])))
        else:
            await self.src.send(self.cls[1](**scn_chan.item(self.kind, n)))

    def empty(self):
        """What is received by now."""
        out = []
        for s in (self.snk, self.mon):
            l = []
            while not s.empty():
                f = s.recv_nowait()
                l.append(bytes(f.tdata) if self.kind == 'axis' else tuple(int(getattr(f, k)) for k in sorted(scn_chan.item(self.kind, 0))))
            out.append(l)
        return out

    def final(self):
        """Runs two items through; the last things received must be these."""
        k = self.n
        exp = []
        for j in (1, 2):
            self.x.start(self.op(0))
            it = scn_chan.item(self.kind, k + j) if self.kind != 'axis' else None
            exp.append(bytes([k + j, k + j + 1, k + j + 2]) if it is None else tuple(it[q] for q in sorted(it)))
        self.x.cycle(24)
        for who, l in zip(('sink', 'monitor'), self.empty()):
            need(l[-2:] == exp, 'the %s received %s after the last reset, %s was sent', who, l[-2:], exp)
            if self.kind == 'axis':
                # whole frames only, each at most once, in order
                num = [f[0] for f in l]
                need(all(f == bytes([f[0], f[0] + 1, f[0] + 2]) for f in l) and num == sorted(set(num)), 'the %s received %s', who, l)
        need(self.src.idle() and self.src.empty(), 'the source is not idle when everything is sent')


class Bus:
    """Master and RAM model."""

    def __init__(self, x, kind, rst):
        self.x = x
        self.l = Link(x, 0, kind, 16, 12, size=256, rst=rst)
        d = self.l.d
        self.hs = [s for k, s in d.items() if k.endswith('valid') or k.endswith('ready') or k in ('psel', 'penable')]
        self.m, self.ram = self.l.m, self.l.s
        self.n = 0

    async def op(self, i):
        n = self.n = self.n + 1
        a = 5 + 8 * (n % 20)
        d = bytes([n, n ^ 0xff, n * 3 & 0xff])
        if i % 2:
            await self.m.write(a, d)
        else:
            await self.m.read(a, 3)

    def final(self):
        x, m = self.x, self.m
        need(m.idle(), 'the master is not idle although nothing is outstanding')
        res = []

        async def go():
            for a, d in ((0x11, bytes(range(1, 12))), (0x13, b'ab')):
                w = await m.write(a, d)
                res.append((w.address, w.length, int(w.resp)))
            r = await m.read(0x10, 14)
            res.append((r.address, bytes(r.data), int(r.resp)))
        r0 = self.ram.read(0x10, 1), self.ram.read(0x1c, 2)
        r = x.start(go())
        n = 0
        while not r.done:
            x.cycle()
            n += 1
            need(n < 150, 'an operation after the last reset does not complete')
        if r.exc is not None:
            raise Violation('an operation after the last reset raised %r' % r.exc)
        d = bytearray(r0[0] + bytes(range(1, 12)) + r0[1])
        d[3:5] = b'ab'
        exp = [(0x11, 11, 0), (0x13, 2, 0), (0x10, bytes(d), 0)]
        need(res == exp, 'operations after the last reset returned %s instead of %s', res, exp)
        x.cycle(4)
        need(m.idle(), 'the master is not idle although nothing is outstanding')


def sysrst(ch, inp, kind):
    """inp: pol, start value of the reset, values with the number of cycles each, cycles at which operations start."""
    pol, init, seq, at = inp
    x = Exec(ch)
    if pol is not None:
        x.rst_s.val = init
    rst = () if pol is None else (x.rst,) if pol else (x.rst, False)
    s = (Bus if kind in ('axi', 'axil', 'apb') else Items)(x, kind, rst)
    x.settle()
    ops = []
    t = 0
    low = 0
    for v, n in seq:
        if pol is not None:
            x.drive_now(x.rst_s, v)
        for _ in range(n):
            if t in at:
                ops.append(x.start(s.op(len(ops))))
            x.cycle()
            t += 1
            act = pol is not None and x.rst_s.val == str(pol)
            low = low + 1 if act else 0
            if low >= 2:
                for h in s.hs:
                    need(h.val == '0', '%s is %s in reset', h.name, h.val)
    x.cycle(60)
    for k, o in enumerate(ops):
        need(o.done, 'operation %d never completes', k)
        if o.exc is not None:
            raise Violation('operation %d raised %r' % (k, o.exc))
    s.final()
    x.close()
    return 'ok'


def sequences(q):
    import itertools
    out = []
    for at in ((), (0, 1), (1, 2, 3, 4)):
        out.append((None, '0', (('0', 6),), at))
        for pol in (1, 0):
            on, off = str(pol), str(1 - pol)
            for init in 'x' + off:
                for k in (1, 2, 3, 4) if not q else (1, 2, 3):
                    for vals in itertools.product((on, off), repeat=k):
                        for d in (1, 3) if q else (1, 2, 3):
                            if any(a == b for a, b in zip(vals, vals[1:])):
                                continue
                            out.append((pol, init, tuple((v, d + j % 2) for j, v in enumerate(vals)) + ((off, 3),), at))
            # undefined for a while, with the level unchanged before and after
            for init in (off, 'x'):
                for d in (1, 2):
                    out.append((pol, init, ((off, 2), ('x', d), (off, 2), (on, d), ('x', d), (on, d), (off, 2)), at))
                    out.append((pol, init, (('x', d), (on, 3), ('x', 1), (on, 1), (off, d), (on, 1), (off, 1)), at))
    return out
