"""Scenarios for AXI and AXI-Lite slaves and RAMs driven by an arbitrary legal master.

The environment offers address, data and takes responses in every relative order the
protocol allows.  The reference computes, from the AXI specification only, which bytes
each beat writes or returns.
"""
from .core import Exec, Violation, RisingEdge
from .bfm import ReadyPeer, ival, axi_beats, FIXED, INCR, WRAP, axi_write_sigs, axi_read_sigs, \
    axil_write_sigs, axil_read_sigs, mkchan, mkbus, viap
from .scn_chan import Actor
from .scn_master import Stop, AW_OPT, AR_OPT
from cocotbext.axi import AxiResp
from cocotbext.axi.axi_master import AxiReadResp
from cocotbext.axi.axil_master import AxiLiteReadResp
from cocotbext.axi import AxiBus, AxiWriteBus, AxiReadBus, AxiLiteBus, AxiLiteWriteBus, AxiLiteReadBus
from cocotbext.axi import AxiSlave, AxiSlaveWrite, AxiSlaveRead, AxiRam, AxiRamWrite, AxiRamRead
from cocotbext.axi import AxiLiteSlave, AxiLiteSlaveWrite, AxiLiteSlaveRead, AxiLiteRam, AxiLiteRamWrite, AxiLiteRamRead

ALLCAT = ('data', 'resp', 'once', 'order', 'live', 'reset', 'fault')

CLS = {
    ('axi', 'slave', 'rw'): AxiSlave, ('axi', 'slave', 'w'): AxiSlaveWrite, ('axi', 'slave', 'r'): AxiSlaveRead,
    ('axi', 'ram', 'rw'): AxiRam, ('axi', 'ram', 'w'): AxiRamWrite, ('axi', 'ram', 'r'): AxiRamRead,
    ('axil', 'slave', 'rw'): AxiLiteSlave, ('axil', 'slave', 'w'): AxiLiteSlaveWrite, ('axil', 'slave', 'r'): AxiLiteSlaveRead,
    ('axil', 'ram', 'rw'): AxiLiteRam, ('axil', 'ram', 'w'): AxiLiteRamWrite, ('axil', 'ram', 'r'): AxiLiteRamRead,
}
BUS = {('axi', 'rw'): AxiBus, ('axi', 'w'): AxiWriteBus, ('axi', 'r'): AxiReadBus,
       ('axil', 'rw'): AxiLiteBus, ('axil', 'w'): AxiLiteWriteBus, ('axil', 'r'): AxiLiteReadBus}


def BW(addr, n=1, size=None, burst=INCR, id=0, strb=-1, **k):
    """A write burst of n beats; strb: -1 all lanes of each beat, an int, or one int per beat (masked to the legal lanes)."""
    return dict(k, kind='w', addr=addr, n=n, size=size, burst=burst, id=id, strb=strb)


def BR(addr, n=1, size=None, burst=INCR, id=0, **k):
    return dict(k, kind='r', addr=addr, n=n, size=size, burst=burst, id=id)


def init(a):
    return (a * 0x1d + (a >> 8) * 0x35 + 0x47) & 0xff


def wval(i, k, l):
    return (0x53 * (i + 1) + 0x2b * k + 0x0d * l + (k >> 4) * 7 + 1) & 0xff


class Burst:
    canon_leaf = True

    def __init__(self, i, s, bw, size, wstrb):
        self.i = i
        self.spec = s
        self.kind, self.addr, self.n, self.burst, self.id = s['kind'], s['addr'], s['n'], s['burst'], s['id']
        full = bw.bit_length() - 1
        self.size = full if s['size'] is None else s['size']
        view = axi_beats(self.addr, self.n, self.size, self.burst, bw)
        self.view = view
        self.beats = []         # writes: (wdata, wstrb, {address: byte})
        self.lanes = []         # reads: ((lane, address), ...)
        for k, (a, lo, hi) in enumerate(view):
            base = a // bw * bw
            if self.kind == 'w':
                t = s['strb']
                st = t if isinstance(t, int) else t[k % len(t)]
                legal = ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)
                st &= legal
                if not wstrb:
                    st = (1 << bw) - 1
                d = 0
                eff = {}
                for l in range(bw):
                    v = wval(i, k, l)
                    d |= v << 8 * l
                    if st >> l & 1:
                        eff[(base + l) % size] = v
                self.beats.append((d, st, eff))
            else:
                self.lanes.append(tuple((l, (base + l) % size) for l in range(lo, hi + 1)))
        self.a_sent = 0         # 0 not offered, 1 offered, 2 accepted
        self.d_off = 0          # data beats offered / accepted (writes), received (reads)
        self.d_acc = 0
        self.resp = 0
        self.fail = set()       # beats in which an access to the target failed
        self.val = {}           # reads: beat -> what the target returned, by address
        self.rd = 0             # reads performed by the target
        self.mat = 0            # beats whose address and data have been accepted
        self.seen = {}          # reads of a RAM: values each byte had since the address was accepted

    def st(self):
        return (self.a_sent, self.d_off, self.d_acc, self.resp, tuple(sorted(self.fail)), self.rd, self.mat,
                tuple(sorted((a, tuple(sorted(v))) for a, v in self.seen.items())))


def respform(form, address, data):
    """The data of a target the way different targets return it."""
    if form == 'resp':
        return AxiReadResp(address, bytes(data), AxiResp.OKAY, None)
    if form == 'lresp':
        return AxiLiteReadResp(address, bytes(data), AxiResp.OKAY)
    return bytearray(data) if form == 'bytearray' else bytes(data)


class Target:
    """The backing target of a slave: logs, delays and fails accesses by choice."""
    canon_leaf = True

    def __init__(self, sc):
        self.sc = sc
        self.size = sc.size
        self.busy = 0

    async def delay(self):
        sc = self.sc
        d = sc.delay
        if d == 'choose':
            n = sc.x.choose(2, 'delay')
        elif isinstance(d, int):
            n = d
        else:
            n = d[sc.ntarget % len(d)]
        sc.ntarget += 1
        for _ in range(n):
            self.busy = 1
            await RisingEdge(sc.x.clk)
        self.busy = 0

    async def write(self, address, data, **kwargs):
        sc = self.sc
        data = bytes(data)
        await self.delay()
        if sc.fails('w', address, len(data)):
            sc.target_write(address, data, True)
            raise Exception('access failed')
        sc.target_write(address, data, False)

    async def read(self, address, length, **kwargs):
        sc = self.sc
        await self.delay()
        if sc.fails('r', address, length):
            sc.target_read(address, length, True)
            raise Exception('access failed')
        return respform(sc.rform, address, sc.target_read(address, length, False))


class Req:
    """Offers the items of a request channel (addresses or write data)."""

    def __init__(self, sc, ch, mode):
        self.sc, self.ch, self.mode = sc, ch, mode
        self.on = None
        sc.x.procs.append(self)
        ch.valid.val = '0'
        for s in ch.payload.values():
            s.val = sc.idle * s.width

    def edge(self, x):
        sc = self.sc
        if self.on is not None and self.ch.fired:
            self.on = None
        if sc.in_reset() or sc.hold:
            if self.on is not None or self.ch.valid.val == '1':
                self.on = None
                self.off(x)
            return
        if self.on is not None:
            return
        it = self.next()
        go = it is not None
        if go:
            m = self.mode
            if m == 'choose':
                go = x.choose(2, self.ch.name + '.valid') == 0
            elif m != 'always':
                go = bool(m[x.cycles % len(m)])
        if not go:
            self.off(x)
            return
        self.on = it
        self.offered(it)
        x.drive(self.ch.valid, 1)
        f = self.fields(it)
        for k, s in self.ch.payload.items():
            x.drive(s, f.get(k, 0))

    def off(self, x):
        x.drive(self.ch.valid, 0)
        for s in self.ch.payload.values():
            x.drive(s, self.sc.idle * s.width)


class AReq(Req):
    def __init__(self, sc, ch, mode, kind):
        super().__init__(sc, ch, mode)
        self.kind = kind
        self.p = 'aw' if kind == 'w' else 'ar'

    def next(self):
        sc = self.sc
        if self.p == 'aw' and sc.rel == 'data_first':
            # as much data first as a slave must take without the address
            for b in sc.bursts:
                if b.kind == self.kind and not b.a_sent:
                    return b if b.d_acc >= min(b.n, 2) else None
        for b in sc.bursts:
            if b.kind == self.kind and not b.a_sent:
                if sc.serial and any(o.kind == b.kind and not o.resp for o in sc.bursts[:b.i]):
                    return None
                return b
        return None

    def offered(self, b):
        b.a_sent = 1

    def fields(self, b):
        p = self.p
        s = b.spec
        f = {p + 'id': b.id, p + 'addr': b.addr, p + 'len': b.n - 1, p + 'size': b.size, p + 'burst': b.burst}
        for k, d in (('lock', 0), ('cache', 3), ('prot', 2), ('qos', 1), ('region', 2), ('user', 5)):
            f[p + k] = s.get(k, d)
        return f


class WReq(Req):
    def next(self):
        sc = self.sc
        for b in sc.bursts:
            if b.kind == 'w' and b.d_off < b.n:
                if sc.rel == 'addr_first' and b.a_sent < 2:
                    return None
                if sc.rel == 'data_first' and any(o.kind == 'w' and o.a_sent < 2 for o in sc.bursts[:b.i]):
                    return None
                if sc.serial and any(o.kind == b.kind and not o.resp for o in sc.bursts[:b.i]):
                    return None
                return b, b.d_off
        return None

    def offered(self, it):
        it[0].d_off += 1

    def fields(self, it):
        b, k = it
        d, st, eff = b.beats[k]
        return dict(wdata=d, wstrb=st, wlast=int(k == b.n - 1), wuser=(k * 3 + 1) & 15)


class SSc:
    canon_leaf = True

    def __init__(self, chooser, ops, proto='axi', kind='slave', half='rw', dw=32, aw=16, idw=2, opt='all', size=None, valid=('always',) * 3,
                 ready=('always',) * 2, rel=None, serial=False, delay=0, fail=None, checks=ALLCAT, actions=(), rwhere='mid', K=400, polarity=1,
                 max_resets=1, idle='0', late_target=False, strict=True, rform='bytes', via='prefix'):
        self.rform = rform
        x = self.x = Exec(chooser)
        self.proto, self.kind, self.half, self.bw = proto, kind, half, dw // 8
        self.checks, self.K, self.pol, self.idle, self.rel, self.serial = checks, K, polarity, idle, rel, serial
        self.delay, self.failm = delay, fail
        self.ntarget = 0
        self.size = size = size or 1 << aw
        lite = self.lite = proto == 'axil'
        x.rst_s.val = str(1 - polarity)
        d = self.d = {}
        p = viap('s', via)
        wopt = AW_OPT if opt == 'all' else opt
        ropt = AR_OPT if opt == 'all' else opt
        if 'w' in half:
            d.update(axil_write_sigs(x, p, dw, aw, wopt) if lite else axi_write_sigs(x, p, dw, aw, idw, wopt))
        if 'r' in half:
            d.update(axil_read_sigs(x, p, dw, aw, ropt) if lite else axi_read_sigs(x, p, dw, aw, idw, ropt))
        self.ractor = Actor(x, rwhere if 'reset' in actions else None, self.ract)
        self.max_resets = max_resets
        self.ractor.attach('early')
        ch = self.ch = {}
        for c, drv in (('aw', 'env'), ('w', 'env'), ('b', 'lib'), ('ar', 'env'), ('r', 'lib')):
            if c + 'valid' in d:
                ch[c] = mkchan(x, d, c, drv)
                ch[c].check_stable = drv == 'lib' and 'stable' in checks
                ch[c].rst = self.in_reset
        # `content`: for each byte the values it may have (old first); default init()
        self.mem = {}
        self.cand = {}
        kw = {} if polarity else dict(reset_active_level=False)
        bus = mkbus(x, BUS[proto, half], p, via)
        cls = CLS[proto, kind, half]
        self.tgt = None
        if kind == 'ram':
            self.ram = bytearray(init(a) for a in range(size))
            self.s = cls(bus, x.clk, x.rst, mem=self.ram, **kw)
        else:
            self.tgt = Target(self)
            if late_target:
                self.s = cls(bus, x.clk, x.rst, **kw)
                for s in (self.s,) if half != 'rw' else (self.s.write_if, self.s.read_if):
                    s.target = self.tgt
            else:
                self.s = cls(bus, x.clk, x.rst, self.tgt, **kw)
        self.ractor.attach('late')
        wstrb = 'wstrb' in d
        self.bursts = [Burst(i, s, self.bw, size, wstrb) for i, s in enumerate(ops)]
        self.hold = False
        vm = list(valid) + ['always'] * 3
        rm = list(ready) + ['always'] * 2
        if 'w' in half:
            AReq(self, ch['aw'], vm[0], 'w')
            WReq(self, ch['w'], vm[1])
            ReadyPeer(x, ch['b'], mode=rm[0])
            ch['aw'].listeners.append(self.on_aw)
            ch['w'].listeners.append(self.on_w)
            ch['b'].listeners.append(self.on_b)
        if 'r' in half:
            AReq(self, ch['ar'], vm[2], 'r')
            ReadyPeer(x, ch['r'], mode=rm[1])
            ch['ar'].listeners.append(self.on_ar)
            ch['r'].listeners.append(self.on_r)
        self.wexp = []          # writes the target has still to see: [burst, beat, {address: byte}]
        self.rexp = []          # reads the target has still to see: [burst, beat]
        self.quiet = 0
        self.rstc = 0
        self.resets = 0
        self.explore = bool(actions)
        self.fidx = 0
        x.settle()
        x.state_roots = [self.s]
        x.state_fn = self.st

    def st(self):
        return (tuple([b.st() for b in self.bursts]), tuple([(e[0].i, e[1], tuple(sorted(e[2]))) for e in self.wexp]),
                tuple([(e[0].i, e[1]) for e in self.rexp]), tuple(sorted(self.mem.items())),
                tuple(sorted((a, tuple(v)) for a, v in self.cand.items())), self.quiet, self.rstc, self.resets, self.fidx,
                self.ntarget % 8 if not isinstance(self.delay, int) else 0, self.tgt.busy if self.tgt else bytes(self.ram), self.x.rst_s.val,
                tuple([(c.prev, c.fired) for c in self.ch.values()]))

    def in_reset(self):
        return self.x.rst_s.val == str(self.pol)

    def need(self, cat, cond, msg, *a, fatal=False):
        if cond:
            return True
        if cat in self.checks:
            raise Violation(msg % a if a else msg)
        if fatal:
            raise Stop()
        return False

    # ---- target side
    def fails(self, k, address, n):
        f = self.failm
        if f is None:
            return False
        if f == 'choose':
            return bool(self.x.choose(2, 'fail'))
        if isinstance(f, tuple):        # fixed pattern over the accesses
            self.fidx += 1
            return bool(f[(self.fidx - 1) % len(f)])
        return f(k, address, n)

    def content(self, a):
        return self.mem.get(a, init(a))

    def target_write(self, address, data, failed):
        """The slave performs a write access."""
        N = self.need
        N('reset', not (self.in_reset() and self.rstc >= 2), 'the target is written in reset', fatal=True)
        for i, v in enumerate(data):
            a = (address + i) % self.size
            e = None
            while self.wexp:
                e = self.wexp[0]
                if a in e[2]:
                    break
                # finished, or given up after a failed access
                if e[2] and e[1] not in e[0].fail:
                    N('data', False, 'burst %d beat %d: the target is written at 0x%x, expected %s', e[0].i, e[1], a,
                      {hex(k): hex(w) for k, w in e[2].items()}, fatal=True)
                self.wexp.pop(0)
                e = None
            N('data', e is not None, 'a write of 0x%02x at 0x%x that no accepted beat asks for', v, a, fatal=True)
            N('data', e[2][a] == v, 'burst %d beat %d: 0x%02x written at 0x%x instead of 0x%02x', e[0].i, e[1], v, a, e[2][a], fatal=True)
            e[2].pop(a)
            if failed:
                e[0].fail.add(e[1])
            else:
                self.mem[a] = v

    def target_read(self, address, length, failed):
        N = self.need
        out = bytes(self.content((address + i) % self.size) for i in range(length))
        # credited to the oldest beat not read yet
        N('data', self.rexp, 'the target is read at 0x%x although no accepted burst needs it', address, fatal=True)
        b, k = self.rexp[0]
        adr = {(address + i) % self.size: v for i, v in enumerate(out)}
        if all(a in adr for l, a in b.lanes[k]):
            self.rexp.pop(0)
            b.rd += 1
            if failed:
                b.fail.add(k)
            b.val[k] = adr
        elif failed:
            b.fail.add(k)
        return out

    # ---- bus side
    def mature(self):
        """Beats whose address and data have both been accepted are to be written."""
        for b in self.bursts:
            if b.kind != 'w':
                continue
            if b.a_sent < 2:
                return
            while b.mat < b.d_acc:
                if self.kind == 'slave':
                    self.wexp.append([b, b.mat, dict(b.beats[b.mat][2])])
                else:
                    for a, v in b.beats[b.mat][2].items():
                        self.cand.setdefault(a, []).append((b.i, v))
                b.mat += 1
            if b.d_acc < b.n:
                return

    def on_aw(self, d):
        b = [b for b in self.bursts if b.kind == 'w' and b.a_sent == 1][0]
        b.a_sent = 2
        self.mature()

    def on_w(self, d):
        b = [b for b in self.bursts if b.kind == 'w' and b.d_acc < b.d_off][0]
        b.d_acc += 1
        self.mature()

    def on_ar(self, d):
        b = [b for b in self.bursts if b.kind == 'r' and b.a_sent == 1][0]
        b.a_sent = 2
        if self.kind == 'slave':
            self.rexp += [(b, k) for k in range(b.n)]
        else:
            b.seen = {a: set(self.values(a)) for k in b.lanes for l, a in k}

    def on_b(self, d):
        N = self.need
        N('reset', not (self.in_reset() and self.rstc >= 1), 'a response is transferred in reset', fatal=True)
        i = self.f(d, 'bid', 0)
        c = [b for b in self.bursts if b.kind == 'w' and not b.resp and (self.lite or b.id == i) and (b.a_sent or b.d_off)]
        N('once', c, 'a write response with ID %d that no outstanding burst expects', i, fatal=True)
        b = c[0]
        N('once', b.a_sent == 2 and b.d_acc == b.n, 'burst %d is answered with %d of %d beats accepted, address %s', b.i, b.d_acc, b.n,
          'accepted' if b.a_sent == 2 else 'not accepted', fatal=True)
        b.resp = 1
        # everything the burst writes has been written
        if self.kind == 'slave':
            left = [e for e in self.wexp if e[0] is b and e[2] and e[1] not in b.fail]
            N('data', not left, 'burst %d is answered but beat %d has not been written: %s', b.i, left and left[0][1],
              left and {hex(k): hex(v) for k, v in left[0][2].items()}, fatal=True)
            self.wexp = [e for e in self.wexp if e[0] is not b]
        else:
            for a in list(self.cand):
                c = self.cand[a]
                while c and c[0][0] <= b.i:
                    self.mem[a] = c.pop(0)[1]
                if not c:
                    del self.cand[a]
            self.check_ram()
        if 'bresp' in d:
            r = ival(d['bresp'], 'bresp')
            want = 2 if b.fail else 0
            N('fault' if b.fail or r else 'resp', r == want, 'burst %d: response %d instead of %d (failed accesses in beats %s)', b.i, r, want, sorted(b.fail))

    def f(self, d, k, default=None):
        v = d.get(k)
        return default if v is None else ival(v, k)

    def on_r(self, d):
        N = self.need
        N('reset', not (self.in_reset() and self.rstc >= 1), 'read data is transferred in reset', fatal=True)
        c = [b for b in self.bursts if b.kind == 'r' and b.a_sent == 2 and not b.resp]
        N('once', c, 'read data although no burst is outstanding', fatal=True)
        b = c[0]
        k = b.d_acc
        b.d_acc += 1
        if not self.lite:
            i = ival(d['rid'], 'rid')
            N('order', i == b.id, 'beat %d of burst %d carries ID %d instead of %d', k, b.i, i, b.id, fatal=True)
            last = ival(d['rlast'], 'rlast')
            N('once', last == int(k == b.n - 1), 'burst %d of %d beats: rlast is %d in beat %d', b.i, b.n, last, k, fatal=True)
        failed = k in b.fail
        if 'rresp' in d:
            r = ival(d['rresp'], 'rresp')
            N('fault' if failed or r else 'resp', r == (2 if failed else 0), 'burst %d beat %d: response %d, target access %s', b.i, k, r,
              'failed' if failed else 'succeeded')
        if self.kind == 'slave':
            N('data', failed or k in b.val, 'burst %d beat %d is answered without having read the target', b.i, k, fatal=True)
        if not failed:
            v = ival(d['rdata'], 'rdata')
            for l, a in b.lanes[k]:
                g = v >> 8 * l & 0xff
                if self.kind == 'slave':
                    N('data', g == b.val[k][a], 'burst %d beat %d: lane %d is 0x%02x, the target has 0x%02x at 0x%x', b.i, k, l, g, b.val[k][a], a, fatal=True)
                else:
                    N('data', g in b.seen[a], 'burst %d beat %d: lane %d is 0x%02x, the memory has 0x%02x at 0x%x', b.i, k, l, g, self.content(a), a, fatal=True)
        if b.d_acc == b.n:
            b.resp = 1
            b.seen = {}

    def values(self, a):
        """The values byte a of the memory may have now."""
        c = self.cand.get(a)
        return [self.content(a)] + [v for _, v in c] if c else (self.content(a),)

    def look(self):
        for b in self.bursts:
            if b.seen and not b.resp:
                for a, s in b.seen.items():
                    s.update(self.values(a))

    def check_ram(self):
        """The memory has only values it may have."""
        for a in range(self.size):
            c = self.values(a)
            self.need('data', self.ram[a] in c, 'the memory has 0x%02x at 0x%x instead of %s', self.ram[a], a, [hex(v) for v in c], fatal=True)

    # ---- reset
    def ract(self):
        x = self.x
        if (self.in_reset() or self.resets < self.max_resets) and x.choose(2, 'reset'):
            v = '0' if x.rst_s.val == '1' else '1'
            if v == str(self.pol):
                self.resets += 1
            (x.sim.nba if x.in_edge else x.sim.active).append((x.rst_s, v))

    def reset_begins(self):
        for b in self.bursts:
            if b.a_sent or b.d_off:
                b.a_sent = 2
                b.d_off = b.d_acc = b.n
                b.resp = 2
                b.mat = b.n
                b.seen = {}
        self.wexp.clear()
        self.rexp.clear()
        if self.kind == 'ram':
            # what was written before the reset stays
            self.check_ram()
            for a in self.cand:
                self.mem[a] = self.ram[a]
            self.cand.clear()
        if self.tgt:
            self.tgt.busy = 0

    def settled(self):
        x = self.x
        rst = self.in_reset()
        lib = [c for c in self.ch.values() if c.driver == 'lib']
        env = [c for c in self.ch.values() if c.driver == 'env']
        if rst:
            self.rstc = min(self.rstc + 1, 2)
            for c in lib:
                self.need('reset', c.valid.val == '0' or self.rstc < 2, '%s: valid is high in reset', c.name)
            for c in env:
                self.need('reset', c.ready.val == '0' or self.rstc < 2, '%s: ready is high in reset', c.name)
        else:
            self.rstc = 0
        # is there anything the slave alone can go on with?
        todo = False
        if not rst and not any(c.fired for c in self.ch.values()) and not any(c.valid.val == '1' for c in lib) and not (self.tgt and self.tgt.busy):
            w = [b for b in self.bursts if b.kind == 'w' and not b.resp]
            r = [b for b in self.bursts if b.kind == 'r' and not b.resp]
            if w:
                b = w[0]
                if b.a_sent == 2 and b.d_acc == b.n:
                    todo = True
                elif b.a_sent == 1 or b.a_sent == 2 and b.d_off > b.d_acc or b.d_off > b.d_acc and b.d_acc < 2:
                    todo = True
            if r and r[0].a_sent:
                todo = True
        self.quiet = self.quiet + 1 if todo else 0
        self.need('live', self.quiet <= 6, 'the slave is stuck although nothing holds it up', fatal=True)

    def run(self):
        x = self.x
        ends = 0
        for k in range(self.K):
            r0 = self.in_reset()
            self.ractor.mid()
            if self.in_reset() and not r0:
                self.reset_begins()
            r0 = self.in_reset()
            x.cycle_begin()
            if self.in_reset() and not r0:
                self.reset_begins()
            self.settled()
            if self.kind == 'ram' and self.cand:
                self.look()
            if self.kind == 'ram' and 'w' in self.half:
                if self.explore or k % 8 == 0:
                    self.check_ram()
            x.cycle_finish()
            if not self.explore and all(b.resp for b in self.bursts):
                ends += 1
                if ends > 3:
                    break
        else:
            if not self.explore:
                self.need('live', False, 'accesses are not answered within %d cycles', self.K, fatal=True)
        if self.kind == 'ram':
            self.check_ram()
        x.close()
        return 'resp %d' % sum(b.resp == 1 for b in self.bursts)


def slave(chooser, **k):
    try:
        return SSc(chooser, **k).run()
    except Stop:
        return 'other'


def slave_in(chooser, inp, **k):
    return slave(chooser, **k, **inp)
