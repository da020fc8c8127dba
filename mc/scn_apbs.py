"""Scenarios for the APB slave and RAM driven by an arbitrary legal APB requester."""
from .core import Exec, Violation, RisingEdge
from .bfm import apb_sigs, ival, mkbus, viap
from .scn_chan import Actor, GenMix
from .scn_master import Stop
from .scn_slave import respform
from .scn_slave import init
from cocotbext.axi import ApbBus, ApbSlave, ApbRam

ALLCAT = ('data', 'resp', 'once', 'live', 'reset', 'fault', 'pause')


def AW_(addr, strb=-1, other=False, prot=0):
    return dict(kind='w', addr=addr, strb=strb, other=other, prot=prot)


def AR_(addr, other=False, prot=0):
    return dict(kind='r', addr=addr, strb=0, other=other, prot=prot)


class Target:
    canon_leaf = True

    def __init__(self, sc):
        self.sc = sc
        self.size = sc.size
        self.busy = 0

    async def delay(self):
        sc = self.sc
        d = sc.delay
        n = sc.x.choose(2, 'delay') if d == 'choose' else d if isinstance(d, int) else d[sc.ntarget % len(d)]
        sc.ntarget += 1
        for _ in range(n):
            self.busy = 1
            await RisingEdge(sc.x.clk)
        self.busy = 0

    async def write(self, address, data, **kwargs):
        await self.delay()
        f = self.sc.fails()
        self.sc.t_write(address, bytes(data), f)
        if f:
            raise Exception('access failed')

    async def read(self, address, length, **kwargs):
        await self.delay()
        f = self.sc.fails()
        r = self.sc.t_read(address, length, f)
        if f:
            raise Exception('access failed')
        return respform(self.sc.rform, address, r)


class SSc(GenMix):
    canon_leaf = True
    GENS = ((1, 0), (0, 1, 1, 0))

    def __init__(self, chooser, ops, kind='slave', dw=32, aw=12, opt=('pprot', 'pslverr'), size=None, gap='never', delay=0, fail=None, checks=ALLCAT,
                 actions=(), where='mid', rwhere='mid', K=300, polarity=1, max_resets=1, pat=None, rform='bytes', via='prefix'):
        self.rform = rform
        x = self.x = Exec(chooser)
        self.kind, self.bw, self.gap, self.delay, self.failm = kind, dw // 8, gap, delay, fail
        self.checks, self.K, self.pol, self.max_resets = checks, K, polarity, max_resets
        self.size = size = size or 1 << aw
        self.ntarget = self.fidx = 0
        x.rst_s.val = str(1 - polarity)
        d = self.d = apb_sigs(x, viap('s', via), dw, aw, opt)
        self.actor = Actor(x, where, self.act)
        self.ractor = Actor(x, rwhere if 'reset' in actions else None, self.ract)
        self.actions = tuple(a for a in actions if a != 'reset')
        self.explore = bool(actions)
        self.actor.attach('early')
        self.ractor.attach('early')
        kw = {} if polarity else dict(reset_active_level=False)
        self.tgt = None
        bus = mkbus(x, ApbBus, viap('s', via), via)
        if kind == 'ram':
            self.ram = bytearray(init(a) for a in range(size))
            self.s = ApbRam(bus, x.clk, x.rst, mem=self.ram, **kw)
        else:
            self.tgt = Target(self)
            self.s = ApbSlave(bus, x.clk, x.rst, self.tgt, **kw)
        self.actor.attach('late')
        self.ractor.attach('late')
        for k in ('psel', 'penable', 'paddr', 'pwrite', 'pwdata', 'pstrb', 'pprot'):
            if k in d:
                d[k].val = '0' * d[k].width
        if pat is not None:
            x.call(self.s.set_pause_generator, pat())
        self.mem = {}
        self.ops = ops
        self.pos = 0            # next access
        self.phase = 'idle'
        self.op = None
        self.exp = None         # bytes the access must still write
        self.opt_ = None        # bytes a reset access may have written
        self.got = None         # bytes the target returned for the access
        self.failed = False
        self.done = 0
        self.waitc = 0
        self.pz = 0
        self.rstc = 0
        self.resets = 0
        self.fired = False
        x.monitors.append(self)
        x.procs.append(self)
        x.settle()
        x.state_roots = [self.s]
        x.state_fn = self.st

    def st(self):
        return (self.pos, self.phase, tuple(sorted(self.exp.items())) if self.exp is not None else None, self.got is not None, self.failed,
                tuple(sorted(self.mem.items())), self.waitc, self.pz, self.rstc, self.resets, self.fidx, self.tgt.busy if self.tgt else bytes(self.ram),
                self.ntarget % 8 if not isinstance(self.delay, int) else 0, self.x.rst_s.val, self.gen_st())

    def in_reset(self):
        return self.x.rst_s.val == str(self.pol)

    def need(self, cat, cond, msg, *a, fatal=False):
        if cond:
            return True
        if cat in self.checks:
            raise Violation(msg % a if a else msg)
        if fatal:
            raise Stop()
        return False

    def content(self, a):
        return self.mem.get(a, init(a))

    # ---- target
    def fails(self):
        f = self.failm
        if f is None:
            return False
        if f == 'choose':
            return bool(self.x.choose(2, 'fail'))
        self.fidx += 1
        return bool(f[(self.fidx - 1) % len(f)])

    def t_write(self, address, data, failed):
        N = self.need
        N('reset', not (self.in_reset() and self.rstc >= 2), 'the target is written in reset', fatal=True)
        N('data', self.op is not None and not self.op['other'] and self.exp is not None,
          'the target is written at 0x%x without an access to this slave', address, fatal=True)
        for i, v in enumerate(data):
            a = (address + i) % self.size
            N('data', a in self.exp and self.exp[a] == v, '0x%02x is written at 0x%x, access %d writes %s', v, a, self.pos - 1,
              {hex(k): hex(w) for k, w in self.exp.items()}, fatal=True)
            self.exp.pop(a)
            if not failed:
                self.mem[a] = v
        self.failed = self.failed or failed

    def t_read(self, address, length, failed):
        N = self.need
        N('data', self.op is not None and not self.op['other'] and self.op['kind'] == 'r', 'the target is read at 0x%x without a read access to this slave',
          address, fatal=True)
        self.failed = self.failed or failed
        self.got = {(address + i) % self.size: self.content((address + i) % self.size) for i in range(length)}
        return bytes(self.content((address + i) % self.size) for i in range(length))

    # ---- bus
    def sample(self, x):
        d = self.d
        N = self.need
        self.fired = False
        if self.in_reset():
            if self.rstc >= 1:
                N('reset', d['pready'].val == '0', 'pready is %s in reset', d['pready'].val)
            return
        if self.phase != 'access' or self.op['other']:
            return
        N('once', d['pready'].val in '01', 'pready is %s', d['pready'].val, fatal=True)
        if d['pready'].val != '1':
            return
        if 'pause' in self.checks and self.pz >= 2 and self.delay == 0:
            raise Violation('a paused slave completes a transfer %d edges after the pause was set' % (self.pz + 1))
        self.fired = True
        op = self.op
        base = op['addr'] // self.bw * self.bw
        if op['kind'] == 'w':
            if self.kind == 'ram':
                for a, v in self.exp.items():
                    self.mem[a] = v
                self.exp = {}
                self.check_ram()
            else:
                N('data', self.failed or not self.exp, 'access %d completes without having written %s', self.pos - 1,
                  {hex(k): hex(w) for k, w in self.exp.items()}, fatal=True)
        elif not self.failed:
            v = ival(d['prdata'].val, 'prdata')
            for l in range(self.bw):
                a = (base + l) % self.size
                if self.kind == 'slave':
                    N('data', self.got is not None and a in self.got, 'access %d completes without having read the target', self.pos - 1, fatal=True)
                N('data', v >> 8 * l & 255 == self.content(a), 'access %d: byte %d is 0x%02x, the target has 0x%02x', self.pos - 1, l, v >> 8 * l & 255,
                  self.content(a), fatal=True)
        if 'pslverr' in d:
            N('fault' if self.failed else 'resp', d['pslverr'].val == str(int(self.failed)), 'access %d: pslverr is %s, target access %s', self.pos - 1,
              d['pslverr'].val, 'failed' if self.failed else 'succeeded')
        self.done += 1

    def check_ram(self):
        for a in range(self.size):
            if self.exp and a in self.exp:
                continue
            self.need('data', self.ram[a] == self.content(a), 'the memory has 0x%02x at 0x%x instead of 0x%02x', self.ram[a], a, self.content(a), fatal=True)

    def edge(self, x):
        d = self.d
        if self.in_reset():
            x.drive(d['psel'], 0)
            x.drive(d['penable'], 0)
            return
        ph = self.phase
        if ph == 'access' and not (self.fired or self.op['other']):
            return
        if ph == 'setup':
            self.phase = 'access'
            x.drive(d['penable'], 1)
            return
        self.op = None
        self.exp = None
        self.got = None
        go = self.pos < len(self.ops)
        if go:
            g = self.gap
            go = x.choose(2, 'go') == 0 if g == 'choose' else True if g == 'never' else bool(g[x.cycles % len(g)])
        x.drive(d['penable'], 0)
        if not go:
            self.phase = 'idle'
            x.drive(d['psel'], 0)
            for k in ('paddr', 'pwrite', 'pwdata', 'pstrb'):
                x.drive(d[k], '1' * d[k].width)
            return
        op = self.op = self.ops[self.pos]
        i = self.pos
        self.pos += 1
        self.phase = 'setup'
        self.failed = False
        base = op['addr'] // self.bw * self.bw
        v = 0
        st = op['strb'] & ((1 << self.bw) - 1)
        self.exp = {} if op['kind'] == 'w' else None
        for l in range(self.bw):
            b = (0x3b * (i + 1) + 0x17 * l + 1) & 0xff
            v |= b << 8 * l
            if op['kind'] == 'w' and st >> l & 1 and not op['other']:
                self.exp[(base + l) % self.size] = b
        x.drive(d['psel'], 0 if op['other'] else 1)
        x.drive(d['paddr'], op['addr'])
        x.drive(d['pwrite'], int(op['kind'] == 'w'))
        x.drive(d['pwdata'], v)
        x.drive(d['pstrb'], st if op['kind'] == 'w' else 0)
        if 'pprot' in d:
            x.drive(d['pprot'], op['prot'])

    # ---- user
    def ract(self):
        x = self.x
        if (self.in_reset() or self.resets < self.max_resets) and x.choose(2, 'reset'):
            v = '0' if x.rst_s.val == '1' else '1'
            if v == str(self.pol):
                self.resets += 1
            (x.sim.nba if x.in_edge else x.sim.active).append((x.rst_s, v))

    def abort(self):
        """The access in progress is lost; its write may or may not have happened."""
        if self.op is not None and self.kind == 'ram' and self.exp:
            for a, v in self.exp.items():
                self.need('data', self.ram[a] in (v, self.content(a)), 'reset: the memory has 0x%02x at 0x%x', self.ram[a], a)
                self.mem[a] = self.ram[a]
        self.op = None
        self.exp = None
        self.got = None
        self.phase = 'idle'
        for k in ('psel', 'penable'):
            if self.d[k].val != '0':
                self.x.drive_now(self.d[k], 0)

    def act(self):
        if not self.actions:
            return
        opts = [None]
        if 'pause' in self.actions:
            opts.append('pause')
        opts += self.gen_opts(self.actions)
        a = opts[self.x.choose(len(opts), 'user')]
        if isinstance(a, tuple) or a == 'ungen':
            self.gen_act(a, self.s)
        elif a == 'pause':
            self.s.pause = not self.s.pause
            self.pz = 0

    def settled(self):
        s = self.s
        self.gen_check(s)
        rst = self.in_reset()
        if rst:
            self.rstc = min(self.rstc + 1, 2)
            self.abort()
            self.need('reset', self.rstc < 2 or self.d['pready'].val == '0', 'pready is high in reset')
        else:
            self.rstc = 0
        self.pz = min(self.pz + 1, 3) if s.pause and self.p_begin else 0
        if rst or self.op is None or self.op['other'] or s.pause or self.p_begin or self.fired or self.tgt and self.tgt.busy:
            self.waitc = 0
        else:
            self.waitc += 1
        self.need('live', self.waitc <= 6, 'access %d is not completed although nothing holds the slave up', self.pos - 1, fatal=True)

    def run(self):
        x = self.x
        ends = 0
        for k in range(self.K):
            r0 = self.in_reset()
            self.actor.mid()
            self.ractor.mid()
            if self.in_reset() and not r0 and self.tgt:
                self.tgt.busy = 0
            self.p_begin = bool(self.s.pause)
            r0 = self.in_reset()
            x.cycle_begin()
            if self.in_reset() and not r0 and self.tgt:
                self.tgt.busy = 0
            self.settled()
            if self.kind == 'ram' and k % 4 == 0:
                self.check_ram()
            x.cycle_finish()
            if not self.explore and self.pos == len(self.ops) and self.op is None:
                ends += 1
                if ends > 3:
                    break
        else:
            if not self.explore:
                self.need('live', False, 'accesses are not completed within %d cycles', self.K, fatal=True)
        if self.kind == 'ram':
            self.check_ram()
        x.close()
        return 'done %d' % self.done


def apbslave(chooser, **k):
    try:
        return SSc(chooser, **k).run()
    except Stop:
        return 'other'
