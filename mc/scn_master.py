"""Scenarios for the AXI and AXI-Lite masters against an arbitrary legal slave.

The environment is the most general slave the protocol allows: it may stall any
channel at any cycle, and answer bursts with different IDs in any order (read
data interleaved).  The oracle is computed from the requested operations with the
address arithmetic of the AXI specification only.
"""
from .core import Exec, Violation, Event
from .bfm import ReadyPeer, ival, axi_beats, FIXED, INCR, WRAP, axi_write_sigs, axi_read_sigs, \
    axil_write_sigs, axil_read_sigs, mkchan, mkbus, viap
from .scn_chan import Actor
from cocotbext.axi import AxiBus, AxiWriteBus, AxiReadBus, AxiLiteBus, AxiLiteWriteBus, AxiLiteReadBus
from cocotbext.axi import AxiMaster, AxiMasterWrite, AxiMasterRead, AxiLiteMaster, AxiLiteMasterWrite, AxiLiteMasterRead

ALLCAT = ('data', 'cover', 'legal', 'attr', 'resp', 'user', 'once', 'idle', 'live', 'reset', 'order')
DEF = dict(lock=0, cache=3, prot=2, qos=0, region=0, user=0)
AW_OPT = ('awlock', 'awcache', 'awprot', 'awqos', 'awregion', 'awuser', 'wstrb', 'wuser', 'bresp', 'buser')
AR_OPT = ('arlock', 'arcache', 'arprot', 'arqos', 'arregion', 'aruser', 'rresp', 'ruser')


class Stop(Exception):
    """The execution left the domain of the property under check (another property is broken)."""


def W(addr, n, **k):
    return dict(k, kind='w', addr=addr, n=n)


def R(addr, n, **k):
    return dict(k, kind='r', addr=addr, n=n)


def wbyte(i, j):
    """Byte j of the data of operation i: distinct between neighbours and operations."""
    return (0x31 * (i + 1) + 0x1d * j + (j >> 3) * 5 + (j >> 8) * 0x53 + 1) & 0xff


def rbyte(a, s):
    """What the slave returns for byte address a in its read burst number s."""
    return (a * 0x35 + (a >> 8) * 0x1b + s * 0x47 + 0x0b) & 0xff


class Op:
    canon_leaf = True

    def __init__(self, i, spec, bw, lite=False):
        self.i = i
        self.kind = spec['kind']
        self.addr = spec['addr']
        self.n = n = spec['n']
        self.form = spec.get('form', 'coro')
        full = bw.bit_length() - 1
        s = spec.get('size')
        self.size = full if s is None or s < 0 else s
        self.burst = spec.get('burst', INCR)
        self.id = spec.get('id')
        if self.id is not None and self.id < 0:
            self.id = None
        self.wuser = spec.get('wuser', 0)
        self.attr = {k: spec.get(k, d) for k, d in DEF.items()}
        self.kw = {k: v for k, v in spec.items() if k not in ('kind', 'addr', 'n', 'form')}
        nb = 1 << self.size
        if self.burst == FIXED:
            per = nb - self.addr % nb
            self.total = -(-n // per)
        else:
            self.total = (n + self.addr % nb + nb - 1) // nb if n else 0
        self.beats = axi_beats(self.addr, self.total, self.size, self.burst, bw) if self.total else []
        # the bytes in the order transferred: absolute address of each
        adr = []
        self.beat_of = []
        for k, (a, lo, hi) in enumerate(self.beats):
            base = a // bw * bw
            for l in range(lo, hi + 1):
                if len(adr) < n:
                    adr.append(base + l)
                    self.beat_of.append(k)
        self.adr = adr
        self.data = bytes(wbyte(i, j) for j in range(n))
        self.clear()

    def clear(self):
        self.beats_req = 0          # beats covered by the bursts issued
        self.got = 0                # bytes written so far
        self.wbeat = 0              # data beats seen
        self.serials = []           # read: burst serial of each beat
        self.nburst = 0
        self.nresp = 0              # responses transferred (bursts for writes, beats for reads)
        self.codes = []
        self.users = []
        self.bid = None
        self.issued = False
        self.done = False
        self.flushed = 0            # 1: may be flushed, 2: must be
        self.age = 0
        self.h = None

    buf = ubuf = None

    def reuse(self):
        if isinstance(self.buf, bytearray):
            self.buf[:] = b'\xee' * (len(self.buf) + 1)
        if self.ubuf is not None:
            self.ubuf[:] = [0]
        self.buf = self.ubuf = None

    def complete(self):
        if not self.issued or self.beats_req < self.total:
            return False
        if self.kind == 'w':
            return self.nresp >= self.nburst
        return self.nresp >= self.total

    def st(self):
        return (self.issued, self.done, self.beats_req, self.got, self.wbeat, tuple(self.serials), self.nburst, self.nresp,
                tuple(self.codes), tuple(self.users), self.bid, self.flushed, self.age,
                None if self.h is None else self.h.done if self.form == 'coro' else self.h.is_set())


class Bad:
    """A request that must be refused at the call."""
    canon_leaf = True
    done = False
    h = None

    def __init__(self, i, spec):
        self.i = i
        self.spec = spec

    def st(self):
        return self.done

    def give(self, x, m, refused):
        s = self.spec
        self.done = True
        fn = getattr(m, ('init_' if s['form'] != 'coro' else '') + ('write' if s['kind'] == 'w' else 'read'))
        kw = dict(s['kw'])
        if s['form'] == 'ev':
            kw.setdefault('event', Event())

        def check(e):
            if e is None:
                if 'refuse' in refused:
                    raise Violation('request %d (%s 0x%x %r %s) is not refused' % (self.i, fn.__name__, s['addr'], s['arg'], s['kw']))
                raise Stop()
            if not isinstance(e, (ValueError, TypeError, IndexError, OverflowError)):
                raise Violation('request %d (%s 0x%x %r %s) fails with %r' % (self.i, fn.__name__, s['addr'], s['arg'], s['kw'], e))
        if s['form'] != 'coro':
            try:
                fn(s['addr'], s['arg'], **kw)
            except Exception as e:
                check(e)
                return
            check(None)
        h = self.h = x.spawn(fn(s['addr'], s['arg'], **kw))
        self.chk = lambda: check(h.exc)

    def settled(self):
        if self.h is not None:
            self.h = None
            self.chk()


def bad(kind, addr, arg, form='coro', **kw):
    return dict(bad=True, kind=kind, addr=addr, arg=arg, form=form, kw=kw)


class RespPeer:
    """Drives a response channel (B or R) of the environment."""

    def __init__(self, sc, ch, mode, idle='0'):
        self.sc, self.ch, self.mode, self.idle = sc, ch, mode, idle
        self.on = None
        self.cur = None
        sc.x.procs.append(self)
        ch.valid.val = '0'
        for s in ch.payload.values():
            s.val = idle * s.width

    def off(self, x):
        x.drive(self.ch.valid, 0)
        for s in self.ch.payload.values():
            x.drive(s, self.idle * s.width)

    def edge(self, x):
        if self.sc.in_reset():
            if self.on is not None:
                self.on = None
                self.off(x)
            return
        if self.on is not None and self.ch.fired:
            self.on = None
        if self.on is not None:
            return
        heads = self.heads()
        pick = None
        if heads:
            m = self.mode
            if m == 'fifo':
                pick = heads[0]
            elif m == 'lifo':
                pick = heads[-1]
            elif m == 'rot':
                pick = heads[x.cycles % len(heads)]
            elif m == 'stall':
                pick = heads[0] if x.choose(2, self.ch.name + '.pick') == 0 else None
            elif m == 'choose':
                c = x.choose(len(heads) + 1, self.ch.name + '.pick')
                pick = heads[c] if c < len(heads) else None
            elif m == 'order':
                pick = heads[x.choose(len(heads), self.ch.name + '.pick')]
            elif m[x.cycles % len(m)]:
                pick = heads[0]
        if pick is None:
            self.off(x)
            return
        self.on = pick
        self.offer(x, pick)


class BPeer(RespPeer):
    def heads(self):
        seen = []
        out = []
        for e in self.sc.bpend:
            if e['id'] not in seen:
                seen.append(e['id'])
                if e['ready']:
                    out.append(e)
        if self.mode != 'order' and self.mode != 'choose':
            out.sort(key=lambda e: e['ready'])
        return out

    def offer(self, x, e):
        self.sc.bpend.remove(e)
        pl = self.ch.payload
        x.drive(self.ch.valid, 1)
        p = self.sc.pfx['b']
        if 'code' not in e:
            e['code'] = self.sc.code(e['serial'])
        e['user'] = (e['serial'] * 5 + 3) & 15
        for k, v in ((p + 'id', e['id']), (p + 'resp', e['code']), (p + 'user', e['user'])):
            if k in pl:
                x.drive(pl[k], v)


class RPeer(RespPeer):
    def heads(self):
        seen = []
        out = []
        for e in self.sc.rpend:
            if e['id'] not in seen:
                seen.append(e['id'])
                out.append(e)
        if self.mode in ('fifo', 'stall') and self.cur in out:
            return [self.cur]
        return out

    def offer(self, x, e):
        sc = self.sc
        self.cur = e
        k = e['pos']
        e['pos'] += 1
        a, lo, hi = e['view'][k]
        base = a // sc.bw * sc.bw
        v = 0
        for l in range(sc.bw):
            b = rbyte(base + l, e['serial'])
            if not lo <= l <= hi:
                b = (b ^ 0x5a) if sc.junk else 0
            v |= b << 8 * l
        last = k == len(e['view']) - 1
        if last:
            sc.rpend.remove(e)
        code = sc.code(e['rserial'] + k)
        e['codes'].append(code)
        e['users'].append((e['rserial'] + k) * 3 + 1 & 15)
        pl = self.ch.payload
        x.drive(self.ch.valid, 1)
        for n, val in (('rid', e['id']), ('rdata', v), ('rresp', code), ('rlast', last), ('ruser', e['users'][-1])):
            if n in pl:
                x.drive(pl[n], int(val))


class MSc:
    """An AXI or AXI-Lite master performing a list of operations."""
    canon_leaf = True

    def __init__(self, chooser, ops, proto='axi', half='rw', dw=32, aw=16, idw=2, opt='all', mbl=256, issue='all', where='mid', rwhere='mid',
                 ready=('always', 'always', 'always'), resp=('fifo', 'fifo'), codes=(0,), checks=ALLCAT, actions=(), K=400,
                 polarity=1, junk=True, idle='0', max_resets=1, respin=False, kwargs=None, via='prefix'):
        x = self.x = Exec(chooser)
        self.proto, self.half, self.bw, self.mbl = proto, half, dw // 8, max(1, min(mbl, 256))
        lite = self.lite = proto == 'axil'
        self.checks = checks
        self.codes = codes
        self.junk = junk
        self.pol = polarity
        self.K = K
        self.actions = actions
        self.respin = respin        # issue the operations again after a reset
        x.rst_s.val = str(1 - polarity)
        d = {}
        p = viap('m', via)
        wopt = AW_OPT if opt == 'all' else opt
        ropt = AR_OPT if opt == 'all' else opt
        if 'w' in half:
            d.update(axil_write_sigs(x, p, dw, aw, wopt) if lite else axi_write_sigs(x, p, dw, aw, idw, wopt))
        if 'r' in half:
            d.update(axil_read_sigs(x, p, dw, aw, ropt) if lite else axi_read_sigs(x, p, dw, aw, idw, ropt))
        self.pfx = dict(b='b', r='r')
        kw = dict(kwargs or {})
        if not polarity:
            kw['reset_active_level'] = False
        if not lite and mbl != 256:
            kw['max_burst_len'] = mbl
        cls, bus = {
            ('axi', 'rw'): (AxiMaster, AxiBus), ('axi', 'w'): (AxiMasterWrite, AxiWriteBus), ('axi', 'r'): (AxiMasterRead, AxiReadBus),
            ('axil', 'rw'): (AxiLiteMaster, AxiLiteBus), ('axil', 'w'): (AxiLiteMasterWrite, AxiLiteWriteBus),
            ('axil', 'r'): (AxiLiteMasterRead, AxiLiteReadBus)}[proto, half]
        bus = mkbus(x, bus, p, via)
        self.actor = Actor(x, where, self.act)
        # the reset is driven by somebody else
        self.ractor = Actor(x, rwhere if 'reset' in actions else None, self.ract)
        self.actions = actions = tuple(a for a in actions if a != 'reset')
        self.explore = bool(issue == 'choose' or actions or self.ractor.where)
        self.actor.attach('early')
        self.ractor.attach('early')
        self.chans = []
        ch = self.ch = {}
        rd = list(ready) + ['always'] * 3
        for c, drv in (('aw', 'lib'), ('w', 'lib'), ('b', 'env'), ('ar', 'lib'), ('r', 'env')):
            if c + 'valid' in d:
                ch[c] = mkchan(x, d, c, drv)
                ch[c].check_stable = drv == 'lib' and 'stable' in checks
                ch[c].rst = self.in_reset
                self.chans.append(ch[c])
        self.m = m = cls(bus, x.clk, x.rst, **kw)
        self.actor.attach('late')
        self.ractor.attach('late')
        if 'w' in half:
            ch['aw'].listeners.append(self.on_aw)
            ch['w'].listeners.append(self.on_w)
            ch['b'].listeners.append(self.on_b)
            ReadyPeer(x, ch['aw'], mode=rd[0])
            ReadyPeer(x, ch['w'], mode=rd[1])
            self.bp = BPeer(self, ch['b'], resp[0], idle)
        if 'r' in half:
            ch['ar'].listeners.append(self.on_ar)
            ch['r'].listeners.append(self.on_r)
            ReadyPeer(x, ch['ar'], mode=rd[2])
            self.rp = RPeer(self, ch['r'], resp[-1], idle)
        self.specs = ops
        self.ops = [Bad(i, s) if 'bad' in s else Op(i, s, self.bw, lite) for i, s in enumerate(ops)]
        self.nissued = 0
        self.issue = issue
        self.queue = dict(w=[], r=[])       # operations issued, in order, by direction
        self.bursts = []            # write bursts announced: [op, view beats, position, wlen]
        self.wq = []                # data beats not matched to a burst yet
        self.bpend = []
        self.rpend = []
        self.ser = dict(w=0, r=0, rb=0)
        self.waiters = []
        self.quiet = 0
        self.rstc = 0
        self.resets = 0
        self.max_resets = max_resets
        self.fault = None
        x.settle()
        x.state_roots = [m]
        x.state_fn = self.st

    # ---- bookkeeping
    def in_reset(self):
        return self.x.rst_s.val == str(self.pol)

    def need(self, cat, cond, msg, *a, fatal=False):
        if cond:
            return True
        if cat in self.checks:
            raise Violation(msg % a if a else msg)
        if fatal:
            raise Stop()
        return False

    def code(self, i):
        c = self.codes
        if isinstance(c, str):
            n = int(c[6:] or 4)
            return (0, 2, 3, 1)[self.x.choose(n, 'resp')]
        return c[i % len(c)]

    def st(self):
        return (tuple([o.st() for o in self.ops]), self.nissued, tuple([o.i for o in self.queue['w']]), tuple([o.i for o in self.queue['r']]),
                tuple([(b[0].i, b[2], b[3], b[4]) for b in self.bursts]), tuple([tuple(sorted(w.items())) for w in self.wq]),
                tuple([(e['id'], e['ready'] > 0, e['op'].i, e.get('serial')) for e in self.bpend]),
                tuple([(e['id'], e['op'].i, e['pos'], e['serial']) for e in self.rpend]),
                tuple(self.ser.values()), tuple([w.done for w in self.waiters]), self.quiet, self.rstc, self.resets,
                tuple([(c.prev, c.fired) for c in self.chans]),
                tuple([(e['op'].i, e['id']) if e else None for e in (getattr(self, 'bp', self).on, getattr(self, 'rp', self).on)]),
                self.rp.cur is not None and self.rp.cur in self.rpend and self.rp.cur['pos'] if 'r' in self.half else 0,
                self.x.rst_s.val)

    on = None

    # ---- bus side
    def f(self, d, k, default=None):
        v = d.get(k)
        return default if v is None else ival(v, k)

    def request(self, d, p, kind):
        """A write or read address transfer; returns (op, view)."""
        lite = self.lite
        self.need('reset', not self.in_reset() or self.rstc < 1, 'address transfer while in reset', fatal=True)
        op = None
        for o in self.queue[kind]:
            if o.n == 0 and not o.total and not o.done and o.addr % (1 << o.size) and ival(d[p + 'addr'], 'address') == o.addr:
                # an operation of no bytes may still make one beat that transfers nothing
                o.total = 1
                o.beats = axi_beats(o.addr, 1, o.size, o.burst, self.bw)
            if o.beats_req < o.total:
                op = o
                break
        addr = self.f(d, p + 'addr')
        if op is None:
            self.need('cover', False, '%s burst at 0x%x although no operation needs one', kind, addr, fatal=True)
        n = self.f(d, p + 'len', 0) + 1
        size = self.f(d, p + 'size', self.bw.bit_length() - 1)
        burst = self.f(d, p + 'burst', INCR)
        nb = 1 << size
        N = self.need
        N('legal', nb <= self.bw, 'burst size %d is wider than the bus', size, fatal=True)
        N('legal', burst in (0, 1, 2), 'burst type %d', burst, fatal=True)
        N('legal', n <= 256 and n <= self.mbl, 'burst of %d beats, maximum %d', n, self.mbl)
        if burst == INCR:
            end = addr // nb * nb + n * nb - 1
            N('legal', addr >> 12 == end >> 12, 'incrementing burst at 0x%x of %d beats of %d bytes crosses a 4 KiB boundary', addr, n, nb)
        elif burst == FIXED:
            N('legal', n <= 16, 'fixed burst of %d beats', n)
        else:
            N('legal', n in (2, 4, 8, 16) and addr % nb == 0, 'wrapping burst of %d beats at 0x%x', n, addr)
        k = op.beats_req
        N('cover', addr == op.beats[k][0], 'operation %d: burst at 0x%x, the next byte to transfer is at 0x%x', op.i, addr, op.beats[k][0])
        N('cover', n <= op.total - k, 'operation %d: burst of %d beats, %d beats left', op.i, n, op.total - k, fatal=True)
        N('attr', burst == op.burst and size == op.size, 'operation %d: burst type %d size %d, requested %d and %d', op.i, burst,
          size, op.burst, op.size)
        for key, val in op.attr.items():
            if p + key in d:
                got = ival(d[p + key], p + key)
                N('attr', got == val, 'operation %d: %s is %d instead of %d', op.i, p + key, got, val)
        if not lite:
            bid = self.f(d, p + 'id')
            if op.id is not None:
                N('attr', bid == op.id, 'operation %d: ID %d instead of %d', op.i, bid, op.id)
            if op.bid is not None:
                N('attr', bid == op.bid, 'operation %d: bursts with IDs %d and %d', op.i, op.bid, bid)
            op.bid = bid
        op.beats_req += n
        op.nburst += 1
        return op, axi_beats(addr, n, size, burst, self.bw)

    def on_aw(self, d):
        op, view = self.request(d, 'aw', 'w')
        e = dict(id=self.f(d, 'awid', 0), ready=0, op=op, serial=self.ser['w'])
        self.ser['w'] += 1
        self.bpend.append(e)
        self.bursts.append([op, view, 0, len(view), e['serial'], e])
        self.match()

    def on_w(self, d):
        self.need('reset', not self.in_reset() or self.rstc < 1, 'data transfer while in reset', fatal=True)
        self.wq.append(d)
        self.match()

    def match(self):
        while self.wq and self.bursts:
            d = self.wq.pop(0)
            b = self.bursts[0]
            op, view, pos = b[:3]
            self.beat(op, view, pos, d)
            b[2] += 1
            last = b[2] == len(view)
            if not self.lite:
                self.need('legal', ival(d['wlast'], 'wlast') == last, 'operation %d: wlast is %s in beat %d of a burst of %d', op.i,
                          d['wlast'], pos, len(view))
            if last:
                self.bursts.pop(0)
                b[5]['ready'] = self.x.cycles + 1

    def beat(self, op, view, pos, d):
        a, lo, hi = view[pos]
        base = a // self.bw * self.bw
        data = ival(d['wdata'], 'wdata')
        strb = self.f(d, 'wstrb', (1 << self.bw) - 1)
        k = op.wbeat
        op.wbeat += 1
        for l in range(self.bw):
            if not strb >> l & 1:
                continue
            if not self.need('data', lo <= l <= hi, 'operation %d: lane %d enabled in the beat at 0x%x (lanes %d..%d)', op.i, l, a, lo, hi):
                self.need('legal', False, 'operation %d: lane %d enabled in the beat at 0x%x (lanes %d..%d)', op.i, l, a, lo, hi, fatal=True)
            self.need('data', op.got < op.n, 'operation %d: more than the %d bytes given are written', op.i, op.n, fatal=True)
            byte = data >> 8 * l & 0xff
            self.need('data', base + l == op.adr[op.got] and byte == op.data[op.got],
                      'operation %d: byte %d: 0x%02x written at 0x%x instead of 0x%02x at 0x%x', op.i, op.got, byte, base + l,
                      op.data[op.got], op.adr[op.got])
            op.got += 1
        if 'wuser' in d:
            u = op.wuser
            want = 0 if u is None else u if isinstance(u, int) else u[k] if k < len(u) else None
            if want is not None:
                got = ival(d['wuser'], 'wuser')
                self.need('attr', got == want, 'operation %d: wuser of beat %d is %d instead of %d', op.i, k, got, want)

    def on_b(self, d):
        e = self.bp.on
        if e is None:
            return
        op = e['op']
        op.nresp += 1
        op.codes.append(e['code'])
        op.users.append(e['user'])

    def on_ar(self, d):
        op, view = self.request(d, 'ar', 'r')
        e = dict(id=self.f(d, 'arid', 0), op=op, view=view, pos=0, serial=self.ser['r'], rserial=self.ser['rb'], codes=[], users=[],
                 k0=op.beats_req - len(view))
        self.ser['r'] += 1
        self.ser['rb'] += len(view)
        op.serials += [e['serial']] * len(view)
        self.rpend.append(e)

    def on_r(self, d):
        e = self.rp.on
        if e is None:
            return
        op = e['op']
        op.nresp += 1
        op.codes.append(e['codes'].pop(0))
        op.users.append(e['users'].pop(0))

    # ---- user side
    def ract(self):
        x = self.x
        if (self.in_reset() or self.resets < self.max_resets) and x.choose(2, 'reset'):
            v = '0' if x.rst_s.val == '1' else '1'
            if v == str(self.pol):
                self.resets += 1
            (x.sim.nba if x.in_edge else x.sim.active).append((x.rst_s, v))

    def act(self):
        x = self.x
        iss = self.issue
        if self.nissued < len(self.ops):
            if iss == 'all':
                while self.nissued < len(self.ops):
                    self.give()
            elif iss == 'chain':                # each as soon as the user learns that the one before has finished
                if not self.nissued:
                    self.give()
            elif iss == 'serial':
                if all(o.done for o in self.ops[:self.nissued]):
                    self.give()
            elif isinstance(iss, tuple):        # issue times
                while self.nissued < len(self.ops) and x.cycles >= iss[self.nissued]:
                    self.give()
        if iss == 'choose' or self.actions:
            opts = [None]
            if iss == 'choose' and self.nissued < len(self.ops):
                opts = ['give', None]
            for a in self.actions:
                if len(self.waiters) < 1:
                    opts.append(a)
            a = opts[x.choose(len(opts), 'user')]
            if a == 'give':
                self.give()
            elif a is not None:
                self.waiters.append(x.spawn(self.waiter(a)))

    async def waiter(self, a):
        m = self.m
        await getattr(m, a)()
        i = m if a == 'wait' else m.write_if if a == 'wait_write' else m.read_if
        if not i.idle() and 'idle' in self.checks:
            raise Violation('%s() returned while operations are outstanding' % a)

    def give(self):
        i = self.nissued
        self.nissued += 1
        op = self.ops[i]
        x, m = self.x, self.m
        if isinstance(op, Bad):
            op.give(x, m, self.checks)
            return
        kw = dict(op.kw)
        kw.pop('id', None)
        if 'id' in op.kw:
            kw['awid' if op.kind == 'w' else 'arid'] = op.kw['id']
        if self.lite:
            kw = {k: v for k, v in kw.items() if k == 'prot'}
        arg = op.n
        if op.kind == 'w':
            # the caller may use its buffers again once the operation has been issued
            arg = op.buf = bytearray(op.data) if op.i % 3 != 1 else op.data
            if isinstance(kw.get('wuser'), (list, tuple)) and op.form != 'coro':
                op.ubuf = kw['wuser'] = list(kw['wuser'])
        name = 'write' if op.kind == 'w' else 'read'
        if op.form == 'coro':
            op.h = x.spawn(self.coro(op, getattr(m, name), arg, kw))
            return
        op.issued = True
        self.queue[op.kind].append(op)
        try:
            self.call(op, m, name, arg, kw)
        finally:
            op.reuse()
        if self.issue == 'chain':
            x.spawn(self.chain_on(op))

    def call(self, op, m, name, arg, kw):
        try:
            if op.form == 'init':
                op.h = getattr(m, 'init_' + name)(op.addr, arg, **kw)
                if not isinstance(op.h, Event):
                    raise Violation('init_%s did not return an event' % name)
            else:
                ev = Event()
                op.h = getattr(m, 'init_' + name)(op.addr, arg, event=ev, **kw)
                if op.h is not ev:
                    raise Violation('init_%s did not return the event given' % name)
        except Violation:
            raise
        except Exception as e:
            raise Violation('operation %d raised %r' % (op.i, e))

    async def coro(self, op, fn, arg, kw):
        # a started coroutine runs, and issues its operation, when the scheduler gets to it
        op.issued = True
        self.queue[op.kind].append(op)
        v = await fn(op.addr, arg, **kw)
        self.chain()
        return v

    def chain(self):
        if self.issue == 'chain' and self.nissued < len(self.ops):
            self.give()

    async def chain_on(self, op):
        await op.h.wait()
        self.chain()

    def result(self, op):
        """(finished, value)"""
        if op.h is None:
            return False, None
        if op.form == 'coro':
            if op.h.exc is not None:
                raise Violation('operation %d raised %r' % (op.i, op.h.exc))
            return op.h.done, op.h.value
        return op.h.is_set(), op.h.data

    def collect(self):
        x = self.x
        for o in self.ops:
            if isinstance(o, Bad):
                o.settled()
        for q in self.queue.values():
            for op in list(q):
                fin, v = self.result(op)
                if not fin:
                    if op.complete() and (op.total or op is q[0]):
                        op.age += 1
                        self.need('live', op.age <= 4, 'operation %d (%s 0x%x, %d bytes) is not reported although all its responses arrived',
                                  op.i, op.kind, op.addr, op.n, fatal=True)
                    if op.flushed:
                        op.age += 1
                        self.need('reset', op.age <= 2, 'operation %d hangs after a reset', op.i, fatal=True)
                    continue
                op.done = True
                q.remove(op)
                if v is None:
                    self.need('reset' if self.resets else 'once', op.flushed, 'operation %d finished without a result', op.i, fatal=True)
                    continue
                if op.flushed == 2:
                    self.need('reset', False, 'operation %d, pending when reset was asserted, finished with %r', op.i, v, fatal=True)
                self.need('once', op.complete(), 'operation %d (%s 0x%x, %d bytes) is reported before its last response', op.i,
                          op.kind, op.addr, op.n, fatal=True)
                self.check(op, v)

    def check(self, op, v):
        N = self.need
        N('resp', v.address == op.addr, 'operation %d: address reported as 0x%x', op.i, v.address)
        has = ('bresp' if op.kind == 'w' else 'rresp') in self.ch['b' if op.kind == 'w' else 'r'].payload
        codes = op.codes if has else []
        bad = [c for c in codes if c]
        r = int(v.resp)
        N('resp', (r in bad) if bad else r == 0, 'operation %d reports response %d, its parts got %s', op.i, r, codes)
        if not self.lite:
            hu = ('buser' if op.kind == 'w' else 'ruser') in self.ch['b' if op.kind == 'w' else 'r'].payload
            if hu:
                N('user', v.user is not None and [int(u) for u in v.user] == op.users, 'operation %d: user fields %s, received %s',
                  op.i, v.user, op.users)
            else:
                N('user', v.user is None, 'operation %d: user fields %s without a user signal', op.i, v.user)
        if op.kind == 'w':
            N('resp', v.length == op.n, 'operation %d: length reported as %d instead of %d', op.i, v.length, op.n)
            N('data', op.got == op.n, 'operation %d: %d of %d bytes written', op.i, op.got, op.n)
        else:
            want = bytes(rbyte(a, op.serials[k]) for a, k in zip(op.adr, op.beat_of))
            N('data', bytes(v.data) == want and bytes(v) == want, 'operation %d (read 0x%x, %d bytes): data %s instead of %s', op.i,
              op.addr, op.n, bytes(v.data).hex(), want.hex())

    def reset_begins(self):
        """Reset was just asserted: nothing may be left over."""
        for q in self.queue.values():
            for op in q:
                fin, v = self.result(op)
                op.age = 0
                op.flushed = 1 if op.complete() and not fin else 2
                if fin and op.complete():
                    op.flushed = 1
        self.drop()

    def drop(self):
        self.bursts.clear()
        self.wq.clear()
        self.bpend.clear()
        self.rpend.clear()

    def pending(self):
        return [o for q in self.queue.values() for o in q]

    def settled(self):
        """Checks when the timestep of the clock edge is over."""
        x, m = self.x, self.m
        self.collect()
        rst = self.in_reset()
        pend = self.pending()
        self.need('idle', m.idle() == (not pend), 'idle() is %s with %d operations outstanding', m.idle(), len(pend))
        if self.half == 'rw':
            for k, i in (('w', m.write_if), ('r', m.read_if)):
                self.need('idle', i.idle() == (not self.queue[k]), '%s: idle() is %s with %d operations outstanding', k, i.idle(), len(self.queue[k]))
        for w in list(self.waiters):
            if w.done:
                self.waiters.remove(w)
        if self.waiters and not pend:
            self.need('idle', False, 'wait() does not return although nothing is outstanding', fatal=True)
        lib = [c for c in self.chans if c.driver == 'lib']
        env = [c for c in self.chans if c.driver == 'env']
        if rst:
            self.rstc = min(self.rstc + 1, 2)
            # low from the next settled cycle on
            for c in lib:
                self.need('reset', c.valid.val == '0' or self.rstc < 2, '%s: valid is high in reset', c.name)
            for c in env:
                self.need('reset', c.ready.val == '0' or self.rstc < 2, '%s: ready is high in reset', c.name)
        else:
            self.rstc = 0
        busy = rst or not pend or self.bpend and any(e['ready'] for e in self.bpend) or self.rpend
        busy = busy or any(c.fired for c in self.chans) or any(c.valid.val == '1' for c in lib)
        if not busy and any(c.valid.val == '1' for c in env):
            # a response is offered: the master must be able to take it
            self.quiet += 1
        elif busy:
            self.quiet = 0
        else:
            self.quiet += 1
        self.need('live', self.quiet <= 6, 'the master is stuck with %d operations outstanding although nothing holds it up', len(pend), fatal=True)
        self.chk_reset_clean(rst)

    def chk_reset_clean(self, rst):
        pass

    def run(self):
        x = self.x
        done_c = 0
        explore = self.explore
        for k in range(self.K):
            r0 = self.in_reset()
            self.actor.mid()
            self.ractor.mid()
            if self.in_reset() and not r0:
                self.reset_begins()
            r0 = self.in_reset()
            x.cycle_begin()
            if self.in_reset() and not r0:
                self.reset_begins()
            self.settled()
            x.cycle_finish()
            if not explore and self.nissued == len(self.ops) and not self.pending():
                done_c += 1
                if done_c > 3:
                    break
        else:
            if not explore:
                self.need('live', False, 'operations do not complete within %d cycles', self.K, fatal=True)
        x.close()
        return 'done%d' % (len([o for o in self.ops if o.done]))


def master(chooser, **k):
    sc = None
    try:
        sc = MSc(chooser, **k)
        return sc.run()
    except Stop:
        return 'other'


def master_in(chooser, inp, **k):
    """inp: dict of further arguments."""
    return master(chooser, **k, **inp)
