"""Scenarios for single valid/ready channels: sources, sinks and monitors."""
from .core import Exec, Violation, RisingEdge
from . import bfm
from .bfm import Chan, ReadyPeer, ValidPeer, need, ival, viap, nm
from cocotb.queue import QueueEmpty, QueueFull
from cocotbext.axi import axi_channels as ac, axil_channels as lc
from cocotbext.axi.stream import define_stream

GB, GT, GSource, GSink, GMonitor = define_stream('Gen', signals=['data', 'valid', 'ready'], optional_signals=['extra'])

# channel -> (classes, required fields {name: width}, optional fields, prefix of valid/ready)
CH = {
    'gen': ((GB, GT, GSource, GSink, GMonitor), dict(data=8), dict(extra=3), ''),
}
_f = dict(id=5, addr=12, len=8, size=3, burst=2, lock=1, cache=4, prot=3, qos=4, region=4, user=3, data=16, strb=2,
          last=1, resp=2)
for p, m, mod in (('axi', 'Axi', ac), ('axil', 'AxiLite', lc)):
    for c in ('aw', 'w', 'b', 'ar', 'r'):
        n = m + c.upper()
        cls = tuple(getattr(mod, n + s) for s in ('Bus', 'Transaction', 'Source', 'Sink', 'Monitor'))
        if p == 'axi':
            req = dict(aw=('id', 'addr', 'len', 'size', 'burst'), w=('data', 'last'), b=('id',),
                       ar=('id', 'addr', 'len', 'size', 'burst'), r=('id', 'data', 'last'))[c]
            opt = dict(aw=('lock', 'cache', 'prot', 'qos', 'region', 'user'), w=('strb', 'user'), b=('resp', 'user'),
                       ar=('lock', 'cache', 'prot', 'qos', 'region', 'user'), r=('resp', 'user'))[c]
        else:
            req = dict(aw=('addr',), w=('data',), b=(), ar=('addr',), r=('data',))[c]
            opt = dict(aw=('prot',), w=('strb',), b=('resp',), ar=('prot',), r=('resp',))[c]
        CH[p + '_' + c] = (cls, {c + k: _f[k] for k in req}, {c + k: _f[k] for k in opt}, c)


# further generic streams: no ready at all; handshake signals with other names, given explicitly
GENX = {
    'genn': (define_stream('GenN', signals=['data', 'valid'], optional_signals=['extra']), dict(data=8), dict(extra=3), 'valid', None),
    'geno': (define_stream('GenO', signals=['data', 'stb', 'ack'], valid_signal='stb', ready_signal='ack', signal_widths={'data': 8}), dict(data=8), {}, 'stb', 'ack'),
    'genp': (define_stream('GenP', signals=['data'], optional_signals=['extra'], valid_signal='valid', ready_signal='ready'), dict(data=8), dict(extra=3), 'valid', 'ready'),
    'genl': (define_stream('GenL', signals=['last', 'data', 'a_valid', 'a_ready', 'extra'], signal_widths={'last': 1}), dict(last=1, data=8, extra=3), {}, 'a_valid', 'a_ready'),
}


def mkbusx(x, ch, prefix='s'):
    cls, req, op, v, r = GENX[ch]
    S = {k: x.sig(nm(prefix, k), w) for k, w in {**req, **op}.items()}
    v = x.sig(nm(prefix, v), 1)
    r = x.sig(nm(prefix, r), 1) if r else None
    return cls, bfm.mkbus(x, cls[0], prefix), S, v, r, list(req) + list(op)


def mkbus(x, ch, opt='all', prefix='s'):
    ch, _, via = ch.partition('@')     # the way to make the bus object
    prefix = viap(prefix, via or 'prefix')
    if ch in GENX:
        return mkbusx(x, ch, prefix)
    cls, req, op, vp = CH[ch]
    S = {}
    fields = dict(req)
    if opt == 'all':
        fields.update(op)
    elif opt == 'one' and op:
        k = sorted(op)[0]
        fields[k] = op[k]
    for k, w in fields.items():
        S[k] = x.sig(nm(prefix, k), w)
    v = x.sig(nm(prefix, vp + 'valid'), 1)
    r = x.sig(nm(prefix, vp + 'ready'), 1)
    bus = bfm.mkbus(x, cls[0], prefix)
    return cls, bus, S, v, r, list(req) + list(op)


def item(ch, i):
    """Distinct, width-respecting field values for item number i."""
    ch = ch.partition('@')[0]
    cls, req, op = (GENX[ch] if ch in GENX else CH[ch])[:3]
    w = dict(req)
    w.update(op)
    return {f: ((i + 1) * 37 + 11 * j + i) % (1 << w[f]) for j, f in enumerate(sorted(w))}


class Actor:
    """Performs one chosen user action per clock cycle, at a given place in the cycle.

    where: 'mid' between two edges; 'early'/'late' in a coroutine woken by the same clock
    edge as the component and started before/after it.
    """
    canon_leaf = True

    def __init__(self, x, where, act):
        self.x = x
        self.where = where
        self.act = act

    def attach(self, place):
        if self.where == place:
            self.x.start(self.loop(self.x.clk))

    async def loop(self, clk):
        e = RisingEdge(clk)
        while True:
            await e
            self.act()

    async def once(self):
        self.act()

    def mid(self):
        if self.where == 'mid':
            r = self.x.start(self.once())
            if r.exc is not None:
                raise r.exc
            self.x.sim.run_active()
            self.x._chk()


class PGen:
    """A pause generator handed to the component; counts the values taken from it."""
    canon_leaf = True

    def __init__(self, seq):
        self.seq = seq
        self.pos = 0
        self.last = None
        self.edges = 0
        self.ended = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.seq):
            self.ended += 1
            raise StopIteration
        self.last = self.seq[self.pos]
        self.pos += 1
        return bool(self.last)


class GenMix:
    """Actions that attach, replace and remove pause generators, and their reference behaviour."""
    GENS = ((1, 0), (0, 1, 1, 0))
    gen = None

    def gen_opts(self, A):
        o = []
        if 'gen' in A:
            o += [('gen', i) for i in range(len(self.GENS))]
            if self.gen is not None:
                o.append('ungen')
        return o

    def gen_act(self, a, comp):
        if a == 'ungen':
            comp.clear_pause_generator()
            self.gen = None
            comp.pause = False
        else:
            self.gen = g = PGen(self.GENS[a[1]])
            comp.set_pause_generator(g)
            g.edges = -1 if self.x.in_edge else 0

    def gen_st(self):
        g = self.gen
        return None if g is None else (g.seq, g.pos, g.edges, g.ended)

    def gen_check(self, comp):
        g = self.gen
        if g is None:
            return
        g.edges += 1
        want = min(g.edges + 1, len(g.seq))
        need(g.pos == want, 'pause generator: %d values taken, %d clock edges after it was set', g.pos, g.edges)
        need(bool(comp.pause) == bool(g.last), 'pause is %s, the generator said %s', comp.pause, g.last)
        if g.edges + 1 > len(g.seq):
            self.gen = None


class Recv:
    """Checks the items a sink or monitor returns against those that crossed the bus."""
    canon_leaf = True

    def __init__(self, sc, comp, who):
        self.sc, self.comp, self.who = sc, comp, who
        self.held = []

    def take(self, obj):
        need(self.held, '%s returned an item that never crossed the bus', self.who)
        i = self.held.pop(0)
        exp = item(self.sc.ch, i)
        for f in self.sc.fields:
            got = int(getattr(obj, f))
            want = exp[f] if f in self.sc.S else 0
            need(got == want, '%s: item %d: field %s received as %d instead of %d', self.who, i, f, got, want)

    def check(self):
        n = len(self.held)
        need(self.comp.count() == n and self.comp.empty() == (n == 0),
             '%s: count() %d, empty() %s while %d transferred items have not been read', self.who, self.comp.count(),
             self.comp.empty(), n)

    def drain(self):
        self.check()
        while self.held:
            self.take(self.comp.recv_nowait())
            self.check()
        try:
            self.comp.recv_nowait()
        except QueueEmpty:
            return
        raise Violation('%s returned more items than crossed the bus' % self.who)


class SrcSc(GenMix):
    """A source (with a passive monitor) against every ready pattern and user action."""
    canon_leaf = True
    M = 3       # items are numbered modulo M

    def __init__(self, chooser, ch='gen', opt='all', where='mid', actions=('send', 'pause'), limit=-1, maxq=2,
                 ready='choose', attr=None, K=300, polarity=1):
        x = self.x = Exec(chooser)
        self.ch = ch
        self.cls, bus, self.S, v, r, self.fields = mkbus(x, ch, opt)
        self.v = v
        self.c = c = Chan(x, ch, v, r, self.S, 'lib')
        c.listeners.append(self.on_bus)
        self.pol = polarity
        c.rst = self.chan_reset
        x.rst_s.val = str(1 - polarity)
        self.actor = Actor(x, where, self.act)
        self.actions = actions
        self.limit = limit
        self.maxq = maxq
        self.K = K
        self.actor.attach('early')
        args = () if polarity else (False,)
        self.src = src = self.cls[2](bus, x.clk, x.rst, *args)
        self.mon = self.cls[4](bus, x.clk, x.rst, *args)
        src.queue_occupancy_limit = limit
        self.actor.attach('late')
        self.rp = ReadyPeer(x, c, mode=ready)
        x.settle()
        self.mr = Recv(self, self.mon, 'monitor')
        self.next = 0           # number of the next item
        self.order = []         # items given and not yet transferred or dropped
        self.blocked = []       # (Result, item) of blocking sends
        self.was = '0'
        self.p_prev = False
        self.wait = 0
        self.idle_wait = 0
        self.rstc = 0
        self.waiters = []
        self.n_cross = 0
        self.acted = set()
        x.state_roots = [src, self.mon]
        x.state_fn = self.st

    def chan_reset(self):
        return self.in_reset() or self.x.cycles <= self.exempt

    exempt = -1

    def in_reset(self):
        return self.loc or self.x.rst_s.val == str(self.pol)

    loc = False         # reset asserted by call

    def lreset(self, val, *comps):
        was = self.in_reset()
        self.loc = val
        for c in comps:
            c.assert_reset(val)
        return self.in_reset() and not was

    def st(self):
        return (self.next, tuple(self.order), tuple(self.mr.held), self.was, self.wait, max(-1, self.exempt - self.x.cycles), self.idle_wait, self.rstc, self.stuck,
                self.gen_st(), self.c.prev, tuple((b.done, i) for b, i in self.blocked), tuple(w.done for w in self.waiters), self.x.rst_s.val, self.loc)

    def on_bus(self, d):
        need(self.order, 'a transfer happened with nothing left to send: %s', d)
        i = self.order.pop(0)
        exp = item(self.ch, i)
        for k, val in d.items():
            need(ival(val, k) == exp[k], 'item %d: field %s is %d on the bus, %d was given', i, k, ival(val, k), exp[k])
        self.mr.held.append(i)
        self.n_cross += 1

    def act(self):
        x, src = self.x, self.src
        opts = [None]
        A = self.actions
        unsent = src.count() + len([b for b, i in self.blocked if not b.done])
        if 'send' in A and unsent < self.maxq:
            opts.append('send')
        if 'bsend' in A and unsent < self.maxq:
            opts.append('bsend')
        for a in ('pause', 'clear', 'reset', 'creset', 'wait'):
            if a in A and not (a == 'clear' and (not src.count() or self.blocked)) and not (a == 'wait' and self.waiters):
                opts.append(a)
        if 'lreset' in A:
            opts += [('lreset', True), ('lreset', False)]
        opts += self.gen_opts(A)
        a = opts[x.choose(len(opts), 'user', 1)]
        self.acted.add(a)
        if isinstance(a, tuple) and a[0] == 'gen' or a == 'ungen':
            self.gen_act(a, src)
        if a in ('send', 'bsend'):
            self.cyc_sent = True
            i = self.next
            it = self.cls[1](**item(self.ch, i))
            full = self.limit > 0 and src.count() >= self.limit
            need(src.full() == full, 'full() is %s with %d queued and limit %d', src.full(), src.count(), self.limit)
            if a == 'bsend':
                self.blocked.append((x.spawn(self.bsend(it, i)), i))
            else:
                try:
                    src.send_nowait(it)
                except QueueFull:
                    need(full, 'send_nowait refused an item with %d queued and limit %d', src.count(), self.limit)
                    return
                need(not full, 'send_nowait accepted an item beyond the limit %d', self.limit)
                self.order.append(i)
            self.next = (self.next + 1) % self.M
        elif a == 'pause':
            src.pause = not src.pause
        elif a == 'clear':
            q = src.count()
            src.clear()
            need(src.count() == 0 and src.empty(), 'clear() left %d items', src.count())
            del self.order[len(self.order) - q:]
        elif a == 'reset':
            val = '1' if x.rst_s.val == '0' else '0'
            (x.sim.nba if x.in_edge else x.sim.active).append((x.rst_s, val))
        elif a == 'creset':
            self.loc = False
            self.exempt = x.cycles + (1 if x.in_edge else 0)
            src.assert_reset()
            self.resync()
        elif isinstance(a, tuple) and a[0] == 'lreset':
            if self.lreset(a[1], src):
                self.resync()
        elif a == 'wait':
            self.waiters.append(x.spawn(self.wait_idle()))

    async def wait_idle(self):
        await self.src.wait()
        need(self.src.idle() or self.cyc_sent, 'wait() returned while the source is not idle')

    async def bsend(self, it, i):
        # an item counts as given when send() returns (a sender that comes later may find a free place first)
        await self.src.send(it)
        self.order.append(i)

    def resync(self):
        """After a reset: at most the item being offered is gone."""
        q = self.src.count()
        n = len(self.order) - q
        need(0 <= n <= 1, 'reset dropped %d items: queued %d of %d outstanding', n, q, len(self.order))
        if n:
            self.order.pop(0)

    def after_edge(self):
        x, src = self.x, self.src
        rst = self.in_reset()
        self.gen_check(src)
        new = self.v.val == '1' and (self.was == '0' or self.c.fired)
        if new and self.p_prev and src.pause:
            raise Violation('a paused source started a new item')
        self.was = self.v.val
        for b in list(self.blocked):
            if b[0].done:
                self.blocked.remove(b)
        todo = src.count() + len(self.blocked)
        if self.v.val == '0' and todo and not src.pause and not self.p_prev and not rst and x.cycles > self.exempt + 1:
            self.wait += 1
            need(self.wait <= 3, 'a source that is neither paused nor reset holds %d item(s) but does not assert valid', todo)
        else:
            self.wait = 0
        if self.limit > 0:
            need(src.count() <= self.limit, 'source queue holds %d items, limit %d', src.count(), self.limit)
        # in flight or queued == order
        infl = 1 if self.v.val == '1' else 0
        if not rst:
            need(len(self.order) == src.count() + infl, '%d items outstanding, but %d queued and %d on the bus', len(self.order), src.count(), infl)
            self.stuck = min(self.stuck + 1, 3) if self.blocked and src.count() < self.limit else 0
            need(self.stuck < 3, '%d senders wait although only %d items are queued, limit %d', len(self.blocked), src.count(), self.limit)
        if not todo and self.v.val == '0':
            self.idle_wait += 1
            if self.idle_wait > 2:
                need(src.idle(), 'idle() stays False with nothing queued or offered')
                need(all(w.done for w in self.waiters), 'wait() does not return although the source is idle')
                self.idle_wait = 3
        else:
            self.idle_wait = 0
            if not rst:
                need(not src.idle(), 'idle() is True with %d queued, valid %s', src.count(), self.v.val)
        for w in list(self.waiters):
            if w.done:
                self.waiters.remove(w)
        if rst:
            if self.rstc >= 1:
                need(self.v.val == '0', 'valid is high while in reset')
            self.rstc = min(self.rstc + 1, 2)
        else:
            self.rstc = 0

    cyc_sent = False
    stuck = 0

    def run(self):
        x = self.x
        for k in range(self.K):
            r0 = x.rst_s.val
            self.actor.mid()
            if x.rst_s.val != r0 and x.rst_s.val == str(self.pol):
                self.resync()
            r1 = x.rst_s.val
            self.p_prev = bool(self.src.pause)
            self.cyc_sent = False
            x.cycle_begin()
            if x.rst_s.val != r1 and x.rst_s.val == str(self.pol):
                self.resync()
            self.after_edge()
            self.mr.drain()
            x.cycle_finish()
        x.close()
        return 'end'


def source(chooser, **k):
    return SrcSc(chooser, **k).run()


class SinkSc(GenMix):
    """A sink (with a passive monitor) fed by an environment source, under every schedule."""
    canon_leaf = True
    M = 3

    def __init__(self, chooser, ch='gen', opt='all', where='mid', actions=('recv', 'pause'), limit=-1, maxq=2,
                 valid='choose', K=300, polarity=1, idle='0'):
        x = self.x = Exec(chooser)
        self.ch = ch
        self.cls, bus, self.S, v, r, self.fields = mkbus(x, ch, opt)
        self.v, self.r = v, r
        self.c = c = Chan(x, ch, v, r, self.S, 'env')
        c.listeners.append(self.on_bus)
        self.pol = polarity
        x.rst_s.val = str(1 - polarity)
        self.limit, self.maxq, self.K = limit, maxq, K
        self.actor = Actor(x, where, self.act)
        self.actions = actions
        self.actor.attach('early')
        args = () if polarity else (False,)
        self.snk = snk = self.cls[3](bus, x.clk, x.rst, *args)
        self.mon = self.cls[4](bus, x.clk, x.rst, *args)
        snk.queue_occupancy_limit = limit
        self.actor.attach('late')
        self.idlev = idle
        x.procs.append(self)
        v.val = '0'
        for s in self.S.values():
            s.val = idle * s.width
        self.vmode = valid
        self.cur = None             # item offered
        self.next = 0
        x.settle()
        self.sr = Recv(self, snk, 'sink')
        self.mr = Recv(self, self.mon, 'monitor')
        self.blocked = []
        self.waiters = []
        self.pz = 0                 # edges seen since the pause was set
        self.stall = 0
        self.rstc = 0
        self.exempt = -1
        x.state_roots = [snk, self.mon]
        x.state_fn = self.st

    def in_reset(self):
        return self.loc or self.x.rst_s.val == str(self.pol)

    loc = False         # reset asserted by call

    def lreset(self, val, *comps):
        was = self.in_reset()
        self.loc = val
        for c in comps:
            c.assert_reset(val)
        return self.in_reset() and not was

    def st(self):
        return (self.next, self.cur, tuple(self.sr.held), self.pz, self.stall, self.rstc, max(-1, self.exempt - self.x.cycles),
                self.gen_st(), tuple(b.done for b in self.blocked), tuple(w.done for w in self.waiters), self.x.rst_s.val, self.loc)

    def on_bus(self, d):
        i = self.cur
        self.sr.held.append(i)
        self.mr.held.append(i)
        need(not self.in_reset() or self.rstc < 1, 'a sink in reset accepted a transfer')
        if self.snk.pause:
            need(self.pz < 2, 'a paused sink accepted a transfer %d edges after the pause was set', self.pz + 1)

    def edge(self, x):
        # environment source
        if self.c.fired:
            self.cur = None
        if self.cur is None:
            go = len(self.sr.held) < self.maxq + (1 if self.limit > 0 else 0)
            if go:
                go = x.choose(2, 'valid', 1) == 0 if self.vmode == 'choose' else True
            if go:
                self.cur = self.next
                self.next = (self.next + 1) % self.M
                x.drive(self.v, 1)
                for k, val in item(self.ch, self.cur).items():
                    if k in self.S:
                        x.drive(self.S[k], val)
            else:
                x.drive(self.v, 0)
                for s in self.S.values():
                    x.drive(s, self.idlev * s.width)

    def act(self):
        x, snk = self.x, self.snk
        opts = [None]
        A = self.actions
        if 'recv' in A and self.sr.held and snk.count():
            opts.append('recv')
        if 'brecv' in A and not self.blocked:
            opts.append('brecv')
        for a in ('pause', 'clear', 'reset', 'creset', 'wait'):
            if a in A and not (a == 'clear' and (not snk.count() or self.blocked)) and not (a == 'wait' and self.waiters):
                opts.append(a)
        if 'lreset' in A:
            opts += [('lreset', True), ('lreset', False)]
        opts += self.gen_opts(A)
        a = opts[x.choose(len(opts), 'user', 1)]
        if isinstance(a, tuple) and a[0] == 'gen' or a == 'ungen':
            self.gen_act(a, snk)
        elif a == 'recv':
            self.sr.take(snk.recv_nowait())
        elif a == 'brecv':
            self.blocked.append(x.spawn(self.brecv()))
        elif a == 'pause':
            snk.pause = not snk.pause
            self.pz = 0
        elif a == 'clear':
            q = snk.count()
            snk.clear()
            need(snk.count() == 0 and snk.empty(), 'clear() left %d items', snk.count())
            del self.sr.held[:q]
        elif a == 'reset':
            val = '1' if x.rst_s.val == '0' else '0'
            (x.sim.nba if x.in_edge else x.sim.active).append((x.rst_s, val))
        elif a == 'creset':
            self.loc = False
            self.exempt = x.cycles + 1
            snk.assert_reset()
        elif isinstance(a, tuple) and a[0] == 'lreset':
            self.lreset(a[1], snk)
        elif a == 'wait':
            self.waiters.append(x.spawn(self.wait_item()))

    async def brecv(self):
        self.sr.take(await self.snk.recv())

    async def wait_item(self):
        await self.snk.wait()

    def after_edge(self):
        x, snk = self.x, self.snk
        rst = self.in_reset()
        self.gen_check(snk)
        full = self.limit > 0 and snk.count() >= self.limit
        need(snk.full() == full, 'full() is %s with %d queued and limit %d', snk.full(), snk.count(), self.limit)
        if self.limit > 0:
            need(snk.count() <= self.limit, 'sink queue holds %d items, limit %d', snk.count(), self.limit)
        for b in list(self.blocked):
            if b.done:
                self.blocked.remove(b)
        if self.blocked:
            need(not snk.count(), 'a blocked recv() was not woken although %d items are queued', snk.count())
        for w in list(self.waiters):
            if w.done:
                self.waiters.remove(w)
        if self.waiters and snk.count():
            raise Violation('wait() does not return although an item is queued')
        self.sr.check()
        self.pz = min(self.pz + 1, 3) if snk.pause and self.p_begin else 0
        if not self.c.fired and self.cur is not None and not snk.pause and not self.p_begin and not full and not rst and x.cycles > self.exempt + 2:
            self.stall += 1
            need(self.stall <= 4, 'a sink that is neither paused, reset nor full does not take the item offered to it')
        else:
            self.stall = 0
        if rst:
            if self.rstc >= 1:
                need(self.r.val == '0', 'ready is high while in reset')
            self.rstc = min(self.rstc + 1, 2)
        else:
            self.rstc = 0

    def run(self):
        x = self.x
        for k in range(self.K):
            self.actor.mid()
            self.p_begin = bool(self.snk.pause)
            x.cycle_begin()
            self.after_edge()
            self.mr.drain()
            x.cycle_finish()
        x.close()
        return 'end'


def sink(chooser, **k):
    return SinkSc(chooser, **k).run()
