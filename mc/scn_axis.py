"""Scenarios for AXI stream sources, sinks and monitors."""
from .core import Exec, Violation, RisingEdge, Event
from .bfm import mkbus, viap, nm, Chan, ReadyPeer, need, ival
from .scn_chan import Actor, GenMix
from cocotb.queue import QueueEmpty, QueueFull
from cocotbext.axi import AxiStreamBus, AxiStreamSource, AxiStreamSink, AxiStreamMonitor, AxiStreamFrame

ALLSIG = ('tvalid', 'tready', 'tlast', 'tkeep', 'tid', 'tdest', 'tuser')


class Geo:
    """Bus geometry: lanes, bits per byte, signals present; how the component is told about it."""

    def __init__(self, lanes=2, bs=8, sigs=ALLSIG, how='tkeep', idw=3, destw=2, userw=4, via='prefix'):
        self.via = via
        self.lanes, self.bs, self.sigs, self.how = lanes, bs, tuple(sigs), how
        self.idw, self.destw, self.userw = idw, destw, userw

    def __repr__(self):
        return 'Geo(lanes=%d, bs=%d, sigs=%s)' % (self.lanes, self.bs, '+'.join(self.sigs))

    def kw(self):
        if 'tkeep' in self.sigs:
            return {}
        if self.how == 'lanes':
            return dict(byte_lanes=self.lanes)
        if self.how == 'size' or self.bs != 8:
            return dict(byte_size=self.bs)
        return {}

    def bus(self, x):
        return mkbus(x, AxiStreamBus, viap('s', self.via))

    def build(self, x):
        prefix = viap('s', self.via)
        S = {'tdata': x.sig(nm(prefix, 'tdata'), self.lanes * self.bs)}
        for n in self.sigs:
            w = dict(tkeep=self.lanes, tid=self.idw, tdest=self.destw, tuser=self.userw).get(n, 1)
            S[n] = x.sig(nm(prefix, n), w)
        return S

    def chan(self, x, S, driver, name='axis'):
        pl = {k: s for k, s in S.items() if k not in ('tvalid', 'tready')}
        return Chan(x, name, S.get('tvalid'), S.get('tready'), pl, driver)


class F:
    """A frame of the alphabet, in reference form: per-byte lists."""

    def __init__(self, data, keep=None, tid=None, tdest=None, tuser=None):
        self.data = list(data)
        self.keep, self.tid, self.tdest, self.tuser = keep, tid, tdest, tuser

    def norm(self, f):
        v = getattr(self, f)
        n = len(self.data)
        if v is None:
            return [1 if f == 'keep' else 0] * n
        if isinstance(v, int):
            return [v] * n
        v = list(v)
        return (v + [v[-1]] * n)[:n]

    def beats(self, g):
        """Reference encoding: list of dicts of field -> int."""
        out = []
        n = len(self.data)
        k, i, d, u = (self.norm(f) for f in ('keep', 'tid', 'tdest', 'tuser'))
        for b in range(0, n, g.lanes):
            e = min(n, b + g.lanes)
            t = dict(tdata=0, tkeep=0, tlast=int(e == n))
            for j in range(b, e):
                t['tdata'] |= (self.data[j] & (1 << g.bs) - 1) << (j - b) * g.bs
                t['tkeep'] |= (k[j] & 1) << (j - b)
            t['tid'], t['tdest'], t['tuser'] = i[e - 1], d[e - 1], u[e - 1]
            out.append(t)
        return out

    def make(self, g, tx_complete=None):
        data = bytes(self.data) if g.bs == 8 else list(self.data)
        c = lambda v: list(v) if isinstance(v, (list, tuple)) else v    # noqa: E731
        return AxiStreamFrame(data, c(self.keep), c(self.tid), c(self.tdest), c(self.tuser), tx_complete)


def alphabet(g, which=(0, 1, 2, 3)):
    L = g.lanes
    m = (1 << g.bs) - 1

    def d(n, s):
        return [(s * 53 + 29 * k + 17) & m for k in range(n)]

    def per(n, s, w):
        return [(s + k // L) % (1 << w) for k in range(n)]
    A = [F(d(1, 1), None, 1, 1, 2),
         F(d(L + 1, 2), None, per(L + 1, 2, g.idw), per(L + 1, 1, g.destw), per(L + 1, 5, g.userw)),
         F(d(2 * L, 3), [1] * (2 * L - 1) + [0] if L > 1 else [1, 0], None, None, 3),
         F(d(L, 4)),
         F(d(L, 5), [0] * L),                               # no byte at all
         F(d(2 * L, 6), [0] * L + [1] + [0] * (L - 1))]     # an empty beat first
    return [A[i] for i in which]


def decode(beats, g):
    """Reference decoding of the beats of one frame into per-byte lists."""
    r = dict(tdata=[], tkeep=[], tid=[], tdest=[], tuser=[])
    for b in beats:
        for o in range(g.lanes):
            r['tdata'].append(b['tdata'] >> o * g.bs & (1 << g.bs) - 1)
            if 'tkeep' in g.sigs:
                r['tkeep'].append(b['tkeep'] >> o & 1)
            for f in ('tid', 'tdest', 'tuser'):
                if f in g.sigs:
                    r[f].append(b[f])
    return r


def compacted(r):
    keep = r['tkeep'] or [1] * len(r['tdata'])
    out = dict(tdata=[v for v, k in zip(r['tdata'], keep) if k], tkeep=None)
    for f in ('tid', 'tdest', 'tuser'):
        v = [a for a, k in zip(r[f], keep) if k]
        if not v:
            out[f] = None
        elif all(a == v[0] for a in v):
            out[f] = v[0]
        else:
            out[f] = v
    return out


def same_frame(got, want, who, g, compact):
    need(isinstance(got, AxiStreamFrame), '%s returned %r', who, got)
    data = list(got.tdata)
    need(data == want['tdata'], '%s: frame data %s instead of %s', who, data, want['tdata'])
    if g.bs == 8:
        need(bytes(got) == bytes(want['tdata']), '%s: bytes() of the frame differ', who)
    for f in ('tid', 'tdest', 'tuser', 'tkeep'):
        w = want[f]
        v = getattr(got, f)
        if not compact:
            need(list(v) == w, '%s: %s is %s instead of %s', who, f, v, w)
        elif isinstance(w, list):
            need(list(v) == w, '%s: %s is %s instead of %s', who, f, v, w)
        else:
            need(v == w and not isinstance(v, (list, tuple)), '%s: %s is %s instead of %s', who, f, v, w)


class Rx:
    """Reference receiver: what a sink or monitor must hold, from the transfers on the bus."""
    canon_leaf = True

    def __init__(self, sc, comp, who):
        self.sc, self.comp, self.who = sc, comp, who
        self.g = sc.g
        self.part = []          # beats of the frame in progress
        self.t0 = None
        self.held = []          # complete frames: (beats tuple, t_start, t_end)
        self.rq = []            # bytes taken off frames by byte-stream reads, not returned yet

    def beat(self, d, t):
        if not self.part:
            self.t0 = t
        self.part.append(d)
        if 'tlast' not in self.g.sigs or d['tlast']:
            self.held.append((tuple(tuple(sorted(b.items())) for b in self.part), self.t0, t))
            self.part = []

    def st(self):
        return (tuple(tuple(sorted(b.items())) for b in self.part), tuple(h[0] for h in self.held), tuple(self.rq))

    def dec(self, h):
        return decode([dict(b) for b in h[0]], self.g)

    def take(self, fr, compact=True):
        need(self.held, '%s returned a frame that never crossed the bus', self.who)
        h = self.held.pop(0)
        r = self.dec(h)
        same_frame(fr, compacted(r) if compact else r, self.who, self.g, compact)
        need(fr.sim_time_start == h[1] and fr.sim_time_end == h[2], '%s: frame times (%s, %s), transferred during (%s, %s)',
             self.who, fr.sim_time_start, fr.sim_time_end, h[1], h[2])

    def check(self):
        n = len(self.held)
        c = self.comp
        nb = sum(len(h[0]) for h in self.held) * self.g.lanes
        need(c.count() == n and c.empty() == (n == 0), '%s: count() %d, empty() %s with %d frames not read', self.who, c.count(),
             c.empty(), n)
        need(c.queue_occupancy_frames == n, '%s: frame occupancy %d with %d frames queued', self.who, c.queue_occupancy_frames, n)
        need(c.queue_occupancy_bytes == nb, '%s: byte occupancy %d with %d bytes queued', self.who, c.queue_occupancy_bytes, nb)

    def drain(self, compact=True):
        self.check()
        while self.held:
            self.take(self.comp.recv_nowait(compact) if not compact else self.comp.recv_nowait(), compact)
            self.check()
        try:
            self.comp.recv_nowait()
        except QueueEmpty:
            return
        raise Violation('%s returned more frames than crossed the bus' % self.who)

    def flush(self):
        self.part = []

    # byte-stream reads
    def size(self, h):
        return len(compacted(self.dec(h))['tdata'])

    def took(self, data, count, frames):
        for k in range(frames):
            h = self.held.pop(0)
            self.rq += compacted(self.dec(h))['tdata']
        n = len(self.rq) if count < 0 else min(count, len(self.rq))
        need(list(data) == self.rq[:n], '%s: read(%d) returned %s, %s was due', self.who, count, list(data), self.rq[:n])
        del self.rq[:n]


class Base(GenMix):
    canon_leaf = True

    def common(self, chooser, g, where, actions, K, polarity):
        x = self.x = Exec(chooser)
        self.g = g
        self.K = K
        self.pol = polarity
        self.actions = actions
        self.where = where
        x.rst_s.val = str(1 - polarity)
        self.S = g.build(x)
        self.args = () if polarity else (False,)
        self.exempt = -1
        self.rstc = 0
        self.waiters = []
        self.ncr = 2
        self.blocked = []
        self.actor = Actor(x, where, self.act)
        self.actor.attach('early')
        return x

    def in_reset(self):
        return self.loc or self.x.rst_s.val == str(self.pol)

    loc = False         # reset asserted by call

    def lreset(self, val, *comps):
        was = self.in_reset()
        self.loc = val
        for c in comps:
            c.assert_reset(val)
        return self.in_reset() and not was

    def chan_reset(self):
        return self.in_reset() or self.x.cycles <= self.exempt

    def bus(self):
        return self.g.bus(self.x)

    def toggle_reset(self):
        x = self.x
        val = '1' if x.rst_s.val == '0' else '0'
        (x.sim.nba if x.in_edge else x.sim.active).append((x.rst_s, val))


class SrcSc(Base):
    """AXI stream source + monitor against every ready schedule and user action."""

    def __init__(self, chooser, g=None, where='mid', actions=('send', 'pause'), which=(0, 1), lim=None, maxq=2, K=300, polarity=1,
                 ready='choose', script=None, txc='call'):
        g = g or Geo()
        x = self.common(chooser, g, where, actions, K, polarity)
        self.A = alphabet(g, which)
        self.c = c = g.chan(x, self.S, 'lib')
        c.listeners.append(self.on_bus)
        c.rst = self.chan_reset
        self.src = src = AxiStreamSource(self.bus(), x.clk, x.rst, *self.args, **g.kw())
        self.mon = AxiStreamMonitor(self.bus(), x.clk, x.rst, *self.args, **g.kw())
        self.lim = lim
        self.maxq = maxq
        if lim:
            if lim[0]:
                src.queue_occupancy_limit_frames = lim[0]
            if lim[1]:
                src.queue_occupancy_limit_bytes = lim[1]
        self.actor.attach('late')
        if 'tready' in self.S:
            self.rp = ReadyPeer(x, c, mode=ready)
        self.v = self.S['tvalid'] if 'tvalid' in self.S else None
        self.mr = Rx(self, self.mon, 'monitor')
        self.next = 0
        self.order = []         # outstanding frames: [kind, beats left, times completed, record]
        self.flushed = []
        self.was = '0'
        self.wait = 0
        self.idle_wait = 0
        self.cyc_sent = False
        self.txc = txc
        x.settle()
        x.state_roots = [src, self.mon]
        x.state_fn = self.st
        self.p_prev = False
        self.script = list(script) if script else None

    def st(self):
        return (self.next, self.ncr, tuple((o['k'], o['left'], o['done']) for o in self.order), self.mr.st(), self.was, self.wait,
                self.idle_wait, self.rstc, self.stuck, max(-1, self.exempt - self.x.cycles), self.c.prev, self.gen_st(),
                tuple((b.done, o['k']) for b, o in self.blocked), tuple(w.done for w in self.waiters), self.x.rst_s.val, self.loc)

    def on_bus(self, d):
        d = {k: ival(v, k) for k, v in d.items()}
        self.mr.beat(d, self.x.sim.time)
        need(self.order, 'a beat was transferred with nothing left to send: %s', d)
        o = self.order[0]
        exp = o['f'].beats(self.g)
        b = exp[len(exp) - o['left']]
        for k, val in d.items():
            need(val == b[k], 'beat %d of frame %d: %s is %#x on the bus instead of %#x', len(exp) - o['left'], o['k'], k, val, b[k])
        o['left'] -= 1
        if not o['left']:
            need(o['done'] == 1, 'last beat of a frame was transferred, completion was signalled %d times', o['done'])
            self.order.pop(0)

    def act(self):
        x, src = self.x, self.src
        A = self.actions
        opts = [None]
        unsent = src.count() + len([b for b, o in self.blocked if not b.done])
        for a in ('send', 'bsend'):
            if a in A and unsent < self.maxq:
                opts.append(a)
        for a in ('pause', 'clear', 'reset', 'creset', 'wait'):
            if a in A and not (a == 'creset' and not self.ncr) and not (a == 'clear' and (not src.count() or self.blocked)) and not (a == 'wait' and self.waiters):
                opts.append(a)
        if 'lreset' in A:
            opts += [('lreset', True), ('lreset', False)]
        opts += self.gen_opts(A)
        if self.script is not None:
            a = self.script.pop(0) if self.script else None
        else:
            a = opts[x.choose(len(opts), 'user', 1)]
        if isinstance(a, tuple) and a[0] == 'gen' or a == 'ungen':
            self.gen_act(a, src)
        elif a in ('send', 'bsend'):
            self.send(a)
        elif a == 'pause':
            src.pause = not src.pause
        elif a == 'clear':
            q = src.count()
            src.clear()
            need(src.count() == 0 and src.empty(), 'clear() left %d frames', src.count())
            for o in self.order[len(self.order) - q:]:
                self.gone(o, 'cleared')
            del self.order[len(self.order) - q:]
        elif a == 'reset':
            self.toggle_reset()
        elif isinstance(a, tuple) and a[0] == 'lreset':
            # (between clock edges: the monitor gets the same calls)
            if self.lreset(a[1], src, self.mon):
                self.resync()
                self.mr.flush()
        elif a == 'creset':
            self.loc = False
            self.exempt = x.cycles + (1 if x.in_edge else 0)
            src.assert_reset()
            self.resync()
            if self.where == 'mid':
                self.mon.assert_reset()
                self.mr.flush()
            self.ncr -= self.where != 'mid'
        elif a == 'wait':
            self.waiters.append(x.spawn(self.wait_idle()))

    def gone(self, o, why):
        if o['ev'] is not None:
            o['done'] = int(o['ev'].is_set())
        need(o['done'] == 1, 'a %s frame signalled completion %d times', why, o['done'])

    def send(self, a):
        x, src = self.x, self.src
        self.cyc_sent = True
        k = self.next
        f = self.A[k]
        o = dict(k=k, f=f, left=len(f.beats(self.g)), done=0, ev=None)
        if self.txc == 'event':
            o['ev'] = Event()
            fr = f.make(self.g, o['ev'])
        else:
            def cb(frame, o=o):
                o['done'] += 1
            fr = f.make(self.g, cb)
        full = self.full()
        need(src.full() == full, 'full() is %s with %d frames, %d bytes queued', src.full(), src.queue_occupancy_frames,
             src.queue_occupancy_bytes)
        if a == 'bsend':
            self.blocked.append((x.spawn(self.bsend(src.write if k % 2 else src.send, fr, o)), o))
        else:
            try:
                (src.write_nowait if k % 2 else src.send_nowait)(fr)
            except QueueFull:
                need(full, 'send_nowait refused a frame although the queue is not full')
                return
            need(not full, 'send_nowait accepted a frame beyond the limit')
            self.order.append(o)
        self.next = (self.next + 1) % len(self.A)

    def queued(self):
        n = self.src.count()
        return self.order[-n:] if n else []

    def full(self):
        if not self.lim:
            return False
        q = self.queued()
        return bool(self.lim[0] and len(q) > self.lim[0] or self.lim[1] and sum(len(o['f'].data) for o in q) > self.lim[1])

    async def wait_idle(self):
        await self.src.wait()
        need(self.src.idle() or self.cyc_sent, 'wait() returned while the source is not idle')

    async def bsend(self, send, fr, o):
        # a frame counts as given when send() returns (a sender that comes later may find a free place first)
        await send(fr)
        self.order.append(o)

    def resync(self):
        q = self.src.count()
        n = len(self.order) - q
        need(0 <= n <= 1, 'reset dropped %d frames: %d queued of %d outstanding', n, q, len(self.order))
        if n:
            self.gone(self.order.pop(0), 'flushed')

    def after_edge(self):
        x, src = self.x, self.src
        rst = self.in_reset()
        self.gen_check(src)
        vv = self.v.val if self.v is not None else '1'
        for o in self.order:
            if o['ev'] is not None:
                o['done'] = int(o['ev'].is_set())
            need(o['done'] <= 1, 'completion of a frame was signalled %d times', o['done'])
        if self.v is not None:
            new = vv == '1' and (self.was == '0' or self.c.fired)
            if new and self.p_prev and src.pause:
                raise Violation('a paused source started a new beat')
        self.was = vv
        for b in list(self.blocked):
            if b[0].done:
                self.blocked.remove(b)
        q = self.queued()
        need(src.empty() == (not q), 'empty() is %s with %d frames queued', src.empty(), len(q))
        need(src.queue_occupancy_frames == len(q), 'frame occupancy %d with %d frames queued', src.queue_occupancy_frames, len(q))
        nb = sum(len(o['f'].data) for o in q)
        need(src.queue_occupancy_bytes == nb, 'byte occupancy %d with %d bytes queued', src.queue_occupancy_bytes, nb)
        if self.lim and q:
            need(not (self.lim[0] and len(q) - 1 > self.lim[0] or self.lim[1] and nb - len(q[-1]['f'].data) > self.lim[1]),
                 'the source took a frame although its queue was beyond the limit: %d frames, %d bytes', len(q), nb)
        if not rst:
            self.stuck = min(self.stuck + 1, 3) if self.blocked and not self.full() else 0
            need(self.stuck < 3, '%d senders wait although only %d frames are queued', len(self.blocked), len(q))
        todo = len(self.order) + len(self.blocked)
        if self.v is None:
            return
        if not rst and self.order:
            # completion is signalled when (and not before) the last beat has been put on the bus
            o = self.order[0]
            lastb = vv == '1' and o['left'] == 1
            need(o['done'] == int(lastb), 'frame with %d beat(s) left, valid %s: completion signalled %d times', o['left'], vv,
                 o['done'])
            for o in self.order[1:]:
                need(o['done'] == 0, 'completion signalled for a frame still queued')
        if vv == '0' and todo and not src.pause and not self.p_prev and not rst and x.cycles > self.exempt + 1:
            self.wait += 1
            need(self.wait <= 3, 'a source that is neither paused nor reset holds %d frame(s) but does not assert valid', todo)
        else:
            self.wait = 0
        if not todo and vv == '0':
            self.idle_wait = min(self.idle_wait + 1, 3)
            if self.idle_wait > 2:
                need(src.idle(), 'idle() stays False with nothing queued or offered')
                need(all(w.done for w in self.waiters), 'wait() does not return although the source is idle')
        else:
            self.idle_wait = 0
            if not rst and todo:
                need(not src.idle(), 'idle() is True with %d frames outstanding', todo)
        for w in list(self.waiters):
            if w.done:
                self.waiters.remove(w)
        if rst:
            if self.rstc >= 1:
                need(vv == '0', 'valid is high while in reset')
            self.rstc = min(self.rstc + 1, 2)
        else:
            self.rstc = 0

    stuck = 0

    def run(self):
        x = self.x
        for k in range(self.K):
            r0 = x.rst_s.val
            self.actor.mid()
            if x.rst_s.val != r0 and x.rst_s.val == str(self.pol):
                self.resync()
                self.mr.flush()
            r1 = x.rst_s.val
            self.p_prev = bool(self.src.pause)
            self.cyc_sent = False
            x.cycle_begin()
            if x.rst_s.val != r1 and x.rst_s.val == str(self.pol):
                self.resync()
                self.mr.flush()
            self.after_edge()
            self.mr.drain()
            x.cycle_finish()
        x.close()
        return 'end'


def source(chooser, **k):
    return SrcSc(chooser, **k).run()


class SinkSc(Base):
    """AXI stream sink + monitor fed with frames beat by beat under every schedule."""

    def __init__(self, chooser, g=None, where='mid', actions=('recv', 'pause'), which=(0, 1), lim=None, maxq=1, K=300, polarity=1,
                 valid='choose', idle='0', compact=True, reads=(1, -1), maxrq=4, lazy=0):
        self.maxrq = maxrq
        self.lazy = lazy
        g = g or Geo()
        x = self.common(chooser, g, where, actions, K, polarity)
        self.A = alphabet(g, which)
        self.c = c = g.chan(x, self.S, 'env')
        c.listeners.append(self.on_bus)
        self.snk = snk = AxiStreamSink(self.bus(), x.clk, x.rst, *self.args, **g.kw())
        self.mon = AxiStreamMonitor(self.bus(), x.clk, x.rst, *self.args, **g.kw())
        self.lim, self.maxq = lim, maxq
        if lim:
            if lim[0]:
                snk.queue_occupancy_limit_frames = lim[0]
            if lim[1]:
                snk.queue_occupancy_limit_bytes = lim[1]
        self.actor.attach('late')
        self.compact = compact
        self.reads = reads
        self.idlev = idle
        self.vmode = valid
        self.v = self.S.get('tvalid')
        self.r = self.S.get('tready')
        if self.v is not None:
            self.v.val = '0'
        for k, s in self.S.items():
            if k not in ('tvalid', 'tready'):
                s.val = idle * s.width
        x.procs.append(self)
        self.next = 0
        self.beats = []         # beats of the current frame still to be offered
        self.cur = None
        x.settle()
        self.sr = Rx(self, snk, 'sink')
        self.mr = Rx(self, self.mon, 'monitor')
        self.pz = 0
        self.stall = 0
        self.quiet = 0
        self.was_full = False
        self.rwait = False
        self.mquiet = 0
        x.state_roots = [snk, self.mon]
        x.state_fn = self.st

    def st(self):
        return (self.next, len(self.beats), self.cur is not None, self.sr.st(), self.mr.st(), self.pz, self.stall, self.quiet,
                self.rstc, self.gen_st(), max(-1, self.exempt - self.x.cycles), tuple((b.done, k) for b, k in self.blocked),
                tuple(w[0].done for w in self.waiters), self.x.rst_s.val, self.loc, self.was_full, self.rwait, self.mquiet)

    def on_bus(self, d):
        if self.v is None and (self.in_reset() and self.rstc >= 1):
            return
        d = {k: ival(v, k) for k, v in d.items()}
        t = self.x.sim.time
        need(not self.in_reset() or self.rstc < 1, 'a sink in reset accepted a beat')
        if self.snk.pause:
            need(self.pz < 2, 'a paused sink accepted a beat %d edges after the pause was set', self.pz + 1)
        need(not self.was_full, 'a full sink accepted a beat')
        self.sr.beat(d, t)
        self.mr.beat(d, t)

    def edge(self, x):
        if self.c.fired:
            self.cur = None
        if self.cur is None:
            go = len(self.sr.held) < self.maxq + (2 if self.lim else 0) and len(self.sr.rq) < self.maxrq
            if go or self.beats or self.v is None:
                go = x.choose(2, 'valid', 1) == 0 if self.vmode == 'choose' else True
            if go:
                if not self.beats:
                    self.beats = list(self.A[self.next].beats(self.g))
                    self.next = (self.next + 1) % len(self.A)
                self.cur = self.beats.pop(0)
                if self.v is not None:
                    x.drive(self.v, 1)
                for k, s in self.S.items():
                    if k in self.cur:
                        x.drive(s, self.cur[k])
            elif self.v is not None:
                x.drive(self.v, 0)
                for k, s in self.S.items():
                    if k not in ('tvalid', 'tready'):
                        x.drive(s, self.idlev * s.width)

    def act(self):
        x, snk = self.x, self.snk
        opts = [None]
        A = self.actions
        if 'recv' in A and self.sr.held and snk.count():
            opts.append('recv')
        if 'brecv' in A and not self.blocked:
            opts.append('brecv')
        for a in ('rd', 'brd'):
            if a in A and not self.blocked:
                opts += [(a, n) for n in self.reads]
        for a in ('pause', 'clear', 'reset', 'creset', 'wait'):
            if a in A and not (a == 'clear' and (not snk.count() or self.blocked)) and not (a == 'wait' and self.waiters):
                opts.append(a)
        if 'lreset' in A:
            opts += [('lreset', True), ('lreset', False)]
        opts += self.gen_opts(A)
        a = opts[x.choose(len(opts), 'user', 1)]
        if a == 'ungen' or isinstance(a, tuple) and a[0] == 'gen':
            self.gen_act(a, snk)
        elif a == 'recv':
            self.sr.take(snk.recv_nowait(self.compact), self.compact)
        elif a == 'brecv':
            self.blocked.append((x.spawn(self.brecv()), a))
        elif isinstance(a, tuple) and a[0] == 'rd':
            n = snk.count()
            self.sr.took(snk.read_nowait(a[1]), a[1], n)
        elif isinstance(a, tuple) and a[0] == 'brd':
            self.blocked.append((x.spawn(self.bread(a[1])), a))
        elif a == 'pause':
            snk.pause = not snk.pause
            self.pz = 0
        elif a == 'clear':
            q = snk.count()
            snk.clear()
            need(snk.count() == 0 and snk.empty(), 'clear() left %d frames', snk.count())
            del self.sr.held[:q]
            self.was_full = False
        elif a == 'reset':
            self.toggle_reset()
        elif isinstance(a, tuple) and a[0] == 'lreset':
            if self.lreset(a[1], snk):
                self.sr.flush()
        elif a == 'creset':
            self.loc = False
            self.exempt = x.cycles + 1
            snk.assert_reset()
            self.sr.flush()
        elif a == 'wait':
            self.waiters.append((x.spawn(snk.wait()), a))
        if a is not None and a not in ('pause', 'reset', 'creset', 'wait') and a[0] != 'lreset':
            self.was_full = self.full()

    def full(self):
        if not self.lim:
            return False
        h = self.sr.held
        return bool(self.lim[0] and len(h) > self.lim[0] or
                    self.lim[1] and sum(len(f[0]) for f in h) * self.g.lanes > self.lim[1])

    async def brecv(self):
        self.sr.take(await self.snk.recv())

    async def bread(self, n):
        k = self.snk.count()
        now = bool(any(self.sr.size(h) for h in self.sr.held[:k]) or self.sr.rq)
        if not now:
            del self.sr.held[:k]        # frames without bytes: the reader goes on waiting
        self.rwait = not now
        d = await self.snk.read(n)
        self.rwait = False
        self.sr.took(d, n, k if now else len(self.sr.held))
        need(len(d) or n == 0, 'read(%d) returned no data', n)

    def after_edge(self):
        x, snk = self.x, self.snk
        rst = self.in_reset()
        self.gen_check(snk)
        full = self.full()
        for b in list(self.blocked):
            if b[0].done:
                self.blocked.remove(b)
        if self.blocked:
            b = self.blocked[0]
            while self.rwait and self.sr.held and not self.sr.size(self.sr.held[0]):
                self.sr.held.pop(0)
            need(not snk.count(), 'a blocked %s was not woken although %d frames are queued', b[1], snk.count())
        for w in list(self.waiters):
            if w[0].done:
                self.waiters.remove(w)
        if self.waiters and snk.count():
            raise Violation('wait() does not return although a frame is queued')
        self.sr.check()
        full = self.full()
        need(snk.full() == full, 'full() is %s with %d frames, %d bytes queued', snk.full(), snk.queue_occupancy_frames,
             snk.queue_occupancy_bytes)
        self.was_full = full
        self.pz = min(self.pz + 1, 3) if snk.pause and self.p_begin else 0
        if self.v is not None and not self.c.fired and self.cur is not None and not snk.pause and not self.p_begin and not full and not rst \
                and x.cycles > self.exempt + 2:
            self.stall += 1
            need(self.stall <= 4, 'a sink that is neither paused, reset nor full does not take the beat offered to it')
        else:
            self.stall = 0
        # active / idle
        if self.v is not None:
            if self.sr.part and not rst:
                need(not snk.idle(), 'idle() is True in the middle of a frame')
            # (a sink that sleeps while it is paused or full may keep `active` until it is woken)
            self.quiet = 0 if (self.c.fired or self.sr.part or snk.pause or full) else min(self.quiet + 1, 3)
            if self.quiet >= 3:
                need(snk.idle(), 'idle() is False with no frame in progress')
        if not rst and self.mr.part:
            need(not self.mon.idle(), 'idle() of the monitor is True in the middle of a frame')
        self.mquiet = 0 if self.c.fired or self.mr.part else min(self.mquiet + 1, 2)
        if self.mquiet >= 2:
            need(self.mon.idle(), 'idle() of the monitor is False with no frame in progress')
        if rst:
            if self.rstc >= 1 and self.r is not None:
                need(self.r.val == '0', 'ready is high while in reset')
            self.rstc = min(self.rstc + 1, 2)
        else:
            self.rstc = 0

    def run(self):
        x = self.x
        for k in range(self.K):
            r0 = x.rst_s.val
            self.actor.mid()
            if x.rst_s.val != r0 and x.rst_s.val == str(self.pol):
                self.sr.flush()
                self.mr.flush()
            r1 = x.rst_s.val
            self.p_begin = bool(self.snk.pause)
            x.cycle_begin()
            if x.rst_s.val != r1 and x.rst_s.val == str(self.pol):
                self.sr.flush()
                self.mr.flush()
            self.after_edge()
            if len(self.mr.held) > self.lazy:
                self.mr.drain(self.compact)
            else:
                self.mr.check()
            x.cycle_finish()
        x.close()
        return 'end'


def sink(chooser, **k):
    return SinkSc(chooser, **k).run()


# ---------------------------------------------------------------- end to end

class E2E:
    """Source and sink (and monitor) of the library on one bus, a whole list of frames, fixed pause patterns."""
    canon_leaf = True

    def __init__(self, chooser, inp, how='nowait', single=False):
        g, frames, sp, kp = inp
        x = self.x = Exec(chooser)
        self.g = g
        self.S = g.build(x)
        c = self.c = g.chan(x, self.S, 'lib')
        c.listeners.append(self.on_bus)
        bus = lambda: g.bus(x)      # noqa: E731
        self.src = AxiStreamSource(bus(), x.clk, x.rst, **g.kw())
        self.snk = AxiStreamSink(bus(), x.clk, x.rst, **g.kw())
        self.mon = AxiStreamMonitor(bus(), x.clk, x.rst, **g.kw())
        self.rs = Rx(self, self.snk, 'sink')
        self.rm = Rx(self, self.mon, 'monitor')
        self.frames = frames
        self.exp = [b for f in frames for b in f.beats(g)]
        self.nbeat = 0
        self.done = [0] * len(frames)
        x.settle()
        for comp, pat in ((self.src, sp), (self.snk, kp)):
            if pat:
                x.call(comp.set_pause_generator, _cyc(pat))
        self.fr = [f.make(g, self.cb(k)) for k, f in enumerate(frames)]
        if how in ('nowait', 'write'):
            for f, fr in zip(frames, self.fr):
                x.call(self.src.send_nowait if how == 'nowait' else self.src.write_nowait, fr)
                # the frame given is not modified, and may be used again
                want = f.make(g)
                for k in ('tdata', 'tkeep', 'tid', 'tdest', 'tuser'):
                    v = getattr(fr, k)
                    need(v == getattr(want, k), 'sending a frame changed its %s', k)
                    if isinstance(v, (list, bytearray)):
                        v[:] = [1] * (len(v) + 2)
                    elif v is not None:
                        setattr(fr, k, 0)
            self.snd = []
        else:
            # several senders at the same time
            self.src.queue_occupancy_limit_frames = 1
            self.snd = [x.start(self.src.send(fr)) for fr in self.fr]

    def cb(self, k):
        def f(frame):
            self.done[k] += 1
        return f

    def on_bus(self, d):
        d = {k: ival(v, k) for k, v in d.items()}
        need(self.nbeat < len(self.exp), 'more beats than the frames need: %s', d)
        b = self.exp[self.nbeat]
        for k, v in d.items():
            need(v == b[k], 'beat %d: %s is %#x on the bus instead of %#x', self.nbeat, k, v, b[k])
        self.nbeat += 1
        self.rs.beat(d, self.x.sim.time)
        self.rm.beat(d, self.x.sim.time)

    def run(self, compact=True, rd=(1, 3)):
        x = self.x
        n = 3 * len(self.exp) + 12
        for k in range(n):
            x.cycle()
            for r, e in zip((self.rm, self.rs), rd):
                if k % e == e - 1:
                    r.drain(compact)
        need(self.nbeat == len(self.exp), 'only %d of %d beats were transferred in %d cycles', self.nbeat, len(self.exp), n)
        self.rs.drain(compact)
        self.rm.drain(compact)
        need(self.done == [1] * len(self.done), 'completions signalled: %s', self.done)
        need(all(s.done and s.exc is None for s in self.snd), 'a blocking send did not return')
        need(self.src.idle() and self.src.empty() and self.snk.empty(), 'not idle at the end')
        x.close()
        return 'ok'


class _cyc:
    canon_leaf = True

    def __init__(self, pat):
        self.pat, self.i = pat, -1

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        return bool(self.pat[self.i % len(self.pat)])


def e2e(chooser, inp, how='nowait', compact=True, rd=(1, 3)):
    return E2E(chooser, inp, how).run(compact, rd)


def sub(sigs):
    """Every subset of the optional signals, with tvalid always present."""
    out = []
    o = [s for s in sigs if s != 'tvalid']
    for m in range(1 << len(o)):
        out.append(('tvalid',) + tuple(s for i, s in enumerate(o) if m >> i & 1))
    return out


def frameset(g, lens, forms=(0, 1, 2, 3)):
    """Frames of the given lengths, sidebands in every form (absent, scalar, per beat, short list)."""
    m = (1 << g.bs) - 1
    L = g.lanes
    out = []
    s = 0
    for n in lens:
        for fm in forms:
            s += 1
            data = [(s * 73 + 41 * k + (k * k) + 1) & m for k in range(n)]
            if fm == 0:
                out.append(F(data))
            elif fm == 1:
                out.append(F(data, None, s % 8, s % 4, s % 16))
            elif fm == 2:
                out.append(F(data, None, [(s + k // L) % 8 for k in range(n)], [(s + k // L) % 4 for k in range(n)],
                             [(s + k // L) % 16 for k in range(n)]))
            elif fm == 3:
                out.append(F(data, None, [(s + 1) % 8], [(s + 1) % 4], [(s + 3) % 16] * min(n, L)))
            elif fm == 4:
                out.append(F(data, [(k ^ s) & 1 for k in range(n)], True, None, s % 16))
    return out
