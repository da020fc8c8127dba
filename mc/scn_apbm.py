"""Scenarios for the APB master against an arbitrary legal APB slave."""
from .core import Exec, Violation, Event
from .bfm import apb_sigs, ival, mkbus, viap
from .scn_chan import Actor, GenMix
from .scn_master import Op, Bad, Stop, rbyte
from cocotbext.axi import ApbBus, ApbMaster

ALLCAT = ('data', 'proto', 'attr', 'resp', 'once', 'idle', 'live', 'reset', 'pause')


class ASc(GenMix):
    canon_leaf = True

    def __init__(self, chooser, ops, dw=32, aw=16, opt=('pprot', 'pslverr'), issue='all', where='mid', rwhere='mid', wait='never', codes=(0,),
                 checks=ALLCAT, actions=(), K=600, polarity=1, max_resets=1, idle_ready=0, junk=1, pause0=False, via='prefix'):
        x = self.x = Exec(chooser)
        self.bw = dw // 8
        self.checks, self.codes, self.K, self.pol = checks, codes, K, polarity
        self.actions, self.issue, self.max_resets = actions, issue, max_resets
        self.waitm, self.idle_ready, self.junk = wait, idle_ready, junk
        x.rst_s.val = str(1 - polarity)
        d = self.d = apb_sigs(x, viap('m', via), dw, aw, opt)
        self.actor = Actor(x, where, self.act)
        # the reset is driven by somebody else
        self.ractor = Actor(x, rwhere if 'reset' in actions else None, self.ract)
        self.actions = actions = tuple(a for a in actions if a != 'reset')
        self.explore = bool(issue == 'choose' or actions or self.ractor.where)
        self.actor.attach('early')
        self.ractor.attach('early')
        kw = {} if polarity else dict(reset_active_level=False)
        self.m = m = ApbMaster(mkbus(x, ApbBus, viap('m', via), via), x.clk, x.rst, **kw)
        if pause0:
            m.pause = True
        self.actor.attach('late')
        self.ractor.attach('late')
        self.lib = [d[k] for k in ('psel', 'penable', 'paddr', 'pwrite', 'pwdata', 'pstrb', 'pprot') if k in d]
        for k in ('pready', 'prdata', 'pslverr'):
            if k in d:
                d[k].val = '0' * d[k].width
        self.ops = [Bad(i, s) if 'bad' in s else Op(i, s, self.bw, True) for i, s in enumerate(ops)]
        self.queue = []
        self.nissued = 0
        self.phase = 'idle'
        self.held = None            # outputs of the transfer in progress
        self.serial = 0
        self.code = 0
        self.rdy = 0                # pready driven for the next edge
        self.nwait = 0
        self.waiters = []
        self.quiet = 0
        self.rstc = 0
        self.resets = 0
        self.fired = False
        x.monitors.append(self)
        x.procs.append(self)
        x.settle()
        x.state_roots = [m]
        x.state_fn = self.st

    def in_reset(self):
        return self.x.rst_s.val == str(self.pol)

    def need(self, cat, cond, msg, *a, fatal=False):
        if cond:
            return True
        if cat in self.checks:
            raise Violation(msg % a if a else msg)
        if fatal:
            raise Stop()
        return False

    def st(self):
        return (tuple([o.st() for o in self.ops]), self.nissued, tuple([o.i for o in self.queue]), self.phase, self.held, self.serial % 16, self.code,
                self.rdy, self.nwait, tuple([w.done for w in self.waiters]), self.quiet, self.rstc, self.resets, self.x.rst_s.val, self.gen_st(), self.pz)

    # ---- monitor: values just before a clock edge
    def sample(self, x):
        d = self.d
        N = self.need
        sel, en = d['psel'].val, d['penable'].val
        N('proto', sel in '01' and en in '01', 'psel %s penable %s', sel, en, fatal=True)
        self.fired = False
        if self.in_reset():
            if self.rstc >= 1:
                N('reset', sel == '0' and en == '0', 'psel %s penable %s while in reset', sel, en)
            self.phase = 'idle'
            self.held = None
            return
        N('proto', not (en == '1' and sel == '0'), 'penable is high without psel', fatal=True)
        if self.phase in ('idle', 'done'):
            if sel == '0':
                self.phase = 'idle'
                self.held = None
                return
            N('proto', en == '0', 'penable is high in the first cycle of a transfer', fatal=True)
            self.phase = 'setup'
            self.held = tuple([s.val for s in self.lib if s is not d['penable']])
            self.started()
            return
        # second or later cycle of a transfer
        now = tuple([s.val for s in self.lib if s is not d['penable']])
        N('proto', sel == '1' and en == '1', 'psel %s penable %s in the access phase of a transfer', sel, en, fatal=True)
        N('proto', now == self.held, 'outputs change during a transfer: %s -> %s', self.held, now, fatal=True)
        self.phase = 'access'
        if d['pready'].val == '1':
            self.phase = 'done'
            self.fired = True
            self.transfer()

    def started(self):
        """First (setup) cycle of a transfer."""
        N = self.need
        d = self.d
        if self.pz >= 2:
            N('pause', False, 'a transfer starts although the master is paused')
        op = None
        addr = ival(d['paddr'].val, 'paddr')
        for o in self.queue:
            if o.n == 0 and not o.total and o.addr % self.bw and addr == o.addr:
                # an operation of no bytes may still make one transfer of nothing
                o.total = 1
                o.beats = [(addr, 0, self.bw - 1)]
            if o.beats_req < o.total:
                op = o
                break
        N('data', op is not None, 'a transfer to 0x%x is started although no operation needs one', addr, fatal=True)
        self.op = op
        k = op.beats_req
        op.beats_req += 1
        a = op.beats[k][0]
        N('data', addr == a, 'operation %d: transfer %d addresses 0x%x instead of 0x%x', op.i, k, addr, a)
        self.base = addr // self.bw * self.bw
        wr = d['pwrite'].val == '1'
        N('data', wr == (op.kind == 'w'), 'operation %d: pwrite is %s', op.i, d['pwrite'].val, fatal=True)
        if 'pprot' in d:
            p = ival(d['pprot'].val, 'pprot')
            N('attr', p == op.attr['prot'], 'operation %d: pprot is %d instead of %d', op.i, p, op.attr['prot'])
        strb = ival(d['pstrb'].val, 'pstrb')
        if not wr:
            N('attr', strb == 0, 'operation %d: pstrb is 0x%x in a read', op.i, strb)
            return
        data = ival(d['pwdata'].val, 'pwdata')
        for l in range(self.bw):
            if strb >> l & 1:
                N('data', op.got < op.n, 'operation %d: more than the %d bytes given are written', op.i, op.n, fatal=True)
                b = data >> 8 * l & 0xff
                N('data', self.base + l == op.adr[op.got] and b == op.data[op.got], 'operation %d: 0x%02x written at 0x%x instead of 0x%02x at 0x%x',
                  op.i, b, self.base + l, op.data[op.got], op.adr[op.got])
                op.got += 1
        n = sum(1 for b in op.beat_of if b <= k)
        N('data', op.got == n, 'operation %d: %d of %d bytes written after transfer %d', op.i, op.got, n, k)

    def transfer(self):
        op = self.op
        op.nresp += 1
        op.codes.append(self.code)
        op.serials.append(self.serial)
        self.serial += 1

    # ---- environment
    def edge(self, x):
        d = self.d
        # the cycle that begins now is an access cycle if a setup cycle or an unfinished access cycle just ended
        acc = self.phase in ('setup', 'access') and not self.in_reset()
        if acc:
            m = self.waitm
            if m == 'never':
                r = 1
            elif m == 'choose':
                r = 1 - x.choose(2, 'wait')
            elif isinstance(m, int):
                r = int(self.nwait >= m)
            else:
                r = m[x.cycles % len(m)]
            self.nwait = 0 if r or self.phase == 'setup' and not isinstance(m, int) else min(self.nwait + 1, 9)
        else:
            r = self.idle_ready
            self.nwait = 0
        self.rdy = r
        x.drive(d['pready'], r)
        if acc and r:
            c = self.codes
            if isinstance(c, str):
                self.code = x.choose(2, 'slverr')
            else:
                self.code = c[self.serial % len(c)]
            v = 0
            for l in range(self.bw):
                v |= rbyte(self.base + l, self.serial) << 8 * l
            err = self.code
        else:
            v = ((1 << 8 * self.bw) - 1) // 255 * 0xd7 if self.junk else 0
            err = 1 if self.junk else 0
        if self.junk == 2 and acc and r and self.d['pwrite'].val == '1':
            x.drive(d['prdata'], 'x' * d['prdata'].width)
        else:
            x.drive(d['prdata'], v)
        if 'pslverr' in d:
            x.drive(d['pslverr'], err)

    pz = 0
    # ---- user

    def ract(self):
        x = self.x
        if (self.in_reset() or self.resets < self.max_resets) and x.choose(2, 'reset'):
            v = '0' if x.rst_s.val == '1' else '1'
            if v == str(self.pol):
                self.resets += 1
            (x.sim.nba if x.in_edge else x.sim.active).append((x.rst_s, v))

    def act(self):
        x, m = self.x, self.m
        iss = self.issue
        if self.nissued < len(self.ops):
            if iss == 'all':
                while self.nissued < len(self.ops):
                    self.give()
            elif iss == 'chain':                # each as soon as the user learns that the one before has finished
                if not self.nissued:
                    self.give()
            elif iss == 'serial':
                if all(o.done for o in self.ops[:self.nissued]):
                    self.give()
            elif isinstance(iss, tuple):
                while self.nissued < len(self.ops) and x.cycles >= iss[self.nissued]:
                    self.give()
        if iss == 'choose' or self.actions:
            opts = [None]
            if iss == 'choose' and self.nissued < len(self.ops):
                opts = ['give', None]
            for a in self.actions:
                if a == 'pause':
                    opts.append(a)
                elif a == 'wait' and not self.waiters:
                    opts.append(a)
            opts += self.gen_opts(self.actions)
            a = opts[x.choose(len(opts), 'user')]
            if isinstance(a, tuple) or a == 'ungen':
                self.gen_act(a, m)
            elif a == 'give':
                self.give()
            elif a == 'pause':
                m.pause = not m.pause
            elif a == 'wait':
                self.waiters.append(x.spawn(self.waiter()))

    async def waiter(self):
        await self.m.wait()
        if not self.m.idle() and 'idle' in self.checks:
            raise Violation('wait() returned while operations are outstanding')

    def give(self):
        i = self.nissued
        self.nissued += 1
        op = self.ops[i]
        m = self.m
        if isinstance(op, Bad):
            op.give(self.x, m, self.checks)
            return
        kw = {k: v for k, v in op.kw.items() if k == 'prot'}
        arg = op.n
        if op.kind == 'w':
            arg = op.buf = bytearray(op.data) if op.i % 3 != 1 else op.data
        name = 'write' if op.kind == 'w' else 'read'
        if op.form == 'coro':
            op.h = self.x.spawn(self.coro(op, getattr(m, name), arg, kw))
            return
        op.issued = True
        self.queue.append(op)
        try:
            self.call(op, m, name, arg, kw)
        finally:
            # the caller may use its buffer again once the operation has been issued
            op.reuse()
        if self.issue == 'chain':
            self.x.spawn(self.chain_on(op))

    def call(self, op, m, name, arg, kw):
        try:
            if op.form == 'init':
                op.h = getattr(m, 'init_' + name)(op.addr, arg, **kw)
            else:
                ev = Event()
                op.h = getattr(m, 'init_' + name)(op.addr, arg, event=ev, **kw)
                if op.h is not ev:
                    raise Violation('init_%s did not return the event given' % name)
        except Violation:
            raise
        except Exception as e:
            raise Violation('operation %d raised %r' % (op.i, e))

    async def coro(self, op, fn, arg, kw):
        op.issued = True
        self.queue.append(op)
        v = await fn(op.addr, arg, **kw)
        self.chain()
        return v

    def chain(self):
        if self.issue == 'chain' and self.nissued < len(self.ops):
            self.give()

    async def chain_on(self, op):
        await op.h.wait()
        self.chain()

    def result(self, op):
        if op.h is None:
            return False, None
        if op.form == 'coro':
            if op.h.exc is not None:
                raise Violation('operation %d raised %r' % (op.i, op.h.exc))
            return op.h.done, op.h.value
        return op.h.is_set(), op.h.data

    def complete(self, op):
        return op.issued and op.nresp >= op.total

    def collect(self):
        for o in self.ops:
            if isinstance(o, Bad):
                o.settled()
        for op in list(self.queue):
            fin, v = self.result(op)
            if not fin:
                if self.complete(op) and op is self.queue[0] and not self.in_reset():
                    op.age += 1
                    self.need('live', op.age <= 4, 'operation %d (%s 0x%x, %d bytes) is not reported although it was transferred', op.i, op.kind, op.addr,
                              op.n, fatal=True)
                if op.flushed:
                    op.age += 1
                    self.need('reset', op.age <= 2, 'operation %d hangs after a reset', op.i, fatal=True)
                continue
            op.done = True
            self.queue.remove(op)
            if v is None:
                self.need('reset' if self.resets else 'once', op.flushed, 'operation %d finished without a result', op.i, fatal=True)
                continue
            if op.flushed == 2:
                self.need('reset', False, 'operation %d, pending when reset was asserted, finished with %r', op.i, v, fatal=True)
            self.need('once', self.complete(op), 'operation %d is reported before its last transfer', op.i, fatal=True)
            N = self.need
            N('resp', v.address == op.addr, 'operation %d: address reported as 0x%x', op.i, v.address)
            bad = 'pslverr' in self.d and any(op.codes)
            N('resp', int(v.resp) == (2 if bad else 0), 'operation %d reports response %d, error signal %s', op.i, int(v.resp), op.codes)
            if op.kind == 'w':
                N('resp', v.length == op.n, 'operation %d: length reported as %d', op.i, v.length)
                N('data', op.got == op.n, 'operation %d: %d of %d bytes written', op.i, op.got, op.n)
            else:
                want = bytes(rbyte(a, op.serials[k]) for a, k in zip(op.adr, op.beat_of))
                N('data', bytes(v.data) == want and bytes(v) == want, 'operation %d (read 0x%x, %d bytes): data %s instead of %s', op.i, op.addr, op.n,
                  bytes(v.data).hex(), want.hex())

    def reset_begins(self):
        for op in self.queue:
            fin, v = self.result(op)
            op.age = 0
            op.flushed = 1 if self.complete(op) else 2

    def settled(self):
        m = self.m
        self.collect()
        self.gen_check(m)
        pend = len(self.queue)
        self.need('idle', m.idle() == (not pend), 'idle() is %s with %d operations outstanding', m.idle(), pend)
        for w in list(self.waiters):
            if w.done:
                self.waiters.remove(w)
        if self.waiters and not pend:
            self.need('idle', False, 'wait() does not return although nothing is outstanding', fatal=True)
        rst = self.in_reset()
        if rst:
            self.rstc = min(self.rstc + 1, 2)
            self.need('reset', self.rstc < 2 or self.d['psel'].val == '0' and self.d['penable'].val == '0', 'psel or penable is high in reset')
        else:
            self.rstc = 0
        self.pz = min(self.pz + 1, 3) if m.pause and self.p_begin else 0
        if rst or not pend or m.pause or self.p_begin or self.gen is not None or self.d['psel'].val == '1' or self.fired:
            self.quiet = 0
        else:
            self.quiet += 1
        self.need('live', self.quiet <= 4, 'the master is stuck with %d operations outstanding although nothing holds it up', pend, fatal=True)

    def run(self):
        x = self.x
        done_c = 0
        explore = self.explore
        for k in range(self.K):
            r0 = self.in_reset()
            self.actor.mid()
            self.ractor.mid()
            if self.in_reset() and not r0:
                self.reset_begins()
            r0 = self.in_reset()
            self.p_begin = bool(self.m.pause)
            x.cycle_begin()
            if self.in_reset() and not r0:
                self.reset_begins()
            self.settled()
            x.cycle_finish()
            if not explore and self.nissued == len(self.ops) and not self.queue:
                done_c += 1
                if done_c > 3:
                    break
        else:
            if not explore:
                self.need('live', False, 'operations do not complete within %d cycles', self.K, fatal=True)
        x.close()
        return 'done%d' % len([o for o in self.ops if o.done])


def apb(chooser, **k):
    try:
        return ASc(chooser, **k).run()
    except Stop:
        return 'other'
