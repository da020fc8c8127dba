"""The harness interface of core.Exec on a real simulator (Icarus Verilog, unmodified cocotb).

The scenario runs in its own thread with strict hand-off to the cocotb test: exactly one
of the two runs at any time.  Harness drives become nonblocking assignments in Verilog.
Only used to validate the model simulator (conform.py); never decides a property.
"""
import threading
import cocotb
from cocotb.triggers import Timer, NullTrigger
from cocotb.utils import get_sim_time

PER = 10000             # simulation steps (ps) per clock cycle; rising edge at the end, falling edge PER/2 after it
CUR = None              # (module handle, {name: width})


class RealSig:
    def __init__(self, dut, name, width):
        self.name = name
        self.width = width
        self.h = getattr(dut, name)._handle
        self.nxt = getattr(dut, name + '_xn')._handle
        self.tgl = getattr(dut, name + '_xt')._handle
        self.pn = getattr(dut, name + '_xp')._handle
        self.pe = getattr(dut, name + '_xe')._handle
        self.t = 0

    @property
    def val(self):
        return self.h.get_signal_val_binstr().lower()

    @val.setter
    def val(self, v):
        # initial values are those of the Verilog declarations
        pass

    @property
    def i(self):
        try:
            return int(self.val, 2)
        except ValueError:
            return None

    def put(self, v):
        self.h.set_signal_val_binstr(0, v)

    def nba(self, v):
        self.nxt.set_signal_val_binstr(0, v)
        self.t ^= 1
        self.tgl.set_signal_val_binstr(0, str(self.t))


class Act:
    def __init__(self, f):
        self.f = f

    def append(self, sv):
        self.f(sv[0], sv[1])


class Top:
    pass


class RealSim:
    def __init__(self, x):
        self.x = x
        self.top = Top()
        self.top.sigs = {}
        self.time = 0
        self.active = Act(lambda s, v: s.put(v))
        self.nba = Act(lambda s, v: s.nba(v))
        self.timed = []

    def run_active(self):
        self.x.to(self.x.now() + 2)


class RealExec:
    def __init__(self, chooser=None, record=False):
        self.ch = chooser
        dut, self.widths, run = CUR
        self.run = run
        self.dut = dut
        self.base = get_sim_time('step')
        self.sim = RealSim(self)
        self.sim.time = self.base
        self.crashes = []
        self.cycles = 0
        self.tasks = []
        self.procs = []
        self.monitors = []
        self.after = []
        self.clk_s = self.sig('clk')
        self.rst_s = self.sig('rst')
        self.state_roots = []
        self.in_edge = False
        self.state_fn = None
        self.trace = []
        self.driven = []
        run.x = self
        dut.xen._handle.set_signal_val_binstr(0, '1')

    def sig(self, name, width=1, val=None):
        s = self.sim.top.sigs[name] = RealSig(self.dut, name, width)
        return s

    clk = property(lambda self: self.dut.clk)
    rst = property(lambda self: self.dut.rst)

    def choose(self, n, label=None, cost=1):
        return 0 if n <= 1 else self.ch.choose(n, label, cost)

    # ---- hand-off
    def now(self):
        return get_sim_time('step')

    def to(self, t):
        self.run.ask(('to', t))

    def kick(self):
        self.run.ask(('null',))

    def start(self, coro):
        from .core import Result
        r = Result(self)
        r.task = cocotb.scheduler.start_soon(r.wrap(coro))
        self.kick()
        self.tasks.append(r)
        return r

    def spawn(self, coro):
        from .core import Result
        r = Result(self)
        r.task = cocotb.scheduler.start_soon(r.wrap(coro))
        return r

    def call(self, fn, *a, **k):
        out = []

        async def w():
            out.append(fn(*a, **k))
        r = self.start(w())
        for n in range(4):
            if not r.done:
                self.kick()
        if r.exc is not None:
            raise r.exc
        return out[0]

    # ---- time
    def drive(self, sig, val):
        v = format(val, '0%db' % sig.width) if isinstance(val, int) else val
        sig.pn.set_signal_val_binstr(0, v)
        sig.pe.set_signal_val_binstr(0, '1')
        self.driven.append(sig)

    def drive_now(self, sig, val):
        sig.put(format(val, '0%db' % sig.width) if isinstance(val, int) else val)
        self.sim.run_active()

    def settle(self):
        self.kick()
        self.sim.run_active()

    def cycle(self, n=1):
        for _ in range(n):
            self.cycle_begin()
            self.cycle_finish()

    def cycle_begin(self):
        t = self.base + (self.cycles + 1) * PER
        self.to(t - 2)
        self.sim.time = t
        self.trace.append([s.val for s in self.sim.top.sigs.values()])
        for m in self.monitors:
            m.sample(self)
        for p in self.procs:
            p.edge(self)
        self.in_edge = True
        self.to(t + 2)
        self.in_edge = False
        for s in self.driven:
            s.pe.set_signal_val_binstr(0, '0')
        self.driven = []
        for a in self.after:
            a.settled(self)
        self.cycles += 1

    def cycle_finish(self):
        t = self.base + self.cycles * PER + PER // 2
        self.to(t + 2)
        self.sim.time = t
        if self.ch is not None:
            self.ch.cycle_end(self)

    def _chk(self):
        pass

    def close(self):
        pass


class Run:
    """One replay: the cocotb test calls main(); the scenario runs in a thread."""

    def __init__(self, dut, widths, scenario, chooser):
        self.dut, self.widths, self.scenario, self.chooser = dut, widths, scenario, chooser
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.cmd = None
        self.out = None
        self.err = None
        self.x = None

    def ask(self, cmd):
        self.cmd = cmd
        self.back.release()
        self.go.acquire()

    def thread(self):
        global CUR
        self.go.acquire()
        CUR = (self.dut, self.widths, self)
        try:
            self.out = self.scenario(self.chooser)
        except BaseException as e:              # noqa: B902
            self.err = e
        self.cmd = ('end',)
        self.back.release()

    async def main(self):
        threading.Thread(target=self.thread, daemon=True).start()
        while True:
            self.go.release()
            self.back.acquire()
            c = self.cmd
            if c[0] == 'end':
                break
            if c[0] == 'null':
                await NullTrigger()
                await NullTrigger()
            else:
                d = c[1] - get_sim_time('step')
                if d > 0:
                    await Timer(d, 'step')
