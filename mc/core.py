"""Execution harness: real cocotb + real /repo code on the fake simulator."""
import os
import sys
import logging
import warnings
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
sys.dont_write_bytecode = True
for _p in (SITE, REPO):
    if _p in sys.path:
        sys.path.remove(_p)
    sys.path.insert(0, _p)

# in conformance runs (conform.py) this module runs inside a real simulation
REAL = bool(os.environ.get('MC_REAL'))
if not REAL:
    from . import fakesim                                # noqa: E402
    fakesim.install()
warnings.simplefilter('ignore')
import cocotb                                            # noqa: E402
import cocotb.handle                                     # noqa: E402
import cocotb.triggers as ctrig                          # noqa: E402
import cocotb.outcomes                                   # noqa: E402
from cocotb.scheduler import Scheduler                   # noqa: E402
from cocotb.task import Task                             # noqa: E402
from cocotb.triggers import RisingEdge, FallingEdge, Event, Timer   # noqa: E402,F401

logging.getLogger('cocotb').setLevel(logging.WARNING)
logging.getLogger('cocotb').addHandler(logging.NullHandler())
logging.getLogger('cocotb').propagate = False
TRACE = None            # conformance: list that collects the executions started
# cocotb creates log records lazily; nothing is ever printed by the harness
warnings.simplefilter('ignore')


# cocotb_bus looks signals up with an O(n) case-insensitive search; try the exact name first
import cocotb_bus.bus                                    # noqa: E402
_orig_ci = cocotb_bus.bus.Bus._caseInsensGetattr


def _fast_ci(self, obj, attr):
    try:
        return getattr(obj, attr)
    except AttributeError:
        return _orig_ci(self, obj, attr)


cocotb_bus.bus.Bus._caseInsensGetattr = _fast_ci


def set_log_level(level):
    logging.getLogger('cocotb').setLevel(level)


class Violation(Exception):
    """The property under check does not hold on this execution."""


class Prune(Exception):
    """This execution reached a state that was explored already."""


class Hang(BaseException):
    """The code under test did not return to the simulator."""


class HarnessError(Exception):
    """The harness itself is broken (never a verdict about the code)."""


class _Dummy(Task):
    """Plays the part of the cocotb test that owns the simulation."""


async def _forever():
    await Event().wait()


class _Kick(ctrig.Trigger):
    """A trigger that only the harness fires."""

    def prime(self, callback):
        self.primed = True


class _Sched(Scheduler):
    def __init__(self, x):
        super().__init__(handle_result=lambda t: None)
        self.x = x

    def _abort_test(self, exc):
        self.x.crashes.append(exc)


def _reset_gpi_triggers():
    for c in (ctrig.RisingEdge, ctrig.FallingEdge, ctrig.Edge, ctrig.Join):
        c._ParametrizedSingleton__instances.clear()
    for t in (Scheduler._next_time_step, Scheduler._read_write, Scheduler._read_only, Scheduler._timer1):
        t.primed = False
        t.cbhdl = None


HALF = 5


class Exec:
    """One execution.  Time advances one clock cycle at a time with cycle()."""

    def __init__(self, chooser=None, record=False):
        self.ch = chooser
        self.sim = fakesim.Sim()
        fakesim.set_current(self.sim)
        cocotb.handle._handle2obj.clear()
        _reset_gpi_triggers()
        self.crashes = []
        self.sched = _Sched(self)
        cocotb.scheduler = self.sched
        self._keep = Task(_forever())
        self.sched._test = self._keep
        self.cycles = 0
        self.tasks = []
        self.procs = []         # harness processes: objects with .edge(x) called before each posedge
        self.monitors = []      # objects with .sample(x) called with the pre-edge values
        self.after = []         # objects with .settled(x) called when the timestep of the posedge is over
        if record:
            self.sim.changes = []
        self.clk_s = self.sim.sig('clk', 1, 0)
        self.rst_s = self.sim.sig('rst', 1, 0)
        self.dut = cocotb.handle.SimHandle(self.sim.top, 'top')
        self.state_roots = []
        self.in_edge = False
        self.state_fn = None    # extra (harness) state
        self.trace = None
        if TRACE is not None:
            self.trace = []
            TRACE.append(self)

    # ---- construction
    def sig(self, name, width=1, val=None):
        return self.sim.sig(name, width, val)

    @property
    def clk(self):
        return self.dut.clk

    @property
    def rst(self):
        return self.dut.rst

    def choose(self, n, label=None, cost=1):
        if n <= 1:
            return 0
        return self.ch.choose(n, label, cost)

    def start(self, coro):
        """Run a coroutine as a cocotb task; returns a Result."""
        r = Result(self)
        r.task = self.sched.start_soon(r.wrap(coro))
        self.kick()
        self.tasks.append(r)
        return r

    def spawn(self, coro):
        """Start a coroutine from code that already runs inside the scheduler."""
        r = Result(self)
        r.task = self.sched.start_soon(r.wrap(coro))
        return r

    def kick(self):
        """Let queued tasks run now, as if a coroutine of the user were running."""
        if not self.sched._pending_coros:
            return

        async def w():
            await t
        # a reaction of the scheduler to a trigger of its own
        t = _Kick()
        self.sched._schedule(self.sched.create_task(w()))
        self.sched._react(t)

    def call(self, fn, *a, **k):
        """Call a plain function the way user code inside the simulation would."""
        out = []

        async def w():
            out.append(fn(*a, **k))
        r = self.start(w())
        if not r.done:
            raise HarnessError('call did not run')
        if r.exc is not None:
            raise r.exc
        return out[0]

    # ---- time
    def drive(self, sig, val):
        """Nonblocking assignment by a harness process in this timestep."""
        self.sim.nba.append((sig, format(val, '0%db' % sig.width) if isinstance(val, int) else val))

    def drive_now(self, sig, val):
        """Change a signal right now (at an instant between clock edges) and settle."""
        self.sim.active.append((sig, format(val, '0%db' % sig.width) if isinstance(val, int) else val))
        self.sim.run_active()
        self._chk()

    def settle(self):
        """Finish the current timestep (time 0, or an instant between edges)."""
        self.kick()
        self.sim.run_active()
        self._chk()

    def cycle(self, n=1):
        for _ in range(n):
            self._cycle()

    def _cycle(self):
        self.cycle_begin()
        self.cycle_finish()

    def cycle_begin(self):
        """Up to the end of the timestep of the next rising clock edge."""
        sim = self.sim
        t = sim.time - sim.time % (2 * HALF) + 2 * HALF
        sim.run_until(t)
        if self.trace is not None:
            self.trace.append([s.val for s in sim.top.sigs.values()])
        for m in self.monitors:
            m.sample(self)
        for p in self.procs:
            p.edge(self)
        self.in_edge = True
        sim.active.append((self.clk_s, '1'))
        sim.run_active()
        self.in_edge = False
        self._chk()
        for a in self.after:
            a.settled(self)
        self.cycles += 1

    def cycle_finish(self):
        """Falling edge; stands between two rising edges afterwards."""
        sim = self.sim
        sim.run_until(sim.time + HALF)
        sim.active.append((self.clk_s, '0'))
        sim.run_active()
        self._chk()
        if self.ch is not None:
            self.ch.cycle_end(self)

    def _chk(self):
        if self.crashes:
            e = self.crashes[0]
            raise Violation('a background task of the code under test died with %s: %s\n%s' % (
                type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-3:])))

    def close(self):
        """Drop the whole execution without running any finaliser into the scheduler."""
        fakesim.set_current(None)
        cocotb.handle._handle2obj.clear()


class Result:
    """Outcome of one user coroutine."""
    canon_leaf = True

    def __init__(self, x):
        self.x = x
        self.done = False
        self.value = None
        self.exc = None
        self.t_done = None
        self.cyc_done = None
        self.n_done = 0

    async def wrap(self, coro):
        try:
            self.value = await coro
        except Violation:
            raise
        except Exception as e:
            self.exc = e
        self.done = True
        self.n_done += 1
        self.t_done = self.x.sim.time
        self.cyc_done = self.x.cycles


if REAL:
    from .realsim import RealExec as Exec                # noqa: E402,F401,F811
