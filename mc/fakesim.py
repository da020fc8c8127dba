"""A pure-Python stand-in for cocotb's GPI (the simulator side of cocotb).

Everything above the GPI is the real thing: the real cocotb 1.9 scheduler,
triggers, handles, queues and tasks run the real code of /repo.  Only the
simulator kernel -- signals, value-change callbacks, the active / ReadWrite /
ReadOnly regions of a timestep, timed callbacks -- is replaced by this module,
so that an explorer can own every source of nondeterminism and run thousands of
complete executions per second.  `conform.py` replays executions recorded here
against Icarus Verilog + the unmodified cocotb and compares waveforms.
"""
import os
import sys
import types
import heapq
from collections import deque

# GPI object types (values are only compared with each other)
CONST = dict(UNKNOWN=0, MEMORY=1, MODULE=2, NET=3, PARAMETER=4, REG=5, NETARRAY=6,
             ENUM=7, STRUCTURE=8, REAL=9, INTEGER=10, STRING=11, GENARRAY=12,
             OBJECTS=1, DRIVERS=2, LOADS=3)


class Cb:
    __slots__ = ('fn', 'arg', 'alive', 'sig', 'edge')

    def __init__(self, fn, arg):
        self.fn = fn
        self.arg = arg
        self.alive = True
        self.sig = None
        self.edge = 0

    def deregister(self):
        self.alive = False
        if self.sig is not None:
            try:
                self.sig.cbs.remove(self)
            except ValueError:
                pass


class Sig:
    """GPI handle of one signal; the value is a binary string (01xz)."""
    __slots__ = ('name', 'width', 'val', 'cbs', 'sim', 'trace', '__weakref__')

    def __init__(self, sim, name, width, val=None):
        self.sim = sim
        self.name = name
        self.width = width
        if val is None:
            self.val = 'z' * width
        elif isinstance(val, int):
            self.val = format(val, '0%db' % width)
        else:
            self.val = val
        self.cbs = []

    # -- GPI interface used by cocotb.handle
    def get_signal_val_binstr(self):
        return self.val

    def set_signal_val_int(self, action, v):
        if v < 0:
            v += 1 << self.width
        self.sim.active.append((self, format(v, '0%db' % self.width)))
        self.sim.on_write(self)

    def set_signal_val_binstr(self, action, s):
        self.sim.active.append((self, s.lower()))
        self.sim.on_write(self)

    def get_name_string(self):
        return self.name

    def get_type_string(self):
        return 'GPI_REGISTER'

    def get_type(self):
        return CONST['REG']

    def get_const(self):
        return False

    def get_num_elems(self):
        return self.width

    def get_range(self):
        return (self.width - 1, 0)

    def get_indexable(self):
        return True

    def get_definition_name(self):
        return ''

    def get_definition_file(self):
        return ''

    def get_handle_by_name(self, n):
        return None

    def iterate(self, m):
        return iter(())

    # -- harness interface
    @property
    def i(self):
        """Integer value, or None when it contains x/z."""
        try:
            return int(self.val, 2)
        except ValueError:
            return None

    def __repr__(self):
        return '%s=%s' % (self.name, self.val)


class Mod:
    """GPI handle of the top level module."""

    def __init__(self, sim, name='top'):
        self.sim = sim
        self.name = name
        self.sigs = {}

    def get_name_string(self):
        return self.name

    def get_type_string(self):
        return 'GPI_MODULE'

    def get_type(self):
        return CONST['MODULE']

    def get_const(self):
        return False

    def get_num_elems(self):
        return 0

    def get_range(self):
        return None

    def get_indexable(self):
        return False

    def get_definition_name(self):
        return self.name

    def get_definition_file(self):
        return ''

    def get_handle_by_name(self, n):
        return self.sigs.get(n)

    def iterate(self, m):
        return iter(list(self.sigs.values()) if m == CONST['OBJECTS'] else ())


class Sim:
    """One simulation kernel instance (one execution)."""

    def __init__(self):
        self.time = 0
        self.active = deque()
        self.rw = []
        self.ro = []
        self.nts = []
        self.timed = []
        self.seq = 0
        self.top = Mod(self)
        self.writers = None     # optional: set of signal names written by cocotb
        self.changes = None     # optional waveform recorder: list of (time, name, val)
        self.inactive = deque()     # events in the inactive region of this timestep (#0)
        self.nba = deque()          # nonblocking assignments of the harness
        self.init = None            # values of all signals before anything ran

    def on_write(self, sig):
        if self.writers is not None:
            self.writers.add(sig.name)

    def sig(self, name, width=1, val=None):
        s = Sig(self, name, width, val)
        self.top.sigs[name] = s
        return s

    # -- kernel
    def apply(self, sig, val):
        old = sig.val
        if old == val:
            return
        sig.val = val
        if self.changes is not None:
            self.changes.append((self.time, sig.name, val))
        if sig.cbs:
            o = old[-1]
            n = val[-1]
            for cb in list(sig.cbs):
                if not cb.alive:
                    continue
                e = cb.edge
                if e == 3 or (e == 1 and n == '1' and o != '1') or (e == 2 and n == '0' and o != '0'):
                    cb.fn(cb.arg)

    def run_active(self):
        """Run the current timestep to the end of the ReadOnly region."""
        active = self.active
        if self.init is None:
            self.init = [(s.name, s.width, s.val) for s in self.top.sigs.values()]
        while True:
            while active:
                self.apply(*active.popleft())
            if self.nba:
                active.extend(reversed(self.nba) if NBA_REVERSED else self.nba)
                self.nba.clear()
                continue
            if self.rw:
                cbs, self.rw = self.rw, []
                for cb in cbs:
                    if cb.alive:
                        cb.fn(cb.arg)
                continue
            break
        while self.ro:
            cbs, self.ro = self.ro, []
            for cb in cbs:
                if cb.alive:
                    cb.fn(cb.arg)
        if self.active:
            raise RuntimeError('write during the read-only region')

    def run_until(self, t):
        """Run all timed callbacks up to and including time t, then stand at t."""
        while self.timed and self.timed[0][0] <= t:
            tt = self.timed[0][0]
            if tt > self.time:
                self._advance(tt)
            while self.timed and self.timed[0][0] == tt:
                cb = heapq.heappop(self.timed)[2]
                if cb.alive:
                    cb.fn(cb.arg)
            self.run_active()
        if t > self.time:
            self._advance(t)

    def _advance(self, t):
        self.time = t
        if self.nts:
            cbs, self.nts = self.nts, []
            for cb in cbs:
                if cb.alive:
                    cb.fn(cb.arg)


_cur = None
# Verilog leaves the order open in which the processes of a time step run, and with it the order of
# their nonblocking assignments: the order of the calls, or the reverse
NBA_REVERSED = bool(os.environ.get('MC_NBA_REVERSED'))


def set_current(sim):
    global _cur
    _cur = sim


def install():
    """Insert this module as cocotb.simulator (before cocotb is imported)."""
    if 'cocotb.simulator' in sys.modules:
        return
    m = types.ModuleType('cocotb.simulator')
    for k, v in CONST.items():
        setattr(m, k, v)

    def get_sim_time():
        t = _cur.time if _cur is not None else 0
        return (t >> 32, t & 0xffffffff)

    def get_precision():
        return -9

    def register_timed_callback(t, fn, arg):
        cb = Cb(fn, arg)
        _cur.seq += 1
        heapq.heappush(_cur.timed, (_cur.time + t, _cur.seq, cb))
        return cb

    def register_value_change_callback(h, fn, edge, arg):
        cb = Cb(fn, arg)
        cb.sig = h
        cb.edge = edge
        h.cbs.append(cb)
        return cb

    def register_rwsynch_callback(fn, arg):
        cb = Cb(fn, arg)
        _cur.rw.append(cb)
        return cb

    def register_readonly_callback(fn, arg):
        cb = Cb(fn, arg)
        _cur.ro.append(cb)
        return cb

    def register_nextstep_callback(fn, arg):
        cb = Cb(fn, arg)
        _cur.nts.append(cb)
        return cb

    m.get_sim_time = get_sim_time
    m.get_precision = get_precision
    m.register_timed_callback = register_timed_callback
    m.register_value_change_callback = register_value_change_callback
    m.register_rwsynch_callback = register_rwsynch_callback
    m.register_readonly_callback = register_readonly_callback
    m.register_nextstep_callback = register_nextstep_callback
    m.get_simulator_product = lambda: 'verif model simulator'
    m.get_simulator_version = lambda: '1'
    m.get_root_handle = lambda name=None: _cur.top
    m.stop_simulator = lambda: None
    m.log_level = lambda lvl: None
    m.is_running = lambda: True
    sys.modules['cocotb.simulator'] = m
