"""Canonical form of a live execution state.

The walk starts from the roots registered in x.state_roots (library components,
harness processes, monitors and oracles), the signals, and the scheduler's
waiting lists; it follows every attribute, container, bound method and suspended
coroutine frame (locals, instruction offset, value stack reached through
gc.get_referents, awaited object), numbering objects in visiting order, so that
two states get the same key exactly when they are isomorphic up to object
identity, absolute time and task ids.  Loggers, modules, classes, functions and
the cocotb machinery itself are leaves.
"""
import gc
import types
import logging
import collections
import weakref
import asyncio

from . import fakesim
from .core import cocotb, Exec       # noqa: F401
from cocotb.task import Task
from cocotb.triggers import Trigger, Event, GPITrigger
from cocotb.scheduler import Scheduler
from cocotb.handle import SimHandleBase

LEAF = (int, float, str, bytes, bool, type(None), complex)
OPAQUE = (logging.Logger, types.ModuleType, type, types.FunctionType, types.BuiltinFunctionType,
          types.CodeType, weakref.ref, property, types.GetSetDescriptorType, logging.Handler)

# attributes that carry only time stamps or identities
SKIP_ATTR = {'sim_time_start', 'sim_time_end', '_task_id', 'log', '_log', '__name__', '__qualname__', 'name',
             '_coro_name'}

_kind = {}


def classify(t):
    """1: string-like leaf, 2: typed scalar leaf, 3: named opaque, 4: opaque by type, 5: object."""
    if issubclass(t, (str, bytes)):
        return 1
    if issubclass(t, LEAF):
        return 2
    if issubclass(t, OPAQUE):
        return 3
    if getattr(t, 'canon_leaf', False) or issubclass(t, (fakesim.Sim, Scheduler, fakesim.Mod, Exec)):
        return 4
    return 5


def canon_state(x):
    c = Canon(x)
    return c.run()


class Canon:
    def __init__(self, x):
        self.x = x
        self.ids = {}
        self.out = []
        self.keep = []
        self.queue = collections.deque()

    def run(self):
        out = self.out
        x = self.x
        for s in x.sim.top.sigs.values():
            out.append(s.val)
        sched = x.sched
        for r in x.state_roots:
            self.ref(r)
        if x.state_fn is not None:
            self.ref(x.state_fn())
        for t, coros in sched._trigger2coros.items():
            if isinstance(t, GPITrigger):
                self.ref(t)
                self.ref(coros)
        out.append('|')
        for t, coros in sched._trigger2coros.items():
            if not isinstance(t, GPITrigger):
                self.ref(t)
                self.ref(coros)
        out.append(tuple((getattr(h, '_name', '?'), repr(v[1])) for h, v in sched._write_calls.items()))
        for tm, _, cb in sorted(x.sim.timed, key=lambda e: e[:2]):
            if cb.alive:
                out.append(('timed', tm - x.sim.time))
                self.ref(cb.arg)
        while self.queue:
            self.expand(self.queue.popleft())
        return hash(tuple(out)), len(out)

    def ref(self, o):
        out = self.out
        t = type(o)
        kind = _kind.get(t)
        if kind is None:
            kind = _kind[t] = classify(t)
        if kind == 1:
            out.append(o)
            return
        if kind == 2:
            out.append(t.__name__)
            out.append(o)
            return
        if kind == 3:
            out.append(getattr(o, '__qualname__', None) or t.__name__)
            return
        if kind == 4:
            out.append(t.__name__)
            return
        k = self.ids.get(id(o))
        if k is not None:
            out.append(('#', k))
            return
        k = len(self.ids)
        self.ids[id(o)] = k
        self.keep.append(o)
        out.append(('*', k))
        self.queue.append(o)

    def expand(self, o):
        out = self.out
        t = type(o)
        tn = t.__name__
        if t is list or t is tuple or t is collections.deque:
            out.append((tn, len(o)))
            for e in o:
                self.ref(e)
            return
        if t is dict or isinstance(o, dict):
            out.append((tn, len(o)))
            for k, v in o.items():
                self.ref(k)
                self.ref(v)
            if t is dict:
                return
        if t is set or t is frozenset:
            out.append((tn, len(o)))
            try:
                for e in sorted(o):
                    self.ref(e)
            except TypeError:
                for e in o:
                    self.ref(e)
            return
        if t is bytearray:
            out.append(bytes(o))
            return
        if getattr(t, 'canon_leaf', False):
            out.append(('leaf', tn))
            return
        if isinstance(o, Event):
            # triggers of waiters that are gone have no effect when the event fires
            live = self.x.sched._trigger2coros
            out.append(('Event', o._fired))
            for p in o._pending:
                if p in live:
                    self.ref(p)
            return
        if isinstance(o, (fakesim.Sig, SimHandleBase)):
            out.append(('sig', getattr(o, 'name', None) or getattr(o, '_name', None)))
            return
        if isinstance(o, (fakesim.Sim, Scheduler, fakesim.Mod)) or o is self.x:
            out.append(tn)
            return
        if isinstance(o, types.CoroutineType):
            f = o.cr_frame
            if f is None:
                out.append(('coro', o.__qualname__, 'done'))
                return
            out.append(('coro', o.__qualname__, f.f_lasti))
            self.refs(o)
            return
        if isinstance(o, types.GeneratorType):
            f = o.gi_frame
            out.append(('gen', o.__qualname__, f.f_lasti if f is not None else 'done'))
            if f is not None:
                self.refs(o)
            return
        if isinstance(o, types.FrameType):
            out.append(('frame', o.f_code.co_qualname, o.f_lasti))
            return
        if isinstance(o, types.MethodType):
            out.append(('meth', o.__func__.__qualname__))
            self.ref(o.__self__)
            return
        if isinstance(o, BaseException):
            out.append(('exc', tn, str(o)))
            return
        out.append(('obj', tn))
        done = False
        if tn.endswith('iterator') or tn in ('enumerate', 'zip', 'map', 'filter', 'count', 'cycle', 'repeat', 'chain'):
            try:
                r = o.__reduce__()
                for e in r[1:]:
                    self.ref(e)
                return
            except Exception:
                pass
        if isinstance(o, Task):
            out.append(('task', o._outcome is not None))
            self.ref(getattr(o, '_coro', None))
            self.ref(o._trigger)
            return
        for cls in t.__mro__:
            for a in cls.__dict__.get('__slots__', ()) if not isinstance(cls.__dict__.get('__slots__', ()), str) else (cls.__dict__['__slots__'],):
                if a.startswith('__') or a in SKIP_ATTR or a in ('cbhdl', '_callback'):
                    continue
                v = getattr(o, a, None)
                out.append(a)
                self.ref(v)
                done = True
        d = getattr(o, '__dict__', None)
        if d is not None:
            for a, v in d.items():
                if a in SKIP_ATTR:
                    continue
                out.append(a)
                self.ref(v)
            done = True
        if isinstance(o, (list, collections.deque, tuple)):
            for e in o:
                self.ref(e)
            done = True
        if not done:
            self.refs(o)

    def refs(self, o):
        for e in gc.get_referents(o):
            if e is self.x or isinstance(e, (types.FrameType,)):
                continue
            self.ref(e)
