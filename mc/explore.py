"""Exhaustive exploration: deviation-bounded enumeration and explicit-state search.

A *scenario* is a function run(x_chooser) that performs one complete execution,
asking `ch.choose(n, label, cost)` at every nondeterministic point, and raises
Violation when the property fails.  The explorer runs it once for every
assignment of choices within the deviation bound (depth-first, replaying the
prefix); with `states=True` an execution is cut when it reaches a cycle boundary
whose canonical state was explored already with at least the same remaining
budget.
"""
import gc
import heapq
import os
import time
import signal
import traceback
from .core import Prune, Violation, HarnessError, Hang

INF = 10 ** 9


class Chooser:
    """Replays a prefix of choices, then answers 0; records every point."""

    def __init__(self, prefix=(), bound=INF, seen=None, canon=None, ex=None):
        self.prefix = prefix
        self.points = []            # (n, chosen, cost, label)
        self.spent = 0
        self.bound = bound
        self.seen = seen
        self.canon = canon
        self.ex = ex
        self.pruned = False

    def choose(self, n, label=None, cost=1):
        i = len(self.points)
        if i < len(self.prefix):
            c, n0 = self.prefix[i]
            if n0 != n:
                raise HarnessError('replay diverged at choice %d: %s options, recorded %s (%s)' % (i, n, n0, label))
            if c >= n:
                raise HarnessError('replay: choice out of range')
        else:
            c = 0
        if c:
            self.spent += cost
        self.points.append((n, c, cost, label))
        return c

    def cycle_end(self, x):
        if self.ex is None:
            return
        self.ex.transitions += 1
        if self.seen is None:
            self.ex.vals.add(hash(tuple([s.val for s in x.sim.top.sigs.values()])))
            return
        if len(self.points) < len(self.prefix):
            return
        k = self.canon(x)
        left = min(self.bound - self.spent, 10 ** 6)
        old = self.seen.get(k)
        if old is not None and old >= left:
            self.pruned = True
            raise Prune()
        self.seen[k] = left


    def step(self, key=None):
        """One operation of a scenario without a clock; key: canonical state reached."""
        if self.ex is None:
            return
        self.ex.transitions += 1
        if key is None:
            return
        if self.seen is None:
            self.ex.vals.add(hash(key))
            return
        if len(self.points) < len(self.prefix):
            return
        left = min(self.bound - self.spent, 10 ** 6)
        old = self.seen.get(key)
        if old is not None and old >= left:
            self.pruned = True
            raise Prune()
        self.seen[key] = left


class Stats:
    def __init__(self):
        self.execs = 0
        self.transitions = 0
        self.states = 0
        self.pruned = 0
        self.capped = None
        self.outcomes = set()
        self.maxdepth = 0
        self.pending = 0


class Explorer:
    def __init__(self, scenario, bound=INF, states=False, canon=None, max_execs=None, deadline=None,
                 max_states=None, hang_cpu=10.0):
        self.scenario = scenario
        self.bound = bound
        self.seen = {} if states else None
        if states and canon is None:
            from .canon import canon_state
            canon = canon_state
        self.canon = canon
        self.max_execs = max_execs
        self.max_states = max_states
        self.deadline = deadline
        self.transitions = 0
        self.vals = set()
        self.st = Stats()
        self.hang_cpu = hang_cpu
        self.violation = None

    def run_one(self, prefix):
        ch = Chooser(prefix, self.bound, self.seen, self.canon, self)
        out = None
        err = None
        old = signal.signal(signal.SIGVTALRM, _on_hang)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.hang_cpu)
        try:
            out = self.scenario(ch)
        except Prune:
            self.st.pruned += 1
        except Violation as e:
            err = str(e)
        except Hang:
            err = 'the code under test did not return to the simulator (endless loop without progress)'
        except (HarnessError, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            err = 'unexpected %s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-4:]))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
        if err is None and not ch.pruned and len(ch.points) < len(prefix):
            raise HarnessError('replay ended before the recorded prefix (%d < %d)' % (len(ch.points), len(prefix)))
        return ch, out, err

    def explore(self, root=()):
        """Explore the whole subtree below `root`.  Returns None or (choices, labels, message)."""
        st = self.st
        # cyclic garbage (dead coroutines) is only collected between executions
        gc.disable()
        stack = [tuple(root)]
        bfs = self.seen is not None
        tick = 0
        if bfs:
            stack = [(len(root), 0, tuple(root))]
        while stack:
            if self.max_execs is not None and st.execs >= self.max_execs:
                st.capped = 'execution cap %d' % self.max_execs
                break
            if self.max_states is not None and self.seen is not None and len(self.seen) >= self.max_states:
                st.capped = 'state cap %d' % self.max_states
                break
            if self.deadline is not None and time.time() > self.deadline:
                st.capped = 'time cap'
                break
            prefix = heapq.heappop(stack)[2] if bfs else stack.pop()
            ch, out, err = self.run_one(prefix)
            st.execs += 1
            if st.execs % 64 == 0:
                gc.collect()
            if out is not None:
                st.outcomes.add(out)
            if err is not None:
                self.violation = dict(choices=[[c, n] for n, c, _, _ in ch.points],
                                      labels=[str(l) for _, _, _, l in ch.points], message=err)
                st.pending = len(stack)
                break
            pts = ch.points
            st.maxdepth = max(st.maxdepth, len(pts))
            spent = 0
            for i, (n, c, cost, _) in enumerate(pts):
                if i >= len(prefix):
                    if spent + cost <= self.bound:
                        base = tuple((p[1], p[0]) for p in pts[:i])
                        for alt in range(n - 1, 0, -1):
                            if bfs:
                                tick += 1
                                heapq.heappush(stack, (i + 1, tick, base + ((alt, n),)))
                            else:
                                stack.append(base + ((alt, n),))
                if c:
                    spent += cost
        st.pending = len(stack)
        st.transitions = self.transitions
        st.states = len(self.seen) if self.seen is not None else len(self.vals)
        return self.violation


def _on_hang(sig, frame):
    raise Hang()


def replay(scenario, choices):
    """Run one recorded execution; returns the violation message or None."""
    ex = Explorer(scenario)
    ch, out, err = ex.run_one(tuple((c, n) for c, n in choices))
    return err
