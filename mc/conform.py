"""Conformance of the model simulator (fakesim) to a real one.

Complete executions of the scenarios, with their choices recorded, are repeated on Icarus
Verilog under unmodified cocotb; the value of every signal before every rising clock edge
must be the same.  The result goes into the evidence; it never decides a property.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from .explore import Chooser
from .core import Prune, Violation

HERE = os.path.dirname(os.path.abspath(__file__))
N = dict(quick=10, thorough=60)
CYC = 60


class Cut:
    """Ends an execution after some cycles."""

    def __init__(self, ch, cycles):
        self.ch = ch
        self.choose = ch.choose
        self.cycles = cycles
        self.steps = 0

    def cycle_end(self, x):
        if x.cycles >= self.cycles:
            raise Prune()

    def step(self, key=None):
        self.steps += 1
        if self.steps >= self.cycles:
            raise Prune()


class Mixed(Chooser):
    """A fixed mixture of prompt and other answers."""

    def __init__(self, k):
        super().__init__()
        self.r = k * 7919

    def choose(self, n, label=None, cost=1):
        c = 0
        if self.r:
            self.r = (self.r * 1103515245 + 12345) & 0x7fffffff
            v = self.r >> 8
            if v & 1:
                c = (v >> 1) % n
        self.points.append((n, c, cost, label))
        return c


def record(mod, cfg, lo, k, rev=False):
    from . import core, runner, fakesim
    inputs = cfg.inputs[lo:lo + 1] if cfg.inputs is not None else None
    core.TRACE = []
    ch = Mixed(k)
    keep, fakesim.NBA_REVERSED = fakesim.NBA_REVERSED, rev
    out = err = None
    try:
        out = runner._scenario(mod, cfg, inputs)(Cut(ch, CYC))
    except Prune as e:
        err = 'Prune: %s' % e
    except Exception as e:                      # outside the domain: not replayed
        err = None
        return None
    finally:
        xs, core.TRACE = core.TRACE, None
        fakesim.set_current(None)
        fakesim.NBA_REVERSED = keep
    if len(xs) != 1 or len(xs[0].trace) < 3:
        return None
    x = xs[0]
    return dict(cfg=cfg.name, lo=lo, k=k, choices=[[c, n] for n, c, _, _ in ch.points], cycles=CYC, sigs=x.sim.init,
                trace=x.trace, names=list(x.sim.top.sigs), out=str(out), err=err)


def verilog(jobs):
    v = ['`timescale 1ps/1ps']
    for i, j in enumerate(jobs):
        ports, body = [], []
        for n, w, val in j['sigs']:
            ports.append('output reg [%d:0] %s' % (w - 1, n))
            if n == 'clk':
                body.append("initial clk = 0;")
            else:
                body.append("initial %s = %d'b%s;" % (n, w, val))
                # harness processes: nonblocking assignments at the clock edge, or within its timestep
                body.append('always @(posedge clk) if (%s_xe) %s <= %s_xp;' % (n, n, n))
                body.append('always @(%s_xt) %s <= %s_xn;' % (n, n, n))
            for s, sw in (('xn', w), ('xp', w), ('xt', 1), ('xe', 1)):
                ports.append('output reg [%d:0] %s_%s' % (sw - 1, n, s))
            body.append('initial %s_xe = 0;' % n)
        v.append('module m%d(%s, output reg xen);\ninitial xen = 0;' % (i, ', '.join(ports)))
        v += body
        v.append('always @(posedge xen) begin #10000; forever begin clk = 1; #5000; clk = 0; #5000; end end\nendmodule')
    v.append('module top();')
    v += ['m%d e%d();' % (i, i) for i in range(len(jobs))]
    v.append('endmodule')
    return '\n'.join(v) + '\n'


def run_for(prop, tier, cfgs):
    import importlib
    mod = importlib.import_module('mc.props.' + prop.lower())
    n = N[tier]
    cand = [c for c in cfgs if c.inputs is None or len(c.inputs)]
    step = max(1, -(-len(cand) // n))
    jobs = []
    for k, c in enumerate(cand[::step][:n]):
        lo = len(c.inputs) // 2 if c.inputs is not None else 0
        for m in (0, k + 1):
            j = record(mod, c, lo, m)
            if j is not None and (not m or j['choices']):
                jobs.append(j)
    if not jobs:
        return None
    res = simulate(prop, tier, jobs)
    if res['failed']:
        # Verilog leaves the order of the updates of unrelated signals in a time step open: the other order
        by = {c.name: c for c in cand}
        again = [record(mod, by[jobs[i]['cfg']], jobs[i]['lo'], jobs[i]['k'], True) for i in res['failed']]
        if all(a is not None and a['sigs'] == jobs[i]['sigs'] for a, i in zip(again, res['failed'])):
            r2 = simulate(prop, tier, again)
            for k in ('validated', 'cycles'):
                res[k] += r2[k]
            res['validated_with_reversed_update_order'] = r2['validated']
            res['mismatches'] = r2['mismatches']
    del res['failed']
    return res


def simulate(prop, tier, jobs):
    from . import core
    tmp = tempfile.mkdtemp(prefix='mcconf')
    try:
        with open(tmp + '/top.v', 'w') as f:
            f.write(verilog(jobs))
        with open(tmp + '/job.json', 'w') as f:
            json.dump(dict(prop=prop, tier=tier, out=tmp + '/out', jobs=[{k: j[k] for k in ('cfg', 'lo', 'choices', 'cycles')} for j in jobs]), f)
        env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ.get('PATH', ''), PYTHONDONTWRITEBYTECODE='1')
        subprocess.run(['iverilog', '-g2012', '-s', 'top', '-o', tmp + '/top.vvp', tmp + '/top.v'], env=env, check=True, timeout=60)
        q = lambda *a: subprocess.run(['cocotb-config', *a], env=env, capture_output=True, text=True, timeout=60).stdout.strip()   # noqa: E731
        lib, pylib = q('--lib-dir'), q('--libpython')
        env.update(MC_REAL='1', MC_JOB=tmp + '/job.json', PYTHONPATH=core.REPO + os.pathsep + HERE + os.pathsep + os.path.dirname(HERE),
                   MODULE='conform_sim', TOPLEVEL='top', TOPLEVEL_LANG='verilog', LIBPYTHON_LOC=pylib,
                   COCOTB_RESULTS_FILE=tmp + '/results.xml', PYGPI_PYTHON_BIN='/opt/venv/bin/python', PYTHONHASHSEED='0',
                   COCOTB_LOG_LEVEL='CRITICAL')
        r = subprocess.run(['vvp', '-M', lib, '-m', 'libcocotbvpi_icarus', tmp + '/top.vvp'], env=env, cwd=tmp,
                           capture_output=True, text=True, timeout=60 if tier == 'quick' else 600)
        res = {}
        if os.path.exists(tmp + '/out'):
            for line in open(tmp + '/out'):
                d = json.loads(line)
                res[d['i']] = d
        if os.environ.get('MC_CONF_DEBUG'):
            print(r.stdout[-5000:], r.stderr[-3000:])
    finally:
        shutil.rmtree(tmp)
    good, bad, failed = 0, [], []
    cyc = 0
    for i, j in enumerate(jobs):
        d = res.get(i)
        why = None
        if d is None:
            why = 'not run'
        elif (d['err'] or '').split(':')[0] != (j['err'] or '').split(':')[0]:
            why = 'ended with %s instead of %s' % (d['err'], j['err'])
        else:
            a, b = j['trace'], d['trace']
            for c, (u, w) in enumerate(zip(a, b)):
                if u != w:
                    k = [x for x in range(len(u)) if u[x] != w[x]][0]
                    why = 'cycle %d: %s is %s in the model and %s in Icarus' % (c, j['names'][k], u[k], w[k])
                    break
            if why is None and len(a) != len(b):
                why = '%d cycles instead of %d' % (len(b), len(a))
        if why is None:
            good += 1
            cyc += len(j['trace'])
        else:
            failed.append(i)
            bad.append('%s: %s' % (j['cfg'], why))
    return dict(validated=good, replayed=len(jobs), cycles=cyc, mismatches=bad[:5], failed=failed,
                what='executions repeated in Icarus Verilog with every signal equal before every rising clock edge')
