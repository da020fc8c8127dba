"""cocotb test module of the conformance runs: replays the executions listed in MC_JOB in Icarus Verilog."""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import cocotb                                            # noqa: E402
from mc import core, realsim, runner                     # noqa: E402
from mc.explore import Chooser                           # noqa: E402
from mc.conform import Cut                               # noqa: E402

JOB = json.load(open(os.environ['MC_JOB']))
MOD = importlib.import_module('mc.props.' + JOB['prop'].lower())
CFGS = {c.name: c for c in MOD.configs(JOB['tier'])}
OUT = open(JOB['out'], 'w')


def make(i, j):
    async def t(top):
        cfg = CFGS[j['cfg']]
        inputs = cfg.inputs[j['lo']:j['lo'] + 1] if cfg.inputs is not None else None
        ch = Cut(Chooser(tuple((c, n) for c, n in j['choices'])), j['cycles'])
        core.set_log_level(40)
        r = realsim.Run(getattr(top, 'e%d' % i), None, runner._scenario(MOD, cfg, inputs), ch)
        await r.main()
        core.set_log_level(40)
        OUT.write(json.dumps(dict(i=i, trace=r.x.trace if r.x else None, out=str(r.out),
                                  err='%s: %s' % (type(r.err).__name__, r.err) if r.err is not None else None)) + '\n')
        OUT.flush()
    t.__name__ = t.__qualname__ = 'e%d' % i
    t.__module__ = __name__
    return cocotb.test()(t)


for _i, _j in enumerate(JOB['jobs']):
    globals()['e%d' % _i] = make(_i, _j)
