"""Runs the configurations of one property's check, writes evidence, reports violations."""
import sys
import os
import json
import time
import hashlib
import importlib
import multiprocessing as mp
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
WALL_SOFT = {'quick': 420, 'thorough': 3000}


class Cfg:
    """One configuration: a scenario function plus its arguments and exploration bounds.

    inputs: optional list; the first (free) choice of the scenario picks one, as
            keyword `inp`; long lists are split over the worker processes.
    """

    def __init__(self, name, fn, args=None, inputs=None, bound=10 ** 9, states=False, max_execs=None,
                 max_states=None, chunk=None, loglevel=None, weight=1, conform=0):
        self.name = name
        self.fn = fn
        self.args = args or {}
        self.inputs = inputs
        self.bound = bound
        self.states = states
        self.max_execs = max_execs
        self.max_states = max_states
        self.chunk = chunk
        self.loglevel = loglevel
        self.weight = weight
        self.conform = conform


def _scenario(mod, cfg, inputs):
    fn = getattr(mod, cfg.fn)
    if inputs is None:
        def sc(ch):
            return fn(ch, **cfg.args)
    else:
        def sc(ch):
            i = ch.choose(len(inputs), 'input', 0) if len(inputs) > 1 else 0
            return fn(ch, inp=inputs[i], **cfg.args)
    return sc


_CFGS = None
_MOD = None
_DEADLINE = None
_JOBCAP = None


def _job(j):
    ci, lo, hi, rev = j
    from . import explore, core, fakesim
    fakesim.NBA_REVERSED = rev or bool(os.environ.get('MC_NBA_REVERSED'))
    import logging
    cfg = _CFGS[ci]
    inputs = cfg.inputs[lo:hi] if cfg.inputs is not None else None
    core.set_log_level(cfg.loglevel if cfg.loglevel is not None else logging.WARNING)
    sc = _scenario(_MOD, cfg, inputs)
    t0 = time.time()
    try:
        ex = explore.Explorer(sc, bound=cfg.bound, states=cfg.states, max_execs=cfg.max_execs,
                              max_states=cfg.max_states, deadline=min(_DEADLINE, t0 + _JOBCAP))
        v = ex.explore()
        if v is not None:
            # the same choices must fail again before anything is believed
            again = explore.replay(sc, v['choices'])
            if again is None:
                return dict(ci=ci, lo=lo, rev=rev, error='violation did not reproduce: ' + v['message'])
            v['inputs'] = [repr(i) for i in inputs] if inputs is not None else None
            v['lo'] = lo
            v['hi'] = hi
        st = ex.st
        return dict(ci=ci, lo=lo, rev=rev, v=v, execs=st.execs, transitions=ex.transitions, states=st.states,
                    pruned=st.pruned, capped=st.capped, outcomes=sorted(map(str, st.outcomes))[:50], n_out=len(st.outcomes),
                    depth=st.maxdepth, pending=st.pending, wall=time.time() - t0)
    except BaseException as e:      # noqa: B902
        return dict(ci=ci, lo=lo, rev=rev, error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get('property') == prop and d.get('status') == 'known':
                out.append(d)
    return out


def run(prop, tier):
    global _CFGS, _MOD, _DEADLINE, _JOBCAP
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    _MOD = importlib.import_module('mc.props.' + prop.lower())
    _CFGS = _MOD.configs(tier)
    _DEADLINE = t0 + WALL_SOFT[tier]
    _JOBCAP = float(os.environ.get('MC_JOBCAP') or {'quick': 45, 'thorough': 1200}[tier])
    names = [c.name for c in _CFGS]
    assert len(set(names)) == len(names), 'duplicate configuration name'
    jobs = []
    for i, c in enumerate(_CFGS):
        if c.inputs is None:
            jobs.append((c.weight, (i, 0, 0, False)))
            if tier == 'thorough' and getattr(_MOD, 'SIM', True):
                # and with the signal updates of a time step in the other order
                jobs.append((c.weight - 0.5, (i, 0, 0, True)))
        else:
            n = len(c.inputs)
            ch = c.chunk or max(1, -(-n // (NPROC * 3)))
            for lo in range(0, n, ch):
                jobs.append((c.weight, (i, lo, min(n, lo + ch), False)))
    jobs.sort(key=lambda j: -j[0])
    jobs = [j for _, j in jobs]
    res = []
    with mp.get_context('fork').Pool(NPROC, maxtasksperchild=None) as pool:
        for r in pool.imap_unordered(_job, jobs, chunksize=1):
            res.append(r)
            if r.get('error') or r.get('v'):
                if r.get('error') or os.environ.get('VERIF_ALL') is None:
                    pool.terminate()
                    break
    errors = [r for r in res if r.get('error')]
    viols = [r for r in res if r.get('v')]
    known = known_findings(prop)
    for k in known:
        msg = _MOD.check_known(k) if hasattr(_MOD, 'check_known') else None
        if msg:
            print('KNOWN-FINDING: property=%s %s' % (prop, msg))
    per = {}
    for r in res:
        if r.get('error'):
            continue
        c = _CFGS[r['ci']]
        d = per.setdefault(c.name + (' (updates reversed)' if r['rev'] else ''), dict(executions=0, transitions=0, states=0, pruned=0, outcomes=set(), capped=None,
                                        max_choices=0, wall_s=0.0, bound=c.bound if c.bound < 10 ** 9 else 'unbounded',
                                        state_search=bool(c.states)))
        d['executions'] += r['execs']
        d['transitions'] += r['transitions']
        d['states'] += r['states']
        d['pruned'] += r['pruned']
        d['outcomes'] |= set(r['outcomes'])
        d['capped'] = d['capped'] or r['capped']
        d['max_choices'] = max(d['max_choices'], r['depth'])
        d['wall_s'] += r['wall']
    for d in per.values():
        d['n_outcomes'] = len(d['outcomes'])
        d['outcomes'] = sorted(d['outcomes'])[:4]
        d['wall_s'] = round(d['wall_s'], 2)
    conf = None
    if not errors and not viols and os.environ.get('VERIF_NOCONF') is None:
        conf = conformance(prop, tier)
    wall = time.time() - t0
    ex = sum(d['executions'] for d in per.values())
    capped = sorted(n for n, d in per.items() if d['capped'])
    samples = getattr(_MOD, 'SAMPLES', None) or []
    samples = samples + [dict(configuration=n, outcome=d['outcomes'][:1], executions=d['executions'])
                         for n, d in list(per.items())[:6]]
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(viols),
              coverage=dict(states=sum(d['states'] for d in per.values()),
                            transitions=sum(d['transitions'] for d in per.values()),
                            traces_validated_against_impl=conf['validated'] if conf else ex,
                            traces_note=NOTE_SIM if conf else NOTE_PURE,
                            executions_of_real_code=ex,
                            configurations=len(per), configurations_capped=capped,
                            exhaustive=not capped and not viols,
                            rule=RULE,
                            samples=samples, per_configuration=per, icarus_conformance=conf),
              assumptions=ASSUME + list(getattr(_MOD, 'ASSUME', [])))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d configurations, %d executions, %d transitions, %d states, %d capped, %.1fs' % (
        prop, tier, len(per), ex, ev['coverage']['transitions'], ev['coverage']['states'], len(capped), wall))
    if viols:
        viols.sort(key=lambda r: (len(r['v']['choices']), r['ci']))
        r = viols[0]
        c = _CFGS[r['ci']]
        v = r['v']
        rp = dict(property=prop, tier=tier, configuration=c.name, lo=v['lo'] if 'lo' in v else 0, hi=v.get('hi'), rev=r['rev'],
                  choices=v['choices'], labels=v['labels'], message=v['message'])
        if v.get('inputs'):
            i = v['choices'][0][0] if len(v['inputs']) > 1 else 0
            rp['input'] = v['inputs'][i]
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(rp, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s.json' % (prop, h))
        with open(path, 'w') as f:
            json.dump(rp, f, indent=1)
        print('configuration %s: %s' % (c.name, v['message'].strip()))
        if rp.get('input'):
            print('input: ' + rp['input'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for r in errors[:3]:
            print('ERROR in configuration %s: %s' % (_CFGS[r['ci']].name, r['error']))
        return 2
    return 0


NOTE_SIM = ('Every execution runs the code of /repo itself; the count is of executions repeated in Icarus Verilog, which '
            'binds the model of the simulator kernel to a real one.')
NOTE_PURE = 'No simulator is involved: every execution is a history replayed against the code of /repo itself.'
RULE = ('An execution is one complete run of the real /repo code under one assignment of every choice (inputs, peer '
        'behaviour, user actions, reset points); all assignments within the bound of the configuration are run. '
        'transitions = clock cycles executed (or operations, for code without a clock); states = distinct canonical '
        'object-graph states at cycle boundaries in configurations with state_search, in the others distinct '
        'valuations of all bus signals at cycle boundaries, per worker.')
ASSUME = ['cocotb 1.9 scheduler semantics on a kernel ordering of value changes, ReadWrite and ReadOnly regions as in '
          'Icarus Verilog (validated by replaying executions in Icarus)',
          'bounds per configuration as listed under per_configuration']


def conformance(prop, tier):
    try:
        from . import conform
    except ImportError:
        return None
    try:
        return conform.run_for(prop, tier, _CFGS)
    except Exception as e:      # the simulator replay never decides the property
        return dict(validated=0, error=str(e))


def replay_file(path):
    from . import explore, core, fakesim
    import logging
    rp = json.load(open(path))
    mod = importlib.import_module('mc.props.' + rp['property'].lower())
    cfg = [c for c in mod.configs(rp['tier']) if c.name == rp['configuration']][0]
    inputs = cfg.inputs[rp['lo']:rp['hi']] if cfg.inputs is not None else None
    fakesim.NBA_REVERSED = rp.get('rev', False)
    core.set_log_level(cfg.loglevel if cfg.loglevel is not None else logging.WARNING)
    msg = explore.replay(_scenario(mod, cfg, inputs), rp['choices'])
    if msg is None:
        print('replay: no violation')
        return 0
    print('replay: ' + msg)
    return 1


def selftest():
    from . import core
    import cocotb
    print('cocotb %s, code under test: %s' % (cocotb.__version__, core.REPO))
    return 0


def main(argv):
    if argv and argv[0] == 'replay':
        return replay_file(argv[1])
    if argv and argv[0] == 'selftest':
        return selftest()
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return run(prop, tier)
