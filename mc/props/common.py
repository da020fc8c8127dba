"""Scenario functions shared by the property modules."""
from ..runner import Cfg                                # noqa: F401
from .. import scn_chan, scn_axis, scn_master, scn_apbm, scn_slave, scn_apbs
from ..scn_axis import Geo, sub, frameset, ALLSIG        # noqa: F401
from ..scn_master import W, R                            # noqa: F401
from ..scn_slave import BW, BR                           # noqa: F401
from ..scn_apbs import AW_, AR_                          # noqa: F401


def ch_source(chooser, **k):
    return scn_chan.source(chooser, **k)


def ch_sink(chooser, **k):
    return scn_chan.sink(chooser, **k)


def as_source(ch, **k):
    return scn_axis.source(ch, **k)


def as_sink(ch, **k):
    return scn_axis.sink(ch, **k)


def as_e2e(ch, inp, **k):
    return scn_axis.e2e(ch, inp, **k)


def master(ch, **k):
    return scn_master.master(ch, **k)


def master_in(ch, inp, **k):
    return scn_master.master(ch, **k, **inp)


XA = ('max_execs', 'max_states', 'weight', 'bound', 'loglevel', 'conform', 'inputs', 'chunk')


def S(fn, name=None, **k):
    """A state-search configuration (to the fixpoint of reachable states unless capped)."""
    x = {a: k.pop(a) for a in XA if a in k}
    n = fn + ':' + (name or ','.join('%s=%s' % (a, '+'.join(map(str, v)) if isinstance(v, tuple) else v) for a, v in k.items()))
    return Cfg(n, fn, args=k, states=True, **x)


def E(fn, name, inputs, **k):
    """Every input under the given environment; choices, if any, enumerated completely or within a bound."""
    x = {a: k.pop(a) for a in XA if a in k}
    return Cfg(fn + ':' + name, fn, args=k, inputs=inputs, **x)


ALLCH = tuple(scn_chan.CH)


def apb(ch, **k):
    return scn_apbm.apb(ch, **k)


def apb_in(ch, inp, **k):
    return scn_apbm.apb(ch, **k, **inp)


def slave(ch, **k):
    return scn_slave.slave(ch, **k)


def slave_in(ch, inp, **k):
    return scn_slave.slave(ch, **k, **inp)


def apbslave(ch, **k):
    return scn_apbs.apbslave(ch, **k)


def apbslave_in(ch, inp, **k):
    return scn_apbs.apbslave(ch, **k, **inp)


def ram(ch, inp, **k):
    from .. import scn_ram
    return scn_ram.ram(ch, inp, **k)
