"""C18: AXI slave reads return exactly the target data."""
import logging
from .common import *                                   # noqa: F401,F403
from .common import S, E, BW, BR
from .. import slavedom as D, scn_slave

KIND = 'r'
CHK = ('data', 'resp', 'once', 'order', 'live')
AL, CH, L = 'always', 'choose', 'lazy'
# relative schedules: (name, arguments)
SCHED = [
    ('fast', dict(valid=(AL,) * 3, ready=(AL,) * 2)),
    ('slow resp', dict(valid=(AL,) * 3, ready=((0, 0, 0, 0, 1),) * 2)),
    ('gappy', dict(valid=((1, 0, 0), (0, 1), (1, 0, 0)), ready=((0, 1),) * 2, delay=(0, 1, 2))),
]
WSCHED = [
    ('data first', dict(rel='data_first', valid=(AL,) * 3, ready=(AL,))),
    ('addr first', dict(rel='addr_first', valid=(AL, (0, 0, 1), AL), ready=((1, 0),))),
    ('serial', dict(serial=True)),
]


def configs(tier):
    q = tier == 'quick'
    out = D.scale(KIND, CHK)
    for dw in (8, 16, 32) + (() if q else (64, 128)):
        fam = [
            ('incr', D.incr(KIND, dw, (1, 2, 3, 4, 5) if not q else (1, 2, 4), strbs=D.STRB if not q else D.STRB[:4])),
            ('fixed', D.fixed(KIND, dw, lens=(1, 2, 16) if q else (1, 2, 3, 5, 16))),
            ('wrap', D.wraps(KIND, dw)),
        ]
        if KIND == 'w':
            fam.append(('strobes', D.strobes(dw, 1) + (D.strobes(dw, 2) if dw <= (16 if q else 32) else [])))
        sch = SCHED + (WSCHED if KIND == 'w' else SCHED[:0])
        for fn, inp in fam:
            for sn, kw in sch:
                if q and dw != 32 and sn in ('slow resp', 'addr first', 'serial'):
                    continue
                out.append(E('slave_in', '%s dw=%d %s' % (fn, dw, sn), inp, half=KIND, dw=dw, checks=CHK, weight=4, **kw))
        out.append(E('slave_in', 'edges dw=%d' % dw, D.edges(KIND, dw), half=KIND, dw=dw, checks=CHK, K=1400, weight=4))
    # RAMs, the combined class, missing signals, logging
    small = D.incr(KIND, 32, (1, 3), strbs=D.STRB[:2]) + D.fixed(KIND, 32, (2,), D.STRB[:2]) + D.wraps(KIND, 32)
    for kind in ('ram', 'slave'):
        for half in (KIND, 'rw'):
            if kind == 'slave' and half == KIND:
                continue
            out.append(E('slave_in', '%s %s' % (kind, half), small, kind=kind, half=half, size=64 if kind == 'ram' else None, checks=CHK, weight=4))
    some = small[::7]
    opts = [()] + [tuple(o for o in scn_slave.AR_OPT if o != x) for x in scn_slave.AR_OPT]
    out.append(E('slave_in', 'optional signals', [dict(i, opt=o) for i in some for o in opts], half=KIND, checks=CHK, weight=3))
    out.append(E('slave_in', 'idw', [dict(i, idw=w, ops=[dict(o, id=(1 << w) - 1 - k) for k, o in enumerate(i['ops'])]) for i in some for w in (1, 5, 8)],
                 half=KIND, checks=CHK))
    for lv in (logging.INFO, logging.DEBUG):
        out.append(E('slave_in', 'log %d' % lv, some, half=KIND, checks=CHK, loglevel=lv))
        for rf in ('resp', 'lresp', 'bytearray'):
            out.append(E('slave_in', 'log %d %s' % (lv, rf), some, half=KIND, checks=CHK, loglevel=lv, rform=rf))
    out.append(E('slave_in', 'target set later', some, half=KIND, checks=CHK, late_target=True))
    # every relative schedule of the channels
    o = BW if KIND == 'w' else BR
    sets = {
        '2 bursts': [o(5, 3, id=1), o(9, 1, id=2)],
        '1 2 1': [o(4, 1, id=1), o(9, 2, size=1, id=1), o(6, 1, id=3)][:2 if q and KIND == 'w' else 3],
        'wrap fixed': [o(12, 2, burst=2, id=1), o(5, 2, burst=0, id=2)],
        'singles': [o(4 * i, 1, id=i % 3) for i in range(3 if q and KIND == 'w' else 4)],
    }
    for n, ops in sets.items():
        out.append(S('slave', n, ops=ops, half=KIND, valid=(CH,) * 3, ready=(L,) * 2, checks=CHK, weight=8))
        if not q:
            out.append(S('slave', n + ' delays', ops=ops, half=KIND, valid=(CH,) * 3, ready=(L,) * 2, delay='choose', checks=CHK, weight=9, max_states=60000))
            out.append(S('slave', n + ' ram', ops=ops, half='rw', kind='ram', size=32, valid=(CH,) * 3, ready=(L,) * 2, checks=CHK, weight=9))
    out.append(S('slave', 'ram mixed', ops=[BW(4, 2, id=1), BR(4, 2, id=1), BW(8, 1, id=2)], half='rw', kind='ram', size=32, valid=((1,), 'always', CH) if q else (CH,) * 3,
                 ready=(L,) * 2, checks=CHK, weight=9))
    if not q:
        out.append(S('slave', 'mixed', ops=[BW(4, 2, id=1), BR(4, 2, id=1), BW(8, 1, id=2), BR(8, 1, id=1)], half='rw', kind='slave', size=32, valid=(CH,) * 3,
                     ready=(L,) * 2, checks=CHK, weight=9, max_states=80000))
        out.append(S('slave', 'long', ops=[o(0, 4, id=1), o(16, 3, id=2)], half=KIND, valid=(CH,) * 3, ready=(L,) * 2, checks=CHK, weight=9, max_states=80000))
    return out
