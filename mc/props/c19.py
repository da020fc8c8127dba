"""C19: AXI-Lite and APB slaves perform exactly the accesses on the bus."""
import itertools
import logging
from .common import *                                   # noqa: F401,F403
from .common import S, E, BW, BR, AW_, AR_
from .. import slavedom as D
from .c17 import SCHED, WSCHED

CHK = ('data', 'resp', 'once', 'order', 'live')
ACHK = ('data', 'resp', 'once', 'live')
AL, CH, L = 'always', 'choose', 'lazy'


def writes(dw, n):
    """Every strobe pattern of n writes to the same or neighbouring words, at every offset of the first."""
    bw = dw // 8
    out = []
    for st in itertools.product(range(1 << bw), repeat=n):
        for o in range(bw) if n == 1 else (bw - 1,):
            for step in (0, bw):
                out.append([(4 * bw + o + i * step, s) for i, s in enumerate(st)])
    return out


def configs(tier):
    q = tier == 'quick'
    out = D.scale('w', CHK, True) + D.scale('r', CHK, True) + apbscale()
    # AXI-Lite
    for dw in (8, 16, 32) + (() if q else (64,)):
        bw = dw // 8
        w = [dict(ops=[BW(a, 1, strb=s) for a, s in x]) for n in (1, 2) if n == 1 or dw <= (16 if q else 32) for x in writes(dw, n)]
        r = [dict(ops=[BR(a, 1) for a in p]) for p in itertools.product((0, bw - 1, bw, 3 * bw + 1, 0x100 - bw, 0xffff), repeat=2)]
        for kind, inp in (('w', w), ('r', r)):
            for sn, kw in SCHED + (WSCHED if kind == 'w' else []):
                for k in ('slave', 'ram'):
                    if q and k == 'ram' and sn != 'gappy':
                        continue
                    out.append(E('slave_in', 'axil %s dw=%d %s %s' % (kind, dw, k, sn), inp, proto='axil', half=kind, dw=dw, kind=k,
                                 size=None if k == 'slave' else 0x40, checks=CHK, weight=4, **(kw if k == 'slave' else {a: v for a, v in kw.items() if a != 'delay'})))
    for half in ('w', 'r'):
        o = BW if half == 'w' else BR
        opts = [(), ('bresp', 'wstrb', 'rresp'), ('awprot', 'arprot'), ('wstrb', 'awprot')]
        out.append(E('slave_in', 'axil %s optional signals' % half, [dict(ops=[o(a, 1), o(b, 1)], opt=p) for p in opts for a in range(4) for b in (4, 9)],
                     proto='axil', half=half, checks=CHK))
        for lv in (logging.INFO, logging.DEBUG):
            out.append(E('slave_in', 'axil %s log %d' % (half, lv), [dict(ops=[o(a, 1), o(7, 1)]) for a in range(4)], proto='axil', half=half, checks=CHK, loglevel=lv))
        n = 3 if q else 4
        out.append(S('slave', 'axil %s' % half, proto='axil', ops=[o(5 * i, 1, **(dict(strb=(5, 15, 10, 0)[i]) if half == 'w' else {})) for i in range(n)], half=half,
                     valid=(CH,) * 3, ready=(L,) * 2, checks=CHK, weight=8))
        out.append(S('slave', 'axil %s delay' % half, proto='axil', ops=[o(5 * i, 1) for i in range(2 if q else 3)], half=half,
                     valid=(CH,) * 3, ready=(L,) * 2, delay='choose', checks=CHK, weight=8))
    out.append(S('slave', 'axil ram mixed', proto='axil', ops=[BW(4, 1), BR(4, 1)] if q else [BW(4, 1), BR(4, 1), BW(5, 1, strb=2), BR(8, 1)], half='rw', kind='ram', size=16,
                 valid=(CH,) * 3, ready=(L,) * 2, checks=CHK, weight=9))
    out.append(S('slave', 'axil slave mixed', proto='axil', ops=[BW(4, 1), BR(4, 1)] if q else [BW(4, 1), BR(4, 1), BW(5, 1, strb=2), BR(8, 1)], half='rw', size=16,
                 valid=(CH,) * 3, ready=(L,) * 2, checks=CHK, weight=9))
    # APB
    for dw in (8, 16, 32) + (() if q else (64,)):
        bw = dw // 8
        inp = [dict(ops=[AW_(a, s) for a, s in x] + [AR_(4 * bw)]) for n in (1, 2) if n == 1 or dw <= (16 if q else 32) for x in writes(dw, n)]
        inp += [dict(ops=[AR_(a) if k else AW_(a, 0xa5, prot=i) for i, (a, k) in enumerate(zip(p, ks))])
                for p in itertools.product((0, bw, 2 * bw - 1), repeat=3) for ks in itertools.product((0, 1), repeat=3)]
        for k in ('slave', 'ram'):
            for gn, g in (('b2b', 'never'), ('gaps', (1, 0, 0)), ('gap1', (0, 1))):
                for dl in (0, 1, (0, 2)) if k == 'slave' else (0,):
                    if q and dl and gn != 'b2b':
                        continue
                    out.append(E('apbslave_in', 'apb %s dw=%d %s delay=%s' % (k, dw, gn, dl), inp, kind=k, dw=dw, gap=g, delay=dl, checks=ACHK, weight=4,
                                 size=None if k == 'slave' else 0x40))
    oth = [dict(ops=[(AW_(4 * i, 15, other=b) if w else AR_(4 * i, other=b)) for i, (b, w) in enumerate(zip(bs, ws))])
           for bs in itertools.product((False, True), repeat=4) for ws in itertools.product((0, 1), repeat=4)]
    for k in ('slave', 'ram'):
        out.append(E('apbslave_in', 'apb %s other slave' % k, oth, kind=k, size=32, checks=ACHK, weight=2))
        out.append(E('apbslave_in', 'apb %s optional signals' % k, [dict(ops=[AW_(5, 5), AR_(4), AW_(9, 8), AR_(8)], opt=o) for o in ((), ('pprot',), ('pslverr',))],
                     kind=k, size=32, checks=ACHK))
        for w in ('mid', 'early', 'late'):
            ops = [AW_(5, 5), AR_(4), AW_(6, 15, other=True), AR_(8), AW_(8, 3)]
            out.append(S('apbslave', 'apb %s pause %s' % (k, w), ops=ops, kind=k, size=32, gap='choose', actions=('pause',), where=w, checks=ACHK, weight=3))
            out.append(S('apbslave', 'apb %s gen %s' % (k, w), ops=ops[:4], kind=k, size=32, gap='choose', actions=('gen',), where=w, checks=ACHK, weight=3))
    out.append(S('apbslave', 'apb delay', ops=[AW_(5, 5), AR_(4), AW_(6, 15, other=True), AR_(8), AW_(8, 3)], gap='choose', delay='choose', checks=ACHK, weight=3))
    for lv in (logging.INFO, logging.DEBUG):
        out.append(E('apbslave_in', 'apb log %d' % lv, [dict(ops=[AW_(a, 9), AR_(a)]) for a in range(4)], checks=ACHK, loglevel=lv))
        for rf in ('resp', 'lresp', 'bytearray'):
            out.append(E('apbslave_in', 'apb log %d %s' % (lv, rf), [dict(ops=[AW_(a, 9), AR_(a)]) for a in range(4)], checks=ACHK, loglevel=lv, rform=rf))
            out.append(E('slave_in', 'axil log %d %s' % (lv, rf), [dict(ops=[BR(a, 1), BR(7, 1)]) for a in range(4)], proto='axil', half='r', checks=CHK,
                         loglevel=lv, rform=rf))
    return out


def apbscale():
    """Wide data buses and high addresses."""
    out = [E('apbslave_in', 'apb scale many', [dict(ops=[AW_(4 * k, k % 16) if k % 3 else AR_(4 * k - 4 if k else 0) for k in range(520)])], checks=ACHK, K=6000)]
    for k in ('slave', 'ram'):
        inp = [dict(via=v, ops=[AW_(a, st), AR_(a), AW_(a, 1), AR_(0)]) for v in ('prefix', 'entity', 'sep') for a in (0, 4, 9) for st in (15, 6)]
        out.append(E('apbslave_in', 'apb bus objects %s' % k, inp, kind=k, size=64, checks=ACHK))
    for dw, aw in ((64, 16), (128, 16), (32, 64), (64, 64), (8, 40), (32, 32)):
        bw = dw // 8
        inp = [dict(ops=[AW_(a, st), AR_(a), AW_(a, 1), AR_((1 << aw) - bw)]) for h in D.HIGH + (bw * 4,) for a in (h - bw, h - 1, h, h + bw + 1) if a < 1 << aw
               for st in (-1 % (1 << bw), 1 << (bw - 1), 0x69 % (1 << bw))]
        out.append(E('apbslave_in', 'apb scale aw=%d dw=%d' % (aw, dw), inp, dw=dw, aw=aw, checks=ACHK, chunk=20))
        out.append(E('apbslave_in', 'apb scale ram aw=%d dw=%d' % (aw, dw), inp, dw=dw, aw=aw, kind='ram', size=0x100, checks=ACHK, chunk=20))
    return out
