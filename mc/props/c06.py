"""C06: AXI stream frame objects behave as values (all small frames)."""
import itertools
from ..core import Violation                            # noqa: F401
from ..bfm import need
from ..runner import Cfg
from cocotbext.axi import AxiStreamFrame

ASSUME = ['sideband lists are Python lists, scalar sidebands Python ints; the normalised, copied and compacted forms are all '
          'reached from frames as a user or the receiving components build them']

SIM = False             # no simulator is involved


def fields(n, full):
    """All forms of one scalar-capable sideband for n bytes."""
    out = [None, 0, 1, 3, True, []]
    vals = (0, 2) if full else (0, 3)
    for k in range(1, n + 2):
        out += [list(v) for v in itertools.product(vals, repeat=k)]
    return out


def keeps(n):
    out = [None, []]
    for k in range(1, n + 2):
        out += [list(v) for v in itertools.product((0, 1), repeat=k)]
    return out


def norm(v, n, dflt):
    if v is None or v == []:
        return [dflt] * n
    if not isinstance(v, list):
        return [v] * n
    return (v + [v[-1]] * n)[:n]


def cp(v):
    return list(v) if isinstance(v, list) else v


def mk(data, keep, tid, tdest, tuser, kind):
    d = bytes(data) if kind == 0 else bytearray(data) if kind == 1 else list(data)
    return AxiStreamFrame(d, cp(keep), cp(tid), cp(tdest), cp(tuser))


def snap(f):
    return (type(f.tdata), list(f.tdata), cp(f.tkeep), cp(f.tid), cp(f.tdest), cp(f.tuser), f.sim_time_start, f.sim_time_end, f.tx_complete)


def conv(f, data, kind):
    need(len(f) == len(data), 'len() is %d for %d bytes', len(f), len(data))
    need(list(iter(f)) == list(data), 'iteration gives %s instead of %s', list(iter(f)), list(data))
    need(list(f.tdata) == list(data), 'tdata is %s instead of %s', list(f.tdata), list(data))
    if all(0 <= v < 256 for v in data):
        need(bytes(f) == bytes(data), 'bytes() is %r for %r', bytes(f), bytes(data))
    need(repr(f.tdata) in repr(f), 'repr() does not show the data')
    need(f == f, 'a frame is not equal to itself')


def one(ch, inp):
    """One frame: copy, normalise, compact, in every order."""
    n, keep, tid, tdest, tuser, kind = inp
    data = [(17 * k + 1) & 255 for k in range(n)]
    f = mk(data, keep, tid, tdest, tuser, kind)
    f.sim_time_start, f.sim_time_end = 11, 22
    f.tx_complete = f0 = object()
    conv(f, data, kind)
    need((f.tkeep, f.tid, f.tdest, f.tuser) == (keep, tid, tdest, tuser), 'fields changed by construction')
    s0 = snap(f)
    c = AxiStreamFrame(f)
    need(snap(c) == s0, 'copy differs: %s instead of %s', snap(c), s0)
    need(c == f and f == c, 'a copy is not equal to its original')
    need(c.tx_complete is f0, 'copy lost the completion handle')
    # independence, both ways
    c2 = AxiStreamFrame(f)
    for a, b in ((c, f), (c2, c)):
        s = snap(b)
        if len(a.tdata):
            a.tdata[0] ^= 1
        for nm in ('tkeep', 'tid', 'tdest', 'tuser'):
            v = getattr(a, nm)
            if isinstance(v, list):
                v.append(1)
                v[0] = 1 - v[0] if v[0] in (0, 1) else 0
        a.tdata.append(5)
        a.sim_time_end = 33
        need(snap(b) == s, 'changing a copy changed the original')
        need(snap(f) == s0, 'changing a copy changed the original')
    # tx_complete given at construction wins
    o = object()
    need(AxiStreamFrame(f, tx_complete=o).tx_complete is o, 'tx_complete argument ignored for a copy')
    ch.step((0, n))
    # normalise
    g = AxiStreamFrame(f)
    g.normalize()
    want = (norm(keep, n, 1), norm(tid, n, 0), norm(tdest, n, 0), norm(tuser, n, 0))
    got = (g.tkeep, g.tid, g.tdest, g.tuser)
    need(got == want and all(type(v) is list for v in got), 'normalised to %s instead of %s', got, want)
    conv(g, data, kind)
    g2 = AxiStreamFrame(g)
    g2.normalize()
    need(snap(g2) == snap(g), 'normalising twice differs from once')
    need(snap(f) == s0, 'normalising a copy changed the original')
    ch.step((1, n))
    # compact: of the normalised frame, and of the frame itself when its lists are full length
    cands = [AxiStreamFrame(g)]
    full = all(not isinstance(v, list) or len(v) in (0, n) for v in (keep, tid, tdest, tuser))
    if full:
        cands.append(AxiStreamFrame(f))
    for i, h in enumerate(cands):
        k = want[0]
        wd = [v for v, q in zip(data, k) if q]
        wf = []
        for nm, orig, nv in (('tid', tid, want[1]), ('tdest', tdest, want[2]), ('tuser', tuser, want[3])):
            if i == 1 and not isinstance(orig, list):
                wf.append(orig)
                continue
            if i == 1 and not orig:
                wf.append(None)
                continue
            v = [a for a, q in zip(nv, k) if q]
            wf.append(None if not v else v[0] if all(a == v[0] for a in v) else v)
        for rnd in range(2):
            h.compact()
            need(list(h.tdata) == wd, 'compacted data %s instead of %s (round %d)', list(h.tdata), wd, rnd)
            need(h.tkeep is None, 'compacted frame keeps tkeep %s', h.tkeep)
            need([h.tid, h.tdest, h.tuser] == wf, 'compacted sidebands %s instead of %s (round %d)', [h.tid, h.tdest, h.tuser], wf, rnd)
            conv(h, wd, kind)
        need(type(h.tdata) is type(f.tdata), 'compacting changed the type of the data')
    need(snap(f) == s0, 'compacting a copy changed the original')
    # compact and normalise again gives per-byte fields for the remaining bytes
    h = cands[0]
    h.normalize()
    need(h.tkeep == [1] * len(wd), 'tkeep after compact and normalise')
    need(h.tid == [a for a, q in zip(want[1], want[0]) if q], 'tid after compact and normalise')
    ch.step((2, n))
    return 'ok'


def ref_eq(a, b):
    if a[0] != b[0]:
        return False
    if a[1] is not None and b[1] is not None and a[1] != b[1]:
        return False
    for p, q in zip(a[2:], b[2:]):
        if p is None or q is None:
            continue
        n = len(a[0])
        if not isinstance(p, list) and not isinstance(q, list):
            if p != q:
                return False
        elif norm(p, n, 0) != norm(q, n, 0):
            return False
    return True


def eq(ch, inp):
    n, fa = inp
    d = [fa[0], fa[0][:-1] + [9], [7] + fa[0][1:], fa[0] + [1], fa[0][:-1]] if n else [[], [0]]
    ks = [None, [1] * n, [1] * (n - 1) + [0]] if n else [None]
    sb = [None, 0, 1] + ([list(v) for v in itertools.product((0, 1), repeat=n)] if n else [])
    for data in d:
        for keep in ks:
            for v in sb:
                for pos in range(3):
                    o = [0, 0, 0]
                    o[pos] = v
                    fb = (data, keep) + tuple(o)
                    a, b = mk(*fa, 0), mk(*fb, 0)
                    w = ref_eq(fa, fb)
                    need((a == b) == w and (b == a) == w and (a != b) == (not w), 'comparing %s with %s gives %s', fa, fb, a == b)
    need(not (mk(*fa, 0) == bytes(fa[0])) and mk(*fa, 0) != 5, 'a frame equals something that is no frame')
    ch.step(None)
    return 'ok'


def configs(tier):
    q = tier == 'quick'
    one_i = []
    for n in range(0, 4 if q else 5):
        for kind in (0, 1, 2):
            if kind == 1 and n > 1:
                continue
            for keep in keeps(n):
                for tid in fields(n, True):
                    one_i.append((n, keep, tid, None, 1, kind))
                    one_i.append((n, keep, 0, tid, None, kind))
                    one_i.append((n, keep, None, 2, tid, kind))
                if n <= 2:
                    for tid, tdest, tuser in itertools.product([None, 0, 2, [], [1, 2][:n or 1], [3] * n], repeat=3):
                        one_i.append((n, keep, tid, tdest, tuser, kind))
    eq_i = []
    for n in range(0, 3 if q else 4):
        for keep in ([None, [1] * n, [0] * n, [1] * (n - 1) + [0]] if n else [None]):
            for pos in range(3):
                for v in [None, 0, 1] + ([list(v) for v in itertools.product((0, 1), repeat=n)] if n else []):
                    o = [0, 0, 0]
                    o[pos] = v
                    eq_i.append((n, ([1, 2, 3][:n], keep) + tuple(o)))
    return [Cfg('copy-normalize-compact', 'one', inputs=one_i), Cfg('equality', 'eq', inputs=eq_i)]
