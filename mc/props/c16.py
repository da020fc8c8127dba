"""C16: illegal requests are rejected up front and legal ones accepted."""
import itertools
from .common import *                                   # noqa: F401,F403
from .common import E, W, R
from ..scn_master import bad, FIXED, INCR, AW_OPT, AR_OPT
from .. import scn_master

CHK = ('refuse', 'data', 'cover', 'attr', 'resp', 'once', 'idle', 'live', 'order', 'legal')
FORMS = ('coro', 'init', 'ev')


def good(kind, a, n, **k):
    return (W if kind == 'w' else R)(a, n, **k)


class Junk:
    """Something that is not an event."""

    def is_set(self):
        return True

    def set(self, data=None):
        pass

    def __repr__(self):
        return 'Junk()'


def bads(proto, kind, dw, aw, idw, rng=None):
    """Requests outside the capability: (address, argument, keyword arguments), for every form."""
    top = 1 << aw
    bw = dw // 8
    full = bw.bit_length() - 1
    b = lambda n: bytes(range(1, n + 1)) if kind == 'w' else n
    out = []
    for n in (0, 1, bw, bw + 1):
        for a in (-1, -bw, -top, top, top + 1, 2 * top, top + bw - 1):
            out.append((a, b(n), {}))
    for n in range(1, 2 * bw + 2):
        out.append((top - n, b(n + 1), {}))
        out.append((top - n, b(n + bw), {}))
        out.append((top - n, b(n + 1), dict(prot=2)))
    if aw <= 16:
        out.append((0, bytes(top + 1) if kind == 'w' else top + 1, {}))
    if kind == 'w':
        for d in (5, 0, -1, None, 'ab', [256], [1, -1], [1, 'a'], 1.5, ['']):
            out.append((4, d, {}))
    else:
        for n in (-1, -2, -bw, -top):
            out.append((4, n, {}))
    if proto == 'axi':
        ik = 'awid' if kind == 'w' else 'arid'
        for i in (1 << idw, (1 << idw) + 1, 1 << (idw + 3)):
            out.append((4, b(3), {ik: i}))
        for s in range(full + 1, 9):
            out.append((4, b(3), dict(size=s)))
        for t in (3, 4, -1, 'INCR', None):
            out.append((4, b(3), dict(burst=t)))
        for v in (2, 3, -1, None):
            out.append((4, b(3), dict(lock=v)))
        if kind == 'w':
            for v in (1.5, Junk()):
                out.append((4, b(3), dict(wuser=v)))
        for a in (-1, top, top + 4):
            out.append((a, b(3), dict(burst=FIXED)))
    return out


def events():
    return (Junk(), 0, 1, False, True, '', 'x', (), [], object, lambda: None)


def mix(kind, reqs, forms=FORMS, evs=True, gap=3):
    """Refused requests with a few legal ones between them."""
    out = []
    fi = 0
    items = []
    for a, arg, kw in reqs:
        for f in forms:
            items.append(bad(kind, a, arg, f, **kw))
    if evs:
        arg = b'abc' if kind == 'w' else 3
        items += [bad(kind, 4, arg, 'init', event=e) for e in events()]
    for i in range(0, len(items), 9):
        ops = []
        for j, it in enumerate(items[i:i + 9]):
            if j % gap == 0:
                ops.append(good(kind, 3 + 5 * (i + j) % 120, 1 + (i + j) % 6, form=FORMS[fi % 3]))
                fi += 1
            ops.append(it)
        ops.append(good(kind, 1, 7))
        for issue in ('all', tuple(range(0, 2 * len(ops), 2)), 'serial'):
            out.append(dict(ops=ops, issue=issue))
    return out


def accept(proto, kind, dw, aw, idw):
    """Every boundary value that is allowed."""
    top = 1 << aw
    bw = dw // 8
    full = bw.bit_length() - 1
    lst = []
    g = lambda a, n, **k: lst.append((a, n, k))
    for n in range(0, 2 * bw + 2):
        g(0, n)
        if n:
            g(top - n, n)
            g(top - n, n - 1)
    g(top - 1, 0)
    for p in range(8):
        g(4, 3, prot=p)
    if proto == 'axi':
        for i in (None, -1, -7) + tuple(range(1 << idw)):
            g(4, 3, id=i)
        for s in (None, -1) + tuple(range(full + 1)):
            g(4, 2 * bw + 1, size=s)
            g(top - 2 * bw - 1, 2 * bw + 1, size=s)
            g(4 + bw - 1, 1, size=s, burst=FIXED)
            g(4, 3 << (full if s is None or s < 0 else s), size=s, burst=FIXED)
        for n in (1, 2, bw, bw + 1, 3 * bw):
            g(top - bw, n, burst=FIXED)
            g(top - 1, n, burst=FIXED)
        for k in ('cache', 'qos', 'region', 'user') + (('wuser',) if kind == 'w' else ()):
            for v in range(16):
                g(4, 3, **{k: v})
        for v in (0, 1):
            g(4, 3, lock=v)
        if kind == 'w':
            for v in (None, [], [1], [1, 2, 3], (3, 2), range(2)):
                g(4, 9, wuser=v)
    out = []
    for f in range(3):
        for i in range(0, len(lst), 6):
            ops = [good(kind, a, n, form=FORMS[(f + j) % 3], **k) for j, (a, n, k) in enumerate(lst[i:i + 6])]
            out.append(dict(ops=ops))
    return out


def signals(proto, kind):
    """Every subset of the optional signals: a value for a missing one is refused, for a present one used."""
    p = 'aw' if kind == 'w' else 'ar'
    if proto == 'axi':
        names = [p + k for k in ('lock', 'cache', 'prot', 'qos', 'region', 'user')] + (['wuser'] if kind == 'w' else [])
        other = ('wstrb', 'bresp', 'buser') if kind == 'w' else ('rresp', 'ruser')
    else:
        names = [p + 'prot']
        other = ('wstrb', 'bresp') if kind == 'w' else ('rresp',)
    vals = dict(lock=(1,), cache=(0, 2, 15), prot=(0, 3, 6), qos=(1, 15), region=(1, 8), user=(1, 15), wuser=(5, [0], [1, 2]))
    dfl = dict(lock=0, cache=3, prot=2, qos=0, region=0, user=0, wuser=0)
    arg = b'\x11\x22\x33' if kind == 'w' else 3
    out = []
    for m in range(1 << len(names)):
        have = [n for i, n in enumerate(names) if m >> i & 1]
        ops = [good(kind, 8, 5)]
        fi = m
        for n in names:
            k = n if n == 'wuser' else n[2:]
            for v in vals[k]:
                f = FORMS[fi % 3]
                fi += 1
                ops.append(good(kind, 5, 3, form=f, **{k: v}) if n in have else bad(kind, 5, arg, f, **{k: v}))
                if n not in have:
                    ops.append(bad(kind, 5, arg, FORMS[fi % 3], **{k: v}))
            ops.append(good(kind, 5, 3, form=FORMS[fi % 3], **{k: dfl[k]}))
        if 'wuser' in names:
            ops.append(good(kind, 5, 3, wuser=None))
        ops.append(good(kind, 3, 9, form='init'))
        out.append(dict(ops=ops, opt=tuple(have) + other))
    return out


def configs(tier):
    q = tier == 'quick'
    out = []
    A3 = ('always',) * 3
    for proto in ('axi', 'axil', 'apb'):
        fn = 'apb_in' if proto == 'apb' else 'master_in'
        for kind in 'wr':
            for half in ([None] if proto == 'apb' else [kind, 'rw']):
                for dw, aw, idw in ((32, 16, 2), (8, 16, 1), (64, 32, 3), (32, 64, 2), (128, 12, 4)) if not q or half == kind else ((32, 16, 2),):
                    if proto == 'apb':
                        if dw > 32:
                            continue
                        kw = dict(dw=dw, aw=aw)
                        kw2 = dict(kw, wait=(0, 1))
                        ref = {}
                    else:
                        kw = dict(proto=proto, half=half, dw=dw, aw=aw, idw=idw, ready=A3, resp=('fifo', 'fifo'))
                    n = '%s %s %s %d/%d' % (proto, kind, half or '', dw, aw)
                    out.append(E(fn, n + ' refused', mix(kind, bads(proto, kind, dw, aw, idw)), checks=CHK, **kw))
                    out.append(E(fn, n + ' accepted', accept(proto, kind, dw, aw, idw), checks=CHK, **kw))
                if proto == 'apb':
                    out.append(E(fn, 'apb %s no pprot' % kind, [
                        dict(ops=[good(kind, 8, 5)] + [bad(kind, 5, b'abc' if kind == 'w' else 3, f, prot=v) for v in (0, 1, 3, 4, 5, 6, 7)] +
                             [good(kind, 8, 5, prot=2, form='init')]) for f in FORMS], opt=('pslverr',), checks=CHK))
                else:
                    out.append(E(fn, '%s %s %s signals' % (proto, kind, half), signals(proto, kind), proto=proto, half=half, checks=CHK + ('user',), weight=2))
    return out
