"""C20: RAM models share one memory consistently across ports and accessors."""
import itertools
from .common import *                                   # noqa: F401,F403
from .common import E
from ..scn_slave import FIXED, WRAP

W3 = (('axi', 32, 'rw'), ('axil', 8, 'rw'), ('apb', 32, 'rw'))
W4 = (('axi', 64, 'w'), ('axi', 16, 'r'), ('axil', 32, 'w'), ('axil', 16, 'r'), ('apb', 8, 'rw'))
W2 = (('axi', 8, 'rw'), ('axi', 64, 'rw'))


def writers(ports, S, aw, rich):
    out = []
    top = 1 << aw
    for i, (p, dw, h) in enumerate(ports):
        if 'w' not in h:
            continue
        bw = dw // 8
        out += [('W', i, 5, 2), ('W', i, S + 9, 1), ('W', i, 7 * S - bw, 1), ('W', i, S - 2 * bw, 3 if 2 * bw < S else 2)]
        if p == 'axi':
            out += [('W', i, S - 2, 3, (('size', 0),)), ('W', i, 3 * S + 8, 2, (('burst', FIXED),)), ('W', i, 2 * S + 2 * bw, 4, (('burst', WRAP),))]
            if rich:
                out += [('W', i, 5 * S + 3, 6, (('size', min(1, bw.bit_length() - 1)),)), ('W', i, top - bw, 1)]
        if rich:
            out += [('W', i, 4, 1, (('strb', 0x5),)), ('W', i, S + 4, 2, (('strb', 0x0),)), ('W', i, 9 * S + 17, 2, (('strb', 0x9a),))]
            out += [('W', i, 6, 2, (('skew', 2),)), ('W', i, 6, 2, (('skew', -2),)), ('W', i, 6, 2, (('bstall', 6),))] if p != 'apb' else []
    for i in range(len(ports)) if rich else (0, len(ports) - 1):
        out += [('w', i, 3, 7), ('w', i, S - 5, 5)]
        if rich:
            out += [('words', i, 5, 2, 'big'), ('dwords', i, S - 8, 2, 'little'), ('qwords', i, 1, 1, 'big'), ('byte', i, S - 1)]
    out += [('item', 0, 6, 4)]
    if rich:
        out += [('w', 0, 0, S), ('w', 1, 9, 0), ('item', 1, S - 3, 3)]
    return out


def readers(ports, S, aw, rich):
    out = []
    for i, (p, dw, h) in enumerate(ports):
        if 'r' in h:
            bw = dw // 8
            out += [('R', i, S - 2 * bw, 3)] + ([('R', i, 4 * S + 1, 3, (('size', 0),)), ('R', i, S + 8, 2, (('burst', FIXED),)), ('R', i, 6 * S + bw, 4, (('burst', WRAP),))]
                                                if p == 'axi' else [])
        if rich:
            out += [('r', i, 3, 9), ('dump', i, 5, min(20, S - 5)), ('dump', i, S - 7, 7)]
    return out


def legal(o, ports):
    """Incrementing AXI bursts do not cross 4 KiB."""
    if o[0] not in 'WR' or ports[o[1]][0] != 'axi':
        return True
    d = dict(o[4] if len(o) > 4 else ())
    nb = 1 << d['size'] if 'size' in d else ports[o[1]][1] // 8
    return d.get('burst', 1) != 1 or o[2] // nb * nb % 4096 + o[3] * nb <= 4096


def pars(ports, S):
    """Accesses of several ports at the same time; writes to different bytes of the same words."""
    out = []
    ws = [i for i, p in enumerate(ports) if 'w' in p[2]]
    rs = [i for i, p in enumerate(ports) if 'r' in p[2]]

    def wr(i, a, ph):
        bw = ports[i][1] // 8
        if bw == 1:
            return ('W', i, S * 2 + a + ph, 1)
        m = (0x55 if ph == 0 else 0xaa) & (1 << bw) - 1
        if bw == 8:
            m = 0x55 if ph == 0 else 0xaa
        return ('W', i, S * (ph + 1) + a, 1, (('strb', m),))
    for i, j in itertools.permutations(ws, 2):
        for d in range(-4, 5):
            out.append([('par', (max(0, -d), max(0, d)), (wr(i, 8, 0), wr(j, 8, 1)))])
    for i in ws:
        for j in rs:
            for d in range(-4, 7):
                if i == j and ports[i][0] == 'apb':
                    continue
                out.append([('w', 0, 0, S), ('par', (max(0, -d), max(0, d)), (('W', i, 8, 2), ('R', j, 8 + S, 2)))])
    for t in itertools.product((0, 1, 3), repeat=3):
        for i, j in itertools.permutations(ws, 2):
            for k in rs:
                if ports[k][0] != 'apb' or k not in (i, j):
                    out.append([('par', t, (wr(i, 16, 0), wr(j, 16, 1), ('R', k, 16, 2)))])
    return out


def configs(tier):
    q = tier == 'quick'
    out = []
    aw = 12
    for wn, ports, bk, S in (('three', W3, 'own', 64), ('five mmap', W4, 'mmap', 128), ('two sparse', W2, 'sparse', 64), ('three mmap', W3, 'mmap', 4096), ('two own', W2, 'own', 24)):
        kw = dict(ports=ports, backing=bk, size=S, aw=aw if S < 4096 else 16, spots=None if S < 4096 else (0, 8, 0xff8, 0x7f8))
        rich = not q or wn != 'five mmap'
        w = writers(ports, S, aw, rich)
        r = readers(ports, S, aw, rich)
        if S == 24:
            w = [o for o in w if o[0] != 'W' or dict(o[4] if len(o) > 4 else ()).get('burst') != WRAP]
            r = [o for o in r if o[0] != 'R' or dict(o[4] if len(o) > 4 else ()).get('burst') != WRAP]
        w, r = [[o for o in y if legal(o, ports)] for y in (w, r)]
        one = [[a] for a in w + r]
        two = [[a, b] for a in w for b in w + r]
        inp = one + (two if S < 4096 else two[::5] if q else two)
        out.append(E('ram', wn + ' pairs', inp, weight=6, **kw))
        if S < 4096:
            w3 = writers(ports, S, aw, False)
            t = [[a, b, c] for a in w3 for b in w3 for c in w3] if not q else [[a, b, c] for a in w3[::2] for b in w3[1::2] for c in w3[::3]]
            out.append(E('ram', wn + ' triples', t, weight=6, **kw))
            out.append(E('ram', wn + ' together', pars(ports, S), weight=3, **kw))
    # wide ports
    ww = (('axi', 128, 'rw'), ('axi', 512, 'rw'), ('axil', 64, 'rw'), ('apb', 64, 'rw'))
    kw = dict(ports=ww, backing='own', size=512, aw=12)
    w, r = [[o for o in y if legal(o, ww)] for y in (writers(ww, 512, 12, False), readers(ww, 512, 12, False))]
    out.append(E('ram', 'wide pairs', [[a, b] for a in w for b in w + r], weight=4, **kw))
    # memories of the default size: nothing wraps
    sp = (0, 0x1000, 0x7ffffff8, 0xfffffff0)
    for bk, aw2 in (('default', 32), ('default', 64)):
        top = 1 << aw2
        s2 = sp if aw2 == 32 else sp + (1 << 32, (1 << 63) - 8, 1 << 63, top - 16)
        ops = [('W', i, a + 1, 2) for i in range(3) for a in s2] + [('w', i, a + 3, 6) for i in (0, 2) for a in s2] + [('dump', i, a, 20 if a < top - 20 else 16) for i in range(3) for a in s2] + \
              [('item', 1, a, 4) for a in s2] + [('qwords', 2, a, 1, 'little') for a in s2] + [('byte', 0, a + 2) for a in s2]
        out.append(E('ram', 'default size aw=%d' % aw2, [[a, b] for a in ops for b in (ops if not q else ops[::3])], ports=W3, backing='default', size=1 << 64, aw=aw2, spots=s2, weight=3))
    return out
