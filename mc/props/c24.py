"""C24: typed accessors agree with plain byte access on every interface."""
from .common import E
from ..scn_acc import acc, FORMS   # noqa: F401

PLAIN = ('memory', 'memory mmap', 'region', 'sparse region', 'space', 'nested', 'pool', 'window', 'window of space', 'window pool',
         'custom', 'custom region', 'peripheral', 'window of custom')


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def ops_of(n, thin=1, wsmax=9):
    out = []
    for form, (name, fixed, lst) in enumerate(FORMS):
        for ws in ([None] if fixed else [None] + list(range(1, wsmax + 1))):
            w = fixed or ws or 2
            for cnt in ((0, 1, 2, 3, 5) if lst else (1,)):
                for bo in ((None, 'little', 'big') if name != 'byte' else (None,)):
                    if ws is not None and bo is None:
                        bo = None
                    for flav in ('kw', 'pos', 'big', 'neg'):
                        if flav == 'pos' and bo is None:
                            continue
                        end = n - w * (cnt if lst else 1)
                        for a in sorted(set((0, 1, 2, 3, 4, 7, end - 1, end, end + 1, n - 1))):
                            if 0 <= a < n:
                                out.append((form, ws, cnt, bo, a, flav))
    return out[::thin] if thin > 1 else out


def configs(tier):
    q = tier == 'quick'
    out = []
    for k in PLAIN:
        n = {'window': 35, 'window of custom': 34, 'window pool': 32, 'pool': 32}.get(k, 40)
        ops = ops_of(n)
        out.append(E('acc', k, [(k, None, c) for c in chunks(ops, 50)]))
    for k in ('ram axi', 'ram axil', 'ram apb'):
        out.append(E('acc', k, [(k, None, c) for c in chunks(ops_of(40, 3 if q else 1), 100)]))
    for k in ('axi', 'axil', 'apb', 'axi half', 'axil half', 'window on bus axi', 'window on bus axil', 'window on bus apb'):
        n = 40 if not k.startswith('window') else 31
        for j, (dw, pat) in enumerate(((32, 0), (8, 0), (64, 1), (16, 2), (128, 3))):
            if k.endswith('half') and j:
                continue
            ops = [o for o in ops_of(n) if o[3] or not q or True]
            # within the domain of a bus: the whole access inside
            ops = [o for o in ops if o[4] + (FORMS[o[0]][1] or o[1] or 2) * (o[2] if FORMS[o[0]][2] else 1) <= n]
            t = (9, 11, 11, 13, 17)[j] if q else (1, 1, 2, 3, 3)[j]
            out.append(E('acc', '%s %d bit pat %d' % (k, dw, pat), [(k, (dw, pat), c) for c in chunks(ops[j::t], 12)]))
    return out
