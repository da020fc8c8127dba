"""Memories and memory regions against a flat byte array: all operation sequences up to a depth."""
import contextlib
import io
import mmap
from .core import Violation
from cocotbext.axi import MemoryRegion, SparseMemoryRegion
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory
from cocotbext.axi import utils


def run(coro):
    """Runs a coroutine that never waits for the simulation."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise Violation('an access to a plain memory waits for the simulation')


def make(kind, size):
    """(object with read/write, object with item access, is async)"""
    if kind == 'sparse':
        o = SparseMemory(size)
        return o, o
    if kind == 'memory':
        o = Memory(size)
        return o, o.mem
    if kind == 'memory default':
        o = Memory()
        return o, o.mem
    if kind == 'memory mmap':
        o = Memory(mem=mmap.mmap(-1, size))
        return o, o.mem
    if kind == 'memory on sparse':
        o = Memory(mem=SparseMemory(size))
        return o, o.mem
    if kind == 'region':
        o = MemoryRegion(size)
        return o, o
    if kind == 'region mmap':
        o = MemoryRegion(size, mem=mmap.mmap(-1, size))
        return o, o
    if kind == 'region on sparse':
        o = MemoryRegion(size, mem=SparseMemory(size))
        return o, o
    if kind == 'sparse region':
        o = SparseMemoryRegion(size)
        return o, o
    if kind == 'sparse region default':
        o = SparseMemoryRegion()
        return o, o
    if kind == 'sparse region on sparse':
        o = SparseMemoryRegion(size, mem=SparseMemory(size))
        return o, o
    raise RuntimeError(kind)


KINDS = ('sparse', 'memory', 'memory mmap', 'memory on sparse', 'region', 'region mmap', 'region on sparse', 'sparse region', 'sparse region on sparse')


def data(i, n):
    return bytes((0x29 * (i + 1) + 0x35 * k + (k >> 8) * 0x11 + 7) & 0xff for k in range(n))


FORMS = (bytes, bytearray, memoryview)


class Ref:
    def __init__(self, size):
        self.size = size
        self.d = {}
        self.flat = bytearray(size) if size <= 65536 else None

    def key(self):
        return bytes(self.flat) if self.flat is not None else frozenset(self.d.items())

    def clear(self):
        self.d.clear()
        if self.flat is not None:
            self.flat[:] = bytes(self.size)

    def get(self, a, n):
        if self.flat is not None:
            return bytes(self.flat[a:a + n])
        d = self.d
        if len(d) < n:
            out = bytearray(n)
            for k, v in d.items():
                if a <= k < a + n:
                    out[k - a] = v
            return bytes(out)
        return bytes(d.get(k, 0) for k in range(a, a + n))

    def put(self, a, b):
        if self.flat is not None:
            self.flat[a:a + len(b)] = b
            return
        for k, v in enumerate(b):
            self.d[a + k] = v


def rd(o, a, n):
    r = o.read(a, n)
    if hasattr(r, 'send'):
        r = run(r)
    return bytes(r)


def wr(o, a, d):
    r = o.write(a, d)
    if hasattr(r, 'send'):
        run(r)


def parse_dump(lines, prefix=''):
    out = []
    for ln in lines:
        if not ln.startswith(prefix):
            raise Violation('dump line without its prefix: %r' % ln)
        head, _, rest = ln[len(prefix):].partition(': ')
        toks = rest[:48].split()
        asc = rest[48:].strip(' ')
        b = [int(t, 16) for t in toks]
        if any(len(t) != 2 for t in toks):
            raise Violation('malformed dump line %r' % ln)
        if len(asc) != len(b) or any(48 <= v < 58 or 65 <= v < 91 or 97 <= v < 123 for v, c in zip(b, asc) if c != chr(v)):
            raise Violation('dump line %r does not show its bytes as text' % ln)
        out.append((int(head, 16), b))
    return out


def check_dump(o, ref, a, n):
    want = [(k, list(ref.get(k, min(16, a + n - k)))) for k in range(a, a + n, 16)]
    lines = list(o.hexdump_lines(a, n))
    got = parse_dump(lines)
    if got != want:
        raise Violation('hexdump_lines(0x%x, %d) shows %s instead of %s' % (a, n, got, want))
    lines = list(o.hexdump_lines(a, n, prefix='RAM '))
    if parse_dump(lines, 'RAM ') != want:
        raise Violation('hexdump_lines(0x%x, %d, prefix) shows %s' % (a, n, lines))
    if o.hexdump_str(a, n, prefix='RAM ').split('\n') != lines:
        raise Violation('hexdump_str(0x%x, %d) differs from hexdump_lines' % (a, n))
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        o.hexdump(a, n, prefix='RAM ')
    if f.getvalue().split('\n')[:-1] != lines:
        raise Violation('hexdump(0x%x, %d) differs from hexdump_lines' % (a, n))


def verify(kind, o, it, ref, grid, items, dumps):
    size = ref.size
    for a, n in grid:
        ok = 0 <= a and n >= 0 and a + n <= size
        try:
            g = rd(o, a, n)
        except Violation:
            raise
        except Exception as e:
            if ok and (n > 0 or a < size):
                raise Violation('%s of %d bytes: read(%d, %d) raises %r' % (kind, size, a, n, e))
            continue
        if ok:
            if g != ref.get(a, n):
                raise Violation('%s of %d bytes: read(%d, %d) returns %s instead of %s' % (kind, size, a, n, short(g), short(ref.get(a, n))))
        elif not (kind.startswith('memory') and a >= 0 and n >= 0 and g == ref.get(a, max(0, size - a))):
            raise Violation('%s of %d bytes: read(%d, %d) returns %s' % (kind, size, a, n, short(g)))
    for a, n in items:
        try:
            if n is None:
                g = bytes([it[a]])
                n2 = 1
            else:
                g = bytes(it[a:a + n])
                n2 = n
        except Exception as e:
            if a < size and a + (n or 0) <= size:
                raise Violation('%s of %d bytes: [%d:%s] raises %r' % (kind, size, a, n, e))
            continue
        if n is None and a >= size:
            raise Violation('%s of %d bytes: [%d] returns %s' % (kind, size, a, g.hex()))
        want = ref.get(a, max(0, min(n2, size - a)))
        if g != want:
            raise Violation('%s of %d bytes: [%d:%s] is %s instead of %s' % (kind, size, a, n, short(g), short(want)))
    for a, n in dumps:
        check_dump(o, ref, a, n)
    if not ref.flat or size < 8:
        return
    # slices of every form: open ends, negative indices, steps (these may be refused)
    for s in (slice(None), slice(3, None), slice(None, 5), slice(-4, -1), slice(-7, None), slice(size - 2, size + 9), slice(5, 5), slice(None, None, 2),
              slice(1, 7, 3), slice(None, None, -1), slice(6, 1, -1), slice(6, 1, -2), -1, -size):
        try:
            g = it[s]
        except Exception as e:
            if isinstance(s, slice) and s.step is None:
                raise Violation('%s of %d bytes: [%s] raises %r' % (kind, size, s, e))
            continue
        want = ref.flat[s]
        if bytes([g]) != bytes([want]) if isinstance(s, int) else bytes(g) != bytes(want):
            raise Violation('%s of %d bytes: [%s] is %s' % (kind, size, s, short(bytes(g)) if isinstance(s, slice) else g))


def short(b):
    h = b.hex()
    return h if len(h) <= 80 else '%s...%s (%d bytes)' % (h[:40], h[-20:], len(b))


def apply(kind, o, it, ref, w, i, step):
    """One write; returns True when it must succeed."""
    m, a, n = w[:3]
    size = ref.size
    d = data(i, n)
    if m == 'clear':
        (o if hasattr(o, 'clear') else it).clear()
        ref.clear()
        return
    ok = 0 <= a and a + n <= size and (a < size or n == 0)
    must = ok and (a < size)
    arg = FORMS[(i + step) % 3](d)
    if m == 'stepped':          # may be refused
        try:
            it[a:a + 2 * n:2] = arg
        except Exception:
            return
        for k in range(n):
            ref.put(a + 2 * k, d[k:k + 1])
        return
    if m == 'badslice':         # a slice and data of another length
        k = w[3]
        ok = must = False
    try:
        if m == 'write':
            wr(o, a, arg)
        elif m == 'slice':
            it[a:a + n] = arg
        elif m == 'badslice':
            it[a:a + k] = arg
        else:
            it[a] = d[0]
    except Exception as e:
        if must:
            raise Violation('%s of %d bytes: %s of %d bytes at %d raises %r' % (kind, size, m, n, a, e))
        return
    if not ok:
        if n == 0:
            return
        raise Violation('%s of %d bytes: %s of %d bytes at %d is not refused' % (kind, size, m, n, a))
    ref.put(a, d)


def ch_first(ch):
    """True in the first execution with these choices so far."""
    return not any(c for c, n in getattr(ch, 'prefix', ())[len(ch.points):])


def mem(ch, kind, size, ops, depth, grid, items, dumps=(), first=None, later=1):
    o, it = make(kind, size)
    if 'default' in kind:
        size = 1 << 64
        if o.size != size:
            raise Violation('%s: size is %r' % (kind, o.size))
    elif o.size != size or size < 1 << 63 and hasattr(o, '__len__') and len(o) != size:
        raise Violation('%s: size is %r' % (kind, o.size))
    ref = Ref(size)
    if not first:
        verify(kind, o, it, ref, grid, items, dumps)
    for s in range(depth):
        if s == 0 and first is not None:
            i = first
        elif later == 1:
            i = ch.choose(len(ops), 'op')
        else:       # every later-th operation, another selection after each first one
            i = (first + later * ch.choose(-(-(len(ops) - first % later) // later), 'op')) % len(ops)
        apply(kind, o, it, ref, ops[i], i, s)
        ch.step((kind, size, hash(ref.key())))
        if s == depth - 1 or s == 0 and ch_first(ch):
            verify(kind, o, it, ref, grid, items, dumps if s == depth - 1 else ())
    return 'ok'


def mem_in(ch, inp, **k):
    return mem(ch, first=inp, **k)


def dump_util(ch, inp):
    """The dump functions themselves."""
    n, start, length, row, offset = inp
    d = data(n, n)
    stop = min(start + length, n) if length else n
    kw = dict(start=start, length=length, row_size=row, prefix='>', offset=offset)
    lines = list(utils.hexdump_lines(d, **kw))
    want = [(k + offset, list(d[k:min(k + row, stop)])) for k in range(start, stop, row)]
    got = []
    for ln in lines:
        if ln[0] != '>':
            raise Violation('dump line without its prefix: %r' % ln)
        head, _, rest = ln[1:].partition(': ')
        got.append((int(head, 16), [int(t, 16) for t in rest[:3 * row].split()]))
    if got != want:
        raise Violation('hexdump_lines(%d bytes, %s) shows %s instead of %s' % (n, kw, got, want))
    if utils.hexdump_str(d, **kw) != '\n'.join(lines):
        raise Violation('hexdump_str differs from hexdump_lines')
    # leaving out an argument means its documented default
    dflt = dict(start=0, length=None, row_size=16, prefix='', offset=0)
    for fn in (utils.hexdump_lines, utils.hexdump_str):
        for k in dflt:
            few = {q: v for q, v in kw.items() if q != k}
            if fn(d, **few) != fn(d, **dict(few, **{k: dflt[k]})):
                raise Violation('%s without %s' % (fn.__name__, k))
    for k in dflt:
        few = {q: v for q, v in kw.items() if q != k}
        f, g = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(f):
            utils.hexdump(d, **few)
        with contextlib.redirect_stdout(g):
            utils.hexdump(d, **dict(few, **{k: dflt[k]}))
        if f.getvalue() != g.getvalue():
            raise Violation('hexdump without %s' % k)
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        utils.hexdump(d, **kw)
    if f.getvalue() != ''.join(ln + '\n' for ln in lines):
        raise Violation('hexdump differs from hexdump_lines')
    ch.step((inp,))
    return 'ok'
