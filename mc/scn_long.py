"""Long histories: library source, sink and monitor on one bus, many items, users of every kind."""
from .core import Exec, Violation                       # noqa: F401
from .bfm import Chan, need, ival
from .scn_chan import mkbus, item
from .scn_axis import _cyc, Geo                         # noqa: F401
from cocotb.queue import QueueEmpty, QueueFull
from cocotbext.axi import AxiStreamBus, AxiStreamSource, AxiStreamSink, AxiStreamMonitor


def channel(ch, inp):
    """(channel, items, pause of the source, of the sink, limit of the source, of the sink, sender, receiver)"""
    name, n, sp, kp, sl, kl, sender, receiver = inp
    x = Exec(ch)
    cls, bus, S, v, r, fields = mkbus(x, name)
    c = Chan(x, name, v, r, S, 'lib')
    seen = []
    c.listeners.append(lambda d: seen.append({k: ival(q, k) for k, q in d.items()}))
    src, snk, mon = (k(bus, x.clk, x.rst) for k in cls[2:5])
    if sl:
        src.queue_occupancy_limit = sl
    if kl:
        snk.queue_occupancy_limit = kl
    x.settle()
    for comp, pat in ((src, sp), (snk, kp)):
        if pat:
            x.call(comp.set_pause_generator, _cyc(pat))
    got, mgot = [], []
    want = [item(name, i) for i in range(n)]
    sent = [0]

    def mk(i):
        t = cls[1]()
        for k, val in want[i].items():
            setattr(t, k, val)
        return t

    async def send():
        while sent[0] < n:
            await src.send(mk(sent[0]))
            sent[0] += 1

    async def recv():
        while True:
            got.append(await snk.recv())

    async def waitrecv():
        while True:
            await snk.wait()
            while not snk.empty():
                got.append(snk.recv_nowait())
    if sender == 'block':
        x.spawn(send())
    elif sender == 'all':
        for i in range(n):
            x.call(src.send_nowait, mk(i))
        sent[0] = n
    if receiver == 'block':
        x.spawn(recv())
    elif receiver == 'wait':
        x.spawn(waitrecv())
    limit = 8 * n + 40
    for k in range(limit):
        if sender == 'try' and sent[0] < n:
            try:
                x.call(src.send_nowait, mk(sent[0]))
                sent[0] += 1
            except QueueFull:
                need(sl and src.count() >= sl, 'send_nowait() refuses item %d with %d queued', sent[0], src.count())
        x.cycle()
        if receiver == 'poll' and k % 3 == 0 or receiver == 'late' and k > 3 * n:
            try:
                while True:
                    got.append(x.call(snk.recv_nowait))
            except QueueEmpty:
                pass
        while not mon.empty():
            mgot.append(mon.recv_nowait())
        if k > 3 * n and len(got) == n:
            break
    need(len(seen) == n, '%d of %d items were transferred', len(seen), n)
    for what, l in (('sink', got), ('monitor', mgot)):
        need(len(l) == n, '%s returned %d of %d items', what, len(l), n)
        for i, t in enumerate(l):
            repr(t)
            for f in S:
                need(int(getattr(t, f)) == want[i][f], '%s: field %s of item %d is %s instead of %s', what, f, i, getattr(t, f), want[i][f])
    for i, d in enumerate(seen):
        need(d == {f: want[i][f] for f in d}, 'item %d on the bus is %s', i, d)
    need(src.idle() and src.empty() and snk.empty() and mon.empty(), 'not idle and empty at the end')
    x.close()
    return 'ok'


def bytestream(ch, inp):
    """(geometry, frame lengths, pauses, limits of the sink in frames and bytes, read counts, form): a byte stream read in pieces"""
    g, lens, sp, kp, fl, bl, counts, form = inp
    x = Exec(ch)
    S = g.build(x)
    g.chan(x, S, 'lib')
    bus = lambda: g.bus(x)      # noqa: E731
    src = AxiStreamSource(bus(), x.clk, x.rst, **g.kw())
    snk = AxiStreamSink(bus(), x.clk, x.rst, **g.kw())
    mon = AxiStreamMonitor(bus(), x.clk, x.rst, **g.kw())
    if fl:
        snk.queue_occupancy_limit_frames = fl
    if bl:
        snk.queue_occupancy_limit_bytes = bl
    x.settle()
    for comp, pat in ((src, sp), (snk, kp)):
        if pat:
            x.call(comp.set_pause_generator, _cyc(pat))
    m = (1 << g.bs) - 1
    want = []
    for i, n in enumerate(lens):
        d = [(i * 31 + k * 7 + (k >> 5) + 3) & m for k in range(n)]
        want += d
        x.call(src.write_nowait, bytearray(d) if g.bs == 8 and i % 2 else d)
    got, mgot = [], []
    full = []
    done = []

    def piece(comp, dst, n, d):
        need(n is None or n < 0 or len(d) <= n, 'read(%s) returns %d', n, len(d))
        dst += list(d)

    async def reader(comp, dst):
        k = 0
        while len(dst) < len(want):
            n = counts[k % len(counts)]
            d = await comp.read(n)
            need(len(d) or n == 0, 'read(%d) returned nothing', n)
            piece(comp, dst, n, d)
            k += 1
        done.append(comp)
    if form == 'block':
        x.spawn(reader(snk, got))
        x.spawn(reader(mon, mgot))
    kk = [0, 0]
    beats = sum(-(-n // g.lanes) for n in lens)
    for k in range(6 * beats + 4 * len(want) + 60):
        x.cycle()
        if form == 'poll':
            for j, (comp, dst) in enumerate(((snk, got), (mon, mgot))):
                if (k + j) % 3:
                    continue
                n = counts[kk[j] % len(counts)]
                # a byte count is satisfied, as far as the bytes are there, over as many frames as it takes
                try:
                    d = x.call(comp.read_nowait, n)
                except QueueEmpty:
                    need(comp.empty(), 'read_nowait() finds nothing although frames are queued')
                    continue
                kk[j] += 1
                piece(comp, dst, n, d)
        elif form == 'late' and k == 3 * beats + 30:
            for j, (comp, dst) in enumerate(((snk, got), (mon, mgot))):
                if fl or bl:
                    full.append(comp.count())
                kk = 0
                while len(dst) < len(want) and not (fl or bl):
                    n = counts[kk % len(counts)]
                    kk += 1
                    d = x.call(comp.read_nowait, n)
                    left = len(want) - len(dst)
                    need(len(d) == (left if n is None or n < 0 else min(n, left)), 'read_nowait(%s) with %d bytes available returns %d', n, left, len(d))
                    piece(comp, dst, n, d)
            if fl or bl:
                break
        if len(got) >= len(want) and len(mgot) >= len(want) and k > 3 * beats:
            break
    if form == 'late' and (fl or bl):
        need(full[1] == len(lens) or full[0] < len(lens), 'monitor has %d frames', full[1])
    else:
        need(got == want, 'sink: %d bytes read, %d sent; first difference at %s', len(got), len(want),
             next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None))
        need(mgot == want, 'monitor: %d bytes read, %d sent', len(mgot), len(want))
    x.close()
    return 'ok'


def timeout(ch, inp):
    """(component, cycle at which an item is sent or None, timeout in clock periods): wait() on a sink or monitor.

    It returns at the edge at which the item arrives, or when the time is over, never earlier or later."""
    comp, arrive, tmo, unit = inp
    x = Exec(ch)
    if comp.startswith('axis'):
        g = Geo(2, 8)
        S = g.build(x)
        g.chan(x, S, 'lib')
        bus = lambda: g.bus(x)      # noqa: E731
        src = AxiStreamSource(bus(), x.clk, x.rst, **g.kw())
        snk = AxiStreamSink(bus(), x.clk, x.rst, **g.kw())
        mon = AxiStreamMonitor(bus(), x.clk, x.rst, **g.kw())
        obj = bytearray(b'ab')
    else:
        cls, bus, S, v, r, fields = mkbus(x, 'gen')
        Chan(x, 'gen', v, r, S, 'lib')
        src, snk, mon = (k(bus, x.clk, x.rst) for k in cls[2:5])
        obj = cls[1](**item('gen', 1))
    c = mon if comp.endswith('monitor') else snk
    x.settle()
    x.cycle(2)
    for rnd in range(2):
        t0 = x.sim.time
        if tmo is None:
            w = x.start(c.wait())
        else:
            w = x.start(c.wait(tmo * 10 if unit == 'step' else tmo * 10, unit))
        came = None
        c0 = x.cycles
        if arrive == -1:
            need(False, 'unreachable')
        for k in range(14):
            if arrive is not None and k == arrive:
                x.call(src.send_nowait, obj)
            x.cycle_begin()
            if came is None and not c.empty():
                came = x.sim.time
            due = min([t for t in (came, t0 + tmo * 10 if tmo else None) if t is not None], default=None)
            x.cycle_finish()
            need(w.done == (due is not None and due <= x.sim.time), '%s: wait(%s) after %d cycles (item at %s): returned is %s', comp, tmo, x.cycles - c0, came, w.done)
            if w.done:
                need(w.exc is None and w.t_done == due, '%s: wait(%s) returned at %s instead of %s (%r)', comp, tmo, w.t_done, due, w.exc)
        if came is not None:
            need(c.count() == 1, 'wait() changed the queue')
            w2 = x.start(c.wait() if tmo is None else c.wait(tmo, unit))
            need(w2.done, 'wait() with a queued item does not return at once')
            x.call(c.recv_nowait)
            if c is snk:
                mon.recv_nowait()
            else:
                snk.recv_nowait()
        need(c.empty(), 'not empty')
        if came is None and arrive is not None:
            return 'no arrival'
    if not w.done:
        x.call(src.send_nowait, obj)
        x.cycle(4)
        need(w.done, 'wait() did not return')
    x.close()
    return 'ok'
