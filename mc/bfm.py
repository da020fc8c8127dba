"""Harness-side bus peers, monitors and reference functions.

Everything here is written from the AMBA specifications and the README, not from
the code under test.  Peers behave like synchronous RTL: they see the values
just before a clock edge and change their outputs just after it.
"""
from cocotbext.axi import axi_channels as _ac, axil_channels as _alc
from .core import Violation

CHBUS = {(lite, c): getattr(_alc if lite else _ac, ('AxiLite' if lite else 'Axi') + c.upper() + 'Bus')
         for lite in (False, True) for c in ('aw', 'w', 'b', 'ar', 'r')}


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


class Chan:
    """A valid/ready channel: names its signals and records transfers."""

    def __init__(self, x, name, valid, ready, payload, driver, check_stable=True):
        self.x = x
        self.name = name
        self.valid = valid          # Sig
        self.ready = ready          # Sig or None
        self.payload = payload      # dict name -> Sig
        self.driver = driver        # 'lib' or 'env': who drives valid
        self.prev = None            # payload offered and not accepted at the previous edge
        self.fires = []             # (cycle, payload dict)
        self.fired = False
        self.check_stable = check_stable
        self.rst = None             # callable: True while in reset (stability not required)
        self.listeners = []
        x.monitors.append(self)

    def sample(self, x):
        v = self.valid is None or self.valid.val == '1'
        r = self.ready is None or self.ready.val == '1'
        self.fired = False
        if self.rst is not None and self.rst():
            self.prev = None
        if self.driver == 'lib' and self.valid is not None and self.valid.val not in '01':
            raise Violation('%s: valid is %r' % (self.name, self.valid.val))
        if self.driver == 'env' and self.ready is not None and self.ready.val not in '01':
            raise Violation('%s: ready is %r' % (self.name, self.ready.val))
        if v:
            pl = tuple([s.val for s in self.payload.values()])
        if self.prev is not None and self.check_stable:
            if not v:
                raise Violation('%s: valid withdrawn before the item was accepted (cycle %d)' % (self.name, x.cycles))
            if pl != self.prev:
                raise Violation('%s: payload changed while valid was waiting for ready: %s -> %s (cycle %d)' % (
                    self.name, dict(zip(self.payload, self.prev)), dict(zip(self.payload, pl)), x.cycles))
        self.prev = None
        if v and r:
            self.fired = True
            d = {k: s.val for k, s in self.payload.items()}
            self.fires.append((x.cycles, d))
            for f in self.listeners:
                f(d)
        elif v:
            self.prev = pl

    def state(self):
        return (self.prev, self.fired)


def ival(s, what='value'):
    try:
        return int(s, 2)
    except ValueError:
        raise Violation('%s contains x/z: %s' % (what, s))


class ReadyPeer:
    """Drives ready: each cycle a choice (0 = ready)."""

    def __init__(self, x, ch, label=None, mode='choose', cost=1):
        self.x = x
        self.ch = ch
        self.mode = mode
        self.label = label or ch.name + '.ready'
        self.cost = cost
        ch.ready.val = '0'
        if mode == 'lazy':
            x.after.append(self)
        else:
            x.procs.append(self)

    def settled(self, x):
        # ready is only looked at when valid is high at an edge: choose it then
        r = '0'
        if self.ch.valid.val == '1' and x.choose(2, self.label, self.cost) == 0:
            r = '1'
        if self.ch.ready.val != r:
            x.drive_now(self.ch.ready, int(r))

    def edge(self, x):
        if self.mode == 'always':
            r = 1
        elif self.mode == 'never':
            r = 0
        elif self.mode == 'choose':
            r = 1 - x.choose(2, self.label, self.cost)
        else:                      # a fixed repeating pattern
            r = self.mode[x.cycles % len(self.mode)]
        x.drive(self.ch.ready, r)


class ValidPeer:
    """Drives valid from a list of payload dicts; each item may be delayed by choice."""

    def __init__(self, x, ch, items=(), mode='choose', label=None, idle='0', cost=1, gate=None):
        self.x = x
        self.ch = ch
        self.items = list(items)
        self.pos = 0
        self.on = False
        self.mode = mode
        self.label = label or ch.name + '.valid'
        self.idle = idle
        self.cost = cost
        self.gate = gate
        self.sent = 0
        ch.valid.val = '0'
        for s in ch.payload.values():
            s.val = idle * s.width
        x.procs.append(self)

    def edge(self, x):
        if self.on and self.ch.fired:
            self.on = False
            self.sent += 1
        if not self.on:
            go = self.pos < len(self.items) and (self.gate is None or self.gate(self))
            if go:
                if self.mode == 'choose':
                    go = x.choose(2, self.label, self.cost) == 0
                elif self.mode == 'always':
                    go = True
                else:
                    go = bool(self.mode[x.cycles % len(self.mode)])
            if go:
                it = self.items[self.pos]
                self.pos += 1
                self.on = True
                x.drive(self.ch.valid, 1)
                for k, s in self.ch.payload.items():
                    x.drive(s, it.get(k, 0))
            else:
                x.drive(self.ch.valid, 0)
                for s in self.ch.payload.values():
                    x.drive(s, self.idle * s.width)

    @property
    def done(self):
        return self.pos >= len(self.items) and not self.on or (self.pos >= len(self.items) and self.ch.fired)


# ---------------------------------------------------------------- AXI reference

FIXED, INCR, WRAP = 0, 1, 2


def axi_beats(addr, length, size, burst, width_bytes):
    """Per-beat (address, lower lane, upper lane) from the AXI specification (A3.4).

    `length` = number of beats, `size` = log2 bytes per beat.
    """
    nb = 1 << size
    aligned = addr // nb * nb
    out = []
    wrap_lo = addr // (nb * length) * (nb * length)
    for n in range(length):
        if burst == FIXED:
            a = addr
        elif n == 0:
            a = addr
        else:
            a = aligned + n * nb
            if burst == WRAP:
                a = wrap_lo + (aligned - wrap_lo + n * nb) % (nb * length)
        base = a // width_bytes * width_bytes
        lo = a - base
        hi = a // nb * nb + nb - 1 - base
        out.append((a, lo, hi))
    return out


def lanes(wdata, wstrb, nbytes):
    """Enabled (lane, byte) pairs of one data beat."""
    return [(i, wdata >> 8 * i & 0xff) for i in range(nbytes) if wstrb >> i & 1]


# ---------------------------------------------------------------- signal sets

# how the bus object is made: by prefix, from unprefixed signals, with another separator, from separate channels
VIA = ('prefix', 'entity', 'sep', 'chan')


def viap(p, via):
    return {'prefix': p, 'entity': '', 'sep': p + '$', 'chan': p}[via]


def nm(p, k):
    return k if not p else p + k if p.endswith('$') else p + '_' + k


def mkbus(x, cls, p, via='prefix'):
    if via == 'chan':
        n = cls.__name__
        lite = 'Lite' in n
        g = lambda c: mkbus(x, CHBUS[lite, c], p)      # noqa: E731
        return cls.from_channels(*[g(c) for c in (('aw', 'w', 'b') if 'Write' in n else ('ar', 'r') if 'Read' in n else
                                                  ('aw', 'w', 'b', 'ar', 'r'))])
    if not p:
        return cls.from_entity(x.dut)
    if p.endswith('$'):
        return cls.from_prefix(x.dut, p[:-1], bus_separator='$')
    return cls.from_prefix(x.dut, p)


def axi_write_sigs(x, p, dw=32, aw=16, idw=4, opt=('awlock', 'awcache', 'awprot', 'awqos', 'awregion', 'awuser', 'wstrb',
                                                  'wuser', 'bresp', 'buser'), uw=4):
    W = dict(awid=idw, awaddr=aw, awlen=8, awsize=3, awburst=2, awlock=1, awcache=4, awprot=3, awqos=4, awregion=4,
             awuser=uw, wdata=dw, wstrb=dw // 8, wlast=1, wuser=uw, bid=idw, bresp=2, buser=uw)
    req = ('awid', 'awaddr', 'awlen', 'awsize', 'awburst', 'wdata', 'wlast', 'bid')
    d = {}
    for k, w in W.items():
        if k in req or k in opt:
            d[k] = x.sig(nm(p, k), w)
    for c in ('aw', 'w', 'b'):
        d[c + 'valid'] = x.sig(nm(p, c + 'valid'))
        d[c + 'ready'] = x.sig(nm(p, c + 'ready'))
    return d


def axi_read_sigs(x, p, dw=32, aw=16, idw=4, opt=('arlock', 'arcache', 'arprot', 'arqos', 'arregion', 'aruser', 'rresp',
                                                 'ruser'), uw=4):
    W = dict(arid=idw, araddr=aw, arlen=8, arsize=3, arburst=2, arlock=1, arcache=4, arprot=3, arqos=4, arregion=4,
             aruser=uw, rid=idw, rdata=dw, rresp=2, rlast=1, ruser=uw)
    req = ('arid', 'araddr', 'arlen', 'arsize', 'arburst', 'rid', 'rdata', 'rlast')
    d = {}
    for k, w in W.items():
        if k in req or k in opt:
            d[k] = x.sig(nm(p, k), w)
    for c in ('ar', 'r'):
        d[c + 'valid'] = x.sig(nm(p, c + 'valid'))
        d[c + 'ready'] = x.sig(nm(p, c + 'ready'))
    return d


def axil_write_sigs(x, p, dw=32, aw=16, opt=('awprot', 'wstrb', 'bresp')):
    W = dict(awaddr=aw, awprot=3, wdata=dw, wstrb=dw // 8, bresp=2)
    d = {}
    for k, w in W.items():
        if k in ('awaddr', 'wdata') or k in opt:
            d[k] = x.sig(nm(p, k), w)
    for c in ('aw', 'w', 'b'):
        d[c + 'valid'] = x.sig(nm(p, c + 'valid'))
        d[c + 'ready'] = x.sig(nm(p, c + 'ready'))
    return d


def axil_read_sigs(x, p, dw=32, aw=16, opt=('arprot', 'rresp')):
    W = dict(araddr=aw, arprot=3, rdata=dw, rresp=2)
    d = {}
    for k, w in W.items():
        if k in ('araddr', 'rdata') or k in opt:
            d[k] = x.sig(nm(p, k), w)
    for c in ('ar', 'r'):
        d[c + 'valid'] = x.sig(nm(p, c + 'valid'))
        d[c + 'ready'] = x.sig(nm(p, c + 'ready'))
    return d


def apb_sigs(x, p, dw=32, aw=16, opt=('pprot', 'pslverr')):
    W = dict(paddr=aw, psel=1, penable=1, pwrite=1, pwdata=dw, pstrb=dw // 8, pready=1, prdata=dw, pprot=3, pslverr=1)
    d = {}
    for k, w in W.items():
        if k not in ('pprot', 'pslverr') or k in opt:
            d[k] = x.sig(nm(p, k), w)
    return d


def mkchan(x, d, c, driver, name=None):
    """Channel c ('aw','w','b','ar','r') from a signal dict."""
    pl = {k: s for k, s in d.items() if k.startswith(c) and k[len(c):] not in ('valid', 'ready')
          and not (c == 'a')}
    # 'w' must not pick up nothing else; prefixes are unambiguous apart from none
    return Chan(x, name or c.upper(), d[c + 'valid'], d[c + 'ready'], pl, driver)
