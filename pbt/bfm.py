"""Native bus models: independent of the code under test.

All of them are clocked processes on sim.Sim: they see the values just before the
rising edge and drive with non-blocking semantics.  Timing choices come from the
case (finite integer lists used cyclically), never from a random generator.
"""

import hashlib

from .core import HarnessError, Violation, require

OKAY, EXOKAY, SLVERR, DECERR = 0, 1, 2, 3
FIXED, INCR, WRAP = 0, 1, 2


def gen_bytes(key, n):
    """Deterministic data: a few special patterns, otherwise pseudo-random."""
    if key == 0:
        return bytes(n)
    if key == 1:
        return b"\xff" * n
    if key == 2:
        return bytes((i + 1) & 0xff for i in range(n))
    return hashlib.shake_128(b"%d" % key).digest(n) if n else b""


def gen_int(key, bits):
    """A value of that many bits: 0, all ones, 1, top bit, or pseudo-random."""
    if bits <= 0:
        return 0
    m = (1 << bits) - 1
    if key == 0:
        return 0
    if key == 1:
        return m
    if key == 2:
        return 1
    if key == 3:
        return 1 << (bits - 1)
    return int.from_bytes(hashlib.shake_128(b"i%d" % key).digest((bits + 7) // 8), "little") & m


def wide(v, w):
    """The user value of w bits that stands for the small number v."""
    if w > 8:
        v = v * 0x9e3779b97f4a7c15 ^ v
    return v & ((1 << w) - 1)


class Cyc:
    """A finite list of choices, used cyclically.

    An element 1000 + n is n the first time, and ``after`` from then on."""

    def __init__(self, seq, after=0):
        self.seq = list(seq) or [0]
        self.after = after
        self.i = 0

    def next(self):
        v = self.seq[self.i]
        if isinstance(v, int) and v >= 1000:
            v -= 1000
            self.seq[self.i] = self.after
        self.i += 1
        if self.i == len(self.seq):
            self.i = 0
        return v


class RefMem:
    """Byte memory with a distinctive, address-dependent initial content."""

    def __init__(self, salt=0, zero=False):
        self.d = {}
        self.salt = salt
        self.zero = zero

    def init(self, a):
        if self.zero:
            return 0
        return (a * 167 + (a >> 8) * 59 + (a >> 16) * 31 + 13 + self.salt) & 0xff

    def get(self, a):
        v = self.d.get(a)
        return self.init(a) if v is None else v

    def read(self, a, n):
        return bytes(self.get(a + i) for i in range(n))

    def set(self, a, v):
        self.d[a] = v

    def write(self, a, data):
        for i, b in enumerate(data):
            self.d[a + i] = b

    def changed(self):
        return {a: v for a, v in self.d.items() if v != self.init(a)}


def beat_addresses(addr, size, length, burst):
    """Address of every transfer of a burst, from the AXI definition."""
    nb = 1 << size
    al = addr // nb * nb
    if burst == FIXED:
        return [addr] * length
    if burst == INCR:
        return [addr] + [al + i * nb for i in range(1, length)]
    cont = nb * length
    lo = al // cont * cont
    return [lo + (al - lo + i * nb) % cont for i in range(length)]


def beat_lanes(a, size, lanes):
    """Lane range [lo, hi) a transfer at address a may use."""
    nb = 1 << size
    lo = a % lanes
    hi = (a // nb * nb) % lanes + nb
    return lo, hi


# ------------------------------------------------------------------ channels

class Channel:
    """A valid/ready channel: nets, passive monitor and stability checker."""

    def __init__(self, sim, name, valid, ready, payload, rst=None, rst_level=1, stable=True,
                 x_ok=()):
        self.sim = sim
        self.name = name
        self.valid = valid
        self.ready = ready
        self.payload = payload        # {field: Net}
        self.items = list(payload.items())
        self.rst = rst
        self.rst_level = rst_level
        self.stable = stable
        self.log = []                 # (cycle, {field: value}) accepted transfers
        self.offers = []              # cycle in which valid was first seen, for each of them
        self.offer = None
        self.prev = None
        self.hooks = []
        self.n_stall = 0
        sim.on_sample(self._sample)

    def in_reset(self):
        return self.rst is not None and self.rst.v == self.rst_level

    def _sample(self):
        if self.in_reset():
            self.prev = self.offer = None
            return
        for n in (self.valid, self.ready):
            require(n is None or n.val is not None, "%s: handshake signal is undefined (cycle %d)", self.name, self.sim.cycle)
        v = 1 if self.valid is None else self.valid.v
        self.offer = (self.sim.cycle if self.offer is None else self.offer) if v else None
        r = 1 if self.ready is None else self.ready.v
        if self.prev is not None and self.stable:
            require(v, "%s: valid dropped before ready (cycle %d)", self.name, self.sim.cycle)
            for f, n in self.items:
                require(n.val == self.prev[f], "%s: %s changed from %s to %s while waiting for ready (cycle %d)",
                        self.name, f, self.prev[f], n.val, self.sim.cycle)
        self.prev = None
        if v:
            if r:
                d = {f: n.val for f, n in self.items}
                self.log.append((self.sim.cycle, d))
                self.offers.append(self.offer)
                self.offer = None
                for h in self.hooks:
                    h(d)
            else:
                self.n_stall += 1
                if self.valid is not None:
                    self.prev = {f: n.val for f, n in self.items}


class NSource:
    """Native driver of the source side of a channel."""

    def __init__(self, sim, valid, ready, payload, delays=(0,), rst=None, rst_level=1, junk=0):
        self.sim = sim
        self.valid = valid
        self.ready = ready
        self.payload = payload
        self.delays = Cyc(delays)
        self.q = []
        self.busy = False
        self.wait = 0
        self.rst = rst
        self.rst_level = rst_level
        self.junk = junk
        self.gate = None        # optional callable(item) -> bool: may the next item start now
        self.sent = 0
        if valid is not None:
            valid.put(0)
        for n in payload.values():
            n.put(n.mask if junk else 0)
        sim.on_clk(self._clk)

    def send(self, item):
        self.q.append(item)

    def idle(self):
        return not self.q and not self.busy

    def flush(self):
        self.q.clear()

    def _clk(self):
        if self.rst is not None and self.rst.v == self.rst_level:
            self.busy = False
            self.valid.nb(0)
            return
        if self.busy and (self.ready is None or self.ready.v):
            self.busy = False
            self.sent += 1
            self.wait = self.delays.next()
            if not (self.q and self.wait == 0 and (self.gate is None or self.gate(self.q[0]))):
                self.valid.nb(0)
                if self.junk:
                    for n in self.payload.values():
                        n.nb(n.mask)
        if not self.busy and self.q:
            if self.wait > 0:
                self.wait -= 1
                return
            if self.gate is not None and not self.gate(self.q[0]):
                return
            item = self.q.pop(0)
            for f, n in self.payload.items():
                n.nb(item.get(f, 0))
            self.valid.nb(1)
            self.busy = True


class NSink:
    """Native driver of ready; hands accepted items to ``take``.

    mode 0: ready follows the pattern; mode 1: ready is only raised after valid."""

    def __init__(self, sim, valid, ready, payload, pattern=(1,), take=None, mode=0, rst=None, rst_level=1):
        self.sim = sim
        self.valid = valid
        self.ready = ready
        self.payload = payload
        self.items = list(payload.items())
        self.pattern = Cyc(pattern if any(pattern) else (1,), after=1)
        self.stall = 0
        self.take = take
        self.mode = mode
        self.rst = rst
        self.rst_level = rst_level
        self.enable = True
        self.got = []
        if ready is not None:
            ready.put(0)
        sim.on_clk(self._clk)

    def _clk(self):
        if self.rst is not None and self.rst.v == self.rst_level:
            if self.ready is not None:
                self.ready.nb(0)
            return
        v = self.valid.v
        hs = v and (self.ready is None or self.ready.v)
        if hs:
            d = {f: n.v for f, n in self.items}
            if self.take is not None:
                self.take(d)
            else:
                self.got.append(d)
        if self.ready is not None:
            if not self.enable:
                self.ready.nb(0)
            elif self.mode and (hs or not v):
                self.ready.nb(0)
            elif self.stall:
                self.stall -= 1
                self.ready.nb(0)
            else:
                v = self.pattern.next()
                if v > 1:
                    self.stall = v
                    v = 0
                self.ready.nb(1 if v else 0)


# ------------------------------------------------------------------ AXI wiring

class AxiCfg:
    """Widths and the set of optional signals of an AXI interface."""

    OPT = ["awlock", "awcache", "awprot", "awqos", "awregion", "awuser", "wstrb", "wuser", "bresp", "buser",
           "arlock", "arcache", "arprot", "arqos", "arregion", "aruser", "rresp", "ruser"]

    def __init__(self, d):
        self.lanes = d["lanes"]
        self.aw = d["aw"]
        self.idw = d["idw"]
        self.uw = d.get("uw", 4)
        self.absent = set(d.get("absent", ()))
        self.max_size = (self.lanes - 1).bit_length()

    def signals(self):
        L, A, I, U = self.lanes, self.aw, self.idw, self.uw
        out = {}
        for p in ("aw", "ar"):
            out[p] = {p + "id": I, p + "addr": A, p + "len": 8, p + "size": 3, p + "burst": 2, p + "lock": 1,
                      p + "cache": 4, p + "prot": 3, p + "qos": 4, p + "region": 4, p + "user": U}
        out["w"] = {"wdata": L * 8, "wstrb": L, "wlast": 1, "wuser": U}
        out["b"] = {"bid": I, "bresp": 2, "buser": U}
        out["r"] = {"rid": I, "rdata": L * 8, "rresp": 2, "rlast": 1, "ruser": U}
        for ch in out:
            out[ch] = {k: w for k, w in out[ch].items() if k not in self.absent}
        return out


class Wires:
    """Nets of a multi-channel interface plus passive channel monitors."""

    def __init__(self, sim, prefix, chans, rst=None, rst_level=1, monitor=True):
        self.sim = sim
        self.prefix = prefix
        self.ch = {}
        self.mon = {}
        self.rst = rst
        self.rst_level = rst_level
        for ch, sigs in chans.items():
            p = prefix[ch] if isinstance(prefix, dict) else prefix + "_"     # a dict gives every channel its own
            pl = {s: sim.net(p + s, w) for s, w in sigs.items()}
            v = sim.net(p + ch + "valid", 1)
            r = sim.net(p + ch + "ready", 1)
            self.ch[ch] = (v, r, pl)
            if monitor:
                self.mon[ch] = Channel(sim, p + ch, v, r, pl, rst, rst_level)

    def source(self, ch, **kw):
        v, r, pl = self.ch[ch]
        return NSource(self.sim, v, r, pl, rst=self.rst, rst_level=self.rst_level, **kw)

    def sink(self, ch, **kw):
        v, r, pl = self.ch[ch]
        return NSink(self.sim, v, r, pl, rst=self.rst, rst_level=self.rst_level, **kw)


class AxiSlaveBfm:
    """Adversarial AXI subordinate with its own memory.

    * accepts AW and W independently (W may be accepted long before AW)
    * commits write data in AW order, answers bursts in any order that keeps
      same-ID order, and interleaves read data of different IDs
    * response codes, user values and delays come from the case
    """

    def __init__(self, sim, wires, cfg, mem, t, ports="wr"):
        self.sim = sim
        self.cfg = cfg
        self.mem = mem
        self.t = t
        self.writes = []      # completed write bursts {aw, beats, resp, user}
        self.reads = []       # read bursts {ar, beats: [(data, resp, user)]}
        self.awq, self.wq = [], []
        self.pend_b = []      # bursts waiting for their response
        self.pend_r = []
        self.resp = Cyc(t.get("resp", (0,)))
        self.user = Cyc(t.get("user", (0,)))
        self.pick = Cyc(t.get("pick", (0,)))
        self.hold = Cyc(t.get("hold", (0,)))
        wires_ = wires
        if "w" in ports:
            self.aw = wires_.sink("aw", pattern=t.get("awready", (1,)), mode=t.get("awmode", 0), take=self._aw)
            self.w = wires_.sink("w", pattern=t.get("wready", (1,)), mode=t.get("wmode", 0), take=self._w)
            self.b = wires_.source("b", delays=t.get("bdelay", (0,)), junk=1)
        if "r" in ports:
            self.ar = wires_.sink("ar", pattern=t.get("arready", (1,)), mode=t.get("armode", 0), take=self._ar)
            self.r = wires_.source("r", delays=t.get("rdelay", (0,)), junk=1)
        self.ports = ports
        self.rst = wires.rst
        self.rst_level = wires.rst_level
        sim.on_clk(self._clk)

    def _aw(self, d):
        self.awq.append(d)

    def _w(self, d):
        self.wq.append(d)

    def _ar(self, d):
        n = d["arlen"] + 1
        size, burst = d["arsize"], d["arburst"]
        require((1 << size) <= self.cfg.lanes, "read burst wider than the bus: size %d", size)
        L = self.cfg.lanes
        beats = []
        for a in beat_addresses(d["araddr"], size, n, burst):
            # only the addressed lanes carry data; the others carry junk
            lo, hi = beat_lanes(a, size, L)
            base = a // L * L
            v = 0
            for j in range(L):
                v |= (self.mem.get(base + j) if lo <= j < hi else 0xA5 ^ j & 0xff) << (8 * j)
            beats.append([v, self.resp.next() & 3, wide(self.user.next(), self.cfg.uw)])
        rec = {"ar": d, "beats": beats, "next": 0, "hold": self.hold.next()}
        self.reads.append(rec)
        self.pend_r.append(rec)

    def _clk(self):
        if self.rst is not None and self.rst.v == self.rst_level:
            self.awq.clear()
            self.wq.clear()
            self.pend_b.clear()
            self.pend_r.clear()
            if "w" in self.ports:
                self.b.flush()
            if "r" in self.ports:
                self.r.flush()
            return
        while self.awq:
            n = self.awq[0]["awlen"] + 1
            if len(self.wq) < n:
                for k, w in enumerate(self.wq):
                    require(not w["wlast"], "wlast on beat %d of a burst of %d", k, n)
                break
            aw = self.awq.pop(0)
            beats, self.wq = self.wq[:n], self.wq[n:]
            self._commit(aw, beats)
        for p in self.pend_b:
            if p["hold"] > 0:
                p["hold"] -= 1
        for p in self.pend_r:
            if p["hold"] > 0:
                p["hold"] -= 1
        if self.pend_b and len(self.b.q) == 0:
            p = self._choose(self.pend_b, lambda p: p["aw"]["awid"])
            if p is not None:
                self.pend_b.remove(p)
                self.b.send({"bid": p["aw"]["awid"], "bresp": p["resp"], "buser": p["user"]})
        if self.pend_r and len(self.r.q) == 0:
            p = self._choose(self.pend_r, lambda p: p["ar"]["arid"])
            if p is not None:
                k = p["next"]
                p["next"] += 1
                last = p["next"] == len(p["beats"])
                if last:
                    self.pend_r.remove(p)
                v, resp, user = p["beats"][k]
                self.r.send({"rid": p["ar"]["arid"], "rdata": v, "rresp": resp, "rlast": int(last), "ruser": user})

    def _choose(self, pend, key):
        heads, seen = [], set()
        for p in pend:
            if key(p) not in seen:
                seen.add(key(p))
                if p["hold"] == 0:
                    heads.append(p)
        if not heads:
            return None
        return heads[self.pick.next() % len(heads)]

    def _commit(self, aw, beats):
        n = len(beats)
        size, burst = aw["awsize"], aw["awburst"]
        L = self.cfg.lanes
        require((1 << size) <= L, "write burst wider than the bus: size %d", size)
        full = (1 << L) - 1
        for k, (a, w) in enumerate(zip(beat_addresses(aw["awaddr"], size, n, burst), beats)):
            require(w["wlast"] == (1 if k == n - 1 else 0), "wlast=%d on beat %d of a burst of %d", w["wlast"], k, n)
            strb = w.get("wstrb", None)
            lo, hi = beat_lanes(a, size, L)
            if strb is None:
                # without strobes every lane of the transfer is written
                strb = full & ~((1 << (a // (1 << size) * (1 << size)) % L) - 1)
                strb = (((1 << (1 << size)) - 1) << ((a // (1 << size) * (1 << size)) % L)) & full
            else:
                legal = ((1 << hi) - 1) & ~((1 << lo) - 1)
                require(strb & ~legal == 0, "strobe %#x outside the lanes [%d,%d) of the transfer at %#x", strb, lo, hi, a)
            base = a // L * L
            for j in range(L):
                if strb >> j & 1:
                    self.mem.set(base + j, (w["wdata"] >> (8 * j)) & 0xff)
        rec = {"aw": aw, "beats": beats, "resp": self.resp.next() & 3,
               "user": wide(self.user.next(), self.cfg.uw), "hold": self.hold.next()}
        self.writes.append(rec)
        self.pend_b.append(rec)


# ------------------------------------------------------------------ AXI-Lite

def axil_signals(d):
    L, A = d["lanes"], d["aw"]
    absent = set(d.get("absent", ()))
    out = {"aw": {"awaddr": A, "awprot": 3}, "w": {"wdata": L * 8, "wstrb": L}, "b": {"bresp": 2},
           "ar": {"araddr": A, "arprot": 3}, "r": {"rdata": L * 8, "rresp": 2}}
    return {ch: {k: w for k, w in s.items() if k not in absent} for ch, s in out.items()}


class AxilSlaveBfm:
    """AXI-Lite subordinate: AW and W accepted independently, answers in order."""

    def __init__(self, sim, wires, d, mem, t):
        self.lanes = d["lanes"]
        self.mem = mem
        self.writes, self.reads = [], []
        self.awq, self.wq = [], []
        self.resp = Cyc(t.get("resp", (0,)))
        self.hold = Cyc(t.get("hold", (0,)))
        self.rst, self.rst_level = wires.rst, wires.rst_level
        self.aw = wires.sink("aw", pattern=t.get("awready", (1,)), mode=t.get("awmode", 0), take=self.awq.append)
        self.w = wires.sink("w", pattern=t.get("wready", (1,)), mode=t.get("wmode", 0), take=self.wq.append)
        self.b = wires.source("b", delays=t.get("bdelay", (0,)), junk=1)
        self.ar = wires.sink("ar", pattern=t.get("arready", (1,)), mode=t.get("armode", 0), take=self._ar)
        self.r = wires.source("r", delays=t.get("rdelay", (0,)), junk=1)
        sim.on_clk(self._clk)

    def _ar(self, d):
        a = d["araddr"] // self.lanes * self.lanes
        data = self.mem.read(a, self.lanes)
        resp = self.resp.next() & 3
        self.reads.append((d, data, resp))
        self.r.send({"rdata": int.from_bytes(data, "little"), "rresp": resp})

    def _clk(self):
        if self.rst is not None and self.rst.v == self.rst_level:
            self.awq.clear()
            self.wq.clear()
            self.b.flush()
            self.r.flush()
            return
        while self.awq and self.wq:
            d, w = self.awq.pop(0), self.wq.pop(0)
            a = d["awaddr"] // self.lanes * self.lanes
            strb = w.get("wstrb", (1 << self.lanes) - 1)
            for j in range(self.lanes):
                if strb >> j & 1:
                    self.mem.set(a + j, w["wdata"] >> 8 * j & 0xff)
            resp = self.resp.next() & 3
            self.writes.append((d, w, resp))
            self.b.send({"bresp": resp})


# ------------------------------------------------------------------ APB

def apb_signals(d):
    L, A = d["lanes"], d["aw"]
    absent = set(d.get("absent", ()))
    out = {"paddr": A, "psel": 1, "penable": 1, "pwrite": 1, "pwdata": 8 * L, "pstrb": L, "pready": 1, "prdata": 8 * L,
           "pprot": 3, "pslverr": 1}
    return {k: w for k, w in out.items() if k not in absent}


class ApbWires:
    def __init__(self, sim, prefix, d, rst=None, rst_level=1, monitor=True):
        p = prefix["p"] if isinstance(prefix, dict) else prefix + "_"
        self.n = {s: sim.net(p + s, w) for s, w in apb_signals(d).items()}
        self.sim = sim
        self.rst, self.rst_level = rst, rst_level
        self.log = []        # completed transfers
        self.prev = None     # (psel, penable, ctrl, completed)
        if monitor:
            sim.on_sample(self._sample)

    def _sample(self):
        n = self.n
        if self.rst is not None and self.rst.v == self.rst_level:
            self.prev = None
            return
        psel, pen = n["psel"].v, n["penable"].v
        cyc = self.sim.cycle
        ctrl = None
        if psel:
            ctrl = {k: n[k].v for k in ("paddr", "pwrite", "pwdata", "pstrb", "pprot") if k in n}
            if not ctrl["pwrite"]:
                ctrl.pop("pwdata")
                require(ctrl["pstrb"] == 0, "pstrb %#x during a read (cycle %d)", ctrl["pstrb"], cyc)
        else:
            require(not pen, "penable without psel (cycle %d)", cyc)
        p = self.prev
        setup_before = p is not None and p[0] and not p[3]
        if setup_before:
            require(psel and pen, "transfer abandoned or access phase missing after setup (cycle %d)", cyc)
            require(ctrl == p[2], "address/control/data changed during a transfer: %s -> %s (cycle %d)", p[2], ctrl, cyc)
        elif psel:
            require(not pen, "penable high in the first cycle of a transfer (cycle %d)", cyc)
        done = bool(psel and pen and n["pready"].v)
        if done:
            self.log.append((cyc, dict(ctrl), n["prdata"].v, n["pslverr"].v if "pslverr" in n else 0))
        self.prev = (psel, pen, ctrl, done)


class ApbSlaveBfm:
    """APB completer with wait states; pready/prdata/pslverr carry junk outside the access phase."""

    def __init__(self, sim, wires, d, mem, t):
        self.sim, self.w, self.mem, self.lanes = sim, wires, mem, d["lanes"]
        self.waits = Cyc(t.get("waits", (0,)))
        self.resp = Cyc(t.get("resp", (0,)))
        self.idle_ready = Cyc(t.get("idle_ready", (0,)))
        self.accesses = []
        self.count = None
        n = wires.n
        n["pready"].put(0)
        n["prdata"].put(n["prdata"].mask)
        if "pslverr" in n:
            n["pslverr"].put(0)
        sim.on_clk(self._clk)

    def _junk(self):
        n = self.w.n
        n["pready"].nb(self.idle_ready.next() & 1)
        n["prdata"].nb(n["prdata"].mask)
        if "pslverr" in n:
            n["pslverr"].nb(1)

    def _clk(self):
        n = self.w.n
        if self.w.rst is not None and self.w.rst.v == self.w.rst_level:
            n["pready"].nb(0)
            self.count = None
            return
        psel, pen = n["psel"].v, n["penable"].v
        if psel and not pen:
            self.count = self.waits.next()
        elif psel and pen and self.count is not None and n["pready"].v:
            self.count = None
            self._junk()
            return
        elif not (psel and pen and self.count is not None):
            self.count = None
            self._junk()
            return
        # the coming cycle is an access cycle
        if self.count > 0:
            self.count -= 1
            n["pready"].nb(0)
            n["prdata"].nb(n["prdata"].mask)
            if "pslverr" in n:
                n["pslverr"].nb(1)
            return
        a = n["paddr"].v // self.lanes * self.lanes
        err = 1 if self.resp.next() else 0
        if n["pwrite"].v:
            strb = n["pstrb"].v
            for j in range(self.lanes):
                if strb >> j & 1:
                    self.mem.set(a + j, n["pwdata"].v >> 8 * j & 0xff)
            n["prdata"].nb(n["prdata"].mask)
            self.accesses.append(("w", n["paddr"].v, n["pwdata"].v, strb, err))
        else:
            n["prdata"].nb(int.from_bytes(self.mem.read(a, self.lanes), "little"))
            self.accesses.append(("r", n["paddr"].v, None, None, err))
        n["pready"].nb(1)
        if "pslverr" in n:
            n["pslverr"].nb(err)
