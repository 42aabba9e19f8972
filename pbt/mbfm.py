"""Native bus managers (masters): they drive the library's slaves and RAMs."""

from .core import require
from .bfm import FIXED, INCR, WRAP, AxiCfg, beat_addresses, beat_lanes, gen_bytes, gen_int, Cyc


def burst_beats(cfg, b):
    """[(beat address, word base, strobe, lane data bytes)] of a write burst; strobes inside the legal lanes."""
    L = cfg["lanes"]
    addrs = beat_addresses(b["a"], b["s"], b["n"], b["b"])
    out = []
    data = gen_bytes(b["key"], L * len(addrs))
    nostrb = "wstrb" in cfg["absent"]
    for k, a in enumerate(addrs):
        lo, hi = beat_lanes(a, b["s"], L)
        legal = ((1 << hi) - 1) & ~((1 << lo) - 1)
        st = b.get("st", [None])
        m = st[k % len(st)]
        strb = legal if m is None else legal & gen_int(m, L)
        if nostrb:
            strb = (1 << L) - 1
        out.append((a, a // L * L, strb, data[k * L:(k + 1) * L]))
    return out


class AxiMasterBfm:
    """Sends bursts; collects responses per ID.  Address and data channels run independently."""

    def __init__(self, sim, wires, cfg, t):
        self.sim, self.cfg = sim, cfg
        self.rst, self.rst_level = wires.rst, wires.rst_level
        self.aw = wires.source("aw", delays=t.get("awdelay", (0,)), junk=1)
        self.w = wires.source("w", delays=t.get("wdelay", (0,)), junk=1)
        self.ar = wires.source("ar", delays=t.get("ardelay", (0,)), junk=1)
        self.b = wires.sink("b", pattern=t.get("bready", (1,)), mode=t.get("bmode", 0), take=self._b)
        self.r = wires.sink("r", pattern=t.get("rready", (1,)), mode=t.get("rmode", 0), take=self._r)
        aw0, w0 = t.get("aw0", 0), t.get("w0", 0)
        if aw0:
            self.aw.gate = lambda item: sim.cycle >= aw0
        if w0:
            self.w.gate = lambda item: sim.cycle >= w0
        self.wpend, self.rpend = {}, {}
        self.outstanding = 0
        self.on_b = None
        self.completed = []

    def send(self, i, b):
        cfg = self.cfg
        if b["k"] == "w":
            beats = burst_beats(cfg, b)
            self.aw.send({"awid": b["id"], "awaddr": b["a"], "awlen": b["n"] - 1, "awsize": b["s"], "awburst": b["b"],
                          "awcache": 3, "awprot": b.get("prot", 2)})
            for k, (a, base, strb, data) in enumerate(beats):
                self.w.send({"wdata": int.from_bytes(data, "little"), "wstrb": strb, "wlast": int(k == len(beats) - 1)})
            rec = {"i": i, "b": b, "beats": beats, "resp": None}
            self.wpend.setdefault(b["id"], []).append(rec)
        else:
            self.ar.send({"arid": b["id"], "araddr": b["a"], "arlen": b["n"] - 1, "arsize": b["s"], "arburst": b["b"],
                          "arcache": 3, "arprot": b.get("prot", 2)})
            rec = {"i": i, "b": b, "addrs": beat_addresses(b["a"], b["s"], b["n"], b["b"]), "data": [], "resp": []}
            self.rpend.setdefault(b["id"], []).append(rec)
        self.outstanding += 1
        return rec

    def flush(self):
        for c in (self.aw, self.w, self.ar):
            c.flush()
        self.wpend.clear()
        self.rpend.clear()
        self.outstanding = 0

    def _b(self, d):
        q = self.wpend.get(d["bid"])
        require(q, "write response with ID %d that has no outstanding burst", d["bid"])
        rec = q.pop(0)
        rec["resp"] = d.get("bresp", 0)
        rec["cycle"] = self.sim.cycle
        self.outstanding -= 1
        self.completed.append(rec["i"])
        n = rec["b"]["n"]
        if self.on_b is not None:
            self.on_b(rec)

    def _r(self, d):
        q = self.rpend.get(d["rid"])
        require(q, "read data with ID %d that has no outstanding burst", d["rid"])
        rec = q[0]
        rec["data"].append(d["rdata"])
        rec["resp"].append(d.get("rresp", 0))
        last = len(rec["data"]) == rec["b"]["n"]
        require(bool(d["rlast"]) == last, "rlast=%d on transfer %d of %d", d["rlast"], len(rec["data"]), rec["b"]["n"])
        if last:
            q.pop(0)
            self.outstanding -= 1
            self.completed.append(rec["i"])


class AxilMasterBfm:
    def __init__(self, sim, wires, cfg, t):
        self.sim, self.cfg = sim, cfg
        self.aw = wires.source("aw", delays=t.get("awdelay", (0,)), junk=1)
        self.w = wires.source("w", delays=t.get("wdelay", (0,)), junk=1)
        self.ar = wires.source("ar", delays=t.get("ardelay", (0,)), junk=1)
        self.b = wires.sink("b", pattern=t.get("bready", (1,)), mode=t.get("bmode", 0), take=self._b)
        self.r = wires.sink("r", pattern=t.get("rready", (1,)), mode=t.get("rmode", 0), take=self._r)
        aw0, w0 = t.get("aw0", 0), t.get("w0", 0)
        if aw0:
            self.aw.gate = lambda item: sim.cycle >= aw0
        if w0:
            self.w.gate = lambda item: sim.cycle >= w0
        self.wpend, self.rpend = [], []
        self.outstanding = 0
        self.on_b = None

    def send(self, i, b):
        L = self.cfg["lanes"]
        if b["k"] == "w":
            strb = gen_int(b["st"][0], L) if b["st"][0] is not None else (1 << L) - 1
            if "wstrb" in self.cfg["absent"]:
                strb = (1 << L) - 1
            data = gen_bytes(b["key"], L)
            self.aw.send({"awaddr": b["a"], "awprot": 2})
            self.w.send({"wdata": int.from_bytes(data, "little"), "wstrb": strb})
            rec = {"i": i, "b": b, "beats": [(b["a"], b["a"] // L * L, strb, data)], "resp": None}
            self.wpend.append(rec)
        else:
            self.ar.send({"araddr": b["a"], "arprot": 2})
            rec = {"i": i, "b": b, "addrs": [b["a"]], "data": [], "resp": []}
            self.rpend.append(rec)
        self.outstanding += 1
        return rec

    flush = AxiMasterBfm.flush

    def _b(self, d):
        require(self.wpend, "write response without an outstanding write")
        rec = self.wpend.pop(0)
        rec["resp"] = d.get("bresp", 0)
        self.outstanding -= 1
        if self.on_b is not None:
            self.on_b(rec)

    def _r(self, d):
        require(self.rpend, "read data without an outstanding read")
        rec = self.rpend.pop(0)
        rec["data"].append(d["rdata"])
        rec["resp"].append(d.get("rresp", 0))
        self.outstanding -= 1


class ApbMasterBfm:
    """APB requester: one transfer at a time, random gaps, back-to-back transfers when the gap is zero."""

    def __init__(self, sim, wires, cfg, t):
        self.sim, self.cfg, self.w = sim, cfg, wires
        self.gaps = Cyc(t.get("gaps", (0,)))
        self.q = []
        self.cur = None
        self.state = 0       # 0 idle, 1 setup driven, 2 access driven
        self.wait = 0
        self.outstanding = 0
        self.on_b = None
        self.waits_seen = 0
        for s, n in wires.n.items():
            if s not in ("pready", "prdata", "pslverr"):
                n.put(0)
        sim.on_clk(self._clk)

    def send(self, i, b):
        L = self.cfg["lanes"]
        if b["k"] == "w":
            strb = gen_int(b["st"][0], L) if b["st"][0] is not None else (1 << L) - 1
            data = gen_bytes(b["key"], L)
            rec = {"i": i, "b": b, "beats": [(b["a"], b["a"] // L * L, strb, data)], "resp": None}
        else:
            rec = {"i": i, "b": b, "addrs": [b["a"]], "data": [], "resp": []}
        self.q.append(rec)
        self.outstanding += 1
        return rec

    def flush(self):
        self.q.clear()
        self.cur = None
        self.outstanding = 0

    def _clk(self):
        n = self.w.n
        if self.w.rst is not None and self.w.rst.v == self.w.rst_level:
            n["psel"].nb(0)
            n["penable"].nb(0)
            self.state = 0
            return
        if self.state == 2:
            if not n["pready"].v:
                self.waits_seen += 1
                return
            rec = self.cur
            err = 2 * n["pslverr"].v if "pslverr" in n else 0
            if rec["b"]["k"] == "w":
                rec["resp"] = err
            else:
                rec["data"].append(n["prdata"].v)
                rec["resp"].append(err)
            self.outstanding -= 1
            self.cur = None
            self.state = 0
            self.wait = self.gaps.next()
            if rec["b"]["k"] == "w" and self.on_b is not None:
                self.on_b(rec)
        if self.state == 1:
            n["penable"].nb(1)
            self.state = 2
            return
        if self.state == 0:
            if self.q and self.wait == 0:
                rec = self.cur = self.q.pop(0)
                b = rec["b"]
                n["psel"].nb(1)
                n["penable"].nb(0)
                n["paddr"].nb(b["a"])
                n["pwrite"].nb(int(b["k"] == "w"))
                if "pprot" in n:
                    n["pprot"].nb(2)
                if b["k"] == "w":
                    _, _, strb, data = rec["beats"][0]
                    n["pstrb"].nb(strb)
                    n["pwdata"].nb(int.from_bytes(data, "little"))
                else:
                    n["pstrb"].nb(0)
                    n["pwdata"].nb(n["pwdata"].mask)
                self.state = 1
            else:
                self.wait = max(0, self.wait - 1)
                n["psel"].nb(0)
                n["penable"].nb(0)
                for s in ("paddr", "pwdata"):
                    n[s].nb(n[s].mask)
