"""U01: bus objects bind to exactly the signals they name, whichever way they are put together."""

import hashlib

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, Violation, require
from ..bfm import ApbWires, AxiCfg, Channel, Wires, apb_signals, axil_signals, gen_bytes
from .. import gen

import cocotb
import cocotbext.axi as lib
from cocotb.triggers import RisingEdge
from cocotbext.axi import axi_channels, axil_channels
from cocotbext.axi import AxiStreamBus, AxiStreamFrame, AxiStreamMonitor, AxiStreamSink, AxiStreamSource, ApbBus, ApbMaster, ApbRam, ApbSlave

ASSUME = ["Python GPI in pbt/sim.py instead of an HDL simulator", "signal names are matched in the case in which they are written"]

PREFIX = ["s_axi", "m", "axi", "a", "s_axi_aw", "dma0", "w", "x_r"]
SEP = ["_", "_", "_", "__", "", "_i_"]
CHANS = ["aw", "w", "b", "ar", "r"]
OPT = {"axi": [s for s in AxiCfg.OPT if s != "wstrb"], "axil": ["awprot", "bresp", "arprot", "rresp"], "apb": ["pprot", "pslverr"],
       "axis": ["tready", "tlast", "tkeep", "tid", "tdest", "tuser"]}
NAMES = {"axi": ("Axi", axi_channels), "axil": ("AxiLite", axil_channels)}


def all_signals(kind, cfg):
    """{channel: {name without prefix: width}} including handshake signals."""
    if kind == "apb":
        return {"p": apb_signals(cfg)}
    if kind == "axis":
        L = cfg["lanes"]
        d = {"tdata": 8 * L, "tkeep": L, "tid": 8, "tdest": 8, "tuser": 8, "tlast": 1, "tvalid": 1, "tready": 1}
        return {"p": {k: w for k, w in d.items() if k not in cfg["absent"]}}
    s = AxiCfg(cfg).signals() if kind == "axi" else axil_signals(cfg)
    return {c: dict(v, **{c + "valid": 1, c + "ready": 1}) for c, v in s.items()}


name = st.tuples(st.one_of(st.none(), st.sampled_from(PREFIX), st.sampled_from(PREFIX)), st.sampled_from(SEP)).map(list)


@st.composite
def cfg_(draw, kind):
    return {"kind": kind, "lanes": draw(st.sampled_from([1, 2, 4, 8, 16])), "aw": draw(st.sampled_from([12, 16, 32])),
            "idw": draw(st.integers(1, 4)), "uw": 4, "absent": sorted(draw(st.lists(st.sampled_from(OPT[kind]), unique=True)))}


# how the whole bus, its write half and its read half are made, and whether two half objects are used
way = st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(0, 2), st.sampled_from([0, 0, 1])).map(list)


@st.composite
def bind_case(draw):
    kind = draw(st.sampled_from(["axi", "axi", "axil", "axil", "apb", "axis"]))
    cfg = draw(cfg_(kind))
    dirs = "wr"
    if kind in ("apb", "axis"):
        names = {"p": draw(name)}
    else:
        how = draw(st.sampled_from(["one", "split", "each"]))
        if how == "one":
            n = draw(name)
            names = {c: n for c in CHANS}
        elif how == "split":
            a, b = draw(name), draw(name)
            names = {c: a if c in "aw w b".split() else b for c in CHANS}
        else:
            names = {c: draw(name) for c in CHANS}
        dirs = draw(st.sampled_from(["wr", "wr", "wr", "w", "r"]))
    decoys = draw(st.lists(st.tuples(st.sampled_from(PREFIX + ["S", "z", ""]), st.sampled_from(SEP), st.integers(1, 1 << 20)), max_size=3))
    ops = [{"k": draw(st.sampled_from("wr")), "a": draw(st.integers(0, 200)), "n": draw(st.integers(1, 70)), "key": draw(gen.data_key)}
           for _ in range(draw(st.integers(1, 5)))]
    return {"cfg": cfg, "names": names, "dirs": dirs, "decoys": [list(d) for d in decoys], "ops": ops, "mw": draw(way),
            "sw": draw(way), "sub": draw(st.sampled_from(["ram", "slave"])), "mon": draw(st.integers(0, 1)),
            "order": draw(st.integers(0, 1))}


class Namer:
    """Turns the naming of a case into constructor calls."""

    def __init__(self, sim, kind, names, dirs):
        self.d, self.kind, self.names, self.dirs = sim.dut, kind, names, dirs
        self.labels = set()

    def same(self, chans):
        n = [self.names[c] for c in chans]
        return all(x == n[0] for x in n)

    def one(self, cls, c):
        """A bus class of one naming unit, by from_prefix or from_entity."""
        p, sep = self.names[c]
        if p is None:
            self.labels.add("from_entity")
            return cls.from_entity(self.d)
        if sep == "_":
            return cls.from_prefix(self.d, p)
        self.labels.add("separator")
        return cls.from_prefix(self.d, p, bus_separator=sep)

    def chan(self, c):
        base, mod = NAMES[self.kind]
        return self.one(getattr(lib, base + c.upper() + "Bus"), c)

    def write(self, way):
        cls = getattr(lib, NAMES[self.kind][0] + "WriteBus")
        way = way[1]
        if way == 0 and self.same(["aw", "w", "b"]):
            return self.one(cls, "aw")
        a, w, b = self.chan("aw"), self.chan("w"), self.chan("b")
        self.labels.add("from_channels" if way == 1 else "parts")
        return cls.from_channels(a, w, b) if way == 1 else cls(b=b, w=w, aw=a)

    def read(self, way):
        cls = getattr(lib, NAMES[self.kind][0] + "ReadBus")
        way = way[2]
        if way == 0 and self.same(["ar", "r"]):
            return self.one(cls, "ar")
        a, r = self.chan("ar"), self.chan("r")
        return cls.from_channels(a, r) if way == 1 else cls(r=r, ar=a)

    def both(self, way):
        cls = getattr(lib, NAMES[self.kind][0] + "Bus")
        if way[0] == 0 and self.same(CHANS):
            return self.one(cls, "aw")
        if way[0] == 1:
            return cls.from_channels(*[self.chan(c) for c in CHANS])
        return cls(write=self.write(way), read=self.read(way))


def run_bind(case):
    sim = Sim()
    cfg, kind, dirs = case["cfg"], case["cfg"]["kind"], case["dirs"]
    sigs = all_signals(kind, cfg)
    use = {c: n for c, n in case["names"].items() if kind in ("apb", "axis") or ("w" in dirs if c in ("aw", "w", "b") else "r" in dirs)}
    full = {c: (n[0] + n[1] if n[0] is not None else "") for c, n in use.items()}
    full_cfg = dict(cfg, absent=[])
    every = all_signals(kind, full_cfg)
    taken = {(full[c] + s).casefold() for c in use for s in every[c]} | {"clk"}
    names = [(full[c] + x).casefold() for c in use for x in every[c]]
    if len(set(names)) < len(names):
        # such as "a" + "rvalid" and "arvalid"
        return False, {"names collide"}
    labels = {kind, "dirs " + dirs}

    if kind == "apb":
        wires = ApbWires(sim, full, cfg)
        mons = {}
    elif kind == "axis":
        n = {s: sim.net(full["p"] + s, w) for s, w in sigs["p"].items()}
        pl = {s: x for s, x in n.items() if s not in ("tvalid", "tready")}
        mons = {"p": Channel(sim, "axis", n["tvalid"], n.get("tready"), pl)}
    else:
        body = {c: {s: w for s, w in sigs[c].items() if s not in (c + "valid", c + "ready")} for c in use}
        wires = Wires(sim, full, body)
        mons = wires.mon
    # decoys: similar names; nobody may touch them
    decoys = []
    flat = {s: w for c in every for s, w in every[c].items()}
    for p, sep, mask in case["decoys"]:
        for i, (s, w) in enumerate(sorted(flat.items())):
            nm = p + sep + s if p else "x" + s
            if not (mask >> (i % 20)) & 1 or nm.casefold() in taken:
                continue
            taken.add(nm.casefold())
            v = int.from_bytes(hashlib.sha256(nm.encode()).digest() * 5, "little") & ((1 << w) - 1)
            decoys.append((nm, sim.net(nm, w, v), v))
    if decoys:
        labels.add("decoys")

    def untouched():
        for nm, net, v in decoys:
            require(net.val == v, "signal %s does not belong to the bus but was changed from %s to %s", nm, v, net.val)
    sim.on_sample(untouched)

    N = 300
    base, mod = NAMES.get(kind, (None, None))
    info = {}

    async def main(sim):
        edge = RisingEdge(sim.dut.clk)
        clk = sim.dut.clk
        nm = Namer(sim, kind, use, dirs)
        if kind == "axis":
            mk = lambda: nm.one(AxiStreamBus, "p")
            if case["order"]:
                src, snk, mon = AxiStreamSource(mk(), clk), AxiStreamSink(mk(), clk), AxiStreamMonitor(mk(), clk)
            else:
                mon, snk, src = AxiStreamMonitor(mk(), clk), AxiStreamSink(mk(), clk), AxiStreamSource(mk(), clk)
            for i, o in enumerate(case["ops"]):
                f = AxiStreamFrame(gen_bytes(o["key"], o["n"]), tid=o["a"] & 255, tdest=i)
                await src.send(f)
                want = [f.tdata] if "tlast" not in cfg["absent"] else [f.tdata[k:k + 1] for k in range(o["n"])]
                if "tlast" in cfg["absent"]:
                    if cfg["lanes"] > 1:
                        await src.wait()
                        for _ in range(3):
                            await edge
                        got = b""
                        while not snk.empty():
                            got += bytes(snk.recv_nowait().tdata)
                        if "tkeep" in cfg["absent"]:
                            got = got[:o["n"]]
                        require(got == bytes(f.tdata), "frame %d: %s received, %s sent", i, got.hex(), bytes(f.tdata).hex())
                        continue
                for w in want:
                    for obj in (snk, mon):
                        r = await obj.recv()
                        got = bytes(r.tdata)
                        if "tkeep" in cfg["absent"]:
                            got = got[:len(w)]
                        require(got == bytes(w), "frame %d: %s received, %s sent", i, got.hex(), bytes(w).hex())
                        if "tid" not in cfg["absent"]:
                            require(set([r.tid] if isinstance(r.tid, int) else r.tid) == {o["a"] & 255}, "frame %d: tid %s", i, r.tid)
            info["labels"] = nm.labels
            return
        init = gen_bytes(77, N)
        mem = bytearray(init)
        if kind == "apb":
            mk = lambda: nm.one(ApbBus, "p")

            def master():
                return ApbMaster(mk(), clk)

            def sub():
                return ApbRam(mk(), clk, mem=mem) if case["sub"] == "ram" else ApbSlave(mk(), clk, target=Target(mem))
        else:
            def master():
                if dirs == "wr" and not case["mw"][3]:
                    return getattr(lib, base + "Master")(nm.both(case["mw"]), clk)
                nm.labels.add("separate halves")
                w = getattr(lib, base + "MasterWrite")(nm.write(case["mw"]), clk) if "w" in dirs else None
                r = getattr(lib, base + "MasterRead")(nm.read(case["mw"]), clk) if "r" in dirs else None
                return Halves(w, r)

            def sub():
                kw = {"mem": mem} if case["sub"] == "ram" else {"target": Target(mem)}
                name = base + ("Ram" if case["sub"] == "ram" else "Slave")
                if dirs == "wr" and not case["sw"][3]:
                    return getattr(lib, name)(nm.both(case["sw"]), clk, **kw)
                w = getattr(lib, name + "Write")(nm.write(case["sw"]), clk, **kw) if "w" in dirs else None
                r = getattr(lib, name + "Read")(nm.read(case["sw"]), clk, **kw) if "r" in dirs else None
                return w, r
        if case["order"]:
            m = master()
            s = sub()       # noqa: F841
        else:
            s = sub()       # noqa: F841
            m = master()
        watchers = {}
        if case["mon"] and kind != "apb":
            for c in use:
                cls = getattr(mod, base + c.upper() + "Monitor")
                watchers[c] = cls(nm.chan(c), clk)
            labels.add("channel monitors")
        for i, o in enumerate(case["ops"]):
            if o["k"] in dirs:
                if o["k"] == "w":
                    data = gen_bytes(o["key"], o["n"])
                    r = await m.write(o["a"], data)
                    require(int(r.resp) == 0, "write %d: %r", i, r)
                    a = o["a"]
                    require(bytes(mem[a:a + o["n"]]) == data, "write %d: memory holds %s instead of %s", i, bytes(mem[a:a + o["n"]]).hex(), data.hex())
                else:
                    r = await m.read(o["a"], o["n"])
                    require(int(r.resp) == 0 and bytes(r.data) == bytes(mem[o["a"]:o["a"] + o["n"]]), "read %d: %r", i, r)
                info["done"] = info.get("done", 0) + 1
        for _ in range(3):
            await edge
        for c, wt in watchers.items():
            seen = []
            while not wt.empty():
                t = wt.recv_nowait()
                seen.append({k: int(getattr(t, k)) for k in mons[c].payload})
            want = [d for _, d in mons[c].log]
            want = [{k: v or 0 for k, v in d.items()} for d in want]
            require(seen == want, "monitor of channel %s saw %s, on the wires there was %s", c, seen[:4], want[:4])
        for d in dirs:
            if any(o["k"] == d for o in case["ops"]):
                for c in ("aw", "w", "b") if d == "w" else ("ar", "r"):
                    if kind != "apb":
                        require(mons[c].log, "no transfer on the signals of channel %s", c)
        if kind == "apb":
            require(wires.log, "no transfer on the signals of the bus")
        info["labels"] = nm.labels
    sim.run(main, 20000)
    untouched()
    if kind == "axis":
        require(mons["p"].log, "no transfer on the signals of the stream")
        info["done"] = 1
    return info.get("done", 0) > 0, labels | info["labels"]


class Halves:
    def __init__(self, w, r):
        self.w, self.r = w, r

    def write(self, *a):
        return self.w.write(*a)

    def read(self, *a):
        return self.r.read(*a)


class Target:
    """Something a slave can serve."""

    def __init__(self, mem):
        self.mem = mem

    async def write(self, addr, data, **kw):
        self.mem[addr:addr + len(data)] = data

    async def read(self, addr, n, **kw):
        return bytes(self.mem[addr:addr + n])


# ------------------------------------------------------------------ widths

FIXED_W = {"axi": ["awlen", "awsize", "awburst", "awlock", "awcache", "awprot", "awqos", "awregion", "awvalid", "awready", "wlast", "wvalid", "wready",
                   "bresp", "bvalid", "bready", "arlen", "arsize", "arburst", "arlock", "arcache", "arprot", "arqos", "arregion", "arvalid",
                   "arready", "rresp", "rlast", "rvalid", "rready", "wstrb", "bid", "rid"],
           "axil": ["awprot", "awvalid", "awready", "wstrb", "wvalid", "wready", "bresp", "bvalid", "bready", "arprot", "arvalid", "arready", "rresp",
                    "rvalid", "rready"],
           "apb": ["pstrb"]}


@st.composite
def width_case(draw):
    kind = draw(st.sampled_from(["axi", "axi", "axil", "apb"]))
    cfg = {"kind": kind, "lanes": draw(st.sampled_from([2, 4, 8, 16])), "aw": 16, "idw": draw(st.integers(2, 6)), "uw": 4, "absent": []}
    bad = draw(st.sampled_from(FIXED_W[kind] + [None] * 3))
    return {"cfg": cfg, "bad": bad, "d": draw(st.sampled_from([-1, 1, 1, 2])), "who": draw(st.sampled_from(["Master", "Slave", "Ram"])),
            "half": draw(st.booleans())}


def run_width(case):
    sim = Sim()
    cfg, kind = case["cfg"], case["cfg"]["kind"]
    sigs = all_signals(kind, cfg)
    for c, ss in sigs.items():
        for s, w in ss.items():
            if s == case["bad"]:
                w = w + case["d"] if w + case["d"] > 0 else w + 1
            sim.net("b_" + s, w)
    base = {"axi": "Axi", "axil": "AxiLite", "apb": "Apb"}[kind]

    async def main(sim):
        d = sim.dut
        try:
            if kind == "apb" or not case["half"]:
                getattr(lib, base + case["who"])(getattr(lib, base + "Bus").from_prefix(d, "b"), d.clk)
            else:
                getattr(lib, base + case["who"] + "Write")(getattr(lib, base + "WriteBus").from_prefix(d, "b"), d.clk)
                getattr(lib, base + case["who"] + "Read")(getattr(lib, base + "ReadBus").from_prefix(d, "b"), d.clk)
        except Exception as e:      # noqa: B902
            require(case["bad"] is not None, "a well-formed bus was refused: %r", e)
            return
        require(case["bad"] is None, "a bus whose %s has the wrong width was accepted", case["bad"])
    sim.run(main, 100)
    return case["bad"] is not None, {kind, "well-formed" if case["bad"] is None else "wrong width"}


CHECKS = [
    Check("U01", "bind: buses of random protocol, signals and names (one prefix, split, one per channel, no prefix, separators) put together in every "
          "offered way, with decoy signals, master and subordinate joined and monitors attached, non-trivial: an operation completed; "
          "widths: interfaces with one signal of a wrong width",
          [Part("bind", bind_case, run_bind, 1500, 30000), Part("widths", width_case, run_width, 500, 5000)], ASSUME),
]
