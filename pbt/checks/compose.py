"""C01: systems built from library masters, slaves, RAMs, address spaces, windows and shared memories."""

import itertools

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, require
from ..bfm import AxiCfg, ApbWires, Wires, apb_signals, axil_signals, gen_bytes, gen_int
from .. import gen

import cocotb
from cocotb.triggers import RisingEdge
from cocotbext.axi import (AddressSpace, ApbBus, ApbMaster, ApbRam, ApbSlave, AxiBus, AxiLiteBus, AxiLiteMaster, AxiLiteRam, AxiLiteSlave,
                           AxiMaster, AxiRam, AxiSlave, MemoryRegion, SparseMemoryRegion)
from cocotbext.axi.sparse_memory import SparseMemory
from .handshake import channels, pause_map, set_pauses

ASSUME = ["Python GPI in pbt/sim.py instead of an HDL simulator", "write strobes are connected on every bus",
          "concurrent users access disjoint byte ranges, so that every read has one right answer"]
CHUNK = 64
OPT = {"axi": [s for s in AxiCfg.OPT if s != "wstrb"], "axil": ["awprot", "bresp", "arprot", "rresp"], "apb": ["pprot", "pslverr"]}


@st.composite
def bus_cfg(draw):
    kind = draw(st.sampled_from(["axi", "axi", "axil", "apb"]))
    return {"kind": kind, "lanes": draw(st.sampled_from([1, 2, 4, 8, 16, 4, 8])), "aw": draw(st.sampled_from([16, 20, 32, 64])),
            "idw": draw(st.integers(1, 4)), "uw": 4, "absent": sorted(draw(st.lists(st.sampled_from(OPT[kind]), unique=True))),
            "mp": draw(pause_map()) if draw(st.booleans()) else {}, "sp": draw(pause_map()) if draw(st.booleans()) else {},
            "mbl": draw(st.sampled_from([256, 256, 1, 2, 16]))}


@st.composite
def node(draw, depth):
    """A region: a memory, an address space of regions, or a bus with something behind it."""
    kinds = ["mem"] + (["bus", "bus", "bus"] if depth else []) + (["space"] if depth else [])
    t = draw(st.sampled_from(kinds))
    if t == "mem":
        return {"t": "mem", "n": draw(st.integers(1, 6)), "sparse": draw(st.booleans())}
    if t == "space":
        parts = [{"node": draw(node(depth - 1)), "off": draw(st.sampled_from([0, 0, 1, 2, None])), "cut": draw(st.integers(0, 2))}
                 for _ in range(draw(st.integers(1, 3)))]
        return {"t": "space", "parts": parts}
    if draw(st.booleans()):
        behind = {"t": "ram", "n": draw(st.integers(1, 70)), "mem": draw(st.sampled_from(["size", "mem"]))}
    else:
        behind = draw(node(depth - 1))
    return {"t": "bus", "cfg": draw(bus_cfg()), "behind": behind, "late": draw(st.booleans())}


@st.composite
def op(draw):
    return {"o": draw(st.sampled_from(["bytes", "bytes", "bytes", "byte", "words", "dword", "qwords"])), "w": draw(st.integers(0, 1)),
            "at": draw(st.integers(0, 1000)), "n": draw(st.one_of(st.integers(0, 12), st.integers(1, 60), st.integers(1, 200))),
            "key": draw(gen.data_key), "win": draw(st.integers(0, 2)), "bo": draw(st.sampled_from(["little", "big"])),
            "gap": draw(st.sampled_from([0, 0, 1, 5])), "port": draw(st.integers(0, 3))}


@st.composite
def system_case(draw):
    shared = draw(st.integers(0, 2)) == 0
    if shared:
        roots = [{"t": "bus", "cfg": draw(bus_cfg()), "behind": {"t": "ram", "n": 8, "mem": "shared"}, "late": False}
                 for _ in range(draw(st.integers(2, 3)))]
    else:
        roots = [draw(node(3).filter(lambda n: n["t"] != "mem"))]
    return {"roots": roots, "users": draw(st.lists(st.lists(op(), min_size=1, max_size=6), min_size=1, max_size=3)),
            "cuts": sorted(draw(st.lists(st.integers(1, 999), min_size=2, max_size=2)))}


class System:
    def __init__(self, sim):
        self.sim = sim
        self.n = 0
        self.stores = []          # [(memory-like, size)]
        self.shared = None
        self.paused = 0
        self.depth = 0
        self.kinds = set()

    def store(self, mem, size):
        self.stores.append((mem, size))
        return len(self.stores) - 1

    def wire(self, nd, n=0):
        """Create the signals of every bus (same numbering as build), with handshake monitors."""
        if nd["t"] == "space":
            for p in nd["parts"]:
                n = self.wire(p["node"], n)
        elif nd["t"] == "bus":
            cfg = nd["cfg"]
            if cfg["kind"] == "apb":
                ApbWires(self.sim, "b%d" % n, cfg)
            else:
                Wires(self.sim, "b%d" % n, AxiCfg(cfg).signals() if cfg["kind"] == "axi" else axil_signals(cfg))
            n = self.wire(nd["behind"], n + 1)
        return n

    def build(self, nd, depth=0):
        """(region, size, resolve(address) -> (store, index))"""
        t = nd["t"]
        self.depth = max(self.depth, depth)
        if t == "mem":
            size = nd["n"] * CHUNK
            r = SparseMemoryRegion(size) if nd["sparse"] else MemoryRegion(size)
            s = self.store(r.mem, size)
            return r, size, lambda a: (s, a)
        if t == "space":
            space = AddressSpace(1 << 16)
            parts, pos = [], 0
            for p in nd["parts"]:
                r, size, res = self.build(p["node"], depth)
                off = p["off"]
                if off is None:
                    # not translated: only possible while addresses agree
                    if pos >= size:
                        off = 0
                    else:
                        n = size - pos
                        space.register_region(r, pos, n, None)
                        parts.append((pos, n, (lambda a, res=res, pos=pos: res(a + pos))))
                        pos += n
                        continue
                off = min(off * CHUNK, size - CHUNK)
                n = max(CHUNK, size - off - p["cut"] * CHUNK)
                n = min(n, size - off)
                space.register_region(r, pos, n, off)
                parts.append((pos, n, (lambda a, res=res, off=off: res(a + off))))
                pos += n

            def resolve(a):
                for base, n, res in parts:
                    if base <= a < base + n:
                        return res(a - base)
                raise IndexError(a)
            return space, pos, resolve
        cfg = nd["cfg"]
        k = cfg["kind"]
        self.kinds.add(k)
        prefix = "b%d" % self.n
        self.n += 1
        d = self.sim.dut
        if k == "apb":
            mk = lambda: ApbBus.from_prefix(d, prefix)
            M, S, R = ApbMaster, ApbSlave, ApbRam
        else:
            B = AxiBus if k == "axi" else AxiLiteBus
            mk = lambda: B.from_prefix(d, prefix)
            M, S, R = (AxiMaster, AxiSlave, AxiRam) if k == "axi" else (AxiLiteMaster, AxiLiteSlave, AxiLiteRam)
        m = M(mk(), d.clk, **({"max_burst_len": cfg["mbl"]} if k == "axi" else {}))
        b = nd["behind"]
        if b["t"] == "ram":
            size = b["n"] * CHUNK
            if b["mem"] == "shared":
                if self.shared is None:
                    mem = SparseMemory(size)
                    self.shared = (mem, self.store(mem, size))
                s = R(mk(), d.clk, mem=self.shared[0])
                sid = self.shared[1]
            else:
                s = R(mk(), d.clk, mem=bytearray(size)) if b["mem"] == "mem" else R(mk(), d.clk, size=size)
                sid = self.store(s.mem if k == "apb" else s.write_if.mem, size)
            resolve = lambda a: (sid, a)
        else:
            target, size, resolve = self.build(b, depth + 1)
            if nd["late"]:
                s = S(mk(), d.clk)
                s.target = target
            else:
                s = S(mk(), d.clk, target=target)
        self.paused += set_pauses(channels(m, k), cfg["mp"])
        sp = cfg["sp"]
        self.paused += set_pauses(channels(s, k), sp)
        return m, size, resolve


WS = {"byte": 1, "words": 2, "dword": 4, "qwords": 8}


def run_system(case):
    sim = Sim()
    labels = set()
    info = {}

    sy = System(sim)
    n = 0
    for r in case["roots"]:
        n = sy.wire(r, n)

    async def main(sim):
        built = [sy.build(r) for r in case["roots"]]
        size = min(b[1] for b in built)
        edge = RisingEdge(sim.dut.clk)
        content = []
        for i, (mem, n) in enumerate(sy.stores):
            init = gen_bytes(1000 + i, n)
            mem[0:n] = init
            content.append(bytearray(init))
        users = case["users"]
        cuts = [0] + [c * size // 1000 for c in case["cuts"]][:len(users) - 1] + [size]

        def model(a, n):
            out = bytearray()
            for i in range(n):
                s, x = built[0][2](a + i)
                out.append(content[s][x])
            return bytes(out)

        def update(a, data):
            for i, v in enumerate(data):
                s, x = built[0][2](a + i)
                content[s][x] = v

        async def user(u, ops):
            lo, hi = cuts[u], cuts[u + 1]
            if hi - lo < 1:
                return
            span = hi - lo
            for i, o in enumerate(ops):
                for _ in range(o["gap"]):
                    await edge
                root = built[o["port"] % len(built)][0]
                ws = WS.get(o["o"])
                cnt = min(o["n"], 200)
                if ws:
                    cnt = 1 if o["o"] in ("byte", "dword") else max(1, min(cnt, 40 // ws))
                    n = ws * cnt
                else:
                    n = cnt
                if n > span:
                    n, ws = min(n, span), None
                a = lo + o["at"] * (span - max(n, 1)) // 1000
                obj, base = root, 0
                if o["win"]:
                    base = lo if o["win"] == 1 else lo + (a - lo) // 2
                    obj = root.create_window(base, hi - base)
                    labels.add("window")
                rel = a - base
                if o["w"]:
                    data = gen_bytes(o["key"], n)
                    if ws is None:
                        r = await obj.write(rel, data)
                        if hasattr(r, "resp"):
                            require(int(r.resp) == 0, "user %d: %r", u, r)
                    else:
                        vals = [int.from_bytes(data[k:k + ws], o["bo"]) for k in range(0, n, ws)]
                        if ws == 1:
                            await obj.write_byte(rel, vals[0])
                        elif o["o"] == "dword":
                            await obj.write_dword(rel, vals[0], o["bo"])
                        elif o["o"] == "words":
                            await obj.write_words(rel, vals, o["bo"])
                        else:
                            await obj.write_qwords(rel, vals, o["bo"])
                    update(a, data)
                    # a completed write is in the memory behind all buses
                    for x in range(a, a + n):
                        s, y = built[0][2](x)
                        require(sy.stores[s][0][y] == content[s][y], "user %d: byte %#x (byte %d of memory %d) is %#x after the write completed, expected %#x",
                                u, x, y, s, sy.stores[s][0][y], content[s][y])
                else:
                    want = model(a, n)
                    if ws is None:
                        r = await obj.read(rel, n)
                        if hasattr(r, "resp"):
                            require(int(r.resp) == 0, "user %d: %r", u, r)
                        got = bytes(r)
                    else:
                        if ws == 1:
                            v = [await obj.read_byte(rel)]
                        elif o["o"] == "dword":
                            v = [await obj.read_dword(rel, o["bo"])]
                        elif o["o"] == "words":
                            v = await obj.read_words(rel, cnt, o["bo"])
                        else:
                            v = await obj.read_qwords(rel, cnt, o["bo"])
                        got = b"".join(int(x).to_bytes(ws, o["bo"]) for x in v)
                    require(got == want, "user %d: read of %d bytes at %#x returned %s, expected %s", u, n, a, got.hex()[:80], want.hex()[:80])
        tasks = [cocotb.start_soon(user(u, ops)) for u, ops in enumerate(users)]
        for t in tasks:
            await t.join()
        for _ in range(5):
            await edge
        for i, (mem, n) in enumerate(sy.stores):
            got = bytes(mem[0:n])
            require(got == bytes(content[i]), "memory %d differs: (byte, is, expected) %s", i,
                    [(x, got[x], content[i][x]) for x in range(n) if got[x] != content[i][x]][:6])
        for r, _, _ in built:
            if hasattr(r, "idle"):
                require(r.idle(), "not idle at the end")
        info.update(buses=sy.n, depth=sy.depth, paused=sy.paused, kinds=sy.kinds)
    sim.run(main, 400000)
    if info["depth"]:
        labels.add("%d buses in a chain" % info["depth"])
    if len(info["kinds"]) > 1:
        labels.add("mixed protocols")
    if len(case["users"]) > 1:
        labels.add("several users")
    if len(case["roots"]) > 1:
        labels.add("shared memory")
    if info["paused"]:
        labels.add("pauses")
    return info["buses"] > 1 or len(case["users"]) > 1, labels


CHECKS = [
    Check("C01", "trees of up to three levels of buses (AXI, AXI-Lite, APB, random widths, signals and pauses) over memories, RAMs, address spaces and "
          "shared memories, used by 1-3 concurrent users through masters, windows and word accessors; non-trivial: several buses or several users",
          [Part("system", system_case, run_system, 2400, 60000)], ASSUME),
]
