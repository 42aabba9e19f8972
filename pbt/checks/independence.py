"""I01: instances do not influence each other, and the same stimulus gives the same history."""

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, require
from ..bfm import RefMem, gen_bytes, gen_int
from ..kits import Kit, cfg_for, timing_for
from .. import gen
from . import axis, streams
from .handshake import channels, pause_map, set_pauses

import cocotb
from cocotb.triggers import RisingEdge
from cocotbext.axi import (AddressSpace, ApbBus, ApbSlave, AxiBus, AxiLiteBus, AxiLiteSlave, AxiSlave, AxiStreamFrame, AxiStreamMonitor,
                           AxiStreamSink, AxiStreamSource, MemoryRegion, SparseMemoryRegion)
from cocotbext.axi.buddy_allocator import BuddyAllocator
from cocotbext.axi.sparse_memory import SparseMemory

ASSUME = ["Python GPI in pbt/sim.py instead of an HDL simulator", "objects on different signals, each used by its own task"]


@st.composite
def mm_if(draw):
    kind = draw(st.sampled_from(["axi", "axi", "axil", "apb"]))
    cfg = draw(cfg_for(kind))
    full = "wstrb" in cfg["absent"]
    L = cfg["lanes"]
    q = L if full else 1
    ops = [{"k": draw(st.sampled_from("wwr")), "a": draw(st.integers(0, 60)) * q, "n": draw(st.integers(1, 6 if full else 40)) * q,
            "key": draw(gen.data_key), "gap": draw(st.sampled_from([0, 0, 0, 1, 4])), "wait": draw(st.integers(0, 1))}
           for _ in range(draw(st.integers(1, 6)))]
    top = 1 << cfg["aw"]
    if kind == "axi" and not full:
        for o in ops:
            o["s"] = draw(st.one_of(st.none(), st.integers(0, (L - 1).bit_length())))
    for o in ops:
        o["n"] = min(o["n"], top)
        o["a"] = min(o["a"], top - o["n"])
    return {"t": "mm", "cfg": cfg, "ops": ops, "sub": draw(st.sampled_from(["native", "ram", "ram", "ram0", "slave", "space"])),
            "tm": draw(timing_for(kind, errors=True)), "mp": draw(pause_map()) if draw(st.booleans()) else {},
            "sp": draw(pause_map()) if draw(st.booleans()) else {}, "reset": draw(st.one_of(st.none(), st.none(), st.integers(1, 40))),
            "mbl": draw(st.sampled_from([256, 1, 2, 4]))}


@st.composite
def axis_if(draw):
    cfg = draw(axis.axis_cfg(ready=draw(st.sampled_from([1, 1, 0])), last=1))
    fr = [draw(axis.frame_spec(cfg, empty=False, maxbeats=3)) for _ in range(draw(st.integers(1, 5)))]
    return {"t": "axis", "cfg": cfg, "fr": fr, "sp": draw(gen.pattern) if draw(st.booleans()) else [],
            "kp": draw(gen.pattern) if draw(st.booleans()) else [], "gap": draw(st.integers(0, 3)), "pool": draw(st.integers(0, 1)),
            "reset": draw(st.one_of(st.none(), st.none(), st.integers(1, 30)))}


@st.composite
def stream_if(draw):
    d = draw(streams.stream_def())
    return {"t": "stream", "d": d, "n": draw(st.integers(1, 8)), "sp": draw(gen.pattern) if draw(st.booleans()) else [],
            "kp": draw(gen.pattern) if draw(st.booleans()) else [], "limit": draw(st.sampled_from([-1, 1, 2])), "gap": draw(st.integers(0, 2))}


@st.composite
def indep_case(draw):
    ifs = draw(st.lists(st.one_of(mm_if(), mm_if(), axis_if(), stream_if()), min_size=2, max_size=4))
    if draw(st.booleans()):
        ifs[1] = dict(ifs[0], **({"ops": ifs[1]["ops"]} if ifs[0]["t"] == "mm" == ifs[1]["t"] and all(ifs[1]["cfg"][k] == ifs[0]["cfg"][k] for k in ("lanes", "aw")) and
                                 "wstrb" not in ifs[0]["cfg"]["absent"] else {}))
    return {"ifs": ifs, "order": draw(st.permutations(range(len(ifs))))}


class Iface:
    def __init__(self, sim, spec, name, pool):
        self.sim, self.spec, self.name, self.pool = sim, spec, name, pool
        self.trace, self.results = [], []
        self.mem = self.s = None
        self.sent, self.monitored = [], []
        self.t = spec["t"]
        before = set(sim.root.nets)
        self.rst = sim.net(name + "_rst", 1, 0) if spec.get("reset") is not None else None
        if self.t == "mm":
            self.kit = Kit(sim, spec["cfg"], spec["tm"], name, self.rst, 1, RefMem(), spec["sub"] == "native")
        elif self.t == "axis":
            self.kit = axis.AxisKit(sim, dict(spec["cfg"], prefix=name), self.rst, 1)
        else:
            self.cls, self.nets_, _, _, self.cmon = streams.make(sim, dict(spec["d"], prefix=name))
        self.nets = [sim.root.nets[n] for n in sorted(set(sim.root.nets) - before)]
        sim.on_sample(lambda: self.trace.append([n.val for n in self.nets]))

    def build(self):
        sp, sim = self.spec, self.sim
        d = sim.dut
        if self.t == "mm":
            k = sp["cfg"]["kind"]
            self.m = self.kit.master(**({"max_burst_len": sp["mbl"]} if k == "axi" else {}))
            set_pauses(channels(self.m, k), sp["mp"])
            s = None
            if sp["sub"] == "ram":
                s = self.kit.ram(size=256)
                self.mem = s.mem if k == "apb" else s.write_if.mem
            elif sp["sub"] == "ram0":
                s = self.kit.ram()
                self.mem = s.mem if k == "apb" else s.write_if.mem
            elif sp["sub"] != "native":
                if sp["sub"] == "space":
                    tgt = AddressSpace(1 << 12)
                    reg = SparseMemoryRegion(512)
                    tgt.register_region(reg, 0)
                    tgt.register_region(MemoryRegion(256), 1024)
                else:
                    tgt = reg = MemoryRegion(512)
                self.mem = reg.mem
                cls, bus = {"axi": (AxiSlave, AxiBus), "axil": (AxiLiteSlave, AxiLiteBus), "apb": (ApbSlave, ApbBus)}[k]
                a, kw = self.kit._args({})
                s = cls(bus.from_prefix(d, self.name), *a, target=tgt, **kw)
            self.s = s
            if s is not None:
                set_pauses(channels(s, k), sp["sp"])
        elif self.t == "axis":
            self.src, self.snk, self.mon = (self.kit.make(c) for c in (AxiStreamSource, AxiStreamSink, AxiStreamMonitor))
            streams.drive_pause(self.src, sp["sp"])
            if sp["cfg"]["sig"]["tready"]:
                streams.drive_pause(self.snk, sp["kp"])
        else:
            bus, self.txn, source, sink, monitor = self.cls
            mk = lambda c: c(bus.from_prefix(d, self.name), d.clk)
            self.src, self.snk, self.mon = mk(source), mk(sink), mk(monitor)
            streams.drive_pause(self.src, sp["sp"])
            if sp["d"]["ready"]:
                streams.drive_pause(self.snk, sp["kp"])
            self.src.queue_occupancy_limit = sp["limit"]

    async def resetter(self):
        edge = RisingEdge(self.sim.dut.clk)
        r = getattr(self.sim.dut, self.rst.name)
        for _ in range(self.spec["reset"]):
            await edge
        r.value = 1
        for _ in range(3):
            await edge
        r.value = 0

    async def drive(self):
        sp = self.spec
        edge = RisingEdge(self.sim.dut.clk)
        rt = cocotb.start_soon(self.resetter()) if self.rst is not None else None
        await getattr(self, "drive_" + self.t)(sp, edge)
        if rt is not None:
            await rt.join()
        if self.mem is not None:
            self.results.append(bytes(self.mem[0:512]))

    async def drive_mm(self, sp, edge):
        pend = []

        async def one(o):
            kw = {"size": o["s"]} if o.get("s") is not None and sp["cfg"]["kind"] == "axi" else {}
            if o["k"] == "w":
                key = ("data", o["key"], o["n"])
                data = self.pool.setdefault(key, bytearray(gen_bytes(o["key"], o["n"])))    # the same object for every interface
                r = await self.m.write(o["a"], data, **kw)
            else:
                r = await self.m.read(o["a"], o["n"], **kw)
            self.results.append((o["k"], o["a"], None if r is None else int(r.resp), bytes(r.data) if r is not None and o["k"] == "r" else None,
                                 self.sim.cycle))
        for o in sp["ops"]:
            for _ in range(o["gap"]):
                await edge
            t = cocotb.start_soon(one(o))
            if o["wait"]:
                await t.join()
            else:
                pend.append(t)
            if o["wait"] and o["gap"]:
                await self.m.wait()
                self.results.append(("idle", self.sim.cycle))
        await self.m.wait()
        self.results.append(("idle", self.sim.cycle))
        for t in pend:
            await t.join()

    async def drive_axis(self, sp, edge):
        cfg = sp["cfg"]
        for i, f in enumerate(sp["fr"]):
            key = ("frame", cfg["bs"], cfg["L"], str(sorted(f.items())))
            fr = axis.build(cfg, f)
            if sp["pool"]:
                fr = self.pool.setdefault(key, fr)
            self.sent.append(fr)
            await self.src.send(fr)
            for _ in range(sp["gap"]):
                await edge
        await self.src.wait()
        for _ in range(20 if self.rst is not None else 6):
            await edge
        for o in (self.snk, self.mon):
            while not o.empty():
                r = o.recv_nowait(compact=False)
                self.results.append((list(r.tdata), r.tkeep, r.tid, r.tdest, r.tuser, r.sim_time_start, r.sim_time_end))
                if o is self.mon:
                    self.monitored.append(self.results[-1])

    async def drive_stream(self, sp, edge):
        d = sp["d"]
        for i in range(sp["n"]):
            it = streams.item(d, i + 5)
            await self.src.send(self.txn(**it))
            for _ in range(sp["gap"]):
                await edge
        await self.src.wait()
        for _ in range(4):
            await edge
        for o in (self.snk, self.mon):
            while not o.empty():
                self.results.append(streams.as_item(d, o.recv_nowait()))


def simulate(case, which):
    sim = Sim()
    pool = {}
    ifs = [Iface(sim, case["ifs"][i], "if%d" % i, pool) for i in which]

    async def main(sim):
        edge = RisingEdge(sim.dut.clk)
        for f in ifs:
            f.build()
        for t in [cocotb.start_soon(f.drive()) for f in ifs]:
            await t.join()
        for _ in range(10):
            await edge
    sim.run(main, 30000)
    return {i: f for i, f in zip(which, ifs)}


def run_indep(case):
    both = simulate(case, case["order"])
    labels = {"%d interfaces" % len(case["ifs"])}
    n = 0
    for i, sp in enumerate(case["ifs"]):
        one = simulate(case, [i])[i]
        b = both[i]
        labels.add(sp["t"] if sp["t"] != "mm" else sp["cfg"]["kind"] + " " + sp["sub"])
        if sp.get("reset") is not None:
            labels.add("reset")
        for c, (x, y) in enumerate(zip(one.trace, b.trace)):
            if x != y:
                bad = [(net.name, p, q) for net, p, q in zip(one.nets, x, y) if p != q]
                require(False, "interface %d: signals differ in cycle %d when other instances are present: (signal, alone, together) %s", i, c + 1, bad[:6])
        require(len(b.trace) >= len(one.trace), "interface %d: %d cycles alone, only %d together", i, len(one.trace), len(b.trace))
        require(one.results == b.results, "interface %d: results differ when other instances are present:\nalone    %s\ntogether %s", i,
                str(one.results)[:600], str(b.results)[:600])
        n += bool(one.results)
    return n > 1, labels


# ------------------------------------------------------------------ plain objects

@st.composite
def plain_case(draw):
    kinds = ["sparse", "region", "buddy", "space", "frame", "frame"]
    objs = draw(st.lists(st.sampled_from(kinds), min_size=2, max_size=4))
    if draw(st.booleans()):
        objs = [objs[0]] * len(objs)
    ops = draw(st.lists(st.tuples(st.integers(0, len(objs) - 1), st.integers(0, 9), st.integers(0, 500), st.integers(1, 60),
                                  st.integers(0, 1 << 16)).map(list), min_size=1, max_size=25))
    return {"objs": objs, "ops": ops}


def run_coro(c):
    try:
        c.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("suspended")


def frame_pool(n):
    d = {"tdata": bytearray(range(n)), "tkeep": [i % 3 != 1 for i in range(n)], "tid": [i // 2 for i in range(n)], "tdest": [5] * n,
         "tuser": [i % 2 for i in range(n)]}
    d["frame"] = AxiStreamFrame(bytes(range(n)), *(list(d[k]) for k in ("tkeep", "tid", "tdest", "tuser")))
    return d


class Thing:
    def __init__(self, kind, pool):
        self.kind = kind
        self.pool = pool
        self.log = []
        self.got = []
        if kind == "sparse":
            self.o = SparseMemory(1 << 20)
        elif kind == "region":
            self.o = SparseMemoryRegion() if kind == "region" else None
        elif kind == "buddy":
            self.o = BuddyAllocator(1024)
        elif kind == "space":
            self.o = AddressSpace()
            self.o.register_region(MemoryRegion(1024), 0)
        else:
            self.o = AxiStreamFrame()

    def step(self, op, a, n, key):
        k, o = self.kind, self.o
        try:
            if k == "sparse":
                r = o.write(a, gen_bytes(key, n)) if op < 5 else o.read(a, n)
            elif k == "region":
                r = run_coro(o.write(a, gen_bytes(key, n)) if op < 5 else o.read(a, n))
            elif k == "buddy":
                if op < 6 or not self.got:
                    r = o.alloc(n)
                    self.got.append(r)
                else:
                    r = o.free(self.got.pop(a % len(self.got)))
            elif k == "space":
                if op < 4:
                    r = run_coro(o.write(a, gen_bytes(key, n)))
                elif op < 8:
                    r = run_coro(o.read(a, n))
                elif op == 8:
                    p = o.create_pool(1024 * (1 + a % 4) * 8, 4096)
                    r = p.alloc_region(n).get_absolute_address(0)
                else:
                    reg = SparseMemoryRegion(64)
                    r = o.register_region(reg, 4096 + a * 64)
            else:
                if op < 2:
                    # from the caller's data and sideband lists, which others may use as well
                    p = self.pool[a % 2]
                    o = self.o = AxiStreamFrame(p["tdata"], p["tkeep"], *(p[s] if key >> i & 1 else None
                                                                          for i, s in enumerate(("tid", "tdest", "tuser"))))
                elif op == 2:
                    o = self.o = AxiStreamFrame(self.pool[a % 2]["frame"])
                elif op < 5:
                    o.tdata.extend(gen_bytes(key, n))
                    o.tkeep = (o.tkeep or []) + [key >> i & 1 for i in range(n)]
                elif op < 7:
                    o.normalize()
                else:
                    o.compact()
                r = (bytes(o.tdata), o.tkeep, o.tid, o.tdest, o.tuser)
            self.log.append(repr(bytes(r) if isinstance(r, (bytes, bytearray)) else r))
        except Exception as e:
            self.log.append(type(e).__name__ + str(e)[:60])


def run_plain(case):
    def go(which):
        pool = [frame_pool(n) for n in (4, 7)]
        things = {i: Thing(k, pool) for i, k in enumerate(case["objs"]) if i in which}
        for i, op, a, n, key in case["ops"]:
            if i in things:
                things[i].step(op, a, n, key)
        return things
    both = go(range(len(case["objs"])))
    used = set()
    for i in range(len(case["objs"])):
        one = go([i])[i]
        if one.log:
            used.add(i)
        for k, (x, y) in enumerate(zip(one.log, both[i].log)):
            require(x == y, "object %d (%s), call %d: %s alone, %s with other objects", i, case["objs"][i], k, x, y)
    return len(used) > 1, set(case["objs"])


CHECKS = [
    Check("I01", "buses: 2-4 interfaces (masters with native subordinates, RAMs, slaves; stream endpoints; random pauses and resets) simulated together and "
          "each alone: traces of all signals and all results must agree, non-trivial: at least two interfaces with results; "
          "plain: 2-4 memories, allocators, address spaces or frames used in turn and each alone, non-trivial: at least two objects used",
          [Part("buses", indep_case, run_indep, 900, 20000), Part("plain", plain_case, run_plain, 1200, 20000)], ASSUME),
]
