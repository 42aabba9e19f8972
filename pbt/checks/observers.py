"""O01: looking at a system does not change what it does."""

from hypothesis import strategies as st

from ..sim import Sim, set_logging
from ..core import Check, Part, require
from ..bfm import Cyc
from . import axis, streams
from .handshake import channels
from .independence import Iface, axis_if, mm_if, stream_if

import cocotb
from cocotb.triggers import RisingEdge, Timer
from cocotbext.axi import AxiStreamFrame, AxiStreamMonitor, axi_channels, axil_channels

ASSUME = ["Python GPI in pbt/sim.py instead of an HDL simulator"]

METHODS = ("count", "empty", "full", "idle", "get_pause", "has_reset")
VALUES = ("active", "pause", "queue_occupancy_bytes", "queue_occupancy_frames", "queue_occupancy_limit", "size", "byte_lanes", "byte_size",
          "base", "parent", "address_width", "reset", "log")


@st.composite
def observe_case(draw):
    return {"if": draw(st.one_of(mm_if(), mm_if(), axis_if(), stream_if())),
            "level": draw(st.sampled_from([None, 10, 10, 20])), "mon": draw(st.sampled_from([0, 1, 1, 2])),
            "poll": draw(st.one_of(st.just([0]), st.lists(st.integers(0, 7), min_size=1, max_size=6))),
            "take": draw(st.integers(0, 3)), "wait": draw(st.lists(st.integers(1, 30), max_size=3))}


def look(o):
    """Everything that can be asked."""
    for n in METHODS:
        f = getattr(o, n, None)
        if callable(f):
            f()
    for n in VALUES:
        getattr(o, n, None)
    str(o)


class Watch:
    def __init__(self, sim, f, case):
        self.sim, self.f, self.case = sim, f, case
        self.mons = []
        self.waiting = []
        sp = f.spec
        d = sim.dut
        rst = getattr(d, f.rst.name) if f.rst is not None else None
        self.objs = []
        if f.t == "mm":
            k = sp["cfg"]["kind"]
            ends = [o for o in (f.m, f.s) if o is not None]
            self.objs += ends
            for o in ends:
                self.objs += list(channels(o, k).values())
                for n in ("write_if", "read_if"):
                    if hasattr(o, n):
                        self.objs.append(getattr(o, n))
            if k != "apb":
                mod, base = (axi_channels, "Axi") if k == "axi" else (axil_channels, "AxiLite")
                for _ in range(case["mon"]):
                    for c in ("aw", "w", "b", "ar", "r"):
                        bus = getattr(mod, base + c.upper() + "Bus").from_prefix(d, f.name)
                        m = getattr(mod, base + c.upper() + "Monitor")(bus, d.clk, rst)
                        self.mons.append((c, m, []))
        else:
            self.objs += [f.src, f.snk, f.mon]
            for _ in range(case["mon"]):
                if f.t == "axis":
                    m = f.kit.make(AxiStreamMonitor)
                else:
                    m = f.cls[4](f.cls[0].from_prefix(d, f.name), d.clk)
                self.mons.append(("", m, []))
        self.objs += [m for _, m, _ in self.mons]
        cocotb.start_soon(self.poll())
        for n in case["wait"]:
            cocotb.start_soon(self.waiter(n))

    async def waiter(self, n):
        edge = RisingEdge(self.sim.dut.clk)
        for _ in range(n):
            await edge
        if self.f.t != "mm":
            for o in (self.f.mon, self.f.snk):
                await o.wait(n * 3, "ns")
        src = self.f.m if self.f.t == "mm" else self.f.src
        self.waiting.append((n, src))
        await src.wait()
        self.waiting.remove((n, src))
        if hasattr(src, "wait_write"):
            half = src.write_if if n % 2 else src.read_if
            self.waiting.append((n, half))
            await (src.wait_write() if n % 2 else src.wait_read())
            self.waiting.remove((n, half))

    async def poll(self):
        edge = RisingEdge(self.sim.dut.clk)
        pat = Cyc(self.case["poll"])
        take = self.case["take"]
        k = 0
        while True:
            await edge
            k += 1
            p = pat.next()
            if p & 2:
                await Timer(3, "ns")
            if p & 1:
                for o in self.objs:
                    look(o)
                if self.f.mem is not None:
                    bytes(self.f.mem[0:40])
                    s = getattr(self.f, "s", None)
                    if hasattr(s, "hexdump_str"):
                        s.hexdump_str(3, 30)
                        s.read(1, 9)
            if p & 4:
                for fr in (x for x in self.f.sent if isinstance(x, AxiStreamFrame)):
                    repr(fr), len(fr), fr == fr, list(fr), str(fr)
            if take and k % take == 0:
                self.drain()

    def drain(self):
        for c, m, out in self.mons:
            while not m.empty():
                r = m.recv_nowait(compact=False) if self.f.t == "axis" else m.recv_nowait()
                repr(r)
                out.append(r)

    def verify(self):
        """Each monitor received what its channel transferred."""
        self.drain()
        f = self.f
        for n, o in self.waiting:
            require(not o.idle(), "a task that called wait() in cycle %d is still waiting, though all is idle", n)
        for c, m, out in self.mons:
            if f.t == "mm":
                mon = f.kit.wires.mon[c]
                got = [{n: int(getattr(x, n)) for n in mon.payload} for x in out]
                want = [{n: v or 0 for n, v in x.items()} for _, x in mon.log]
                require(got == want, "monitor of channel %s received %d transfers %s, there were %d: %s", c, len(got), str(got)[:300], len(want), str(want)[:300])
            elif f.t == "axis":
                got = [(list(r.tdata), r.tkeep, r.tid, r.tdest, r.tuser, r.sim_time_start, r.sim_time_end) for r in out]
                require(got == f.monitored, "a second monitor received %s, the first one %s", str(got)[:400], str(f.monitored)[:400])
            elif f.t == "stream":
                got = [streams.as_item(dict(f.spec["d"], prefix=f.name), x) for x in out]
                require(got == [x for _, x in f.cmon.log], "monitor: %s", streams.diff(got, [x for _, x in f.cmon.log]))


def simulate(case, watched):
    sim = Sim()
    f = Iface(sim, case["if"], "if0", {})
    w = []
    set_logging(case["level"] if watched else None)

    async def main(sim):
        edge = RisingEdge(sim.dut.clk)
        f.build()
        if watched:
            w.append(Watch(sim, f, case))
        await cocotb.start_soon(f.drive())
        for _ in range(10):
            await edge
        await Timer(1, "ns")
        if watched:
            w[0].verify()
    try:
        sim.run(main, 30000)
    finally:
        set_logging(None)
    return f


def run_observe(case):
    a = simulate(case, False)
    b = simulate(case, True)
    labels = {a.t if a.t != "mm" else case["if"]["cfg"]["kind"]}
    for c, (x, y) in enumerate(zip(a.trace, b.trace)):
        if x != y:
            bad = [(net.name, p, q) for net, p, q in zip(a.nets, x, y) if p != q]
            require(False, "signals differ in cycle %d when the system is observed: (signal, unobserved, observed) %s", c + 1, bad[:6])
    require(len(a.trace) == len(b.trace), "%d cycles unobserved, %d observed", len(a.trace), len(b.trace))
    require(a.results == b.results, "results differ when the system is observed:\nunobserved %s\nobserved   %s", str(a.results)[:600], str(b.results)[:600])
    n = 0
    for cond, l in ((case["level"] is not None, "logging"), (case["mon"], "more monitors"), (any(case["poll"]), "polling"), (case["wait"], "more waiters")):
        if cond:
            labels.add(l)
            n += 1
    if case["if"].get("reset") is not None:
        labels.add("reset")
    return n > 0 and bool(a.results), labels


CHECKS = [
    Check("O01", "one interface (master with native subordinate, RAM or slave; stream endpoints; random traffic, pauses and resets) simulated twice, the second "
          "time with log output, more monitors, more waiters and polling of all state: signal traces and results must agree and every monitor must report "
          "the transfers of its channel; non-trivial: something observes and there are results",
          [Part("observe", observe_case, run_observe, 500, 20000)], ASSUME),
]
