"""P01: pause attributes and pause generators of every endpoint."""

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, require
from ..bfm import gen_bytes
from ..kits import Kit, cfg_for
from .. import gen
from . import axis, streams
from .handshake import channels

import cocotb
from cocotb.triggers import RisingEdge, Timer
from cocotbext.axi import AxiStreamSink, AxiStreamSource

ASSUME = ["Python GPI in pbt/sim.py instead of an HDL simulator"]

bits = st.lists(st.integers(0, 1), min_size=1, max_size=9)
ACT = st.one_of(
    st.tuples(st.just("set"), st.integers(0, 1)), st.tuples(st.just("set"), st.integers(0, 1)), st.tuples(st.just("gen"), bits),
    st.tuples(st.just("gen"), bits), st.tuples(st.just("loop"), bits), st.tuples(st.just("clear"), st.just(0)))
script = st.lists(st.tuples(ACT, st.sampled_from([0, 1, 1, 2, 3, 5, 11])).map(lambda t: [t[0][0], t[0][1], t[1]]), max_size=8)


class Gen:
    """A pause generator that remembers when it was asked."""

    def __init__(self, vals, loop):
        self.vals, self.loop = vals, loop
        self.n = 0              # values handed out
        self.ended = False

    def __iter__(self):
        return self

    def __next__(self):
        if not self.loop and self.n >= len(self.vals):
            self.ended = True
            raise StopIteration
        v = self.vals[self.n % len(self.vals)]
        self.n += 1
        return bool(v)

    def last(self):
        return bool(self.vals[(self.n - 1) % len(self.vals)])


class Endpoint:
    """Runs a pause script on one object and follows its pause attribute."""

    def __init__(self, obj, name, script, labels):
        self.obj, self.name, self.script, self.labels = obj, name, script, labels
        self.gen = self.since = self.off = None
        self.old = []
        self.expect = False     # value of the pause attribute without a generator
        self.hist = [True] * 8  # pause just before and 1 ns after each of the last edges (True/False/None: changed)

    def sample(self):
        p = bool(self.obj.pause)
        self.check_gen(False)
        self.hist = self.hist[1:] + [p]

    def after(self):
        self.hist = self.hist[1:] + [bool(self.obj.pause)]
        self.check_gen(True)

    def steady(self, n, val):
        """The last n observations were all val."""
        return all(x is val for x in self.hist[-n:])

    def check_gen(self, edge):
        g = self.gen
        if g is None:
            require(bool(self.obj.pause) == self.expect, "%s: pause is %s, expected %s", self.name, self.obj.pause, self.expect)
        else:
            if edge:
                self.since += 1
            if not g.ended:
                d = g.n - self.since
                if self.off is None and self.since:
                    self.off = d
                    require(d in (0, 1), "%s: pause generator advanced %d times in %d cycles", self.name, g.n, self.since)
                if self.since:
                    require(d == self.off, "%s: pause generator advanced %d times in %d cycles", self.name, g.n, self.since)
            elif self.off is not None:
                require(self.since + self.off >= len(g.vals), "%s: pause generator ended after %d cycles", self.name, self.since)
            if g.n:
                require(bool(self.obj.pause) == g.last(), "%s: pause is %s, the generator said %s", self.name, self.obj.pause, g.last())
        for o, n in self.old:
            require(o.n == n, "%s: a replaced pause generator was advanced", self.name)

    def drop(self):
        if self.gen is not None:
            self.old.append((self.gen, self.gen.n))
            self.expect = bool(self.obj.pause)
            self.gen = self.off = None

    def act(self, a, arg):
        if a == "set":
            if self.gen is not None and not self.gen.ended:
                return
            self.drop()
            self.obj.pause = bool(arg)
            self.expect = bool(arg)
            require(bool(self.obj.pause) == bool(arg), "%s: pause not set", self.name)
        elif a == "clear":
            self.drop()
            self.obj.clear_pause_generator()
        else:
            g = Gen(arg, a == "loop")
            if self.gen is not None:
                self.labels.add("generator replaced")
            self.drop()
            self.gen, self.since = g, 0
            self.obj.set_pause_generator(g if len(arg) % 2 else iter(g))
        self.labels.add(a)

    async def run(self, sim):
        edge = RisingEdge(sim.dut.clk)
        for a, arg, gap in self.script:
            for _ in range(gap):
                await edge
            if gap:
                await Timer(2, "ns")
            self.act(a, arg)
        await edge
        await Timer(2, "ns")
        self.act("clear", 0)
        self.act("set", 0)


class SourceRule:
    """work(): items not yet started on the bus, just before an edge."""

    def __init__(self, ep, v, r, work, labels):
        self.ep, self.v, self.r, self.work, self.labels = ep, v, r, work, labels
        self.free = None

    def sample(self):
        # hist[-2:] are the observations around the previous edge
        v, r = self.v.v or 0, 1 if self.r is None else self.r.v or 0
        if self.free is not None:
            if self.free and self.ep.steady(2, True):
                require(not v, "%s: a transfer was started although paused", self.ep.name)
                if self.had:
                    self.labels.add("paused with work")
            if self.free and self.had and self.ep.steady(2, False):
                require(v, "%s: nothing was started although not paused and %d items wait", self.ep.name, self.had)
                self.labels.add("full rate")
        self.free = not v or bool(r)
        self.had = self.work()


class SinkRule:
    def __init__(self, ep, v, r, labels):
        self.ep, self.v, self.r, self.labels = ep, v, r, labels
        self.room = [False, False]
        self.n = 0

    def sample(self):
        # hist[-4:] are the observations around the previous two edges
        v, r = self.v.v or 0, self.r.v or 0
        self.n += 1
        o = self.ep.obj
        if self.n > 3:
            if self.ep.steady(4, True):
                require(not (v and r), "%s: a transfer was accepted two cycles after the pause", self.ep.name)
                if v:
                    self.labels.add("paused with work")
            if self.ep.steady(4, False) and all(self.room):
                require(r, "%s: not ready although not paused and not full", self.ep.name)
        lim = getattr(o, "queue_occupancy_limit", -1)
        self.room = [self.room[1], lim <= 0 or o.count() + (v and r) < lim]


class ApbMasterRule:
    def __init__(self, ep, sel, en, labels):
        self.ep, self.sel, self.en, self.labels = ep, sel, en, labels
        self.idle = self.wait = 0
        self.setup = False

    def sample(self):
        sel, en = self.sel.v or 0, self.en.v or 0
        setup = bool(sel and not en)
        if setup and not self.setup:
            require(not self.ep.steady(2, True), "%s: a transfer was started although paused", self.ep.name)
        busy = not self.ep.obj.idle()
        if busy and not sel and self.ep.steady(2, True):
            self.labels.add("paused with work")
        self.wait = self.wait + 1 if busy and not sel and self.ep.steady(2, False) else 0
        require(self.wait <= 3, "%s: no transfer started for %d cycles although not paused", self.ep.name, self.wait)
        self.setup = setup


class ApbSlaveRule:
    def __init__(self, ep, sel, ready, labels):
        self.ep, self.sel, self.ready, self.labels = ep, sel, ready, labels
        self.wait = 0
        self.was = 0

    def sample(self):
        sel, rdy = self.sel.v or 0, self.ready.v or 0
        if rdy and not self.was:
            require(not self.ep.steady(2, True), "%s: a transfer was completed although paused", self.ep.name)
        if sel and not rdy and self.ep.steady(2, True):
            self.labels.add("paused with work")
        self.wait = self.wait + 1 if sel and not rdy and self.ep.steady(2, False) else 0
        require(self.wait <= 3, "%s: a transfer waits %d cycles although the slave is not paused", self.ep.name, self.wait)
        self.was = rdy


class Watch:
    def __init__(self, sim):
        self.sim, self.eps, self.rules = sim, [], []

    def start(self):
        def f():
            # rules look at the observations before this sample
            for r in self.rules:
                r.sample()
            for e in self.eps:
                e.sample()
        self.sim.on_sample(f)
        cocotb.start_soon(self._after())
        return [cocotb.start_soon(e.run(self.sim)) for e in self.eps]

    async def _after(self):
        edge = RisingEdge(self.sim.dut.clk)
        t = Timer(1, "ns")
        while True:
            await edge
            await t
            for e in self.eps:
                e.after()


# ------------------------------------------------------------------ streams

@st.composite
def stream_case(draw):
    kind = draw(st.sampled_from(["stream", "axis"]))
    c = {"kind": kind, "n": draw(st.integers(1, 30)), "s": draw(script), "k": draw(script), "late": draw(st.integers(0, 6)),
         "chunk": draw(st.integers(1, 30))}
    if kind == "stream":
        c["d"] = draw(streams.stream_def())
    else:
        c["d"] = draw(axis.axis_cfg())
        c["len"] = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    return c


def run_streams(case):
    sim = Sim()
    labels = {case["kind"]}
    d, n = case["d"], case["n"]
    sent = [0]
    if case["kind"] == "stream":
        (bus, tr, source, sink, _), nets, vn, rn, mon = streams.make(sim, d)
    else:
        kit = axis.AxisKit(sim, d)
        vn, rn, mon = kit.v, kit.r, kit.mon
    want, got = [], []

    async def main(sim):
        dut = sim.dut
        edge = RisingEdge(dut.clk)
        if case["kind"] == "stream":
            src, snk = source(bus.from_prefix(dut, d["prefix"]), dut.clk), sink(bus.from_prefix(dut, d["prefix"]), dut.clk)
        else:
            src, snk = kit.make(AxiStreamSource), kit.make(AxiStreamSink)
        w = Watch(sim)
        es = Endpoint(src, "source", case["s"], labels)
        w.eps = [es]
        w.rules = [SourceRule(es, vn, rn, lambda: sent[0] - len(mon.log) - int(bool(vn.v and rn is not None and not rn.v)), labels)]
        if rn is not None:
            ek = Endpoint(snk, "sink", case["k"], labels)
            w.eps.append(ek)
            w.rules.append(SinkRule(ek, vn, rn, labels))
        tasks = w.start()
        for _ in range(case["late"]):
            await edge
        for i in range(n):
            if i and i % case["chunk"] == 0:
                for _ in range(5):
                    await edge
            if case["kind"] == "stream":
                it = streams.item(d, i + 3)
                want.append(it)
                sent[0] += 1
                src.send_nowait(streams.txn(tr, d, it))
            else:
                L = d["L"] * case["len"][i % len(case["len"])]
                data = axis.symbols(d, i + 3, L)
                want.append(data)
                sent[0] += L // d["L"]
                src.send_nowait(AxisFrame(data, d))
        for t in tasks:
            await t
        await src.wait()
        for _ in range(3):
            await edge
        while not snk.empty():
            x = snk.recv_nowait()
            got.append(streams.as_item(d, x) if case["kind"] == "stream" else list(x.tdata))
    sim.run(main, 4000)
    if case["kind"] == "stream" or d["sig"]["tlast"]:
        require(got == want, "%d items received, %d sent, or in another order", len(got), len(want))
    else:
        require([b for x in got for b in x] == [b for x in want for b in x], "other data received than sent")
    return "paused with work" in labels and "full rate" in labels, labels


def AxisFrame(data, d):
    from cocotbext.axi import AxiStreamFrame
    return AxiStreamFrame(bytes(data) if d["bs"] == 8 else data)


# ------------------------------------------------------------------ memory-mapped buses

@st.composite
def bus_case(draw):
    kind = draw(st.sampled_from(["axi", "axil", "apb"]))
    cfg = draw(cfg_for(kind))
    cfg["absent"] = [a for a in cfg["absent"] if a != "wstrb"]
    cfg["aw"] = max(cfg["aw"], 12)
    names = ("m_p", "s_p") if kind == "apb" else tuple(x + "_" + c for x in "ms" for c in ("aw", "w", "b", "ar", "r"))
    on = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3 if kind != "apb" else 2, unique=True))
    return {"cfg": cfg, "scripts": {x: draw(script) for x in on}, "mbl": draw(st.sampled_from([256, 1, 2, 3])),
            "ops": draw(st.lists(st.tuples(st.integers(0, 1), st.integers(1, 90), st.sampled_from([0, 0, 1, 7])).map(list), min_size=1, max_size=6))}


def run_bus(case):
    sim = Sim()
    cfg = case["cfg"]
    kind = cfg["kind"]
    kit = Kit(sim, cfg, {}, native_slave=False)
    labels = {kind}

    async def main(sim):
        edge = RisingEdge(sim.dut.clk)
        m = kit.master(**({"max_burst_len": case["mbl"]} if kind == "axi" else {}))
        r = kit.ram(size=4096)
        w = Watch(sim)
        for side, obj in (("m", m), ("s", r)):
            for c, ch in channels(obj, kind).items():
                name = side + "_" + c
                if kind != "apb":
                    v, rd = kit.wires.ch[c][:2]
                ep = Endpoint(ch, name, case["scripts"].get(name, []), labels)
                w.eps.append(ep)
                if kind == "apb":
                    n = kit.wires.n
                    w.rules.append(ApbMasterRule(ep, n["psel"], n["penable"], labels) if side == "m" else
                                   ApbSlaveRule(ep, n["psel"], n["pready"], labels))
                elif (side == "m") == (c in ("aw", "w", "ar")):
                    w.rules.append(SourceRule(ep, v, rd, ch.count, labels))
                else:
                    w.rules.append(SinkRule(ep, v, rd, labels))
        tasks = w.start()
        ref = {}
        for i, (wr, n, gap) in enumerate(case["ops"]):
            for _ in range(gap):
                await edge
            if wr:
                data = gen_bytes(i + 3, n)
                tasks.append(cocotb.start_soon(m.write(i * 128, data)))
                ref[i] = data
            else:
                tasks.append(cocotb.start_soon(m.read(i * 128, n)))
        for t in tasks:
            await t
        for i, data in ref.items():
            require(bytes(r.read(i * 128, len(data))) == data, "operation %d wrote other data", i)
        for _ in range(3):
            await edge
        require(m.idle(), "master not idle at the end")
    sim.run(main, 8000)
    return "paused with work" in labels, labels


CHECKS = [
    Check("P01", "random scripts of pause assignments, pause generators (finite and endless), replacements and clearing on both ends of a "
          "stream, an AXI stream, an AXI, AXI-Lite or APB bus, while traffic is waiting; every cycle of every endpoint is judged; "
          "non-trivial: an endpoint was paused with work waiting (and, for streams, also ran at full rate)",
          [Part("stream", stream_case, run_streams, 1200, 50000), Part("bus", bus_case, run_bus, 700, 25000)], ASSUME),
]
