"""S01, S02: streams made with define_stream()."""

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, Violation, require
from ..bfm import Channel, Cyc, NSink, NSource, gen_int
from .. import gen, qhist

import cocotb
from cocotb.queue import QueueFull
from cocotb.triggers import RisingEdge, Timer
from cocotbext.axi.stream import define_stream

PAYLOAD = ["data", "last", "user", "tag", "x_addr", "Strb"]
HS = st.sampled_from([("valid", "ready"), ("tvalid", "tready"), ("m_valid", "m_ready"), ("vld", "rdy"), ("TValid", "TReady")])


@st.composite
def stream_def(draw, ready=None):
    v, r = draw(HS)
    names = draw(st.lists(st.sampled_from(PAYLOAD), min_size=1, max_size=4, unique=True))
    sigs = [{"n": n, "w": draw(st.sampled_from([1, 2, 8, 13, 32, 64, 65, 128])), "opt": int(draw(st.booleans())),
             "here": int(draw(st.integers(0, 3)) > 0)} for n in names]
    sigs[0].update(opt=0)
    where = draw(st.sampled_from(["list", "list", "named", "opt", "only_named"]))
    if v == "vld" and where == "list":
        where = "named"
    has_ready = draw(st.sampled_from([1, 1, 1, 0])) if ready is None else ready
    return {"v": v, "r": r, "sigs": sigs, "where": where, "ready": has_ready, "prefix": draw(st.sampled_from(["s", "bus_a"]))}


def present(d):
    return [s for s in d["sigs"] if not s["opt"] or s["here"]]


def make(sim, d, rst=None, rst_level=1, novalid=False):
    """Classes from define_stream, nets and a passive channel monitor."""
    signals = [s["n"] for s in d["sigs"] if not s["opt"]]
    optional = [s["n"] for s in d["sigs"] if s["opt"]]
    v, r = d["v"], d["r"]
    kw = {}
    hs = [v] + ([r] if d["ready"] else [])
    w = d["where"]
    if w == "list" and not novalid:
        signals = signals + hs
        if not d["ready"]:
            optional = optional + [r]           # connected nowhere
    elif w == "opt" or novalid:
        optional = optional + [v, r]
        kw.update(valid_signal=v, ready_signal=r)
    elif w == "named":
        signals = hs + signals
        kw["valid_signal"] = v
        if d["ready"]:
            kw["ready_signal"] = r
    else:
        kw["valid_signal"] = v
        if d["ready"]:
            kw["ready_signal"] = r
    pay = present(d)
    kw["signal_widths"] = {s["n"]: s["w"] for s in d["sigs"][:2]}
    before = list(signals), list(optional)
    out = define_stream("Test", signals, optional_signals=optional, **kw)
    require((signals, optional) == before, "define_stream changed the caller's lists")
    p = d["prefix"]
    nets = {s["n"]: sim.net("%s_%s" % (p, s["n"]), s["w"]) for s in pay}
    vn = None if novalid else sim.net("%s_%s" % (p, v), 1)
    rn = sim.net("%s_%s" % (p, r), 1) if d["ready"] else None
    mon = Channel(sim, p, vn, rn, nets, rst, rst_level)
    return out, nets, vn, rn, mon


def item(d, k):
    return {s["n"]: gen_int(k * 7 + i, s["w"]) for i, s in enumerate(present(d))}


def txn(cls, d, it, skip=()):
    return cls(**{k: v for k, v in it.items() if k not in skip})


def as_item(d, obj):
    return {s["n"]: int(getattr(obj, s["n"])) for s in present(d)}


def drive_pause(obj, pat):
    """Pause by generator; always ends un-paused."""
    if pat:
        obj.set_pause_generator(iter([bool(x) for x in (list(pat) * 40)[:200]] + [False]))


# ------------------------------------------------------------------ S01: transport

@st.composite
def transport_case(draw):
    d = draw(stream_def())
    n = draw(st.one_of(*[st.integers(1, 20)] * 19, st.integers(40, 300)))
    return {"d": d, "mode": draw(st.sampled_from(["pair", "pair", "src", "snk"])), "n": n,
            "gaps": draw(st.lists(st.sampled_from([0, 0, 0, 1, 2, 7]), min_size=1, max_size=6)),
            "how": draw(st.lists(st.sampled_from(["send", "nowait"]), min_size=1, max_size=3)),
            "spause": draw(st.one_of(st.just([]), gen.pattern)), "kpause": draw(st.one_of(st.just([]), gen.pattern)),
            "limit": draw(st.sampled_from([-1, -1, 0, 1, 2, 3])), "klimit": draw(st.sampled_from([-1, -1, 0, 1, 2, 3])),
            "pattern": draw(gen.pattern), "smode": draw(gen.mode), "delays": draw(gen.delays),
            "taker": draw(st.sampled_from(["recv", "poll", "wait", "late"])), "tgap": draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)),
            "defaults": draw(st.booleans())}


def run_transport(case):
    sim = Sim()
    d = case["d"]
    (bus, tr, source, sink, monitor), nets, vn, rn, mon = make(sim, d)
    labels = {case["mode"], "handshake " + case["where"] if "where" in case else d["where"]}
    items = [item(d, k + 3) for k in range(case["n"])]
    mode = case["mode"]
    klimit = case["klimit"] if d["ready"] else -1
    kpause = case["kpause"] if d["ready"] else []
    got, seen = [], []
    drop = present(d)[-1]["n"] if case["defaults"] and len(present(d)) > 1 else None
    if drop:
        for i in range(0, len(items), 3):
            items[i][drop] = 0

    async def main(sim):
        dut = sim.dut
        edge = RisingEdge(dut.clk)
        src = snk = None
        p = d["prefix"]
        if mode in ("pair", "src"):
            src = source(bus.from_prefix(dut, p), dut.clk)
            src.queue_occupancy_limit = case["limit"]
            drive_pause(src, case["spause"])
        else:
            ns = NSource(sim, vn, rn, nets, delays=case["delays"], junk=1)
            for it in items:
                ns.send(it)
        if mode in ("pair", "snk"):
            snk = sink(bus.from_prefix(dut, p), dut.clk)
            snk.queue_occupancy_limit = klimit
            drive_pause(snk, kpause)
        else:
            nk = NSink(sim, vn, rn, nets, pattern=case["pattern"], mode=case["smode"])
        monr = monitor(bus.from_prefix(dut, p), dut.clk)

        async def sender():
            gaps, how = Cyc(case["gaps"]), Cyc(case["how"])
            for i, it in enumerate(items):
                for _ in range(gaps.next()):
                    await edge
                t = txn(tr, d, it, (drop,) if drop and i % 3 == 0 else ())
                if how.next() == "send":
                    await src.send(t)
                else:
                    while True:
                        try:
                            src.send_nowait(t)
                            break
                        except QueueFull:
                            await edge

        async def taker(obj, out):
            gaps = Cyc(case["tgap"])
            if case["taker"] == "late" and klimit <= 0:
                while obj.count() < len(items):
                    await edge
            while len(out) < len(items):
                if case["taker"] == "poll":
                    if obj.empty():
                        await edge
                        continue
                    out.append(as_item(d, obj.recv_nowait()))
                else:
                    if case["taker"] == "wait":
                        await obj.wait()
                        require(not obj.empty(), "wait() returned with an empty queue")
                    out.append(as_item(d, await obj.recv()))
                for _ in range(gaps.next()):
                    await edge

        tasks = []
        if src is not None:
            tasks.append(cocotb.start_soon(sender()))
        if snk is not None:
            tasks.append(cocotb.start_soon(taker(snk, got)))
        tasks.append(cocotb.start_soon(taker(monr, seen)))
        for t in tasks:
            await t
        if src is not None:
            await src.wait()
            require(src.idle() and src.count() == 0, "source not idle after wait()")
        for _ in range(12):
            await edge
        await Timer(1, "ns")
        require(monr.empty() and (snk is None or snk.empty()), "more items were received than sent")
        if snk is None and nk.got:
            got.extend(nk.got)
        require(not vn.v, "valid high with nothing to send")

    sim.run(main, 15000)
    wire = [x for _, x in mon.log]
    require(wire == items, "items on the wire differ from the items sent: %s", diff(wire, items))
    require(got == items, "items received differ from the items sent: %s", diff(got, items))
    require(seen == items, "items the monitor saw differ from the items sent: %s", diff(seen, items))
    if mon.n_stall:
        labels.add("backpressure")
    if case["spause"] and mode != "snk":
        labels.add("source paused")
    if kpause and mode != "src":
        labels.add("sink paused")
    if not d["ready"]:
        labels.add("no ready signal")
    if len(present(d)) < len(d["sigs"]):
        labels.add("optional signal absent")
    return len(items) > 2 and bool(labels & {"backpressure", "source paused", "sink paused", "no ready signal"}), labels


def diff(a, b):
    for i in range(max(len(a), len(b))):
        if i >= len(a) or i >= len(b) or a[i] != b[i]:
            return "item %d is %s, expected %s (%d/%d items)" % (i, a[i] if i < len(a) else None, b[i] if i < len(b) else None, len(a), len(b))
    return "equal"


@st.composite
def novalid_case(draw):
    return {"d": draw(stream_def()), "cycles": draw(st.integers(3, 60)), "driver": draw(st.sampled_from(["sink", "sink", "native", "source"])),
            "kpause": draw(st.one_of(st.just([]), gen.pattern)), "klimit": draw(st.sampled_from([-1, -1, 1, 2, 3])), "pattern": draw(gen.pattern),
            "tgap": draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)), "hold": draw(st.lists(st.integers(1, 4), min_size=1, max_size=4)),
            "spause": draw(st.one_of(st.just([]), gen.pattern))}


def run_novalid(case):
    """Without valid there is a transfer in every cycle in which ready is high, or in every cycle."""
    sim = Sim()
    d, who = case["d"], case["driver"]
    (bus, tr, source, sink, monitor), nets, _, rn, mon = make(sim, d, novalid=True)
    labels = {"driver " + who, "ready" if rn is not None else "no ready"}
    mon.stable = False
    for n in nets.values():
        n.put(0)
    items = [dict(item(d, k + 3)) for k in range(12)]
    got, seen = [], []
    state = {"k": 0}

    def change():
        # new values after every edge, or held for a few
        hold = case["hold"]
        state["k"] += 1
        if state["k"] % hold[state["k"] % len(hold)] == 0:
            for f, v in item(d, state["k"]).items():
                nets[f].nb(v)

    async def main(sim):
        dut = sim.dut
        edge = RisingEdge(dut.clk)
        p = d["prefix"]
        src = snk = None
        if who == "source":
            src = source(bus.from_prefix(dut, p), dut.clk)
            drive_pause(src, case["spause"])
            for it in items:
                src.send_nowait(txn(tr, d, it))
        else:
            sim.on_clk(change)
        if who == "sink":
            snk = sink(bus.from_prefix(dut, p), dut.clk)
            if rn is not None:
                snk.queue_occupancy_limit = case["klimit"]
                drive_pause(snk, case["kpause"])
        elif rn is not None:
            pat = Cyc(case["pattern"])
            rn.put(0)
            sim.on_clk(lambda: rn.nb(pat.next()))
        # what a source drives before its first item is undefined
        monr = monitor(bus.from_prefix(dut, p), dut.clk) if src is None else None
        gaps = Cyc(case["tgap"])
        k = 0
        for _ in range(case["cycles"] if src is None else 400):
            await edge
            k -= 1
            if k <= 0 and snk is not None and not snk.empty():
                got.append(as_item(d, snk.recv_nowait()))
                k = gaps.next()
        await Timer(1, "ns")
        for o, out in ((snk, got), (monr, seen)):
            if o is not None:
                while not o.empty():
                    out.append(as_item(d, o.recv_nowait()))
        if src is not None:
            await src.wait()
            require(src.idle() and src.count() == 0, "source not idle after wait()")
        state["log"] = [x for _, x in mon.log]

    sim.run(main, 3000)
    log = state["log"]
    # the cycles before the first edge after construction are not looked at
    require(len(log) > 0 or rn is not None, "nothing was transferred")
    for name, lst in [("sink", got)] * (who == "sink") + [("monitor", seen)] * (who != "source"):
        require(lst == log, "%s without valid: %s", name, diff(lst, log))
    if who == "source":
        # every item is there at one transfer at least, in order
        names = [x["n"] for x in present(d)]
        it = iter([tuple(x[n] for n in names) for x in log])
        for i, x in enumerate(items):
            w = tuple(x[n] for n in names)
            require(any(w == y for y in it), "item %d never transferred", i)
        if not case["spause"]:
            vals = [tuple(x[n] for n in names) for x in log]
            want = [tuple(x[n] for n in names) for x in items]
            require(any(vals[i:] == want + [want[-1]] * (len(vals) - i - len(want)) for i in range(len(vals))),
                    "items are repeated or lost without a pause: %s", vals[:30])
    return len(log) > 2, labels


# ------------------------------------------------------------------ S02: queues, limits, pause, clear

@st.composite
def queue_case(draw):
    return {"d": draw(stream_def(ready=1)), "limit": draw(st.sampled_from([-1, 0, 1, 2, 3, 5, 9, 14])), "klimit": draw(st.sampled_from([-1, 0, 1, 2, 3, 5, 9, 14])),
            "acts": draw(qhist.acts)}


class StreamAdapter:
    strict = True
    preload = False
    reads = False
    done = None

    def __init__(self, sim, case):
        self.case, self.d = case, case["d"]
        self.cls = make(sim, self.d)

    def make(self, sim):
        (bus, self.tr, source, sink, _), nets, vn, rn, mon = self.cls
        p, dut = self.d["prefix"], sim.dut
        return source(bus.from_prefix(dut, p), dut.clk), sink(bus.from_prefix(dut, p), dut.clk), vn, rn, mon

    def limits(self, src, snk):
        src.queue_occupancy_limit = self.case["limit"]
        snk.queue_occupancy_limit = self.case["klimit"]

    def src_full(self, n, nb):
        return 0 < self.case["limit"] <= n

    def snk_full(self, n, nb):
        return 0 < self.case["klimit"] <= n

    def occupancy(self, obj, n, nb, what):
        pass

    def new(self, i):
        it = item(self.d, i + 3)
        return txn(self.tr, self.d, it), [it], 1

    def after_send(self, obj):
        pass

    def got(self, obj):
        return as_item(self.d, obj)

    def want(self, i):
        return item(self.d, i + 3)


def run_queue(case):
    sim = Sim()
    labels = set()
    ad = StreamAdapter(sim, case)

    async def main(sim):
        await qhist.history(sim, ad, case["acts"], labels)

    sim.run(main, 4000)
    return bool(labels), labels


ASSUME = ["Python GPI in pbt/sim.py instead of an HDL simulator"]

CHECKS = [
    Check("S01", "1-20 items through a stream class built by define_stream (random payload signals and widths, optional signals absent, "
          "several ways to name the handshake, with or without ready), library or native peer, random pauses, limits and gaps; "
          "non-trivial: more than two items with backpressure, a pause or no ready signal",
          [Part("move", transport_case, run_transport, 1600, 60000), Part("no valid", novalid_case, run_novalid, 300, 12000)], ASSUME),
    Check("S02", "histories of 2-30 queue actions (send, send_nowait, recv, pause, clear, wait) at random times on a source/sink pair with "
          "random limits, compared with a counter model at every step; non-trivial: a limit, a pause or a clear took effect",
          [Part("queue", queue_case, run_queue, 1600, 60000)], ASSUME),
]
