"""R01, R02: reset at arbitrary moments."""

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, require
from ..bfm import Cyc, NSink, NSource, RefMem, beat_lanes, gen_bytes
from ..kits import Kit, cfg_for, timing_for
from .. import gen
from . import axis, slaves, streams

import cocotb
from cocotb.binary import BinaryValue
from cocotb.triggers import Event, FallingEdge, RisingEdge, Timer
from cocotbext.axi import AxiStreamMonitor, AxiStreamSink, AxiStreamSource

RESETS = st.lists(st.fixed_dictionaries({"after": st.one_of(st.integers(1, 12), st.integers(1, 45)), "dur": st.integers(1, 4),
                                         "mid": st.integers(0, 2)}), min_size=1, max_size=3)
# by the reset signal, by assert_reset(), or by both with either one outlasting the other
HOW = st.sampled_from(["sig", "sig", "sig_x", "call", "call_pulse", "sig_call", "call_sig", "both", "sig_pulse"])


class Timed(Event):
    """An event that notes in info["sets"] when it was set."""

    def __init__(self, sim, info):
        super().__init__()
        self.sim, self.times = sim, info.setdefault("sets", set())

    def set(self, data=None):
        self.times.add(self.sim.now)
        super().set(data)


class Resetter:
    """Drives the reset net as told by the case and remembers when.

    If lnet is given, rst is what native components follow, lnet is the reset signal of the library objects, and the objects in
    self.objs are reset through lnet, assert_reset(), or both, as told by ``how``."""

    def __init__(self, sim, rst, level, resets, lnet=None, how=("sig",)):
        self.sim, self.rst, self.level, self.resets = sim, rst, level, resets
        self.on, self.off = [], []
        self.done = False
        self.lnet, self.how, self.objs, self.used = lnet, Cyc(how), [], set()
        rst.put(1 - level)
        if lnet is not None:
            lnet.put(1 - level)

    def _lib(self, sig=None, call=None, pulse=False):
        if sig is not None:
            getattr(self.sim.dut, self.lnet.name).value = self.level if sig else 1 - self.level
        if call is not None:
            for o in self.objs:
                if pulse:
                    # a pulse leaves the reset released
                    o.assert_reset()
                    if call:
                        o.assert_reset(True)
                else:
                    o.assert_reset(call)

    def assert_lib(self, how):
        self._lib(sig=True if how in ("sig", "sig_x", "sig_call", "both", "sig_pulse") else None, call=True if how in ("call", "call_pulse", "call_sig", "both") else None,
                  pulse=how == "call_pulse")

    async def undefined(self, how):
        """An undefined value on the way to the next one is not a reset."""
        if how == "sig_x":
            getattr(self.sim.dut, self.lnet.name).value = BinaryValue("x")
            await Timer(1, "ns")

    def swap_lib(self, how):
        if how == "sig_call":
            self._lib(call=True)
            self._lib(sig=False)
        elif how == "call_sig":
            self._lib(sig=True)
        elif how == "sig_pulse":
            self._lib(call=False, pulse=True)      # changes nothing while the signal holds the reset

    def swap2_lib(self, how):
        if how == "call_sig":
            self._lib(call=False)
        elif how == "both":
            self._lib(sig=False)

    def release_lib(self, how):
        self._lib(sig=False if how in ("sig", "sig_x", "call_sig", "sig_pulse") else None, call=False if how in ("call", "call_pulse", "sig_call", "both") else None,
                  pulse=how == "call_pulse")

    def active(self):
        return self.rst.v == self.level

    async def run(self, at_assert=None, at_release=None):
        edge = RisingEdge(self.sim.dut.clk)
        sig = getattr(self.sim.dut, self.rst.name)
        for r in self.resets:
            for _ in range(r["after"]):
                await edge
            how = self.how.next()
            # a call at a clock edge would race with whatever happens at that edge
            if r["mid"] & 1 or how != "sig":
                await Timer(3, "ns")
            await self.undefined(how)
            sig.value = self.level
            if self.lnet is not None:
                self.used.add("reset by " + how)
                self.assert_lib(how)
            self.on.append(self.sim.now)
            await Timer(1, "ns")
            if at_assert is not None:
                at_assert()
            for k in range(r["dur"]):
                if self.lnet is not None and k == r["dur"] - 1:
                    self.swap_lib(how)
                    await Timer(1, "ns")
                    self.swap2_lib(how)
                await edge
            if r["mid"] & 2 or how != "sig":
                await Timer(3, "ns")
            await self.undefined(how)
            sig.value = 1 - self.level
            if self.lnet is not None:
                self.release_lib(how)
            self.off.append(self.sim.now)
            await Timer(1, "ns")
            if at_release is not None:
                at_release()
        self.done = True


def low_in_reset(sim, rs, nets, what):
    def f():
        if rs.active():
            for n in nets:
                require(not n.v, "%s: %s is high during reset (cycle %d)", what, n.name, sim.cycle)
    sim.on_sample(f)


# ------------------------------------------------------------------ R01: masters

SLOT = 128


@st.composite
def master_case(draw, kind):
    cfg = draw(cfg_for(kind))
    cfg["aw"] = max(cfg["aw"], 12)
    L = cfg["lanes"]
    full = "wstrb" in cfg["absent"]

    @st.composite
    def op(draw):
        k = draw(st.sampled_from("wwrr"))
        n = draw(st.one_of(st.integers(1, 3 * L), st.integers(1, SLOT - 8)))
        n = min(n, SLOT)
        off = draw(st.integers(0, min(L, SLOT - n)))
        if full and k == "w":
            off, n = 0, max(L, n // L * L)
        o = {"k": k, "off": off, "n": n, "key": draw(st.integers(3, 1 << 20)), "m": draw(st.sampled_from(["init", "init", "task"])),
             "gap": draw(st.sampled_from([0, 0, 0, 1, 2, 5, 12]))}
        if kind == "axi":
            o["id"] = draw(st.one_of(st.none(), st.integers(0, min(3, (1 << cfg["idw"]) - 1))))
            o["s"] = None if full else draw(st.one_of(st.none(), st.integers(0, (L - 1).bit_length())))
        return o
    ops = draw(st.lists(op(), min_size=1, max_size=14))
    return {"cfg": cfg, "ops": ops, "tail": draw(st.lists(op(), min_size=1, max_size=4)), "t": draw(timing_for(kind)),
            "level": draw(st.integers(0, 1)), "resets": draw(RESETS), "mbl": draw(st.sampled_from([1, 2, 4, 16, 256])),
            "pause": draw(st.lists(st.integers(0, 1), max_size=4)), "chp": draw(slaves.channel_patterns), "how": draw(st.lists(HOW, min_size=1, max_size=3)) if kind == "apb" else ["sig"]}


def run_master(case):
    sim = Sim()
    cfg = case["cfg"]
    level = case["level"]
    rst = sim.net("rst", 1)
    kind = cfg["kind"]
    lnet = sim.net("lrst", 1) if kind == "apb" else None
    rs = Resetter(sim, rst, level, case["resets"], lnet, case["how"])
    kit = Kit(sim, cfg, case["t"], rst=rst, rst_level=level)
    kit.lrst = lnet or rst
    labels = set()
    ops = case["ops"] + case["tail"]
    nmain = len(case["ops"])
    info = [dict() for _ in ops]
    if kind == "apb":
        outs = [kit.wires.n["psel"], kit.wires.n["penable"]]
    else:
        outs = list(kit.valid_nets) + [kit.wires.ch[c][1] for c in ("b", "r")]
    low_in_reset(sim, rs, outs, "master")

    def addr(i):
        op = ops[i]
        # each operation has its own place; reads look at places that are never written
        return (i if op["k"] == "w" else i + 20) * SLOT % (1 << cfg["aw"]) + op["off"] if cfg["aw"] > 12 else \
            ((i % 16) if op["k"] == "w" else 16 + i % 16) * SLOT + op["off"]

    async def main(sim):
        m = kit.master(max_burst_len=case["mbl"]) if kind == "axi" else kit.master()
        rs.objs = [m]
        edge = RisingEdge(sim.dut.clk)
        if kind == "apb" and case["pause"]:
            m.set_pause_generator(iter([bool(x) for x in (case["pause"] * 40)[:300]] + [False]))
        if kind != "apb":
            slaves.channel_pauses(case.get("chp", {}), m)
        waiters = []

        async def watch(i, ev):
            await ev.wait()
            info[i].update(t1=sim.now, res=ev.data)

        async def call(i, op, kw):
            if op["k"] == "w":
                x = await m.write(addr(i), gen_bytes(op["key"], op["n"]), **kw)
            else:
                x = await m.read(addr(i), op["n"], **kw)
            info[i].update(t1=sim.now, res=x)

        def issue(i):
            op = ops[i]
            kw = {}
            if kind == "axi":
                kw["size"] = op["s"]
                if op["id"] is not None:
                    kw["awid" if op["k"] == "w" else "arid"] = op["id"]
            info[i]["t0"] = sim.now
            if op["m"] == "task":
                return cocotb.start_soon(call(i, op, kw))
            if op["k"] == "w":
                ev = m.init_write(addr(i), gen_bytes(op["key"], op["n"]), event=Timed(sim, info[i]), **kw)
            else:
                ev = m.init_read(addr(i), op["n"], event=Timed(sim, info[i]), **kw)
            info[i]["ev"] = ev
            return cocotb.start_soon(watch(i, ev))

        async def idle_waiter(i):
            t0 = sim.now
            await getattr(m, "wait" if kind == "apb" else ["wait", "wait_write", "wait_read"][i // 4 % 3])()
            return t0

        def at_assert():
            # nothing that was issued before the reset may be left
            t = rs.on[-1]
            for i, x in enumerate(info):
                if "t0" in x and x["t0"] < t:
                    require("t1" in x, "operation %d issued at %d is still pending after the reset at %d", i, x["t0"], t)
            if not any("t0" in x and x["t0"] >= t for x in info):
                require(m.idle(), "master not idle after reset")
                for w in waiters:
                    require(w.done(), "wait() still blocked after reset")

        rtask = cocotb.start_soon(rs.run(at_assert))
        tasks = []
        for i in range(nmain):
            for _ in range(ops[i]["gap"]):
                await edge
            if i % 4 == 1:
                waiters.append(cocotb.start_soon(idle_waiter(i)))
            tasks.append(issue(i))
            if ops[i]["m"] == "task":
                await Timer(1, "ns")
                await edge
        for t in tasks:
            await t
        await rtask
        await edge
        for i in range(nmain, len(ops)):
            tasks.append(issue(i))
        for t in tasks[nmain:]:
            await t
        await m.wait()
        for w in waiters:
            await w
        require(m.idle(), "master not idle at the end")
        for _ in range(8):
            await edge

    sim.run(main, 12000)

    written = {}
    for i, op in enumerate(ops):
        x = info[i]
        r = x["res"]
        a = addr(i)
        if "ev" in x:
            require(x["ev"].data is r and len(x["sets"]) == 1, "operation %d completed at %s", i, sorted(x["sets"]))
        hit = [t for t in rs.on if x["t0"] <= t <= x["t1"]]
        if r is None:
            require(x["t1"] in rs.on, "operation %d returned nothing at %d, resets at %s", i, x["t1"], rs.on)
            require(i < nmain, "operation %d after the last reset returned nothing", i)
            labels.add("operation flushed")
        else:
            require(not [t for t in hit if x["t0"] < t < x["t1"]], "operation %d (%d..%d) survived the reset at %s", i, x["t0"], x["t1"], hit)
            require(r.address == a and int(r.resp) == 0, "operation %d: response %r", i, r)
            if op["k"] == "w":
                require(r.length == op["n"], "operation %d: response %r", i, r)
            else:
                want = bytes(kit.mem.init(a + j) for j in range(op["n"]))
                require(bytes(r.data) == want, "operation %d: read %s, expected %s", i, bytes(r.data).hex(), want.hex())
            if i >= nmain or x["t0"] > rs.off[0]:
                labels.add("operation after reset")
            if any(a <= x["t0"] <= b for a, b in zip(rs.on, rs.off)):
                labels.add("issued during reset")
        if op["k"] == "w":
            d = gen_bytes(op["key"], op["n"])
            for j in range(op["n"]):
                written.setdefault(a + j, []).append((d[j], r is not None))
    for p, v in kit.mem.d.items():
        require(p in written and (v == kit.mem.init(p) or v in [x for x, _ in written[p]]), "byte %#x is %#x, nobody wrote that", p, v)
    for p, vs in written.items():
        if all(ok for _, ok in vs):
            require(kit.mem.get(p) in [x for x, _ in vs], "byte %#x is %#x although its writes completed with %s", p, kit.mem.get(p), vs)
    return "operation flushed" in labels, labels


# ------------------------------------------------------------------ R02: slaves

@st.composite
def slave_case(draw, kind):
    cfg = draw(slaves.slave_cfg(kind))
    b = slaves.burst_in(cfg, "wr", maxbeats=12)
    mem = draw(st.sampled_from(["sparse", "mmap", "target"]))
    mt = draw(slaves.mtiming(kind, target=mem == "target"))
    mt["tfail"] = [0]
    return {"cfg": cfg, "how": draw(HOW) if kind == "apb" else "sig", "mem": mem, "size": 1 << cfg["aw"] if mem != "mmap" else min(1 << 15, 1 << cfg["aw"]), "mt": mt,
            "phases": [draw(st.lists(b, min_size=1, max_size=6)) for _ in range(draw(st.integers(1, 3)))],
            "tail": draw(st.lists(b, min_size=1, max_size=4)), "level": draw(st.integers(0, 1)),
            "resets": draw(st.lists(st.fixed_dictionaries({"after": st.one_of(st.integers(1, 10), st.integers(1, 40)), "dur": st.integers(1, 4),
                                                           "mid": st.integers(0, 3)}), min_size=3, max_size=3))}


def run_slave(case):
    sim = Sim()
    cfg = case["cfg"]
    L = cfg["lanes"]
    kind = cfg["kind"]
    level = case["level"]
    rst = sim.net("rst", 1)
    lnet = sim.net("lrst", 1) if kind == "apb" else None
    rs = Resetter(sim, rst, level, [], lnet)
    kit = Kit(sim, cfg, {}, rst=rst, rst_level=level, native_slave=False)
    kit.lrst = lnet or rst
    bfm = slaves.manager(kit, case)
    labels = set()
    if kind == "apb":
        outs = [kit.wires.n["pready"]]
    else:
        outs = [kit.wires.ch[c][0] for c in ("b", "r")] + [kit.wires.ch[c][1] for c in ("aw", "w", "ar")]
    low_in_reset(sim, rs, outs, "slave")
    model = RefMem(7)
    completed = []

    async def main(sim):
        size = case["size"]
        if case["mem"] == "target":
            tmem = RefMem(7)
            tgt = slaves.Target(sim, tmem, case["mt"])
            s = slaves.build_slave(case, kit, tgt)
            peek = lambda p: tmem.get(p)
            fill = lambda p: None
        else:
            s, r_, size = slaves.build_ram(case, kit)
            peek = lambda p: r_.read(p, 1)[0]
            fill = lambda p: s.write(p, bytes([model.get(p)]))
        slaves.pauses(kit, s, case, *([] if case["mem"] == "target" else [r_]))
        edge = RisingEdge(sim.dut.clk)
        seen = set()

        def phase_bytes(recs):
            out = {}
            for rec in recs:
                if "beats" in rec:
                    for a, base, strb, data in rec["beats"]:
                        for j in range(L):
                            if strb >> j & 1:
                                out.setdefault((base + j) % size, []).append((rec["i"], data[j]))
                            touch((base + j) % size)
                else:
                    for a in rec["addrs"]:
                        for j in range(L):
                            touch((a // L * L + j) % size)
            return out

        def touch(p):
            if p not in seen:
                seen.add(p)
                fill(p)

        def check_reads(recs, allowed, before):
            for rec in recs:
                if "addrs" not in rec:
                    continue
                for k, v in enumerate(rec["data"]):
                    a = rec["addrs"][k]
                    require(rec["resp"][k] == 0, "read %d answered %s", rec["i"], rec["resp"])
                    lo, hi = beat_lanes(a, rec["b"].get("s", (L - 1).bit_length()), L) if kind == "axi" else (0, L)
                    for j in range(lo, hi):
                        p = (a // L * L + j) % size
                        g = v >> 8 * j & 0xff
                        require(g == before(p) or g in [x for _, x in allowed.get(p, ())], "read %d transfer %d: lane %d (address %#x) is %#x, expected %#x",
                                rec["i"], k, j, p, g, before(p))

        for ph, r in zip(case["phases"], case["resets"]):
            recs = [bfm.send(i, b) for i, b in enumerate(ph)]
            allowed = phase_bytes(recs)
            done = []
            bfm.on_b = lambda rec: done.append(rec["i"])
            rr = Resetter(sim, rst, level, [r], lnet, [case["how"]])
            rr.objs = [s]
            left = []

            def flush():
                left.append(bfm.outstanding)
                bfm.flush()
            task = cocotb.start_soon(rr.run(at_assert=flush))
            await task
            if left[0]:
                labels.add("traffic interrupted")
            snap = dict(model.d)
            before = lambda p: snap.get(p, model.init(p))
            check_reads(recs, allowed, before)
            for p, vs in allowed.items():
                g = peek(p)
                certain = [v for i, v in vs if i in done]
                if certain and len(set(v for _, v in vs)) == 1:
                    require(g == certain[0], "byte %#x is %#x although its write completed with %#x before the reset", p, g, certain[0])
                else:
                    require(g == before(p) or g in [v for _, v in vs], "byte %#x is %#x after the reset, nobody wrote that", p, g)
                model.set(p, g)
        await edge
        for b in case["tail"] + [dict(b, k="r") for b in case["tail"] if b["k"] == "w"]:
            recs = [bfm.send(0, b)]
            allowed = phase_bytes(recs)
            snap = dict(model.d)
            before = lambda p: snap.get(p, model.init(p))
            bfm.on_b = lambda rec: completed.append(rec)
            while bfm.outstanding:
                await edge
            if "beats" in recs[0]:
                require(recs[0]["resp"] == 0, "write after reset answered %d", recs[0]["resp"])
                for p, vs in allowed.items():
                    require(peek(p) == vs[-1][1], "byte %#x is %#x after a completed write of %#x", p, peek(p), vs[-1][1])
                    model.set(p, vs[-1][1])
            else:
                require(len(recs[0]["data"]) == len(recs[0]["addrs"]), "read after reset is incomplete")
                check_reads(recs, {}, before)
        for _ in range(10):
            await edge
        for p in seen:
            require(peek(p) == model.get(p), "byte %#x is %#x at the end, expected %#x", p, peek(p), model.get(p))

    sim.run(main, 12000)
    return "traffic interrupted" in labels, labels


# ------------------------------------------------------------------ R02: streams

def watch_idle(sim, src, rs, what, labels):
    """While a source is idle, in reset too, waiting for it returns."""
    async def run():
        edge = RisingEdge(sim.dut.clk)
        while True:
            await edge
            await Timer(3, "ns")
            if not src.idle():
                continue
            task = cocotb.start_soon(src.wait())
            for _ in range(2):
                await edge
                await Timer(3, "ns")
                if not src.idle():
                    break
            else:
                require(task.done(), "%s is idle, but wait() does not return", what)
                if len(rs.on) > len(rs.off):
                    labels.add("idle in reset")
            if not task.done():
                task.kill()
    cocotb.start_soon(run())


@st.composite
def axis_case(draw):
    cfg = draw(axis.axis_cfg(last=1))
    mode = draw(st.sampled_from(["pair", "pair", "src", "snk"]))
    return {"cfg": cfg, "mode": mode, "frames": draw(st.lists(axis.frame_spec(cfg, empty=False), min_size=2, max_size=9)),
            "gaps": draw(st.lists(st.sampled_from([0, 0, 0, 1, 4]), min_size=1, max_size=4)), "level": draw(st.integers(0, 1)),
            "resets": draw(RESETS), "spause": draw(st.one_of(st.just([]), gen.pattern)), "kpause": draw(st.one_of(st.just([]), gen.pattern)),
            "pattern": draw(gen.pattern), "delays": draw(gen.delays), "limit": draw(st.sampled_from([-1, -1, 1, 2])),
            "how": draw(st.lists(HOW, min_size=1, max_size=3))}


def segments(log, resets):
    """Split (time, beat) at the reset assertions."""
    out = [[] for _ in range(len(resets) + 1)]
    for t, b in log:
        out[sum(1 for r in resets if r < t)].append((t, b))
    return out


def subsequence(part, whole, lost_max, what):
    """part is whole with at most lost_max elements left out; returns the number left out."""
    i = 0
    lost = 0
    for x in part:
        while i < len(whole) and whole[i] != x:
            i += 1
            lost += 1
        require(i < len(whole), "%s: %s was never sent, or is out of order", what, x)
        i += 1
    lost += len(whole) - i
    require(lost <= lost_max, "%s: %d lost in %d resets", what, lost, lost_max)
    return lost


def unpack(cfg, w):
    L, bs = cfg["L"], cfg["bs"]
    m = (1 << bs) - 1
    b = {"d": [w["tdata"] >> i * bs & m for i in range(L)], "k": [w.get("tkeep", (1 << L) - 1) >> i & 1 for i in range(L)],
         "tlast": w.get("tlast", 1)}
    for s in axis.FIELDS:
        b[s] = w.get(s, 0)
    return b


def run_axis(case):
    sim = Sim()
    cfg, mode, level = case["cfg"], case["mode"], case["level"]
    # every frame is different, whatever its data
    frames = [dict(f, tid=None, tkeep=None) for f in case["frames"]]
    rst = sim.net("rst", 1)
    rs = Resetter(sim, rst, level, case["resets"], sim.net("lrst", 1), case["how"])
    kit = axis.AxisKit(sim, cfg, rst, level)
    kit.rst = rs.lnet
    labels = rs.used
    labels.add(mode)
    low_in_reset(sim, rs, ([kit.v] if mode != "snk" else []) + ([kit.r] if mode != "src" and kit.r is not None else []), "stream")
    done = []
    got, seen = [], []

    async def main(sim):
        edge = RisingEdge(sim.dut.clk)
        src = snk = None
        if mode != "snk":
            src = kit.make(AxiStreamSource)
            src.queue_occupancy_limit_frames = case["limit"]
            axis.drive_pause(src, case["spause"])
            watch_idle(sim, src, rs, "source", labels)
        else:
            ns = NSource(sim, kit.v, kit.r, kit.pl, delays=case["delays"], junk=1, rst=rst, rst_level=level)
            for f in frames:
                for b in axis.encode(cfg, f):
                    ns.send(axis.pack(cfg, b))
        if mode != "src":
            snk = kit.make(AxiStreamSink)
            if kit.r is not None:
                axis.drive_pause(snk, case["kpause"])
        else:
            NSink(sim, kit.v, kit.r, kit.pl, pattern=case["pattern"], rst=rst, rst_level=level)
        mon = kit.make(AxiStreamMonitor)
        rs.objs = [o for o in (src, snk, mon) if o is not None]

        async def sender():
            gaps = Cyc(case["gaps"])
            for i, f in enumerate(frames):
                for _ in range(gaps.next()):
                    await edge
                await src.send(axis.build(cfg, dict(f, type="frame"), tx_complete=lambda fr, i=i: done.append((i, sim.now))))

        rtask = cocotb.start_soon(rs.run())
        if src is not None:
            await cocotb.start_soon(sender())
        await rtask
        if src is not None:
            await src.wait()
            require(src.idle() and src.empty(), "source not idle after wait()")
            require(src.queue_occupancy_frames == 0 and src.queue_occupancy_bytes == 0, "source occupancy not zero when idle")
        else:
            while not ns.idle():
                await edge
        for _ in range(30):
            await edge
        for o, out in ((snk, got), (mon, seen)):
            if o is not None:
                while not o.empty():
                    out.append(o.recv_nowait(compact=False))
                require(o.queue_occupancy_frames == 0 and o.queue_occupancy_bytes == 0, "receiver occupancy not zero when empty")

    sim.run(main, 9000)

    log = [(axis.edge_time(c), w) for c, w in kit.mon.log]
    segs = segments(log, rs.on)
    want = [f for s in segs for f in axis.decode(cfg, [(t, unpack(cfg, w)) for t, w in s])]
    for name, lst in ([("sink", got)] if mode != "src" else []) + [("monitor", seen)]:
        require(len(lst) == len(want), "%s reported %d frames, %d were completely transferred", name, len(lst), len(want))
        for i, (g, w) in enumerate(zip(lst, want)):
            axis.check_frame(g, w, False, "%s, frame %d" % (name, i), cfg)
    cut = sum(1 for s in segs[:-1] if s and not s[-1][1]["tlast"])
    if cut:
        labels.add("reset inside a frame")
    if any(a <= rs.on[0] for a, _ in log) and any(t > rs.on[0] for t, _ in log):
        labels.add("traffic around reset")
    if mode != "snk":
        ids = sorted(i for i, _ in done)
        require(ids == list(range(len(frames))), "completion reported for frames %s", ids)
        require([i for i, _ in done] == ids, "completions out of order: %s", done)
        names = list(kit.pl)
        enc = [[tuple(axis.pack(cfg, b)[f] for f in names) for b in axis.encode(cfg, f)] for f in frames]
        sent = [[[tuple(w[f] for f in names) for _, w in x] for x in split_frames(s)] for s in segs]
        # every completely transferred frame is one of the frames sent, in order; at most one is lost per reset
        full = [f for s in sent for f in s if f[-1][names.index("tlast")]]
        lost = subsequence(full, enc, len(rs.on), "frames on the wire")
        if lost:
            labels.add("frame flushed")
        for s in sent:
            for f in s:
                if not f[-1][names.index("tlast")]:
                    require(any(f == e[:len(f)] for e in enc), "a frame cut by reset is no prefix of a frame sent")
    return "reset inside a frame" in labels or "frame flushed" in labels, labels


def split_frames(seg):
    out, cur = [], []
    for t, w in seg:
        cur.append((t, w))
        if w["tlast"]:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


@st.composite
def stream_case(draw):
    return {"d": draw(streams.stream_def()), "mode": draw(st.sampled_from(["pair", "pair", "src", "snk"])), "n": draw(st.integers(2, 24)),
            "gaps": draw(st.lists(st.sampled_from([0, 0, 0, 1, 4]), min_size=1, max_size=4)), "level": draw(st.integers(0, 1)),
            "resets": draw(RESETS), "spause": draw(st.one_of(st.just([]), gen.pattern)), "kpause": draw(st.one_of(st.just([]), gen.pattern)),
            "pattern": draw(gen.pattern), "delays": draw(gen.delays), "limit": draw(st.sampled_from([-1, -1, 1, 3])),
            "how": draw(st.lists(HOW, min_size=1, max_size=3))}


def run_stream(case):
    sim = Sim()
    d, mode, level = case["d"], case["mode"], case["level"]
    rst = sim.net("rst", 1)
    rs = Resetter(sim, rst, level, case["resets"], sim.net("lrst", 1), case["how"])
    (bus, tr, source, sink, monitor), nets, vn, rn, mon_ = streams.make(sim, d, rst, level)
    labels = rs.used
    labels.add(mode)
    low_in_reset(sim, rs, ([vn] if mode != "snk" else []) + ([rn] if mode != "src" and rn is not None else []), "stream")
    items = [streams.item(d, k + 3) for k in range(case["n"])]
    got, seen = [], []

    async def main(sim):
        dut = sim.dut
        edge = RisingEdge(dut.clk)
        args = lambda: (bus.from_prefix(dut, d["prefix"]), dut.clk, dut.lrst, bool(level))
        src = snk = None
        if mode != "snk":
            src = source(*args())
            src.queue_occupancy_limit = case["limit"]
            streams.drive_pause(src, case["spause"])
            watch_idle(sim, src, rs, "source", labels)
        else:
            ns = NSource(sim, vn, rn, nets, delays=case["delays"], junk=1, rst=rst, rst_level=level)
            for it in items:
                ns.send(it)
        if mode != "src":
            snk = sink(*args())
            if rn is not None:
                streams.drive_pause(snk, case["kpause"])
        else:
            NSink(sim, vn, rn, nets, pattern=case["pattern"], rst=rst, rst_level=level)
        mon = monitor(*args())
        rs.objs = [o for o in (src, snk, mon) if o is not None]

        async def sender():
            gaps = Cyc(case["gaps"])
            for it in items:
                for _ in range(gaps.next()):
                    await edge
                await src.send(streams.txn(tr, d, it))

        rtask = cocotb.start_soon(rs.run())
        if src is not None:
            await cocotb.start_soon(sender())
        await rtask
        if src is not None:
            await src.wait()
            require(src.idle() and src.empty(), "source not idle after wait()")
        else:
            while not ns.idle():
                await edge
        for _ in range(30):
            await edge
        for o, out in ((snk, got), (mon, seen)):
            if o is not None:
                while not o.empty():
                    out.append(streams.as_item(d, o.recv_nowait()))

    sim.run(main, 9000)
    wire = [x for _, x in mon_.log]
    for name, lst in ([("sink", got)] if mode != "src" else []) + [("monitor", seen)]:
        require(lst == wire, "%s: %s", name, streams.diff(lst, wire))
    if mode != "snk":
        wide = sum(s["w"] for s in streams.present(d)) > 16
        if wide:
            lost = subsequence(wire, items, len(rs.on), "items on the wire")
            if lost:
                labels.add("item flushed")
        else:
            require(len(items) - len(rs.on) <= len(wire) <= len(items), "%d items sent, %d transferred, %d resets", len(items), len(wire), len(rs.on))
            if len(wire) < len(items):
                labels.add("item flushed")
    if mon_.log and edge_in(mon_.log, rs):
        labels.add("traffic around reset")
    return bool(labels & {"item flushed", "traffic around reset"}), labels


def edge_in(log, rs):
    t = [axis.edge_time(c) for c, _ in log]
    return min(t) < rs.on[0] < max(t)


ASSUME = ["Python GPI in pbt/sim.py instead of an HDL simulator", "a reset covers at least one clock edge and starts inactive"]

CHECKS = [
    Check("R01", "1-14 concurrent operations interrupted by 1-3 resets (1-4 cycles, at a clock edge or between edges, both polarities), then "
          "1-4 more operations; non-trivial: an operation was flushed",
          [Part("axi", lambda: master_case("axi"), run_master, 1200, 50000), Part("axil", lambda: master_case("axil"), run_master, 900, 40000),
           Part("apb", lambda: master_case("apb"), run_master, 900, 40000)], ASSUME),
    Check("R02", "1-3 phases of bus traffic, each interrupted by a reset, then more traffic checked strictly; streams with 1-3 resets; "
          "non-trivial: the reset interrupted traffic",
          [Part("axi", lambda: slave_case("axi"), run_slave, 800, 30000), Part("axil", lambda: slave_case("axil"), run_slave, 600, 20000),
           Part("apb", lambda: slave_case("apb"), run_slave, 600, 20000), Part("axis", axis_case, run_axis, 1000, 40000),
           Part("stream", stream_case, run_stream, 800, 30000)], ASSUME),
]
