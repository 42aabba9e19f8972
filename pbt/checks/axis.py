"""X01-X03: AXI stream sources, sinks and monitors."""

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, require
from ..bfm import Channel, Cyc, NSink, NSource, gen_bytes, gen_int
from .. import gen, qhist

import cocotb
from cocotb.queue import QueueEmpty, QueueFull
from cocotb.triggers import Event, FallingEdge, RisingEdge, Timer
from cocotbext.axi import AxiStreamBus, AxiStreamFrame, AxiStreamMonitor, AxiStreamSink, AxiStreamSource

FIELDS = ("tid", "tdest", "tuser")


# ------------------------------------------------------------------ configuration

@st.composite
def axis_cfg(draw, ready=None, last=None):
    L = draw(st.sampled_from([1, 2, 4, 8, 3, 16, 5, 64]))
    bs = draw(st.sampled_from([8, 8, 8, 8, 1, 4, 9, 16, 32, 64]))
    sig = {s: int(draw(st.integers(0, 3)) > 0) for s in ("tready", "tlast", "tkeep", "tid", "tdest", "tuser")}
    if ready is not None:
        sig["tready"] = ready
    if last is not None:
        sig["tlast"] = last
    how = None
    if not sig["tkeep"]:
        how = draw(st.sampled_from(["size", "lanes"] + (["none"] if bs == 8 else [])))
    return {"L": L, "bs": bs, "sig": sig, "how": how, "w": draw(st.sampled_from([1, 3, 8, 16])),
            "prefix": draw(st.sampled_from(["axis", "m_axis_tx"]))}


class AxisKit:
    """Nets, passive monitor and the constructor arguments of one AXI stream interface."""

    def __init__(self, sim, cfg, rst=None, rst_level=1, monitor=True, stable=True):
        self.sim, self.cfg = sim, cfg
        self.rst, self.rst_level = rst, rst_level
        L, bs, sig, p = cfg["L"], cfg["bs"], cfg["sig"], cfg["prefix"]
        self.pl = {"tdata": sim.net(p + "_tdata", L * bs)}
        if sig["tkeep"]:
            self.pl["tkeep"] = sim.net(p + "_tkeep", L)
        for f in FIELDS:
            if sig[f]:
                self.pl[f] = sim.net(p + "_" + f, cfg["w"])
        if sig["tlast"]:
            self.pl["tlast"] = sim.net(p + "_tlast", 1)
        self.v = sim.net(p + "_tvalid", 1) if sig.get("tvalid", 1) else None
        self.r = sim.net(p + "_tready", 1) if sig["tready"] else None
        self.mon = Channel(sim, p, self.v, self.r, self.pl, rst, rst_level, stable=stable) if monitor else None
        self.kw = {"size": {"byte_size": bs}, "lanes": {"byte_lanes": L}}.get(cfg["how"], {})

    def make(self, cls):
        d = self.sim.dut
        bus = AxiStreamBus.from_prefix(d, self.cfg["prefix"])
        if self.rst is None:
            return cls(bus, d.clk, **self.kw)
        return cls(bus, d.clk, getattr(d, self.rst.name), bool(self.rst_level), **self.kw)


def edge_time(cycle):
    return 10 * cycle - 5


# ------------------------------------------------------------------ frames and their reference encoding

def symbols(cfg, key, n):
    bs = cfg["bs"]
    if bs == 8:
        return list(gen_bytes(key, n))
    w = (bs + 7) // 8
    raw = gen_bytes(key, n * w)
    return [int.from_bytes(raw[i * w:i * w + w], "little") & ((1 << bs) - 1) for i in range(n)]


@st.composite
def frame_spec(draw, cfg, empty=True, maxbeats=5):
    L = cfg["L"]
    n = draw(st.one_of(st.integers(0 if empty else 1, 3), st.integers(1, max(1, L * maxbeats)), st.sampled_from([L, 2 * L, L + 1])))
    f = {"n": n, "key": draw(gen.data_key), "type": draw(st.sampled_from(["frame", "frame", "raw", "list"] if cfg["bs"] == 8 else ["frame", "raw"]))}
    m = (1 << cfg["w"]) - 1
    v = st.integers(0, m)
    f["tkeep"] = draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from([1, 1, 1, 0]), min_size=n, max_size=n),
                                st.lists(st.integers(0, 1), max_size=n + 2)))
    for s in FIELDS:
        f[s] = draw(st.one_of(st.none(), v, v, st.lists(v, max_size=min(n, 8) + 2)))
    if f["type"] != "frame":
        f.update(tkeep=None, tid=None, tdest=None, tuser=None)
    return f


def build(cfg, f, **kw):
    d = symbols(cfg, f["key"], f["n"])
    if f["type"] == "raw":
        return bytearray(d) if cfg["bs"] == 8 else d
    if cfg["bs"] == 8 and f["type"] == "frame":
        d = bytes(d)
    return AxiStreamFrame(d, *[list(f[k]) if isinstance(f[k], list) else f[k] for k in ("tkeep",) + FIELDS], **kw)


def extend(v, n, default):
    if v is None or v == []:
        return [default] * n
    if isinstance(v, int):
        return [v] * n
    return [v[min(i, len(v) - 1)] for i in range(n)]


def encode(cfg, f):
    """Beats a frame becomes: lane data, keep per lane, sidebands of the beat's last symbol."""
    L, n = cfg["L"], f["n"]
    data = symbols(cfg, f["key"], n)
    keep = extend(f["tkeep"], n, 1)
    side = {s: extend(f[s], n, 0) for s in FIELDS}
    out = []
    for o in range(0, n, L):
        e = min(n, o + L)
        pad = [0] * (L - (e - o))
        b = {"d": data[o:e] + pad, "k": keep[o:e] + pad, "tlast": int(e == n)}
        for s in FIELDS:
            b[s] = side[s][e - 1]
        out.append(b)
    return out


def pack(cfg, b):
    """Signal values of a beat."""
    bs = cfg["bs"]
    w = {"tdata": sum(v << i * bs for i, v in enumerate(b["d"])), "tkeep": sum(k << i for i, k in enumerate(b["k"])), "tlast": b["tlast"]}
    for s in FIELDS:
        w[s] = b[s]
    return w


def decode(cfg, beats):
    """Frames a receiver must report for a list of (time, beat)."""
    sig, L = cfg["sig"], cfg["L"]
    out, cur = [], None
    for t, b in beats:
        if cur is None:
            cur = {"tdata": [], "tkeep": [] if sig["tkeep"] else None, "start": t}
            for s in FIELDS:
                cur[s] = [] if sig[s] else None
        cur["tdata"] += b["d"]
        if sig["tkeep"]:
            cur["tkeep"] += b["k"]
        for s in FIELDS:
            if sig[s]:
                cur[s] += [b[s]] * L
        if b["tlast"] or not sig["tlast"]:
            cur["end"] = t
            out.append(cur)
            cur = None
    return out


def compacted(fr):
    idx = [i for i in range(len(fr["tdata"])) if fr["tkeep"] is None or fr["tkeep"][i]]
    out = {"tdata": [fr["tdata"][i] for i in idx]}
    for s in FIELDS:
        v = fr[s]
        if v is not None:
            v = [v[i] for i in idx]
            if not v:
                v = None
            elif all(x == v[0] for x in v):
                v = v[0]
        out[s] = v
    return out


def check_frame(got, want, compact, what, cfg):
    require(type(got) is AxiStreamFrame, "%s: received a %s", what, type(got).__name__)
    require(type(got.tdata) is (bytearray if cfg["bs"] == 8 else list), "%s: tdata is a %s", what, type(got.tdata).__name__)
    if compact:
        m = compacted(want)
        require(got.tkeep is None, "%s: tkeep left after compaction", what)
        require(list(got.tdata) == m["tdata"], "%s: data %s, expected %s", what, list(got.tdata), m["tdata"])
        for s in FIELDS:
            require(getattr(got, s) == m[s], "%s: %s %s, expected %s", what, s, getattr(got, s), m[s])
    else:
        require(list(got.tdata) == want["tdata"], "%s: data %s, expected %s", what, list(got.tdata), want["tdata"])
        # an absent signal may be reported as None or as an empty list
        require((got.tkeep or None) == (want["tkeep"] or None), "%s: tkeep %s, expected %s", what, got.tkeep, want["tkeep"])
        for s in FIELDS:
            v = getattr(got, s)
            require((None if v == [] else v) == want[s], "%s: %s %s, expected %s", what, s, v, want[s])
    if want.get("start") is not None:
        require(got.sim_time_start == want["start"], "%s: sim_time_start %s, first beat moved at %s", what, got.sim_time_start, want["start"])
        require(got.sim_time_end == want["end"], "%s: sim_time_end %s, last beat moved at %s", what, got.sim_time_end, want["end"])


def drive_pause(obj, pat):
    if pat:
        obj.set_pause_generator(iter([bool(x) for x in (list(pat) * 40)[:200]] + [False]))


# ------------------------------------------------------------------ X01/X02

@st.composite
def move_case(draw, modes):
    mode = draw(st.sampled_from(modes))
    cfg = draw(axis_cfg())
    case = {"cfg": cfg, "mode": mode, "gaps": draw(st.lists(st.sampled_from([0, 0, 0, 1, 2, 9]), min_size=1, max_size=5)),
            "spause": draw(st.one_of(st.just([]), gen.pattern)), "kpause": draw(st.one_of(st.just([]), gen.pattern)),
            "pattern": draw(gen.pattern), "smode": draw(gen.mode), "delays": draw(gen.delays),
            "taker": draw(st.sampled_from(["recv", "recv", "poll", "wait", "read"])), "compact": draw(st.booleans()),
            "tgap": draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)), "counts": draw(st.lists(st.integers(-1, 12), min_size=1, max_size=5).filter(any)),
            "how": draw(st.lists(st.sampled_from(["send", "nowait", "write", "write_nowait"]), min_size=1, max_size=3)),
            "slimit": draw(st.sampled_from([None, None, "f0", "f1", "f2", "b1", "b9"])), "klimit": draw(st.sampled_from([None, None, "f0", "f1", "f2", "b1", "b9"]))}
    if mode == "snk":
        # arbitrary beats, also ones no source of this library would make
        nb = draw(st.integers(1, 14))
        case["lasts"] = draw(st.lists(st.sampled_from([0, 0, 1]), min_size=nb, max_size=nb))
        case["keeps"] = draw(st.lists(st.integers(0, 9), min_size=1, max_size=nb))
        case["key"] = draw(gen.data_key)
        if not cfg["sig"]["tready"]:
            pass
        elif draw(st.integers(0, 9)) == 9:
            cfg["sig"]["tvalid"] = 0
    else:
        case["frames"] = draw(st.lists(frame_spec(cfg), min_size=1, max_size=6))
        how = draw(st.integers(0, 29))
        if how == 29:        # a long frame
            case["frames"][-1]["n"] = cfg["L"] * draw(st.integers(40, 280)) + draw(st.integers(0, cfg["L"] - 1))
        elif how == 28:      # many frames
            case["frames"] = draw(st.lists(frame_spec(cfg, maxbeats=2), min_size=10, max_size=40))
    return case


def set_limit(obj, lim):
    if lim:
        if lim[0] == "f":
            obj.queue_occupancy_limit_frames = int(lim[1])
        else:
            obj.queue_occupancy_limit_bytes = int(lim[1])


def beats_for_sink(case):
    cfg = case["cfg"]
    L = cfg["L"]
    out = []
    for k, last in enumerate(case["lasts"]):
        key = case["key"] + k
        b = {"d": symbols(cfg, key, L), "tlast": last}
        kk = case["keeps"][k % len(case["keeps"])]
        m = gen_int(kk if kk < 4 else key + 5, L)
        b["k"] = [m >> i & 1 for i in range(L)]
        for j, s in enumerate(FIELDS):
            b[s] = gen_int(key * 3 + j, cfg["w"])
        out.append(b)
    out[-1]["tlast"] = 1
    return out


def run_move(case):
    sim = Sim()
    cfg = case["cfg"]
    kit = AxisKit(sim, cfg)
    sig = cfg["sig"]
    mode = case["mode"]
    labels = {mode}
    frames = case.get("frames", [])
    if mode == "snk":
        beats = beats_for_sink(case)
    else:
        beats = [b for f in frames for b in encode(cfg, f)]
    expect_frames = len(decode(cfg, [(0, b) for b in beats]))
    done, got, seen, sent_obj = [], [], [], []
    rd = {"got": [], "seen": []}
    endless = kit.v is None

    async def main(sim):
        edge = RisingEdge(sim.dut.clk)
        src = snk = None
        if mode in ("pair", "src"):
            src = kit.make(AxiStreamSource)
            set_limit(src, case["slimit"])
            drive_pause(src, case["spause"])
        else:
            ns = NSource(sim, kit.v, kit.r, kit.pl, delays=case["delays"], junk=1) if kit.v is not None else FreeSource(sim, kit, [pack(cfg, b) for b in beats])
            for b in beats:
                ns.send(pack(cfg, b))
        if mode in ("pair", "snk"):
            snk = kit.make(AxiStreamSink)
            if sig["tready"]:
                if case["taker"] != "late":
                    set_limit(snk, case["klimit"])
                drive_pause(snk, case["kpause"])
        else:
            nk = NSink(sim, kit.v, kit.r, kit.pl, pattern=case["pattern"], mode=case["smode"])
        mon = kit.make(AxiStreamMonitor)

        async def sender():
            gaps, how = Cyc(case["gaps"]), Cyc(case["how"])
            for i, f in enumerate(frames):
                for _ in range(gaps.next()):
                    await edge
                kw = {}
                if f["type"] != "raw":
                    if i % 2:
                        kw["tx_complete"] = lambda fr, i=i: done.append((i, sim.now, fr))
                    else:
                        kw["tx_complete"] = Event()
                        cocotb.start_soon(waiter(i, kw["tx_complete"]))
                obj = build(cfg, f, **kw)
                h = how.next()
                if h in ("send", "write"):
                    await getattr(src, h)(obj)
                else:
                    while True:
                        try:
                            getattr(src, "send_nowait" if h == "nowait" else h)(obj)
                            break
                        except QueueFull:
                            await edge
                # the source works on its own copy
                if f["type"] == "raw":
                    for j in range(len(obj)):
                        obj[j] ^= 1
                    obj.append(1)
                else:
                    for j in range(len(obj.tdata)):
                        obj.tdata[j] ^= 1

        async def waiter(i, ev):
            await ev.wait()
            done.append((i, sim.now, ev.data))

        async def taker(obj, out, name):
            gaps, counts = Cyc(case["tgap"]), Cyc(case["counts"])
            how = case["taker"]
            if how == "read":
                total = sum(len(compacted(f)["tdata"]) for f in decode(cfg, [(0, b) for b in beats]))
                acc = rd[name]
                while len(acc) < total or len(kit.mon.log) < len(beats):
                    c = counts.next()
                    # (the last frames may hold nothing but null bytes)
                    x = (await obj.read(c)) if len(acc) < total and (gaps.i % 2 or c == 0) else obj.read_nowait(c)
                    require(c < 0 or len(x) <= c, "read(%d) returned %d bytes", c, len(x))
                    acc.extend(x)
                    for _ in range(max(gaps.next(), 1)):
                        await edge
                return
            while len(out) < expect_frames:
                if how == "poll":
                    if obj.empty():
                        await edge
                        continue
                    out.append(obj.recv_nowait(compact=case["compact"]))
                elif how == "wait":
                    await obj.wait()
                    require(not obj.empty() and obj.count() > 0, "wait() returned with an empty queue")
                    out.append(await obj.recv(compact=case["compact"]))
                else:
                    out.append(await obj.recv(case["compact"]))
                for _ in range(gaps.next()):
                    await edge

        async def idle_watch():
            fall = FallingEdge(sim.dut.clk)
            objs = [mon] + ([snk] if snk is not None else [])
            while True:
                await fall
                if sig["tlast"] and kit.mon.log and not kit.mon.log[-1][1]["tlast"]:
                    for o in objs:
                        require(not o.idle(), "receiver idle in the middle of a frame")
                if src is not None and kit.v.v:
                    require(not src.idle(), "source idle with tvalid high")

        watch = cocotb.start_soon(idle_watch())
        tasks = []
        if src is not None:
            tasks.append(cocotb.start_soon(sender()))
        if snk is not None:
            tasks.append(cocotb.start_soon(taker(snk, got, "got")))
        tasks.append(cocotb.start_soon(taker(mon, seen, "seen")))
        for t in tasks:
            await t
        if src is not None:
            await src.wait()
            require(src.idle() and src.count() == 0 and src.empty(), "source not idle after wait()")
            require(src.queue_occupancy_bytes == 0 and src.queue_occupancy_frames == 0, "source occupancy %d bytes, %d frames when idle",
                    src.queue_occupancy_bytes, src.queue_occupancy_frames)
        while len(kit.mon.log) < len(beats):
            await edge
        require(not watch.done(), "idle watch ended")
        watch.kill()
        if endless:
            return
        for _ in range(12):
            await edge
        await Timer(1, "ns")
        for o in [mon] + ([snk] if snk is not None else []):
            if case["taker"] != "read":
                require(o.empty(), "more frames were received than sent")
                require(o.queue_occupancy_bytes == 0 and o.queue_occupancy_frames == 0, "occupancy not zero with an empty queue")
            require(o.idle(), "receiver not idle after the last frame")
        require(not kit.v.v, "tvalid high with nothing to send")

    sim.run(main, 20000)

    wire = [(edge_time(c), d) for c, d in kit.mon.log]
    if endless:
        wire = wire[:len(beats)]
    require(len(wire) == len(beats), "%d beats on the wire, expected %d", len(wire), len(beats))
    for k, ((t, w), b) in enumerate(zip(wire, beats)):
        p = pack(cfg, b)
        for f in w:
            require(w[f] == p[f], "beat %d: %s is %#x, expected %#x", k, f, w[f] if w[f] is not None else -1, p[f])
    want = decode(cfg, [(t, b) for (t, _), b in zip(wire, beats)])
    if case["taker"] == "read":
        flat = [x for f in want for x in compacted(f)["tdata"]]
        for name in (["got"] if mode != "src" else []) + ["seen"]:
            if endless:
                rd[name] = rd[name][:len(flat)]
            require(rd[name] == flat, "read() returned %s, expected %s", rd[name], flat)
        labels.add("read()")
    else:
        for name, lst in ([("sink", got)] if mode != "src" else []) + [("monitor", seen)]:
            require(len(lst) == len(want), "%s reported %d frames, expected %d", name, len(lst), len(want))
            for i, (g, w) in enumerate(zip(lst, want)):
                check_frame(g, w, case["compact"], "%s, frame %d" % (name, i), cfg)
    if mode != "snk":
        ids = sorted(i for i, _, _ in done)
        require(ids == [i for i, f in enumerate(frames) if f["type"] != "raw"], "completion reported for frames %s", ids)
        pos = 0
        ends = {}
        for i, f in enumerate(frames):
            nb = -(-f["n"] // cfg["L"])
            ends[i] = (pos, pos + nb)
            pos += nb
        for i, t, fr in done:
            require(list(fr.tdata) == symbols(cfg, frames[i]["key"], frames[i]["n"]), "completion of frame %d reports %r", i, fr)
            a, b = ends[i]
            require(fr.sim_time_start is not None and fr.sim_time_end is not None and fr.sim_time_start <= fr.sim_time_end <= t,
                    "frame %d: sim times %s..%s, completed at %s", i, fr.sim_time_start, fr.sim_time_end, t)
            if b > a:
                first, last = (edge_time(kit.mon.offers[x] - 1) for x in (a, b - 1))
                require(t == last, "frame %d reported complete at %d, its last word was put on the bus at %d", i, t, last)
                require(fr.sim_time_end == last, "frame %d: end time %d, its last word was put on the bus at %d", i, fr.sim_time_end, last)
                require(fr.sim_time_start <= first and (case["spause"] or fr.sim_time_start == first), "frame %d: start time %d, its first word was put on the bus at %d",
                        i, fr.sim_time_start, first)
                require(not a or fr.sim_time_start >= wire[a - 1][0], "frame %d: start time %d, the frame before it ended at %d", i, fr.sim_time_start, wire[a - 1][0])
    if any(0 in b["k"] for b in beats[:-1]):
        labels.add("null bytes inside")
    if kit.mon.n_stall:
        labels.add("backpressure")
    if len(beats) > expect_frames:
        labels.add("several beats per frame")
    for s in ("tready", "tlast", "tkeep"):
        if not sig[s]:
            labels.add("no " + s)
    if endless:
        labels.add("no tvalid")
    if cfg["bs"] != 8:
        labels.add("symbols of %s bits" % ("less than 8" if cfg["bs"] < 8 else "more than 8"))
    if any(f["n"] == 0 for f in frames):
        labels.add("empty frame")
    if case["spause"] and mode != "snk" or case["kpause"] and mode != "src":
        labels.add("pause")
    return len(beats) > 1 and bool(labels & {"backpressure", "pause", "several beats per frame", "null bytes inside"}), labels


@st.composite
def novalid_case(draw):
    cfg = draw(axis_cfg())
    cfg["sig"]["tvalid"] = 0
    return {"cfg": cfg, "frames": draw(st.lists(frame_spec(cfg, empty=False, maxbeats=4).filter(lambda f: f["n"]), min_size=1, max_size=5)),
            "pattern": draw(gen.pattern), "spause": draw(st.one_of(st.just([]), gen.pattern)), "wait": draw(st.integers(0, 6))}


def run_novalid(case):
    """A source without tvalid puts the next word on the bus after every transfer."""
    sim = Sim()
    cfg = case["cfg"]
    kit = AxisKit(sim, cfg, stable=False)
    frames = case["frames"]
    want = [pack(cfg, b) for f in frames for b in encode(cfg, f)]
    done, log = [], []
    if kit.r is not None:
        kit.r.put(0)

    async def main(sim):
        edge = RisingEdge(sim.dut.clk)
        src = kit.make(AxiStreamSource)
        drive_pause(src, case["spause"])
        if kit.r is not None:
            pat = Cyc(case["pattern"])
            sim.on_clk(lambda: kit.r.nb(pat.next()))
        for _ in range(case["wait"]):
            await edge
        for i, f in enumerate(frames):
            src.send_nowait(build(cfg, f) if f["type"] == "raw" else build(cfg, f, tx_complete=lambda fr, i=i: done.append(i)))
        for _ in range(40 * len(want) + 240):
            if src.idle():
                break
            await edge
        require(src.idle() and src.empty(), "source still busy")
        await src.wait()
        for _ in range(12):
            await edge
        log.extend(x for _, x in kit.mon.log)

    sim.run(main, 20000)
    names = [n for n in kit.pl]
    vals = [tuple(x[n] for n in names) for x in log]
    w = [tuple(x[n] for n in names) for x in want]
    require(done == [i for i, f in enumerate(frames) if f["type"] != "raw"], "completion reported for frames %s", done)
    if case["spause"]:
        it = iter(vals)
        k = [n for n in range(len(names)) if names[n] != "tlast"]       # low while paused
        for i, x in enumerate(w):
            require(any(all(x[n] == y[n] for n in k) for y in it), "word %d never transferred", i)
    else:
        require(any(vals[i:i + len(w)] == w for i in range(len(vals))), "words on the bus: %s, expected %s", vals[:30], w[:30])
    return len(want) > 1, {"ready" if kit.r is not None else "no ready"} | ({"pause"} if case["spause"] else set())


class FreeSource:
    """Source without tvalid: a new beat every cycle in which tready is high."""

    def __init__(self, sim, kit, beats):
        self.kit, self.q = kit, list(beats)
        self._drive()
        sim.on_clk(self._clk)

    def send(self, item):
        pass

    def _drive(self):
        b = self.q[0]
        for f, n in self.kit.pl.items():
            if n.val is None:
                n.put(b[f])
            else:
                n.nb(b[f])

    def _clk(self):
        if self.kit.r.v:
            if len(self.q) > 1:
                self.q.pop(0)
            self._drive()


# ------------------------------------------------------------------ X03

@st.composite
def queue_case(draw):
    cfg = draw(axis_cfg(ready=1, last=1))
    lim = st.sampled_from([-1, 0, 1, 2, 3, 7])
    return {"cfg": cfg, "sl": [draw(lim), draw(st.sampled_from([-1, 0, 1, 8, 20, 67]))], "kl": [draw(lim), draw(st.sampled_from([-1, 0, 1, 8, 20, 67]))],
            "sizes": draw(st.lists(st.sampled_from([1, 1, 2, 3, 5, 9, 17, 33, 80]), min_size=1, max_size=5)), "acts": draw(qhist.acts),
            "keep": draw(st.one_of(st.just([2]), st.lists(st.integers(0, 2), min_size=1, max_size=4))), "rcount": draw(st.sampled_from([-1, 0, 1, 3]))}


class AxisAdapter:
    strict = False
    preload = True
    reads = True

    def __init__(self, sim, case):
        self.sim, self.case, self.cfg = sim, case, case["cfg"]
        self.kit = AxisKit(sim, self.cfg)
        self.done = []
        self.null = {}

    def make(self, sim):
        k = self.kit
        return k.make(AxiStreamSource), k.make(AxiStreamSink), k.v, k.r, k.mon

    def limits(self, src, snk):
        src.queue_occupancy_limit_frames, src.queue_occupancy_limit_bytes = self.case["sl"]
        snk.queue_occupancy_limit_frames, snk.queue_occupancy_limit_bytes = self.case["kl"]

    @staticmethod
    def _full(lim, n, nb):
        return 0 < lim[0] < n or 0 < lim[1] < nb

    def src_full(self, n, nb):
        return self._full(self.case["sl"], n, nb)

    def snk_full(self, n, nb):
        # symbols are counted as received, including the unused lanes of a last beat
        return self._full(self.case["kl"], n, nb)

    def occupancy(self, obj, n, nb, what):
        require(obj.queue_occupancy_frames == n, "%s reports %d frames, holds %d", what, obj.queue_occupancy_frames, n)
        require(obj.queue_occupancy_bytes == nb, "%s reports %d bytes, holds %d", what, obj.queue_occupancy_bytes, nb)

    def spec(self, i):
        n = self.case["sizes"][i % len(self.case["sizes"])]
        n = max(1, min(n, max(n - 47, 6 * self.cfg["L"])))
        # 0: no data at all, 1: some null bytes, 2: data only
        k = self.case["keep"][i % len(self.case["keep"])]
        if i in self.null:
            k = 0 if self.null[i] else 2
        keep = {0: [0] * n, 1: [(j + i) & 1 for j in range(n)], 2: None}[k if self.cfg["sig"]["tkeep"] else 2]
        return {"n": n, "key": i + 3, "type": "frame", "tkeep": keep, "tid": i & 1, "tdest": None, "tuser": None}

    def new(self, i, null=None):
        if null is not None:
            self.null[i] = null
        f = self.spec(i)
        obj = build(self.cfg, f, tx_complete=lambda fr: self.done.append((i, len(self.kit.mon.log))))
        return obj, [pack(self.cfg, b) for b in encode(self.cfg, f)], f["n"]

    def rsize(self, i):
        return -(-self.spec(i)["n"] // self.cfg["L"]) * self.cfg["L"]

    def after_send(self, obj):
        pass

    def got(self, fr):
        return [list(fr.tdata), fr.tid]

    def want(self, i):
        f = decode(self.cfg, [(0, b) for b in encode(self.cfg, self.spec(i))])[0]
        c = compacted(f)
        return [c["tdata"], c["tid"]]

    def data(self, i):
        return self.want(i)[0]


def run_queue(case):
    sim = Sim()
    labels = set()
    ad = AxisAdapter(sim, case)

    async def main(sim):
        await qhist.history(sim, ad, case["acts"], labels)

    sim.run(main, 20000)
    return bool(labels), labels


ASSUME = ["Python GPI in pbt/sim.py instead of an HDL simulator"]

CHECKS = [
    Check("X01", "1-6 frames (empty, partial last beat, null bytes, scalar/list/absent sidebands, 1-64 bit symbols) sent from a library "
          "source to a library sink and monitor over a bus with random optional signals, with pauses, limits and gaps; expected frames from an "
          "independent encoder/decoder; non-trivial: backpressure, pause, null bytes or several beats per frame",
          [Part("pair", lambda: move_case(["pair"]), run_move, 2000, 80000)], ASSUME),
    Check("X02", "frames of a library source decoded from the wire by an independent receiver, and arbitrary beats (random tkeep, tlast, "
          "sidebands) driven by an independent source into a library sink and monitor; non-trivial: backpressure, pause, null bytes or several beats per frame",
          [Part("source", lambda: move_case(["src"]), run_move, 1500, 60000), Part("sink", lambda: move_case(["snk"]), run_move, 1450, 58000),
           Part("no valid", novalid_case, run_novalid, 150, 6000)], ASSUME),
    Check("X03", "histories of 2-30 queue actions (send, send_nowait, recv, pause, clear, wait) at random times on an AXI stream source/sink "
          "pair with random frame and byte limits, compared with a counting model; non-trivial: a limit, a pause or a clear took effect",
          [Part("queue", queue_case, run_queue, 1600, 60000)], ASSUME),
]
