"""A07: handshake rules and independence of channels."""

import itertools

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, require
from ..bfm import INCR, RefMem, gen_bytes, gen_int, beat_addresses, Channel, NSink, NSource
from ..kits import Kit, cfg_for, timing_for
from ..mbfm import ApbMasterBfm, AxiMasterBfm, AxilMasterBfm
from .. import gen

from cocotb.triggers import RisingEdge
from cocotbext.axi import AxiStreamBus, AxiStreamFrame, AxiStreamSink, AxiStreamSource
from cocotbext.axi.stream import define_stream

ASSUME = ["Python GPI in pbt/sim.py instead of an HDL simulator", "latency bound: valid appears within 16 cycles"]
LAT = 16

pause_pattern = st.one_of(st.none(), st.lists(st.integers(0, 1), min_size=1, max_size=7).filter(lambda p: 0 in p),
                          st.lists(st.sampled_from([1, 1, 1, 0]), min_size=1, max_size=9).filter(lambda p: 0 in p))


def set_pauses(chans, pauses):
    n = 0
    for name, ch in chans.items():
        p = pauses.get(name)
        if p:
            ch.set_pause_generator(bool(x) for x in itertools.cycle(p))
            n += 1
    return n


def channels(obj, kind):
    if kind == "apb":
        return {"p": obj}
    return {"aw": obj.write_if.aw_channel, "w": obj.write_if.w_channel, "b": obj.write_if.b_channel,
            "ar": obj.read_if.ar_channel, "r": obj.read_if.r_channel}


@st.composite
def pause_map(draw):
    return {c: draw(pause_pattern) for c in ("aw", "w", "b", "ar", "r", "p")}


# ------------------------------------------------------------------ masters

@st.composite
def master_case(draw):
    kind = draw(st.sampled_from(["axi", "axi", "axil", "apb"]))
    cfg = draw(cfg_for(kind))
    L = cfg["lanes"]
    block = draw(st.booleans())
    ops = []
    top = 1 << cfg["aw"]
    slots = min(8, top // (L * 16))
    for i in range(draw(st.integers(1, 4))):
        n = L * draw(st.integers(1, 6)) if kind != "axi" else L * draw(st.one_of(st.integers(1, 6), st.integers(1, 14)))
        ops.append({"k": draw(st.sampled_from("wr")), "a": draw(st.integers(0, slots - 1)) * L * 16, "n": n, "key": draw(gen.data_key),
                    "gap": draw(st.integers(0, 3))})
    return {"cfg": cfg, "ops": ops, "block": block, "t": draw(timing_for(kind)), "pauses": {} if block else draw(pause_map()),
            "mbl": draw(st.sampled_from([256, 1, 2, 3, 4])),
            "open": {c: draw(st.integers(0, 80)) for c in ("aw", "w", "ar", "p")}}


def walk(kit, ops, k):
    """The bursts of one direction, in order, must cover the operations exactly."""
    L = kit.cfg["lanes"]
    todo = [[o["a"], o["n"]] for o in ops if o["k"] == k]
    if kit.kind == "apb":
        got = [(c["paddr"], L) for _, c, _, _ in kit.wires.log if c["pwrite"] == (k == "w")]
    elif kit.kind == "axil":
        p = {"w": "aw", "r": "ar"}[k]
        got = [(d[p + "addr"], L) for _, d in kit.wires.mon[p].log]
    else:
        p = {"w": "aw", "r": "ar"}[k]
        got = [(d[p + "addr"], (d[p + "len"] + 1) << d[p + "size"]) for _, d in kit.wires.mon[p].log]
    for a, n in got:
        require(todo, "more bursts than the operations need: %#x", a)
        require(a == todo[0][0], "burst at %#x, expected %#x", a, todo[0][0])
        todo[0][0] += n
        todo[0][1] -= n
        require(todo[0][1] >= 0, "burst of %d bytes at %#x is too long", n, a)
        if not todo[0][1]:
            todo.pop(0)
    require(not todo, "operations without their bursts: %s", todo)


def run_master(case):
    sim = Sim()
    cfg = case["cfg"]
    kind = cfg["kind"]
    t = dict(case["t"])
    opens = case["open"]
    if case["block"]:
        for c in ("aw", "w", "ar"):
            t[c + "ready"] = [1]
            t[c + "mode"] = 0
        if kind == "apb":
            t["waits"] = [opens["p"]]
            t["idle_ready"] = [0]
    kit = Kit(sim, cfg, t)
    labels = {kind, "blocked" if case["block"] else "paused"}
    issued = {}
    seen = {}
    ctl = {}

    if case["block"] and kind != "apb":
        sinks = {"aw": kit.slave.aw, "w": kit.slave.w, "ar": kit.slave.ar}
        for s in sinks.values():
            s.enable = False

        def control():
            for c, s in sinks.items():
                s.enable = sim.cycle >= opens[c]
        sim.on_clk(control)

    def watch():
        for c, k in (("aw", "w"), ("w", "w"), ("ar", "r")) if kind != "apb" else (("psel", "p"),):
            v = kit.wires.ch[c][0].v if kind != "apb" else kit.wires.n["psel"].v
            if v and c not in seen:
                seen[c] = sim.cycle
            first = issued.get(k)
            if first is not None and c not in seen and case["block"]:
                require(sim.cycle - first <= LAT, "%s valid is not asserted %d cycles after the request, while the receiver is not ready",
                        c, sim.cycle - first)
    sim.on_sample(watch)

    async def main(sim):
        m = kit.master(**({"max_burst_len": case["mbl"]} if kind == "axi" else {}))
        if set_pauses(channels(m, kind), case["pauses"]):
            ctl["paused"] = True
        edge = RisingEdge(sim.dut.clk)
        pend = []
        for op in case["ops"]:
            for _ in range(op["gap"]):
                await edge
            if op["k"] == "w":
                pend.append((op, m.init_write(op["a"], gen_bytes(op["key"], op["n"]))))
            else:
                pend.append((op, m.init_read(op["a"], op["n"])))
            issued.setdefault("p" if kind == "apb" else op["k"], sim.cycle)
        mine = {}
        for op, ev in pend:
            await ev.wait()
            require(int(ev.data.resp) == 0, "%r", ev.data)
            if op["k"] == "w":
                for i, v in enumerate(gen_bytes(op["key"], op["n"])):
                    mine.setdefault(op["a"] + i, []).append(v)
        for op, ev in pend:
            if op["k"] == "r":
                got = bytes(ev.data.data)
                require(len(got) == op["n"], "%d bytes instead of %d", len(got), op["n"])
                for i, v in enumerate(got):
                    a = op["a"] + i
                    require(v == kit.mem.init(a) or v in mine.get(a, ()), "byte %#x is %#x", a, v)
        for a, vs in mine.items():
            require(kit.mem.get(a) == vs[-1], "byte %#x is %#x, expected %#x", a, kit.mem.get(a), vs[-1])
        require(set(kit.mem.changed()) <= set(mine), "bytes outside the writes changed")
        for _ in range(10):
            await edge
        walk(kit, case["ops"], "w")
        walk(kit, case["ops"], "r")
        if case["block"] and kind != "apb" and "w" in issued:
            # data of the first burst does not wait for its address to be accepted
            aw, w = kit.wires.mon["aw"].log, kit.wires.mon["w"].log
            n = aw[0][1].get("awlen", 0) + 1
            start = max(issued["w"], opens["w"])
            if aw[0][0] > start + LAT + n:
                early = sum(1 for c, _ in w if c < aw[0][0])
                require(early >= n, "only %d of %d write data transfers took place in the %d cycles in which just the address was not accepted",
                        early, n, aw[0][0] - start)
                labels.add("address blocked, data open")
            if w[0][0] > max(issued["w"], opens["aw"]) + LAT:
                require(aw[0][0] < w[0][0], "the address was not transferred while just the data was blocked")
                labels.add("data blocked, address open")
    sim.run(main, 40000)
    if kind == "apb":
        stalls = len(kit.wires.log)
    else:
        stalls = sum(c.n_stall for c in kit.wires.mon.values())
    return bool(stalls or ctl.get("paused")), labels


# ------------------------------------------------------------------ slaves

@st.composite
def slave_case(draw):
    kind = draw(st.sampled_from(["axi", "axi", "axil", "apb"]))
    cfg = draw(cfg_for(kind))
    L = cfg["lanes"]
    mx = (L - 1).bit_length()
    block = draw(st.booleans())
    ops = []
    top = 1 << cfg["aw"]
    slots = min(8, top // (L * 16))
    for i in range(draw(st.integers(1, 5))):
        b = {"k": draw(st.sampled_from("wr")), "a": draw(st.integers(0, slots - 1)) * L * 16, "key": draw(gen.data_key),
             "st": [draw(st.one_of(st.none(), st.integers(0, 1 << 16)))], "id": draw(st.integers(0, (1 << cfg.get("idw", 1)) - 1))}
        if kind == "axi":
            b.update(n=draw(st.integers(1, 9)), s=draw(st.integers(0, mx)), b=INCR)
        else:
            b.update(n=1)
        ops.append(b)
    mt = {"awdelay": draw(gen.delays), "wdelay": draw(gen.delays), "ardelay": draw(gen.delays), "aw0": draw(st.sampled_from([0, 0, 9, 30])),
          "w0": draw(st.sampled_from([0, 0, 9, 30])), "bready": draw(gen.pattern), "rready": draw(gen.pattern), "bmode": draw(gen.mode),
          "rmode": draw(gen.mode), "gaps": draw(gen.delays)}
    return {"cfg": cfg, "ops": ops, "block": block, "mt": mt, "pauses": {} if block else draw(pause_map()),
            "open": {c: draw(st.integers(0, 150)) for c in "br"}}


def run_slave(case):
    sim = Sim()
    cfg = case["cfg"]
    kind, L = cfg["kind"], cfg["lanes"]
    kit = Kit(sim, cfg, {}, native_slave=False)
    mt = dict(case["mt"])
    if case["block"]:
        mt.update(bready=[1], rready=[1], bmode=0, rmode=0)
    bfm = {"axi": AxiMasterBfm, "axil": AxilMasterBfm, "apb": ApbMasterBfm}[kind](sim, kit.wires, cfg, mt)
    labels = {kind, "blocked" if case["block"] else "paused"}
    state = {"n": 0}

    if kind != "apb":
        mon = kit.wires.mon
        bv, rv = kit.wires.ch["b"][0], kit.wires.ch["r"][0]
        due = {}

        def early(ch, key=None):
            return [d for c, d in mon[ch].log if c < sim.cycle]

        def watch():
            aw, ar = early("aw"), early("ar")
            wl = [d for d in early("w") if kind == "axil" or d["wlast"]]
            nb, nr = len(early("b")), len(early("r"))
            room = min(len(aw), len(wl))
            if bv.v:
                require(nb < room, "write response %d offered after %d addresses and %d bursts of data (cycle %d)", nb, len(aw), len(wl), sim.cycle)
            beats = [d.get("arlen", 0) + 1 for d in ar]
            if rv.v:
                require(nr < sum(beats), "read data %d offered after requests for %d (cycle %d)", nr, sum(beats), sim.cycle)
            if case["block"]:
                for name, v, n, want in (("write response", bv.v, nb, room), ("read data", rv.v, nr, sum(beats))):
                    if n < want and not v:
                        due[name] = due.get(name, 0) + 1
                        slack = LAT + 12
                        require(due[name] <= slack, "%s is not offered %d cycles after its request was transferred, while the manager is not ready",
                                name, due[name])
                    else:
                        due[name] = 0
        sim.on_sample(watch)
        if case["block"]:
            def control():
                bfm.b.enable = sim.cycle >= case["open"]["b"]
                bfm.r.enable = sim.cycle >= case["open"]["r"]
            bfm.b.enable = bfm.r.enable = False
            sim.on_clk(control)

    async def main(sim):
        ram = kit.ram(size=1 << 16)
        state["n"] = set_pauses(channels(ram, kind), case["pauses"])
        model = RefMem(7)
        edge = RisingEdge(sim.dut.clk)
        area = sorted({(b["a"] % (1 << 16)) // (16 * L) for b in case["ops"]})
        for s in area:
            ram.write(s * 16 * L, model.read(s * 16 * L, min(16 * L, (1 << 16) - s * 16 * L)))
        recs = [bfm.send(i, b) for i, b in enumerate(case["ops"])]
        allowed = {}
        for rec in recs:
            for a, base, strb, data in rec.get("beats", ()):
                for j in range(L):
                    if strb >> j & 1:
                        model.set((base + j) % (1 << 16), data[j])
                        allowed.setdefault(base + j, set()).add(data[j])
        while bfm.outstanding:
            await edge
        for _ in range(12):
            await edge
        for rec in recs:
            if "beats" in rec:
                require(rec["resp"] == 0, "write %d answered %s", rec["i"], rec["resp"])
            else:
                b = rec["b"]
                require(not any(rec["resp"]) and len(rec["data"]) == len(rec["addrs"]), "read %d answered %s", rec["i"], rec["resp"])
                for a, v in zip(rec["addrs"], rec["data"]):
                    nbytes = 1 << b.get("s", (L - 1).bit_length())
                    for x in range(a, a // nbytes * nbytes + nbytes):
                        g = v >> 8 * (x % L) & 0xff
                        require(g == model.init(x % (1 << 16)) or g in allowed.get(x, ()), "read %d: byte %#x is %#x", rec["i"], x, g)
        for s in area:
            a, n = s * 16 * L, min(16 * L, (1 << 16) - s * 16 * L)
            require(bytes(ram.read(a, n)) == model.read(a, n), "memory at %#x is %s, expected %s", a, bytes(ram.read(a, n)).hex(), model.read(a, n).hex())
        if kind == "apb":
            require(len(kit.wires.log) == len(case["ops"]), "number of transfers")
        else:
            nw = sum(b["k"] == "w" for b in case["ops"])
            require(len(mon["b"].log) == nw and len(mon["r"].log) == sum(b["n"] for b in case["ops"] if b["k"] == "r"),
                    "number of responses differs from the requests")
    sim.run(main, 40000)
    stalls = bfm.waits_seen if kind == "apb" else sum(c.n_stall for c in kit.wires.mon.values())
    return bool(stalls or state["n"]), labels


# ------------------------------------------------------------------ streams

@st.composite
def stream_case(draw):
    return {"what": draw(st.sampled_from(["axis_src", "axis_snk", "src", "snk"])), "lanes": draw(st.sampled_from([1, 2, 4, 8])),
            "items": draw(st.lists(st.tuples(st.integers(1, 30), gen.data_key), min_size=1, max_size=8)),
            "gaps": draw(st.lists(st.integers(0, 4), min_size=1, max_size=4)),
            "open": draw(st.sampled_from([0, 0, 40, 70])), "ready": draw(gen.pattern), "mode": draw(gen.mode),
            "pause": draw(pause_pattern), "delays": draw(gen.delays)}


def run_stream(case):
    sim = Sim()
    L = case["lanes"]
    what = case["what"]
    axis = what.startswith("axis")
    if axis:
        names = {"tdata": 8 * L, "tkeep": L, "tlast": 1}
        v, r = sim.net("s_tvalid", 1), sim.net("s_tready", 1)
        pl = {k: sim.net("s_" + k, w) for k, w in names.items()}
    else:
        v, r = sim.net("s_valid", 1), sim.net("s_ready", 1)
        pl = {"data": sim.net("s_data", 8 * L), "tag": sim.net("s_tag", 8)}
        SBus, STrans, SSource, SSink, SMon = define_stream("Pbt", signals=["data", "tag", "valid", "ready"])
    mon = Channel(sim, "s", v, r, pl)
    labels = {what}
    frames = [gen_bytes(k, n) for n, k in case["items"]]

    def words(f):
        return [f[i:i + L] for i in range(0, len(f), L)]
    beats = []
    for i, f in enumerate(frames):
        if axis:
            for w in words(f):
                beats.append({"tdata": int.from_bytes(w, "little"), "tkeep": (1 << len(w)) - 1, "tlast": 0})
            beats[-1]["tlast"] = 1
        else:
            beats.append({"data": int.from_bytes(f[:L], "little"), "tag": len(f)})
    got = []
    issued = []
    if what.endswith("src"):
        sink = NSink(sim, v, r, pl, pattern=case["ready"], mode=case["mode"])
        sink.enable = not case["open"]

        def control():
            sink.enable = sim.cycle >= case["open"]
            if issued and not mon.log and not v.v and not case["pause"]:
                require(sim.cycle - issued[0] <= LAT, "valid is not asserted while the receiver is not ready")
        sim.on_clk(control)
    else:
        src = NSource(sim, v, r, pl, delays=case["delays"], junk=1)

    async def main(sim):
        d = sim.dut
        edge = RisingEdge(d.clk)
        if axis:
            cls = AxiStreamSource if what.endswith("src") else AxiStreamSink
            x = cls(AxiStreamBus.from_prefix(d, "s"), d.clk)
        else:
            cls = SSource if what.endswith("src") else SSink
            x = cls(SBus.from_prefix(d, "s"), d.clk)
        if case["pause"]:
            x.set_pause_generator(bool(p) for p in itertools.cycle(case["pause"]))
        g = itertools.cycle(case["gaps"])
        if what.endswith("src"):
            for i, f in enumerate(frames):
                for _ in range(next(g)):
                    await edge
                x.send_nowait(AxiStreamFrame(f) if axis else STrans(**beats[i]))
                if not issued:
                    issued.append(sim.cycle)
            await x.wait()
        else:
            for b in beats:
                src.send(b)
            for f in frames:
                y = await x.recv()
                got.append(bytes(y) if axis else {"data": int(y.data), "tag": int(y.tag)})
        for _ in range(8):
            await edge
        if not what.endswith("src"):
            require(x.empty(), "the sink received more than was sent")
    sim.run(main, 20000)
    log = [dd for _, dd in mon.log]
    if what == "axis_src":
        for dd in log:
            keep = dd["tkeep"]
            dd["tdata"] &= sum(0xff << 8 * i for i in range(L) if keep >> i & 1)
    require(log == beats, "transfers %s, expected %s", log[:8], beats[:8])
    if not what.endswith("src"):
        require(got == (frames if axis else beats), "received %s, expected %s", got[:4], (frames if axis else beats)[:4])
    return bool(mon.n_stall or case["pause"]), labels


CHECKS = [
    Check("A07", "operations of the AXI/AXI-Lite/APB masters with each ready held back for 0-80 cycles, or random pauses on every channel of the "
          "library; RAMs driven by native managers with responses held back or random pauses; generic and AXI streams held back and paused; "
          "non-trivial: a channel was stalled or a pause generator was active",
          [Part("master", master_case, run_master, 1500, 60000), Part("slave", slave_case, run_slave, 1500, 60000),
           Part("stream", stream_case, run_stream, 1500, 50000)], ASSUME),
]
