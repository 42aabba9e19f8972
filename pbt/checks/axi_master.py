"""A01..A04: the AXI master against an adversarial AXI subordinate."""

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, require
from ..bfm import (FIXED, INCR, WRAP, AxiCfg, AxiSlaveBfm, RefMem, Wires, beat_addresses, beat_lanes, gen_bytes, wide)
from .. import gen

import cocotb
from cocotb.triggers import Event, RisingEdge
from cocotbext.axi import (AxiBurstSize, AxiBurstType, AxiBus, AxiCacheBit, AxiLockType, AxiMaster, AxiMasterRead, AxiMasterWrite, AxiProt,
                           AxiReadBus, AxiResp, AxiWriteBus, constants)


# ------------------------------------------------------------------ executing a case

class Run:
    pass


# encodings of AXI 4, by name
CACHE = {
    "ar": {"DEVICE_NON_BUFFERABLE": 0, "DEVICE_BUFFERABLE": 1, "NORMAL_NON_CACHEABLE_NON_BUFFERABLE": 2, "NORMAL_NON_CACHEABLE_BUFFERABLE": 3,
           "WRITE_THROUGH_NO_ALLOC": 10, "WRITE_THROUGH_READ_ALLOC": 14, "WRITE_THROUGH_WRITE_ALLOC": 10, "WRITE_THROUGH_READ_AND_WRITE_ALLOC": 14,
           "WRITE_BACK_NO_ALLOC": 11, "WRITE_BACK_READ_ALLOC": 15, "WRITE_BACK_WRITE_ALLOC": 11, "WRITE_BACK_READ_AND_WRITE_ALLOC": 15},
    "aw": {"DEVICE_NON_BUFFERABLE": 0, "DEVICE_BUFFERABLE": 1, "NORMAL_NON_CACHEABLE_NON_BUFFERABLE": 2, "NORMAL_NON_CACHEABLE_BUFFERABLE": 3,
           "WRITE_THROUGH_NO_ALLOC": 6, "WRITE_THROUGH_READ_ALLOC": 6, "WRITE_THROUGH_WRITE_ALLOC": 14, "WRITE_THROUGH_READ_AND_WRITE_ALLOC": 14,
           "WRITE_BACK_NO_ALLOC": 7, "WRITE_BACK_READ_ALLOC": 7, "WRITE_BACK_WRITE_ALLOC": 15, "WRITE_BACK_READ_AND_WRITE_ALLOC": 15}}


def bits(cls, names, v):
    r = cls(0)
    for i, n in enumerate(names):
        if v >> i & 1:
            r |= getattr(cls, n)
    return r


def by_name(p, kw, key):
    """The sideband values given by the names the library has for them."""
    kw = dict(kw)
    if "lock" in kw:
        kw["lock"] = AxiLockType.EXCLUSIVE if kw["lock"] else AxiLockType.NORMAL
    if "prot" in kw:
        kw["prot"] = bits(AxiProt, ("PRIVILEGED", "NONSECURE", "INSTRUCTION"), kw["prot"])
    if "cache" in kw:
        names = sorted(n for n, v in CACHE[p].items() if v == kw["cache"])
        if names and key & 1:
            kw["cache"] = getattr(constants, p.upper() + "CACHE_" + names[(key >> 1) % len(names)])
        else:
            kw["cache"] = bits(AxiCacheBit, ("B", "M", "RA", "WA"), kw["cache"])
    return kw


USER_SEQ = [list, tuple, list, iter]      # wuser may be any iterable


def op_kwargs(cfg, op):
    kw = dict(gen.sideband(cfg, op))
    if op["key"] & 1:
        kw = by_name("aw" if op["k"] == "w" else "ar", kw, op["key"] >> 1)
    if op["b"] != INCR:
        kw["burst"] = [AxiBurstType.FIXED, AxiBurstType.INCR, AxiBurstType.WRAP][op["b"]]
    if op["s"] is not None:
        kw["size"] = getattr(AxiBurstSize, "SIZE_%d" % (1 << op["s"])) if op["key"] & 1 else op["s"]
    if op["id"] is not None:
        kw["awid" if op["k"] == "w" else "arid"] = op["id"]
    if op["k"] == "w":
        wu = op.get("wu", 0)
        if "wuser" in cfg["absent"]:
            if wu is None:
                kw["wuser"] = None
        elif wu != 0:
            kw["wuser"] = None if wu is None else (USER_SEQ[op["key"] % 4](wide(x, cfg["uw"]) for x in wu) if isinstance(wu, list) else wide(wu, cfg["uw"]))
    return kw


def run_master(case, max_cycles=60000):
    cfg = AxiCfg(case["cfg"])
    sim = Sim()
    chans = cfg.signals()
    wires = Wires(sim, "axi", chans)
    mem = RefMem(case.get("salt", 0))
    slave = AxiSlaveBfm(sim, wires, cfg, mem, case["t"])
    res = Run()
    res.results = [None] * len(case["ops"])
    res.done_order = []
    res.slave, res.mem, res.cfg, res.wires, res.sim = slave, mem, cfg, wires, sim

    async def main(sim):
        dut = sim.dut
        kw = {}
        if case.get("mbl") is not None:
            kw["max_burst_len"] = case["mbl"]
        if case.get("split"):
            mw = AxiMasterWrite(AxiWriteBus.from_prefix(dut, "axi"), dut.clk, **kw)
            mr = AxiMasterRead(AxiReadBus.from_prefix(dut, "axi"), dut.clk, **kw)
        else:
            mw = mr = AxiMaster(AxiBus.from_prefix(dut, "axi"), dut.clk, **kw)
        edge = RisingEdge(dut.clk)
        pending = []

        async def watch(i, ev):
            await ev.wait()
            res.results[i] = ev.data
            res.done_order.append(i)

        async def call(i, op):
            if op["k"] == "w":
                r = await mw.write(op["a"], op["data"], **op_kwargs(case["cfg"], op))
            else:
                r = await mr.read(op["a"], op["n"], **op_kwargs(case["cfg"], op))
            res.results[i] = r
            res.done_order.append(i)

        for i, o in enumerate(case["ops"]):
            op = dict(o)
            if op["k"] == "w":
                op["data"] = gen_bytes(op["key"], op["n"])
                if op["key"] & 1:
                    op["data"] = bytearray(op["data"])
            for _ in range(op.get("gap", 0)):
                await edge
            m = op.get("m", "call")
            if m == "call":
                await call(i, op)
            elif m == "task":
                pending.append(cocotb.start_soon(call(i, op)))
                await edge
            else:
                kw = op_kwargs(case["cfg"], op)
                own = None
                if m == "ev":
                    own = kw["event"] = Event()
                if op["k"] == "w":
                    ev = mw.init_write(op["a"], op["data"], **kw)
                else:
                    ev = mr.init_read(op["a"], op["n"], **kw)
                if own is not None:
                    require(ev is own, "init_* did not return the caller's event")
                pending.append(cocotb.start_soon(watch(i, ev)))
            if op["k"] == "w" and isinstance(op["data"], bytearray):
                for j in range(len(op["data"])):      # the caller may reuse its buffer
                    op["data"][j] ^= 0x5a
            if m not in ("call", "task") and isinstance(kw.get("wuser"), list):
                kw["wuser"][:] = [x ^ 1 for x in kw["wuser"]]
        for p in pending:
            await p
        for _ in range(4):
            await edge

    sim.run(main, max_cycles)
    return res


# ------------------------------------------------------------------ oracles

def op_targets(op):
    """Address of every byte of an operation, in order."""
    nb = op["nb"]
    a, n = op["a"], op["n"]
    if op["b"] == FIXED:
        c = nb - a % nb
        return [a + i % c for i in range(n)]
    if op["b"] == WRAP:
        lo = a // n * n
        return [lo + (a - lo + i) % n for i in range(n)]
    return list(range(a, a + n))


def prepare(case):
    mx = (case["cfg"]["lanes"] - 1).bit_length()
    ops = []
    for i, o in enumerate(case["ops"]):
        op = dict(o, i=i)
        op["size"] = mx if o["s"] is None else o["s"]
        op["nb"] = 1 << op["size"]
        if op["k"] == "w":
            op["data"] = gen_bytes(op["key"], op["n"])
        ops.append(op)
    return ops


def assign_bursts(ops, bursts, kind, cfg):
    """Split the sequence of bursts on the wire into operations (issue order)."""
    out = {}
    q = list(bursts)
    addr_f = "awaddr" if kind == "w" else "araddr"
    pre = "aw" if kind == "w" else "ar"

    def nbytes(b):
        h = b[pre]
        tot = 0
        for k, a in enumerate(beat_addresses(h[addr_f], h[pre + "size"], h[pre + "len"] + 1, h[pre + "burst"])):
            lo, hi = beat_lanes(a, h[pre + "size"], cfg.lanes)
            tot += hi - lo
        return tot

    def strobed(b):
        return sum(bin(w.get("wstrb", 1)).count("1") for w in b["beats"])

    if kind == "w" and any(op["n"] == 0 for op in ops):
        q = [b for b in q if strobed(b)]
    for op in ops:
        need = op["n"]
        mine = []
        while need > 0:
            require(q, "operation %d: %d bytes were never put on the bus", op["i"], need)
            b = q.pop(0)
            mine.append(b)
            need -= nbytes(b)
        out[op["i"]] = mine
    require(not q, "%d bursts on the bus that belong to no operation: %s", len(q), q and q[0][pre])
    return out


def check_write_payload(ops, assigned, cfg):
    """Data and strobes of every operation, byte by byte, in bus order."""
    for op in ops:
        got = []
        for b in assigned[op["i"]]:
            h = b["aw"]
            for a, w in zip(beat_addresses(h["awaddr"], h["awsize"], h["awlen"] + 1, h["awburst"]), b["beats"]):
                base = a // cfg.lanes * cfg.lanes
                strb = w.get("wstrb")
                if strb is None:
                    lo, hi = beat_lanes(a, h["awsize"], cfg.lanes)
                    strb = ((1 << hi) - 1) & ~((1 << lo) - 1)
                for j in range(cfg.lanes):
                    if strb >> j & 1:
                        got.append((base + j, w["wdata"] >> 8 * j & 0xff))
        want = list(zip(op_targets(op), op["data"]))
        require(got == want, "operation %d: bytes written on the bus differ from the request\n got  %s\n want %s",
                op["i"], first_diff(got, want), first_diff(want, got))


def first_diff(a, b):
    for i, x in enumerate(a):
        if i >= len(b) or b[i] != x:
            return "[%d] %s" % (i, [(hex(p), hex(v)) for p, v in a[i:i + 4]])
    return "(%d entries)" % len(a)


def check_legality(case, ops, assigned, cfg, kind):
    p = "aw" if kind == "w" else "ar"
    mbl = 256 if case.get("mbl") is None else max(1, min(256, case["mbl"]))
    for op in ops:
        bursts = assigned[op["i"]]
        if not bursts:
            continue
        ids = {b[p][p + "id"] for b in bursts}
        require(len(ids) == 1, "operation %d uses several IDs: %s", op["i"], ids)
        if op["id"] is not None:
            require(ids == {op["id"]}, "operation %d: ID %s on the bus, %d requested", op["i"], ids, op["id"])
        want_sb = dict(gen.DEFAULT_SB)
        want_sb.update(gen.sideband(case["cfg"], op))
        beatno = 0
        for bi, b in enumerate(bursts):
            h = b[p]
            n = h[p + "len"] + 1
            require(h[p + "burst"] == op["b"], "operation %d: burst type %d, requested %d", op["i"], h[p + "burst"], op["b"])
            require(h[p + "size"] == op["size"], "operation %d: size %d, requested %d", op["i"], h[p + "size"], op["size"])
            require(n <= mbl, "operation %d: burst of %d transfers, limit %d", op["i"], n, mbl)
            if bi == 0:
                require(h[p + "addr"] == op["a"], "operation %d starts at %#x, requested %#x", op["i"], h[p + "addr"], op["a"])
            ad = h[p + "addr"]
            if op["b"] == INCR:
                al = ad // op["nb"] * op["nb"]
                require(al // 4096 == (al + n * op["nb"] - 1) // 4096,
                        "operation %d: burst at %#x (%d x %d bytes) crosses a 4 KB boundary", op["i"], ad, n, op["nb"])
            elif op["b"] == FIXED:
                require(n <= 16, "operation %d: FIXED burst of %d transfers", op["i"], n)
            else:
                require(n in (2, 4, 8, 16) and ad % op["nb"] == 0, "operation %d: illegal WRAP burst of %d at %#x", op["i"], n, ad)
            for name, v in want_sb.items():
                if p + name in h:
                    require(h[p + name] == v, "operation %d: %s%s is %s, expected %s", op["i"], p, name, h[p + name], v)
            if kind == "w":
                for w in b["beats"]:
                    if "wuser" in w:
                        wu = op.get("wu", 0)
                        if wu is None:
                            e = 0
                        elif isinstance(wu, list):
                            e = wide(wu[beatno], cfg.uw) if beatno < len(wu) else 0
                        else:
                            e = wide(wu, cfg.uw)
                        require(w["wuser"] == e, "operation %d beat %d: wuser %s, expected %s", op["i"], beatno, w["wuser"], e)
                    beatno += 1


def check_write_result(op, r, bursts, cfg):
    require(r is not None, "write %d returned nothing", op["i"])
    require(r.address == op["a"] and r.length == op["n"], "write %d: response is for %s+%s", op["i"], r.address, r.length)
    resps = [b["resp"] if "bresp" not in cfg.absent else 0 for b in bursts]
    bad = [x for x in resps if x != 0]
    require(int(r.resp) in bad if bad else int(r.resp) == 0, "write %d: reported %r, the bursts answered %s", op["i"], r.resp, resps)
    if "buser" in cfg.absent:
        require(r.user is None, "write %d: user %r without buser", op["i"], r.user)
    else:
        require(r.user is not None and list(map(int, r.user)) == [b["user"] for b in bursts],
                "write %d: user %s, the bursts returned %s", op["i"], r.user, [b["user"] for b in bursts])


def check_read_result(op, r, bursts, cfg, mem0):
    require(r is not None, "read %d returned nothing", op["i"])
    require(r.address == op["a"], "read %d: response is for %s", op["i"], r.address)
    want = bytes(mem0.init(a) for a in op_targets(op))
    require(bytes(r.data) == want, "read %d at %#x: data %s.., expected %s..", op["i"], op["a"], bytes(r.data).hex()[:64], want.hex()[:64])
    require(bytes(r) == bytes(r.data), "read %d: bytes(response) differs from its data", op["i"])
    if bursts is None:
        return
    beats = [x for b in bursts for x in b["beats"]]
    resps = [x[1] if "rresp" not in cfg.absent else 0 for x in beats]
    bad = [x for x in resps if x]
    require(int(r.resp) in bad if bad else int(r.resp) == 0, "read %d: reported %r, the transfers answered %s", op["i"], r.resp, resps)
    if "ruser" in cfg.absent:
        require(r.user is None, "read %d: user %r without ruser", op["i"], r.user)
    else:
        require(r.user is not None and list(map(int, r.user)) == [x[2] for x in beats],
                "read %d: user %s, the transfers returned %s", op["i"], r.user, [x[2] for x in beats])


def labels_of(case, ops, assigned):
    lab = set()
    for op in ops:
        b = assigned.get(op["i"]) or ()
        lab.add({FIXED: "FIXED", INCR: "INCR", WRAP: "WRAP"}[op["b"]])
        if len(b) > 1:
            lab.add("several bursts")
        if op["a"] % op["nb"]:
            lab.add("unaligned start")
        if op["nb"] < case["cfg"]["lanes"]:
            lab.add("narrow")
        if op["b"] == INCR and op["n"] and op["a"] // 4096 != (op["a"] + op["n"] - 1) // 4096:
            lab.add("crosses 4 KB")
        if op["n"] == 0:
            lab.add("zero length")
        if op["a"] + op["n"] == 1 << case["cfg"]["aw"]:
            lab.add("ends at top of address space")
    return lab


def verify(case, res, kinds, legality=True):
    ops = prepare(case)
    cfg = res.cfg
    labels = set()
    wr = [op for op in ops if op["k"] == "w"]
    rd = [op for op in ops if op["k"] == "r"]
    if wr:
        asg = assign_bursts(wr, res.slave.writes, "w", cfg)
        check_write_payload(wr, asg, cfg)
        model = {}
        for op in wr:
            for a, v in zip(op_targets(op), op["data"]):
                model[a] = v
        require(res.mem.d == model, "memory differs from the model: %s",
                [(hex(a), res.mem.d.get(a), model.get(a)) for a in sorted(set(res.mem.d) | set(model))
                 if res.mem.d.get(a) != model.get(a)][:6])
        if legality:
            check_legality(case, wr, asg, cfg, "w")
        for op in wr:
            if op["n"]:
                check_write_result(op, res.results[op["i"]], asg[op["i"]], cfg)
            else:
                require(res.results[op["i"]].length == 0, "zero-length write: %r", res.results[op["i"]])
        labels |= labels_of(case, wr, asg)
    else:
        require(not res.slave.writes, "writes on the bus without a request")
    if rd:
        asg = None
        if all(op["n"] for op in rd):
            asg = assign_bursts(rd, res.slave.reads, "r", cfg)
            if legality:
                check_legality(case, rd, asg, cfg, "r")
        for op in rd:
            check_read_result(op, res.results[op["i"]], asg[op["i"]] if asg and op["n"] else None, cfg, res.mem)
        labels |= labels_of(case, rd, asg or {})
    else:
        require(not res.slave.reads, "reads on the bus without a request")
    for k, q in (("B", res.slave.b.q), ("R", res.slave.r.q)):
        require(not q, "%s responses never taken", k)
    require(not res.slave.pend_b and not res.slave.pend_r and not res.slave.wq and not res.slave.awq,
            "bursts left unanswered after every operation completed")
    return labels


# ------------------------------------------------------------------ strategies

MBL = st.one_of(st.none(), st.integers(1, 20), st.sampled_from([1, 2, 3, 4, 7, 8, 16, 17, 64, 128, 255, 256]))


@st.composite
def single_ops(draw, kind, maxops=3, maxbeats=70, errors=False):
    cfg = draw(gen.axi_cfg())
    mbl = draw(MBL)
    hi = 1 << cfg["aw"]
    full = kind == "w" and "wstrb" in cfg["absent"]
    ops = draw(st.lists(gen.axi_op(cfg, kind, 0, hi, 256 if mbl is None else mbl, full_lanes=full, maxbeats=maxbeats,
                                   bursts=True), min_size=1, max_size=maxops))
    for op in ops:
        op["m"] = draw(st.sampled_from(["call", "call", "init", "ev"]))
    return {"cfg": cfg, "mbl": mbl, "ops": ops, "t": draw(gen.axi_slave_timing(errors=errors)),
            "salt": draw(st.integers(0, 255)), "split": draw(st.booleans())}


@st.composite
def long_op(draw, kind):
    """One long operation: default and maximum burst lengths, several 4 KB pages."""
    lanes = draw(st.sampled_from([1, 2, 4, 8, 64]))
    cfg = draw(gen.axi_cfg(lanes=st.just(lanes), full=True))
    mbl = draw(st.sampled_from([None, None, 256, 255, 128, 64, 100, 33]))
    hi = 1 << cfg["aw"]
    mx = (lanes - 1).bit_length()
    size = draw(st.one_of(st.none(), st.integers(0, mx)))
    nb = 1 << (mx if size is None else size)
    burst = draw(st.sampled_from([INCR, INCR, INCR, FIXED]))
    beats = draw(st.one_of(st.integers(240, 300), st.integers(30, 600))) if burst == INCR else draw(st.integers(10, 80))
    n = min(beats * nb - draw(st.integers(0, nb - 1)), hi - nb)
    if burst == FIXED:
        a = draw(st.integers(0, hi - nb))
        n = min(n, (nb - a % nb) * beats)
    else:
        a = draw(st.one_of(st.integers(0, hi - n), st.integers(0, min(4096, hi - n))))
    op = {"k": kind, "a": a, "n": max(n, 1), "b": burst, "s": size, "key": draw(gen.data_key), "id": None, "sb": None, "m": "call"}
    if kind == "w":
        op["wu"] = draw(st.one_of(st.just(0), st.lists(st.integers(0, 255), min_size=200, max_size=300)))
    t = draw(gen.axi_slave_timing())
    for k in ("awready", "wready", "arready"):
        t[k] = draw(st.sampled_from([[1], [1, 1, 0], [0, 1]]))
    for k in ("bdelay", "rdelay"):
        t[k] = draw(st.sampled_from([[0], [0, 1]]))
    return {"cfg": cfg, "mbl": mbl, "ops": [op], "t": t, "salt": draw(st.integers(0, 255))}


@st.composite
def many_ops(draw):
    """Many short operations, most of them outstanding at the same time."""
    cfg = draw(gen.axi_cfg(lanes=st.sampled_from([1, 2, 4, 8])))
    mbl = draw(st.sampled_from([None, 1, 2]))
    hi = 1 << cfg["aw"]
    full = "wstrb" in cfg["absent"]
    a = dict(maxbeats=3, sidebands=False, zero=False, bursts=False)
    wop = gen.axi_op(cfg, "w", 0, hi // 2, mbl or 256, full_lanes=full, **a)
    rop = gen.axi_op(cfg, "r", hi // 2, hi, mbl or 256, **a)
    ops = draw(st.lists(draw(st.sampled_from([wop, rop, st.one_of(wop, rop)])), min_size=12, max_size=40))
    ids = draw(st.sampled_from([0, 0, 1, 3]))
    m = draw(st.sampled_from(["init", "init", "ev", "task"]))
    for op in ops:
        op["m"] = m
        op["gap"] = draw(st.sampled_from([0] * 12 + [1, 20]))
        op["id"] = None if not ids else draw(st.one_of(st.none(), gen.some_id(cfg["idw"], ids + 1)))
    return {"cfg": cfg, "mbl": mbl, "ops": ops, "t": draw(gen.axi_slave_timing(errors=True)), "salt": draw(st.integers(0, 255))}


@st.composite
def concurrent_ops(draw, maxops=9):
    cfg = draw(gen.axi_cfg(lanes=st.sampled_from([1, 2, 4, 8, 16, 32])))
    mbl = draw(st.one_of(st.integers(1, 6), MBL))
    hi = 1 << cfg["aw"]
    half = hi // 2
    b = 256 if mbl is None else mbl
    full = "wstrb" in cfg["absent"]
    mbs = draw(st.sampled_from([6, 6, 12, 12, 24, 24, 400]))
    if mbs == 400:
        maxops = min(maxops, 3)
    wop = gen.axi_op(cfg, "w", 0, half, b, full_lanes=full, maxbeats=mbs, zero=False)
    rop = gen.axi_op(cfg, "r", half, hi, b, maxbeats=mbs, zero=False)
    which = draw(st.sampled_from(["w", "r", "b", "b"]))
    ops = draw(st.lists({"w": wop, "r": rop, "b": st.one_of(wop, rop)}[which], min_size=2, max_size=maxops))
    for op in ops:
        op["m"] = draw(st.sampled_from(["init", "init", "init", "ev", "task", "call"]))
        op["gap"] = draw(st.sampled_from([0, 0, 0, 0, 1, 3, 10]))
        if draw(st.integers(0, 2)) == 0:
            op["id"] = draw(gen.some_id(cfg["idw"], 3))      # force shared IDs
    t = draw(gen.axi_slave_timing(errors=True))
    return {"cfg": cfg, "mbl": mbl, "ops": ops, "t": t, "salt": draw(st.integers(0, 255))}


# ------------------------------------------------------------------ checks

def run_w(case):
    res = run_master(case)
    lab = verify(case, res, "w", legality=False)
    return bool(lab & {"several bursts", "unaligned start", "narrow", "FIXED", "WRAP"}), lab


def run_rd(case):
    res = run_master(case)
    lab = verify(case, res, "r", legality=False)
    return bool(lab & {"several bursts", "unaligned start", "narrow", "FIXED", "WRAP", "crosses 4 KB"}), lab


def run_legal(case):
    res = run_master(case)
    lab = verify(case, res, "wr")
    if res.wires.mon["aw"].n_stall or res.wires.mon["w"].n_stall or res.wires.mon["ar"].n_stall:
        lab.add("stalled")
    return bool(lab & {"several bursts", "FIXED", "WRAP"}), lab


def run_conc(case):
    res = run_master(case)
    lab = verify(case, res, "wr")
    order = res.done_order
    by = {"w": [i for i in order if case["ops"][i]["k"] == "w"], "r": [i for i in order if case["ops"][i]["k"] == "r"]}
    if any(v != sorted(v) for v in by.values()):
        lab.add("completed out of issue order")
    if any(b["resp"] for b in res.slave.writes) or any(x[1] for b in res.slave.reads for x in b["beats"]):
        lab.add("error or exclusive responses")
    rlog = res.wires.mon["r"].log
    open_ids, inter = None, False
    for _, d in rlog:
        if open_ids is not None and d["rid"] != open_ids:
            inter = True
        open_ids = None if d["rlast"] else d["rid"]
    if inter:
        lab.add("interleaved read data")
    return bool(lab & {"completed out of issue order", "error or exclusive responses", "interleaved read data"}), lab


CHECKS = [
    Check("A01", "1-3 write operations (INCR/FIXED/WRAP, any size/alignment/length, 4 KB and top-of-space biased addresses, "
          "random bus widths, optional signals, burst limits and ready/response timing); non-trivial: an operation that is narrow, "
          "unaligned, FIXED, WRAP or split into several bursts",
          [Part("ops", lambda: single_ops("w"), run_w, 1700, 60000), Part("long", lambda: long_op("w"), run_w, 130, 5000)],
          ["subordinate model and byte memory in pbt/bfm.py", "Python GPI in pbt/sim.py instead of an HDL simulator"]),
    Check("A02", "1-3 read operations (as A01) answered from an address-dependent memory with junk on unaddressed lanes; non-trivial: "
          "an operation that is narrow, unaligned, FIXED, WRAP, crosses 4 KB or is split",
          [Part("ops", lambda: single_ops("r"), run_rd, 1700, 60000), Part("long", lambda: long_op("r"), run_rd, 130, 5000)],
          ["subordinate model and byte memory in pbt/bfm.py", "Python GPI in pbt/sim.py instead of an HDL simulator"]),
    Check("A03", "write and read operations with random sidebands, IDs, sizes and burst limits; every burst on the wire is checked; "
          "non-trivial: an operation that is FIXED, WRAP or split into several bursts",
          [Part("w", lambda: single_ops("w"), run_legal, 700, 30000), Part("r", lambda: single_ops("r"), run_legal, 500, 20000),
           Part("lw", lambda: long_op("w"), run_legal, 80, 3000), Part("lr", lambda: long_op("r"), run_legal, 80, 3000)],
          ["Python GPI in pbt/sim.py instead of an HDL simulator"]),
    Check("A04", "2-9 (or 12-40 short) overlapping read/write operations with shared and automatic IDs; the subordinate reorders responses across IDs, "
          "interleaves read data and injects EXOKAY/SLVERR/DECERR; non-trivial: out-of-order completion, interleaved read data or "
          "a non-OKAY response occurred",
          [Part("conc", concurrent_ops, run_conc, 1150, 48000), Part("many", many_ops, run_conc, 60, 4000)],
          ["subordinate keeps same-ID order, as AXI requires", "Python GPI in pbt/sim.py instead of an HDL simulator"]),
]
