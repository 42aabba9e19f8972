"""L01, B01: the AXI-Lite and APB masters against native subordinates."""

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, require
from ..bfm import Cyc, gen_bytes
from ..kits import Kit, cfg_for, timing_for
from .. import gen

import cocotb
from cocotb.triggers import Event, RisingEdge


@st.composite
def op_in(draw, cfg, kind, lo, hi, full=False, zero=True, maxbeats=20, long=False):
    L = cfg["lanes"]
    span = hi - lo
    cap = max(1, min(maxbeats, (span - 1) // L))
    beats = draw(st.integers(min(40, cap), cap) if long else st.one_of(st.integers(1, min(3, cap)), st.integers(1, min(8, cap)), st.integers(1, cap)))
    n = beats * L
    if not full:
        n = max(1, n - draw(st.integers(0, L - 1)))
        if zero and draw(st.integers(0, 24)) == 24:
            n = 0
    where = draw(st.sampled_from(["rand", "rand", "top", "low"]))
    if where == "top":
        a = hi - n - draw(st.sampled_from([0, 0, 1, L]))
    elif where == "low":
        a = lo + draw(st.integers(0, min(span - n, 4 * L)))
    else:
        a = lo + draw(st.integers(0, span - n))
    a = min(max(a, lo), hi - max(n, 1))
    if full:
        a = max(lo, a // L * L)
    return {"k": kind, "a": a, "n": n, "key": draw(gen.data_key), "prot": draw(st.one_of(st.none(), st.integers(0, 7))),
            "m": draw(st.sampled_from(["call", "call", "init", "init", "ev", "task"])),
            "gap": draw(st.sampled_from([0, 0, 0, 1, 3]))}


@st.composite
def case_for(draw, kind, maxops=6, minops=1, **more):
    cfg = draw(cfg_for(kind))
    hi = 1 << cfg["aw"]
    half = hi // 2
    full = "wstrb" in cfg["absent"]
    split = draw(st.booleans()) and kind == "axil"
    if kind == "apb":        # one queue: program order holds across reads and writes
        wop, rop = op_in(cfg, "w", 0, hi, full, **more), op_in(cfg, "r", 0, hi, **more)
        near = max(1, min(hi, 8 * cfg["lanes"]))
        wop2, rop2 = op_in(cfg, "w", 0, near, full, **more), op_in(cfg, "r", 0, near, **more)
        one = st.one_of(wop, rop, wop2, rop2)
    else:
        one = st.one_of(op_in(cfg, "w", 0, half, full, **more), op_in(cfg, "r", half, hi, **more))
    return {"cfg": cfg, "ops": draw(st.lists(one, min_size=minops, max_size=maxops)), "t": draw(timing_for(kind, errors=True)),
            "split": split}


def run_kit(case, max_cycles=30000):
    sim = Sim()
    cfg = case["cfg"]
    kit = Kit(sim, cfg, case["t"])
    results = [None] * len(case["ops"])
    protname = {"axil": ("awprot", "arprot"), "apb": ("pprot", "pprot")}[cfg["kind"]]

    async def main(sim):
        m = kit.master()
        edge = RisingEdge(sim.dut.clk)
        pend = []

        async def watch(i, ev):
            await ev.wait()
            results[i] = ev.data

        async def call(i, op, kw):
            if op["k"] == "w":
                results[i] = await m.write(op["a"], gen_bytes(op["key"], op["n"]), **kw)
            else:
                results[i] = await m.read(op["a"], op["n"], **kw)

        for i, op in enumerate(case["ops"]):
            kw = {}
            if op["prot"] is not None and protname[op["k"] == "r"] not in cfg["absent"]:
                kw["prot"] = op["prot"]
            for _ in range(op["gap"]):
                await edge
            mode = op["m"]
            if mode == "call":
                await call(i, op, kw)
            elif mode == "task":
                pend.append(cocotb.start_soon(call(i, op, kw)))
                await edge
            else:
                if mode == "ev":
                    kw["event"] = Event()
                if op["k"] == "w":
                    buf = bytearray(gen_bytes(op["key"], op["n"]))
                    ev = m.init_write(op["a"], buf, **kw)
                    for j in range(len(buf)):
                        buf[j] ^= 0x5a
                else:
                    ev = m.init_read(op["a"], op["n"], **kw)
                if mode == "ev":
                    require(ev is kw["event"], "init_* did not return the caller's event")
                pend.append(cocotb.start_soon(watch(i, ev)))
        for p in pend:
            await p
        for _ in range(4):
            await edge

    sim.run(main, max_cycles)
    return kit, results


def want_prot(op, cfg, name):
    if name in cfg["absent"]:
        return None
    return 2 if op["prot"] is None else op["prot"]


def walk(case, kit, results, wlog, rlog):
    """Match transfers with operations.  wlog/rlog: lists of (addr, prot, data int, strb or None, resp)."""
    cfg = case["cfg"]
    L = cfg["lanes"]
    labels = set()
    shared = wlog is rlog
    pos = {"w": 0, "r": 0}
    model = {}
    for i, op in enumerate(case["ops"]):
        k = op["k"]
        log = wlog if k == "w" else rlog
        key = "w" if shared else k
        a, n = op["a"], op["n"]
        data = gen_bytes(op["key"], n) if k == "w" else None
        r = results[i]
        require(r is not None, "operation %d returned nothing", i)
        require(r.address == a, "operation %d: response for %#x", i, r.address)
        if n == 0:
            labels.add("zero length")
            # at most one transfer, with no strobes
            if a % L and pos[key] < len(log) and log[pos[key]][0] == a and log[pos[key]][5] == k and \
                    (k == "r" or not log[pos[key]][3]):
                pos[key] += 1
            require((r.length if k == "w" else len(r.data)) == 0, "operation %d: %r", i, r)
            continue
        resps = []
        got_r = bytearray()
        cur = a
        end = a + n
        first = True
        while cur < end:
            require(pos[key] < len(log), "operation %d: transfer at %#x missing", i, cur)
            addr, prot, val, strb, resp, kk = log[pos[key]]
            pos[key] += 1
            require(kk == k, "operation %d: a %s on the bus, expected a %s", i, kk, k)
            base = cur // L * L
            require(addr == (a if first else base), "operation %d: address %#x on the bus, expected %#x", i, addr, a if first else base)
            if prot is not None:
                require(prot == (2 if op["prot"] is None else op["prot"]), "operation %d: prot %d", i, prot)
            lo, hi = cur - base, min(L, end - base)
            if k == "w":
                if strb is None:
                    strb = (1 << L) - 1
                require(strb == ((1 << hi) - 1) & ~((1 << lo) - 1), "operation %d: strobe %#x for lanes [%d,%d)", i, strb, lo, hi)
                got = val.to_bytes(L, "little")[lo:hi]
                want = data[cur - a:cur - a + hi - lo]
                require(got == want, "operation %d: data %s at %#x, expected %s", i, got.hex(), cur, want.hex())
                for j, v in enumerate(want):
                    model[cur + j] = v
            else:
                for j in range(cur, base + hi):
                    got_r.append(model[j] if (j in model and shared) else kit.mem.init(j))
            resps.append(resp)
            cur = base + hi
            first = False
        bad = [x for x in resps if x]
        require(int(r.resp) in bad if bad else int(r.resp) == 0, "operation %d: reported %r, transfers answered %s", i, r.resp, resps)
        if k == "w":
            require(r.length == n, "operation %d: length %s", i, r.length)
        else:
            require(bytes(r.data) == bytes(got_r), "operation %d: read %s, expected %s", i, bytes(r.data).hex(), bytes(got_r).hex())
            require(bytes(r) == bytes(r.data), "bytes(response) differs from data")
        if bad:
            labels.add("error response")
        if len(resps) > 1:
            labels.add("several transfers")
        if a % L or end % L:
            labels.add("partial word")
        if end == 1 << cfg["aw"]:
            labels.add("ends at top of address space")
        labels.add(k)
    for key, log in (("w", wlog), ("r", rlog)):
        if not (shared and key == "r"):
            require(pos[key] == len(log), "%d transfers on the bus that belong to no operation", len(log) - pos[key])
    require(kit.mem.d == model, "memory differs from the model")
    return labels


def run_axil(case):
    kit, results = run_kit(case)
    ab = case["cfg"]["absent"]
    wlog = [(d["awaddr"], d.get("awprot"), w["wdata"], w.get("wstrb"), 0 if "bresp" in ab else resp, "w")
            for d, w, resp in kit.slave.writes]
    rlog = [(d["araddr"], d.get("arprot"), None, None, 0 if "rresp" in ab else resp, "r") for d, _, resp in kit.slave.reads]
    lab = walk(case, kit, results, wlog, rlog)
    return bool(lab & {"several transfers", "partial word", "error response"}), lab


def run_apb(case):
    kit, results = run_kit(case)
    ab = case["cfg"]["absent"]
    log = [(c["paddr"], c.get("pprot"), c.get("pwdata"), c.get("pstrb"), 0 if "pslverr" in ab else 2 * e, "w" if c["pwrite"] else "r")
           for _, c, _, e in kit.wires.log]
    require(len(log) == len(kit.slave.accesses), "accesses and completed transfers disagree")
    lab = walk(case, kit, results, log, log)
    if any(case["t"]["waits"]):
        lab.add("wait states")
    return bool(lab & {"several transfers", "partial word", "error response"}), lab


CHECKS = [
    Check("L01", "1-6 read/write operations of any length and alignment, issued through every API form, against a subordinate that "
          "accepts address and data independently and injects error responses; non-trivial: several transfers, a partial word or an error",
          [Part("axil", lambda: case_for("axil"), run_axil, 2400, 95000),
           Part("long", lambda: case_for("axil", 2, maxbeats=300, long=True), run_axil, 60, 3000),
           Part("many", lambda: case_for("axil", 40, 12, maxbeats=3), run_axil, 60, 3000)],
          ["Python GPI in pbt/sim.py instead of an HDL simulator"]),
    Check("B01", "1-6 read/write operations of any length and alignment against a completer with wait states, junk outside the access "
          "phase and injected pslverr; non-trivial: several transfers, a partial word or an error",
          [Part("apb", lambda: case_for("apb"), run_apb, 2400, 95000),
           Part("long", lambda: case_for("apb", 2, maxbeats=300, long=True), run_apb, 60, 3000),
           Part("many", lambda: case_for("apb", 40, 12, maxbeats=3), run_apb, 60, 3000)],
          ["Python GPI in pbt/sim.py instead of an HDL simulator"]),
]
