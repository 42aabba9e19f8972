"""A05, A06: request validation and operation bookkeeping of the AXI, AXI-Lite and APB masters."""

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, Violation, require
from ..bfm import AxiCfg, gen_bytes
from ..kits import Kit, cfg_for, timing_for
from .. import gen

import cocotb
from cocotb.triggers import Event, RisingEdge, Timer
from cocotbext.axi import AxiBurstType

KINDS = st.sampled_from(["axi", "axi", "axil", "apb"])


# ------------------------------------------------------------------ A05

SB = {"lock": (1, 0), "cache": (0, 3), "prot": (0, 2), "qos": (1, 0), "region": (1, 0), "user": (1, 0)}


def faults(cfg, k):
    """Invalid argument sets applicable to this configuration."""
    kind = cfg["kind"]
    out = ["addr_neg", "addr_top", "addr_far", "overrun", "overrun_far"]
    out += ["data_int"] if k == "w" else ["len_neg"]
    out += ["event"]
    absent = cfg["absent"]
    if kind == "axi":
        p = "aw" if k == "w" else "ar"
        out += ["id_top", "id_far", "size_top", "size_far", "burst", "lock2", "overrun_wrap"]
        out += ["sb_" + s for s in SB if p + s in absent]
        if k == "w" and "wuser" in absent:
            out += ["wuser_int", "wuser_list"]
    elif kind == "axil":
        if ("awprot" if k == "w" else "arprot") in absent:
            out += ["sb_prot"]
    elif "pprot" in absent:
        out += ["sb_prot"]
    return out


def boundaries(cfg, k):
    out = ["last_byte", "last_word", "plain"]
    if cfg["kind"] == "axi":
        p = "aw" if k == "w" else "ar"
        out += ["id_max", "size_max", "size_neg", "id_neg"]
        out += ["sbd_" + s for s in SB if p + s in cfg["absent"]]
        if k == "w" and "wuser" in cfg["absent"]:
            out += ["wuser_none", "wuser_zero"]
    elif ("pprot" if cfg["kind"] == "apb" else "awprot" if k == "w" else "arprot") in cfg["absent"]:
        out += ["sbd_prot"]
    return out


def build(cfg, step):
    """(address, length or data, kwargs, invalid event?) of a step."""
    L, top = cfg["lanes"], 1 << cfg["aw"]
    k, what = step["k"], step["what"]
    a = step["a"] % (top // L) * L
    n = min(L, 1 + step["n"] % L)
    if k == "w" and "wstrb" in cfg["absent"]:
        n = L
    if cfg["kind"] == "axi":
        n = L
    kw, ev = {}, None
    p = "aw" if k == "w" else "ar"
    x = 1 + step["x"]
    data = gen_bytes(step["key"], n)
    if what == "addr_neg":
        a = -x
    elif what == "addr_top":
        a = top
    elif what == "addr_far":
        a = top + x * L
    elif what == "overrun":
        a = top - n + 1
        if n == 1:
            a, n, data = top - 1, 2, b"ab"
    elif what == "overrun_far":
        n = n + x
        a = top - max(1, n - x)
        data = gen_bytes(step["key"], n)
    elif what == "overrun_wrap":
        kw["burst"] = AxiBurstType.WRAP
        n = 2 * L
        a = top - L
        data = gen_bytes(step["key"], n)
    elif what == "data_int":
        data = step["x"]
    elif what == "len_neg":
        n = -x
    elif what == "event":
        ev = [0, 1, "event", (), object(), b"e"][step["x"] % 6]
    elif what == "id_top":
        kw[p + "id"] = 1 << cfg["idw"]
    elif what == "id_far":
        kw[p + "id"] = (1 << cfg["idw"]) + x
    elif what == "size_top":
        kw["size"] = (L - 1).bit_length() + 1
    elif what == "size_far":
        kw["size"] = (L - 1).bit_length() + 1 + x
    elif what == "burst":
        kw["burst"] = 3 + step["x"] % 3
    elif what == "lock2":
        kw["lock"] = 2
    elif what.startswith("sb_"):
        kw[what[3:]] = SB[what[3:]][0]
    elif what == "wuser_int":
        kw["wuser"] = x
    elif what == "wuser_list":
        kw["wuser"] = [x]
    elif what == "last_byte":
        a, n = (top - L, L) if k == "w" and "wstrb" in cfg["absent"] else (top - 1, 1)
        data = gen_bytes(step["key"], n)
    elif what == "last_word":
        a, n = top - L, L
        data = gen_bytes(step["key"], n)
    elif what == "id_max":
        kw[p + "id"] = (1 << cfg["idw"]) - 1
    elif what == "id_neg":
        kw[p + "id"] = -x
    elif what == "size_max":
        kw["size"] = (L - 1).bit_length()
    elif what == "size_neg":
        kw["size"] = -x
    elif what.startswith("sbd_"):
        kw[what[4:]] = SB[what[4:]][1]
    elif what == "wuser_none":
        kw["wuser"] = None
    elif what == "wuser_zero":
        kw["wuser"] = 0
    return a, n, data, kw, ev


VALID = {"plain", "last_byte", "last_word", "id_max", "id_neg", "size_max", "size_neg", "wuser_none", "wuser_zero"}


def is_valid(what):
    return what in VALID or what.startswith("sbd_")


@st.composite
def validation_case(draw):
    kind = draw(KINDS)
    cfg = draw(cfg_for(kind))
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from("wr"))
        bad = draw(st.integers(0, 2))
        what = draw(st.sampled_from(faults(cfg, k) if bad else boundaries(cfg, k)))
        form = "init" if what == "event" else draw(st.sampled_from(["init", "call"]))
        steps.append({"k": k, "what": what, "form": form, "a": draw(st.integers(0, 63)), "n": draw(st.integers(0, 255)),
                      "x": draw(st.integers(0, 40)), "key": draw(gen.data_key), "defer": draw(st.booleans()),
                      "gap": draw(st.integers(0, 2))})
    return {"cfg": cfg, "steps": steps, "t": draw(timing_for(kind))}


def run_validation(case):
    sim = Sim()
    cfg = case["cfg"]
    kit = Kit(sim, cfg, case["t"])
    labels = set()
    L = cfg["lanes"]

    async def main(sim):
        m = kit.master()
        edge = RisingEdge(sim.dut.clk)
        pend = []          # [(step, event, address, n, data)] outstanding valid operations
        model = {}
        counts = {"w": 0, "r": 0}

        async def drain():
            for i, ev, k, a, n, data in pend:
                await ev.wait()
                check(i, ev.data, k, a, n, data)
            pend.clear()
            require(m.idle(), "not idle after every operation completed")

        def check(i, r, k, a, n, data):
            require(r is not None and r.address == a and int(r.resp) == 0, "step %d: %r", i, r)
            if k == "w":
                require(r.length == n, "step %d: length %s", i, r.length)
            else:
                got = bytes(r.data)
                require(len(got) == n, "step %d: %d bytes, requested %d", i, len(got), n)
                for j, v in enumerate(got):
                    require(v == kit.mem.init(a + j) or v in model.get(a + j, ()), "step %d: byte %#x is %#x", i, a + j, v)

        for i, s in enumerate(case["steps"]):
            for _ in range(s["gap"]):
                await edge
            a, n, data, kw, ev = build(cfg, s)
            before = m.idle()
            t0 = sim.now
            ok = is_valid(s["what"])
            if s["k"] == "w" and ok:
                for j, v in enumerate(data):
                    model.setdefault(a + j, set()).add(v)
            if ev is not None:
                kw["event"] = ev
            try:
                if s["form"] == "init":
                    e = m.init_write(a, data, **kw) if s["k"] == "w" else m.init_read(a, n, **kw)
                    require(ok, "step %d: %s was accepted", i, s["what"])
                    counts[s["k"]] += 1
                    require(not m.idle(), "step %d: idle with an operation outstanding", i)
                    pend.append((i, e, s["k"], a, n, data))
                    if not s["defer"]:
                        await drain()
                else:
                    r = await (m.write(a, data, **kw) if s["k"] == "w" else m.read(a, n, **kw))
                    require(ok, "step %d: %s was accepted", i, s["what"])
                    counts[s["k"]] += 1
                    check(i, r, s["k"], a, n, data)
            except ValueError as e:
                if isinstance(e, Violation) or ok:
                    raise
                require(sim.now == t0, "step %d: %s reported %d ns late", i, s["what"], sim.now - t0)
                require(m.idle() == before, "step %d: idle() changed by a rejected request", i)
                labels.add("rejected " + s["what"])
                if not before:
                    labels.add("rejected while another operation was in flight")
                continue
            labels.add("accepted " + s["what"])
        await drain()
        for _ in range(8):
            await edge
        require(m.idle(), "not idle at the end")
        if cfg["kind"] == "apb":
            got = {"w": len([1 for x in kit.wires.log if x[1]["pwrite"]]), "r": len([1 for x in kit.wires.log if not x[1]["pwrite"]])}
        else:
            got = {"w": len(kit.wires.mon["aw"].log), "r": len(kit.wires.mon["ar"].log)}
            require(len(kit.wires.mon["w"].log) == got["w"], "write data and address counts differ")
        require(got == counts, "bus transfers %s, valid operations %s", got, counts)
        require(not any(kit.valids()), "valid high at the end")
        for a in kit.mem.d:
            require(kit.mem.d[a] in model.get(a, ()), "byte %#x was written with %#x", a, kit.mem.d[a])

    sim.run(main, 20000)
    return any(x.startswith("rejected") for x in labels), labels


# ------------------------------------------------------------------ A06

class CountedEvent(Event):
    def __init__(self, sim):
        super().__init__()
        self.count = 0
        self.when = None
        self._sim = sim

    def set(self, data=None):
        self.count += 1
        self.when = self._sim.now
        super().set(data)


@st.composite
def history_case(draw):
    kind = draw(KINDS)
    cfg = draw(cfg_for(kind))
    n = draw(st.one_of(*[st.integers(1, 8)] * 14, st.integers(9, 40)))
    ops = []
    for _ in range(n):
        ops.append({"k": draw(st.sampled_from("wr")), "n": draw(st.one_of(st.integers(1, 3), st.integers(1, 8), st.integers(0, 1))),
                    "off": draw(st.integers(0, cfg["lanes"] - 1)) if not ("wstrb" in cfg["absent"]) else 0,
                    "m": draw(st.sampled_from(["init", "ev", "ev", "ev", "task", "call"])),
                    "gap": draw(st.sampled_from([0, 0, 0, 1, 2, 9])), "half": draw(st.booleans()),
                    "w": draw(st.sampled_from([None, None, "wait", "wait", "dir"]))})
    return {"cfg": cfg, "ops": ops, "mbl": draw(st.sampled_from([None, 1, 2, 3])), "t": draw(timing_for(kind))}


def run_history(case):
    sim = Sim()
    cfg = case["cfg"]
    kind, L = cfg["kind"], cfg["lanes"]
    kit = Kit(sim, cfg, case["t"])
    labels = set()
    ops = case["ops"]
    span = 16 * L
    top = 1 << cfg["aw"]
    n_slots = max(1, min(len(ops), top // span))
    order = []                # call order
    state = {}                # op -> "open" / "done"
    results = {}
    waits = []

    def base(i):
        return (i % n_slots) * span

    def length(op):
        if not op["n"]:
            return 0
        n = op["n"] * L - op["off"] if op["n"] * L > op["off"] else L
        if kind != "apb" and "wstrb" not in cfg["absent"] and n > 1:
            n -= (op["n"] * 7) % L if n > L else 0
        return n

    async def main(sim):
        kw0 = {"max_burst_len": case["mbl"]} if kind == "axi" and case["mbl"] else {}
        m = kit.master(**kw0)
        edge = RisingEdge(sim.dut.clk)
        events = {}
        tasks = []

        def outstanding(k=None):
            return [i for i, s in state.items() if s == "open" and (k is None or ops[i]["k"] == k)]

        def check_idle(where):
            out = outstanding()
            require(m.idle() == (not out), "%s: idle() is %s with operations %s outstanding", where, m.idle(), out)

        async def watch(i, ev):
            await ev.wait()
            results[i] = ev.data
            state[i] = "done"
            b = len(kit.wires.mon["b"].log) if kind != "apb" else len(kit.wires.log)
            if kind != "apb":
                done_w = len([j for j, s in state.items() if s == "done" and ops[j]["k"] == "w" and ops[j]["n"]])
                require(done_w <= b, "more writes completed than responses were transferred")

        async def call(i, a, n):
            order.append(i)
            state[i] = "open"
            if ops[i]["k"] == "w":
                results[i] = await m.write(a, gen_bytes(i + 3, n))
            else:
                results[i] = await m.read(a, n)
            state[i] = "done"

        async def waiter(which):
            mine = outstanding({"wait": None, "w": "w", "r": "r"}[which])
            if which == "wait":
                await m.wait()
            elif which == "w":
                await m.wait_write()
            else:
                await m.wait_read()
            waits.append(sim.now)
            left = [i for i in mine if state[i] == "open"]
            # tasks blocked on an event wake in the same time step
            if left:
                await Timer(1, "ns")
                left = [i for i in mine if state[i] == "open"]
            require(not left, "wait() returned with operations %s outstanding", left)
            labels.add("wait() with %s operations" % (len(mine) and "open"))

        nwaits = 0
        require(m.idle(), "not idle before the first operation")
        for i, op in enumerate(ops):
            for _ in range(op["gap"]):
                await edge
            if op["gap"] and op["half"]:
                await Timer(3, "ns")
            a = base(i) + op["off"]
            n = length(op)
            mode = op["m"]
            if mode == "call":
                await call(i, a, n)
            elif mode == "task":
                t = cocotb.start_soon(call(i, a, n))
                tasks.append(t)
                await edge
            else:
                kw = {}
                if mode == "ev":
                    events[i] = kw["event"] = CountedEvent(sim)
                order.append(i)
                state[i] = "open"
                ev = m.init_write(a, gen_bytes(i + 3, n), **kw) if op["k"] == "w" else m.init_read(a, n, **kw)
                require(not m.idle(), "idle() right after operation %d was issued", i)
                require(not ev.is_set(), "operation %d complete as soon as issued", i)
                if mode == "ev":
                    require(ev is events[i], "init_* did not return the caller's event")
                tasks.append(cocotb.start_soon(watch(i, ev)))
            if op["w"]:
                which = op["w"]
                if which == "dir":
                    which = "wait" if kind == "apb" else op["k"]
                    if kind == "axil":
                        which = op["k"]
                tasks.append(cocotb.start_soon(waiter(which)))
                nwaits += 1
            if op["gap"]:
                await Timer(2, "ns")
                check_idle("after operation %d" % i)
        last = None
        for t in tasks:
            await t
        require(len(waits) == nwaits, "%d of %d wait() calls returned", len(waits), nwaits)
        await Timer(1, "ns")
        check_idle("at the end")
        require(not outstanding(), "operations %s never completed", outstanding())
        t0 = sim.now
        await m.wait()
        require(sim.now == t0, "wait() blocks although idle")
        for _ in range(6):
            await edge
        for i, ev in events.items():
            require(ev.count == 1, "operation %d: completion event set %d times", i, ev.count)
            require(ev.data is results[i] or ev.data == results[i], "operation %d: event data changed", i)

    sim.run(main, 30000)
    for i, op in enumerate(ops):
        r = results[i]
        require(r is not None and r.address == base(i) + op["off"], "operation %d: %r", i, r)
        k = len(r.data) if op["k"] == "r" else r.length
        require(k == length(op), "operation %d of %d bytes reports %d", i, length(op), k)
    # issue order on the bus
    log = kit.issue_log()
    if n_slots >= len(ops):
        dirs = [("w", "r")] if kind == "apb" else [("w",), ("r",)]
        for d in dirs:
            seq = []
            for k, a in log:
                if k in d:
                    i = a // span
                    require(i < len(ops) and ops[i]["k"] == k, "transfer %s at %#x belongs to no operation", k, a)
                    if (not seq or seq[-1] != i) and ops[i]["n"]:
                        seq.append(i)
            want = [i for i in order if ops[i]["k"] in d and ops[i]["n"]]
            require(seq == want, "operations on the bus in the order %s, issued in the order %s", seq, want)
        if len(ops) > 1:
            labels.add("order checked")
    labels.add(kind)
    if not all(op["n"] for op in ops):
        labels.add("operation without data")
    labels.update("form " + op["m"] for op in ops)
    conc = len([1 for op in ops if op["m"] in ("init", "ev", "task")])
    if conc > 1:
        labels.add("concurrent operations")
    return conc > 1, labels


ASSUME = ["subordinate models in pbt/bfm.py", "Python GPI in pbt/sim.py instead of an HDL simulator"]

CHECKS = [
    Check("A05", "1-6 requests per case to an AXI, AXI-Lite or APB master, each with one argument outside or exactly on a limit "
          "(address, length, ID, size, burst, lock, sideband on an absent signal, data or event of the wrong type), also while "
          "other operations are in flight; non-trivial: at least one request had to be rejected",
          [Part("req", validation_case, run_validation, 2500, 80000)], ASSUME),
    Check("A06", "1-8 operations issued through every API form with random gaps and wait() callers on all three masters; "
          "non-trivial: at least two operations were issued without waiting for the previous one",
          [Part("hist", history_case, run_history, 2500, 80000)], ASSUME),
]
