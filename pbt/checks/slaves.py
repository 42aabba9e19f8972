"""A08..A10, L02, B02: the library's slaves and RAMs against native managers."""

import mmap

from hypothesis import strategies as st

from ..sim import Sim
from ..core import Check, Part, Violation, require
from ..bfm import FIXED, INCR, WRAP, AxiCfg, Cyc, RefMem, beat_lanes
from ..kits import Kit, cfg_for
from ..mbfm import ApbMasterBfm, AxiMasterBfm, AxilMasterBfm
from .. import gen

from cocotb.triggers import RisingEdge
from cocotbext.axi import (AddressSpace, ApbBus, ApbRam, ApbSlave, AxiBus, AxiLiteBus, AxiLiteRam, AxiLiteRamRead,
                           AxiLiteRamWrite, AxiLiteReadBus, AxiLiteSlave, AxiLiteSlaveRead, AxiLiteSlaveWrite,
                           AxiLiteWriteBus, AxiRam, AxiRamRead, AxiRamWrite, AxiReadBus, AxiSlave, AxiSlaveRead,
                           AxiSlaveWrite, AxiWriteBus, MemoryRegion)
from cocotbext.axi.sparse_memory import SparseMemory


# ------------------------------------------------------------------ building the slave

def build_ram(case, kit):
    cfg, d = case["cfg"], kit.sim.dut
    size = case["size"]
    kw = {}
    if case["mem"] == "default":
        size = 1 << 64
    elif case["mem"] == "sparse":
        kw["size"] = size
    elif case["mem"] == "shared":
        kw["mem"] = SparseMemory(size)
    elif case["mem"] == "mmap":
        kw["mem"] = mmap.mmap(-1, size)
    else:
        kw["mem"] = bytearray(size)
    a, kw = kit._args(kw)
    p, k = kit.prefix, cfg["kind"]
    if k == "apb":
        ram = ApbRam(ApbBus.from_prefix(d, p), *a, **kw)
        return ram, ram, size
    if case.get("split") and "mem" in kw:
        if k == "axi":
            w = AxiRamWrite(AxiWriteBus.from_prefix(d, p), *a, **kw)
            r = AxiRamRead(AxiReadBus.from_prefix(d, p), *a, **kw)
        else:
            w = AxiLiteRamWrite(AxiLiteWriteBus.from_prefix(d, p), *a, **kw)
            r = AxiLiteRamRead(AxiLiteReadBus.from_prefix(d, p), *a, **kw)
        return w, r, size
    ram = (AxiRam(AxiBus.from_prefix(d, p), *a, **kw) if k == "axi" else
           AxiLiteRam(AxiLiteBus.from_prefix(d, p), *a, **kw))
    return ram, ram, size


def build_slave(case, kit, target):
    """The target is given at construction, or set afterwards."""
    cfg, d = case["cfg"], kit.sim.dut
    a, kw = kit._args({} if case.get("late") else {"target": target})
    p, k = kit.prefix, cfg["kind"]
    if k == "apb":
        out = (ApbSlave(ApbBus.from_prefix(d, p), *a, **kw),)
    elif case.get("split"):
        if k == "axi":
            out = (AxiSlaveWrite(AxiWriteBus.from_prefix(d, p), *a, **kw), AxiSlaveRead(AxiReadBus.from_prefix(d, p), *a, **kw))
        else:
            out = (AxiLiteSlaveWrite(AxiLiteWriteBus.from_prefix(d, p), *a, **kw),
                   AxiLiteSlaveRead(AxiLiteReadBus.from_prefix(d, p), *a, **kw))
    elif k == "axi":
        out = (AxiSlave(AxiBus.from_prefix(d, p), *a, **kw),)
    else:
        out = (AxiLiteSlave(AxiLiteBus.from_prefix(d, p), *a, **kw),)
    if case.get("late"):
        for x in out:
            x.target = target
    return out if len(out) > 1 else out[0]


def manager(kit, case):
    k = case["cfg"]["kind"]
    cls = {"axi": AxiMasterBfm, "axil": AxilMasterBfm, "apb": ApbMasterBfm}[k]
    return cls(kit.sim, kit.wires, case["cfg"], case["mt"])


def channel_objects(*objs):
    out = {}
    for o in objs:
        for i in (o, getattr(o, "write_if", None), getattr(o, "read_if", None)):
            for c in ("aw", "w", "b", "ar", "r"):
                if hasattr(i, c + "_channel"):
                    out[c] = getattr(i, c + "_channel")
    return out


def channel_pauses(pats, *objs):
    """Pause generators for the channels of masters or slaves."""
    for c, ch in channel_objects(*objs).items():
        if pats.get(c):
            ch.set_pause_generator(bool(x) for x in (pats[c] * 60)[:400] + [0])


channel_patterns = st.one_of(*[st.just({})] * 5, st.dictionaries(st.sampled_from(["aw", "w", "b", "ar", "r"]), st.lists(st.integers(0, 1), min_size=1, max_size=7),
                                                                 min_size=1, max_size=5))


def pauses(kit, slave, case, *more):
    """APB slaves and the channels of the others can be paused."""
    channel_pauses(case["mt"].get("chp", {}), slave, *more)
    if case["cfg"]["kind"] == "apb" and case["mt"].get("pause"):
        slave.set_pause_generator(bool(x) for x in (case["mt"]["pause"] * 40)[:400] + [0])


async def phases(sim, case, bfm, start=None, finish=None):
    edge = RisingEdge(sim.dut.clk)
    for ph in case["phases"]:
        recs = []
        if start:
            start(ph)
        for i, b in enumerate(ph):
            recs.append(bfm.send(i, b))
        while bfm.outstanding:
            await edge
        if finish:
            finish(recs)
    for _ in range(12):
        await edge


# ------------------------------------------------------------------ RAM

def run_ram(case, max_cycles=60000):
    sim = Sim()
    cfg = case["cfg"]
    L = cfg["lanes"]
    kit = Kit(sim, cfg, {}, native_slave=False)
    bfm = manager(kit, case)
    model = RefMem(case.get("salt", 0))
    labels = set()
    holder = {}

    def phys(a):
        return a % holder["size"]

    def touched(rec):
        if "beats" in rec:
            return [base for _, base, _, _ in rec["beats"]]
        return [a // L * L for a in rec["addrs"]]

    async def main(sim):
        w, r, size = build_ram(case, kit)
        pauses(kit, w, case, r)
        holder.update(w=w, r=r, size=size)
        seen = set()
        allowed = {}     # byte -> values a read in this phase may see
        later = {}

        def prepare(recs):
            for rec in recs:
                for base in touched(rec):
                    for x in (base - L, base, base + L):
                        p = x % size
                        if p not in seen:
                            seen.add(p)
                            holder["w"].write(p, bytes(model.init(p + j) for j in range(L)))

        def on_b(rec):
            # the response promises that the data is in the memory
            for k in range(len(rec["vals"])):
                p, v = rec["vals"][k]
                ok = {v} | {x for i2, x in later.get(p, ()) if i2 >= rec["i"]}
                got = r.read(p, 1)[0]
                require(got in ok, "after the response of write %d byte %#x is %#x, expected %#x", rec["i"], p, got, v)

        bfm.on_b = on_b

        edge = RisingEdge(sim.dut.clk)
        for ph in case["phases"]:
            recs = []
            allowed.clear()
            later.clear()
            for i, b in enumerate(ph):
                recs.append(bfm.send(i, b))
            prepare(recs)
            snap = dict(model.d)
            before = lambda p: snap[p] if p in snap else model.init(p)
            for rec in recs:
                if "beats" in rec:
                    vals = {}
                    for a, base, strb, data in rec["beats"]:
                        for j in range(L):
                            if strb >> j & 1:
                                p = phys(base + j)
                                vals[p] = data[j]
                                allowed.setdefault(p, set()).add(data[j])
                                later.setdefault(p, []).append((rec["i"], data[j]))
                                model.set(p, data[j])
                    rec["vals"] = list(vals.items())
            while bfm.outstanding:
                await edge
            for rec in recs:
                b = rec["b"]
                if "beats" in rec:
                    require(rec["resp"] == 0, "write %d answered %d", rec["i"], rec["resp"])
                    if any(strb not in (0, (1 << L) - 1) for _, _, strb, _ in rec["beats"]):
                        labels.add("sparse or partial strobes")
                    if any(strb == 0 for _, _, strb, _ in rec["beats"]):
                        labels.add("transfer without strobes")
                else:
                    require(not any(rec["resp"]), "read %d answered %s", rec["i"], rec["resp"])
                    for k, a in enumerate(rec["addrs"]):
                        lo, hi = beat_lanes(a, b.get("s", (L - 1).bit_length()), L) if cfg["kind"] == "axi" else (0, L)
                        base = a // L * L
                        for j in range(lo, hi):
                            p = phys(base + j)
                            got = rec["data"][k] >> 8 * j & 0xff
                            if got != before(p):
                                require(got in allowed.get(p, ()), "read %d transfer %d: lane %d (address %#x) is %#x, expected %#x",
                                        rec["i"], k, j, base + j, got, before(p))
                                labels.add("read overlapping a write")
                labels.add({"w": "write", "r": "read"}[b["k"]])
                if cfg["kind"] == "axi":
                    labels.add({FIXED: "FIXED", INCR: "INCR", WRAP: "WRAP"}[b["b"]])
                    if (1 << b["s"]) < L:
                        labels.add("narrow")
                    if b["a"] % (1 << b["s"]):
                        labels.add("unaligned")
                    if b["n"] > 1:
                        labels.add("several transfers")
                if b["a"] // size:
                    labels.add("address beyond the RAM size")
        for _ in range(12):
            await edge
        # the whole memory, not only the bytes that were addressed
        if size <= 1 << 14:
            got = bytes(r.read(0, size))
            for p in range(size):
                e = model.get(p) if (p // L * L in seen or p in model.d) else 0
                require(got[p] == e, "byte %#x of the memory is %#x, expected %#x", p, got[p], e)
        else:
            for p in sorted(seen):
                got = bytes(r.read(p, L))
                e = model.read(p, L)
                require(got == e, "memory at %#x is %s, expected %s", p, got.hex(), e.hex())
        require(w.mem is r.mem, "write and read side use different memories")

    sim.run(main, max_cycles)
    return kit, bfm, labels


# ------------------------------------------------------------------ slave with an arbitrary target

EXC = [None, ValueError, Exception, KeyError, RuntimeError, AssertionError]


class Target:
    """Records every access; waits and fails as told by the case."""
    current = None

    def __init__(self, sim, mem, t, inner=None):
        self.sim, self.mem, self.inner = sim, mem, inner
        self.waits = Cyc(t.get("twait", (0,)))
        self.fail = Cyc(t.get("tfail", (0,)))
        self.w, self.r = [], []

    def another(self):
        """A target to replace this one: same memory, same logs."""
        t = Target.__new__(Target)
        t.__dict__ = dict(self.__dict__)
        return t

    def _here(self):
        require(self.current is None or self.current[0] is self, "an access reached a target that was replaced")

    async def _go(self):
        f = EXC[self.fail.next() % len(EXC)]
        for _ in range(self.waits.next()):
            await RisingEdge(self.sim.dut.clk)
        return f

    async def write(self, address, data, **kwargs):
        self._here()
        rec = [address, bytes(data), False, kwargs]
        self.w.append(rec)
        f = await self._go()
        if f is not None:
            raise f("injected")
        if self.inner is not None:
            await self.inner.write(address, data)
        self.mem.write(address, bytes(data))
        rec[2] = True

    async def read(self, address, length, **kwargs):
        self._here()
        rec = [address, length, False, kwargs]
        self.r.append(rec)
        f = await self._go()
        if f is not None:
            raise f("injected")
        d = self.mem.read(address, length)
        if self.inner is not None:
            require_later(rec, bytes(await self.inner.read(address, length)), d)
        rec[2] = True
        return d


def require_later(rec, got, want):
    if got != want:
        rec.append("inner memory returned %s, expected %s" % (got.hex(), want.hex()))


def match_writes(case, allrecs, wlog, mem, labels):
    """The accesses of the target are those of the write transfers, in order.

    Accesses of a transfer after one of it that failed are optional: either all are made, or none."""
    cfg = case["cfg"]
    L = cfg["lanes"]

    def attempt(go_on):
        ref = RefMem(mem.salt, zero=mem.zero)
        wi = 0
        for rec in allrecs:
            if "beats" not in rec:
                continue
            failed = False
            for k, (a, base, strb, data) in enumerate(rec["beats"]):
                need = [(base + j, data[j]) for j in range(L) if strb >> j & 1]
                bad = False
                while need and (go_on or not bad):
                    require(wi < len(wlog), "write %d transfer %d: bytes %s never reached the target", rec["i"], k, need[:3])
                    addr, d, ok, _ = wlog[wi]
                    wi += 1
                    got = [(addr + j, v) for j, v in enumerate(d)]
                    require(got == need[:len(got)] and got, "write %d transfer %d: target access %s, expected %s",
                            rec["i"], k, got[:4], need[:4])
                    need = need[len(got):]
                    bad = bad or not ok
                    if ok:
                        ref.write(addr, d)
                failed = failed or bad
            if "bresp" not in cfg["absent"] and "pslverr" not in cfg["absent"]:
                require(rec["resp"] == (2 if failed else 0), "write %d answered %d, %s failed", rec["i"], rec["resp"],
                        "an access" if failed else "no access")
            if failed:
                labels.add("failed write")
            labels.add("write")
        require(wi == len(wlog), "%d extra write accesses on the target: %s", len(wlog) - wi, wlog[wi:wi + 2])
        require(mem.d == ref.d, "memory differs from the model")

    try:
        attempt(False)
    except Violation as e:
        try:
            attempt(True)
        except Violation:
            raise e from None


def run_target(case, max_cycles=60000):
    sim = Sim()
    cfg = case["cfg"]
    L = cfg["lanes"]
    kit = Kit(sim, cfg, {}, native_slave=False)
    bfm = manager(kit, case)
    mem = RefMem(case.get("salt", 0), zero=case["tk"] == "space")
    labels = set()
    allrecs = []
    inner = None
    mapped = lambda a: True
    if case["tk"] == "space":
        inner = AddressSpace(1 << cfg["aw"])
        pages = case["pages"]
        for i in range(min(len(pages), (1 << cfg["aw"]) // 4096)):
            if pages[i]:
                inner.register_region(MemoryRegion(4096), i * 4096)
        mapped = lambda a: a // 4096 < len(pages) and bool(pages[a // 4096])
    tgt = Target(sim, mem, case["mt"], inner)

    async def main(sim):
        slave = build_slave(case, kit, tgt)
        pauses(kit, slave, case)

        def start(ph):
            # nothing is outstanding between phases: another target for the next one
            if case.get("swap") and tgt.current is not None:
                labels.add("target replaced")
                t = tgt.another()
                for x in slave if isinstance(slave, tuple) else (slave,):
                    x.target = t
                tgt.current[:] = [t]
            elif case.get("swap"):
                tgt.current = [tgt]
        await phases(sim, case, bfm, start=start, finish=allrecs.extend)

    sim.run(main, max_cycles)

    wlog, rlog = list(tgt.w), list(tgt.r)
    for rec in wlog + rlog:
        require(len(rec) == 4, "%s", rec[-1])
        require(rec[2] or not mapped(rec[0]) or any(case["mt"].get("tfail", [0])), "access at %#x failed", rec[0])
        require(not rec[2] or mapped(rec[0]), "access at %#x outside every region succeeded", rec[0])
    match_writes(case, allrecs, wlog, mem, labels)
    ri = 0
    for rec in allrecs:
        b = rec["b"]
        if "beats" in rec:
            continue
        for k, a in enumerate(rec["addrs"]):
            require(ri < len(rlog), "read %d transfer %d never reached the target", rec["i"], k)
            addr, n, ok, _ = rlog[ri]
            ri += 1
            base = a // L * L
            lo, hi = beat_lanes(a, b.get("s", (L - 1).bit_length()), L) if cfg["kind"] == "axi" else (0, L)
            require(base <= addr <= base + lo and base + hi <= addr + n <= base + L,
                    "read %d transfer %d at %#x: target access %#x+%d", rec["i"], k, a, addr, n)
            if "rresp" not in cfg["absent"] and "pslverr" not in cfg["absent"]:
                require(rec["resp"][k] == (0 if ok else 2), "read %d transfer %d answered %d, the access %s", rec["i"], k,
                        rec["resp"][k], "succeeded" if ok else "failed")
            if not ok:
                labels.add("failed read")
        labels.add("read")
    require(ri == len(rlog), "%d extra read accesses on the target: %s", len(rlog) - ri, rlog[ri:ri + 2])
    if any(case["mt"].get("twait", [0])):
        labels.add("slow target")
    # read data: reads and writes overlap within a phase, so compare through the values ever stored
    hist = {}
    for rec in allrecs:
        if "beats" in rec:
            for a, base, strb, data in rec["beats"]:
                for j in range(L):
                    if strb >> j & 1:
                        hist.setdefault(base + j, set()).add(data[j])
    ri = 0
    for rec in allrecs:
        if "beats" in rec:
            continue
        for k, a in enumerate(rec["addrs"]):
            ok = rlog[ri][2]
            ri += 1
            if not ok:
                continue
            base = a // L * L
            lo, hi = beat_lanes(a, rec["b"].get("s", (L - 1).bit_length()), L) if cfg["kind"] == "axi" else (0, L)
            for j in range(lo, hi):
                v = rec["data"][k] >> 8 * j & 0xff
                require(v == mem.init(base + j) or v in hist.get(base + j, ()), "read %d transfer %d: lane %d (address %#x) is %#x, expected %#x",
                        rec["i"], k, j, base + j, v, mem.init(base + j))
    if case["tk"] == "space":
        for p in mem.d:
            require(tgt_read(inner, p) == mem.d[p], "byte %#x of the address space", p)
    return kit, bfm, labels


def tgt_read(space, p):
    for base, size, off, region in space.regions:
        if base <= p < base + size:
            return region.mem[p - base]
    return None


# ------------------------------------------------------------------ strategies

strobes = st.one_of(st.just([None]), st.lists(st.one_of(st.none(), st.integers(0, 40)), min_size=1, max_size=4),
                    st.lists(st.integers(4, 1 << 16), min_size=1, max_size=4))


@st.composite
def burst_in(draw, cfg, kinds="wr", maxbeats=24):
    L = cfg["lanes"]
    hi = 1 << cfg["aw"]
    k = draw(st.sampled_from(list(kinds)))
    if cfg["kind"] != "axi":
        words = hi // L
        wd = draw(st.one_of(st.integers(0, min(3, words - 1)), st.integers(0, words - 1), st.integers(max(0, words - 3), words - 1)))
        a = wd * L + draw(st.one_of(st.just(0), st.integers(0, L - 1)))
        return {"k": k, "a": a, "key": draw(gen.data_key), "st": draw(strobes)}
    mx = (L - 1).bit_length()
    nostrb = k == "w" and "wstrb" in cfg["absent"]
    s = mx if nostrb else draw(st.one_of(st.just(mx), st.integers(0, mx)))
    nb = 1 << s
    bt = draw(st.sampled_from([INCR, INCR, INCR, FIXED, WRAP]))
    small = draw(st.booleans())
    page = 4096 * (draw(st.integers(0, min(2, hi // 4096 - 1))) if small else
                   draw(st.one_of(st.integers(0, hi // 4096 - 1), st.just(hi // 4096 - 1))))
    if bt == WRAP:
        n = draw(st.sampled_from([x for x in (2, 4, 8, 16) if x * nb <= 4096]))
        tot = n * nb
        c = page + tot * draw(st.integers(0, 4096 // tot - 1))
        a = c + nb * draw(st.integers(0, n - 1))
    elif bt == FIXED:
        n = draw(st.integers(1, 16))
        a = page + draw(st.integers(0, 4095))
    else:
        cap = min(256, 4096 // nb)
        n = draw(st.one_of(st.integers(1, min(6, cap)), st.integers(1, min(maxbeats, cap)), st.integers(1, min(40, cap))))
        al = draw(st.one_of(st.integers(0, 4096 // nb - n), st.just(4096 // nb - n), st.integers(0, min(3, 4096 // nb - n))))
        a = page + al * nb + (0 if nostrb else draw(st.one_of(st.just(0), st.integers(0, nb - 1))))
    if nostrb:
        a = a // nb * nb
    return {"k": k, "a": a, "s": s, "n": n, "b": bt, "id": draw(gen.some_id(cfg["idw"])),
            "key": draw(gen.data_key), "st": draw(strobes), "prot": draw(st.integers(0, 7))}


@st.composite
def mtiming(draw, kind, target=False):
    t = {}
    if kind == "apb":
        t["gaps"] = draw(st.one_of(st.just([0]), st.lists(st.integers(0, 4), min_size=1, max_size=5)))
        t["pause"] = draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 1), min_size=1, max_size=6)))
    else:
        t["chp"] = draw(channel_patterns)
        for s in ("aw", "w", "ar"):
            t[s + "delay"] = draw(gen.delays)
        for s in ("b", "r"):
            t[s + "ready"] = draw(gen.pattern)
            t[s + "mode"] = draw(gen.mode)
        which = draw(st.integers(0, 3))
        if which == 1:
            t["aw0"] = draw(st.integers(1, 40))
        elif which == 2:
            t["w0"] = draw(st.integers(1, 40))
    t = draw(gen.one_stall(t, ["gaps"] if kind == "apb" else ["awdelay", "wdelay", "ardelay", "bready", "rready"]))
    if target:
        t["twait"] = draw(st.one_of(st.just([0]), st.lists(st.integers(0, 4), min_size=1, max_size=6)))
        t["tfail"] = draw(st.one_of(st.just([0]), st.lists(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5]), min_size=1, max_size=12),
                                    st.lists(st.sampled_from([0] * 12 + [1, 2]), min_size=1, max_size=40)))
        t = draw(gen.one_stall(t, ["twait"]))
    return t


@st.composite
def slave_cfg(draw, kind):
    cfg = draw(cfg_for(kind))
    if kind == "axi" and draw(st.integers(0, 7)) == 7:
        cfg["lanes"] = draw(st.sampled_from([32, 64, 128]))
    return cfg


@st.composite
def ram_case(draw, kind, kinds="wr"):
    cfg = draw(slave_cfg(kind))
    L = cfg["lanes"]
    mem = draw(st.sampled_from(["sparse", "sparse", "shared", "mmap", "bytes", "default"]))
    size = draw(st.sampled_from([L, 2 * L, 3 * L, 64 * L, 4096, 4096 * 3, 1 << 13, 5 * 4096 + 16 * L, 1 << cfg["aw"]]))
    if mem in ("mmap", "bytes"):
        size = min(size, 1 << 15)
    n = draw(st.integers(1, 3))
    phases = [draw(st.lists(burst_in(cfg, kinds), min_size=1, max_size=5)) for _ in range(n)]
    if draw(st.integers(0, 24)) == 24:
        phases = [draw(st.lists(burst_in(cfg, kinds, maxbeats=4), min_size=8, max_size=30))]
    if draw(st.booleans()):
        # read back what was written
        phases.append([dict(b, k="r") for ph in phases for b in ph if b["k"] == "w"][:5] or [dict(phases[0][0], k="r")])
    return {"cfg": cfg, "mem": mem, "size": size, "split": draw(st.booleans()), "phases": phases,
            "mt": draw(mtiming(kind)), "salt": draw(st.integers(0, 255))}


@st.composite
def target_case(draw, kind):
    cfg = draw(slave_cfg(kind))
    tk = draw(st.sampled_from(["plain", "plain", "space"]))
    if tk == "space" and cfg["aw"] < 13:
        cfg["aw"] = 16
    n = draw(st.integers(1, 3))
    b = burst_in(cfg, "wr", maxbeats=12)
    phases = [draw(st.lists(b, min_size=1, max_size=5)) for _ in range(n)]
    if draw(st.integers(0, 24)) == 24:
        phases = [draw(st.lists(b, min_size=8, max_size=30))]
    c = {"cfg": cfg, "tk": tk, "late": draw(st.booleans()), "split": draw(st.booleans()), "swap": draw(st.booleans()), "phases": phases,
         "mt": draw(mtiming(kind, True)),
         "salt": draw(st.integers(0, 255))}
    if tk == "space":
        c["pages"] = draw(st.lists(st.integers(0, 1), min_size=1, max_size=4).filter(any))
    return c


# ------------------------------------------------------------------ runners

def ram_part(interesting):
    def run(case):
        kit, bfm, lab = run_ram(case)
        finish_labels(case, kit, bfm, lab)
        return bool(lab & interesting), lab
    return run


def target_part(case):
    kit, bfm, lab = run_target(case)
    finish_labels(case, kit, bfm, lab)
    return bool(lab & {"failed write", "failed read", "slow target"}), lab


def finish_labels(case, kit, bfm, lab):
    if case["cfg"]["kind"] == "apb":
        if bfm.waits_seen:
            lab.add("wait states")
        if 0 in case["mt"]["gaps"]:
            lab.add("back-to-back transfers")
    else:
        if kit.wires.mon["b"].n_stall or kit.wires.mon["r"].n_stall:
            lab.add("response backpressure")
        if case["mt"].get("aw0"):
            lab.add("data before address")
    lab.add("memory " + case["mem"] if "mem" in case else "target " + case["tk"])


AXI_NT = {"sparse or partial strobes", "FIXED", "WRAP", "narrow", "unaligned", "several transfers"}
LITE_NT = {"sparse or partial strobes", "read", "address beyond the RAM size"}
ASSUME = ["manager models in pbt/mbfm.py", "Python GPI in pbt/sim.py instead of an HDL simulator"]

CHECKS = [
    Check("A08", "1-4 phases of 1-5 write bursts (any type, size, alignment, length inside 4 KB, random or empty strobes, junk on "
          "unstrobed lanes) with read-back, over RAM sizes and memory kinds; non-trivial: partial/sparse strobes, FIXED, WRAP, "
          "narrow, unaligned or multi-transfer bursts",
          [Part("ram", lambda: ram_case("axi", "www" + "r"), ram_part(AXI_NT), 1500, 60000)], ASSUME),
    Check("A09", "1-4 phases of read bursts mixed with some writes, data checked lane by lane on the bus; non-trivial: as A08",
          [Part("ram", lambda: ram_case("axi", "rrr" + "w"), ram_part(AXI_NT), 1500, 60000)], ASSUME),
    Check("A10", "read and write bursts to a slave whose target waits 0-4 cycles and raises on scheduled accesses, or is an address "
          "space with unmapped pages; non-trivial: an access failed or was slow",
          [Part("target", lambda: target_case("axi"), target_part, 1500, 60000)], ASSUME),
    Check("L02", "1-4 phases of AXI-Lite reads/writes with any strobes to a RAM (sizes, memory kinds) or to a slow/failing target; "
          "non-trivial: partial strobes, a read, address beyond the RAM, or a failed/slow access",
          [Part("ram", lambda: ram_case("axil"), ram_part(LITE_NT), 1500, 50000),
           Part("target", lambda: target_case("axil"), target_part, 1000, 40000)], ASSUME),
    Check("B02", "1-4 phases of APB transfers with any strobes (gaps or back-to-back, slave paused at random) to a RAM or to a "
          "slow/failing target; non-trivial: partial strobes, a read, address beyond the RAM, or a failed/slow access",
          [Part("ram", lambda: ram_case("apb"), ram_part(LITE_NT), 1500, 50000),
           Part("target", lambda: target_case("apb"), target_part, 1000, 40000)], ASSUME),
]
