"""M01..M06: memories, regions, windows, address spaces, allocators, hexdump (no simulator needed)."""

import contextlib
import io
import mmap
import sys

from hypothesis import strategies as st

from .. import sim as _sim      # noqa: F401  (installs the GPI so that cocotbext.axi imports)
from ..core import Check, Part, Violation, require
from ..bfm import gen_bytes, gen_int
from .. import gen

from cocotbext.axi import (AddressSpace, MemoryInterface, MemoryRegion, PeripheralRegion, Pool, Region, SparseMemoryRegion,
                           Window, WindowPool)
from cocotbext.axi.buddy_allocator import BuddyAllocator
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory
from cocotbext.axi.utils import hexdump, hexdump_lines, hexdump_str


def sync(coro):
    """Run a coroutine that must not suspend."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise Violation("coroutine suspended without a simulator")


class Mirror:
    """Reference: sparse byte map."""

    def __init__(self):
        self.d = {}

    def read(self, a, n):
        return bytes(self.d.get(a + i, 0) for i in range(n))

    def write(self, a, data):
        for i, v in enumerate(data):
            self.d[a + i] = v


def probe(ref, size):
    """Ranges to compare for a huge memory: the surroundings of everything written, and its aliases."""
    runs = []
    for a in sorted(ref.d):
        if runs and a <= runs[-1][1] + 128:
            runs[-1][1] = a
        else:
            runs.append([a, a])
    out = set()
    for lo, hi in runs:
        out.add((max(lo - 64, 0), min(hi + 65, size)))
        for k in (12, 16, 24, 31, 32, 33, 40, 47, 48, 56, 63, 64):
            for x in (lo & ((1 << k) - 1), lo ^ (1 << k)):
                if x != lo and x < size:
                    out.add((x, min(x + min(hi - lo, 15) + 1, size)))
    return sorted(out)


def require_same(read, ref, size, what):
    for lo, hi in probe(ref, size):
        got, want = bytes(read(lo, hi - lo)), ref.read(lo, hi - lo)
        require(got == want, "%s differs: %s", what, [(hex(lo + i), got[i], want[i]) for i in range(hi - lo) if got[i] != want[i]][:5])


def expect_error(fn, what, kinds=(Exception,)):
    try:
        fn()
    except Violation:
        raise
    except kinds:
        return
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, e))
    raise Violation("%s was accepted" % what)


# ------------------------------------------------------------------ word helpers

WS = {"word": 2, "dword": 4, "qword": 8}


def helper_op(obj, ref, op, base, asy, ex={}):
    """One helper call on obj (with extra keyword arguments ex), mirrored on ref at base.  Returns a label."""
    run = (lambda x: sync(x)) if asy else (lambda x: x)
    a, n, bo, name = op["a"], op["n"], op["bo"], op["h"]
    kw = dict(ex) if bo is None else dict(ex, byteorder=bo)
    order = bo or "little"
    if name == "bytes":
        if op["w"]:
            data = gen_bytes(op["key"], n)
            if op["key"] & 1:
                data = bytearray(data)
            run(obj.write(a, data, **ex))
            ref.write(base + a, data)
        else:
            got = bytes(run(obj.read(a, n, **ex)))
            require(got == ref.read(base + a, n), "read(%#x, %d) returned %s, expected %s", a, n, got.hex()[:60],
                    ref.read(base + a, n).hex()[:60])
        return "bytes"
    if name == "byte":
        if op["w"]:
            v = gen_int(op["key"], 8)
            run(obj.write_byte(a, v, **ex))
            ref.write(base + a, [v])
        else:
            got = run(obj.read_byte(a, **ex))
            require(got == ref.read(base + a, 1)[0], "read_byte(%#x) returned %s", a, got)
        return "byte"
    single = not name.endswith("s")
    stem = name[:-1] if name.endswith("s") else name
    ws = WS[stem]
    if stem == "word" and op["ws"]:
        ws = op["ws"]
        kw["ws"] = ws
    count = 1 if single else op["n"]
    if op["w"]:
        vals = [gen_int(op["key"] + i, 8 * ws) for i in range(count)]
        f = getattr(obj, "write_" + name)
        run(f(a, vals[0] if single else vals, **kw))
        ref.write(base + a, b"".join(v.to_bytes(ws, order) for v in vals))
    else:
        f = getattr(obj, "read_" + name)
        got = run(f(a, **kw)) if single else run(f(a, count, **kw))
        raw = ref.read(base + a, ws * count)
        want = [int.from_bytes(raw[i * ws:(i + 1) * ws], order) for i in range(count)]
        require((got == want[0]) if single else (list(got) == want), "read_%s(%#x, %s, %s) returned %s, expected %s", name, a,
                count, kw, got, want)
    return name


def op_size(op):
    name = op["h"]
    if name == "bytes":
        return op["n"]
    if name == "byte":
        return 1
    stem = name.rstrip("s")
    ws = op["ws"] if stem == "word" and op["ws"] else WS[stem]
    return ws * (op["n"] if name.endswith("s") else 1)


HELPERS = ["bytes", "bytes", "bytes", "byte", "word", "words", "dword", "dwords", "qword", "qwords"]


@st.composite
def helper_strategy(draw, size, zero=True):
    op = {"h": draw(st.sampled_from(HELPERS)), "w": draw(st.booleans()), "bo": draw(st.sampled_from([None, "little", "big"])),
          "key": draw(gen.data_key), "ws": draw(st.sampled_from([None, None, 1, 2, 3, 5, 8, 16]))}
    op["n"] = draw(st.one_of(st.integers(0 if zero else 1, 12), st.integers(1, 100))) if op["h"].endswith("s") else 1
    if op["h"] == "bytes":
        op["n"] = draw(st.one_of(st.integers(0, 20), st.integers(0, 300), st.integers(4000, 9000)))
    op["w"] = int(op["w"])
    n = op_size(op)
    if n > size:
        op.update(h="bytes", n=min(op["n"], size))
        n = op["n"]
    room = size - max(n, 1)
    op["a"] = draw(st.one_of(st.integers(0, min(room, 64)), st.integers(0, room), st.just(room),
                             st.builds(lambda p, d: max(0, min(room, p * 4096 - d)), st.integers(1, max(1, min(4, size // 4096))),
                                       st.integers(0, 40))))
    return op


# ------------------------------------------------------------------ M01

SIZES = st.one_of(st.integers(16, 200), st.sampled_from([4096, 4095, 4097, 8192, 12288, 1 << 20, 1 << 32, (1 << 63) - 1, 1 << 63,
                                                         (1 << 63) + 8192, 1 << 64, 1 << 66]))


@st.composite
def mem_case(draw):
    kind = draw(st.sampled_from(["sparse", "memory", "memory_sparse", "memory_mmap", "memory_bytes", "region", "sregion",
                                 "default", "region_bytes", "sregion_default", "region_default"]))
    size = draw(SIZES)
    if kind in ("memory_mmap", "memory_bytes", "region", "region_bytes"):
        size = min(size, 20000)
    if kind in ("default", "sregion_default"):
        size = 1 << 64
    if kind == "region_default":
        size = 4096
    if kind == "sparse":
        hs = draw(st.lists(raw_op(size), min_size=1, max_size=14))
    else:
        hs = draw(st.lists(helper_strategy(size), min_size=1, max_size=14))
        for op in hs:
            if kind == "sparse":
                op["h"] = "bytes"
    return {"kind": kind, "size": size, "ops": hs, "idx": draw(st.lists(raw_op(size), max_size=5))}


@st.composite
def raw_op(draw, size):
    o = draw(st.sampled_from(["read", "write", "write", "get", "set", "getslice", "setslice", "clear", "readbad", "writebad",
                              "slicebad", "setbad"]))
    n = draw(st.one_of(st.integers(0, 20), st.integers(0, 300), st.integers(4000, 9000)))
    n = min(n, size)
    room = size - max(n, 1)
    a = draw(st.one_of(st.integers(0, min(room, 64)), st.integers(0, room), st.just(room),
                       st.builds(lambda p, d: max(0, min(room, p * 4096 - d)), st.integers(1, 4), st.integers(0, 40))))
    return {"o": o, "a": a, "n": n, "key": draw(gen.data_key), "x": draw(st.integers(1, 50))}


def run_raw(m, ref, op, size, region=False):
    o, a, n = op["o"], op["a"], op["n"]
    data = gen_bytes(op["key"], n)
    if op["key"] % 3 == 1:
        data = bytearray(data)
    idx = hasattr(m, "__getitem__")
    if o == "read" and not region:
        got = bytes(m.read(a, n))
        require(got == ref.read(a, n), "read(%#x, %d)", a, n)
    elif o == "write" and not region:
        m.write(a, data)
        ref.write(a, data)
    elif o == "get" and idx:
        require(m[a] == ref.read(a, 1)[0], "[%#x] is %s", a, m[a])
    elif o == "set" and idx:
        v = gen_int(op["key"], 8)
        m[a] = v
        ref.write(a, [v])
    elif o == "getslice" and idx:
        require(bytes(m[a:a + n]) == ref.read(a, n), "[%#x:%#x]", a, a + n)
    elif o == "setslice" and idx:
        m[a:a + n] = data
        ref.write(a, data)
    elif o == "clear" and hasattr(m, "clear") and not isinstance(m, bytearray):
        m.clear()
        ref.d.clear()
    elif isinstance(m, SparseMemory):
        if o == "readbad":
            for x, k in ((-op["x"], n), (size, 0), (size + op["x"], n), (a, size - a + op["x"]), (a, -op["x"])):
                expect_error(lambda: m.read(x, k), "read(%#x, %d) of %#x bytes" % (x, k, size), (ValueError,))
        elif o == "writebad":
            for x, k in ((-op["x"], n), (size, 1), (size + op["x"], n), (max(0, size - n), n + op["x"])):
                expect_error(lambda: m.write(x, gen_bytes(op["key"], k)), "write(%#x, %d) of %#x bytes" % (x, k, size), (ValueError,))
        elif o == "slicebad":
            expect_error(lambda: m[a:a + n:2], "step 2", (IndexError,))
            expect_error(lambda: m[a:a + n:-1], "step -1", (IndexError,))
        elif o == "setbad":
            def f():
                m[a:a + n] = gen_bytes(op["key"], n + op["x"])
            expect_error(f, "slice assignment of another size", (IndexError,))
    else:
        return None
    return o


def run_mem(case):
    size, kind = case["size"], case["kind"]
    ref = Mirror()
    labels = {kind}
    asy = kind in ("region", "sregion", "region_bytes", "sregion_default", "region_default")
    run1 = sync if asy else (lambda x: x)
    if kind == "sparse":
        m = SparseMemory(size)
        for op in case["ops"]:
            labels.add(run_raw(m, ref, op, size))
    else:
        m = {"memory": lambda: Memory(size), "memory_sparse": lambda: Memory(mem=SparseMemory(size)),
             "memory_mmap": lambda: Memory(mem=mmap.mmap(-1, size)), "memory_bytes": lambda: Memory(mem=bytearray(size)),
             "default": lambda: Memory(), "region": lambda: MemoryRegion(size), "sregion": lambda: SparseMemoryRegion(size),
             "region_bytes": lambda: MemoryRegion(size, mem=bytearray(size)), "sregion_default": lambda: SparseMemoryRegion(),
             "region_default": lambda: MemoryRegion()}[kind]()
        require(m.size == size, "size %d, expected %d", m.size, size)
        for op in case["ops"]:
            labels.add(helper_op(m, ref, op, 0, asy))
        for op in case["idx"]:
            tgt = m if asy else m.mem
            labels.add(run_raw(tgt, ref, op, size, region=asy or kind in ("memory_mmap", "memory_bytes")))
            if op["o"] in ("readbad", "writebad") and asy:
                for x, k in ((-op["x"], 1), (size, 1), (size + op["x"], 1), (size - 1, 1 + op["x"])):
                    if op["o"] == "readbad":
                        expect_error(lambda: run1(m.read(x, k)), "read(%#x, %d) of %#x bytes" % (x, k, size), (ValueError,))
                    else:
                        expect_error(lambda: run1(m.write(x, gen_bytes(op["key"], k))), "write(%#x, %d) of %#x bytes" % (x, k, size),
                                     (ValueError,))
                labels.add("out of bounds")
    labels.discard(None)
    # nothing else changed
    probe = set()
    for a in ref.d:
        probe.update((a - 1, a, a + 1))
    rd = (lambda a, n: bytes(sync(m.read(a, n)))) if asy else (lambda a, n: bytes(m.read(a, n)))
    if size <= 1 << 14:
        got = rd(0, size)
        require(got == ref.read(0, size), "contents differ at the end")
    else:
        for p in {a // 512 * 512 for a in probe if 0 <= a < size}:
            n = min(512, size - p)
            got = rd(p, n)
            require(got == ref.read(p, n), "contents at %#x differ at the end", p)
    if kind != "sparse":
        # a second user of the same storage sees, and makes, the same changes
        view = Memory(mem=m.mem) if size & 1 else SparseMemoryRegion(size, mem=m.mem) if isinstance(m.mem, SparseMemory) else MemoryRegion(size, mem=m.mem)
        require(view.size == size, "size of a second view is %d, expected %d", view.size, size)
        run2 = (lambda x: x) if size & 1 else sync
        for p in sorted(a for a in probe if 0 <= a < size)[:3] + [size - 1]:
            require(bytes(run2(view.read(p, 1))) == ref.read(p, 1), "byte %#x differs in a second view", p)
            v = ref.read(p, 1)[0] ^ 0x55
            run2(view.write(p, bytes([v])))
            ref.write(p, [v])
            require(bytes(run1(m.read(p, 1))) == ref.read(p, 1), "byte %#x written through a second view is not seen", p)
    crossing = any((op.get("a", 0) // 4096) != (op.get("a", 0) + op.get("n", 0)) // 4096 for op in case["ops"])
    if crossing:
        labels.add("crosses a 4 KB block")
    return len(case["ops"]) > 2, labels


# ------------------------------------------------------------------ M02: windows

class MyWindow(Window):
    pass


class OtherWindow(Window):
    pass


class MyWindowPool(WindowPool):
    pass


class MyRegion(MemoryRegion):
    pass


class MyPool(Pool):
    pass


HUGE = st.one_of(st.sampled_from([(1 << 32) + 1, 1 << 33, (1 << 63) - 1, 1 << 63, 1 << 64, (1 << 64) + 4096]),
                 st.builds(lambda k, d: (1 << k) + d, st.integers(33, 66), st.integers(-5000, 5000)))


@st.composite
def window_case(draw):
    size = draw(st.one_of(st.integers(64, 400), st.sampled_from([4096, 5000, 12288])))
    root = draw(st.sampled_from(["region", "sregion"]))
    if draw(st.integers(0, 5)) == 0:
        root, size = "sregion", draw(HUGE)
    nodes = []
    sizes = [size]
    for i in range(draw(st.integers(1, 5))):
        parent = draw(st.integers(0, len(sizes) - 1))
        psize = sizes[parent]
        off = draw(st.one_of(st.just(0), st.integers(0, psize - 1), st.integers(0, min(7, psize - 1))))
        kind = draw(st.sampled_from(["win", "win", "pool", "rest"]))
        sz = psize - off if kind == "rest" else draw(st.one_of(st.integers(1, psize - off), st.just(psize - off)))
        node = {"p": parent, "off": off, "size": sz, "kind": kind, "allocs": [], "types": draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 7]))}
        nodes.append(node)
        sizes.append(sz)
        if kind == "pool":
            for _ in range(draw(st.integers(1, 3))):
                node["allocs"].append(draw(st.integers(1, max(1, sz // 2))))
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        ops.append({"t": draw(st.integers(0, 30)), "bad": draw(st.sampled_from([None, None, None, "neg", "top", "over", "neglen"])),
                    "h": draw(helper_strategy(24)), "frac": draw(st.integers(0, 1000)), "x": draw(st.integers(0, 9))})
    return {"root": root, "size": size, "base": draw(st.sampled_from([0, 0, 4096, 123])), "nodes": nodes, "ops": ops,
            "badwin": draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from(["neg", "top", "over"]), st.integers(0, 9)), max_size=3))}


def run_window(case):
    size, rbase = case["size"], case["base"]
    cls = MemoryRegion if case["root"] == "region" else SparseMemoryRegion
    root = cls(size, base=rbase)
    ref = Mirror()
    wins = [(root, 0, size, None)]
    index = [0]
    labels = {case["root"]}
    for nd in case["nodes"]:
        pw, pabs, psize, _ = wins[index[nd["p"]]]
        # types are those asked for in the call, else those set for the object
        ty = nd["types"]
        kw = {}
        wtype, ptype = Window, WindowPool
        pw.window_type, pw.window_pool_type = Window, WindowPool
        if ty & 1:
            pw.window_type = wtype = MyWindow
            pw.window_pool_type = ptype = MyWindowPool
        if ty & 2:
            kw["window_type"] = wtype = OtherWindow
            labels.add("window type")
        if ty & 4 and nd["kind"] == "pool":
            kw["window_pool_type"] = ptype = MyWindowPool
        if nd["kind"] == "pool":
            if nd["off"] == 0 and ty & 1:
                w = pw.create_window_pool(**({} if nd["size"] == psize else {"size": nd["size"]}), **kw)
            elif nd["off"] + nd["size"] == psize:
                w = pw.create_window_pool(nd["off"], **kw)
            else:
                w = pw.create_window_pool(nd["off"], nd["size"], **kw)
            require(type(w) is ptype, "create_window_pool returned %r, expected a %s", w, ptype.__name__)
        else:
            if nd["kind"] == "rest":
                w = pw.create_window(nd["off"], *REST[nd["off"] % 4], **kw)
            else:
                w = pw.create_window(nd["off"], nd["size"], **kw)
            require(type(w) is wtype, "create_window returned %r, expected a %s", w, wtype.__name__)
        index.append(len(wins))
        wins.append((w, pabs + nd["off"], nd["size"], (pw, nd["off"])))
        live = []
        for sz in nd["allocs"]:
            try:
                a = w.alloc_window(sz, **({"window_type": MyWindow} if ty == 6 else {}))
            except Violation:
                raise
            except Exception:
                labels.add("pool exhausted")
                continue
            at = MyWindow if ty == 6 else wtype
            require(type(a) is at, "alloc_window returned %r, expected a %s", a, at.__name__)
            off = a.offset
            require(0 <= off and off + sz <= nd["size"], "allocated window [%d,%d) outside the pool of %d bytes", off, off + sz, nd["size"])
            for o2, s2 in live:
                require(off + sz <= o2 or o2 + s2 <= off, "allocated windows overlap")
            live.append((off, sz))
            wins.append((a, pabs + nd["off"] + off, sz, (w, off)))
            labels.add("allocated window")
    for w, ab, sz, par in wins:
        require(w.size == sz and (sz > sys.maxsize or len(w) == sz), "size of a window is %d, expected %d", w.size, sz)
        require(w.base == rbase + ab, "base of a window is %s, expected %d", w.base, rbase + ab)
        require(w.get_absolute_address(sz - 1) == rbase + ab + sz - 1, "absolute address of the last byte")
        expect_error(lambda: w.get_absolute_address(sz), "get_absolute_address past the end", (ValueError,))
        expect_error(lambda: w.get_absolute_address(-1), "get_absolute_address(-1)", (ValueError,))
        if par:
            require(w.parent is par[0] and w.offset == par[1], "parent or offset of a window")
            require(w.get_parent_address(sz - 1) == par[1] + sz - 1, "parent address")
            expect_error(lambda: w.get_parent_address(sz), "get_parent_address past the end", (ValueError,))
            expect_error(lambda: w.get_parent_address(-1), "get_parent_address(-1)", (ValueError,))
    if len(wins) > 2:
        labels.add("nested or several windows")
    for t, what, x in case["badwin"]:
        w, ab, sz, _ = wins[t % len(wins)]
        args = {"neg": (-1 - x, 1), "top": (sz + x, 1), "over": (sz // 2, sz - sz // 2 + 1 + x)}[what]
        expect_error(lambda: w.create_window(*args), "window %s of a region of %d bytes" % (args, sz), (ValueError,))
        expect_error(lambda: w.create_window_pool(*args), "pool %s of a region of %d bytes" % (args, sz), (ValueError,))
    for op in case["ops"]:
        w, ab, sz, par = wins[op["t"] % len(wins)]
        h = dict(op["h"])
        n = op_size(h)
        if op["bad"]:
            x = op["x"]
            a = {"neg": -1 - x, "top": sz + x, "over": sz - min(n, sz) + 1, "neglen": 0}[op["bad"]]
            nn = {"over": max(n, 1)}.get(op["bad"], n)
            data = gen_bytes(3, nn)
            if op["bad"] == "over" and nn > sz:
                a = 0
            if op["bad"] == "neglen":
                expect_error(lambda: sync(w.read(0, -1 - x)), "read of negative length", (ValueError,))
            else:
                expect_error(lambda: sync(w.read(a, nn)), "read(%d, %d) of %d bytes" % (a, nn, sz), (ValueError,))
                expect_error(lambda: sync(w.write(a, data)), "write(%d, %d) of %d bytes" % (a, nn, sz), (ValueError,))
            labels.add("out of bounds " + op["bad"])
            continue
        if n > sz:
            h.update(h="bytes", n=min(h["n"], sz))
            n = h["n"]
        h["a"] = (sz - max(n, 1)) * op["frac"] // 1000
        helper_op(w, ref, h, ab, True)
        labels.add("write" if h["w"] else "read")
    if size >= 1 << 30:
        require_same(lambda a, n: sync(root.read(a, n)), ref, size, "root memory")
        labels.add("huge")
        return len(wins) > 2, labels
    got = bytes(sync(root.read(0, size)))
    require(got == ref.read(0, size), "root memory differs: %s", [(i, got[i], ref.read(i, 1)[0]) for i in range(size)
                                                                  if got[i] != ref.read(i, 1)[0]][:5])
    return len(wins) > 2, labels


REST = [(), (None,), (0,), (-1,)]        # ways to leave out the size of a window


# ------------------------------------------------------------------ M03: address spaces

@st.composite
def space_case(draw):
    aw = draw(st.sampled_from([10, 12, 13, 16]))
    size = 1 << aw
    unit = draw(st.sampled_from([1, 16, 64, 256]))
    mems = draw(st.lists(st.tuples(st.sampled_from(["region", "sregion", "space"]), st.integers(1, 8)), min_size=1, max_size=4))
    regs = []
    pos = 0
    for _ in range(draw(st.integers(1, 6))):
        m = draw(st.integers(0, len(mems) - 1))
        gap = draw(st.sampled_from([0, 0, 0, 1, 2]))
        n = draw(st.integers(1, 4))
        regs.append({"m": m, "gap": gap, "n": n, "tr": draw(st.sampled_from(["zero", "zero", "off", "none", "auto"])), "o": draw(st.integers(0, 4))})
    order = draw(st.permutations(list(range(len(regs)))))
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        ops.append({"w": draw(st.integers(0, 1)), "at": draw(st.integers(0, 8)), "d": draw(st.integers(-20, 20)),
                    "n": draw(st.one_of(st.integers(0, 8), st.integers(0, 3 * unit + 5), st.integers(0, 12 * unit))), "key": draw(gen.data_key)})
    return {"aw": aw, "unit": unit, "mems": mems, "regs": regs, "order": order, "ops": ops, "base": draw(st.sampled_from([0, 0, 1 << 20])),
            "start": draw(st.sampled_from([0, 0, 1, 3])), "top": draw(st.integers(0, 4)) == 0,
            "dup": draw(st.lists(st.tuples(st.integers(0, 9), st.integers(-3, 3), st.integers(1, 3)), max_size=3)),
            "nest": draw(st.booleans())}


class Rec:
    """Counts and checks the accesses a mapped memory receives."""


def run_space(case):
    size = 1 << case["aw"]
    unit = case["unit"]
    space = AddressSpace(size, base=case["base"])
    top = space
    labels = set()
    objs = []
    for kind, n in case["mems"]:
        sz = n * unit
        if kind == "region":
            objs.append(("leaf", MemoryRegion(sz), sz))
        elif kind == "sregion":
            objs.append(("leaf", SparseMemoryRegion(sz), sz))
        else:
            objs.append(("space", AddressSpace(sz), sz))
    # plan the layout
    plan = []
    pos = case["start"] * unit
    for r in case["regs"]:
        kind, obj, osz = objs[r["m"]]
        base = pos + r["gap"] * unit
        if r["tr"] == "none":
            base = min(base, size)
            n = min(r["n"] * unit, osz - base, size - base)
            off = None
        elif r["tr"] == "off":
            off = min(r["o"] * unit, osz - 1)
            n = min(r["n"] * unit, osz - off, size - base)
        elif r["tr"] == "auto":
            off, n = 0, osz
            if base + n > size:
                continue
        else:
            off, n = 0, min(r["n"] * unit, osz, size - base)
        if n <= 0:
            continue
        plan.append((base, n, off, r["m"], r["tr"]))
        pos = base + n
    if case["top"] and plan and plan[-1][2] is not None:
        base, n, off, m, tr = plan[-1]
        plan[-1] = (size - n, n, off, m, tr)
    if not plan:
        return False, set()
    order = [i for i in case["order"] if i < len(plan)]
    mapping = []
    for i in order:
        base, n, off, m, tr = plan[i]
        obj = objs[m][1]
        kw = {}
        if tr != "auto":
            kw["size"] = n
        if off != 0 or tr == "off":
            kw["offset"] = off
        space.register_region(obj, base, **kw)
        require(obj.parent is space, "parent of a registered region")
        require(obj.base == (case["base"] + base if off == 0 else None), "base of a region is %s", obj.base)
        mapping.append((base, n, off, m))
    regions = sorted((b, n, off, m) for b, n, off, m in mapping)
    for op in case["ops"]:
        b, n, _, _ = mapping[op["at"] % len(mapping)]
        a = b + (op["d"] if op["d"] < 10 else n - 20 + op["d"])
        for ln in (None, op["n"]):
            if not 0 <= a < size:
                expect_error(lambda: space.find_regions(a, ln or 1), "find_regions(%#x) in a space of %#x bytes" % (a, size), (ValueError,))
                continue
            got = space.find_regions(a) if ln is None else space.find_regions(a, ln)
            want = [r for r in regions if r[0] < a + max(ln or 1, 1) and a < r[0] + r[1]]
            require([(x[0], x[1], x[2]) for x in got] == [x[:3] for x in want] and all(x[3] is objs[y[3]][1] for x, y in zip(got, want)),
                    "find_regions(%#x, %s) returned %s, expected %s", a, ln, got, want)
    # overlapping registrations are refused
    for i, d, n in case["dup"]:
        base, sz, _, _ = mapping[i % len(mapping)]
        b = base + d
        if not 0 <= b < size or not any(b < b2 + s2 and b2 < b + n for b2, s2, _, _ in mapping):
            continue
        extra = MemoryRegion(4096)
        before = list(space.find_regions(0, size))
        expect_error(lambda: space.register_region(extra, b, n), "overlapping region at %#x+%d" % (b, n), (ValueError,))
        require(list(space.find_regions(0, size)) == before, "a refused registration changed the map")
        labels.add("overlap refused")
    # nested spaces get a backing memory after they were registered
    ref = Mirror()
    back = {}
    for m, (kind, obj, osz) in enumerate(objs):
        if kind == "space":
            leaf = MemoryRegion(osz)
            hole = osz // 2 if case["nest"] and osz >= 2 else None
            if hole:
                obj.register_region(leaf, 0, hole)
            else:
                obj.register_region(leaf, 0)
            back[m] = (leaf, hole if hole else osz)
            labels.add("nested address space")
        else:
            back[m] = (obj, osz)

    def locate(a):
        for base, n, off, m in mapping:
            if base <= a < base + n:
                ra = a if off is None else a - base + off
                if ra < back[m][1]:
                    return (m, ra)
                return None
        return None

    shadow = [bytearray(osz) for _, _, osz in objs]

    def check_all(maybe=()):
        for m, (leaf, avail) in back.items():
            got = bytes(sync(leaf.read(0, leaf.size)))
            for i in range(leaf.size):
                if got[i] != shadow[m][i]:
                    alt = [v for (mm, ra, v) in maybe if mm == m and ra == i]
                    require(got[i] in alt, "byte %d of memory %d is %#x, expected %#x", i, m, got[i], shadow[m][i])
                    shadow[m][i] = got[i]

    for m, (leaf, avail) in back.items():
        init = gen_bytes(77 + m, leaf.size)
        sync(leaf.write(0, init))
        shadow[m][:] = init

    nt = False
    for op in case["ops"]:
        base, n, _, _ = mapping[op["at"] % len(mapping)]
        a = base + (op["d"] if op["d"] < 10 else n - 20 + op["d"])
        ln = op["n"]
        inside = 0 <= a < size
        loc = [locate(a + i) for i in range(ln)] if inside else [None]
        ok = inside and all(x is not None for x in loc)
        if ln == 0:
            # an empty access is fine in a mapped place
            ok = inside and locate(a) is not None
            if not ok and inside and any(b <= a < b + nn for b, nn, _, _ in mapping):
                continue
        if op["w"]:
            data = gen_bytes(op["key"], ln)
            if ok:
                sync(space.write(a, data))
                for x, v in zip(loc, data):
                    shadow[x[0]][x[1]] = v
                check_all()
            else:
                expect_error(lambda: sync(space.write(a, data)), "write(%#x, %d) with unmapped bytes" % (a, ln))
                maybe = []
                for x, v in zip(loc, data):
                    if x is None:
                        break
                    maybe.append((x[0], x[1], v))
                # a prefix up to the first unmapped byte may have been written
                check_all(maybe)
        else:
            if ok:
                got = sync(space.read(a, ln))
                want = bytes(shadow[x[0]][x[1]] for x in loc)
                require(bytes(got) == want, "read(%#x, %d) returned %s, expected %s", a, ln, bytes(got).hex()[:60], want.hex()[:60])
            else:
                expect_error(lambda: sync(space.read(a, ln)), "read(%#x, %d) with unmapped bytes" % (a, ln))
            check_all()
        if not ok:
            labels.add("unmapped access refused" if inside else "address outside the space refused")
            nt = True
        elif len({next(i for i, (b, nn, _, _) in enumerate(mapping) if b <= a + j < b + nn) for j in range(ln)}) > 1:
            labels.add("access spans regions")
            nt = True
    for _, _, off, _ in mapping:
        labels.add("identity" if off is None else "translated" if off else "offset 0")
    return nt, labels


@st.composite
def huge_case(draw):
    size = draw(HUGE)
    near = st.builds(lambda k, d: (1 << k) + d, st.integers(12, 66), st.integers(-40, 40))
    cuts = draw(st.lists(st.one_of(near, near, st.integers(0, size)), min_size=1, max_size=7))
    cuts = sorted({c for c in cuts if 0 <= c <= size} | {draw(st.sampled_from([0, 0, 100, size // 3])), size})
    regs = []
    for lo, hi in zip(cuts, cuts[1:]):
        regs.append({"lo": lo, "n": hi - lo if draw(st.integers(0, 3)) else draw(st.integers(1, hi - lo)), "m": draw(st.integers(0, 2)),
                     "off": draw(st.one_of(st.just(0), st.none(), near, st.integers(0, 1 << 66))), "use": draw(st.integers(0, 4)) > 0})
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        ops.append({"w": draw(st.integers(0, 2)), "at": draw(st.integers(0, 8)), "pos": draw(st.sampled_from(["lo", "hi", "hi", "mid"])),
                    "d": draw(st.integers(-30, 30)), "frac": draw(st.integers(0, 1 << 20)),
                    "n": draw(st.sampled_from([70000, 140000])) if draw(st.integers(0, 40)) == 40 else draw(st.one_of(st.integers(1, 40), st.integers(1, 40), st.integers(4000, 9000))), "key": draw(gen.data_key)})
    return {"size": size, "regs": regs, "ops": ops, "order": draw(st.permutations(list(range(len(regs))))), "base": draw(st.sampled_from([0, 0, 1 << 40]))}


def run_huge(case):
    size, regs = case["size"], case["regs"]
    space = AddressSpace(size, base=case["base"])
    top = 1 << 68
    inner = AddressSpace(top)
    leaf = SparseMemoryRegion(top)
    inner.register_region(leaf, 0)
    mems = [SparseMemoryRegion(top), SparseMemoryRegion(top), leaf]
    objs = [mems[0], mems[1], inner]
    refs = [Mirror() for _ in mems]
    mapping = []
    for i in case["order"]:
        g = regs[i]
        if g["use"]:
            space.register_region(objs[g["m"]], g["lo"], g["n"], g["off"])
            mapping.append(g)
    if not mapping:
        expect_error(lambda: sync(space.read(0, 1)), "read of an empty address space")
        return False, set()
    mapping.sort(key=lambda g: g["lo"])
    labels = set()
    nt = False

    def locate(a):
        for g in mapping:
            if g["lo"] <= a < g["lo"] + g["n"]:
                return g["m"], (a if g["off"] is None else a - g["lo"] + g["off"])
        return None

    for op in case["ops"]:
        g = mapping[op["at"] % len(mapping)]
        a = {"lo": g["lo"], "hi": g["lo"] + g["n"], "mid": g["lo"] + g["n"] * op["frac"] // (1 << 20)}[op["pos"]] + op["d"]
        n = op["n"]
        loc = [locate(a + i) if 0 <= a + i < size else None for i in range(n)]
        ok = all(x is not None for x in loc)
        if not ok:
            data = gen_bytes(op["key"], n)
            if op["w"] != 1 or (a >= 0 and loc[0] is not None):
                # a write may have stored the bytes up to the hole: only reads are made here
                expect_error(lambda: sync(space.read(a, n)), "read(%#x, %d) with unmapped bytes" % (a, n))
            else:
                expect_error(lambda: sync(space.write(a, data)), "write(%#x, %d) with unmapped bytes" % (a, n))
            labels.add("unmapped access refused")
            nt = True
        elif op["w"]:
            data = gen_bytes(op["key"], n)
            # two regions may show the same memory: in ascending order of addresses
            sync(space.write(a, data))
            for (m, x), v in zip(loc, data):
                refs[m].write(x, [v])
        else:
            got, want = bytes(sync(space.read(a, n))), bytes(refs[m].read(x, 1)[0] for m, x in loc)
            require(got == want, "read(%#x, %d) returned %s, expected %s", a, n, got.hex()[:60], want.hex()[:60])
        if ok and len({id(h) for h in mapping for i in (0, n - 1) if h["lo"] <= a + i < h["lo"] + h["n"]}) > 1:
            labels.add("access spans regions")
            nt = True
    for m, ref in zip(mems, refs):
        require_same(lambda a, n: sync(m.read(a, n)), ref, top, "memory behind the space")
    return nt, labels


# ------------------------------------------------------------------ M04: allocator and pools

@st.composite
def buddy_case(draw):
    size = draw(st.one_of(st.integers(1, 40), st.integers(1, 300), st.sampled_from([64, 1024, 4096, 4095, 4097, 3000, 65536, 1 << 32]), HUGE))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("a"), st.one_of(st.integers(1, min(size, 9)), st.integers(1, size),
                                          st.builds(lambda k: min(size, 1 << k), st.integers(0, 16)),
                                          st.builds(lambda k, d: max(1, min(size, (size >> k) + d)), st.integers(0, 6), st.integers(-1, 1)))),
        st.tuples(st.just("f"), st.integers(0, 20)),
        st.tuples(st.just("f"), st.integers(0, 20)),
        st.tuples(st.just("x"), st.integers(-2, 3))), min_size=1, max_size=30))
    return {"size": size, "min": draw(st.sampled_from([1, 1, 1, 2, 4, 3, 16])), "ops": ops}


def run_buddy(case):
    size, mn = case["size"], case["min"]
    b = BuddyAllocator(size, mn) if mn != 1 else BuddyAllocator(size)
    live = []          # (addr, block)
    labels = set()
    fails = allocs = frees = 0

    def free_block(blk):
        """Is there a naturally aligned unused block of that size?"""
        if blk > size:
            return False
        pos = 0
        for a, n in sorted(live) + [(size, 0)]:
            if -(-pos // blk) * blk + blk <= a:
                return True
            pos = a + n
        return False

    for o, v in case["ops"]:
        if o == "a":
            blk = 1 << (max(v, mn) - 1).bit_length()
            can = free_block(blk)
            try:
                a = b.alloc(v)
            except Violation:
                raise
            except Exception as e:
                require(not can, "alloc(%d) failed although an aligned block of %d bytes is free: %s", v, blk, live)
                fails += 1
                continue
            require(isinstance(a, int) and 0 <= a and a + v <= size, "alloc(%d) returned %s in a space of %d", v, a, size)
            require(a % blk == 0, "alloc(%d) returned %#x, not aligned to %d", v, a, blk)
            for a2, s2 in live:
                require(a + v <= a2 or a2 + s2 <= a, "alloc(%d) returned %#x, which overlaps the live allocation at %#x+%d", v, a, a2, s2)
            live.append((a, blk))
            allocs += 1
        elif o == "f":
            if live:
                a, _ = live.pop(v % len(live))
                b.free(a)
                frees += 1
                if v % 3 == 0:
                    expect_error(lambda: b.free(a), "second free of %#x" % a, (ValueError,))
        else:
            bad = {-2: -1, -1: 0, 0: size + 1, 1: size + 17}.get(v)
            if bad is not None:
                expect_error(lambda: b.alloc(bad), "alloc(%d) from %d" % (bad, size), (ValueError,))
            else:
                free = [x for x in range(min(size, 64) + 2) if x not in [a for a, _ in live]]
                if free:
                    expect_error(lambda: b.free(free[v % len(free)]), "free of an address never allocated", (ValueError,))
            labels.add("invalid request")
    for a, _ in live:
        b.free(a)
    live.clear()
    # everything is free again: the largest aligned block can be had
    big = 1 << (size.bit_length() - 1)
    if big >= mn:
        a = b.alloc(big)
        require(0 <= a and a + big <= size, "after freeing everything alloc(%d) returned %s", big, a)
    if fails:
        labels.add("exhausted")
    if size >= 1 << 33:
        labels.add("huge")
    if size & (size - 1):
        labels.add("size not a power of two")
    if frees:
        labels.add("freed and reused")
    return allocs >= 2 and frees >= 1, labels


@st.composite
def pool_case(draw):
    return {"aw": draw(st.sampled_from([13, 14, 16])), "base": draw(st.sampled_from([None, 0, 4096, 100])),
            "size": draw(st.sampled_from([None, 4096, 3000, 4095])), "sub": draw(st.booleans()),
            "allocs": draw(st.lists(st.tuples(st.one_of(st.integers(1, 64), st.integers(1, 2000)), st.sampled_from(["def", "sregion", "region"])),
                                    min_size=1, max_size=8)),
            "sbase": draw(st.sampled_from([0, 0, 1 << 24])), "types": draw(st.integers(0, 7))}


def run_pool(case):
    size = 1 << case["aw"]
    require(AddressSpace().size == 1 << 64, "default size of an address space")
    space = AddressSpace(size, base=case["sbase"])
    # types are those asked for in the call, else those set for the object
    kw = {}
    ptype, rtype = Pool, MemoryRegion
    if case["types"] & 1:
        space.pool_type = ptype = MyPool
    if case["types"] & 2:
        kw["pool_type"] = ptype = MyPool
    if case["types"] & 4:
        kw["region_type"] = rtype = MyRegion
    pool = space.create_pool(case["base"], case["size"], **kw)
    require(type(pool) is ptype, "create_pool returned %r, expected a %s", pool, ptype.__name__)
    pbase = case["base"] or 0
    psize = case["size"] if case["size"] is not None else size - pbase
    require(pool.size == psize and pool.base == case["sbase"] + pbase, "pool is %s+%s", pool.base, pool.size)
    live, labels = [], set()
    for k, (n, kind) in enumerate(case["allocs"]):
        kw = {} if kind == "def" else {"region_type": SparseMemoryRegion if kind == "sregion" else MemoryRegion}
        try:
            r = pool.alloc_region(n, **kw)
        except Violation:
            raise
        except Exception:
            labels.add("exhausted")
            continue
        want = rtype if kind == "def" else SparseMemoryRegion if kind == "sregion" else MemoryRegion
        require(type(r) is want, "alloc_region returned %r, expected a %s", r, want.__name__)
        require(r.size == n, "allocated region of %d bytes has size %d", n, r.size)
        ab = r.get_absolute_address(0) - case["sbase"]
        require(pbase <= ab and ab + n <= pbase + psize, "allocated region [%#x,%#x) outside the pool", ab, ab + n)
        for a2, n2, _, _ in live:
            require(ab + n <= a2 or a2 + n2 <= ab, "allocated regions overlap")
        live.append((ab, n, r, k))
    for ab, n, r, k in live:
        if k % 2:
            sync(space.write(ab, gen_bytes(100 + k, n)))
        else:
            sync(r.write(0, gen_bytes(100 + k, n)))
    for ab, n, r, k in live:
        e = gen_bytes(100 + k, n)
        require(bytes(sync(r.read(0, n))) == e, "region %d lost its contents", k)
        require(bytes(sync(space.read(ab, n))) == e, "region %d seen through the address space differs", k)
        require(bytes(sync(pool.read(ab - pbase, n))) == e, "region %d seen through the pool differs", k)
    return len(live) >= 2, labels


# ------------------------------------------------------------------ M05: peripherals

class Fault(Exception):
    pass


class Lazy:
    """An awaitable that is no coroutine; the work is done when it is awaited."""

    def __init__(self, fn):
        self.fn = fn

    def __await__(self):
        return self.fn()
        yield


class Periph:
    """mode: 0 plain, 1 coroutines, 2 other awaitables, 3 plain read and async write, 4 the reverse"""

    def __init__(self, mode, size, wrap=bytes, ret=None):
        self.how = {0: "pp", 1: "cc", 2: "aa", 3: "pc", 4: "cp"}[mode]
        self.log = []
        self.data = bytearray(gen_bytes(5, size))
        self.wrap, self.ret = wrap, ret
        self.fail = False

    def _rd(self, a, n, kw):
        self.log.append(("r", a, n, kw))
        if self.fail:
            raise Fault("read")
        return self.wrap(bytes(self.data[a:a + n]))

    def _wr(self, a, d, kw):
        self.log.append(("w", a, bytes(d), kw))
        if self.fail:
            raise Fault("write")
        self.data[a:a + len(d)] = d
        return self.ret

    def _run(self, how, fn):
        if how == "p":
            return fn()
        if how == "a":
            return Lazy(fn)

        async def f():
            return fn()
        return f()

    def read(self, address, length, **kw):
        return self._run(self.how[0], lambda: self._rd(address, length, kw))

    def write(self, address, data, **kw):
        return self._run(self.how[1], lambda: self._wr(address, data, kw))


@st.composite
def periph_case(draw):
    size = draw(st.sampled_from([16, 64, 100]*10 + [9000, 70016]))
    n = draw(st.integers(1, 8 if size < 1000 else 3))
    ops = [draw(helper_strategy(size, zero=False)) for _ in range(n)]
    if size > 1000:
        for op in ops:
            op.update(h="bytes", n=draw(st.one_of(st.sampled_from([255, 256, 1024, 4095, 4096, 4097, 8192, 65535, 65536, 65537]), st.integers(1, size))))
    return {"size": size, "mode": draw(st.integers(0, 4)), "via": draw(st.sampled_from(["direct", "window", "space", "space_off"])),
            "kw": draw(st.booleans()), "ops": ops,
            "ex": [draw(st.sampled_from(["", "", "", "", "fail", "neg", "past", "over", "hole"])) for _ in range(n)],
            "wrap": draw(st.sampled_from([0, 0, 1, 2])), "ret": draw(st.sampled_from([None, None, 5, True]))}


def run_periph(case):
    size = case["size"]
    p = Periph(case["mode"], size, (bytes, bytearray, memoryview)[case["wrap"]], case["ret"])
    reg = PeripheralRegion(p, size)
    via = case["via"]
    off = 0
    if via == "direct":
        tgt, end = reg, size
    elif via == "window":
        off = 5
        tgt, end = reg.create_window(5, size - 5), size - 5
    else:
        tgt, end = AddressSpace(1 << 18), 1 << 18
        tgt.register_region(reg, 4096, size if via == "space" else size - 8, offset=0 if via == "space" else 8)
        off = 8 if via == "space_off" else 0
    lo = 4096 if via.startswith("space") else 0
    room = size - off
    count = 0
    labels = {"large accesses"} if size > 1000 else set()
    labels |= {via, {0: "plain object", 1: "coroutines", 2: "awaitables"}.get(case["mode"], "mixed object")}
    ref = Mirror()
    ref.write(0, p.data)
    for op, what in zip(case["ops"], case["ex"]):
        h = dict(op)
        n = op_size(h)
        if n > room:
            h.update(h="bytes", n=min(h["n"], room))
            n = h["n"]
        if n == 0:
            h["n"] = n = 1
            h["h"] = "bytes"
        h["a"] = min(h["a"], room - n) + lo
        before = list(p.log)
        ex = {"tag": count} if case["kw"] else {}
        count += 1
        if what in ("neg", "past", "over", "hole"):
            if what == "hole" and not via.startswith("space"):
                continue
            h["a"] = {"neg": -1 - h["a"] % 5, "past": end + h["a"] % 3, "over": end - n + 1, "hole": 4096 - n - h["a"] % 9}[what]
            expect_error(lambda: helper_op(tgt, Mirror(), h, 0, True, ex), "access to %d bytes at %d" % (n, h["a"]))
            require(p.log == before, "a refused access (%s) reached the peripheral: %s", what, p.log[len(before):])
            labels.add("refused access")
            continue
        p.fail = what == "fail"
        if p.fail:
            try:
                helper_op(tgt, Mirror(), h, 0, True, ex)
            except Fault as e:
                require(str(e) == ("write" if h["w"] else "read"), "other exception")
            else:
                raise Violation("the exception of the peripheral did not reach the caller")
            labels.add("raising object")
        else:
            helper_op(tgt, ref, h, off - lo, True, ex)
        require(len(p.log) == len(before) + 1, "one %s was %d accesses of the peripheral", "write" if h["w"] else "read",
                len(p.log) - len(before))
        rec = p.log[-1]
        require(rec[0] == ("w" if h["w"] else "r") and rec[1] == h["a"] - lo + off, "peripheral access %s for %s", rec[:2], h)
        require(rec[3] == ex, "keyword arguments %s reached the peripheral as %s (%s)", ex, rec[3], h["h"])
        require((len(rec[2]) if h["w"] else rec[2]) == n, "peripheral access of another length: %s", rec)
        if h["w"] and not p.fail:
            require(rec[2] == ref.read(rec[1], n), "peripheral received other data")
        require(bytes(p.data) == ref.read(0, size), "the peripheral holds other data")
    return len(case["ops"]) > 1, labels


# ------------------------------------------------------------------ M06: hexdump

@st.composite
def dump_case(draw):
    n = draw(st.one_of(st.integers(0, 70), st.integers(0, 400)))
    return {"n": n, "key": draw(st.integers(0, 1 << 20)), "a": draw(st.one_of(st.integers(0, 40), st.integers(4000, 4200))),
            "prefix": draw(st.sampled_from(["", "", "> ", "x: "])),
            "how": draw(st.sampled_from(["util", "util", "sparse", "memory", "region", "sregion", "mmap"])),
            "start": draw(st.integers(0, 20)), "length": draw(st.one_of(st.none(), st.integers(0, 100))),
            "row": draw(st.sampled_from([None, 16, 8, 4, 1, 32, 7])), "offset": draw(st.one_of(st.just(0), st.integers(0, 1 << 33)))}


def parse_dump(lines, prefix, row, first):
    out = bytearray()
    at = first
    for i, ln in enumerate(lines):
        require(ln.startswith(prefix), "line %d lacks the prefix", i)
        ln = ln[len(prefix):]
        addr, rest = ln.split(":", 1)
        require(int(addr, 16) == at and len(addr) >= 8, "line %d is labelled %s, expected %08x", i, addr, at)
        hexpart = rest[1:1 + 3 * row]
        text = rest[1 + 3 * row + 1:]
        vals = [int(x, 16) for x in hexpart.split()]
        require(all(len(x) == 2 for x in hexpart.split()), "line %d: %r", i, hexpart)
        require(len(vals) == row or i == len(lines) - 1, "line %d holds %d bytes", i, len(vals))
        require(1 <= len(vals) <= row and len(text) == len(vals), "line %d: %d bytes, %d characters", i, len(vals), len(text))
        for v, c in zip(vals, text):
            require(c == (chr(v) if 32 < v < 127 else "."), "line %d: byte %#x shown as %r", i, v, c)
        out += bytes(vals)
        at += row
    return bytes(out)


def run_dump(case):
    n, a, prefix = case["n"], case["a"], case["prefix"]
    data = gen_bytes(case["key"] + 2, n)
    how = case["how"]
    row = 16
    if how == "util":
        kw = {"prefix": prefix, "offset": case["offset"], "start": case["start"], "length": case["length"]}
        if case["row"]:
            kw["row_size"] = row = case["row"]
        stop = n if case["length"] is None else min(n, case["start"] + case["length"])
        want = data[case["start"]:stop]
        first = case["offset"] + case["start"]
        lines, text = hexdump_lines(data, **kw), hexdump_str(data, **kw)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            hexdump(data, **kw)
    else:
        size = 8192
        m = {"sparse": lambda: SparseMemory(size), "memory": lambda: Memory(size), "mmap": lambda: Memory(mem=mmap.mmap(-1, size)),
             "region": lambda: MemoryRegion(size), "sregion": lambda: SparseMemoryRegion(size)}[how]()
        if how in ("region", "sregion"):
            sync(m.write(a, data))
        else:
            m.write(a, data)
        want, first = data, a
        kw = {"prefix": prefix} if prefix else {}
        lines, text = m.hexdump_lines(a, n, **kw), m.hexdump_str(a, n, **kw)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            m.hexdump(a, n, **kw)
        now = m.read(max(a - 40, 0), n + 80)
        now = bytes(sync(now) if how in ("region", "sregion") else now)
        require(now == bytes(min(a, 40)) + data + bytes(n + 80 - n - min(a, 40)), "a dump changed the memory")
    require(parse_dump(lines, prefix, row, first) == want, "dump shows other bytes")
    require(len(lines) == (len(want) + row - 1) // row, "%d lines for %d bytes", len(lines), len(want))
    require(text == "\n".join(lines), "hexdump_str differs from hexdump_lines")
    require(buf.getvalue().splitlines() == list(lines), "hexdump prints something else than hexdump_lines")
    return len(want) > row, {how, "partial last line" if len(want) % row else "full lines"}


CHECKS = [
    Check("M01", "1-14 byte/word/dword/qword/index/slice operations (sizes up to 2^66, 4 KB-block biased addresses, both byte orders) on "
          "every memory class, mirrored on a byte map; non-trivial: at least three operations",
          [Part("mem", mem_case, run_mem, 6000, 250000)]),
    Check("M02", "trees of windows and window pools over a memory, operations in and out of bounds through random nodes, mirrored on one "
          "flat byte map; non-trivial: at least two windows",
          [Part("win", window_case, run_window, 6000, 250000)]),
    Check("M03", "address spaces of up to 6 regions (abutting, gaps, translated, identity-mapped, nested, overlapping requests), reads and "
          "writes around region edges, and spaces of up to 2^66 bytes; non-trivial: an access spans regions or had to be refused",
          [Part("space", space_case, run_space, 6000, 250000), Part("huge", huge_case, run_huge, 1500, 60000)]),
    Check("M04", "1-30 alloc/free/invalid requests on spaces of any size, judged against the set of live blocks; and pools of regions; "
          "non-trivial: two allocations and a free (buddy), two live regions (pool)",
          [Part("buddy", buddy_case, run_buddy, 8000, 300000), Part("pool", pool_case, run_pool, 1500, 50000)]),
    Check("M05", "1-8 operations, some refused or failing, on a recording peripheral (plain, coroutines, other awaitables, mixed) directly, through a window or through an address space; "
          "non-trivial: at least two operations",
          [Part("periph", periph_case, run_periph, 4000, 150000)]),
    Check("M06", "dumps of random data through every hexdump entry point, parsed back; non-trivial: more than one line",
          [Part("dump", dump_case, run_dump, 5000, 150000)]),
]
