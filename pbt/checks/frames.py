"""X04: AXI stream frame objects."""

import copy

from hypothesis import strategies as st

from .. import sim as _sim      # noqa: F401
from ..core import Check, Part, require

from cocotbext.axi import AxiStreamFrame

FIELDS = ("tid", "tdest", "tuser")


def side(n):
    v = st.integers(0, 3)
    return st.one_of(st.none(), v, st.booleans(), st.lists(v, max_size=n + 3), st.just([]),
                     st.integers(0, 3).map(lambda x: [x] * n))


@st.composite
def frame_spec(draw, n=None):
    n = draw(st.integers(0, 9)) if n is None else n
    kind = draw(st.sampled_from(["bytes", "bytearray", "list"]))
    f = {"kind": kind, "tdata": draw(st.lists(st.integers(0, 255) if kind != "list" else st.integers(0, 70000), min_size=n, max_size=n)),
         "tkeep": draw(st.one_of(st.none(), st.just([]), st.lists(st.integers(0, 1), min_size=n, max_size=n),
                                 st.lists(st.integers(0, 1), min_size=0, max_size=n + 3)))}
    for s in FIELDS:
        f[s] = draw(side(n))
    return f


def make(spec):
    d = {"bytes": bytes, "bytearray": bytearray, "list": list}[spec["kind"]](spec["tdata"])
    return AxiStreamFrame(d, *(copy.deepcopy(spec[k]) for k in ("tkeep",) + FIELDS))


def norm(v, n, default):
    """n values: a scalar is repeated, a short list extended with its last value, a long one cut."""
    if v is None or v == []:
        return [default] * n
    if isinstance(v, (int, bool)):
        return [v] * n
    return [v[min(i, len(v) - 1)] for i in range(n)]


def snapshot(f):
    return (list(f.tdata), type(f.tdata)) + tuple(copy.deepcopy(getattr(f, k)) for k in ("tkeep",) + FIELDS)


def cons(v):
    if isinstance(v, list):
        if not v:
            return None
        if all(x == v[0] for x in v):
            return v[0]
    return v


def eq_model(a, b):
    if a["kind"] == "list" and b["kind"] == "list" or a["kind"] != "list" and b["kind"] != "list":
        if a["tdata"] != b["tdata"]:
            return False
    else:
        return False
    if a["tkeep"] is not None and b["tkeep"] is not None and a["tkeep"] != b["tkeep"]:
        return False
    for s in FIELDS:
        x, y = a[s], b[s]
        if x is None or y is None:
            continue
        if isinstance(x, list) == isinstance(y, list):
            if x != y:
                return False
        else:
            lst, sc = (x, y) if isinstance(x, list) else (y, x)
            if any(v != sc for v in lst):
                return False
    return True


@st.composite
def algebra_case(draw):
    a = draw(frame_spec())
    b = copy.deepcopy(a)
    how = draw(st.sampled_from(["same", "field", "field", "field", "other"]))
    if how == "field":
        k = draw(st.sampled_from(["tdata", "tkeep", "tid", "tdest", "tuser", "tid", "tdest", "tuser"]))
        n = len(a["tdata"])
        if k == "tdata":
            if n:
                i = draw(st.integers(0, n - 1))
                b["tdata"][i] ^= 1
            else:
                b["tdata"] = [1]
        elif k == "tkeep":
            b["tkeep"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 1), min_size=n, max_size=n)))
        else:
            v = a[k]
            b[k] = draw(st.one_of(side(n), st.just(v[0]) if isinstance(v, list) and v else st.just([v] * n if v is not None else None)))
    elif how == "other":
        b = draw(frame_spec(len(a["tdata"])))
    return {"a": a, "b": b}


def run_algebra(case):
    a, b = case["a"], case["b"]
    n = len(a["tdata"])
    labels = set()
    fa, fb = make(a), make(b)
    # construction
    require(list(fa.tdata) == a["tdata"] and len(fa) == n and list(fa) == a["tdata"], "data of a new frame is %r", fa.tdata)
    if a["kind"] != "list":
        require(bytes(fa) == bytes(a["tdata"]), "bytes(frame)")
        src = bytearray(a["tdata"])
        f2 = AxiStreamFrame(src)
        for i in range(n):
            src[i] ^= 0xff
        require(list(f2.tdata) == a["tdata"], "frame follows changes of the caller's buffer")
    else:
        src = list(a["tdata"])
        f2 = AxiStreamFrame(src)
        src.append(1)
        require(list(f2.tdata) == a["tdata"], "frame follows changes of the caller's list")
    # equality
    want = eq_model(a, b)
    require((fa == fb) == want and (fb == fa) == want, "frames compare %s/%s, expected %s:\n %r\n %r", fa == fb, fb == fa, want, fa, fb)
    require(fa == make(a), "a frame differs from itself")
    require((fa == bytes(8)) is False and (fa == 3) is False, "frame equals something that is not a frame")
    labels.add("equal" if want else "different")
    # copying
    done = []
    fa.sim_time_start, fa.sim_time_end = 5, 9
    fa.tx_complete = done.append
    fc = AxiStreamFrame(fa)
    require(snapshot(fc) == snapshot(fa), "copy %r of %r", fc, fa)
    require(fc.sim_time_start == 5 and fc.sim_time_end == 9 and fc.tx_complete == fa.tx_complete, "copy lost its attributes")
    fc.handle_tx_complete()
    require(done == [fc], "completion callback called with %r", done)
    other = []
    fo = AxiStreamFrame(fa, tx_complete=other.append)
    fo.handle_tx_complete()
    require(len(other) == 1 and len(done) == 1, "tx_complete argument ignored")
    before = snapshot(fa)
    fd = AxiStreamFrame(fa)
    if not a["tkeep"] or len(a["tkeep"]) >= n:
        fd.compact()
    require(snapshot(fa) == before, "compacting a copy changed the original")
    fd = AxiStreamFrame(fa)
    for k in ("tdata", "tkeep") + FIELDS:
        v = getattr(fd, k)
        if isinstance(v, (list, bytearray)):
            v.append(3)
    require(snapshot(fa) == before, "changing the lists of a copy changed the original")
    fc.normalize()
    for k in ("tkeep",) + FIELDS:
        getattr(fc, k).append(99)
    fc.tdata.append(1)
    require(snapshot(fa) == before, "changing a copy changed the original")
    # normalisation
    f = make(a)
    f.normalize()
    require(list(f.tdata) == a["tdata"], "normalize() changed the data")
    tk = norm(a["tkeep"], n, 1)
    require(list(f.tkeep) == tk, "normalize(): tkeep %s, expected %s", f.tkeep, tk)
    for s in FIELDS:
        w = norm(a[s], n, 0)
        require(list(getattr(f, s)) == w, "normalize(): %s %s, expected %s (was %s)", s, getattr(f, s), w, a[s])
    once = snapshot(f)
    f.normalize()
    require(snapshot(f) == once, "normalize() twice differs from once")
    # compaction of the normalised frame
    f.compact()
    idx = [i for i in range(n) if tk[i]]
    require(list(f.tdata) == [a["tdata"][i] for i in idx], "compact() kept %s of %s with tkeep %s", list(f.tdata), a["tdata"], tk)
    require(f.tkeep is None, "compact() left tkeep")
    for s in FIELDS:
        w = cons([norm(a[s], n, 0)[i] for i in idx])
        require(getattr(f, s) == w and isinstance(getattr(f, s), list) == isinstance(w, list), "compact(): %s %s, expected %s", s,
                getattr(f, s), w)
    once = snapshot(f)
    f.compact()
    require(snapshot(f) == once, "compact() twice differs from once")
    # compaction of a frame that was never normalised
    if a["tkeep"] is None or len(a["tkeep"]) == n or a["tkeep"] == []:
        f = make(a)
        f.compact()
        tk = a["tkeep"] or [1] * n
        idx = [i for i in range(n) if tk[i]]
        require(list(f.tdata) == [a["tdata"][i] for i in idx], "compact() kept %s of %s with tkeep %s", list(f.tdata), a["tdata"], tk)
        require(f.tkeep is None, "compact() left tkeep")
        for s in FIELDS:
            v = a[s]
            if isinstance(v, list):
                v = [x for i, x in enumerate(v) if i >= n or tk[i]]
            w = cons(v)
            require(getattr(f, s) == w, "compact(): %s %s, expected %s", s, getattr(f, s), w)
        labels.add("compacted without normalising")
    if 0 in tk:
        labels.add("null bytes")
    if any(isinstance(a[s], list) and len(a[s]) not in (0, n) for s in FIELDS):
        labels.add("list of another length")
    return n > 0 and any(a[s] is not None for s in FIELDS), labels


CHECKS = [
    Check("X04", "pairs of frames (bytes or wide symbols, tkeep/tid/tdest/tuser absent, scalar, or lists of any length), the second equal, "
          "changed in one field, or unrelated; non-trivial: the frame has data and a sideband",
          [Part("algebra", algebra_case, run_algebra, 10000, 400000)]),
]
