"""Shared Hypothesis strategies.  Everything they produce is JSON."""

from hypothesis import strategies as st

from .bfm import FIXED, INCR, WRAP, AxiCfg, wide

small_delay = st.lists(st.integers(0, 4), min_size=1, max_size=5)
zero_delay = st.just([0])
delays = st.one_of(zero_delay, small_delay)
pattern = st.one_of(st.just([1]), st.lists(st.integers(0, 1), min_size=1, max_size=6).filter(any),
                    st.lists(st.sampled_from([0, 0, 0, 1]), min_size=1, max_size=8).filter(any))
mode = st.sampled_from([0, 0, 0, 1])
data_key = st.one_of(st.integers(0, 2), st.integers(3, 1 << 20))


@st.composite
def axi_cfg(draw, full=False, lanes=None):
    lanes = draw(lanes or st.sampled_from([1, 2, 4, 8, 16, 32, 4, 8, 64, 128]))
    if full:
        absent = []
    else:
        absent = draw(st.one_of(st.just([]), st.lists(st.sampled_from(AxiCfg.OPT), unique=True, max_size=18),
                                st.just(list(AxiCfg.OPT))))
    return {"lanes": lanes, "aw": draw(st.sampled_from([16, 32, 13, 12, 14, 20, 40, 64])),
            "idw": draw(st.sampled_from([1, 2, 3, 4, 8, 8, 12])), "uw": draw(st.sampled_from([1, 4, 8, 4, 8, 16, 33, 64])),
            "absent": sorted(absent)}


def some_id(idw, n=4):
    """An ID: one of the first n, or one near the middle or the end."""
    m = (1 << idw) - 1
    return st.one_of(st.integers(0, min(n - 1, m)), st.sampled_from([m, m, max(m - 1, 0), m // 2 + 1]))


@st.composite
def one_stall(draw, t, keys):
    """Now and then one long stall somewhere in the timing t."""
    if draw(st.integers(0, 9)) == 9:
        k = draw(st.sampled_from(keys))
        i = draw(st.integers(0, len(t[k])))
        t[k] = t[k][:i] + [1000 + draw(st.integers(20, 300))] + t[k][i:]
    return t


@st.composite
def axi_slave_timing(draw, errors=False):
    t = {}
    for s in ("aw", "w", "ar"):
        t[s + "ready"] = draw(pattern)
        t[s + "mode"] = draw(mode)
    for s in ("b", "r"):
        t[s + "delay"] = draw(delays)
    t["hold"] = draw(st.one_of(st.just([0]), st.lists(st.integers(0, 25), min_size=1, max_size=6)))
    t["pick"] = draw(st.lists(st.integers(0, 7), min_size=1, max_size=6))
    t["user"] = draw(st.lists(st.integers(0, 255), min_size=1, max_size=7))
    if errors:
        t["resp"] = draw(st.one_of(st.just([0]), st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, 3]), min_size=1, max_size=9),
                                   st.lists(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 0, 2, 3]), min_size=1, max_size=40)))
    return draw(one_stall(t, ["awready", "wready", "arready", "bdelay", "rdelay", "hold"]))


@st.composite
def axi_op(draw, cfg, kind, lo, hi, mbl, maxbeats=40, full_lanes=False, bursts=True, sidebands=True,
           zero=True, incr_only=False):
    """One AXI operation inside [lo, hi)."""
    mx = (cfg["lanes"] - 1).bit_length()
    size = None if full_lanes else draw(st.one_of(st.none(), st.integers(0, mx)))
    nb = 1 << (mx if size is None else size)
    span = hi - lo
    op = {"k": kind}
    burst = INCR if incr_only else draw(st.sampled_from([INCR, INCR, INCR, INCR, INCR, FIXED, WRAP]))
    wb = [b for b in (2, 4, 8, 16) if b <= mbl and b * nb <= span]
    if burst == WRAP and not wb:
        burst = INCR
    cap = max(1, min(maxbeats, (span - 1) // nb))
    if burst == WRAP:
        beats = draw(st.sampled_from(wb))
        n = beats * nb
        top = span // n
        c = lo + n * draw(st.one_of(st.integers(0, top - 1), st.just(top - 1), st.integers(0, min(3, top - 1))))
        off = nb * draw(st.integers(0, beats - 1))
        if c + off + n > hi:
            off = 0
        addr = c + off
    elif burst == FIXED:
        beats = draw(st.integers(1, min(cap, 36)))
        addr = lo + draw(st.integers(0, span - nb))
        if full_lanes:
            addr = addr // nb * nb
        c = nb - addr % nb
        n = max(1, beats * c - (0 if full_lanes else draw(st.integers(0, c - 1))))
    else:
        beats = draw(st.one_of(st.integers(1, min(8, cap)), st.integers(1, min(8, cap)), st.integers(1, min(24, cap)),
                               st.integers(1, cap)))
        n = beats * nb
        if not full_lanes:
            n -= draw(st.integers(0, nb - 1))
            n = max(n, 1)
            if zero and draw(st.integers(0, 24)) == 24:
                n = 0
        room = span - n
        where = draw(st.sampled_from("rand page page low top".split()))
        if where == "page" and hi // 4096 > lo // 4096 + 1:
            page = draw(st.one_of(st.integers(lo // 4096 + 1, lo // 4096 + 1 + min(6, hi // 4096 - lo // 4096 - 2)),
                                  st.integers(lo // 4096 + 1, hi // 4096 - 1))) * 4096
            addr = page - draw(st.integers(0, n + nb))
        elif where == "top":
            addr = hi - n - draw(st.sampled_from([0, 0, 1, nb, 2 * nb - 1]))
        elif where == "low":
            addr = lo + draw(st.integers(0, min(room, 4 * nb)))
        else:
            addr = lo + draw(st.integers(0, room))
        addr = min(max(addr, lo), hi - max(n, 1))
        if full_lanes:
            addr = max(lo, addr // nb * nb)
    op.update(a=addr, n=n, b=burst, s=size, key=draw(data_key))
    op["id"] = draw(st.one_of(st.none(), st.none(), st.integers(0, (1 << cfg["idw"]) - 1)))
    op["sb"] = draw(st.integers(0, (1 << 24) - 1)) if sidebands else None
    if kind == "w":
        op["wu"] = draw(st.one_of(st.just(0), st.none(), st.integers(0, 255), st.lists(st.integers(0, 255), max_size=12)))
    return op


def sideband(cfg, op):
    """Sideband keyword arguments of an operation (only for connected signals)."""
    p = "aw" if op["k"] == "w" else "ar"
    sb = op["sb"]
    kw = {}
    if sb is None:
        return kw
    absent = cfg["absent"]
    for name, sh, m in (("lock", 0, 1), ("cache", 1, 15), ("prot", 5, 7), ("qos", 8, 15), ("region", 12, 15),
                        ("user", 16, (1 << cfg["uw"]) - 1)):
        if p + name not in absent:
            kw[name] = wide(sb >> sh & 0xff, cfg["uw"]) if name == "user" else (sb >> sh) & m
    return kw


DEFAULT_SB = {"lock": 0, "cache": 3, "prot": 2, "qos": 0, "region": 0, "user": 0}
