"""One uniform face for the three kinds of memory-mapped masters (AXI, AXI-Lite, APB)."""

from hypothesis import strategies as st

from .core import require
from .bfm import (ApbSlaveBfm, ApbWires, AxiCfg, AxiSlaveBfm, AxilSlaveBfm, RefMem, Wires, axil_signals, beat_addresses,
                  beat_lanes)
from . import gen
from .sim import Sim

from cocotbext.axi import (ApbBus, ApbMaster, ApbRam, AxiBus, AxiLiteBus, AxiLiteMaster, AxiLiteRam, AxiMaster, AxiRam)

ABSENT = {"axil": ["awprot", "wstrb", "bresp", "arprot", "rresp"], "apb": ["pprot", "pslverr"]}


@st.composite
def cfg_for(draw, kind, full=False):
    if kind == "axi":
        d = dict(draw(gen.axi_cfg(full=full, lanes=st.sampled_from([1, 2, 4, 8, 16]))))
    else:
        absent = [] if full else draw(st.lists(st.sampled_from(ABSENT[kind]), unique=True))
        d = {"lanes": draw(st.sampled_from([4, 8, 1, 2, 16, 4])), "aw": draw(st.sampled_from([16, 32, 12, 13, 64, 8])),
             "absent": sorted(absent)}
    d["kind"] = kind
    return d


@st.composite
def timing_for(draw, kind, errors=False):
    if kind == "apb":
        t = {"waits": draw(st.one_of(st.just([0]), st.lists(st.integers(0, 5), min_size=1, max_size=6))),
             "idle_ready": draw(st.lists(st.integers(0, 1), min_size=1, max_size=4))}
        if errors:
            t["resp"] = draw(st.one_of(st.just([0]), st.lists(st.sampled_from([0, 0, 0, 1]), min_size=1, max_size=9)))
        return draw(gen.one_stall(t, ["waits"]))
    return draw(gen.axi_slave_timing(errors=errors))


class Kit:
    """Signals, native subordinate and library master of one bus."""

    def __init__(self, sim, cfg, t, prefix="bus", rst=None, rst_level=1, mem=None, native_slave=True):
        self.sim, self.cfg, self.kind, self.prefix = sim, cfg, cfg["kind"], prefix
        self.rst, self.rst_level = rst, rst_level
        self.lrst = rst         # reset signal of the library objects
        self.mem = mem if mem is not None else RefMem()
        k = self.kind
        if k == "axi":
            self.acfg = AxiCfg(cfg)
            self.wires = Wires(sim, prefix, self.acfg.signals(), rst, rst_level)
            self.slave = AxiSlaveBfm(sim, self.wires, self.acfg, self.mem, t) if native_slave else None
            self.valid_nets = [self.wires.ch[c][0] for c in ("aw", "w", "ar")]
        elif k == "axil":
            self.wires = Wires(sim, prefix, axil_signals(cfg), rst, rst_level)
            self.slave = AxilSlaveBfm(sim, self.wires, cfg, self.mem, t) if native_slave else None
            self.valid_nets = [self.wires.ch[c][0] for c in ("aw", "w", "ar")]
        else:
            self.wires = ApbWires(sim, prefix, cfg, rst, rst_level)
            self.slave = ApbSlaveBfm(sim, self.wires, cfg, self.mem, t) if native_slave else None
            self.valid_nets = [self.wires.n["psel"]]

    def _args(self, kw):
        d = self.sim.dut
        a = [d.clk]
        if self.rst is not None:
            a.append(getattr(d, self.lrst.name))
            kw = dict(kw, reset_active_level=bool(self.rst_level))
        return a, kw

    def master(self, **kw):
        d = self.sim.dut
        a, kw = self._args(kw)
        if self.kind == "axi":
            return AxiMaster(AxiBus.from_prefix(d, self.prefix), *a, **kw)
        if self.kind == "axil":
            return AxiLiteMaster(AxiLiteBus.from_prefix(d, self.prefix), *a, **kw)
        return ApbMaster(ApbBus.from_prefix(d, self.prefix), *a, **kw)

    def ram(self, **kw):
        d = self.sim.dut
        a, kw = self._args(kw)
        if self.kind == "axi":
            return AxiRam(AxiBus.from_prefix(d, self.prefix), *a, **kw)
        if self.kind == "axil":
            return AxiLiteRam(AxiLiteBus.from_prefix(d, self.prefix), *a, **kw)
        return ApbRam(ApbBus.from_prefix(d, self.prefix), *a, **kw)

    def transfers(self):
        """Number of address-phase transfers seen on the bus so far."""
        if self.kind == "apb":
            return len(self.wires.log)
        return len(self.wires.mon["aw"].log) + len(self.wires.mon["ar"].log) + len(self.wires.mon["w"].log)

    def valids(self):
        return [n.v for n in self.valid_nets]

    def issue_log(self):
        """Per direction, the operation start addresses on the bus in order: (kind, address) of every transfer."""
        if self.kind == "apb":
            return [("w" if c["pwrite"] else "r", c["paddr"]) for _, c, _, _ in self.wires.log]
        return ([("w", d["awaddr"]) for _, d in self.wires.mon["aw"].log] +
                [("r", d["araddr"]) for _, d in self.wires.mon["ar"].log])
