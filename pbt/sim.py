"""In-process deterministic simulator used by every bus-level check.

cocotb talks to an HDL simulator through the C extension ``cocotb.simulator``
(the GPI).  This module provides a pure-Python GPI and installs it as
``cocotb.simulator`` *before* cocotb's other modules are imported.  Everything
above the GPI is the real thing: cocotb's scheduler, tasks, triggers, queues,
handles and cocotb_bus.Bus, and the cocotbext.axi code of /repo.

Only signals, edges, timed callbacks and the ReadWrite/ReadOnly/NextTimeStep
phases are modelled; there is no HDL.  Harness BFMs and monitors are "native"
clocked processes: they see the values sampled at the rising edge (before any
cocotb task runs) and drive with non-blocking semantics (values change after
the edge), exactly like ``always @(posedge clk) q <= d``.
"""

import heapq
import logging
import os
import sys
import types
import warnings
from collections import deque

REPO = os.environ.get("PBT_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"


def _install():
    for k in ("COCOTB_RESOLVE_X", "COCOTB_SCHEDULER_DEBUG", "COCOTB_ENABLE_PROFILING"):
        os.environ.pop(k, None)
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if SITE not in sys.path:
        sys.path.append(SITE)

    warnings.simplefilter("ignore")

    gpi = types.ModuleType("cocotb.simulator")
    for i, n in enumerate(["MODULE", "STRUCTURE", "REG", "NET", "NETARRAY", "REAL", "INTEGER",
                           "ENUM", "STRING", "GENARRAY", "OBJECTS", "DRIVERS", "LOADS", "UNKNOWN",
                           "MEMORY", "PACKAGE"]):
        setattr(gpi, n, i + 1)

    gpi.register_timed_callback = lambda t, cb, trg: _cur().reg_timed(t, cb, trg)
    gpi.register_value_change_callback = lambda h, cb, e, trg: _cur().reg_edge(h, cb, e, trg)
    gpi.register_readonly_callback = lambda cb, trg: _cur().reg_q("ro", cb, trg)
    gpi.register_rwsynch_callback = lambda cb, trg: _cur().reg_q("rw", cb, trg)
    gpi.register_nextstep_callback = lambda cb, trg: _cur().reg_q("nts", cb, trg)
    gpi.get_sim_time = lambda: (_cur().now >> 32, _cur().now & 0xffffffff)
    gpi.get_precision = lambda: -9
    gpi.log_level = lambda *a: None
    gpi.is_running = lambda: True
    gpi.get_simulator_product = lambda: "pysim"
    gpi.get_simulator_version = lambda: "1"
    gpi.stop_simulator = lambda: None
    gpi.get_root_handle = lambda name: _cur().root

    import importlib.util
    spec = importlib.util.find_spec("cocotb")
    if spec is None:
        raise ImportError("cocotb not found")
    sys.modules["cocotb.simulator"] = gpi
    import cocotb
    cocotb.simulator = gpi
    return gpi


gpi = _install()

import cocotb                       # noqa: E402
import cocotb.handle                # noqa: E402
import cocotb.triggers              # noqa: E402
import cocotb.log                   # noqa: E402
import cocotb.utils                 # noqa: E402
from cocotb.scheduler import Scheduler      # noqa: E402
from cocotb.task import Task        # noqa: E402
from cocotb.binary import BinaryValue, BinaryRepresentation  # noqa: E402

logging.getLogger().setLevel(logging.CRITICAL + 10)
logging.getLogger("cocotb").setLevel(logging.CRITICAL + 10)
logging.disable(logging.CRITICAL)

class _Swallow(logging.Handler):
    """Formats every message, as a real test bench does, and drops it."""

    def emit(self, record):
        record.getMessage()


def set_logging(level):
    """None: logging off (fast).  Otherwise messages of that level are produced and formatted."""
    if level is None:
        logging.disable(logging.CRITICAL)
        return
    lg = logging.getLogger("cocotb")
    if not any(isinstance(h, _Swallow) for h in lg.handlers):
        lg.handlers[:] = [_Swallow()]
        lg.propagate = False
    lg.setLevel(level)
    logging.disable(logging.NOTSET)


_current = None


def _cur():
    return _current


class SimTimeout(Exception):
    """The main task had not finished when the cycle budget ran out."""


class _Cb:
    __slots__ = ("cb", "trg", "live", "where", "edge")

    def __init__(self, cb, trg, where=None, edge=0):
        self.cb = cb
        self.trg = trg
        self.live = True
        self.where = where
        self.edge = edge

    def deregister(self):
        self.live = False
        if self.where is not None:
            try:
                self.where.remove(self)
            except ValueError:
                pass

    def fire(self):
        if self.live:
            self.live = False
            self.cb(self.trg)


class Net:
    """GPI handle of one signal.  ``val`` is an int, or None while undriven."""
    __slots__ = ("name", "width", "val", "cbs", "mask", "sim")

    def __init__(self, sim, name, width, val=None):
        self.sim = sim
        self.name = name
        self.width = width
        self.mask = (1 << width) - 1
        self.val = val
        self.cbs = []

    # -- GPI
    def get_name_string(self):
        return self.name

    def get_type_string(self):
        return "GPI_NET"

    def get_type(self):
        return gpi.NET

    def get_const(self):
        return False

    def get_definition_name(self):
        return ""

    def get_definition_file(self):
        return ""

    def get_num_elems(self):
        return self.width

    def get_range(self):
        return (self.width - 1, 0, -1)

    def get_indexable(self):
        return False

    def get_signal_val_binstr(self):
        if self.val is None:
            return "z" * self.width
        return format(self.val, "0%db" % self.width)

    def get_signal_val_long(self):
        return self.val or 0

    def set_signal_val_int(self, action, value):
        self.sim.post(self, value & self.mask)

    def set_signal_val_binstr(self, action, value):
        try:
            v = int(value, 2)
        except ValueError:
            v = None
        self.sim.post(self, v)

    def iterate(self, what):
        return iter(())

    # -- native side
    @property
    def v(self):
        """Resolved value; undriven reads as 0 (native BFMs are two-state)."""
        return 0 if self.val is None else self.val

    def nb(self, value):
        """Non-blocking drive from a native process."""
        self.sim.nba.append((self, value & self.mask))

    def put(self, value):
        """Immediate drive (before the simulation starts)."""
        self.sim.post(self, value & self.mask)


class Root:
    def __init__(self, sim, name):
        self.sim = sim
        self.name = name
        self.nets = {}

    def get_name_string(self):
        return self.name

    def get_type_string(self):
        return "GPI_MODULE"

    def get_type(self):
        return gpi.MODULE

    def get_const(self):
        return False

    def get_definition_name(self):
        return "dut"

    def get_definition_file(self):
        return ""

    def get_num_elems(self):
        return 1

    def get_handle_by_name(self, name):
        return self.nets.get(name)

    def iterate(self, what):
        return iter(list(self.nets.values()))


class FastValue(BinaryValue):
    """A BinaryValue whose integer is known; the bit string is built on demand."""

    def __init__(self, ival, width):
        self.__dict__["_ival"] = ival
        self.__dict__["_n_bits"] = width

    def __getattr__(self, name):
        # any attribute the fast path did not set: become a full BinaryValue
        if name in ("_str", "big_endian", "binaryRepresentation", "_convert_to", "_convert_from"):
            ival = self.__dict__["_ival"]
            width = self.__dict__["_n_bits"]
            BinaryValue.__init__(self, n_bits=width)
            self._set_trusted_binstr(format(ival, "0%db" % width))
            return self.__dict__[name]
        raise AttributeError(name)

    def _pristine(self):
        return "_str" not in self.__dict__

    def __int__(self):
        return self._ival if "_str" not in self.__dict__ else BinaryValue.integer.fget(self)

    def __bool__(self):
        return bool(self._ival) if "_str" not in self.__dict__ else BinaryValue.__bool__(self)

    @property
    def integer(self):
        return int(self)

    @integer.setter
    def integer(self, val):
        self._str       # materialise
        BinaryValue.integer.fset(self, val)

    @property
    def is_resolvable(self):
        return True if "_str" not in self.__dict__ else BinaryValue.is_resolvable.fget(self)

    def __eq__(self, other):
        if type(other) is int and "_str" not in self.__dict__:
            return self._ival == other
        return BinaryValue.__eq__(self, other)

    __hash__ = None


class Signal(cocotb.handle.ModifiableObject):
    """The cocotb handle class, with integer fast paths for reading/writing."""

    __setattr__ = object.__setattr__

    def _set_value(self, value, call_sim):
        if type(value) is int and 0 <= value <= self._handle.mask:
            call_sim(self, self._handle.set_signal_val_int, 0, value)
        else:
            super()._set_value(value, call_sim)

    @cocotb.handle.ModifiableObject.value.getter
    def value(self):
        net = self._handle
        if net.val is None:
            binstr = net.get_signal_val_binstr()
            result = BinaryValue(n_bits=len(binstr))
            result._set_trusted_binstr(binstr)
            return result
        return FastValue(net.val, net.width)

    def __int__(self):
        return int(self.value)


def _reset_globals():
    cocotb.handle._handle2obj = {}
    for t in (Scheduler._next_time_step, Scheduler._read_write, Scheduler._read_only, Scheduler._timer1):
        if t.cbhdl is not None:
            t.cbhdl = None
        t.primed = False
    for cls in (cocotb.triggers.ReadOnly, cocotb.triggers.ReadWrite, cocotb.triggers.NextTimeStep):
        t = cls()
        t.cbhdl = None
        t.primed = False


class Sim:
    """One simulation.  Create, add signals and processes, call run(main)."""

    HALF = 5

    def __init__(self, name="dut"):
        global _current
        _reset_globals()
        _current = self
        self.now = 0
        self.cycle = 0          # index of the latest rising edge
        self.heap = []
        self.seq = 0
        self.events = deque()
        self.nba = []
        self.queues = {"ro": deque(), "rw": deque(), "nts": deque()}
        self.root = Root(self, name)
        self.dut = cocotb.handle.SimHandle(self.root)
        self.clk_net = self.net("clk", 1, 0)
        self.clk = self.dut.clk
        self.samplers = []      # run at each edge before anything else
        self.procs = []         # native clocked processes
        self.done = False
        self.extra_clocks = []
        cocotb.scheduler = Scheduler(handle_result=self._handle_result)
        self.sched = cocotb.scheduler
        cocotb.SIM_NAME = "pysim"
        self.outcome = None

    # ---- construction
    def net(self, name, width, val=None):
        n = Net(self, name, width, val)
        self.root.nets[name] = n
        cocotb.handle._handle2obj[n] = Signal(n, self.root.name + "." + name)
        return n

    def sig(self, name):
        return getattr(self.dut, name)

    def on_clk(self, fn):
        self.procs.append(fn)
        return fn

    def on_sample(self, fn):
        self.samplers.append(fn)
        return fn

    # ---- GPI services
    def reg_timed(self, t, cb, trg):
        c = _Cb(cb, trg)
        self.seq += 1
        heapq.heappush(self.heap, (self.now + t, 1, self.seq, c))
        return c

    def reg_edge(self, h, cb, edge, trg):
        c = _Cb(cb, trg, h.cbs, edge)
        h.cbs.append(c)
        return c

    def reg_q(self, which, cb, trg):
        q = self.queues[which]
        c = _Cb(cb, trg, q)
        q.append(c)
        return c

    def post(self, net, value):
        self.events.append((net, value))

    # ---- kernel
    def _apply(self, net, value):
        old = net.val
        if old == value:
            return
        net.val = value
        if net.cbs:
            rise = value is not None and (value & 1) and not (old is not None and (old & 1))
            fall = value is not None and not (value & 1) and (old is None or (old & 1))
            for c in list(net.cbs):
                if not c.live:
                    continue
                if c.edge == 3 or (c.edge == 1 and rise) or (c.edge == 2 and fall):
                    try:
                        net.cbs.remove(c)
                    except ValueError:
                        pass
                    c.fire()

    def _settle(self):
        rw = self.queues["rw"]
        events = self.events
        while True:
            if events:
                self._apply(*events.popleft())
            elif self.nba:
                events.extend(self.nba)
                self.nba.clear()
            elif rw:
                rw.popleft().fire()
            else:
                break
        ro = self.queues["ro"]
        while ro:
            ro.popleft().fire()

    def _handle_result(self, test):
        self.done = True

    def run(self, main, max_cycles=20000):
        """Run coroutine function ``main(sim)`` to completion; return its value."""
        self.main = Task(main(self))
        self.sched._add_test(self.main)
        try:
            self._settle()
            nts = self.queues["nts"]
            next_clk = self.HALF
            heap = self.heap
            end_cycle = max_cycles
            while not self.done:
                t = next_clk
                if heap and heap[0][0] < t:
                    t = heap[0][0]
                self.now = t
                while nts:
                    nts.popleft().fire()
                while heap and heap[0][0] == t:
                    heapq.heappop(heap)[3].fire()
                    if self.done:
                        break
                if self.done:
                    break
                if t == next_clk:
                    next_clk += self.HALF
                    clk = self.clk_net
                    if clk.val:
                        self._apply(clk, 0)
                    else:
                        self.cycle += 1
                        if self.cycle > end_cycle:
                            raise SimTimeout("no completion after %d clock cycles" % max_cycles)
                        for fn in self.samplers:
                            fn()
                        for fn in self.procs:
                            fn()
                        self._apply(clk, 1)
                self._settle()
        finally:
            self.close()
        return self.main._outcome.get()

    def close(self):
        global _current
        sched = self.sched
        try:
            if sched._test is not None and sched._test._outcome is None:
                from cocotb import outcomes
                sched._test._outcome = outcomes.Value(None)
                sched._terminate = True
                sched._cleanup()
        except BaseException:
            pass
        self.heap.clear()
        for q in self.queues.values():
            q.clear()
        for n in self.root.nets.values():
            n.cbs.clear()
        self.procs.clear()
        self.samplers.clear()


def quiet_thread():
    pass
