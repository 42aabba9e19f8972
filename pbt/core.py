"""Generated-input search: sharded Hypothesis runs, shrinking, replay files, evidence.

A *check* decides one property.  It consists of one or more *parts*; a part has a
Hypothesis strategy producing a JSON-serialisable case and a pure function
``run(case)`` that exercises the code of /repo and compares it with an oracle.
``run`` returns ``(nontrivial, labels)`` or raises on any disagreement.
"""

import hashlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter


class Violation(AssertionError):
    """The oracle disagrees with what the code did."""


class HarnessError(Exception):
    """The harness itself is broken (never reported as a violation)."""


class CaseHang(BaseException):
    """A case burned its CPU allowance without finishing (runaway loop)."""


CPU_ALLOWANCE = 40      # seconds of CPU time for one case; a case normally takes well under 1 s
_hang = {"count": 0, "giveup": None}


def _on_alarm(signum, frame):
    # repeated, because the exception may end one task of many, or be caught by the loop that hangs
    _hang["count"] += 1
    if _hang["count"] > 15 and _hang["giveup"] is not None:
        _hang["giveup"]()
    raise CaseHang("case exceeded %d s of CPU time" % CPU_ALLOWANCE)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Part:
    def __init__(self, name, strategy, run, quick, thorough=None):
        self.name = name
        self._strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20

    def strategy(self):
        s = self._strategy
        return s() if callable(s) and not hasattr(s, "example") else s


class Check:
    def __init__(self, pid, rule, parts, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.parts = parts
        self.assumptions = list(assumptions)

    def part(self, name):
        for p in self.parts:
            if p.name == name:
                return p
        raise HarnessError("no part %r in %s" % (name, self.pid))


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def run_guarded(part, case):
    """Run one case; return (nontrivial, labels); raise Violation/CaseHang/other on failure."""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    _hang["count"] = 0
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_ALLOWANCE, 1)
    # one case in eight runs with logging on, as real test benches do
    h = hashlib.sha256(canon(case).encode()).digest()[0] % 16
    from .sim import set_logging
    set_logging(20 if h == 0 else 10 if h == 1 else None)
    try:
        result = part.run(case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        set_logging(None)
    if _hang["count"]:
        raise CaseHang("case exceeded %d s of CPU time" % CPU_ALLOWANCE)
    return result


FATAL = (ImportError, MemoryError, HarnessError, KeyboardInterrupt, SystemExit)


class CaseFailed(Exception):
    pass


class Stop(Exception):
    pass


def shard_seed(seed, pid, part, shard):
    h = hashlib.sha256(("%s:%s:%s:%s" % (seed, pid, part, shard)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_shard(check, part, shard, n, seed, stop=None, deadline=None, shrink=True, giveup=None):
    """Run n generated cases of one part.  Returns a result dict; giveup(result) is called instead if a case cannot be ended."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 60

    res = {"part": part.name, "shard": shard, "evals": 0, "labels": Counter(), "nontrivial": set(),
           "samples": [], "failure": None, "fatal": None, "skipped": 0, "planned": n}
    state = {"failed": None, "fatal": None}

    phases = (Phase.generate, Phase.shrink) if shrink else (Phase.generate,)

    @hypothesis.seed(shard_seed(seed, check.pid, part.name, shard))
    @settings(max_examples=n, deadline=None, database=None, phases=phases, print_blob=False,
              report_multiple_bugs=False, verbosity=Verbosity.quiet,
              suppress_health_check=list(HealthCheck))
    @given(part.strategy())
    def body(case):
        if state["fatal"] is not None:
            return
        if state["failed"] is None:
            if (stop is not None and stop.is_set()) or (deadline is not None and time.monotonic() > deadline):
                res["skipped"] += 1
                return
        if state["failed"] is not None and state["failed"][1].startswith("CaseHang"):
            # too slow to shrink
            if canon(case) == canon(state["failed"][0]):
                raise CaseFailed()
            return
        err = None

        def stuck():
            if stop is not None:
                stop.set()
            res["failure"] = {"case": case, "error": "CaseHang: case cannot be ended", "traceback": "".join(traceback.format_stack(limit=12)),
                              "shard": shard, "n": n, "seed": seed}
            giveup(res)
        _hang["giveup"] = stuck if giveup is not None else None
        try:
            nontrivial, labels = run_guarded(part, case)
        except FATAL:
            state["fatal"] = traceback.format_exc()
            return
        except (Exception, CaseHang) as e:
            err = e
            tb = traceback.format_exc()
        if err is not None:
            if state["failed"] is None and stop is not None:
                stop.set()
            state["failed"] = (case, "%s: %s" % (type(err).__name__, err), tb)
            raise CaseFailed()
        if state["failed"] is None:
            res["evals"] += 1
            res["labels"].update(labels)
            if nontrivial:
                c = canon(case)
                h = hashlib.sha1(c.encode()).digest()[:8]
                if h not in res["nontrivial"]:
                    res["nontrivial"].add(h)
                    if len(c) < 3000 and (len(res["samples"]) < 2 or len(res["nontrivial"]) in (40, 41)):
                        res["samples"] = (res["samples"] + [case])[-3:]

    try:
        body()
    except CaseFailed:
        pass
    except hypothesis.errors.Flaky:
        pass
    except BaseException:
        if state["failed"] is None:
            state["fatal"] = traceback.format_exc()
    if state["fatal"] is not None:
        res["fatal"] = state["fatal"]
    elif state["failed"] is not None:
        case, msg, tb = state["failed"]
        res["failure"] = {"case": case, "error": msg, "traceback": tb, "shard": shard, "n": n, "seed": seed}
    return res
