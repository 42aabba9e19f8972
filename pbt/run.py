"""python3-vt -m pbt.run <property id> [quick|thorough]"""

import gc
import importlib
import json
import multiprocessing
import os
import resource
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORK = 8
QUICK = 3       # times the quick count of each part
WALL = {"quick": 420, "thorough": 3000}     # stop generating after this many seconds (never a verdict)


def load(pid):
    from pbt.checks import INDEX
    if pid not in INDEX:
        print("unknown property", pid, file=sys.stderr)
        sys.exit(2)
    mod = importlib.import_module("pbt.checks." + INDEX[pid])
    for c in mod.CHECKS:
        if c.pid == pid:
            return c
    print("property %s not defined in %s" % (pid, INDEX[pid]), file=sys.stderr)
    sys.exit(2)


def worker(check, w, nwork, tier, seed, scale, stop, deadline, conn):
    from pbt import core
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    out = []
    for part in check.parts:
        total = max(1, int((part.quick * QUICK if tier == "quick" else part.thorough) * scale))
        n = total // nwork + (1 if w < total % nwork else 0)
        if n == 0:
            continue

        def giveup(r):
            conn.send(out + [r])
            conn.close()
            os._exit(0)
        r = core.run_shard(check, part, w, n, seed, stop, deadline, giveup=giveup, shrink=not os.environ.get("PBT_NOSHRINK"))
        out.append(r)
        if r["fatal"] or r["failure"]:
            break
    conn.send(out)
    conn.close()


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in WALL:
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    scale = float(os.environ.get("PBT_SCALE", "1"))
    if os.environ.get("PYTHONHASHSEED") != "0":
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        os.execve(sys.executable, [sys.executable, "-m", "pbt.run"] + argv[1:], env)
    t0 = time.monotonic()
    try:
        check = load(pid)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        return 2
    import hypothesis        # noqa: F401  (before the fork)
    gc.collect()
    gc.freeze()

    ctx = multiprocessing.get_context("fork")
    stop = ctx.Event()
    deadline = t0 + WALL[tier]
    procs = []
    for w in range(NWORK):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(check, w, NWORK, tier, seed, scale, stop, deadline, b))
        p.start()
        b.close()
        procs.append((p, a))
    results, dead = [], False
    for p, a in procs:
        try:
            results.extend(a.recv())
        except EOFError:
            dead = True
        p.join()

    wall = time.monotonic() - t0
    fatal = [r["fatal"] for r in results if r["fatal"]]
    failures = [(r["part"], r["failure"]) for r in results if r["failure"]]
    failures.sort(key=lambda f: (f[1]["error"].startswith("CaseHang"), len(json.dumps(f[1]["case"]))))
    write_evidence(check, tier, seed, results, wall, failures, fatal)

    if failures:
        for part, f in failures[:3]:
            path = verify_replay(pid, part, f)
            if path:
                print("property %s, part %s: %s" % (pid, part, f["error"]))
                print(f["traceback"])
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
        print("failure did not reproduce from its replay file:", failures[0][1]["error"], file=sys.stderr)
        print(failures[0][1]["traceback"], file=sys.stderr)
        return 2
    if fatal or dead:
        print(fatal[0] if fatal else "a worker process died", file=sys.stderr)
        return 2
    evals = sum(r["evals"] for r in results)
    if evals == 0:
        print("no case was run", file=sys.stderr)
        return 2
    nt = len(set().union(*[r["nontrivial"] for r in results]))
    print("%s %s: held on %d cases (%d distinct non-trivial) in %.1f s" % (pid, tier, evals, nt, wall))
    return 0


def verify_replay(pid, part, f):
    d = os.path.join(os.environ.get("PBT_OUT", ROOT), "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, part))
    for kind in ("case", "shard"):
        rec = {"property": pid, "part": part, "kind": kind, "error": f["error"], "case": f["case"]}
        if kind == "shard":     # fails only after the cases generated before it
            rec.update(shard=f["shard"], n=f["n"], seed=f["seed"])
        with open(path, "w") as fh:
            json.dump(rec, fh, indent=1, sort_keys=True)
            fh.write("\n")
        rc = subprocess.call([sys.executable, "-m", "pbt.replay", path], cwd=ROOT,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                             env=dict(os.environ, PYTHONHASHSEED="0"))
        if rc == 1:
            return path
    return None


def write_evidence(check, tier, seed, results, wall, failures, fatal):
    import hashlib
    from collections import Counter
    labels = Counter()
    nontrivial = set()
    samples = []
    per = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[r["part"] + ": " + k] += v
        nontrivial |= {r["part"].encode() + h for h in r["nontrivial"]}
        p = per.setdefault(r["part"], {"evaluations": 0, "distinct_nontrivial": 0, "skipped_after_time_budget": 0})
        p["evaluations"] += r["evals"]
        p["distinct_nontrivial"] += len(r["nontrivial"])
        p["skipped_after_time_budget"] += r["skipped"]
        if len([s for s in samples if s["part"] == r["part"]]) < 2:
            samples.extend({"part": r["part"], "case": s} for s in r["samples"][-1:])
    ev = {
        "property": check.pid, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evals"] for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": check.rule,
            "samples": samples[:8],
            "parts": per,
            "classes": dict(sorted(labels.items())),
        },
        "wall_s": round(wall, 2),
        "violations": len(failures),
        "assumptions": check.assumptions,
    }
    d = os.path.join(os.environ.get("PBT_OUT", ROOT), "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    os.chdir(ROOT)
    sys.exit(main(sys.argv))
