"""python3-vt -m pbt.replay FILE: re-run one saved case without Hypothesis' search.

Exit 1 if the property is violated, 0 if it holds, 2 on a harness error."""

import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    from pbt import core
    from pbt.run import load
    with open(argv[1]) as fh:
        rec = json.load(fh)
    check = load(rec["property"])
    part = check.part(rec["part"])

    def giveup(r=None):
        print("case cannot be ended\nVIOLATION property=%s replay=%s" % (rec["property"], argv[1]), flush=True)
        os._exit(1)
    core._hang["giveup"] = giveup
    if rec.get("kind") == "shard":
        r = core.run_shard(check, part, rec["shard"], rec["n"], rec["seed"], shrink=False, giveup=giveup)
        if r["fatal"]:
            print(r["fatal"])
            return 2
        if r["failure"]:
            print(r["failure"]["traceback"])
            print("VIOLATION property=%s replay=%s" % (rec["property"], argv[1]))
            return 1
        print("property held")
        return 0
    try:
        core.run_guarded(part, rec["case"])
    except core.FATAL:
        traceback.print_exc()
        return 2
    except (Exception, core.CaseHang):
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (rec["property"], argv[1]))
        return 1
    print("property held")
    return 0


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    sys.exit(main(sys.argv))
