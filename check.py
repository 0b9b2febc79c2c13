#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]   decide one property
check.py --replay FILE [-v]                             replay a violation file
check.py --all                                          every claimed property, quick tier
"""
import argparse, os, sys, subprocess, tempfile, shutil, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import dsimrun, props
import build as B


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    if a.replay:
        j = json.load(open(a.replay))
        if not B.build([j["scenario"]["bin"]]):
            return 2
        d = tempfile.mkdtemp(prefix="dsimw.", dir="/tmp")
        try:
            r = dsimrun.replay_file(a.replay, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print(json.dumps(r, indent=1))
        if r.get("class") == j["class"] and r.get("status") != "ok":
            print(f"VIOLATION property={j['property']} replay={a.replay}")
            return 1
        return 0
    names = list(props.PROPS) if a.all else [a.prop]
    worst = 0
    for n in names:
        if n not in props.PROPS:
            print("unknown property", n)
            return 2
        rc = dsimrun.check(n, props.PROPS[n], a.tier, a.seed)
        worst = max(worst, rc)
        sys.stdout.flush()
    return worst


if __name__ == "__main__":
    sys.exit(main())
