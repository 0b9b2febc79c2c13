#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                       "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation with fault injection: " + p["tech"],
                       "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py smoke && build/bin/smoke --harness smoke --seed 1 --runs 20 --jobs 8 > /dev/null",
     "hooks": {"guard": "DSIM_HOOKS", "enable": "no hook in /repo was needed: the harness build interposes on libc, pthread and the SDK headers at link time",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. python3 check.py --replay FILE replays a violation file."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
