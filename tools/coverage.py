#!/usr/bin/env python3
"""Development aid: which lines of /repo/fbpcf do the checks' runs reach?  coverage.py RUNS [PROP...]; lists unreached lines.
Builds with --coverage into /tmp/dsimcov; what one run reaches is added up over the forked runs."""
import os, sys, subprocess, glob, json, collections, gzip
os.environ["DSIM_COV"] = "1"
B = os.environ["DSIM_BUILD"] = "/tmp/dsimcov"
sys.path.insert(0, os.path.dirname(__file__))
import build, props
runs = sys.argv[1]; want = sys.argv[2:]
todo = {}
for p, d in props.PROPS.items():
    if want and p not in want: continue
    for s in d["scenarios"]:
        b = s["bin"]; b = b[:-1] if b in ("chani", "oti", "progi", "execi") else b
        key = (b, s["h"], tuple(sorted((k, str(v)) for k, v in s["p"].items())))
        todo[key] = s
build.build(sorted({k[0] for k in todo}))
for (b, h, ps) in todo:
    a = [f"{B}/bin/{b}", "--harness", h, "--seed", "1", "--runs", runs, "--secs", "120", "--jobs", "8", "--cpu", "60", "--scratch", "/tmp"]
    for k, v in ps: a += ["-D", f"{k}={v}"]
    subprocess.run(a, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    print(b, h, ps, flush=True)
lines = collections.defaultdict(dict)
W = B + "/gcov"; os.makedirs(W, exist_ok=True)
for g in glob.glob(B + "/**/*.gcda", recursive=True):
    r = subprocess.run(["gcov", "--json-format", "--stdout", g], cwd=W, capture_output=True)
    for l in r.stdout.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        for f in j["files"]:
            n = f["file"]
            if not n.startswith(build.REPO + "/") or "/test/" in n: continue
            for x in f["lines"]:
                lines[n][x["line_number"]] = lines[n].get(x["line_number"], 0) + x["count"]
tot = hit = 0
for n in sorted(lines):
    m = lines[n]; miss = sorted(k for k, v in m.items() if not v)
    tot += len(m); hit += len(m) - len(miss)
    if not miss: continue
    src = open(n).read().split("\n")
    print(f"== {n[len(build.REPO)+1:]}: {len(m)-len(miss)}/{len(m)}")
    for k in miss: print(f"   {k}: {src[k-1].strip()[:110]}")
print(f"total {hit}/{tot}")
