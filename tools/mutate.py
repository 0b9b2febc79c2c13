#!/usr/bin/env python3
"""Mutation campaign: applies each small bug of mutants/*.py to a scratch copy of /repo and runs the quick check of its property.

usage: mutate.py [-o LOG] [ID-or-file-prefix ...]      (results are appended to the log; ids already in it are skipped)
A mutant is M(id, properties, [(file, old, new), ...]); `old` must occur exactly once in the file.
"""
import os, subprocess, sys, glob, time, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_DIR", "/tmp/mutwork")
MUT = []
def M(id, props, edits):
    MUT.append((id, props.split(), edits))

def main():
    args = sys.argv[1:]
    log = W + "/results.txt"
    if args[:1] == ["-o"]:
        log = args[1]; args = args[2:]
    force = args[:1] == ["-f"]
    if force: args = args[1:]
    first = args[:1] == ["-1"] # only the first property of each
    if first: args = args[1:]
    for f in sorted(glob.glob(V + "/mutants/*.py")):
        exec(compile(open(f).read(), f, "exec"), {"M": M})
    os.makedirs(W, exist_ok=True)
    repo = W + "/repo"
    if not os.path.exists(repo):
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
    sh = lambda c: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sh(f"git -C {repo} fetch -q /repo HEAD && git -C {repo} checkout -q -f FETCH_HEAD")
    done = set()
    if os.path.exists(log) and not force:
        done = {l.split()[0] for l in open(log) if l.strip()}
    ids = [m[0] for m in MUT]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    for id, props, edits in MUT:
        if args and not any(id.startswith(a) for a in args): continue
        if id in done: continue
        sh(f"git -C {repo} checkout -q -- .")
        bad = None
        for f, old, new in edits:
            p = repo + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"old text occurs {s.count(old)} times in {f}"; break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(id, "BAD", bad, flush=True); continue
        for prop in props[:1] if first else props:
            t = time.time()
            env = dict(os.environ, DSIM_REPO=repo, DSIM_BUILD=W + "/build")
            r = subprocess.run(["python3", V + "/check.py", prop, "--tier", "quick", "--seed", os.environ.get("SEED", "1")],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            open(f"{W}/{id}.{prop}.log", "w").write(r.stdout)
            v = re.search(r"^VIOLATION.*$", r.stdout, re.M)
            st = "CAUGHT" if r.returncode == 1 and v else ("MISSED" if r.returncode == 0 else f"RC{r.returncode}")
            msg = ""
            m = re.search(r"(message|msg)[^\n]*", r.stdout)
            if m: msg = m.group(0)[:120]
            line = f"{id} {prop} {st} {time.time()-t:.0f}s {msg}"
            print(line, flush=True)
            open(log, "a").write(line + "\n")
    sh(f"git -C {repo} checkout -q -- .")
main()
