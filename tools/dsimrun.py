"""Runs simulated executions, gates and minimises violations, writes replay files and evidence."""
import json, os, re, subprocess, sys, tempfile, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B

BIN = os.path.join(B.BUILD, "bin")
JOBS = int(os.environ.get("DSIM_JOBS", "8"))


def scratch_base():
    d = tempfile.mkdtemp(prefix="dsimw.", dir="/tmp")
    return d


def cmdline(sc, scratch, extra):
    c = [os.path.join(BIN, sc["bin"]), "--harness", sc["h"], "--scratch", scratch]
    c += ["--cpu", str(sc.get("cpu", 20))]
    for k, v in sorted(sc.get("p", {}).items()):
        c += ["-D", f"{k}={v}"]
    return c + extra


def run_many(sc, seed, runs, secs, scratch, on_result):
    c = cmdline(sc, scratch, ["--seed", str(seed), "--runs", str(runs), "--jobs", str(1 if sc.get("heavy") else JOBS)])
    if secs:
        c += ["--secs", str(secs)]
    p = subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for line in p.stdout:
        try:
            r = json.loads(line)
        except ValueError:
            r = {"status": "died", "class": "bad-output", "msg": line[:200], "seed": -1,
                 "hash": "0", "sched": "0", "steps": 0, "switches": 0, "sim_ns": 0,
                 "faults": {}, "probes": {}, "sample": ""}
        on_result(r)
    p.wait()
    err = p.stderr.read()
    return p.returncode, err


def run_one(sc, seed, scratch, replay=None, record=None):
    extra = ["--seed", str(seed), "--runs", "1"]
    if replay:
        extra += ["--replay", replay]
    if record:
        extra += ["--record", record]
    try:
        p = subprocess.run(cmdline(sc, scratch, extra), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return {"status": "died", "class": "timeout", "msg": "", "hash": "0"}
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return {"status": "died", "class": "no-output", "msg": p.stdout[-200:], "hash": "0"}


def minimise(sc, seed, cls, lines, scratch, budget=40.0):
    """ddmin over recorded decisions; returns the smallest list that still gives class cls."""
    t0 = time.time()
    n_eval = [0]

    def bad(sub):
        n_eval[0] += 1
        fd, path = tempfile.mkstemp(dir=scratch, suffix=".dec")
        with os.fdopen(fd, "w") as f:
            f.write("".join(sub))
        r = run_one(sc, seed, scratch, replay=path)
        os.unlink(path)
        return r.get("class") == cls and r.get("status") in ("violation", "died")

    with ThreadPoolExecutor(JOBS) as ex:
        # 1. whole streams / keys at once
        keys = sorted({tuple(l.split()[:2]) for l in lines})
        for k in keys:
            if time.time() - t0 > budget:
                break
            sub = [l for l in lines if tuple(l.split()[:2]) != k]
            if len(sub) < len(lines) and bad(sub):
                lines = sub
        n = 2
        while len(lines) >= 2 and time.time() - t0 < budget and not sc.get("heavy"):  # heavy: no two runs at once
            size = max(1, len(lines) // n)
            chunks = [(i, min(i + size, len(lines))) for i in range(0, len(lines), size)]
            found = False
            for b in range(0, len(chunks), JOBS):
                if time.time() - t0 > budget:
                    break
                part = chunks[b:b + JOBS]
                res = list(ex.map(lambda c: bad(lines[:c[0]] + lines[c[1]:]), part))
                if any(res):
                    # remove all individually removable chunks if that works, else the first
                    keep = list(lines)
                    for (i, j), ok in reversed(list(zip(part, res))):
                        if ok:
                            keep = keep[:i] + keep[j:]
                    if sum(res) > 1 and not bad(keep):
                        i, j = part[res.index(True)]
                        keep = lines[:i] + lines[j:]
                    lines = keep
                    found = True
                    break
            if found:
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(lines), n * 2)
        if len(lines) == 1 and time.time() - t0 < budget and bad([]):
            lines = []
    return lines, n_eval[0]


def gate(prop, sc, r, scratch):
    """Reproduce, minimise, write and re-run a replay file. Returns (path or None, info)."""
    seed, cls = r["seed"], r["class"]
    varying = False
    rec = os.path.join(scratch, "rec.dec")
    a = run_one(sc, seed, scratch, record=rec)
    b = run_one(sc, seed, scratch)
    if not (a.get("hash") == b.get("hash") == r["hash"] and a.get("class") == b.get("class") == cls):
        if cls in ("cpu-hang",) and a.get("class") == b.get("class") == cls:
            pass  # the watchdog fires at an arbitrary instruction; class equality suffices
        elif r["status"] == "died" and a.get("status") == b.get("status") == "died":
            pass
        elif a.get("status") == b.get("status") == r["status"] == "violation" and a.get("class") == b.get("class"):
            # the code under test depends on something outside the seam (uninitialised memory, say):
            # the failure recurs on every rerun of the seed, in a varying guise
            cls = a["class"]
            varying = True
        else:
            return None, f"not reproducible: {r} / {a} / {b}"
    lines = []
    if os.path.exists(rec):
        lines = open(rec).read().splitlines(True)
        if lines and not lines[-1].endswith("\n"):
            lines.pop()
    full = len(lines)
    path0 = os.path.join(scratch, "full.dec")
    open(path0, "w").write("".join(lines))
    c = run_one(sc, seed, scratch, replay=path0)
    if c.get("class") == cls:
        lines, n = minimise(sc, seed, cls, lines, scratch)
    else:
        n = 0
        lines = None
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    tag = hashlib.sha1(json.dumps([sc, seed, cls, lines], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", f"{prop}-{cls}-{tag}.json")
    json.dump({"property": prop, "scenario": sc, "seed": seed, "class": cls, "msg": r["msg"],
               "decisions_recorded": full, "minimise_evaluations": n,
               "decisions": None if lines is None else [l.strip() for l in lines]},
              open(path, "w"), indent=1)
    d = replay_file(path, scratch)
    e = replay_file(path, scratch)
    same = d.get("class") == cls and e.get("class") == cls and (
        d.get("hash") == e.get("hash") or varying or cls in ("cpu-hang", "process-died", "timeout", "no-output"))
    if not same:
        return None, f"replay file does not reproduce: {d} / {e}"
    return path, d


def replay_file(path, scratch):
    j = json.load(open(path))
    if j["decisions"] is None:
        return run_one(j["scenario"], j["seed"], scratch)
    f = os.path.join(scratch, "replay.dec")
    open(f, "w").write("".join(l + "\n" for l in j["decisions"]))
    return run_one(j["scenario"], j["seed"], scratch, replay=f)


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"KNOWN property=(\S+) harness=(\S+) class=(\S+) match=/(.*?)/ (.*)$", l)
            if m:
                out.append(dict(prop=m[1], harness=m[2], cls=m[3], rx=re.compile(m[4]), text=m[5]))
    return out


class Agg:
    def __init__(self):
        self.runs = 0
        self.ok = 0
        self.sched = set()
        self.steps = 0
        self.switches = 0
        self.sim_ns = 0
        self.faults = {}
        self.probes = {}
        self.viol = []
        self.samples = []
        self.faulty_runs = 0
        self.nontrivial = set()

    def add(self, sc, r):
        self.runs += 1
        self.steps += r["steps"]
        self.switches += r["switches"]
        self.sim_ns += r["sim_ns"]
        for k, v in r["faults"].items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in r["probes"].items():
            self.probes[k] = self.probes.get(k, 0) + v
        if r["faults"]:
            self.faulty_runs += 1
        self.sched.add((sc["h"], r["sched"]))
        if r["switches"] >= 2 or r["faults"]:
            self.nontrivial.add((sc["h"], r["hash"]))
        if r["status"] == "ok":
            self.ok += 1
            if len(self.samples) < 6 and r["sample"] and self.runs % 37 == 1:
                self.samples.append({"harness": sc["h"], "seed": r["seed"], "case": r["sample"][:600],
                                     "switches": r["switches"], "faults": r["faults"]})
        else:
            self.viol.append((sc, r))


def check(prop, cfg, tier, seed, budget_s=None, verbose=False):
    t0 = time.time()
    bins = sorted({sc["bin"] for sc in cfg["scenarios"]})
    if not B.build(bins):
        print(f"ERROR property={prop}: build failed")
        return 2
    tb = time.time() - t0
    scratch = scratch_base()
    agg = Agg()
    known = [k for k in load_known() if k["prop"] == prop]
    reported, known_hit, errors, nviol = {}, {}, [], 0
    per = []
    try:
        for si, sc in enumerate(cfg["scenarios"]):
            runs, secs = sc["quick"] if tier == "quick" else sc["thorough"]
            base = (seed * 1000003 + si * 101) * 10_000_000 % (1 << 62)
            a0, t1 = agg.runs, time.time()
            f0 = dict(agg.faults)
            rc, err = run_many(sc, base, runs, secs, scratch, lambda r: agg.add(sc, r))
            if rc != 0:
                errors.append(f"{sc['h']}: driver exit {rc}: {err[-300:]}")
            per.append({"harness": sc["h"], "params": sc.get("p", {}), "runs": agg.runs - a0,
                        "wall_s": round(time.time() - t1, 2),
                        "faults": {k: v - f0.get(k, 0) for k, v in agg.faults.items() if v != f0.get(k, 0)}})
        # violations
        todo = []
        for sc, r in agg.viol:
            hit = None
            for k in known:
                if k["harness"] == sc["h"] and k["cls"] == r["class"] and k["rx"].search(r["msg"]):
                    hit = k
                    break
            if hit:
                known_hit.setdefault(hit["text"], []).append(r["seed"])
                continue
            nviol += 1
            key = (sc["h"], json.dumps(sc.get("p", {}), sort_keys=True), r["class"])
            if key not in todo and len(todo) < 3:
                todo.append(key)
        for key in todo:
            cands = [(sc, r) for sc, r in agg.viol
                     if (sc["h"], json.dumps(sc.get("p", {}), sort_keys=True), r["class"]) == key
                     and not any(k["harness"] == sc["h"] and k["cls"] == r["class"] and k["rx"].search(r["msg"])
                                 for k in known)]
            cands.sort(key=lambda x: (x[1]["steps"], x[1]["seed"]))
            last = None
            for sc, r in cands[:3]:
                path, info = gate(prop, sc, r, scratch)
                if path:
                    reported[path] = (sc, r)
                    break
                last = info
            else:
                errors.append(f"{key}: {last}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    # probes that must have been hit (adequacy of the workload)
    weak = [p for p in cfg.get("must_probe", []) if not agg.probes.get(p)]
    run_wall = max(1e-6, wall - tb)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": len(agg.nontrivial),
            "rule": ("one evaluation = one complete simulated execution of the real code decided by one seed "
                     "(workload, thread schedule, message timing, faults); non-trivial = at least two thread "
                     "switches or at least one injected fault; distinct = different execution hash "
                     "(all decisions, switches, deliveries)"),
            "samples": agg.samples or [{"note": "see scenarios"}],
            "distinct_interleavings": len(agg.sched),
            "interleaving_measure": "hash of the sequence of thread switches",
            "scheduling_points": agg.steps, "thread_switches": agg.switches,
            "simulated_seconds": round(agg.sim_ns / 1e9, 3),
            "runs_per_hour_one_seed_each": int(agg.runs / run_wall * 3600),
            "faults_injected": agg.faults, "runs_with_faults": agg.faulty_runs,
            "probes": agg.probes, "probes_never_hit": weak,
            "scenarios": per,
            "real_components": cfg["real"], "stubbed_components": cfg["stub"],
            "build_s": round(tb, 1),
        },
        "assumptions": cfg["assumptions"],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for text, seeds in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop} {text} ({len(seeds)} runs, e.g. seed {seeds[0]})")
    # listed findings are announced on every run, also when this run's seeds did not meet them
    for k in known:
        if k["text"] not in known_hit:
            print(f"KNOWN-FINDING: property={prop} {k['text']} (not met by this run's seeds)")
    for path, (sc, r) in reported.items():
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  class={r['class']} harness={sc['h']} seed={r['seed']}: {r['msg'][:700]}")
    for e in errors:
        print(f"ERROR property={prop}: {e}")
    print(f"{prop} {tier}: {agg.runs} runs, {len(agg.nontrivial)} distinct, {agg.ok} ok, "
          f"faults {sum(agg.faults.values())}, build {tb:.1f}s, total {wall:.1f}s"
          + (f", probes never hit: {weak}" if weak else ""))
    if reported:
        return 1
    if errors or agg.runs == 0:
        return 2
    return 0
