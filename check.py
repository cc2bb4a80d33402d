#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--runs N] [--cap S]

Builds the simulator from /repo's working tree, runs a seeded batch of simulated
runs for one property, minimises what it finds and writes the evidence file.
Exit 0: held on everything explored; 1: violated; 2: the check itself failed.
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
SIM = os.path.join(HERE, "sim")
LS_PROPS = {"C13", "C15"}            # need every load and store as a scheduling point
PY_PROPS = {"C25", "C26"}            # with a Python interpreter in the simulator
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
# seconds per worker for simulated runs: quick, thorough
CAPS = {"quick": 60, "thorough": 600}


def log(*a):
    print(*a, flush=True)


def build(variant):
    h = hashlib.sha256()
    files = []
    dirs = [SIM, os.path.join(REPO, "liboptv/src"), os.path.join(REPO, "liboptv/include")]
    if variant == "py": dirs.append(os.path.join(REPO, "py_bind/optv"))
    for d in dirs:
        for r, _, fs in sorted(os.walk(d)):
            files += [os.path.join(r, f) for f in sorted(fs) if f.endswith((".c", ".h", ".cpp", ".sh", ".py", ".pyx", ".pxd")) and not (f.endswith(".c") and "py_bind" in r)
                      and not (variant != "py" and r == os.path.join(SIM, "py"))]
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    key = h.hexdigest()[:16]
    root = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
    os.makedirs(root, exist_ok=True)
    out = os.path.join(root, variant)
    with open(os.path.join(root, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(out, "stamp")
        if not (os.path.exists(stamp) and open(stamp).read() == key):
            shutil.rmtree(out, ignore_errors=True)
            p = subprocess.run([os.path.join(SIM, "build.sh"), variant, out], env=dict(os.environ, REPO=REPO),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                log(p.stdout[-4000:]); log("ERROR: build failed"); sys.exit(2)
            open(stamp, "w").write(key)
    return os.path.join(out, "sim")


class Checker:
    def __init__(self, prop, tier, seed, exe):
        self.prop, self.tier, self.seed, self.exe = prop, tier, seed, exe
        self.tmp = tempfile.mkdtemp(prefix="optvsim-")

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def batch(self, runs, cap, workers):
        res, procs = [], []
        for w in range(workers):
            st = os.path.join(self.tmp, "st%d" % w)
            o, e = open(st + ".out", "w"), open(st + ".err", "w")
            procs.append((subprocess.Popen([self.exe, "batch", "--prop", self.prop, "--seed", str(self.seed), "--start", str(w),
                "--stride", str(workers), "--count", str(runs), "--cap", str(cap), "--tier", "1" if self.tier == "thorough" else "0",
                "--status", st], stdout=o, stderr=e), st))
        end = time.time() + cap + 90
        for p, st in procs:
            hung = False
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); hung = True
            err = open(st + ".err").read()
            try:
                r = json.loads(open(st + ".out").read())
            except ValueError:
                r = None
            if r is None:
                idx = int((open(st).read().strip() or "-1"))
                if idx < 0:
                    log(err[-2000:]); log("ERROR: worker did not start"); sys.exit(2)
                r = {"died": idx, "hung": hung, "rc": p.returncode, "stderr": err[-3000:], "runs": 0, "violations": [], "stats": {}, "known": [], "hashes": [], "covs": []}
            res.append(r)
        return res

    def gen(self, index):
        return subprocess.run([self.exe, "gen", "--prop", self.prop, "--seed", str(self.seed), "--index", str(index),
                               "--tier", "1" if self.tier == "thorough" else "0"], stdout=subprocess.PIPE, text=True, check=True).stdout

    def replay(self, text, limit=60):
        f = os.path.join(self.tmp, "r%d.plan" % threading.get_ident())
        open(f, "w").write(text)
        try:
            p = subprocess.run([self.exe, "replay", "--plan", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit, errors="replace")
        except subprocess.TimeoutExpired:
            return {"viol": "hang", "msg": "no end within %d s" % limit, "hash": "", "known": []}
        if p.returncode in (0, 1, 3):
            r = json.loads(p.stdout.splitlines()[0]); r["invalid"] = p.returncode == 3
            return r
        return {"viol": crash_class(p.stderr, p.returncode), "msg": crash_text(p.stderr, p.returncode), "hash": "", "known": []}

    def minimise(self, text, cls, budget):
        """ddmin over plan lines, then shrinking of numbers, keeping the violation's class"""
        end = time.time() + budget
        head, lines = text.splitlines()[0], text.splitlines()[1:]
        def bad(ls):
            r = self.replay("\n".join([head] + ls) + "\n", 30)
            return r["viol"] == cls
        n = 2
        while len(lines) > 1 and time.time() < end:
            size = max(1, len(lines) // n); done = False
            for i in range(0, len(lines), size):
                if time.time() > end: break
                t = lines[:i] + lines[i + size:]
                if t and bad(t):
                    lines = t; n = max(2, n - 1); done = True; break
            if not done:
                if size == 1: break
                n = min(len(lines), n * 2)
        for i in range(len(lines)):
            tk = lines[i].split(" ")
            for j in range(1, len(tk)):
                if time.time() > end: break
                if not re.fullmatch(r"\d+", tk[j]): continue
                for v in (0, 1, int(tk[j]) // 10, int(tk[j]) // 2, int(tk[j]) - 1):
                    if time.time() > end: break
                    if v < 0 or v >= int(tk[j]): continue
                    t = tk[:j] + [str(v)] + tk[j + 1:]
                    if bad(lines[:i] + [" ".join(t)] + lines[i + 1:]):
                        tk = t; lines[i] = " ".join(tk); break
        return "\n".join([head] + lines) + "\n"


def crash_class(err, rc):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m: return "memory-" + m.group(1)
    return "crash-%d" % rc


def crash_text(err, rc):
    m = re.search(r"ERROR: AddressSanitizer: (?:(?! on (?:unknown )?address)[^\n])*", err)
    fr = [x for x in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) [^\n]*?/(liboptv/src/[^\s]+)", err)]
    return (m.group(0) if m else "process ended with %d" % rc) + (" at " + " < ".join("%s (%s)" % x for x in fr[:4]) if fr else "")


def variant(prop): return "ls" if prop in LS_PROPS else "py" if prop in PY_PROPS else "asan"


def known_findings(prop):
    """lines 'finding: property=<id> class=<class> <what fails>'"""
    out = {}
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3).strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int); ap.add_argument("--cap", type=float)
    ap.add_argument("--workers", type=int, default=WORKERS); ap.add_argument("--minimise", type=float, default=60)
    ap.add_argument("--hash", action="store_true", help="print a hash over all runs")
    a = ap.parse_args()
    t0 = time.time()
    exe = build(variant(a.prop))
    tb = time.time() - t0
    props = {l.split()[0]: l.split()[1:] for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()}
    if a.prop not in props: log("no such property"); return 2
    runs = a.runs or int(props[a.prop][1 if a.tier == "thorough" else 0])
    cap = a.cap or CAPS[a.tier]
    c = Checker(a.prop, a.tier, a.seed, exe)
    try:
        return run(a, c, runs, cap, t0, tb)
    finally:
        c.close()


def run(a, c, runs, cap, t0, tb):
    t1 = time.time()
    res = c.batch(runs, cap, a.workers)
    tr = time.time() - t1
    stats, hashes, covs, known = {}, set(), set(), {}
    viols, died, chash = [], [], 0
    for r in res:
        for k, v in r["stats"].items(): stats[k] = stats.get(k, 0) + v
        hashes |= set(r["hashes"]); covs |= set(r["covs"])
        for k in r["known"]:
            e = known.setdefault(k["class"], {"count": 0, "index": k["index"], "text": k["text"]})
            e["count"] += k["count"]
        viols += [(v["index"], v["viol"], v["msg"]) for v in r["violations"]]
        if "died" in r: died.append(r)
        else: chash ^= int(r["combined_hash"], 16)
    total = sum(r["runs"] for r in res); trivial = sum(r.get("trivial", 0) for r in res)
    if a.hash: log("combined hash %016x over %d runs" % (chash, total))
    for r in died:
        x = c.replay(c.gen(r["died"]))
        if x["viol"]:
            viols.append((r["died"], x["viol"], x["msg"]))
        elif r["hung"]:
            log("ERROR: worker stalled at run %d" % r["died"]); return 2
        else:
            log(r["stderr"]); log("ERROR: a worker died (%s) at run %d but its plan replays without trouble" % (r["rc"], r["died"])); return 2
    kf = known_findings(a.prop)
    for cl, e in sorted(known.items()):
        if cl in kf: log("KNOWN-FINDING: property=%s %s (%d of %d runs, first: %s)" % (a.prop, kf[cl], e["count"], total, e["text"]))
        else: viols.append((e["index"], "unlisted-" + cl, e["text"]))
    ret = 0; viol_out = []
    if viols:
        seen = set(); os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for idx, cls, msg in sorted(viols):
            if cls in seen or len(seen) >= 3: continue
            seen.add(cls)
            text = c.gen(idx); first = c.replay(text)
            if not first["viol"] and cls.startswith("unlisted-"): first = dict(first, viol=cls, msg=msg)
            if not first["viol"]:
                log("ERROR: violation %s (%s) of run %d does not replay" % (cls, msg, idx)); return 2
            small = text
            if first["viol"] == cls and not cls.startswith("unlisted-"): small = c.minimise(text, cls, a.minimise if len(seen) == 1 else 10)
            r1, r2 = c.replay(small), c.replay(small)
            exact = r1 == r2
            path = os.path.join(HERE, "replays", "%s-%d-%d.plan" % (a.prop, a.seed, idx))
            with open(path, "w") as f:
                f.write(small)
                f.write("# seed %d, run %d, %s; replay: %s/replay.sh %s\n# violation: %s: %s\n# replays exactly: %s, run hash %s\n" %
                        (a.seed, idx, a.tier, HERE, path, r1["viol"], r1["msg"].replace("\n", " "), exact, r1["hash"]))
            log("violation: %s: %s" % (r1["viol"] or cls, r1["msg"] or msg))
            log("  seed %d run %d; plan of %d lines (from %d); replays exactly: %s" % (a.seed, idx, len(small.splitlines()) - 1, len(text.splitlines()) - 1, exact))
            log("VIOLATION property=%s replay=%s" % (a.prop, path))
            viol_out.append({"class": r1["viol"] or cls, "message": r1["msg"] or msg, "run": idx, "replay": path})
        ret = 1
    sample_idx = [0, 1]
    samples = [{"run": i, "plan": c.gen(i).splitlines()[:40]} for i in sample_idx]
    hours = max(tr, 1e-6) / 3600
    meta = {}
    mf = os.path.join(HERE, "checks.json")
    if os.path.exists(mf): meta = json.load(open(mf)).get(a.prop, {})
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": meta.get("level", "exploration"),
          "coverage": {
              "evaluations": total, "distinct_nontrivial": max(0, len(hashes) - trivial),
              "rule": meta.get("rule", "") + " Distinct: different hash of the run's event log (every I/O transfer, fault, result and the final disk); runs in which nothing relevant happened are not counted.",
              "samples": samples, "planned_runs": runs, "seeds": "run i uses a seed derived from (%d, %s, i)" % (a.seed, a.prop),
              "runs_per_hour": int(total / hours), "distinct_event_logs": len(hashes), "trivial_runs": trivial,
              "distinct_coverage_signatures": len(covs),
              "coverage_measure": "set of library control-flow edges with bucketed hit counts, per run",
              "library_edges_reached": max([r.get("edges", 0) for r in res] + [0]), "library_edges_total": max([r.get("edges_total", 0) for r in res] + [0]),
              "program_points_simulated": sum(r.get("points", 0) for r in res),
              "simulated_time": "the library reads no clock; progress is counted in program points and I/O operations",
              "faults_and_events": {k: stats[k] for k in sorted(stats)},
              "repeat_checked": sum(r.get("repeat_checked", 0) for r in res), "not_repeatable": sum(r.get("not_repeatable", 0) for r in res),
              "combined_hash": "%016x" % chash,
              "real_code": meta.get("real", "all of liboptv/src, compiled from the working tree"),
              "stubbed": meta.get("stub", "file system, allocator, clock, randomness, message output"),
              "known_findings_met": {k: v["count"] for k, v in known.items()},
          },
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": len(viol_out), "violation_list": viol_out}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
    log("%s: %d runs (%d distinct, %d trivial), %d coverage signatures, %s, %.1f s (build %.1f s)" % (a.prop, total, len(hashes), trivial, len(covs), "VIOLATED" if ret else "held", time.time() - t0, tb))
    return ret


if __name__ == "__main__":
    sys.exit(main())
