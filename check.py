#!/usr/bin/env python3
"""Runs the check of one property: builds its simulation harnesses from /repo's current tree, searches seeds, gates and
minimises what fails, writes evidence/<id>.json.

    check.py <property> [quick|thorough]          exit 0 held, 1 violated, 2 the check itself failed
    check.py --replay <file>                      re-executes one replay file in a fresh process
    check.py --determinism <property>             same seeds twice in separate processes, compares every execution hash
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SAMURAI_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
sys.path.insert(0, HERE)
from checks_config import HARNESSES, CHECKS  # noqa: E402

JOBS = os.cpu_count() or 8


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include"), os.path.join(HERE, "sim"), os.path.join(HERE, "harness")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def include_dir(hc):
    """/repo/include itself, or (overlay 'nosimd') a copy without '#pragma omp simd' lines: gcc 13 fails with an internal error on one of
    them under -fopenmp; the pragma is a vectorisation hint and changes no result."""
    src = os.path.join(REPO, "include")
    if hc.get("overlay") != "nosimd":
        return src
    dst = os.path.join(BUILD, "inc-%s-%d" % (tree_hash(), os.getpid()))
    if not os.path.isdir(dst):
        tmp = dst + ".part"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(src, tmp)
        for d, _, fs in os.walk(tmp):
            for f in fs:
                p = os.path.join(d, f)
                t = open(p, encoding="utf-8", errors="surrogateescape").read()
                u = re.sub(r"(?m)^[ \t]*#[ \t]*pragma omp simd.*$", "", t)
                if u != t:
                    open(p, "w", encoding="utf-8", errors="surrogateescape").write(u)
        os.rename(tmp, dst)
    return dst


def commands(name, out, tier, incdir):
    hc = HARNESSES[name]
    opt = hc.get("opt_thorough" if tier == "thorough" else "opt", "-O1")
    inc = ["-I" + os.path.join(HERE, "sim"), "-I" + os.path.join(HERE, "sim/shim"), "-I" + incdir]
    src = os.path.join(HERE, "harness", hc["src"])
    base = ["g++", "-w", "-std=c++17"] + opt.split() + hc["defs"] + hc.get("flags", []) + inc
    if hc.get("two_step"):  # compiled with -fopenmp -fsanitize=thread, linked against the simulator's own runtime instead of theirs
        return [base + ["-c", src, "-o", out + ".o"], ["g++", out + ".o", "-o", out] + hc.get("libs", [])]
    return [base + ["-flto=%d" % JOBS, "-flto-partition=balanced"] + [src, "-o", out] + hc.get("libs", [])]


def build(names, tier):
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()

    def one(name):
        out = os.path.join(BUILD, "%s-%s-%s" % (name, "t" if tier == "thorough" else "q", th))
        if os.path.exists(out):
            return name, out, ""
        for f in os.listdir(BUILD):
            if f.startswith(name + "-"):
                try:
                    os.remove(os.path.join(BUILD, f))
                except OSError:
                    pass
        tmp = out + ".tmp%d" % os.getpid()
        for cmd in commands(name, tmp, tier, incs[name]):
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=BUILD)
            if r.returncode:
                return name, None, r.stderr[-4000:]
        os.rename(tmp, out)
        if os.path.exists(tmp + ".o"):
            os.remove(tmp + ".o")
        return name, out, ""

    incs = {n: include_dir(HARNESSES[n]) for n in names}
    with ThreadPoolExecutor(len(names)) as ex:
        res = list(ex.map(one, names))
    for d in set(incs.values()):
        if d.startswith(BUILD):
            shutil.rmtree(d, ignore_errors=True)
    bins = {}
    for name, out, err in res:
        if out is None:
            print("CHECK-ERROR: harness %s does not build against %s\n%s" % (name, REPO, err))
            sys.exit(2)
        bins[name] = out
    return bins


def known_findings(prop):
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\w+) harness=(\w+) scenario=(\S+) class=(\S+) seed=(\d+) count=(\d+) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[prop]
    parts = cfg["parts"]
    names = sorted({p["harness"] for p in parts})
    bins = build(names, tier)
    t_build = time.time() - t0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "GOMP_"))}
    scratch = os.path.join(BUILD, "run-%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    total = {"runs": 0, "nontrivial": 0, "interleavings": 0, "states": 0, "executions": 0, "sim_wall": 0.0}
    counters, samples, per_part, violations = {}, [], {}, []
    try:
        # known findings: report those that still fail
        for (_, h, scen, cls, fseed, count, text) in known_findings(prop):
            out = os.path.join(scratch, "kf.json")
            r = subprocess.run([bins[h], "--prop", prop, "--scenario", scen, "--seed", fseed, "--count", count, "--jobs", str(JOBS),
                                "--min-budget", "1", "--replay-out", os.path.join(scratch, "kf.replay"), "--out", out],
                               capture_output=True, text=True, env=env, cwd=scratch)
            if r.returncode == 1:
                d = json.load(open(out))
                if d["class"] in cls.split("|"):
                    print("KNOWN-FINDING: property=%s %s" % (prop, text))
                else:
                    violations.append((h, d, os.path.join(scratch, "kf.replay"), r.stdout))
            elif r.returncode != 0:
                print(r.stdout)
                print("CHECK-ERROR: harness %s scenario %s ended with %d" % (h, scen, r.returncode))
                return 2
        budget_total = cfg.get("budget", {}).get(tier, 40 if tier == "quick" else 600)
        if os.environ.get("VERIF_BUDGET"):
            budget_total = float(os.environ["VERIF_BUDGET"])
        wsum = sum(p.get("weight", 1) for p in parts)
        for i, p in enumerate(parts):
            if violations:
                break
            h = p["harness"]
            budget = budget_total * p.get("weight", 1) / wsum
            count = p.get("count", {}).get(tier, 10 ** 7)
            out = os.path.join(scratch, "part%d.json" % i)
            rep = os.path.join(REPLAYS, "%s-%s-seed%d.replay" % (prop, h, seed))
            cmd = [bins[h], "--prop", prop, "--seed", str(seed * 1000 + i), "--count", str(count), "--jobs", str(JOBS), "--budget", "%g" % budget,
                   "--min-budget", str(cfg.get("min_budget", 25 if tier == "quick" else 120)), "--replay-out", rep, "--out", out]
            if p.get("scenario"):
                cmd += ["--scenario", p["scenario"]]
            r = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=scratch)
            if r.returncode not in (0, 1):
                print(r.stdout[-3000:])
                print(r.stderr[-2000:])
                print("CHECK-ERROR: harness %s ended with %d" % (h, r.returncode))
                return 2
            d = json.load(open(out))
            total["runs"] += d["runs"]
            total["nontrivial"] += d["distinct_nontrivial"]
            total["interleavings"] += d["distinct_interleavings"]
            total["states"] += d["distinct_states"]
            total["executions"] += d["distinct_executions"]
            total["sim_wall"] += d["wall_s"]
            for k, v in d["counters"].items():
                counters[k] = counters.get(k, 0) + v
            samples += [h + " " + s for s in d["samples"]]
            per_part[h + ("/" + p["scenario"] if p.get("scenario") else "")] = {"runs": d["runs"], "wall_s": round(d["wall_s"], 2)}
            if r.returncode == 1:
                violations.append((h, d, rep, r.stdout))
        rc = 0
        for h, d, rep, text in violations[:1]:
            print(text)
            # gate: fresh process, same file, same violation
            if os.path.dirname(rep) == scratch:
                keep = os.path.join(REPLAYS, "%s-%s-known.replay" % (prop, h))
                shutil.copy(rep, keep)
                rep = keep
            shutil.copy(bins[h], os.path.join(BUILD, "replay-" + h))
            ok = 0
            for _ in range(2):
                g = subprocess.run([bins[h], "--replay", rep], capture_output=True, text=True, env=env, cwd=scratch)
                ok += g.returncode == 1
            if ok == 2:
                print("VIOLATION property=%s replay=%s" % (prop, rep))
                rc = 1
            else:
                print(g.stdout)
                print("CHECK-ERROR: the replay file %s did not reproduce the violation in a fresh process" % rep)
                rc = 2
        wall = time.time() - t0
        faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault:")}
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
            "coverage": {
                "evaluations": total["runs"], "distinct_nontrivial": total["nontrivial"], "rule": cfg["rule"], "samples": samples[:6] or ["none"],
                "distinct_interleavings": total["interleavings"],
                "interleaving_measure": "hash of the ordered sequence of (party, scheduling or communication event) of a run",
                "distinct_final_states": total["states"], "distinct_executions": total["executions"],
                "faults_injected": faults,
                "counters": {k: v for k, v in counters.items() if not k.startswith(("fault:", "nontrivial:"))},
                "simulated_runs_per_hour": int(3600 * total["runs"] / max(total["sim_wall"], 1e-6)),
                "simulated_time_s": counters.get("sim_ns", 100 * counters.get("sim_steps", 0)) * 1e-9,
                "real_components": cfg["real"], "simulated_components": cfg["stub"], "parts": per_part, "build_s": round(t_build, 1),
            },
            "assumptions": cfg["assumptions"], "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0,
        }
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d runs (%d distinct non-trivial), build %.0f s, total %.0f s, faults %s -> %s"
              % (prop, tier, total["runs"], total["nontrivial"], t_build, wall, faults, {0: "held", 1: "VIOLATED", 2: "check error"}[rc]))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    h = None
    with open(path) as f:
        for line in f:
            if line.startswith("binary "):
                h = line.split()[1]
    m = re.match(r"[A-Z]\d+-(.*)-(seed\d+|known)\.replay", os.path.basename(path))
    h = h or m.group(1)
    b = build([h], "quick")[h]
    return subprocess.run([b, "--replay", os.path.abspath(path), "--verbose", "1" if os.environ.get("VERBOSE") else "0"]).returncode


def determinism(prop, count):
    bins = build(sorted({p["harness"] for p in CHECKS[prop]["parts"]}), "quick")
    bad = 0
    for h, b in bins.items():
        o = [subprocess.run([b, "--prop", prop, "--hashes", "1", "--seed", "7", "--count", str(count), "--jobs", str(j)], capture_output=True, text=True).stdout
             for j in (JOBS, 1 + JOBS // 3)]
        same = o[0] == o[1]
        bad += not same
        print("%s: %d seeds, executions %s" % (h, count, "identical" if same else "DIFFER"))
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "--determinism":
        sys.exit(determinism(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 300))
    sys.exit(run_check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
