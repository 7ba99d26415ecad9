#!/usr/bin/env python3
"""Helper used while planting bugs (not used by any check).

seed.py make <id> <property> <worktree> <needs> <what>     patch.diff from the worktree's uncommitted change + meta.json
seed.py confirm <id>                                        build + stable tests + demo with and without the patch, in a scratch copy
seed.py check <id> [property ...]                           runs checks against a scratch tree that has the patch
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, **k)


def tree(sid):
    d = "/tmp/seedtree/" + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seedtree", exist_ok=True)
    sh("git clone -q /repo " + d, check=True)
    return d


DEMO = """#!/bin/bash
# builds the simulation program beside this file against ./include (cwd: the repository) and runs a fixed range of seeds
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
%s
cd "$out" && ./demo --prop %s --seed %s --count %s --jobs 8 --min-budget 5 --replay-out "$out/replay" %s
"""
PLAIN = 'g++ -w -std=c++17 -flto=8 -flto-partition=balanced %s -I"$here/sim" -I"$here/sim/shim" -I"$PWD/include" "$here/%s" -o "$out/demo" %s || exit 3'
OMP = """# '#pragma omp simd' hints make gcc 13 fail with an internal error
cp -r "$PWD/include" "$out/include" && find "$out/include" -name '*.hpp' -exec sed -i '/^[ \\t]*#[ \\t]*pragma omp simd/d' {} +
g++ -c -w -std=c++17 %s -I"$here/sim" -I"$here/sim/shim" -I"$out/include" "$here/%s" -o "$out/demo.o" || exit 3
g++ "$out/demo.o" -o "$out/demo" %s || exit 3"""


def demo(sid, harness, prop, seed, count, more="", defs=""):
    sys.path.insert(0, HERE)
    from checks_config import HARNESSES
    hc = HARNESSES[harness]
    sd = os.path.join(HERE, "seeded", sid)
    shutil.rmtree(sd + "/sim", ignore_errors=True)
    shutil.copytree(HERE + "/sim", sd + "/sim")
    for f in [hc["src"]] + hc.get("deps", ["model.hpp"]):
        shutil.copy(HERE + "/harness/" + f, sd)
    build = (OMP if hc.get("two_step") else PLAIN) % (" ".join([hc.get("opt", "-O1"), defs] + hc["defs"] + hc.get("flags", [])), hc["src"], " ".join(hc.get("libs", [])))
    open(sd + "/demo.sh", "w").write(DEMO % (build, prop, seed, count, more))


def plant(sid, prop, f, old, new, occ, needs, what):
    s = open("/repo/include/samurai/" + f).read()
    i = -1
    for _ in range(occ + 1):
        i = s.index(old, i + 1)
    d = tree(sid)
    open(d + "/include/samurai/" + f, "w").write(s[:i] + new + s[i + len(old):])
    sys.argv = ["seed.py", "make", sid, prop, d, needs, what]
    main()
    shutil.rmtree(d)


def main():
    cmd, sid = sys.argv[1:3]
    sd = os.path.join(HERE, "seeded", sid)
    if cmd == "make":
        prop, wt, needs, what = sys.argv[3:7]
        os.makedirs(sd, exist_ok=True)
        diff = subprocess.run(["git", "-C", wt, "diff"], text=True, capture_output=True).stdout
        assert diff
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(sd, "meta.json"), "w"), indent=1)
        sh("git -C %s checkout -q -- ." % wt)
    elif cmd == "check":
        d = tree(sid)
        sh("git -C %s apply %s/patch.diff" % (d, sd), check=True)
        props = sys.argv[3:] or [json.load(open(sd + "/meta.json"))["property"]]
        for p in props:
            r = sh("python3 check.py %s quick" % p, cwd=HERE, env=dict(os.environ, SAMURAI_REPO=d, VERIF_SEED="1"), capture_output=True)
            line = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "CHECK-ERROR", "minimal", "INTERNAL", p + " quick"))]
            print(sid, p, "rc", r.returncode, "\n   " + "\n   ".join(x[:400] for x in line))
        shutil.rmtree(d)
    elif cmd == "confirm":
        # in the real /repo: apply, build, test, demo, undo
        assert not subprocess.run("git -C /repo status --porcelain", shell=True, text=True, capture_output=True).stdout.strip()
        demo = "/tmp/seeddemo/" + sid
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(sd, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r0 = sh("timeout 300 bash %s/demo.sh" % demo, cwd="/repo", capture_output=True)
        print(sid, "demo clean:", r0.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else "")
        sh("git -C /repo apply %s/patch.diff" % sd, check=True)
        try:
            if "--nobuild" not in sys.argv:
                b = sh("bash /opt/vp/build.sh", capture_output=True)
                t = sh("bash /opt/vp/test.sh /tmp/seedtest.json", capture_output=True)
                j = json.load(open("/tmp/seedtest.json"))
                print(sid, "build", b.returncode, "passed", len(j["passed"]), "failed", len(j["failed"]))
            r1 = sh("timeout 300 bash %s/demo.sh" % demo, cwd="/repo", capture_output=True)
            print(sid, "demo patched:", r1.returncode, (r1.stdout + r1.stderr)[-300:])
        finally:
            sh("git -C /repo checkout -- .")
            shutil.rmtree(demo, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "demo":
        demo(*sys.argv[2:])
    else:
        main()
