"""Definitions of the planted bugs; writes seeded/<id>/ and tries the demonstration on a scratch copy.
usage: seeds.py [id ...] [--notest]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "selftest"))
from run import edit
REPO = "/repo"
LV, LP = "src/linear_gkr/verifier_fast_track.cpp", "src/linear_gkr/prover_fast_track.cpp"
TV, TP = "src/traditional_gkr/verifier_traditional.cpp", "src/traditional_gkr/prover_clogc.cpp"
BV, BP = "src/traditional_gkr/verifier_bc_clogc.cpp", "src/traditional_gkr/prover_bc_clogc.cpp"
PF, PO = "src/linear_gkr/prime_field.cpp", "src/linear_gkr/polynomial.cpp"
S = {}
# a small circuit with additions and multiplications only: 4 inputs, two layers of 4, output of 2
C_SMALL = "4\n4 3 0 7 0 3 1 11 0 3 2 5 0 3 3 2 0\n4 1 0 0 1 0 1 1 2 1 2 2 3 0 3 0 3\n4 0 0 0 1 1 1 2 3 1 2 0 2 0 3 1 3\n2 1 0 0 1 0 1 2 3\n"


def seed(id, prop, edits, needs, breaks, prog, main, circuit=C_SMALL, files=None, script=None):
    S[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, prog=prog, main=main, circuit=circuit, files=files or {}, script=script)


DEMO = """#!/bin/bash
# cwd /repo. exit 0: the property holds; nonzero: broken.
set -e
. "$(cd "$(dirname "$0")" && pwd)/build.inc"
build_demo %d "$here/demo.cpp" "$work/demo"
cd "$work"
timeout 200 ./demo "$here/circuit.txt" 2>/dev/null
"""


def write(id):
    s = S[id]
    d = os.path.join(ROOT, "seeded", id)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run("git -C %s archive HEAD src include bin/gen.cpp parser_sha.cpp parser_lanczos.cpp parser_sha_data_parallel.cpp | tar x -C %s" % (REPO, tmp), shell=True, check=True)
        subprocess.run("git init -q . && git -c core.autocrlf=false add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=tmp, check=True)
        for f, prs in s["edits"].items():
            edit(os.path.join(tmp, f), prs)
        diff = subprocess.run(["git", "-c", "core.autocrlf=false", "diff"], cwd=tmp, capture_output=True, check=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        shutil.rmtree(tmp)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if s["script"]:
        open(d + "/demo.sh", "w").write(s["script"])
        if "build.inc" in s["script"]:
            shutil.copy(HERE + "/cheat/build.inc", d)
    else:
        open(d + "/demo.sh", "w").write(DEMO % s["prog"])
        shutil.copy(HERE + "/cheat/build.inc", d)
    if s["main"]:
        shutil.copy(HERE + "/cheat/cheat.h", d)
        open(d + "/demo.cpp", "w").write(s["main"])
        open(d + "/circuit.txt", "w").write(s["circuit"])
    for n, t in s["files"].items():
        open(os.path.join(d, n), "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)


def trydemo(id):
    d = os.path.join(ROOT, "seeded", id)
    wt = tempfile.mkdtemp(prefix="seedwt_")
    try:
        subprocess.run("git -C %s archive HEAD | tar x -C %s" % (REPO, wt), shell=True, check=True)
        dd = wt + "_demo"
        shutil.copytree(d, dd)
        for x in ("patch.diff", "meta.json"):
            os.remove(os.path.join(dd, x))
        a = subprocess.run(["bash", dd + "/demo.sh"], cwd=wt, capture_output=True, text=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=wt, check=True)
        b = subprocess.run(["bash", dd + "/demo.sh"], cwd=wt, capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode != 0
        env = dict(os.environ, SA_REPO=wt)
        c = subprocess.run([sys.executable, ROOT + "/sa/check.py", S[id]["prop"]], env=env, capture_output=True, text=True)
        v = [l for l in c.stdout.splitlines() if l.startswith("  broken")]
        print("%-28s %s demo clean=%d patched=%d %s | check rc=%d %s" % (id, "OK " if ok else "BAD", a.returncode, b.returncode, "" if ok else (a.stdout + a.stderr + b.stdout + b.stderr)[-800:], c.returncode, (v[0] if v else c.stdout[-300:])[:260]), flush=True)
    finally:
        shutil.rmtree(wt)
        if os.path.isdir(wt + "_demo"):
            shutil.rmtree(wt + "_demo")


sys.modules["seeds"] = sys.modules[__name__]
import seed_defs   # noqa: E402,F401

if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(S)
    for i in ids:
        write(i)
    if "--notest" not in sys.argv:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(trydemo, ids))
