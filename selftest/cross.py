"""Developer tool: run every analysis on every behaviour-preserving mutant and show alarms."""
import os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run


def one(m):
    name, prog, expect, files = m
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        for x in ("src", "include"):
            shutil.copytree(os.path.join(run.REPO, x), os.path.join(d, x))
        for x in glob.glob(run.REPO + "/*.cpp"):
            shutil.copy(x, d)
        try:
            for f, pairs in files.items():
                run.edit(os.path.join(d, f), pairs)
        except AssertionError as e:
            return name, "EDIT"
        r = subprocess.run([sys.executable, run.HERE + "/../sa/check.py", "--dev", "all"], env=dict(os.environ, SA_REPO=d), capture_output=True, text=True)
        return name, "\n".join(l[:300] for l in r.stdout.splitlines() if l.startswith("violated")) + (r.stderr[-500:] if "Traceback" in r.stderr else "") + "  und=%d" % sum(l.startswith("undecided") for l in r.stdout.splitlines())
    finally:
        shutil.rmtree(d)


ms = [m for m in run.load() if m[2] is None and (not sys.argv[1:] or any(m[0].startswith(a) for a in sys.argv[1:]))]
with ThreadPoolExecutor(7) as ex:
    for name, t in ex.map(one, ms):
        print(name, t, flush=True)
