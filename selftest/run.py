"""Developer tool: apply each textual mutant to a scratch copy and show what the analysis says.
usage: run.py [name-prefix ...]   (mutants are in mutants_*.py beside this file)"""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ST_REPO", "/repo")


def edit(f, pairs):
    s = open(f, newline="").read()
    crlf = "\r\n" in s
    for pr in pairs:
        a, b = pr[:2]
        n = pr[2] if len(pr) > 2 else 1
        if crlf:
            a, b = a.replace("\r\n", "\n").replace("\n", "\r\n"), b.replace("\n", "\r\n")
        assert s.count(a) >= 1 and (n == 0 or s.count(a) == n), (f, s.count(a), a)
        s = s.replace(a, b)
    open(f, "w", newline="").write(s)


def load():
    out = []
    for p in sorted(glob.glob(HERE + "/mutants_*.py")):
        spec = importlib.util.spec_from_file_location("m", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.MUTANTS
    return out


def one(m):
    name, prog, expect, files = m
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        for x in ("src", "include"):
            shutil.copytree(os.path.join(REPO, x), os.path.join(d, x))
        for x in glob.glob(REPO + "/*.cpp"):
            shutil.copy(x, d)
        os.makedirs(os.path.join(d, "bin"))
        for x in glob.glob(REPO + "/bin/*.cpp"):
            shutil.copy(x, os.path.join(d, "bin"))
        try:
            for f, pairs in files.items():
                edit(os.path.join(d, f), pairs)
        except AssertionError as e:
            return name, expect, "EDIT-FAILED %s" % (e,), "??"
        env = dict(os.environ, SA_REPO=d)
        r = subprocess.run([sys.executable, HERE + "/../sa/check.py", "--dev", prog], env=env, capture_output=True, text=True, timeout=600)
        lines = [l for l in r.stdout.splitlines() if not l.startswith("ok ")]
        viol = set()
        for l in lines:
            if l.startswith("violated"):
                viol |= set(l.split("[")[1].split("]")[0].split(","))
        if r.returncode not in (0, 1) or "Traceback" in r.stderr:
            return name, expect, "CRASH " + r.stderr[-800:], "??"
        if expect is None:
            verdict = "good" if not viol else "FALSE ALARM"
        else:
            verdict = "good" if set(expect) <= viol or (len(expect) > 5 and viol) else ("TAGS" if set(expect) & viol else "MISSED")
        return name, expect, "\n".join("     " + l[:260] for l in lines), verdict
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ms = [m for m in load() if not sys.argv[1:] or any(m[0].startswith(a) for a in sys.argv[1:])]
    with ThreadPoolExecutor(7) as ex:
        bad = 0
        for name, expect, txt, verdict in ex.map(one, ms):
            print("%-12s %-28s expect=%s" % (verdict, name, expect))
            if txt:
                print(txt)
            bad += verdict != "good"
    print(len(ms), "mutants,", bad, "bad")
