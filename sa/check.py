"""Driver: python3 sa/check.py <property> [quick|thorough]

Runs every analysis that has obligations for the property on the current tree of /repo, writes
evidence/<property>.json, prints one VIOLATION line per broken obligation and exits 1, or exits 0.
Exit 2: no obligation at all could be discharged (source does not parse, entry points vanished).
"""
import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from frontend import Program, PROGRAMS, AnalysisError, REPO   # noqa: E402
import analyses                                                # noqa: E402

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known():
    """known: property=<id> <obligation id> <construct key> -- text"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known:"):
                head, _, text = l[len("known:"):].partition("--")
                w = head.split()
                out[(w[0].split("=", 1)[1], w[1])] = text.strip()
    return out


def rel(f):
    return os.path.relpath(f, REPO) if f and f.startswith(REPO + os.sep) else f


def gather(names, verbose=False):
    obs, errs, units = [], [], {}
    for n in names:
        try:
            o, u = analyses.run(n)
            obs += o
            units.update(u)
        except AnalysisError as e:
            errs.append("%s: %s" % (n, e))
        except RecursionError:
            errs.append("%s: recursion limit" % n)
        except Exception as e:
            if verbose:
                traceback.print_exc()
            errs.append("%s: internal error: %s %s" % (n, type(e).__name__, e))
    return obs, errs, units


def check(pid, tier):
    t0 = time.time()
    names = analyses.for_property(pid)
    if not names:
        print("no analysis for property", pid)
        return 2
    obs, errs, units = gather(names)
    obs = [o for o in obs if pid in o.props]
    kf = known()
    viol, found = [], []
    for o in obs:
        if o.status == "violated":
            if (pid, o.id) in kf:
                found.append(o)
            else:
                viol.append(o)
    und = [o for o in obs if o.status == "undecided"]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": analyses.EXPLAIN.get(pid, "") or "static analysis of the type-checked source",
            "obligations": len(obs),
            "discharged": sum(o.status == "ok" for o in obs),
            "undecided": ["%s at %s:%s: %s" % (o.id, rel(o.file), o.line, (o.detail or o.what)[:200]) for o in und],
            "analyses_run": names,
            "analysed": units,
            "rules": [{"id": o.id, "status": o.status, "rule": o.what, "at": "%s:%s" % (rel(o.file), o.line)} for o in obs],
            "no_answer": errs,
        },
        "assumptions": analyses.ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (analyses: %s; %.1f s)"
          % (pid, len(obs), ev["coverage"]["discharged"], len(und), len(viol), ", ".join(names), ev["wall_s"]))
    for o in und:
        print("  undecided %s at %s:%s: %s %s" % (o.id, rel(o.file), o.line, o.what, (o.detail or "")[:160]))
    for e in errs:
        print("  no answer from " + e)
    for o in found:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, o.id, kf[(pid, o.id)]))
    if viol:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for k, o in enumerate(viol):
            p = os.path.join(rd, "%s-%d.txt" % (pid, k))
            with open(p, "w") as f:
                f.write("property %s\nrule     %s\n         %s\nat       %s:%s\n%s\n\nreproduce: python3 %s/sa/check.py %s\n"
                        % (pid, o.id, o.what, rel(o.file), o.line, o.detail, VERIF, pid))
            print("  broken: %s at %s:%s: %s %s" % (o.id, rel(o.file), o.line, o.what, (o.detail or "")[:400]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if not any(o.status == "ok" for o in obs):
        print("no answer: " + ("; ".join(errs) or "no obligation was generated"))
        return 2
    return 0


def dev(names):
    if names == ["all"]:
        names = list(analyses.ANALYSES)
    obs, errs, _ = gather(names, verbose=True)
    for o in obs:
        print(o)
    for e in errs:
        print("ERROR", e)
    return 1 if any(o.status == "violated" for o in obs) else (2 if errs else 0)


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--dev":
            rc = dev(sys.argv[2].split(","))
        else:
            rc = check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
