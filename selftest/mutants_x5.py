# gate types written as enumerators or named constants
import os, re
R = os.environ.get("ST_REPO", "/repo")
MUTANTS = []
NAMES = ["ADD", "MULT", "DUMMY", "INPUT", "REMOVED", "SUM", "NOT", "MINUS", "XOR", "NAAB", "RELAY"]


def text(f):
    return open(os.path.join(R, f), newline="").read().replace("\r\n", "\n")


def decl(style, vals):
    if style == "enum":
        return "enum gate_type { " + ", ".join("GT_%s = %d" % x for x in zip(NAMES, vals)) + " };\n"
    if style == "auto":
        return "enum gate_type { " + ", ".join("GT_%s" % x for x in NAMES) + " };\n"
    if style == "const":
        return "".join("static const int GT_%s = %d;\n" % x for x in zip(NAMES, vals))
    if style == "cexpr":
        return "".join("constexpr int GT_%s = %d;\n" % x for x in zip(NAMES, vals))
    return "".join("#define GT_%s %d\n" % x for x in zip(NAMES, vals))


def m(name, prog, f, style, expect=None, vals=range(11)):
    s = text(f)
    inc = re.search(r'#include "[^"]*"\n', s).group(0)
    edits = [(inc, inc + decl(style, vals))]
    for k in range(11):
        for pat in ("ty == %d)", "ty == %d ", "ty != %d)", "ty != %d "):
            p = pat % k
            if p in s:
                edits.append((p, p.replace(str(k), "GT_" + NAMES[k]), 0))
    MUTANTS.append(("x5-" + name, prog, expect, {f: edits}))


SWAP = [0, 1, 2, 3, 4, 5, 6, 8, 7, 9, 10]
AM = [1, 0] + list(range(2, 11))
NOT = [0, 1, 2, 3, 4, 5, 10, 7, 8, 9, 6]
L = "src/linear_gkr/"
T = "src/traditional_gkr/"
for st in ("enum", "auto", "const", "cexpr", "define"):
    m("eval-" + st, "eval-linear", L + "prover_fast_track.cpp", st)
    m("ver-" + st, "linear", L + "verifier_fast_track.cpp", st)
for st in ("enum", "auto"):
    m("prove-" + st, "prove-linear", L + "prover_fast_track.cpp", st)
    m("pprove-" + st, "prove-para", L + "prover_fast_para_track.cpp", st)
    m("peval-" + st, "eval-para", L + "prover_fast_para_track.cpp", st)
    m("tprove-" + st, "prove-bclogc", T + "prover_clogc.cpp", st)
    m("tver-" + st, "bclogc", T + "verifier_traditional.cpp", st)
    m("bver-" + st, "bc_clogc", T + "verifier_bc_clogc.cpp", st)
m("eval-swap", "eval-linear", L + "prover_fast_track.cpp", "enum", ["E01"], SWAP)
m("ver-swap", "linear", L + "verifier_fast_track.cpp", "enum", ["V05"], SWAP)
m("peval-not", "eval-para", L + "prover_fast_para_track.cpp", "enum", ["E01"], AM)
m("tver-swap", "bclogc", T + "verifier_traditional.cpp", "enum", ["V05"], AM)
m("teval-swap", "eval-bclogc", T + "prover_clogc.cpp", "enum", ["E01"], AM)
m("eval-const-swap", "eval-linear", L + "prover_fast_track.cpp", "const", ["E01"], SWAP)
m("ver-cexpr-swap", "linear", L + "verifier_fast_track.cpp", "cexpr", ["V05"], SWAP)
for st in ("const", "cexpr"):
    m("prove-" + st, "prove-linear", L + "prover_fast_track.cpp", st)
    m("pprove-" + st, "prove-para", L + "prover_fast_para_track.cpp", st)
    m("tprove-" + st, "prove-bclogc", T + "prover_clogc.cpp", st)
PP = L + "prover_fast_para_track.cpp"
for a in ("race-para", "prove-para", "mem-para", "eval-para", "field-para"):
    MUTANTS.append(("x5-threads-const-" + a, a, None, {PP: [("#define NUM_THREADS 4", "static const int NUM_THREADS = 4;")]}))
    MUTANTS.append(("x5-threads-enum-" + a, a, None, {PP: [("#define NUM_THREADS 4", "enum { NUM_THREADS = 4 };")]}))
    MUTANTS.append(("x5-threads-cexpr-" + a, a, None, {PP: [("#define NUM_THREADS 4", "constexpr int NUM_THREADS = 8;")]}))
