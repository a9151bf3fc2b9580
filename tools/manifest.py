"""Source of MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "V": "abstract interpretation over the clang AST (value-numbering normal forms with loop summaries, prover results modelled as adversarial)",
    "E": "abstract interpretation over the clang AST (value-numbering normal forms with loop summaries) of the circuit evaluator, compared per gate type with the gate functions",
    "F01": "abstract interpretation over the clang AST in the domain of exact integer terms with floors (limb-wise operations compared with the integer operation as normal forms over all limb values)",
    "F02": "abstract interpretation in the domain of exact integer terms with floors for the field operations, plus a whole-program interval analysis of every place that combines representations",
    "F03": "abstract interpretation over the clang AST (polynomial normal forms) of each operation of the message polynomials, plus interval analysis",
    "R01": "abstract interpretation of main over the clang AST with the verifiers' answers as free truth values; announcing condition compared with their conjunction, object identities by value numbering",
    "M01": "abstract interpretation of the circuit loader over the clang AST with the file as a symbolic token sequence (value-numbering normal forms, loop summaries); loaded tables compared cell by cell with the file's",
    "M02": "abstract interpretation over the clang AST of loader, evaluator, prover and verifier, recording every indexed access and release with its path condition; bounds by monotone upper bounds of normal forms against allocation sizes, releases by value-numbered object identity",
    "P01": "effect analysis over the clang AST: read/write sets of every worker as value-numbered index sets with path conditions, worker disjointness and coverage of the fork-join steps, thread handles matched with joins",
    "G02": "abstract interpretation of the circuit generator over the clang AST (value-numbering normal forms, loop summaries): the tree of written numbers is parsed by the circuit-file grammar with polynomial gate numbers, widths and wire bounds",
    "H": "abstract interpretation over the clang AST (value-numbering normal forms, closed-form loop summaries) of the prover's entry points, compared with the sumcheck polynomial of the layer equation",
}
NOTE = {}
CLAIMED = ["V01", "V02", "V03", "V04", "V05", "V06", "E01", "H01", "H02", "F01", "F02", "F03", "R01", "M01", "M02", "P01", "G02"]
NA = {
    "S01": "A probability bound over all adversaries' strategies and the quality of the random source are not visible in the shape of the code; the structural conditions it needs are V01-V06.",
    "Z01": "The zero-knowledge variant needs the bn pairing library, whose headers are not installed, so it cannot be type-checked here; indistinguishability of distributions is in any case out of reach of a static rule.",
    "T01": "Running time is a resource bound over runtime quantities; no sound static argument in reach decides it here.",
    "G01": "The generators are stand-alone scripts and programs whose outputs are data; that the emitted gate list computes SHA-256 or a Lanczos filter is a functional statement about runtime data.",
}
BASE = ("Sound for the rule set listed in the evidence relative to the engine (sa/term.py, sa/interp.py) and clang's AST: "
        "an obligation is reported broken only when both sides are fully known normal forms that differ; what the engine cannot follow is reported as undecided in the evidence and stays quiet. "
        "Assumes well-formed circuits (wires inside the layer below), no integer overflow in layer sizes, library functions behave as documented.")


def main():
    ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
    checks = []
    for p in CLAIMED:
        checks.append({"property": p, "quick_cmd": "python3 sa/check.py %s quick" % p, "thorough_cmd": "python3 sa/check.py %s thorough" % p,
                       "technique": TECH.get(p) or TECH[p[0]], "level": "other", "level_note": NOTE.get(p, BASE)})
    na = [{"property": i, "reason": NA.get(i, "analysis not built yet")} for i in ids if i not in CLAIMED]
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks are added to /repo. Repairs are the commits whose message starts with fix:, listed in known-findings.txt."}
    json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)


main()
