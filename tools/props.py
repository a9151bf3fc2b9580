"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
V_FILES = ["src/linear_gkr/verifier_fast_track.cpp", "src/linear_gkr/verifier_fast_para_track.cpp", "src/traditional_gkr/verifier_traditional.cpp",
           "src/traditional_gkr/verifier_bc_clogc.cpp"]
P_FILES = ["src/linear_gkr/prover_fast_track.cpp", "src/linear_gkr/prover_fast_para_track.cpp", "src/traditional_gkr/prover_clogc.cpp",
           "src/traditional_gkr/prover_bc_clogc.cpp"]
T_HONEST = "The test suite only runs the repository's own honest prover on a few dozen generated circuits, where every check succeeds: "
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)


prop("V01", "Acceptance requires every check of the interactive proof",
     "A verifier accepts a claimed output only after every sumcheck round of every phase of every layer, every layer's closing check and the final check against the input have all succeeded. No circuit, no prover message and no outcome of the coins opens a path to acceptance that skips, shortens or weakens one of these checks.",
     ["programs", "inputs", "histories"], "All circuits of supported gates, all (malicious) prover message sequences, all verifier coins, in each of the four proof programs that compile.",
     T_HONEST + "a check that is missing, conditional or short-circuited is never exercised, because no test sends a wrong message.",
     V_FILES, [("verifier::verify", "src/linear_gkr/verifier_fast_track.cpp"), ("verifier::verify", "src/traditional_gkr/verifier_traditional.cpp"),
               ("verifier::verify", "src/traditional_gkr/verifier_bc_clogc.cpp")], ["return value of the verifier", "Pass/Fail output"])
prop("V02", "Claims are threaded without a gap from the output to the input",
     "In every round the verifier requires the round polynomial's values at 0 and 1 to add up to the current claim and makes the polynomial's value at the round's challenge the next claim; the last claim of a layer is compared with the layer's own equation. The two values claimed there are combined into the first claim of the layer below, and at the bottom into the value compared with the input.",
     ["programs", "inputs", "histories"], "All circuits, layers, rounds and prover messages.",
     T_HONEST + "with consistent messages a wrong or stale claim chain can still be self-consistent, and rounds that are not compared are invisible.",
     V_FILES, [("round loops and claim updates in verifier::verify", "all four verifiers")], ["return value of the verifier"])
prop("V03", "Challenges are fresh, random, independent and revealed only when due",
     "Every challenge a verifier uses - the output point, each round's challenge in each layer and phase, and the coefficients combining two claims - is drawn anew and independently from the random source for that use. It reaches the prover only after the message it tests has been received.",
     ["histories", "programs"], "All circuits, layers and rounds, and all strategies of a prover that adapts its messages to what it has seen.",
     T_HONEST + "the honest prover ignores what it could predict, so reused, constant or leaked challenges do not change any outcome.",
     V_FILES, [("generate_randomness and challenge use in verifier::verify", "all four verifiers")], ["challenges passed to the prover", "return value of the verifier"])
prop("V04", "The verdict rests only on the verifier's own data and once-bound messages",
     "Every value that enters a verifier's decision is computed by the verifier itself from the circuit, the claimed output, the input and its own coins, or is a protocol message that is received once and then used with the same value in every check and claim that mentions it.",
     ["histories", "inputs"], "All provers, including ones that keep state or answer the same question differently each time.",
     T_HONEST + "values taken from the prover instead of recomputed, and messages re-read after they were checked, agree with the honest values.",
     V_FILES, [("verifier::verify; beta_init; V_in; wiring predicates", "all four verifiers")], ["return value of the verifier"])
prop("V05", "Each layer's closing check enforces exactly that layer's gates",
     "The closing check of a layer equates the last claim with the sum over all gates of the layer of the gate's multilinear selector at the challenge points times that gate type's function of the two claimed values. Every gate of the layer takes part exactly once, with its own type and both of its wires, for all supported gate types.",
     ["programs", "inputs"], "All layered circuits over the supported gate types (add, multiply, dummy, direct relay, sum, not, minus, xor, naab, relay), all gate positions and wirings, all challenge points and messages.",
     T_HONEST + "and prover and verifier share the same conventions, so a wiring predicate that is wrong on both sides, or too weak, passes.",
     V_FILES, [("add/mult/relay/not/minus/xor/naab/sum wiring functions", "src/linear_gkr/verifier_fast_track.cpp"), ("add, mult", "traditional verifiers")], ["return value of the verifier"])
prop("V06", "Claimed output and public input are bound by their extensions",
     "The first claim is the multilinear extension of the claimed output, over the whole output layer, at a random point, and the last claim is compared with the multilinear extension of the input values fixed by the circuit over the whole input layer, both evaluated by the verifier itself. A claimed output or an input that differs in any single position is therefore not covered by the same claim.",
     ["inputs", "programs"], "All circuits, all claimed outputs, all positions of the input and output layers.",
     T_HONEST + "the claimed output is always the honest one, so positions left out of an extension never matter.",
     V_FILES, [("V_in", "all four verifiers"), ("input and output parts of verifier::verify", "all four verifiers")], ["return value of the verifier"])
prop("R01", "The reported verdict is the verifier's verdict",
     "Each proof program announces success exactly when the verifier accepted; when several instances are proved, success requires that every instance was accepted. Verdict, circuit and prover reported on belong to the same run.",
     ["programs", "inputs"], "All command lines, circuits and verification outcomes.",
     "Every test run succeeds, so nothing distinguishes a reported success from a hard-coded one, and the failing branch is never taken.",
     ["src/linear_gkr/main_fast_track.cpp", "src/linear_gkr/main_fast_para_track.cpp", "src/traditional_gkr/bclogc.cpp", "src/traditional_gkr/bc_clogc.cpp"],
     [("main", "main_fast_track.cpp, main_fast_para_track.cpp, bclogc.cpp, bc_clogc.cpp")], ["stdout"])
prop("E01", "Circuit evaluation computes every gate's defined function",
     "Evaluating a circuit gives each gate of each layer the value its type defines on the values of its two wires in the layer below (sum, product, difference, xor, and-not, not, relay, range sum, constant input, dummy zero), for every gate position, and returns the top layer's values as the output.",
     ["programs", "inputs"], "All layered circuits over supported gate types and all input values, in each of the four evaluators.",
     "The tests never look at the output values, only at whether the proof verifies; circuits used contain a few gate-type patterns only.",
     P_FILES, [("prover::evaluate", "all four provers")], ["claimed output passed to the verifier"])
prop("H01", "The linear-time provers send exactly the sumcheck polynomials",
     "For every circuit and challenge sequence, the message of the linear-time prover, sequential or parallel, in each round is the polynomial obtained by summing the layer's gate equation over the remaining variables with the earlier ones fixed to the challenges, and its closing values are the extensions of the layer below at the two challenge points. Hence a correct output is always accepted.",
     ["programs", "inputs", "histories"], "All circuits of supported gate types, layer sizes and challenges.",
     "Tests cover a handful of gate mixes; errors that need other gate types, wire patterns (both wires equal, uneven layer sizes) or table positions stay silent.",
     ["src/linear_gkr/prover_fast_track.cpp", "src/linear_gkr/prover_fast_para_track.cpp"],
     [("sumcheck_phase1_init/update, sumcheck_phase2_init/update, sumcheck_finalize", "src/linear_gkr/prover_fast_track.cpp"), ("the same and the workers phase1_beta_func ... phase2_update_func", "src/linear_gkr/prover_fast_para_track.cpp")],
     ["prover messages", "Pass/Fail output"])
prop("H02", "The traditional provers send exactly the sumcheck polynomials",
     "For every circuit, number of copies and challenge sequence, the two traditional provers' message in each round is the polynomial obtained by summing the layer's gate equation over the remaining variables with the earlier ones fixed to the challenges, and the closing values are the extensions of the layer below at the challenge points. Hence a correct output is always accepted.",
     ["programs", "inputs", "histories", "configurations"], "All circuits of supported gate types, copy counts, layer sizes and challenges.",
     "Tests cover five generated circuits and two copy counts.",
     ["src/traditional_gkr/prover_clogc.cpp", "src/traditional_gkr/prover_bc_clogc.cpp"],
     [("sumcheck_init/update functions", "src/traditional_gkr")], ["prover messages", "Pass/Fail output"])
prop("F01", "Wide-integer arithmetic is exact",
     "The 256- and 512-bit unsigned integers add, subtract, shift, compare, test bits and convert like the mathematical integers modulo their width, for every pair of operands including those with carries or borrows through every limb. Products are exact as well: 256-bit ones modulo 2^256, 512-bit ones whenever both operands are below 2^256; text is read in its base as long as the powers of the base stay below 2^256.",
     ["inputs"], "All limb values of all operands.",
     "Tests only ever exercise random-looking operands of protocol runs; a carry that is lost for one limb pattern in 2^64 is not sampled.",
     ["src/linear_gkr/prime_field.cpp", "include/linear_gkr/prime_field.h"], [("u256b, u512b operators", "src/linear_gkr/prime_field.cpp")], ["operator results"])
prop("F02", "Field operations are exact modular arithmetic with canonical results",
     "Sums, differences, products, negations and comparisons of field elements agree with arithmetic modulo the documented prime and leave every result reduced below it, for all reduced operands; the reduction is exact for every number below 2^508. Wherever the proof programs combine representations directly, no intermediate value leaves the range in which product, reduction, difference and comparison are exact.",
     ["inputs"], "All pairs of reduced field elements, at every place the proof programs combine them.",
     "Off-by-one reductions and missing conditional subtractions show on a vanishing fraction of operands.",
     ["src/linear_gkr/prime_field.cpp"], [("field_element operators, u512b::operator%, constants set in init", "src/linear_gkr/prime_field.cpp")], ["field_element results"])
prop("F03", "Univariate message polynomials evaluate and combine correctly",
     "Evaluating a message polynomial of degree one to five at any field point gives the value of the polynomial with its stored coefficients, adding polynomials adds their coefficients, and multiplying by a linear one gives the product.",
     ["inputs"], "All coefficient and point values.",
     "Prover and verifier share the same class, so a consistent error can cancel; some degrees are not used by the tested programs.",
     ["src/linear_gkr/polynomial.cpp", "include/linear_gkr/polynomial.h"], [("eval, operator+, operator*", "src/linear_gkr/polynomial.cpp")], ["eval results"])
prop("M01", "The circuit proved is the circuit in the file",
     "Loading a circuit file yields, for each layer and gate of the file, a gate with the type and wires given there (type not has its unused wire cleared; a one-gate layer is padded with one dummy gate), the layer widths that the protocol assumes, and nothing else; the linear-time program adds one identity layer above the input.",
     ["inputs"], "All well-formed circuit files.",
     "Tests check that the proof verifies, which holds for any circuit the two parties share, including one loaded wrongly.",
     V_FILES, [("read_circuit", "all four verifiers")], ["circuit used by prover and verifier"])
prop("M02", "A proof run stays inside its allocations",
     "While loading, evaluating, proving and verifying a well-formed circuit, every table is allocated before use with room for every index used, never used after it was released and never released twice.",
     ["programs", "inputs", "configurations"], "All well-formed circuits, layer sizes and copy counts.",
     "Out-of-range accesses by one element usually go unnoticed on the heap, and the tests use few layer shapes.",
     V_FILES + P_FILES, [("new/delete of the challenge, extension and sumcheck tables", "provers and verifiers")], ["memory errors"])
prop("P01", "The parallel prover's workers never interfere and miss nothing",
     "In every fork-join step of the parallel prover no location is written by one worker while another worker or the parent may access it, every worker is joined before its results are used, and every position of the tables the step fills is handled by exactly one worker. The outcome is therefore the same for every schedule and every layer size.",
     ["schedules", "inputs", "programs"], "All interleavings of the workers, all circuits and layer sizes, including layers with fewer entries than workers.",
     "The parallel program is only compiled by the tests; and a run samples a few schedules of one machine, on which a race seldom shows.",
     ["src/linear_gkr/prover_fast_para_track.cpp", "include/linear_gkr/prover_fast_para_track.h"],
     [("sumcheck_phase1_init/update, sumcheck_phase2_init/update and their worker functions", "src/linear_gkr/prover_fast_para_track.cpp")], ["prover messages", "Pass/Fail output"])
prop("S01", "The soundness error is negligible",
     "A prover that does not know a correct output convinces the verifier with probability at most the protocol's bound (rounds times degree over field size).",
     ["histories"], "All prover strategies, probability over the verifier's coins.", "A probability bound over all adversaries cannot be sampled.",
     ["src/linear_gkr/prime_field.cpp"] + V_FILES, [("prime_field::random", "src/linear_gkr/prime_field.cpp")])
prop("Z01", "The zero-knowledge variant reveals nothing beyond the output",
     "In the zero-knowledge variant a transcript can be simulated without the witness, and its commitment and masking checks bind the prover to one witness.",
     ["histories"], "All verifiers and provers.", "Simulation is a statement about distributions; the variant is not built or tested here.",
     ["src/linear_gkr/zk_prover.cpp", "src/linear_gkr/zk_verifier.cpp", "src/VPD/vpdR.cpp", "src/VPD/inputvpd.cpp"], [("zk verifier", "src/linear_gkr/zk_verifier.cpp")])
prop("T01", "The prover runs in time linear in the circuit",
     "The linear-time prover's work per layer is proportional to the number of gates of the layer and the size of the layer below.",
     ["programs"], "All circuits.", "Timing of a few circuits does not bound the growth.",
     ["src/linear_gkr/prover_fast_track.cpp"], [("sumcheck_phase1_init", "src/linear_gkr/prover_fast_track.cpp")])
prop("G02", "The generator bin/gen writes well-formed circuits",
     "For every mode and admissible parameters the circuit generator (bin/gen) announces exactly the layers it writes, gives each layer a power of two of gates, announces that number and numbers them 0, 1, 2, ... in order. The first layer holds input or dummy gates only, every wire of a later gate names a gate of the layer below, and the block description written beside a data-parallel circuit cuts every layer into equal blocks between which no wire crosses.",
     ["inputs", "configurations"], "All modes of bin/gen and all admissible depths, widths and matrix sizes.",
     "Tests compare the files written for a few parameters with stored ones; every check of a proof assumes a well-formed circuit.",
     ["bin/gen.cpp"], [("main, one branch per mode", "bin/gen.cpp")], ["circuit file", "meta_data.txt"])
prop("G01", "Generated circuits compute the function they are named after",
     "The circuits written by the SHA-256, Lanczos and matrix generators compute those functions on their inputs.",
     ["inputs"], "All generator parameters and inputs.", "Tests compare a few generated files with stored ones.",
     ["parser_sha.cpp", "parser_lanczos.cpp", "parser.cpp"], [("generators", "bin, tests, parser*.cpp")])

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(p, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
