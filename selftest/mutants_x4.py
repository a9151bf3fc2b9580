# loops that advance by two
import os
R = os.environ.get("ST_REPO", "/repo")
E = "prime_field::field_element"
TP, BP, LP = "src/traditional_gkr/prover_clogc.cpp", "src/traditional_gkr/prover_bc_clogc.cpp", "src/linear_gkr/prover_fast_track.cpp"
TV = "src/traditional_gkr/verifier_traditional.cpp"
MUTANTS = []


def text(f):
    return open(os.path.join(R, f), newline="").read().replace("\r\n", "\n")


def m(name, prog, f, edits, expect=None):
    MUTANTS.append(("x4-" + name, prog, expect, {f: edits}))


S = text(TP)
OLD = S[S.index("		for(int i = 0; i < (total_uv >> current_bit); ++i)\n"):]
OLD = OLD[:OLD.index("		for(int i = 0; i < total_g")]
NEW = "		for(int i = 0; i < (total_uv >> previous_bit); i += 2)\n			V_mult_add[i >> 1] = V_mult_add[i] * (%s(1) - previous_random) + V_mult_add[i + 1] * previous_random;\n" % E
m("fold", "prove-bclogc", TP, [(OLD, NEW, 2)])
m("fold-div", "prove-bclogc", TP, [(OLD, NEW.replace("i >> 1", "i / 2"), 2)])
m("fold-limit", "prove-bclogc", TP, [(OLD, NEW.replace("i < (total_uv >> previous_bit)", "i + 1 < (total_uv >> previous_bit)"), 2)])
m("fold-short", "prove-bclogc", TP, [(OLD, NEW.replace("i < (total_uv >> previous_bit)", "i + 2 < (total_uv >> previous_bit)"), 2)], ["H02"])
m("fold-half", "prove-bclogc", TP, [(OLD, NEW.replace("total_uv >> previous_bit", "total_uv >> current_bit"), 2)], ["H02"])
m("fold-same", "prove-bclogc", TP, [(OLD, NEW.replace("V_mult_add[i + 1]", "V_mult_add[i]"), 2)], ["H02"])
m("fold-mem", "mem-bclogc", TP, [(OLD, NEW, 2)])
m("fold-mem-over", "mem-bclogc", TP, [(OLD, NEW.replace("i < (total_uv >> previous_bit)", "i <= (total_uv >> previous_bit)"), 2)], ["M02"])
SB = text(BP)
m("bfold", "prove-bc_clogc", BP, [(OLD, NEW, 2)])
# unrolled by two: the copy of the row below
CP = "	for(int i = 0; i < total_uv; ++i)\n	{\n		V_mult_add[i] = circuit_value[sumcheck_layer_id - 1][i];\n	}\n"
UN = "	for(int i = 0; i < total_uv; i += 2)\n	{\n		V_mult_add[i] = circuit_value[sumcheck_layer_id - 1][i];\n		V_mult_add[i + 1] = circuit_value[sumcheck_layer_id - 1][i + 1];\n	}\n"
m("unroll", "prove-bclogc", TP, [(CP, UN, 2)])
m("unroll-swap", "prove-bclogc", TP, [(CP, UN.replace("[i + 1];", "[i];"), 2)], ["H02"])
# V_res
VR = "		for(int j = 0; j < (output_size >> 1); ++j)\n		{\n			output[j].value = (output[j << 1].value * one_minus_r_0[i].value + output[j << 1 | 1].value * r_0[i].value) % prime_field::mod;\n		}\n"
VN = "		for(int j = 0; j < output_size; j += 2)\n			output[j >> 1].value = (output[j].value * one_minus_r_0[i].value + output[j + 1].value * r_0[i].value) % prime_field::mod;\n"
SL = text(LP)
# sum gates
SU = "				for(int k = u; k < v; ++k)\n					circuit_value[i][g] = circuit_value[i][g] + circuit_value[i - 1][k];"
PAIR = "				int k = u;\n				for(; k + 1 < v; k += 2)\n					circuit_value[i][g] = circuit_value[i][g] + (circuit_value[i - 1][k] + circuit_value[i - 1][k + 1]);\n"
m("sum-pairs", "eval-linear", LP, [(SU, PAIR + "				if(k < v)\n					circuit_value[i][g] = circuit_value[i][g] + circuit_value[i - 1][k];")])
m("sum-pairs-odd", "eval-linear", LP, [(SU, PAIR)], ["E01"])
m("sum-pairs-over", "eval-linear", LP, [(SU, PAIR.replace("k + 1 < v", "k < v"))], ["E01"])
m("sum-pairs-even", "eval-linear", LP, [(SU, PAIR.replace("circuit_value[i - 1][k] + circuit_value[i - 1][k + 1]", "circuit_value[i - 1][k]"))], ["E01"])
m("sum-down", "eval-linear", LP, [(SU, "				for(int k = v - 1; k >= u; --k)\n					circuit_value[i][g] = circuit_value[i - 1][k] + circuit_value[i][g];")])
# verifier: the tables of the output claim, two at a time
