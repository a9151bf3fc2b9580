# bigger restructurings (and their slips) of the traditional prover
import os
R = os.environ.get("ST_REPO", "/repo")
F = "src/traditional_gkr/prover_clogc.cpp"
S = open(os.path.join(R, F), newline="").read().replace("\r\n", "\n")
MUTANTS = []
E = "prime_field::field_element"


def m(name, edits, expect=None):
    MUTANTS.append(("x3-" + name, "prove-bclogc", expect, {F: edits}))


def span(a, b, frm=0, incl=False):
    i = S.index(a, S.index(frm) if isinstance(frm, str) else frm)
    j = S.index(b, i)
    return S[i:j + (len(b) if incl else 0)]


P1, P2 = "quadratic_poly prover::sumcheck_phase1_update(", "quadratic_poly prover::sumcheck_phase2_update("
FOLD = span("		for(int i = 0; i < (total_uv >> current_bit); ++i)\n", "		for(int i = 0; i < total_g; ++i)", P1)
BU = span("		for(int i = 0; i < total_g; ++i)\n", "	}\n	for(int i = 0; i < (total_uv >> (current_bit + 1))", P1)
BV = span("		for(int i = 0; i < total_g; ++i)\n", "	}\n	for(int i = 0; i < (total_uv >> (current_bit + 1))", P2)
CLR = span("	for(int i = 0; i < (total_uv >> (current_bit + 1)); ++i)\n", "	quadratic_poly contribution;", P1)
G1 = span("	for(int i = 0; i < total_g; ++i)\n	{\n		int ty", "	//inverse of 2", P1)
G2 = span("	for(int i = 0; i < total_g; ++i)\n	{\n		int ty", "	//inverse of 2", P2)
INT = span("	//inverse of 2", "	std::chrono", P1)
BI = span("	for(int i = 0; i < total_g; ++i)\n	{\n		int u", "	std::chrono", "void prover::sumcheck_phase2_init(")
FROM = "prime_field::field_element from_string("
BEFORE = span(P1, "\n", incl=True)

# fold helpers
H = "static void fold_values(%s *V, int n, const %s &r)\n{\n	const %s nr = %s(1) - r;\n	for(int i = 0; i < n; ++i)\n		V[i] = V[2 * i] * nr + V[2 * i + 1] * r;\n}\n\n" % (E, E, E, E)
C = "		fold_values(V_mult_add, total_uv >> current_bit, previous_random);\n"
m("fold-helper", [(BEFORE, H + BEFORE), (FOLD, C, 2)])
m("fold-helper-swap", [(BEFORE, H.replace("2 * i] * nr", "2 * i] * r").replace("1] * r;", "1] * nr;") + BEFORE), (FOLD, C, 2)], ["H02"])
m("fold-helper-short", [(BEFORE, H + BEFORE), (FOLD, C.replace("total_uv >> current_bit", "(total_uv >> current_bit) - 1"), 2)], ["H02"])
H2 = ("static void bind(%s *b, const gate *g, int n, int bit, const %s &r, bool left)\n{\n	%s nr = %s(1) - r;\n	for(int i = 0; i < n; ++i)\n	{\n		int idx = left ? g[i].u : g[i].v;\n"
      "		b[i] = b[i] * ((idx >> bit) & 1 ? r : nr);\n	}\n}\n\n") % (E, E, E, E)
CU = "		bind(beta_g_sum, C.circuit[sumcheck_layer_id].gates, total_g, previous_bit, previous_random, true);\n"
CV = CU.replace("true", "false")
m("bind-helper", [(BEFORE, H2 + BEFORE), (BU, CU), (BV, CV)])
m("bind-helper-swap", [(BEFORE, H2 + BEFORE), (BU, CU), (BV, CU)], ["H02"])
m("bind-helper-cur", [(BEFORE, H2 + BEFORE), (BU, CU.replace("previous_bit", "current_bit")), (BV, CV)], ["H02"])
m("bind-helper-three", [(BEFORE, H2 + BEFORE), (BU, CU), (BV, CV), (BI, CU.replace("\t\t", "\t"))])
m("bind-helper-three-v", [(BEFORE, H2 + BEFORE), (BU, CU), (BV, CV), (BI, CV.replace("\t\t", "\t"))], ["H02"])

# interpolation helper
L = ("static quadratic_poly through(const %s &y0, const %s &y1, const %s &y2)\n{\n	static const %s half = from_string(\"8399054365507916142470402071115866954879789801702376374514189432082785107975\");\n"
     "	%s d = y1 - y0, e = (y2 - y0) * half;\n	return quadratic_poly(e - d, d + d - e, y0);\n}\n\n") % (E, E, E, E, E)
LN = L.replace("static const %s half" % E, "const %s half" % E)
CI = ("	for(int i = 0; i < (total_uv >> (current_bit + 1)); ++i)\n	{\n		add_linear[i] = through(add_linear[i].c, add_linear[i].b, add_linear[i].a);\n"
      "		mult_linear[i] = through(mult_linear[i].c, mult_linear[i].b, mult_linear[i].a);\n		ret = ret + add_linear[i] + mult_linear[i];\n	}\n\n")
m("interp-helper", [(BEFORE, LN + BEFORE), (INT, CI, 2)])
m("interp-helper-static", [(BEFORE, L + BEFORE), (INT, CI, 2)])
m("interp-helper-bad", [(BEFORE, LN.replace("d + d - e", "d - e") + BEFORE), (INT, CI, 2)], ["H02"])
m("interp-helper-once", [(BEFORE, LN + BEFORE), (INT, CI.replace(" + mult_linear[i]", ""), 2)], ["H02"])
# sum the evaluations, interpolate once
CS = ("	%s s0 = %s(0), s1 = %s(0), s2 = %s(0);\n	for(int i = 0; i < (total_uv >> (current_bit + 1)); ++i)\n	{\n		s0 = s0 + add_linear[i].c + mult_linear[i].c;\n"
      "		s1 = s1 + add_linear[i].b + mult_linear[i].b;\n		s2 = s2 + add_linear[i].a + mult_linear[i].a;\n	}\n	ret = through(s0, s1, s2);\n\n") % (E, E, E, E)
m("sum-first", [(BEFORE, LN + BEFORE), (INT, CS, 2)])
m("sum-first-s1", [(BEFORE, LN + BEFORE), (INT, CS.replace("s1 = s1 + add_linear[i].b + mult_linear[i].b", "s1 = add_linear[i].b + mult_linear[i].b"), 2)], ["H02"])
# accumulate straight from the gates, no arrays at all
def direct(w, other):
    return ("""	%(E)s s0 = %(E)s(0), s1 = %(E)s(0), s2 = %(E)s(0);
	for(int i = 0; i < total_g; ++i)
	{
		const gate &g = C.circuit[sumcheck_layer_id].gates[i];
		if(g.ty == 2)
			continue;
		assert(g.ty == 0 || g.ty == 1);
		int pos = g.%(w)s >> current_bit;
		const %(E)s &x = V_mult_add[pos & ~1], &y = V_mult_add[pos | 1];
		const %(E)s &w = %(o)s;
		const %(E)s &be = beta_g_sum[i];
		const %(E)s x2 = y + y - x;
		if((pos & 1) == 0)
		{
			s0 = s0 + be * (g.ty == 0 ? x + w : x * w);
			s2 = s2 - be * (g.ty == 0 ? x2 + w : x2 * w);
		}
		else
		{
			s1 = s1 + be * (g.ty == 0 ? y + w : y * w);
			s2 = s2 + (be + be) * (g.ty == 0 ? x2 + w : x2 * w);
		}
	}
""" % dict(E=E, w=w, o=other))


D1, D2 = direct("u", "circuit_value[sumcheck_layer_id - 1][g.v]"), direct("v", "v_u")
RET = "	ret = through(s0, s1, s2);\n\n"
m("direct", [(BEFORE, LN + BEFORE), (CLR, "", 2), (G1, D1), (G2, D2), (INT, RET, 2)])
m("direct-xor", [(BEFORE, LN + BEFORE), (CLR, "", 2), (G1, D1.replace("pos & ~1", "pos ^ 1")), (G2, D2), (INT, RET, 2)], ["H02"])
m("direct-two", [(BEFORE, LN + BEFORE), (CLR, "", 2), (G1, D1), (G2, D2.replace("(be + be)", "be")), (INT, RET, 2)], ["H02"])
m("direct-neg", [(BEFORE, LN + BEFORE), (CLR, "", 2), (G1, D1), (G2, D2.replace("s2 = s2 - be", "s2 = s2 + be")), (INT, RET, 2)], ["H02"])
m("direct-add", [(BEFORE, LN + BEFORE), (CLR, "", 2), (G1, D1.replace("x2 + w : x2 * w", "x2 : x2 * w")), (G2, D2), (INT, RET, 2)], ["H02"])
# with separate values by factor per evaluation point
def factors(w, other):
    return ("""	%(E)s s0 = %(E)s(0), s1 = %(E)s(0), s2 = %(E)s(0);
	for(int i = 0; i < total_g; ++i)
	{
		int ty = C.circuit[sumcheck_layer_id].gates[i].ty;
		if(ty == 0 || ty == 1)
		{
			int pos = C.circuit[sumcheck_layer_id].gates[i].%(w)s >> current_bit, pair = pos >> 1;
			%(E)s x = V_mult_add[2 * pair], y = V_mult_add[2 * pair + 1], w = %(o)s;
			%(E)s be[3], va[3];
			va[0] = x; va[1] = y; va[2] = y + y - x;
			be[0] = %(E)s(0); be[1] = %(E)s(0);
			be[pos & 1] = beta_g_sum[i];
			be[2] = be[1] + be[1] - be[0];
			for(int t = 0; t < 3; ++t)
			{
				%(E)s q = ty == 0 ? va[t] + w : va[t] * w;
				if(t == 0)
					s0 = s0 + be[t] * q;
				else if(t == 1)
					s1 = s1 + be[t] * q;
				else
					s2 = s2 + be[t] * q;
			}
		}
	}
""" % dict(E=E, w=w, o=other))


K1, K2 = factors("u", "circuit_value[sumcheck_layer_id - 1][C.circuit[sumcheck_layer_id].gates[i].v]"), factors("v", "v_u")
m("factors", [(BEFORE, LN + BEFORE), (CLR, "", 2), (G1, K1), (G2, K2), (INT, RET, 2)])
m("factors-be2", [(BEFORE, LN + BEFORE), (CLR, "", 2), (G1, K1), (G2, K2.replace("be[1] + be[1] - be[0]", "be[1] + be[1]")), (INT, RET, 2)], ["H02"])
# one static routine for both phases
def both(extra=""):
    return ("static quadratic_poly round_poly(const layer &lay, const %(E)s *beta, const %(E)s *V, const %(E)s *below, const %(E)s &vu, bool first, int total_g, int current_bit)\n{\n" % dict(E=E)
            + D1.replace("C.circuit[sumcheck_layer_id].gates", "lay.gates").replace("g.u >>", "(first ? g.u : g.v) >>").replace("V_mult_add", "V").replace("beta_g_sum", "beta")
            .replace("circuit_value[sumcheck_layer_id - 1][g.v]", "(first ? below[g.v] : vu)") + "	return through(s0, s1, s2);\n}\n\n")


CB = "	ret = round_poly(C.circuit[sumcheck_layer_id], beta_g_sum, V_mult_add, circuit_value[sumcheck_layer_id - 1], v_u, %s, total_g, current_bit);\n"
m("both", [(BEFORE, LN + both() + BEFORE), (CLR, "", 2), (G1, CB % "true"), (G2, CB % "false"), (INT, "", 2)])
m("both-first", [(BEFORE, LN + both() + BEFORE), (CLR, "", 2), (G1, CB % "true"), (G2, CB % "true"), (INT, "", 2)], ["H02"])
m("both-vu", [(BEFORE, LN + both().replace("(first ? below[g.v] : vu)", "below[g.v]") + BEFORE), (CLR, "", 2), (G1, CB % "true"), (G2, CB % "false"), (INT, "", 2)], ["H02"])
# beta table by a helper, one point at a time
BT = span("	beta_g_r0_fhalf[0] = alpha;", "	int mask_fhalf", "void prover::sumcheck_phase1_init()")
TB = ("static void eq_table(%s *t, const %s &seed, const %s *r, const %s *nr, int n)\n{\n	t[0] = seed;\n	for(int i = 0; i < n; ++i)\n		for(int j = 0; j < (1 << i); ++j)\n		{\n"
      "			t[j + (1 << i)] = t[j] * r[i];\n			t[j] = t[j] * nr[i];\n		}\n}\n\n") % (E, E, E, E)
CT = ("	int first_half = length_g >> 1, second_half = length_g - first_half;\n	eq_table(beta_g_r0_fhalf, alpha, r_0, one_minus_r_0, first_half);\n	eq_table(beta_g_r1_fhalf, beta, r_1, one_minus_r_1, first_half);\n"
      "	eq_table(beta_g_r0_shalf, %s(1), r_0 + first_half, one_minus_r_0 + first_half, second_half);\n	eq_table(beta_g_r1_shalf, %s(1), r_1 + first_half, one_minus_r_1 + first_half, second_half);\n" % (E, E))
I1 = "void prover::sumcheck_phase1_init()\n"
m("eq-table", [(I1, TB + I1), (BT, CT)])
m("eq-table-off", [(I1, TB + I1), (BT, CT.replace("one_minus_r_1 + first_half", "one_minus_r_1"))], ["H02"])
m("eq-table-beta", [(I1, TB + I1), (BT, CT.replace("(beta_g_r1_fhalf, beta,", "(beta_g_r1_fhalf, alpha,"))], ["H02"])
# the whole table at once, no halves
TW = span("	beta_g_r0_fhalf[0] = alpha;", "	std::chrono::high_resolution_clock::time_point t1", "void prover::sumcheck_phase1_init()")
WH = ("	std::vector<%s> e0(1 << length_g), e1(1 << length_g);\n	eq_table(e0.data(), alpha, r_0, one_minus_r_0, length_g);\n	eq_table(e1.data(), beta, r_1, one_minus_r_1, length_g);\n"
      "	for(int i = 0; i < (1 << length_g); ++i)\n		beta_g_sum[i] = e0[i] + e1[i];\n") % E
INC = ("#include <cstring>\n", "#include <cstring>\n#include <vector>\n")
m("whole", [INC, (I1, TB + I1), (TW, WH)])
m("whole-short", [INC, (I1, TB + I1), (TW, WH.replace("i < (1 << length_g); ++i", "i + 1 < (1 << length_g); ++i"))], ["H02"])
m("whole-alloc", [INC, (I1, TB + I1), (TW, WH.replace("e1(1 << length_g)", "e1(1 << length_g)").replace("e0[i] + e1[i]", "e0[i] + e1[i ^ 1]"))], ["H02"])
# early continue for dummy gates in beta updates; memcpy; hoisted constants
m("hoist", [("(%s(1) - previous_random)" % E, "nr", 0), (BEFORE, BEFORE), ("	int total_g = (1 << length_g);\n	//re", "	int total_g = (1 << length_g);\n	const %s nr = %s(1) - previous_random;\n	//re" % (E, E), 2),
            ("	v_u = V_mult_add", "	const %s nr = %s(1) - previous_random;\n	v_u = V_mult_add" % (E, E)), ("	v_v = V_mult_add", "	const %s nr = %s(1) - previous_random;\n	v_v = V_mult_add" % (E, E))])
m("copyn", [("#include <cstring>\n", "#include <cstring>\n#include <algorithm>\n"), ("	for(int i = 0; i < total_uv; ++i)\n	{\n		V_mult_add[i] = circuit_value[sumcheck_layer_id - 1][i];\n	}\n", "	std::copy(circuit_value[sumcheck_layer_id - 1], circuit_value[sumcheck_layer_id - 1] + total_uv, V_mult_add);\n", 2)])
m("copyn-short", [("#include <cstring>\n", "#include <cstring>\n#include <algorithm>\n"), ("	for(int i = 0; i < total_uv; ++i)\n	{\n		V_mult_add[i] = circuit_value[sumcheck_layer_id - 1][i];\n	}\n", "	std::copy(circuit_value[sumcheck_layer_id - 1], circuit_value[sumcheck_layer_id - 1] + total_uv - 1, V_mult_add);\n", 2)], ["H02"])
m("dummy-skip", [(BU, BU.replace("			int u = ", "			if(C.circuit[sumcheck_layer_id].gates[i].ty == 2)\n				continue;\n			int u = ")), (BV, BV.replace("			int v = ", "			if(C.circuit[sumcheck_layer_id].gates[i].ty == 2)\n				continue;\n			int v = "))])
m("add-skip", [(BU, BU.replace("			int u = ", "			if(C.circuit[sumcheck_layer_id].gates[i].ty == 1)\n				continue;\n			int u = "))], ["H02"])
# factor x by the bit, in a product rather than branches
m("bitfield", [(BU, "		for(int i = 0; i < total_g; ++i)\n		{\n			const %s bit = %s((C.circuit[sumcheck_layer_id].gates[i].u >> previous_bit) & 1);\n			beta_g_sum[i] = beta_g_sum[i] * (bit * previous_random + (%s(1) - bit) * (%s(1) - previous_random));\n		}\n" % (E, E, E, E))])
m("bitfield-bad", [(BU, "		for(int i = 0; i < total_g; ++i)\n		{\n			const %s bit = %s((C.circuit[sumcheck_layer_id].gates[i].u >> previous_bit) & 1);\n			beta_g_sum[i] = beta_g_sum[i] * (bit * previous_random + (%s(1) - bit) * previous_random);\n		}\n" % (E, E, E))], ["H02"])

# ---- bc_clogc
FB = "src/traditional_gkr/prover_bc_clogc.cpp"
SB = open(os.path.join(R, FB), newline="").read().replace("\r\n", "\n")


def mb(name, edits, expect=None):
    MUTANTS.append(("x3b-" + name, "prove-bc_clogc", expect, {FB: edits}))


S = SB
bFOLD = span("		for(int i = 0; i < (total_uv >> current_bit); ++i)\n", "		for(int i = 0; i < total_g; ++i)", P1)
bBU = span("		for(int i = 0; i < total_g; ++i)\n", "	}\n	for(int i = 0; i < (total_uv >> (current_bit + 1))", P1)
bBV = span("		for(int i = 0; i < total_g; ++i)\n", "	}\n	for(int i = 0; i < (total_uv >> (current_bit + 1))", P2)
bCLR = span("	for(int i = 0; i < (total_uv >> (current_bit + 1)); ++i)\n", "	quadratic_poly contribution;", P1)
bG1 = span("	for(int i = 0; i < total_g; ++i)\n	{\n		int ty", "	//inverse of 2", P1)
bG2 = span("	for(int i = 0; i < total_g; ++i)\n	{\n		int ty", "	//inverse of 2", P2)
bINT = span("	//inverse of 2", "	ret.a = ret.a * beta_blk_val", P1)
bSC = span("	ret.a = ret.a * beta_blk_val", "	std::chrono", P1)
bB = span(P1, "\n", incl=True)


def tob(x):
    return x.replace("C.circuit[", "C.blocks[0].circuit[").replace("circuit_value[sumcheck_layer_id - 1][g.v]", "V_mult_add_copy[g.v]")


mb("fold-bind", [(bB, H + H2 + bB), (bFOLD, C, 2), (bBU, tob(CU)), (bBV, tob(CV))])
mb("fold-bind-u", [(bB, H + H2 + bB), (bFOLD, C, 2), (bBU, tob(CU)), (bBV, tob(CU))], ["H02"])
mb("direct", [(bB, LN + bB), (bCLR, "", 2), (bG1, tob(D1)), (bG2, tob(D2)), (bINT, RET, 2)])
mb("direct-copy", [(bB, LN + bB), (bCLR, "", 2), (bG1, tob(D1).replace("V_mult_add_copy[g.v]", "V_mult_add[g.v]")), (bG2, tob(D2)), (bINT, RET, 2)], ["H02"])
mb("direct-two", [(bB, LN + bB), (bCLR, "", 2), (bG1, tob(D1)), (bG2, tob(D2).replace("(be + be)", "be")), (bINT, RET, 2)], ["H02"])
mb("sum-first", [(bB, LN + bB), (bINT, CS, 2)])
SCF = "	const %s &bb = beta_blk_val;\n	ret = quadratic_poly(ret.a * bb, ret.b * bb, ret.c * bb);\n\n" % E
mb("scale-ctor", [(bSC, SCF, 2)])
mb("scale-ctor-swap", [(bSC, SCF.replace("ret.b * bb, ret.c", "ret.c * bb, ret.b"), 2)], ["H02"])
BLK = "	beta_blk_val = (block_beta_value[1] - block_beta_value[0]) * previous_random + block_beta_value[0];\n"
FOLDIN = BLK + "	for(int i = 0; i < (1 << length_g); ++i)\n		beta_g_sum[i] = beta_g_sum[i] * beta_blk_val;\n"
mb("scale-weights", [(bSC, "", 2), (BLK, FOLDIN)])
mb("scale-weights-twice", [(BLK, FOLDIN)], ["H02"])
mb("scale-weights-missing", [(bSC, "", 2)], ["H02"])
mb("scale-first-only", [(bSC, bSC.replace("	ret.b = ret.b * beta_blk_val;\n", ""), 2)], ["H02"])
# phase 0
GL = span("		for(int g = 0; g < (1 << length_g); ++g)\n", "		ret = ret + v_part * beta_part;", "cubic_poly prover::sumcheck_phase0_update(")
PTR = """		const %(E)s *lo = block_v_value + ((blk << 1) << length_u), *hi = block_v_value + ((blk << 1 | 1) << length_u);
		auto line = [&](int w) { return linear_poly(hi[w] - lo[w], lo[w]); };
		const gate *gates = C.blocks[0].circuit[sumcheck_layer_id].gates;
		for(int g = 0; g < (1 << length_g); ++g)
		{
			const gate &x = gates[g];
			const %(E)s &w = beta_g_sum[g];
			if(x.ty == 0)
			{
				linear_poly s = line(x.u) + line(x.v);
				v_part.b = v_part.b + s.a * w;
				v_part.c = v_part.c + s.b * w;
			}
			else if(x.ty == 1)
			{
				quadratic_poly s = line(x.u) * line(x.v);
				v_part = v_part + quadratic_poly(s.a * w, s.b * w, s.c * w);
			}
		}
""" % dict(E=E)
mb("p0-pointers", [(GL, PTR)])
mb("p0-pointers-lo", [(GL, PTR.replace("hi[w] - lo[w], lo[w]", "hi[w] - lo[w], hi[w]"))], ["H02"])
mb("p0-pointers-uu", [(GL, PTR.replace("line(x.u) * line(x.v)", "line(x.u) * line(x.u)"))], ["H02"])
mb("p0-pointers-deg", [(GL, PTR.replace("v_part.b = v_part.b + s.a * w;\n				v_part.c = v_part.c + s.b * w", "v_part.a = v_part.a + s.a * w;\n				v_part.b = v_part.b + s.b * w"))], ["H02"])
mb("p0-pointers-now", [(GL, PTR.replace("const %s &w = beta_g_sum[g]" % E, "const %s &w = beta_g_sum[g ^ 1]" % E))], ["H02"])
# gates outside, copies inside
BL = span("	for(int blk = 0; blk < (1 << (block_binary_length - current_bit - 1)); ++blk)\n", "	std::chrono", "cubic_poly prover::sumcheck_phase0_update(")
SWP = """	int pairs = 1 << (block_binary_length - current_bit - 1);
	for(int g = 0; g < (1 << length_g); ++g)
	{
		const gate &x = C.blocks[0].circuit[sumcheck_layer_id].gates[g];
		if(x.ty != 0 && x.ty != 1)
			continue;
		for(int blk = 0; blk < pairs; ++blk)
		{
			int z = (2 * blk) << length_u, o = (2 * blk + 1) << length_u;
			linear_poly lu(block_v_value[o + x.u] - block_v_value[z + x.u], block_v_value[z + x.u]);
			linear_poly lv(block_v_value[o + x.v] - block_v_value[z + x.v], block_v_value[z + x.v]);
			%(E)s b0 = block_beta_value[2 * blk] * beta_g_sum[g], b1 = block_beta_value[2 * blk + 1] * beta_g_sum[g];
			linear_poly lb(b1 - b0, b0);
			quadratic_poly p;
			if(x.ty == 1)
				p = lu * lv;
			else
				p = quadratic_poly(%(E)s(0), lu.a + lv.a, lu.b + lv.b);
			ret = ret + p * lb;
		}
	}
""" % dict(E=E)
mb("p0-swap", [(BL, SWP)])
mb("p0-swap-half", [(BL, SWP.replace("1 << (block_binary_length - current_bit - 1)", "(1 << (block_binary_length - current_bit)) >> 1"))])
mb("p0-swap-off", [(BL, SWP.replace("(2 * blk + 1) << length_u", "(2 * blk << length_u) + 1"))], ["H02"])
mb("p0-swap-lb", [(BL, SWP.replace("linear_poly lb(b1 - b0, b0)", "linear_poly lb(b1, b0)"))], ["H02"])
mb("p0-swap-first", [(BL, SWP.replace("blk < pairs; ++blk", "blk + 1 < pairs; ++blk"))], ["H02"])
mb("p0-swap-type", [(BL, SWP.replace("x.ty != 0 && x.ty != 1", "x.ty != 0 || x.ty != 1"))], ["H02"])
# the fold of phase 0: helper, two passes
FO = span("		for(int blk = 0; blk < (1 << (block_binary_length - current_bit)); ++blk)\n", "	}\n\n	for(int blk = 0; blk < (1 << (block_binary_length - current_bit - 1))", "cubic_poly prover::sumcheck_phase0_update(")
TWO = """		int left = 1 << (block_binary_length - current_bit);
		for(int b = 0; b < left; ++b)
			block_beta_value[b] = block_beta_value[2 * b] + (block_beta_value[2 * b + 1] - block_beta_value[2 * b]) * previous_random;
		for(int b = 0; b < left; ++b)
		{
			%(E)s *to = block_v_value + (b << length_u);
			const %(E)s *z = block_v_value + (2 * b << length_u), *o = z + (1 << length_u);
			for(int u = 0; u < (1 << length_u); ++u)
				to[u] = z[u] + (o[u] - z[u]) * previous_random;
		}
""" % dict(E=E)
mb("p0-two-folds", [(FO, TWO)])
mb("p0-two-folds-o", [(FO, TWO.replace("o = z + (1 << length_u)", "o = z + length_u"))], ["H02"])
mb("p0-two-folds-left", [(FO, TWO.replace("for(int b = 0; b < left; ++b)\n		{", "for(int b = 0; b < left / 2; ++b)\n		{"))], ["H02"])
# copies' weights by a helper taking the sizes; beta table whole
m0 = span("	block_beta_value[0] =", "	beta_g_r0_fhalf[0] = alpha;", "void prover::sumcheck_phase0_init()")
I0 = "void prover::sumcheck_phase0_init()\n"
bBT = span("	beta_g_r0_fhalf[0] = alpha;", "	int mask_fhalf", I0)
CB0 = "	eq_table(block_beta_value, %s(1), r_b_0, one_minus_r_b_0, block_binary_length);\n\n" % E
mb("eq-tables", [(I0, TB + I0), (m0, CB0), (bBT, CT)])
mb("eq-tables-cross", [(I0, TB + I0), (m0, CB0.replace("r_b_0, one_minus_r_b_0", "one_minus_r_b_0, r_b_0")), (bBT, CT)], ["H02"])
mb("eq-tables-short", [(I0, TB + I0), (m0, CB0.replace("block_binary_length)", "block_binary_length - 1)")), (bBT, CT)], ["H02"])
# no separate copy of the values: phase 2 starts from the block table again
mb("no-copy-loop", [("		V_mult_add[i] = V_mult_add_copy[i];\n", "		V_mult_add[i] = beta_copy_of(i);\n"), ("void prover::sumcheck_phase2_init(", "#define beta_copy_of(i) V_mult_add_copy[(i)]\nvoid prover::sumcheck_phase2_init(")])
mb("line-order", [("		V_mult_add[i] = (one_value - zero_value) * previous_random + zero_value;\n		V_mult_add_copy[i] = V_mult_add[i];", "		V_mult_add_copy[i] = zero_value * (%s(1) - previous_random) + one_value * previous_random;\n		V_mult_add[i] = V_mult_add_copy[i];" % E)])
