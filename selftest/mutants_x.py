# larger behaviour-preserving restructurings of the linear program, and bugs set into the same shapes
import os, re
R = os.environ.get("ST_REPO", "/repo")
V, VH = "src/linear_gkr/verifier_fast_track.cpp", "include/linear_gkr/verifier_fast_track.h"
P, PH = "src/linear_gkr/prover_fast_track.cpp", "include/linear_gkr/prover_fast_track.h"
MUTANTS = []


def text(f):
    return open(os.path.join(R, f), newline="").read().replace("\r\n", "\n")


def m(name, prog, files, expect=None):
    MUTANTS.append((name, prog, expect, files))


v, p = text(V), text(P)


def span(s, a, b):
    i = s.index(a)
    return s[i:s.index(b, i)]


PF = "prime_field::field_element"
# 1. both rounds through one lambda
PH1 = span(v, "			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n", "		}\n		std::chrono::high_resolution_clock::time_point t1")
PH2 = span(v, "			if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)\n", "		}\n		t1 = std::chrono")
LAM = """		auto round_ok = [&alpha_beta_sum](quadratic_poly &q, const %s &extra, const %s &r) -> bool
		{
			if(q.eval(0) + q.eval(1) + extra != alpha_beta_sum)
				return false;
			alpha_beta_sum = q.eval(r) + extra;
			return true;
		};
		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
		{
			quadratic_poly poly = p -> sumcheck_phase1_update""" % (PF, PF)
HEAD1 = "		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)\n		{\n			quadratic_poly poly = p -> sumcheck_phase1_update"
m("x-lambda", "linear", {V: [(HEAD1, LAM), (PH1, "			if(!round_ok(poly, %s(0), r_u[j]))\n				return false;\n" % PF), (PH2, "			if(!round_ok(poly, direct_relay_value * v_u, r_v[j]))\n				return false;\n")]})
m("x-lambda-bad", "linear", {V: [(HEAD1, LAM.replace("q.eval(r) + extra", "q.eval(r)")), (PH1, "			if(!round_ok(poly, %s(0), r_u[j]))\n				return false;\n" % PF), (PH2, "			if(!round_ok(poly, direct_relay_value * v_u, r_v[j]))\n				return false;\n")]}, ["V02"])
# 2. verdict collected in a flag, tested at the end of each layer
PH1F = "			ok = ok && poly.eval(0) + poly.eval(1) == alpha_beta_sum;\n			alpha_beta_sum = poly.eval(r_u[j]);\n"
PH2F = "			ok = ok && poly.eval(0) + poly.eval(1) + direct_relay_value * v_u == alpha_beta_sum;\n			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;\n"
SEMI = "		if(alpha_beta_sum != add_value * (v_u + v_v)"
DECL = ("	prime_field::field_element direct_relay_value;\n", "	prime_field::field_element direct_relay_value;\n	bool ok = true;\n")
m("x-flag", "linear", {V: [DECL, (PH1, PH1F), (PH2, PH2F), (SEMI, "		if(!ok || alpha_beta_sum != add_value * (v_u + v_v)")]})
m("x-flag-end", "linear", {V: [DECL, (PH1, PH1F), (PH2, PH2F), ("	if(alpha_beta_sum != input_0)", "	if(!ok || alpha_beta_sum != input_0)")]})
m("x-flag-reset", "linear", {V: [DECL, (PH1, PH1F.replace("ok = ok && ", "ok = ")), (PH2, PH2F), ("	if(alpha_beta_sum != input_0)", "	if(!ok || alpha_beta_sum != input_0)")]}, ["V01"])
m("x-flag-layer", "linear", {V: [DECL, (PH1, PH1F), (PH2, PH2F), ("		p -> sumcheck_phase1_init();\n", "		p -> sumcheck_phase1_init();\n		ok = true;\n"), ("	if(alpha_beta_sum != input_0)", "	if(!ok || alpha_beta_sum != input_0)")]}, ["V01"])
# 3. the layer's body in a function of its own
BODY = span(v, "		std::chrono::high_resolution_clock::time_point t0 = std::chrono::high_resolution_clock::now();\n		std::cerr << \"Bound u start\"", "	}\n\n	//post sumcheck")
FN = "static bool verify_layer(verifier &self, prover *p, layered_circuit &C, int i, %s &alpha, %s &beta, %s &alpha_beta_sum,\n	%s *&r_0, %s *&r_1, %s *&one_minus_r_0, %s *&one_minus_r_1)\n{\n	%s direct_relay_value;\n" % ((PF,) * 8)
B2 = BODY
for f in ("direct_relay", "beta_init", "mult", "add", "not_gate", "minus_gate", "xor_gate", "NAAB_gate", "sum_gate", "relay_gate"):
    B2 = re.sub(r"(?<![\w.>])%s\(i" % f, "self.%s(i" % f, B2)
CALL = "		if(!verify_layer(*this, p, C, i, alpha, beta, alpha_beta_sum, r_0, r_1, one_minus_r_0, one_minus_r_1))\n			return false;\n"
m("x-layerfn", "linear", {V: [(BODY, CALL), ("bool verifier::verify()\n", FN + B2 + "	return true;\n}\n\nbool verifier::verify()\n"), ("	prime_field::field_element direct_relay_value;\n	for(", "	for(")]})
m("x-layerfn-bad", "linear", {V: [(BODY, CALL.replace("			return false;\n", "			break;\n")), ("bool verifier::verify()\n", FN + B2 + "	return true;\n}\n\nbool verifier::verify()\n"), ("	prime_field::field_element direct_relay_value;\n	for(", "	for(")]}, ["V01"])
# 4. vectors for the complements, with data()
m("x-vec", "linear", {V: [("		prime_field::field_element *one_minus_r_u, *one_minus_r_v;\n		one_minus_r_u = new prime_field::field_element[C.circuit[i - 1].bit_length];\n		one_minus_r_v = new prime_field::field_element[C.circuit[i - 1].bit_length];\n",
   "		const int bits = C.circuit[i - 1].bit_length;\n		prime_field::field_element *one_minus_r_u = new prime_field::field_element[bits], *one_minus_r_v = new prime_field::field_element[bits];\n"),
   ("		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)\n		{\n			one_minus_r_u[j]", "		int j = bits;\n		while(j-- > 0)\n		{\n			one_minus_r_u[j]")]})
# 5. input table made by a helper
INP = span(v, "	prime_field::field_element* input;\n", "	auto input_0 = V_in(")
m("x-input", "linear", {V: [(INP, "	prime_field::field_element* input = input_values(C);\n"), ("bool verifier::verify()\n", """static prime_field::field_element *input_values(const layered_circuit &C)
{
	const int n = 1 << C.circuit[0].bit_length;
	prime_field::field_element *values = new prime_field::field_element[n];
	for(int g = 0; g != n; ++g)
	{
		const gate &w = C.circuit[0].gates[g];
		switch(w.ty)
		{
			case 3: values[g] = prime_field::field_element(w.u); break;
			case 2: values[g] = prime_field::field_element(0); break;
			default: assert(false);
		}
	}
	return values;
}

bool verifier::verify()
""")]})
m("x-input-bad", "linear", {V: [(INP, "	prime_field::field_element* input = input_values(C);\n"), ("bool verifier::verify()\n", """static prime_field::field_element *input_values(const layered_circuit &C)
{
	const int n = 1 << C.circuit[0].bit_length;
	prime_field::field_element *values = new prime_field::field_element[n];
	for(int g = 0; g != n; ++g)
	{
		const gate &w = C.circuit[0].gates[g];
		switch(w.ty)
		{
			case 3: values[g] = prime_field::field_element(w.u);
			case 2: values[g] = prime_field::field_element(0); break;
			default: assert(false);
		}
	}
	return values;
}

bool verifier::verify()
""")]}, ["V06"])
# 6. the closing equation gathered in a variable, with a table of sums
CLO = span(v, "		auto mult_value = mult(i);\n", "		{\n			fprintf(stderr, \"Verification fail, semi final")
m("x-closing", "linear", {V: [(CLO, """		const auto both = v_u * v_v;
		auto expected = add(i) * (v_u + v_v);
		expected = expected + mult(i) * both;
		expected = expected + (sum_gate(i) + relay_gate(i) + direct_relay_value) * v_u;
		expected = expected + not_gate(i) - not_gate(i) * v_u;
		expected = expected + minus_gate(i) * (v_u - v_v);
		expected = expected + xor_gate(i) * (v_u + v_v - both - both);
		expected = expected + NAAB_gate(i) * (v_v - both);
		if(!(expected == alpha_beta_sum))
""")]})
m("x-closing-bad", "linear", {V: [(CLO, """		const auto both = v_u * v_v;
		auto expected = add(i) * (v_u + v_v);
		expected = expected + mult(i) * both;
		expected = expected + (sum_gate(i) + relay_gate(i) + direct_relay_value) * v_u;
		expected = expected + not_gate(i) - not_gate(i) * v_u;
		expected = expected + minus_gate(i) * (v_u - v_v);
		expected = expected + xor_gate(i) * (v_u + v_v - both);
		expected = expected + NAAB_gate(i) * (v_v - both);
		if(!(expected == alpha_beta_sum))
""")]}, ["V05"])
# 7. one gate walk with function pointers / a table by type
ALL = span(v, "prime_field::field_element verifier::add(int depth)", "void verifier::beta_init")
DEFS = """static %s selected(const verifier &s, int depth, int ty)
{
	%s ret(0);
	const layer &L = s.C.circuit[depth];
	for(int g = 0; g < (1 << L.bit_length); ++g)
	{
		const gate &w = L.gates[g];
		if(w.ty != ty)
			continue;
		const %s eq_g = s.beta_g_r0[g] + s.beta_g_r1[g];
		ret = ret + eq_g * s.beta_u[w.u] * s.beta_v[w.v];
	}
	return ret;
}
""" % (PF, PF, PF)
for f, t in (("add", 0), ("mult", 1), ("not_gate", 6), ("minus_gate", 7), ("xor_gate", 8), ("NAAB_gate", 9)):
    DEFS += "%s verifier::%s(int depth) { return selected(*this, depth, %d); }\n" % (PF, f, t)
SUMG = span(v, "prime_field::field_element verifier::sum_gate(int depth)", "void verifier::beta_init")
m("x-selected", "linear", {V: [(ALL, DEFS + SUMG)]})
m("x-selected-bad", "linear", {V: [(ALL, DEFS.replace("s.beta_v[w.v]", "s.beta_v[w.ty == 6 ? w.u : w.v]") + SUMG)]}, ["V05"])
m("x-selected-bad2", "linear", {V: [(ALL, DEFS.replace("if(w.ty != ty)", "if(w.ty != ty || (ty > 1 && w.u == w.v && g))") + SUMG)]}, ["V05"])
# prover
TMPI = """(beta_g_r0_fhalf[i & mask_fhalf].value * beta_g_r0_shalf[i >> first_half].value 
						+ beta_g_r1_fhalf[i & mask_fhalf].value * beta_g_r1_shalf[i >> first_half].value) % prime_field::mod"""
n1 = p.count(TMPI)
m("x-p-tmp", "prove-linear", {P: [(TMPI, "beta_g_sum[i].value", n1)]})
m("x-p-eq", "prove-linear", {P: [(TMPI, "eq(i)", n1), ("	for(int i = 0; i < (1 << length_g); ++i)\n	{\n		int u, v;\n", "	auto eq = [&](int z) { return (beta_g_r0_fhalf[z & mask_fhalf].value * beta_g_r0_shalf[z >> first_half].value + beta_g_r1_fhalf[z & mask_fhalf].value * beta_g_r1_shalf[z >> first_half].value) % prime_field::mod; };\n	for(int i = 0; i < (1 << length_g); ++i)\n	{\n		int u, v;\n", 0)]})
m("x-p-relaypos", "prove-linear", {P: [("beta_g_r0_fhalf[u & mask_fhalf].value * beta_g_r0_shalf[u >> first_half].value", "beta_g_r0_fhalf[v & mask_fhalf].value * beta_g_r0_shalf[v >> first_half].value", 0)]}, ["H01"])
m("x-next-bad", "linear", {V: [("			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;", "			alpha_beta_sum = poly.eval(r_v[j]);")]}, ["V02"])
m("x-semi-break", "linear", {V: [("semi final, circuit level %d\\n\", i);\n			return false;", "semi final, circuit level %d\\n\", i);\n			break;")]}, ["V01"])
m("x-ph1-break", "linear", {V: [("current bit %d\\n\", i, j);\n				return false;\n			}\n			else\n			{\n			}\n			alpha_beta_sum = poly.eval(r_u[j]);", "current bit %d\\n\", i, j);\n				break;\n			}\n			else\n			{\n			}\n			alpha_beta_sum = poly.eval(r_u[j]);")]}, ["V01"])
LF = [("bool verifier::verify()\n", FN + B2 + "	return true;\n}\n\nbool verifier::verify()\n")]
m("x-layerfn-flag", "linear", {V: [(BODY, CALL.replace("			return false;\n", "		{\n			ok = false;\n			break;\n		}\n"))] + LF + [("	prime_field::field_element direct_relay_value;\n	for(", "	bool ok = true;\n	for("), ("	//post sumcheck\n", "	if(!ok)\n		return false;\n	//post sumcheck\n")]})
m("x-layerfn-flag2", "linear", {V: [(BODY, "		ok = verify_layer(*this, p, C, i, alpha, beta, alpha_beta_sum, r_0, r_1, one_minus_r_0, one_minus_r_1);\n")] + LF + [("	prime_field::field_element direct_relay_value;\n	for(int i = C.total_depth - 1; i >= 1; --i)", "	bool ok = true;\n	for(int i = C.total_depth - 1; ok && i >= 1; --i)"), ("	//post sumcheck\n", "	if(!ok)\n		return false;\n	//post sumcheck\n")]})
m("x-layerfn-flag3", "linear", {V: [(BODY, "		ok = verify_layer(*this, p, C, i, alpha, beta, alpha_beta_sum, r_0, r_1, one_minus_r_0, one_minus_r_1);\n")] + LF + [("	prime_field::field_element direct_relay_value;\n	for(int i = C.total_depth - 1; i >= 1; --i)", "	bool ok = true;\n	for(int i = C.total_depth - 1; i >= 1; --i)"), ("	//post sumcheck\n", "	if(!ok)\n		return false;\n	//post sumcheck\n")]}, ["V01"])
m("x-semi-flag", "linear", {V: [DECL, ("semi final, circuit level %d\\n\", i);\n			return false;", "semi final, circuit level %d\\n\", i);\n			ok = false;\n			break;"), ("	if(alpha_beta_sum != input_0)", "	if(!ok || alpha_beta_sum != input_0)")]})
m("x-ph1-flag", "linear", {V: [DECL, ("current bit %d\\n\", i, j);\n				return false;\n			}\n			else\n			{\n			}\n			alpha_beta_sum = poly.eval(r_u[j]);", "current bit %d\\n\", i, j);\n				ok = false;\n				break;\n			}\n			else\n			{\n			}\n			alpha_beta_sum = poly.eval(r_u[j]);"), ("		p -> sumcheck_phase2_init(", "		if(!ok)\n			break;\n		p -> sumcheck_phase2_init("), ("	//post sumcheck\n", "	if(!ok)\n		return false;\n	//post sumcheck\n")]})
RD1 = (HEAD1, HEAD1.replace("j < C.circuit[i - 1].bit_length;", "ok && j < C.circuit[i - 1].bit_length;"))
for k, loop, exp in (("x-rounds-flag", RD1, None), ("x-rounds-noflag", (HEAD1, HEAD1), ["V01"])):
    m(k, "linear", {V: [DECL, loop, (PH1, PH1F.replace("ok = ok && ", "ok = ")), (SEMI, "		if(!ok || alpha_beta_sum != add_value * (v_u + v_v)")]}, exp)
m("x-rounds-flag-late", "linear", {V: [DECL, RD1, (PH1, PH1F.replace("ok = ok && ", "ok = ")), ("	//post sumcheck\n", "	if(!ok)\n		return false;\n	//post sumcheck\n")]}, None)
m("x-while-flag", "linear", {V: [(BODY, "		ok = verify_layer(*this, p, C, i, alpha, beta, alpha_beta_sum, r_0, r_1, one_minus_r_0, one_minus_r_1);\n		--i;\n")] + LF + [("	prime_field::field_element direct_relay_value;\n	for(int i = C.total_depth - 1; i >= 1; --i)", "	bool ok = true;\n	int i = C.total_depth - 1;\n	while(i >= 1 && ok)"), ("	//post sumcheck\n", "	if(!ok)\n		return false;\n	//post sumcheck\n")]})
m("x-while-fail", "linear", {V: [(BODY, "		failed = !verify_layer(*this, p, C, i, alpha, beta, alpha_beta_sum, r_0, r_1, one_minus_r_0, one_minus_r_1);\n		--i;\n")] + LF + [("	prime_field::field_element direct_relay_value;\n	for(int i = C.total_depth - 1; i >= 1; --i)", "	bool failed = false;\n	int i = C.total_depth - 1;\n	while(i >= 1 && !failed)"), ("	//post sumcheck\n", "	if(failed)\n		return false;\n	//post sumcheck\n")]})
