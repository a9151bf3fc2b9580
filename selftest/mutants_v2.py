V = "src/linear_gkr/verifier_fast_track.cpp"
T = "src/traditional_gkr/verifier_traditional.cpp"
B = "src/traditional_gkr/verifier_bc_clogc.cpp"
M = []
def add(name, prog, expect, f, *pairs):
    M.append((name, prog, expect, {f: list(pairs)}))
L = "linear"
W = ["V05"]
ANY = ["V01", "V02", "V03", "V04", "V05", "V06", "R01"]
add("h-beta-half", L, W, V, ("			beta_v[j | (1 << i)] = beta_v[j] * r_v[i];", "			beta_v[j | (1 << i)] = beta_v[j] * r_u[i];"))
add("h-beta-swap", L, W, V, ("			beta_u[j] = beta_u[j] * one_minus_r_u[i];", "			beta_u[j] = beta_u[j] * r_u[i];"))
add("h-sum-le", L, W, V, ("			for(int j = u; j < v; ++j)\n				ret = ret +", "			for(int j = u; j <= v; ++j)\n				ret = ret +"))
add("h-xor-ty", L, W, V, ("if(C.circuit[depth].gates[i].ty == 8)", "if(C.circuit[depth].gates[i].ty == 7)"))
add("h-loop-short", L, W, V, ("prime_field::field_element verifier::mult(int depth)\n{\n	prime_field::field_element ret = prime_field::field_element(0);\n	for(int i = 0; i < (1 << C.circuit[depth].bit_length); ++i)", "prime_field::field_element verifier::mult(int depth)\n{\n	prime_field::field_element ret = prime_field::field_element(0);\n	for(int i = 0; i < (1 << C.circuit[depth].bit_length) - 1; ++i)"))
add("h-dr", L, ANY, V, ("if(depth != 1)\n		return prime_field::field_element(0);", "if(depth != 0)\n		return prime_field::field_element(0);"))
add("h-dr2", L, ANY, V, ("for(int i = 0; i < C.circuit[depth].bit_length; ++i)\n			ret = ret *", "for(int i = 1; i < C.circuit[depth].bit_length; ++i)\n			ret = ret *"))
add("h-vin", L, ["V06"], V, ("for(int i = 0; i < output_size; ++i)\n		output[i] = output_raw[i];", "for(int i = 0; i < output_size; ++i)\n		output[i] = output_raw[i & 0xfffff];"))
add("h-vin2", L, ["V06"], V, ("	for(int i = 0; i < r_0_size; ++i)\n	{\n		for(int j = 0; j < (output_size >> 1)", "	for(int i = 0; i < r_0_size && i < 20; ++i)\n	{\n		for(int j = 0; j < (output_size >> 1)"))
add("h-rand-zero", L, ["V03"], V, ("	for(int i = 0; i < k; ++i)\n	{\n		ret[i] = prime_field::random();\n		ret[i].value = ret[i].value % prime_field::mod;", "	for(int i = 0; i < k; ++i)\n	{\n		ret[i] = i < 16 ? prime_field::random() : prime_field::field_element(0);\n		ret[i].value = ret[i].value % prime_field::mod;"))
add("h-rand-one", L, ["V03"], V, ("	for(int i = 0; i < k; ++i)\n	{\n		ret[i] = prime_field::random();", "	prime_field::field_element seed = prime_field::random();\n	for(int i = 0; i < k; ++i)\n	{\n		ret[i] = seed;"))
add("h-rand-small", L, ["V03"], V, ("		ret[i] = prime_field::random();\n		ret[i].value = ret[i].value % prime_field::mod;", "		ret[i] = prime_field::random();\n		ret[i].value = ret[i].value % prime_field::u256b(256ULL);"))
add("h-rand-static", L, ["V03"], V, ("	int k = size;\n	prime_field::field_element* ret;", "	static prime_field::field_element cache;\n	int k = size;\n	prime_field::field_element* ret;"), ("		ret[i] = prime_field::random();\n", "		if(i == 0) cache = prime_field::random();\n		ret[i] = cache;\n"))
add("h-add-v", L, W, V, ("		int g = i, u = C.circuit[depth].gates[i].u, v = C.circuit[depth].gates[i].v;\n		if(C.circuit[depth].gates[i].ty == 9)", "		int g = i, u = C.circuit[depth].gates[i].v, v = C.circuit[depth].gates[i].u;\n		if(C.circuit[depth].gates[i].ty == 9)"))
add("h-r0only", L, W, V, ("if(C.circuit[depth].gates[i].ty == 7)\n		{\n			ret = ret + (beta_g_r0[g] + beta_g_r1[g])", "if(C.circuit[depth].gates[i].ty == 7)\n		{\n			ret = ret + (beta_g_r0[g])"))
# refactorings of helpers
add("h-r-direct", L, None, V, ("			beta_u[j | (1 << i)] = beta_u[j] * r_u[i];\n			beta_v[j | (1 << i)] = beta_v[j] * r_v[i];", "			beta_u[j + (1 << i)] = beta_u[j] * r_u[i];\n			beta_v[j ^ (1 << i)] = r_v[i] * beta_v[j];"))
add("h-r-onepass", L, None, V, ("			beta_u[j | (1 << i)] = beta_u[j] * r_u[i];\n			beta_v[j | (1 << i)] = beta_v[j] * r_v[i];\n		}\n			\n		for(int j = 0; j < (1 << i); ++j)\n		{\n", "			beta_u[j | (1 << i)] = beta_u[j] * r_u[i];\n			beta_v[j | (1 << i)] = beta_v[j] * r_v[i];\n"))
add("h-r-onepass2", L, None, V, ("			beta_g_r0[j | (1 << i)].value = beta_g_r0[j].value * r_0[i].value % prime_field::mod;\n			beta_g_r1[j | (1 << i)].value = beta_g_r1[j].value * r_1[i].value % prime_field::mod;\n		}\n		for(int j = 0; j < (1 << i); ++j)\n		{\n			beta_g_r0[j].value = beta_g_r0[j].value * one_minus_r_0[i].value % prime_field::mod;\n			beta_g_r1[j].value = beta_g_r1[j].value * one_minus_r_1[i].value % prime_field::mod;\n", 
  "			prime_field::field_element a = beta_g_r0[j], b = beta_g_r1[j];\n			beta_g_r0[j | (1 << i)] = a * r_0[i];\n			beta_g_r1[j | (1 << i)] = b * r_1[i];\n			beta_g_r0[j] = a * one_minus_r_0[i];\n			beta_g_r1[j] = b * one_minus_r_1[i];\n"))
add("h-r-generic", L, None, V, ("prime_field::field_element verifier::add(int depth)\n{", "static prime_field::field_element wsum(const layered_circuit &C, int depth, int kind, const prime_field::field_element *g0, const prime_field::field_element *g1, const prime_field::field_element *bu, const prime_field::field_element *bv)\n{\n	prime_field::field_element acc = prime_field::field_element(0);\n	const layer &ly = C.circuit[depth];\n	const int n = 1 << ly.bit_length;\n	for(int i = 0; i < n; ++i)\n	{\n		const gate &gt = ly.gates[i];\n		if(gt.ty != kind)\n			continue;\n		acc = acc + (g0[i] + g1[i]) * bu[gt.u] * bv[gt.v];\n	}\n	return acc;\n}\n\nprime_field::field_element verifier::add(int depth)\n{\n	if(depth >= 0) return wsum(C, depth, 0, beta_g_r0, beta_g_r1, beta_u, beta_v);"),
)
add("h-r-xor", L, None, V, ("		int g = i, u = C.circuit[depth].gates[i].u, v = C.circuit[depth].gates[i].v;\n		if(C.circuit[depth].gates[i].ty == 8)\n		{\n			ret = ret + (beta_g_r0[g] + beta_g_r1[g]) * beta_u[u] * beta_v[v];\n		}", "		const gate &q = C.circuit[depth].gates[i];\n		if(q.ty != 8)\n			continue;\n		ret = beta_u[q.u] * beta_v[q.v] * (beta_g_r0[i] + beta_g_r1[i]) + ret;"))
add("h-r-vin", L, None, V, ("		for(int j = 0; j < (output_size >> 1); ++j)\n			output[j] = output[j << 1] * (one_minus_r_0[i]) + output[j << 1 | 1] * (r_0[i]);\n		output_size >>= 1;", "		int half = output_size / 2;\n		for(int j = 0; j < half; ++j)\n			output[j] = output[2 * j] * (one_minus_r_0[i]) + output[2 * j + 1] * (r_0[i]);\n		output_size = half;"))
add("h-r-vin2", L, None, V, ("		for(int j = 0; j < (output_size >> 1); ++j)\n			output[j] = output[j << 1] * (one_minus_r_0[i]) + output[j << 1 | 1] * (r_0[i]);\n		output_size >>= 1;", "		output_size >>= 1;\n		for(int j = 0; j < output_size; ++j)\n			output[j] = output[j << 1] + (output[j << 1 | 1] - output[j << 1]) * (r_0[i]);"))
add("h-r-vin3", L, None, V, ("prime_field::field_element* output = new prime_field::field_element[output_size];\n	for(int i = 0; i < output_size; ++i)\n		output[i] = output_raw[i];", "std::vector<prime_field::field_element> output(output_raw, output_raw + output_size);"), ("	delete[] output;\n", ""))
add("h-r-dr", L, None, V, ("	if(depth != 1)\n		return prime_field::field_element(0);\n	else\n	{\n		prime_field::field_element ret = prime_field::field_element(1);\n		for(int i = 0; i < C.circuit[depth].bit_length; ++i)\n			ret = ret * (prime_field::field_element(1) - r_g[i] - r_u[i] + prime_field::field_element(2) * r_g[i] * r_u[i]);\n		return ret;\n	}", "	prime_field::field_element ret = prime_field::field_element(depth == 1 ? 1 : 0);\n	if(depth == 1)\n		for(int i = 0; i < C.circuit[depth].bit_length; ++i)\n		{\n			auto one = prime_field::field_element(1);\n			ret = ret * (r_g[i] * r_u[i] + (one - r_g[i]) * (one - r_u[i]));\n		}\n	return ret;"))
add("h-r-sum", L, None, V, ("			for(int j = u; j < v; ++j)\n				ret = ret + (beta_g_r0[g] + beta_g_r1[g]) * (beta_v[0]) * (beta_u[j]);", "			prime_field::field_element s = prime_field::field_element(0);\n			for(int j = u; j < v; ++j)\n				s = s + beta_u[j];\n			ret = ret + (beta_g_r0[g] + beta_g_r1[g]) * (beta_v[0]) * s;"))
add("h-r-rand", L, None, V, ("	int k = size;\n	prime_field::field_element* ret;\n	ret = new prime_field::field_element[k];\n\n	for(int i = 0; i < k; ++i)\n	{\n		ret[i] = prime_field::random();\n		ret[i].value = ret[i].value % prime_field::mod;\n	}\n	return ret;", "	prime_field::field_element* ret = new prime_field::field_element[size];\n	prime_field::field_element* it = ret;\n	for(unsigned int i = 0; i < size; ++i, ++it)\n		*it = prime_field::random();\n	return ret;"))
for P, pr, X in ((T, "bclogc", "t"), (B, "bc_clogc", "b")):
    add(X + "-ph1", pr, ["V01"], P, ("			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase1,", "			if(j && poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase1,"))
    add(X + "-ph2", pr, ["V01"], P, ("			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase2,", "			if(i == 1 && poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase2,"))
    add(X + "-swap", pr, ["V02"], P, ("		r_0 = r_u;\n		r_1 = r_v;", "		r_0 = r_v;\n		r_1 = r_u;"))
    add(X + "-inp", pr, ["V06"], P, ("input_0 * alpha + input_1 * beta", "input_0 * alpha + input_0 * beta"))
    add(X + "-beta", pr, ["V03"], P, ("beta = tmp_beta[0]", "beta = tmp_alpha[0]"))
    add(X + "-beta0", pr, ["V03"], P, ("		beta = tmp_beta[0]", "		beta = prime_field::field_element(1)"), ("		alpha = tmp_alpha[0]", "		alpha = prime_field::field_element(1)"))
    add(X + "-rv", pr, ["V02"], P, ("alpha_beta_sum = poly.eval(r_v[j])", "alpha_beta_sum = poly.eval(r_u[j])"))
    add(X + "-add", pr, W, P, ("add_value * (v_u + v_v)", "add_value * (v_u - v_v)"))
    add(X + "-rmute", pr, ["V04"], P, ("auto v_v = final_claims.second;", "auto v_v = p -> sumcheck_finalize(previous_random).second;\n		p -> V_res(r_0, r_1, result, 0, 0);") if 0 else ("alpha_beta_sum = alpha * v_u + beta * v_v;", "alpha_beta_sum = alpha * v_u + beta * p -> sumcheck_finalize(previous_random).second;"))
    add(X + "-r-swapgen", pr, None, P, ("auto tmp_alpha = generate_randomness(1), tmp_beta = generate_randomness(1);\n		alpha = tmp_alpha[0];\n		beta = tmp_beta[0];\n		delete[] tmp_alpha;\n		delete[] tmp_beta;", "auto mix = generate_randomness(2);\n		alpha = mix[0];\n		beta = mix[1];\n		delete[] mix;"))
    add(X + "-r-if", pr, None, P, ("			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase1, circuit %d, current bit %d\\n\", i, j);\n				return false;", "			bool good = alpha_beta_sum == poly.eval(1) + poly.eval(0);\n			if(!good)\n			{\n				fprintf(stderr, \"bad\\n\");\n				return good;"))
    add(X + "-r-lazyrv", pr, None, P, ("auto r_v = generate_randomness(C.%scircuit[i - 1].bit_length);" % ("" if X == "t" else "blocks[0]."), "auto *r_v = new prime_field::field_element[C.%scircuit[i - 1].bit_length];" % ("" if X == "t" else "blocks[0].")),
       ("			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);\n", "			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);\n			r_v[j] = prime_field::random();\n			one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];\n"), ("			one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];\n		}\n		for(", "		}\n		for("))
add("b-rb", "bc_clogc", ANY, B, ("(r_b_0[j] * r_b[j] + one_minus_r_b_0[j] * one_minus_r_b[j])", "(r_b[j] * r_b[j] + one_minus_r_b_0[j] * one_minus_r_b[j])"))
add("b-rbkeep", "bc_clogc", ANY, B, ("		r_b_0 = r_b;\n", "		r_b = r_b_0;\n"), ("		delete[] r_b_0;\n", ""))
add("b-blk0", "bc_clogc", ["V06"], B, ("input[g] = prime_field::field_element(C.blocks[blk].circuit[0].gates[i].u);", "input[g] = prime_field::field_element(blk < 4 ? C.blocks[blk].circuit[0].gates[i].u : 0);"))
add("b-blkcnt", "bc_clogc", ["V06", "V01"], B, ("	for(int blk = 0; blk < C.total_blocks; ++blk)\n	{\n		int blk_size", "	for(int blk = 0; blk < C.total_blocks - 1; ++blk)\n	{\n		int blk_size"))
add("b-ph0", "bc_clogc", ["V01"], B, ("			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase0,", "			if(tmp != tmp)\n			{\n				fprintf(stderr, \"Verification fail, phase0,"))
add("b-ph0rounds", "bc_clogc", ["V01"], B, ("		p -> sumcheck_phase0_init();\n		for(int j = 0; j < C.total_blocks_binary_length; ++j)", "		p -> sumcheck_phase0_init();\n		for(int j = 0; j < C.total_blocks_binary_length && j < 8; ++j)"))
add("b-r-tmp", "bc_clogc", None, B, ("			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase0,", "			if(tmp != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase0,"))
MUTANTS = M
add("h-r-vin4", L, None, V, ("prime_field::field_element* output = new prime_field::field_element[output_size];\n	for(int i = 0; i < output_size; ++i)\n		output[i] = output_raw[i];", "std::vector<prime_field::field_element> output;\n	output.reserve(output_size);\n	for(int i = 0; i < output_size; ++i)\n		output.push_back(output_raw[i]);"), ("	delete[] output;\n", ""))
add("h-r-vin5", L, None, V, ("	for(int i = 0; i < output_size; ++i)\n		output[i] = output_raw[i];", "	std::copy(output_raw, output_raw + output_size, output);"))
add("h-r-vin6", L, None, V, ("	for(int i = 0; i < output_size; ++i)\n		output[i] = output_raw[i];", "	memcpy(output, output_raw, sizeof(prime_field::field_element) * output_size);"), ("#include <string>\n", "#include <string>\n#include <cstring>\n"))
add("h-r-vin7", L, None, V, ("	for(int i = 0; i < output_size; ++i)\n		output[i] = output_raw[i];", "	{ prime_field::field_element *o = output; const prime_field::field_element *q = output_raw, *e = output_raw + output_size; while(q != e) *o++ = *q++; }"))
add("h-r-range", L, None, V, ("	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)\n	{\n		int g = i;\n		if(C", "	std::vector<int> ids;\n	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)\n		ids.push_back(i);\n	for(int g : ids)\n	{\n		if(C"))
MUTANTS = M
