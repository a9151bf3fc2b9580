V = "src/linear_gkr/verifier_fast_track.cpp"
T = "src/traditional_gkr/verifier_traditional.cpp"
B = "src/traditional_gkr/verifier_bc_clogc.cpp"
M = []
def add(name, prog, expect, f, *pairs):
    M.append((name, prog, expect, {f: list(pairs)}))
L = "linear"
ANY = ["V01", "V02", "V03", "V04", "V05", "V06", "R01"]
add("l-ph1-nocheck", L, ["V01"], V, ("if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)", "if(false)"))
add("l-ph1-guard", L, ["V01"], V, ("if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)", "if(j != 0 && poly.eval(0) + poly.eval(1) != alpha_beta_sum)"))
add("l-ph2-guardi", L, ["V01"], V, ("if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)", "if(i > 1 && poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)"))
add("l-semi-guard", L, ["V01"], V, ("		if(alpha_beta_sum != add_value *", "		if(i != C.total_depth - 1 && alpha_beta_sum != add_value *"))
add("l-input-nocheck", L, ["V01"], V, ("	if(alpha_beta_sum != input_0)\n	{", "	if(alpha_beta_sum != input_0 && C.total_depth < 2)\n	{"))
add("l-beta-alpha", L, ["V03"], V, ("beta = tmp_beta[0];", "beta = tmp_alpha[0];"))
add("l-alpha1", L, None, V, ("		alpha = tmp_alpha[0];", "		alpha = prime_field::field_element(1);"))
add("l-rv-ru", L, ["V03"], V, ("		auto r_v = generate_randomness(C.circuit[i - 1].bit_length);", "		auto r_v = r_u;"))
add("l-swap", L, ["V02"], V, ("		r_0 = r_u;\n		r_1 = r_v;", "		r_0 = r_v;\n		r_1 = r_u;"))
add("l-late-check", L, ["V02"], V, ("alpha_beta_sum = poly.eval(r_u[j]);", "alpha_beta_sum = poly.eval(r_v[j]);"))
add("l-earlyacc", L, ANY, V, ("	p -> proof_init();\n", "	p -> proof_init();\n	if(C.total_depth > 40) return true;\n"))
add("l-ph1-skiplast", L, ["V01"], V, ("		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)\n		{\n			quadratic_poly poly = p -> sumcheck_phase1_update(previous_random, j);", "		for(int j = 0; j + 1 < C.circuit[i - 1].bit_length; ++j)\n		{\n			quadratic_poly poly = p -> sumcheck_phase1_update(previous_random, j);"))
add("l-pass-rv-early", L, ["V03"], V, ("p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);", "p -> sumcheck_phase2_init(previous_random, r_v, one_minus_r_u);"))
add("l-prev-rand", L, ["V03"], V, ("			previous_random = r_u[j];\n", "			previous_random = r_u[j];\n"), ("quadratic_poly poly = p -> sumcheck_phase1_update(previous_random, j);", "quadratic_poly poly = p -> sumcheck_phase1_update(r_u[j], j);"))
add("l-vv-reread", L, ["V04"], V, ("alpha_beta_sum = alpha * v_u + beta * v_v;", "alpha_beta_sum = alpha * p -> v_u + beta * v_v;"))
add("l-claim-vu", L, ANY, V, ("alpha_beta_sum = alpha * v_u + beta * v_v;", "alpha_beta_sum = alpha * v_u + beta * v_u;"))
add("l-outclaim", L, ["V06"], V, ("prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result,", "prime_field::field_element a_0 = V_in(r_1, one_minus_r_1, result,"))
add("l-input-skip", L, ["V06"], V, ("input[g] = prime_field::field_element(C.circuit[0].gates[g].u);", "input[g] = prime_field::field_element(C.circuit[0].gates[g].u & 0xffff);"))
add("l-relay-drop", L, ["V05"], V, (" + relay_value * v_u)\n", ")\n"))
add("l-sumgate", L, ["V05"], V, ("+ sum_value * v_u + relay_value", "+ relay_value"))
add("l-mult-gt", L, ["V05"], V, ("naab_value * (v_v - v_u * v_v)", "naab_value * (v_u - v_u * v_v)"))
add("l-first-layer-abs", L, ANY, V, ("	a_0 = alpha * a_0;\n", "	a_0 = beta * a_0;\n"))
add("l-r0static", L, ["V03"], V, ("prime_field::field_element *r_0 = generate_randomness(C.circuit[C.total_depth - 1].bit_length),", "prime_field::field_element *r_0 = new prime_field::field_element[C.circuit[C.total_depth - 1].bit_length],"))
# refactorings
add("l-r-flag", L, None, V, ("				fprintf(stderr, \"Verification fail, phase1, circuit %d, current bit %d\\n\", i, j);\n				return false;", "				ok = false;"),
    ("	prime_field::field_element alpha, beta;\n	alpha.value = 1;", "	bool ok = true;\n	prime_field::field_element alpha, beta;\n	alpha.value = 1;"),
    ("	delete_self();\n	return true;", "	delete_self();\n	return ok;"))
add("l-r-while", L, None, V, ("		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)\n		{\n			quadratic_poly poly = p -> sumcheck_phase1_update(previous_random, j);", "		int j = 0;\n		while(j < C.circuit[i - 1].bit_length)\n		{\n			quadratic_poly poly = p -> sumcheck_phase1_update(previous_random, j);"), ("			alpha_beta_sum = poly.eval(r_u[j]);\n", "			alpha_beta_sum = poly.eval(r_u[j]);\n			++j;\n"))
add("l-r-inc", L, None, V, ("	for(int i = C.total_depth - 1; i >= 1; --i)\n	{\n		std::chrono", "	for(int k = 1; k < C.total_depth; ++k)\n	{\n		int i = C.total_depth - k;\n		std::chrono"))
add("l-r-final", L, None, V, ("		if(alpha_beta_sum != add_value * (v_u + v_v) + mult_value * v_u * v_v +", "		auto prod = v_u * v_v;\n		auto sum_uv = v_v + v_u;\n		if(!(alpha_beta_sum == add_value * sum_uv + prod * mult_value +") , (") + sum_value * v_u + relay_value * v_u)\n", ") + (sum_value + relay_value) * v_u))\n"))
add("l-r-omr", L, None, V, ("			one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];\n			one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];\n		}", "			one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];\n		}\n		for(int j = C.circuit[i - 1].bit_length - 1; j >= 0; --j)\n			one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];"))
add("l-r-const", L, None, V, ("if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)", "prime_field::field_element s = poly.c + poly.c + poly.a + poly.b;\n			if(s != alpha_beta_sum)"))
add("l-r-vec", L, None, V, ("	input = new prime_field::field_element[(1 << C.circuit[0].bit_length)];", "	std::vector<prime_field::field_element> inv_(1 << C.circuit[0].bit_length);\n	input = inv_.data();"), ("	delete[] input;\n", ""))
add("l-r-helper", L, None, V, ("bool verifier::verify()\n", "static bool round_ok(quadratic_poly &q, const prime_field::field_element &extra, const prime_field::field_element &claim)\n{\n	prime_field::field_element s = q.eval(0) + q.eval(1);\n	s = s + extra;\n	return s == claim;\n}\n\nbool verifier::verify()\n"),
    ("if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)", "if(!round_ok(poly, prime_field::field_element(0), alpha_beta_sum))"),
    ("if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)", "if(!round_ok(poly, direct_relay_value * v_u, alpha_beta_sum))"))
add("l-r-switch", L, None, V, ("		if(C.circuit[0].gates[g].ty == 3)\n		{\n			input[g] = prime_field::field_element(C.circuit[0].gates[g].u);\n		}\n		else if(C.circuit[0].gates[g].ty == 2)\n		{\n			input[g] = prime_field::field_element(0);\n		}\n		else\n			assert(false);",
 "		switch(C.circuit[0].gates[g].ty)\n		{\n			case 3: input[g] = prime_field::field_element(C.circuit[0].gates[g].u); break;\n			case 2: input[g] = prime_field::field_element(0); break;\n			default: assert(false);\n		}"))
MUTANTS = M
