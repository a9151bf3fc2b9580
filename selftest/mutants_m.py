"""Memory mutants (M02)."""
L = "src/linear_gkr/verifier_fast_track.cpp"
B = "src/traditional_gkr/verifier_traditional.cpp"
C = "src/traditional_gkr/verifier_bc_clogc.cpp"
PL = "src/linear_gkr/prover_fast_track.cpp"
PB = "src/traditional_gkr/prover_clogc.cpp"
PC = "src/traditional_gkr/prover_bc_clogc.cpp"
M = MUTANTS = []
PR = {L: "mem-linear", B: "mem-bclogc", C: "mem-bc_clogc", PL: "mem-linear", PB: "mem-bclogc", PC: "mem-bc_clogc"}


def m(name, file, *prs, ok=False):
    M.append((name, PR[file], None if ok else ["M02"], {file: list(prs)}))


FE = "prime_field::field_element"
# ---- sizes
m("m-half-floor", PL, ("int half_length = (max_bit_length >> 1) + 1;", "int half_length = (max_bit_length >> 1);"))
m("mn-half-ceil", PL, ("int half_length = (max_bit_length >> 1) + 1;", "int half_length = (max_bit_length + 1) >> 1;"), ok=True)
m("mn-half-full", PL, ("int half_length = (max_bit_length >> 1) + 1;", "int half_length = max_bit_length;"), ok=True)
m("m-sum-small", PL, ("beta_g_sum = new prime_field::field_element[(1 << max_bit_length)];", "beta_g_sum = new prime_field::field_element[(1 << max_bit_length) - 1];"))
m("m-betau-half", PL, ("	beta_u = new prime_field::field_element[(1 << max_bit_length)];", "	beta_u = new prime_field::field_element[(1 << max_bit_length) >> 1];"))
m("m-addv-half", PL, ("addV_array = new linear_poly[(1 << max_bit_length)];", "addV_array = new linear_poly[(1 << max_bit_length) / 2];"))
m("m-max-strict", L, ("		if(C.circuit[i].bit_length > max_bit_length)\n			max_bit_length = C.circuit[i].bit_length;\n	}\n	p -> init_array(max_bit_length);\n\n	beta_g_r0 = new prime_field::field_element[(1 << max_bit_length)];\n	beta_g_r1 = new prime_field::field_element[(1 << max_bit_length)];\n	beta_v = new prime_field::field_element[(1 << max_bit_length)];\n	beta_u = new prime_field::field_element[(1 << max_bit_length)];\n	fclose(circuit_in);",
   "		if(i != d && C.circuit[i].bit_length > max_bit_length)\n			max_bit_length = C.circuit[i].bit_length;\n	}\n	p -> init_array(max_bit_length);\n\n	beta_g_r0 = new prime_field::field_element[(1 << max_bit_length)];\n	beta_g_r1 = new prime_field::field_element[(1 << max_bit_length)];\n	beta_v = new prime_field::field_element[(1 << max_bit_length)];\n	beta_u = new prime_field::field_element[(1 << max_bit_length)];\n	fclose(circuit_in);"))
m("m-max-first", L, ('		fprintf(stderr, "layer %d, bit_length %d\\n", i, C.circuit[i].bit_length);\n		if(C.circuit[i].bit_length > max_bit_length)', '		fprintf(stderr, "layer %d, bit_length %d\\n", i, C.circuit[i].bit_length);\n		if(i > 1 && C.circuit[i].bit_length > max_bit_length)', 2))
m("m-max-last", L, ('		fprintf(stderr, "layer %d, bit_length %d\\n", i, C.circuit[i].bit_length);\n		if(C.circuit[i].bit_length > max_bit_length)\n', '		fprintf(stderr, "layer %d, bit_length %d\\n", i, C.circuit[i].bit_length);\n', 2))
m("m-betav-first", L, ("	beta_v = new prime_field::field_element[(1 << max_bit_length)];\n	beta_u = new prime_field::field_element[(1 << max_bit_length)];\n	fclose", "	beta_v = new prime_field::field_element[(1 << C.circuit[0].bit_length)];\n	beta_u = new prime_field::field_element[(1 << max_bit_length)];\n	fclose"))
m("m-onem-prev", L, ("one_minus_r_v = new prime_field::field_element[C.circuit[i - 1].bit_length];", "one_minus_r_v = new prime_field::field_element[C.circuit[i].bit_length];"))
m("m-onem-short", L, ("one_minus_r_u = new prime_field::field_element[C.circuit[i - 1].bit_length];", "one_minus_r_u = new prime_field::field_element[C.circuit[i - 1].bit_length - 1];"))
m("m-gates-one", L, ("			if(n == 1)\n				C.circuit[i].gates = new gate[2];\n			else\n				C.circuit[i].gates = new gate[n];\n		}\n		else\n		{\n			if", "			C.circuit[i].gates = new gate[n];\n		}\n		else\n		{\n			if"))
m("m-gates-copy", L, ("				C.circuit[0].gates = new gate[n];\n				C.circuit[1].gates = new gate[n];\n", "				C.circuit[0].gates = new gate[n];\n				C.circuit[1].gates = new gate[n - 1];\n"))
m("m-gates-one-in", L, ("				C.circuit[0].gates = new gate[2];\n				C.circuit[1].gates = new gate[2];\n", "				C.circuit[0].gates = new gate[1];\n				C.circuit[1].gates = new gate[2];\n"))
m("m-layers", L, ("	C.circuit = new layer[d + 1];", "	C.circuit = new layer[d];"))
m("m-input-width", L, ("	input = new prime_field::field_element[(1 << C.circuit[0].bit_length)];", "	input = new prime_field::field_element[(1 << C.circuit[C.total_depth - 1].bit_length)];"))
m("m-cv-size", PL, ("		circuit_value[i] = new prime_field::field_element[(1 << C.circuit[i].bit_length)];", "		circuit_value[i] = new prime_field::field_element[(1 << C.circuit[i - 1].bit_length)];"))
m("m-vin-copy", L, ("	prime_field::field_element* output = new prime_field::field_element[output_size];", "	prime_field::field_element* output = new prime_field::field_element[output_size - 1];"))
m("m-rand-k", L, ("	ret = new prime_field::field_element[k];", "	ret = new prime_field::field_element[k - 1];"))
# ---- accesses
m("m-zero-le", PL, ("	for(int i = 0; i < total_uv; ++i)\n	{\n		V_mult_add[i] = circuit_value[sumcheck_layer_id - 1][i];\n\n", "	for(int i = 0; i <= total_uv; ++i)\n	{\n		V_mult_add[i] = circuit_value[sumcheck_layer_id - 1][i];\n\n"))
m("m-beta-le", PL, ("	for(int i = 0; i < (1 << length_g); ++i)\n	{\n		beta_g_sum[i].value", "	for(int i = 0; i <= (1 << length_g); ++i)\n	{\n		beta_g_sum[i].value"))
m("m-minus-uv", PL, ("				add_mult_sum[v].b.value = (add_mult_sum[v].b.value + prime_field::mod - tmp_g * tmp_u % prime_field::mod) % prime_field::mod;\n				addV_array[v]", "				add_mult_sum[v + 1].b.value = (add_mult_sum[v + 1].b.value + prime_field::mod - tmp_g * tmp_u % prime_field::mod) % prime_field::mod;\n				addV_array[v]"))
# ---- releases
m("m-rel-ru", L, ("		one_minus_r_0 = one_minus_r_u;\n		one_minus_r_1 = one_minus_r_v;\n", "		one_minus_r_0 = one_minus_r_u;\n		one_minus_r_1 = one_minus_r_v;\n		delete[] one_minus_r_v;\n"))
m("m-rel-twice", L, ("	delete[] input;\n	delete[] r_0;\n", "	delete[] input;\n	delete[] r_0;\n	delete[] r_0;\n"))
m("m-rel-input", L, ("	auto input_0 = V_in(r_0, one_minus_r_0, input,", "	delete[] one_minus_r_0;\n	auto input_0 = V_in(r_0, one_minus_r_0, input,"))
m("m-rel-early", L, ("		direct_relay_value = alpha * direct_relay(i, r_0, r_u) + beta * direct_relay(i, r_1, r_u);\n", "		direct_relay_value = alpha * direct_relay(i, r_0, r_u) + beta * direct_relay(i, r_1, r_u);\n		if(i == 1)\n			delete[] r_1;\n"))
m("m-rel-form", L, ("	delete[] beta_g_r0;\n", "	delete beta_g_r0;\n"))
m("m-rel-gates", L, ("	for(int i = 0; i < C.total_depth; ++i)\n	{\n		delete[] C.circuit[i].gates;\n	}\n	delete[] C.circuit;\n", "	delete[] C.circuit;\n	for(int i = 0; i < C.total_depth; ++i)\n	{\n		delete[] C.circuit[i].gates;\n	}\n"))
m("m-rel-gates-past", L, ("	for(int i = 0; i < C.total_depth; ++i)\n	{\n		delete[] C.circuit[i].gates;", "	for(int i = 0; i <= C.total_depth; ++i)\n	{\n		delete[] C.circuit[i].gates;"))
m("m-rel-prover-first", L, ("		delete[] tmp_alpha;\n", "		delete[] tmp_alpha;\n		delete[] tmp_alpha;\n"))
m("m-rel-tmp", L, ("		alpha = tmp_alpha[0];\n		beta = tmp_beta[0];\n		delete[] tmp_alpha;\n", "		delete[] tmp_alpha;\n		alpha = tmp_alpha[0];\n		beta = tmp_beta[0];\n"))
m("m-rel-self", PL, ("	delete[] beta_u;\n	delete[] beta_g_sum;\n", "	delete[] beta_u;\n	delete[] beta_g_sum;\n	delete[] beta_u;\n"))
m("m-rel-cv", PL, ("	for(int i = 0; i < C.total_depth; ++i)\n		delete[] circuit_value[i];", "	for(int i = 0; i < C.total_depth; ++i)\n		delete[] circuit_value[0];"))
m("m-rel-output", L, ("	auto ret = output[0];\n	ret.value", "	delete[] output;\n	auto ret = output[0];\n	ret.value"))
m("mn-rel-order", L, ("	delete[] input;\n	delete[] r_0;\n	delete[] r_1;\n", "	delete[] r_1;\n	delete[] r_0;\n	delete[] input;\n"), ok=True)
m("mn-rel-ret", L, ("		fprintf(stderr, \"Verification fail, final input check fail.\\n\");\n		return false;", "		fprintf(stderr, \"Verification fail, final input check fail.\\n\");\n		p -> delete_self();\n		delete_self();\n		return false;"), ok=True)
m("mn-rel-helper", L, ("void verifier::delete_self()\n{\n	delete[] beta_g_r0;\n	delete[] beta_g_r1;\n", "static void drop(prime_field::field_element *t)\n{\n	delete[] t;\n}\n\nvoid verifier::delete_self()\n{\n	drop(beta_g_r0);\n	drop(beta_g_r1);\n"), ok=True)
m("mn-leak", L, ("		delete[] tmp_alpha;\n", ""), ok=True)
m("mn-bigger", L, ("	beta_v = new prime_field::field_element[(1 << max_bit_length)];\n	beta_u = new prime_field::field_element[(1 << max_bit_length)];\n	fclose", "	beta_v = new prime_field::field_element[(2 << max_bit_length) + 3];\n	beta_u = new prime_field::field_element[(1 << max_bit_length)];\n	fclose"), ok=True)
m("mn-max-fn", L, ("		if(C.circuit[i].bit_length > max_bit_length)\n			max_bit_length = C.circuit[i].bit_length;\n	}\n	p -> init_array(max_bit_length);\n\n	beta_g_r0 = new prime_field::field_element[(1 << max_bit_length)];\n	beta_g_r1 = new prime_field::field_element[(1 << max_bit_length)];\n	beta_v = new prime_field::field_element[(1 << max_bit_length)];\n	beta_u = new prime_field::field_element[(1 << max_bit_length)];\n	fclose(circuit_in);",
   "	}\n	for(int i = 0; i < C.total_depth; ++i)\n		max_bit_length = std::max(max_bit_length, C.circuit[i].bit_length);\n	p -> init_array(max_bit_length);\n\n	int tbl = 1 << max_bit_length;\n	beta_g_r0 = new prime_field::field_element[tbl];\n	beta_g_r1 = new prime_field::field_element[tbl];\n	beta_v = new prime_field::field_element[tbl];\n	beta_u = new prime_field::field_element[tbl];\n	fclose(circuit_in);"), ok=True)
# ---- bclogc
m("m-b-half", PB, ("int half_length = (max_bit_length >> 1) + 1;", "int half_length = (max_bit_length >> 1);"))
m("m-b-add", PB, ("	add_linear = new quadratic_poly[(1 << max_bit_length)];", "	add_linear = new quadratic_poly[(1 << max_bit_length) >> 2];"))
m("m-b-cv", PB, ("		circuit_value[i] = new prime_field::field_element[(1 << C.circuit[i].bit_length)];", "		circuit_value[i] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];"))
m("m-b-gates", B, ("			C.circuit[i].gates = new gate[2];", "			C.circuit[i].gates = new gate[1];"))
m("m-b-onem", B, ("	one_minus_r_1 = new prime_field::field_element[C.circuit[C.total_depth - 1].bit_length];", "	one_minus_r_1 = new prime_field::field_element[C.circuit[0].bit_length];"))
m("m-b-rel", B, ("		delete[] one_minus_r_0;\n		delete[] one_minus_r_1;\n", "		delete[] one_minus_r_0;\n		delete[] one_minus_r_1;\n		delete[] one_minus_r_u;\n"))
m("m-b-rel2", B, ("	delete[] one_minus_r_0;\n	delete[] one_minus_r_1;\n	if", "	delete[] one_minus_r_0;\n	delete[] one_minus_r_0;\n	if"))
m("m-b-input", B, ("	input = new prime_field::field_element[(1 << C.circuit[0].bit_length)];", "	input = new prime_field::field_element[(1 << C.circuit[1].bit_length)];"))
m("mn-b-size", PB, ("	add_linear = new quadratic_poly[(1 << max_bit_length)];", "	int table_size = 1 << max_bit_length;\n	add_linear = new quadratic_poly[table_size];"), ok=True)
# ---- bc_clogc
m("m-c-half", PC, ("int half_length = (max_bit_length >> 1) + 1;", "int half_length = (max_bit_length >> 1);"))
m("m-c-blkv", PC, ("	block_v_value = new prime_field::field_element[1 << (blk_pair_length + max_bit_length)];", "	block_v_value = new prime_field::field_element[1 << (blk_pair_length + max_bit_length - 1)];"))
m("m-c-beta", PC, ("	block_beta_value = new prime_field::field_element[(1 << blk_pair_length)];", "	block_beta_value = new prime_field::field_element[(1 << (blk_pair_length - 1))];"))
m("m-c-layers", C, ("		C.blocks[i].circuit = new layer[d];", "		C.blocks[i].circuit = new layer[d - 1];"))
m("m-c-cvblk", PC, ("		circuit_value[i] = new prime_field::field_element*[C.blocks[0].total_depth];", "		circuit_value[i] = new prime_field::field_element*[C.blocks[0].total_depth - 1];"))
m("m-c-input", C, ("	input = new prime_field::field_element[(1 << C.blocks[0].circuit[0].bit_length) * C.total_blocks];", "	input = new prime_field::field_element[(1 << C.blocks[0].circuit[0].bit_length)];"))
m("m-c-onemb", C, ("		one_minus_r_b = new prime_field::field_element[C.total_blocks_binary_length];", "		one_minus_r_b = new prime_field::field_element[C.total_blocks_binary_length - 1];"))
m("m-c-rel", C, ("		delete[] r_b_0;\n", "		delete[] r_b_0;\n		delete[] r_b;\n"))
m("m-c-rel-blk", PC, ("			delete[] circuit_value[blk][i];\n		delete[] circuit_value[blk];\n", "			delete[] circuit_value[blk][i];\n		delete[] circuit_value[blk];\n		delete[] circuit_value[0];\n"))
m("m-c-rel-order", PC, ("	delete[] circuit_value;\n	delete[] block_beta_value;\n", "	delete[] block_beta_value;\n	delete[] block_v_value;\n	delete[] circuit_value;\n"))
m("mn-c-leak", C, ("		delete[] r_b_0;\n", ""), ok=True)
