
TP, BP = "src/traditional_gkr/prover_clogc.cpp", "src/traditional_gkr/prover_bc_clogc.cpp"
H = ["H02"]
M = MUTANTS = []


def t(name, exp, *prs):
    M.append((name, "prove-bclogc", exp, {TP: list(prs)}))


def b(name, exp, *prs):
    M.append((name, "prove-bc_clogc", exp, {BP: list(prs)}))


t("t-addsign", H, ("(circuit_value[sumcheck_layer_id - 1][v] - V_mult_add[u >> current_bit] + prime_field::field_element(2)", "(circuit_value[sumcheck_layer_id - 1][v] + V_mult_add[u >> current_bit] + prime_field::field_element(2)"))
t("t0-xor", None, ("V_mult_add[u >> current_bit] - V_mult_add[(u >> current_bit) ^ 1]);\n				}\n				break;\n			}\n			case 2:", "V_mult_add[u >> current_bit] - V_mult_add[(u >> current_bit) & ~1]);\n				}\n				break;\n			}\n			case 2:"))
t("t-prevbit", H, ("int u = C.circuit[sumcheck_layer_id].gates[i].u;\n			if(((u >> previous_bit) & 1) == 0)", "int u = C.circuit[sumcheck_layer_id].gates[i].u;\n			if(((u >> current_bit) & 1) == 0)"))
t("t-prevbit2", H, ("int v = C.circuit[sumcheck_layer_id].gates[i].v;\n			if(((v >> previous_bit) & 1) == 0)", "int v = C.circuit[sumcheck_layer_id].gates[i].u;\n			if(((v >> previous_bit) & 1) == 0)"))
t("t-p2bit", H, ("int previous_bit = C.circuit[sumcheck_layer_id - 1].bit_length - 1;", "int previous_bit = C.circuit[sumcheck_layer_id].bit_length - 1;"))
t("t-p2src", H, ("		V_mult_add[i] = circuit_value[sumcheck_layer_id - 1][i];\n	}\n	int previous_bit", "		V_mult_add[i] = circuit_value[sumcheck_layer_id][i];\n	}\n	int previous_bit"))
t("t-vv", H, ("v_v = V_mult_add[0] * (prime_field::field_element(1) - previous_random) + V_mult_add[1] * previous_random;", "v_v = V_mult_add[0] * (prime_field::field_element(1) - previous_random) + V_mult_add[0] * previous_random;"))
t("t-inv2", H, ("8399054365507916142470402071115866954879789801702376374514189432082785107975\");\n	for(int i = 0; i < (total_uv >> (current_bit + 1)); ++i)\n	{\n		prime_field::field_element ta, tb, tc;\n\n		tc = add_linear[i].c, tb = add_linear[i].b, ta = add_linear[i].a;\n		add_linear[i] = quadratic_poly((ta - tc) * inv_2 - (tb - tc), two * (tb - tc) - (ta - tc) * inv_2, tc);\n\n		tc = mult_linear[i].c, tb = mult_linear[i].b, ta = mult_linear[i].a;\n		mult_linear[i] = quadratic_poly((ta - tc) * inv_2 - (tb - tc), two * (tb - tc) - (ta - tc) * inv_2, tc);\n		ret = ret + add_linear[i] + mult_linear[i];\n	}\n\n	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();\n\n",
  "8399054365507916142470402071115866954879789801702376374514189432082785107976\");\n	for(int i = 0; i < (total_uv >> (current_bit + 1)); ++i)\n	{\n		prime_field::field_element ta, tb, tc;\n\n		tc = add_linear[i].c, tb = add_linear[i].b, ta = add_linear[i].a;\n		add_linear[i] = quadratic_poly((ta - tc) * inv_2 - (tb - tc), two * (tb - tc) - (ta - tc) * inv_2, tc);\n\n		tc = mult_linear[i].c, tb = mult_linear[i].b, ta = mult_linear[i].a;\n		mult_linear[i] = quadratic_poly((ta - tc) * inv_2 - (tb - tc), two * (tb - tc) - (ta - tc) * inv_2, tc);\n		ret = ret + add_linear[i] + mult_linear[i];\n	}\n\n	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();\n\n"))
t("t-half", H, ("int first_half = length_g >> 1, second_half = length_g - first_half;", "int first_half = length_g >> 1, second_half = first_half;"))
t("t-alpha", H, ("beta_g_r1_fhalf[0] = beta;", "beta_g_r1_fhalf[0] = alpha;"))
t("t0-noclear", None, ("int target_linear = u >> (current_bit + 1);", "int target_linear = u >> (current_bit + 2);"))
t("t-foldlim", H, ("			V_mult_add[i] = V_mult_add[i << 1] * (prime_field::field_element(1) - previous_random)\n						  + V_mult_add[i << 1 | 1] * previous_random;\n		}\n		for(int i = 0; i < total_g; ++i)\n		{\n			int u", "			V_mult_add[i] = V_mult_add[i << 1] * (prime_field::field_element(1) - previous_random)\n						  + V_mult_add[i << 1] * previous_random;\n		}\n		for(int i = 0; i < total_g; ++i)\n		{\n			int u"))
t("t-foldbit", H, ("	if(current_bit - 1 >= 0)\n	{\n		int previous_bit = current_bit - 1;\n		for(int i = 0; i < (total_uv >> current_bit); ++i)\n		{\n			V_mult_add[i] = V_mult_add[i << 1] * (prime_field::field_element(1) - previous_random)\n						  + V_mult_add[i << 1 | 1] * previous_random;\n		}\n		for(int i = 0; i < total_g; ++i)\n		{\n			int v", "	if(current_bit - 1 > 0)\n	{\n		int previous_bit = current_bit - 1;\n		for(int i = 0; i < (total_uv >> current_bit); ++i)\n		{\n			V_mult_add[i] = V_mult_add[i << 1] * (prime_field::field_element(1) - previous_random)\n						  + V_mult_add[i << 1 | 1] * previous_random;\n		}\n		for(int i = 0; i < total_g; ++i)\n		{\n			int v"))
t("t-vmul", H, ("mult_linear[target_linear].b + beta_g_sum[i] * V_mult_add[v >> current_bit] * v_u;", "mult_linear[target_linear].b + beta_g_sum[i] * V_mult_add[v >> current_bit] * circuit_value[sumcheck_layer_id - 1][v];"))
# behaviour-preserving
t("t0-two", None, ("prime_field::field_element(2) * V_mult_add[(u >> current_bit) ^ 1]", "(V_mult_add[(u >> current_bit) ^ 1] + V_mult_add[(u >> current_bit) ^ 1])"))
t("t0-fold", None, ("	v_u = V_mult_add[0] * (prime_field::field_element(1) - previous_random) + V_mult_add[1] * previous_random;", "	v_u = V_mult_add[0] + (V_mult_add[1] - V_mult_add[0]) * previous_random;"))
t("t0-sib", None, ("		int target_linear = u >> (current_bit + 1);", "		int pos = u >> current_bit;\n		int target_linear = pos >> 1;"))
t("t0-ifs", None, ("			case 2: //dummy gate skip\n				break;\n			case 3: //input gate, should not be executed\n				assert(false);\n				break;\n			default:\n				assert(false);\n				break;\n		}\n	}\n\n	//inverse of 2\n	prime_field::field_element two = prime_field::field_element(2);\n	prime_field::field_element inv_2 = from_string(\"8399054365507916142470402071115866954879789801702376374514189432082785107975\");\n	for(int i = 0; i < (total_uv >> (current_bit + 1)); ++i)\n	{\n		prime_field::field_element ta, tb, tc;\n\n		tc = add_linear[i].c, tb = add_linear[i].b, ta = add_linear[i].a;\n		add_linear[i] = quadratic_poly((ta - tc) * inv_2 - (tb - tc), two * (tb - tc) - (ta - tc) * inv_2, tc);\n\n		tc = mult_linear[i].c, tb = mult_linear[i].b, ta = mult_linear[i].a;\n		mult_linear[i] = quadratic_poly((ta - tc) * inv_2 - (tb - tc), two * (tb - tc) - (ta - tc) * inv_2, tc);\n		ret = ret + add_linear[i] + mult_linear[i];\n	}\n\n	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();\n\n",
  "			default:\n				assert(ty == 2);\n				break;\n		}\n	}\n\n	//inverse of 2\n	prime_field::field_element two = prime_field::field_element(2);\n	prime_field::field_element inv_2 = from_string(\"8399054365507916142470402071115866954879789801702376374514189432082785107975\");\n	for(int i = 0; i < (total_uv >> (current_bit + 1)); ++i)\n	{\n		prime_field::field_element ta, tb, tc;\n\n		tc = add_linear[i].c + mult_linear[i].c, tb = add_linear[i].b + mult_linear[i].b, ta = add_linear[i].a + mult_linear[i].a;\n		ret = ret + quadratic_poly((ta - tc) * inv_2 - (tb - tc), two * (tb - tc) - (ta - tc) * inv_2, tc);\n	}\n\n	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();\n\n"))
b("b-beta", [], ("block_beta_value[j] = block_beta_value[j] * one_minus_r_b_0[i];", "block_beta_value[j] = block_beta_value[j] * one_minus_r_b_0[j];"))
b("b-blkord", [], ("block_v_value[i << length_u | j] = circuit_value[i][sumcheck_layer_id - 1][j];", "block_v_value[i << length_g | j] = circuit_value[i][sumcheck_layer_id - 1][j];"))
b("b-foldlim", H, ("for(int blk = 0; blk < (1 << (block_binary_length - current_bit)); ++blk)", "for(int blk = 0; blk < (1 << (block_binary_length - current_bit - 1)); ++blk)"))
b("b-addlin", H, ("v_part = v_part + quadratic_poly(prime_field::field_element(0), tmp.a, tmp.b);", "v_part = v_part + quadratic_poly(tmp.a, prime_field::field_element(0), tmp.b);"))
b("b-vvar", H, ("one_value = block_v_value[blk_one << length_u | v];", "one_value = block_v_value[blk_one << length_u | u];"))
b("b-first", H, ("	if(current_bit != 0)\n	{\n		//update arrays", "	if(current_bit > 1)\n	{\n		//update arrays"))
b("b-foldu", [], ("for(int u = 0; u < (1 << length_u); ++u)\n			{\n				int blk_zero", "for(int u = 0; u < (1 << length_g); ++u)\n			{\n				int blk_zero"))
b("b0-local", None, ("		ret = ret + v_part * beta_part;", "		cubic_poly part = v_part * beta_part;\n		ret = part + ret;"))
b("b0-order", None, ("			block_beta_value[blk] = (one_beta_point - zero_beta_point) * previous_random + zero_beta_point;\n", "			block_beta_value[blk] = zero_beta_point * (prime_field::field_element(1) - previous_random) + one_beta_point * previous_random;\n"))
b("b-beta2", H, ("block_beta_value[j] = block_beta_value[j] * one_minus_r_b_0[i];", "block_beta_value[j] = block_beta_value[j] * one_minus_r_0[i];"))
b("b-row", H, ("block_v_value[i << length_u | j] = circuit_value[i][sumcheck_layer_id - 1][j];", "block_v_value[i << length_u | j] = circuit_value[i][sumcheck_layer_id][j];"))
