LP, TP, BP = "src/linear_gkr/prover_fast_track.cpp", "src/traditional_gkr/prover_clogc.cpp", "src/traditional_gkr/prover_bc_clogc.cpp"
H = ["H01"]
M = MUTANTS = []


def m(name, exp, *prs):
    M.append((name, "prove-linear", exp, {LP: list(prs)}))


m("h-sumend", H, ("for(int j = u; j < v; ++j)\n				{\n					add_mult_sum[j]", "for(int j = u; j <= v; ++j)\n				{\n					add_mult_sum[j]"))
m("h-xor2", H, ("tmp + prime_field::mod - (prime_field::field_element(2).value * circuit_value", "tmp + prime_field::mod - (prime_field::field_element(1).value * circuit_value"))
m("h-naab-u", H, ("				addV_array[u].b.value = (addV_array[u].b.value + tmp * circuit_value[sumcheck_layer_id - 1][v].value % prime_field::mod) % prime_field::mod;\n				add_mult_sum[u].b.value = (add_mult_sum[u].b.value + prime_field::mod - (circuit_value[sumcheck_layer_id - 1][v]",
   "				addV_array[u].b.value = (addV_array[u].b.value + tmp * circuit_value[sumcheck_layer_id - 1][v].value % prime_field::mod) % prime_field::mod;\n				add_mult_sum[v].b.value = (add_mult_sum[u].b.value + prime_field::mod - (circuit_value[sumcheck_layer_id - 1][v]"))
m("h-uv-swap", H, ("		V_mult_add[i] = circuit_value[sumcheck_layer_id - 1][i];\n\n", "		V_mult_add[i] = circuit_value[sumcheck_layer_id][i];\n\n"))
m("h-noreset", H, ("		add_mult_sum[i].a = zero;\n		add_mult_sum[i].b = zero;\n		addV_array[i].a = zero;\n		addV_array[i].b = zero;\n		V_mult", "		add_mult_sum[i].a = zero;\n		add_mult_sum[i].b = zero;\n		addV_array[i].a = zero;\n		V_mult"))
m("h-sameuv", H, ("			case 1: //mult gate\n			{\n				auto tmp = ", "			case 1: //mult gate\n			{\n				if(u == v) break;\n				auto tmp = "))
m("h-halfsplit", H, ("int mask_fhalf = (1 << first_half) - 1;\n	for(int i = 0; i < (1 << length_u)", "int mask_fhalf = (1 << second_half) - 1;\n	for(int i = 0; i < (1 << length_u)"))
m("h-total-g", H, ("int total_g = (1 << C.circuit[sumcheck_layer_id].bit_length);", "int total_g = (1 << C.circuit[sumcheck_layer_id - 1].bit_length);"))
m("h-not2", H, ("addV_array[v].b.value = (addV_array[v].b.value + tmp_g * tmp_u % prime_field::mod + prime_field::mod - tmp_g * tmp_u % prime_field::mod * v_u.value % prime_field::mod)", "addV_array[v].b.value = (addV_array[v].b.value + prime_field::mod - tmp_g * tmp_u % prime_field::mod * v_u.value % prime_field::mod)"))
m("h-relay2", H, ("				addV_array[v].b.value = (addV_array[v].b.value + tmp * v_u.value) % prime_field::mod;\n				assert(v == 0);", "				addV_array[v].b.value = (tmp * v_u.value) % prime_field::mod;\n				assert(v == 0);"))
m("h-sum2", H, ("for(int j = u; j < v; ++j)\n				{\n					auto tmp_u", "for(int j = u + 1; j < v; ++j)\n				{\n					auto tmp_u"))
m("h-fold-cross", H, ("addV_array[i].a.value = (addV_array[g_one].a.value * previous_random.value + addV_array[g_one].b.value - addV_array[i].b.value + prime_field::mod) % prime_field::mod;", "addV_array[i].a.value = (addV_array[g_one].a.value * previous_random.value + addV_array[g_one].b.value - V_mult_add[i].b.value + prime_field::mod) % prime_field::mod;"))
m("h-fold-bit1", H, ("		int g_zero = i << 1, g_one = i << 1 | 1;\n		if(current_bit == 0)\n		{\n			V_mult_add[i].b = V_mult_add[g_zero].b;\n			V_mult_add[i].a = V_mult_add[g_one].b - V_mult_add[i].b;\n\n			addV_array[i].b = addV_array[g_zero].b;\n			addV_array[i].a = addV_array[g_one].b - addV_array[i].b;\n\n			add_mult_sum[i].b = add_mult_sum[g_zero].b;\n			add_mult_sum[i].a = add_mult_sum[g_one].b - add_mult_sum[i].b;\n\n",
   "		int g_zero = i << 1, g_one = i << 1 | 1;\n		if(current_bit <= 1)\n		{\n			V_mult_add[i].b = V_mult_add[g_zero].b;\n			V_mult_add[i].a = V_mult_add[g_one].b - V_mult_add[i].b;\n\n			addV_array[i].b = addV_array[g_zero].b;\n			addV_array[i].a = addV_array[g_one].b - addV_array[i].b;\n\n			add_mult_sum[i].b = add_mult_sum[g_zero].b;\n			add_mult_sum[i].a = add_mult_sum[g_one].b - add_mult_sum[i].b;\n\n"))
m("h-r1half", H, ("beta_g_r1_shalf[j | (1 << i)].value = beta_g_r1_shalf[j].value * r_1[i + first_half]", "beta_g_r1_shalf[j | (1 << i)].value = beta_g_r1_shalf[j].value * r_0[i + first_half]"))
m("h-beta", H, ("beta_g_r1_fhalf[0] = beta;", "beta_g_r1_fhalf[0] = alpha;"))
m("h-relaypos", H, ("auto tmp = (beta_g_r0_fhalf[u & mask_fhalf].value * beta_g_r0_shalf[u >> first_half].value", "auto tmp = (beta_g_r0_fhalf[u & mask_fhalf].value * beta_g_r0_shalf[i >> first_half].value"))
m("h-final", H, ("v_v = V_mult_add[0].eval(previous_random);", "v_v = V_mult_add[1].eval(previous_random);"))
m("h-final2", H, ("return std::make_pair(v_u, v_v);", "return std::make_pair(v_v, v_u);"))
m("h-nohalve", H, ("	total_uv >>= 1;\n	ret.a.value = ret.a.value % prime_field::mod;\n	ret.b.value = ret.b.value % prime_field::mod;\n	ret.c.value = ret.c.value % prime_field::mod;\n	\n", "	if(total_uv > 4) total_uv >>= 1;\n	ret.a.value = ret.a.value % prime_field::mod;\n	ret.b.value = ret.b.value % prime_field::mod;\n	ret.c.value = ret.c.value % prime_field::mod;\n	\n"))
m("h-skipzero", H, ("	for(int i = 0; i < (1 << length_g); ++i)\n	{\n		int u, v;", "	for(int i = 1; i < (1 << length_g); ++i)\n	{\n		int u, v;"))
m("h-lenclip", H, ("length_g >> 1, second_half = length_g - first_half;", "length_g >> 1, second_half = length_g > 20 ? 10 : length_g - first_half;"))
# behaviour-preserving
BG = "(beta_g_r0_fhalf[i & mask_fhalf].value * beta_g_r0_shalf[i >> first_half].value \n						+ beta_g_r1_fhalf[i & mask_fhalf].value * beta_g_r1_shalf[i >> first_half].value) % prime_field::mod"
m("h0-usesum", None, ("				auto tmp = " + BG + ";\n				addV_array[u].b.value = (addV_array[u].b.value + circuit_value", "				auto tmp = beta_g_sum[i].value;\n				addV_array[u].b.value = (addV_array[u].b.value + circuit_value"))
m("h0-lambda", None, ("	int mask_fhalf = (1 << first_half) - 1;\n\n	for(int i = 0; i < (1 << length_g); ++i)\n", "	int mask_fhalf = (1 << first_half) - 1;\n	auto weight = [&](int i) { return " + BG + "; };\n\n	for(int i = 0; i < (1 << length_g); ++i)\n"),
  ("				auto tmp = " + BG + ";\n				addV_array[u].b.value = (addV_array[u].b.value + circuit_value", "				auto tmp = weight(i);\n				addV_array[u].b.value = (addV_array[u].b.value + circuit_value"))
m("h0-fieldops", None, ("			V_mult_add[i].b.value = (V_mult_add[g_zero].a.value * previous_random.value + V_mult_add[g_zero].b.value) % prime_field::mod;\n			V_mult_add[i].a.value = (V_mult_add[g_one].a.value * previous_random.value + V_mult_add[g_one].b.value - V_mult_add[i].b.value + prime_field::mod) % prime_field::mod;",
   "			auto lo = V_mult_add[g_zero].eval(previous_random), hi = V_mult_add[g_one].eval(previous_random);\n			V_mult_add[i] = linear_poly(hi - lo, lo);"))
m("h0-ifchain", None, ("		switch(C.circuit[sumcheck_layer_id].gates[i].ty)\n		{\n			case 0: //add gate\n			{", "		if(C.circuit[sumcheck_layer_id].gates[i].ty == 2) continue;\n		switch(C.circuit[sumcheck_layer_id].gates[i].ty)\n		{\n			case 0: //add gate\n			{"))
m("h0-order", None, ("		V_mult_add[i] = circuit_value[sumcheck_layer_id - 1][i];\n\n		addV_array[i].a = zero;\n		addV_array[i].b = zero;\n", "		addV_array[i].b = zero;\n		addV_array[i].a = zero;\n		V_mult_add[i] = circuit_value[sumcheck_layer_id - 1][i];\n"))
m("h0-while", None, ("	for(int i = 0; i < (1 << length_g); ++i)\n	{\n		int u, v;", "	int gcount = 1 << C.circuit[sumcheck_layer_id].bit_length;\n	for(int i = gcount - 1; i >= 0; --i)\n	{\n		int u, v;"))
m("h0-rel0", None, ("				addV_array[v].b.value = (addV_array[v].b.value + tmp * v_u.value) % prime_field::mod;\n				assert(v == 0);", "				addV_array[0].b.value = (addV_array[0].b.value + tmp * v_u.value) % prime_field::mod;"))
m("h0-localtot", None, ("	for(int i = 0; i < (total_uv >> 1); ++i)\n	{\n		prime_field::field_element zero_value, one_value;", "	int half = total_uv / 2;\n	for(int i = 0; i != half; ++i)\n	{"))
m("h0-split", None, ("		ret.a.value = (ret.a.value + add_mult_sum[i].a.value * V_mult_add[i].a.value) % prime_field::mod;\n		ret.b.value = (ret.b.value + add_mult_sum[i].a.value * V_mult_add[i].b.value + add", "	}\n	for(int i = 0; i < (total_uv >> 1); ++i)\n	{\n		ret.a.value = (ret.a.value + add_mult_sum[i].a.value * V_mult_add[i].a.value) % prime_field::mod;\n		ret.b.value = (ret.b.value + add_mult_sum[i].a.value * V_mult_add[i].b.value + add"))
m("h0-swapbr", None, ("		if(current_bit == 0)\n		{\n			V_mult_add[i].b = V_mult_add[g_zero].b;\n			V_mult_add[i].a = V_mult_add[g_one].b - V_mult_add[i].b;\n\n			addV_array[i].b = addV_array[g_zero].b;\n			addV_array[i].a = addV_array[g_one].b - addV_array[i].b;\n\n			add_mult_sum[i].b = add_mult_sum[g_zero].b;\n			add_mult_sum[i].a = add_mult_sum[g_one].b - add_mult_sum[i].b;\n\n",
 "		bool first = !(current_bit > 0);\n		if(first)\n		{\n			prime_field::field_element vb = V_mult_add[g_zero].b;\n			V_mult_add[i].a = V_mult_add[g_one].b - vb;\n			V_mult_add[i].b = vb;\n\n			addV_array[i].b = addV_array[g_zero].b;\n			addV_array[i].a = addV_array[g_one].b - addV_array[i].b;\n\n			add_mult_sum[i].b = add_mult_sum[g_zero].b;\n			add_mult_sum[i].a = add_mult_sum[g_one].b - add_mult_sum[i].b;\n\n"))
