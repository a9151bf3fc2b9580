"""Parallel prover: what it sends (H01)."""
Q = "src/linear_gkr/prover_fast_para_track.cpp"
M = MUTANTS = []


def m(name, *prs, ok=False, prog="prove-para", expect="H01", files=None):
    M.append((name, prog, None if ok else [expect], files or {Q: list(prs)}))


B1S = "		p -> beta_g_sum[i].value = (p -> beta_g_r0_fhalf[i & mask_fhalf].value * p -> beta_g_r0_shalf[i >> first_half].value \n							 + p -> beta_g_r1_fhalf[i & mask_fhalf].value * p -> beta_g_r1_shalf[i >> first_half].value) % prime_field::mod;\n"
ADD1 = "					p -> addV_array[u].b.value = (p -> addV_array[u].b.value + p -> circuit_value[p -> sumcheck_layer_id - 1][v].value * p -> beta_g_sum[g].value) % prime_field::mod;\n					p -> add_mult_sum[u].b.value = (p -> add_mult_sum[u].b.value + p -> beta_g_sum[g].value) % prime_field::mod;\n"
MUL1 = "				if(ty == 1)\n				{\n					p -> add_mult_sum[u].b.value = (p -> add_mult_sum[u].b.value + p -> circuit_value[p -> sumcheck_layer_id - 1][v].value * p -> beta_g_sum[g].value) % prime_field::mod;\n				}\n"
LOOP1 = "	for(int i = st; i < ed; ++i)\n	{\n		if(p -> C.circuit[p -> sumcheck_layer_id].u_gates.find(i)"
U = "int u = p -> C.circuit[p -> sumcheck_layer_id].v_gates[i][j].second.second;"
ADD2 = "					p -> addV_array[v].b.value = ((p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod) * p -> v_u.value + p -> addV_array[v].b.value);\n"
RC1 = "		p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value\n								  + p -> naddV_array[i].b.value) % prime_field::mod;\n"

m("pp-halves", ("p -> beta_g_r1_fhalf[i & mask_fhalf].value * p -> beta_g_r1_shalf[i >> first_half].value", "p -> beta_g_r1_fhalf[i & mask_fhalf].value * p -> beta_g_r0_shalf[i >> first_half].value"))
m("pp-mask", ("int first_half = p -> length_g >> 1;\n	int mask_fhalf = (1 << first_half) - 1;", "int first_half = p -> length_g >> 1;\n	int mask_fhalf = (1 << (p -> length_g - first_half)) - 1;"))
m("pp-add-gate", (ADD1, ADD1.replace("(p -> addV_array[u].b.value + ", "(")))
m("pp-add-only-one", (ADD1, ADD1.split("\n")[0] + "\n"))
m("pp-mul-else", ("				if(ty == 1)\n				{\n					p -> add_mult_sum[u]", "				else if(ty == 1 && u != v)\n				{\n					p -> add_mult_sum[u]"))
m("ppn-mul-else", ("				if(ty == 1)\n				{\n					p -> add_mult_sum[u]", "				else if(ty == 1)\n				{\n					p -> add_mult_sum[u]"), ok=True)
m("pp-last-entry", ("			int sz = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i].size();", "			int sz = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i].size() - 1;"))
m("pp-first-entry", ("			int sz = p -> C.circuit[p -> sumcheck_layer_id].v_gates[i].size();", "			int sz = 1;"))
m("pp-thirty", ("			int sz = p -> C.circuit[p -> sumcheck_layer_id].v_gates[i].size();", "			int sz = p -> C.circuit[p -> sumcheck_layer_id].v_gates[i].size();\n			if(sz > 30)\n				sz = 30;"))
m("pp-swap-uv", ("				int g = p -> C.circuit[p -> sumcheck_layer_id].v_gates[i][j].second.first;\n				int u = p -> C.circuit[p -> sumcheck_layer_id].v_gates[i][j].second.second;", "				int u = p -> C.circuit[p -> sumcheck_layer_id].v_gates[i][j].second.first;\n				int g = p -> C.circuit[p -> sumcheck_layer_id].v_gates[i][j].second.second;"))
m("pp-add2-nobeta", (ADD2, ADD2.replace(" * p -> beta_u[u].value", "")))
m("pp-add2-twice", (ADD2, ADD2 + "					if(u == v)\n						p -> addV_array[v].b.value = p -> addV_array[v].b.value + p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod * p -> v_u.value;\n"))
m("pp-zero-missing", ("		p -> addV_array[i].b = zero;\n		p -> add_mult_sum[i].a = zero;\n		p -> add_mult_sum[i].b = zero;\n	}\n	\n\n", "		if(i)\n			p -> addV_array[i].b = zero;\n		p -> add_mult_sum[i].a = zero;\n		p -> add_mult_sum[i].b = zero;\n	}\n	\n\n"))
m("pp-layer", ("		p -> V_mult_add[i] = p -> circuit_value[layer_id - 1][i];", "		p -> V_mult_add[i] = p -> circuit_value[layer_id - 1][i & ~(p -> length_u > 5)];"))
m("pp-round-later", ("			p -> naddV_array[i].b.value = (p -> addV_array[g_zero].a.value * previous_random.value + p -> addV_array[g_zero].b.value) % prime_field::mod;\n			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value + prime_field::mod) % prime_field::mod;\n\n			p -> nadd_mult_sum[i].b.value = (p -> add_mult_sum[g_zero].a.value * previous_random.value + p -> add_mult_sum[g_zero].b.value) % prime_field::mod;\n			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;\n\n		}\n",
  "			p -> naddV_array[i].b.value = p -> addV_array[g_zero].b.value;\n			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value + prime_field::mod) % prime_field::mod;\n\n			p -> nadd_mult_sum[i].b.value = (p -> add_mult_sum[g_zero].a.value * previous_random.value + p -> add_mult_sum[g_zero].b.value) % prime_field::mod;\n			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;\n\n		}\n"))
m("pp-ret-c", ("	p -> rets[id].c = prime_field::field_element(0);\n	for", "	for"))
m("pp-total", ("	total_uv >>= 1;\n//	fprintf(stderr, \"sumcheck level %d, phase2", "	total_uv = total_uv > 4 ? total_uv >> 1 : 2;\n//	fprintf(stderr, \"sumcheck level %d, phase2"))
m("pp-noswap", ("	std::swap(naddV_array, addV_array);\n	std::swap(nadd_mult_sum, add_mult_sum);\n	std::swap(nV_mult_add, V_mult_add);\n	\n	total_uv >>= 1;\n//	fprintf(stderr, \"sumcheck level %d, phase2", "	std::swap(nadd_mult_sum, add_mult_sum);\n	std::swap(nV_mult_add, V_mult_add);\n	if(total_uv > 2)\n		std::swap(naddV_array, addV_array);\n	\n	total_uv >>= 1;\n//	fprintf(stderr, \"sumcheck level %d, phase2"))
m("pp-final", ("	v_v = V_mult_add[0].eval(previous_random);", "	v_v = V_mult_add[0].b;"))
m("pp-vu", ("	v_u = V_mult_add[0].eval(previous_random);", "	v_u = nV_mult_add[0].eval(previous_random);"))
m("pp-alpha", ("	beta_g_r0_fhalf[0] = alpha;", "	beta_g_r0_fhalf[0] = sumcheck_layer_id == 1 ? prime_field::field_element(1) : alpha;"))
m("pp-half2", ("beta_u_shalf[j | (1 << i)].value = beta_u_shalf[j].value * r_u[i + first_half].value", "beta_u_shalf[j | (1 << i)].value = beta_u_shalf[j].value * r_u[i + second_half].value"))
m("ppn-rename", ("void phase2_init_func(prover* p, int id)", "void phase2_init_func(prover* p, int worker)\n{\n	const int id = worker;"), ("{\n	int bs, st, ed;\n	\n	int total_uv", "	int bs, st, ed;\n	\n	int total_uv"), ok=True)
m("ppn-swapped-eq", ("if(ty == 1)\n				{\n					p -> add_mult_sum[u]", "if(1 == ty)\n				{\n					p -> add_mult_sum[u]"), ok=True)
m("ppn-ref", ("				int g = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].second.first;\n				int v = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].second.second;\n				int ty = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].first;",
  "				const auto &e = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j];\n				int g = e.second.first;\n				int v = e.second.second;\n				int ty = e.first;"), ok=True)
m("ppn-rangefor", ("			for(int j = 0; j < sz; ++j)\n			{\n				int u = i;\n				int g = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].second.first;\n				int v = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].second.second;\n				int ty = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].first;",
  "			for(const auto &e : p -> C.circuit[p -> sumcheck_layer_id].u_gates[i])\n			{\n				int u = i;\n				int g = e.second.first;\n				int v = e.second.second;\n				int ty = e.first;"), ok=True)
m("ppn-local-acc", ("	p -> rets[id].a = prime_field::field_element(0);\n	p -> rets[id].b = prime_field::field_element(0);\n	p -> rets[id].c = prime_field::field_element(0);\n	for", "	quadratic_poly &mine = p -> rets[id];\n	mine.a = mine.b = mine.c = prime_field::field_element(0);\n	for"), (RC1 + "	}\n\n	p -> rets[id].a.value = p -> rets[id].a.value", RC1.replace("p -> rets[id]", "mine") + "	}\n\n	p -> rets[id].a.value = p -> rets[id].a.value"), ok=True)
m("ppn-helper", ("void phase1_beta_func(", "static void slice(int total, int id, int &st, int &ed)\n{\n	int bs = total / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	st = bs * id;\n	ed = bs * (id + 1);\n	if(ed > total)\n		ed = total;\n}\n\nvoid phase1_beta_func("),
  ("	int bs = (1 << p -> length_g) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = bs * id, ed = bs * (id + 1);\n	if(ed > (1 << p -> length_g))\n		ed = (1 << p -> length_g);\n", "	int st, ed;\n	slice(1 << p -> length_g, id, st, ed);\n"), ok=True)
m("ppn-continue", ("		if(p -> C.circuit[p -> sumcheck_layer_id].v_gates.find(i) != p -> C.circuit[p -> sumcheck_layer_id].v_gates.end())\n		{", "		if(p -> C.circuit[p -> sumcheck_layer_id].v_gates.find(i) == p -> C.circuit[p -> sumcheck_layer_id].v_gates.end())\n			continue;\n		{"), ok=True)
m("ppn-break", (LOOP1, "	for(int i = st; i < ed; ++i)\n	{\n		if(i >= total_uv)\n			break;\n		if(p -> C.circuit[p -> sumcheck_layer_id].u_gates.find(i)"), ok=True)
m("ppn-clip", ("	st = id * bs, ed = (id + 1) * bs;\n	for(int i = st; i < ed; ++i)\n	{\n		if(p -> C", "	st = id * bs, ed = std::min((id + 1) * bs, total_uv);\n	for(int i = st; i < ed; ++i)\n	{\n		if(p -> C"), ok=True)
m("ppn-while", ("	for(int i = st; i < ed; ++i)\n	{\n		p -> beta_u[i].value = p -> beta_u_fhalf[i & mask_fhalf].value * p -> beta_u_shalf[i >> first_half].value % prime_field::mod;\n	}", "	int i = st;\n	while(i < ed)\n	{\n		p -> beta_u[i].value = p -> beta_u_fhalf[i & mask_fhalf].value * p -> beta_u_shalf[i >> first_half].value % prime_field::mod;\n		++i;\n	}"), ok=True)
m("ppn-down", ("	for(int i = st; i < ed; ++i)\n	{\n		p -> beta_u[i].value = ", "	for(int i = ed - 1; i >= st; --i)\n	{\n		p -> beta_u[i].value = "), ok=True)
m("ppn-vector", ("	std::thread threads[NUM_THREADS];\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i] = std::thread(phase1_update_func, this, i, total_uv, current_bit, previous_random);\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i].join();\n",
  "	std::vector<std::thread> threads;\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads.emplace_back(phase1_update_func, this, i, total_uv, current_bit, previous_random);\n	for(auto &t : threads)\n		t.join();\n"), ok=True)
m("ppn-lambda", ("		threads[i] = std::thread(phase2_init_func, this, i);", "		threads[i] = std::thread([this, i]() { phase2_init_func(this, i); });"), ok=True)
# the loaders and tables of the parallel program
CF = "src/linear_gkr/verifier_fast_para_track.cpp"
PS1 = "			C.circuit[i].u_gates[u].push_back(std::make_pair(ty, std::make_pair(g, v)));\n"
PS2 = "			C.circuit[i].v_gates[v].push_back(std::make_pair(ty, std::make_pair(g, u)));\n"


def l(name, *prs, ok=False, prog="load-para", expect="M01"):
    m(name, ok=ok, prog=prog, expect=expect, files={CF: list(prs)})


l("lp-swapped", (PS2, PS2.replace("(g, u)", "(g, v)")))
l("lp-same-list", (PS2, PS2.replace("[v].push", "[u].push")))
l("lp-distinct", (PS2, "			if(u != v)\n	" + PS2))
l("lp-twice", (PS1, PS1 + PS1))
l("lp-missing", (PS2, ""))
l("lp-pad-type", ("			C.circuit[i].u_gates[0].push_back(std::make_pair(2,", "			C.circuit[i].u_gates[0].push_back(std::make_pair(1,"))
l("lpn-order", (PS1 + PS2, PS2 + PS1), ok=True)
l("lpn-emplace", (PS1, PS1.replace("push_back(std::make_pair(ty, std::make_pair(g, v)))", "emplace_back(ty, std::make_pair(g, v))")), ok=True)
l("lpn-entry", (PS1 + PS2, "			auto left = std::make_pair(ty, std::make_pair(g, v));\n			C.circuit[i].u_gates[u].push_back(left);\n" + PS2), ok=True)
l("lpn-ref", (PS1, "			auto &bucket = C.circuit[i].u_gates[u];\n			bucket.push_back(std::make_pair(ty, std::make_pair(g, v)));\n"), ok=True)
l("lp-g", (PS1, PS1.replace("(g, v)", "(i, v)")))


def mm(name, *prs, ok=False, f=Q):
    m(name, ok=ok, prog="mem-para", expect="M02", files={f: list(prs)})


mm("mp-half", ("	beta_u_fhalf = new prime_field::field_element[(1 << half_length)];", "	beta_u_fhalf = new prime_field::field_element[(1 << (half_length - 2))];"))
mm("mpn-half-ok", ("	beta_u_fhalf = new prime_field::field_element[(1 << half_length)];", "	beta_u_fhalf = new prime_field::field_element[(1 << (half_length - 1))];"), ok=True)
mm("mp-next", ("	nV_mult_add = new linear_poly[(1 << (max_bit_length))];", "	nV_mult_add = new linear_poly[(1 << (max_bit_length - 2))];"))
mm("mpn-next", ("	nV_mult_add = new linear_poly[(1 << (max_bit_length))];", "	nV_mult_add = new linear_poly[(1 << max_bit_length) >> 1];"), ok=True)
mm("mp-noclamp", ("	if(ed > (1 << p -> length_u))\n		ed = (1 << p -> length_u);\n", ""))
l("lpn-only-real", (PS1, "			if(ty != 2)\n	" + PS1), ok=True)
l("lpn-branches", (PS1, "			if(ty == 1)\n				C.circuit[i].u_gates[u].push_back(std::make_pair(1, std::make_pair(g, v)));\n			else\n	" + PS1), ok=True)
l("lp-branches", (PS1, "			if(ty == 1)\n				C.circuit[i].u_gates[u].push_back(std::make_pair(0, std::make_pair(g, v)));\n			else\n	" + PS1))
l("lp-skip-first", (PS1, "			if(ty != 2 && (g || i != 1))\n	" + PS1))
l("lpn-flag", (PS1 + PS2, "			bool real = ty == 0 || ty == 1;\n			if(!real)\n				continue;\n" + PS1 + PS2), ok=True)
