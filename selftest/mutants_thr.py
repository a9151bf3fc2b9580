"""Parallel prover (P01)."""
Q = "src/linear_gkr/prover_fast_para_track.cpp"
QH = "include/linear_gkr/prover_fast_para_track.h"
PF = "src/linear_gkr/prime_field.cpp"
PO = "src/linear_gkr/polynomial.cpp"
M = MUTANTS = []


def m(name, *prs, ok=False, hdr=(), pf=(), po=()):
    fs = {Q: list(prs)}
    for f, x in ((QH, hdr), (PF, pf), (PO, po)):
        if x:
            fs[f] = list(x)
    M.append((name, "race-para", None if ok else ["P01"], {k: v for k, v in fs.items() if v}))


U1 = "		threads[i] = std::thread(phase1_update_func, this, i, total_uv, current_bit, previous_random);\n"
U2 = "		threads[i] = std::thread(phase2_update_func, this, i, total_uv, current_bit, previous_random);\n"
JOIN = "	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i].join();\n"
SUM = "	for(int i = 0; i < NUM_THREADS; ++i)\n		ret = ret + rets[i];\n"
SWAP = "	std::swap(naddV_array, addV_array);\n	std::swap(nadd_mult_sum, add_mult_sum);\n	std::swap(nV_mult_add, V_mult_add);\n"
I1 = "		threads[i] = std::thread(phase1_init_func, this, i);\n"
I2 = "		threads[i] = std::thread(phase2_init_func, this, i);\n"
B1 = "		threads[i] = std::thread(phase1_beta_func, this, i);\n"
B2 = "		threads[i] = std::thread(phase2_beta_func, this, i);\n"
FOR = "	for(int i = 0; i < NUM_THREADS; ++i)\n"

m("pt-rets0", ("	p -> rets[id].c.value = p -> rets[id].c.value % prime_field::mod;\n}\n\nquadratic_poly prover::sumcheck_phase1_update", "	p -> rets[0].c.value = p -> rets[0].c.value % prime_field::mod;\n}\n\nquadratic_poly prover::sumcheck_phase1_update"))
m("pt-collect-early", (U1 + JOIN + SUM, U1 + SUM + JOIN))
m("pt-swap-early", (U1 + JOIN + SUM + "	\n" + SWAP, U1 + SWAP + JOIN + SUM))
m("pt-join3", (U2 + JOIN, U2 + JOIN.replace("NUM_THREADS", "NUM_THREADS - 1")))
m("pt-collect3", (JOIN + SUM, JOIN + SUM.replace("NUM_THREADS", "NUM_THREADS - 1")))
m("pt-nojoin-beta", (B1 + JOIN + "\n" + FOR, B1 + FOR.replace("int i = 0", "int i = 0")))
m("pt-beta-nojoin2", ("	std::thread threads[NUM_THREADS];\n" + FOR + B2 + JOIN + "\n" + FOR + I2 + "	\n" + JOIN,
  "	std::thread threads[NUM_THREADS], helpers[NUM_THREADS];\n" + FOR + B2.replace("threads[i]", "helpers[i]") + FOR + I2 + "	\n" + JOIN + JOIN.replace("threads[i]", "helpers[i]")))
m("pt-bothinone", (B1 + JOIN + "\n" + FOR + I1, "		threads[i] = std::thread(phase1_init_func, this, i);\n"),
  ("void phase1_init_func(prover* p, int id)\n{\n", "void phase1_init_func(prover* p, int id)\n{\n	phase1_beta_func(p, id);\n"))
m("pt-incl", ("	if(ed > (1 << p -> length_g))\n		ed = (1 << p -> length_g);\n	for(int i = st; i < ed; ++i)\n	{\n		p -> beta_g_sum[i]", "	if(ed > (1 << p -> length_g))\n		ed = (1 << p -> length_g);\n	for(int i = st; i <= ed; ++i)\n	{\n		p -> beta_g_sum[i]"))
m("pt-three", ("#define NUM_THREADS 4", "#define NUM_THREADS 3"))
m("pnt-eight", ("#define NUM_THREADS 4", "#define NUM_THREADS 8"), ok=True)
m("pt-noclamp", ("	if(ed > (1 << p -> length_u))\n		ed = (1 << p -> length_u);\n", ""))
m("pt-inplace", ("			p -> nV_mult_add[i].b = p -> V_mult_add[g_zero].b;\n			p -> nV_mult_add[i].a = p -> V_mult_add[g_one].b - p -> nV_mult_add[i].b;\n", "			p -> V_mult_add[i].b = p -> V_mult_add[g_zero].b;\n			p -> V_mult_add[i].a = p -> V_mult_add[g_one].b - p -> V_mult_add[i].b;\n", 2))
m("pt-scratch", ("		p -> V_mult_add[i] = p -> circuit_value[layer_id - 1][i];\n", "		p -> v_v = p -> circuit_value[layer_id - 1][i];\n		p -> V_mult_add[i] = p -> v_v;\n"))
m("pt-zero-next", ("		p -> V_mult_add[i] = p -> circuit_value[layer_id - 1][i];\n", "		p -> V_mult_add[i] = p -> circuit_value[layer_id - 1][i];\n		if(i + 1 < total_uv)\n			p -> addV_array[i + 1].a = zero;\n"))
m("pt-gates", ("	bs = (total_uv) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	st = id * bs, ed = (id + 1) * bs;\n	for(int i = st; i < ed; ++i)\n	{\n		if(p -> C.circuit[p -> sumcheck_layer_id].u_gates.find(i)",
   "	for(int i = st; i < ed; ++i)\n	{\n		int u = p -> C.circuit[layer_id].gates[i].u, v = p -> C.circuit[layer_id].gates[i].v;\n		if(p -> C.circuit[layer_id].gates[i].ty == 1)\n			p -> add_mult_sum[u].b.value = (p -> add_mult_sum[u].b.value + p -> circuit_value[layer_id - 1][v].value * p -> beta_g_sum[i].value) % prime_field::mod;\n	}\n	for(int i = st; i < ed; ++i)\n	{\n		if(p -> C.circuit[p -> sumcheck_layer_id].u_gates.find(i)"))
m("pt-unguarded", ("		if(p -> C.circuit[p -> sumcheck_layer_id].v_gates.find(i) != p -> C.circuit[p -> sumcheck_layer_id].v_gates.end())\n", ""))
m("pt-lambda-ref", (U1, "		threads[i] = std::thread([&] { phase1_update_func(this, i, total_uv, current_bit, previous_random); });\n"))
m("pnt-lambda", (U1, "		threads[i] = std::thread([this, i, current_bit, previous_random] { phase1_update_func(this, i, total_uv, current_bit, previous_random); });\n"), ok=True)
m("pt-lambda-total", (U1 + JOIN + SUM + "	\n" + SWAP + "	\n	total_uv >>= 1;\n", "		threads[i] = std::thread([this, i, current_bit, previous_random] { phase1_update_func(this, i, total_uv, current_bit, previous_random); });\n	total_uv >>= 1;\n" + JOIN + SUM + SWAP))
m("pnt-vector", ("	std::thread threads[NUM_THREADS];\n" + FOR + U1 + JOIN, "	std::vector<std::thread> threads;\n" + FOR + "		threads.emplace_back(phase1_update_func, this, i, total_uv, current_bit, previous_random);\n	for(auto &t : threads)\n		t.join();\n"), ok=True)
m("pnt-push", ("	std::thread threads[NUM_THREADS];\n" + FOR + U1 + JOIN, "	std::vector<std::thread> threads;\n" + FOR + "		threads.push_back(std::thread(phase1_update_func, this, i, total_uv, current_bit, previous_random));\n	for(std::thread &t : threads)\n		t.join();\n"), ok=True)
m("pnt-helper", ("	std::thread threads[NUM_THREADS];\n\n" + FOR + B1 + JOIN + "\n" + FOR + I1 + JOIN, "	run_workers(phase1_beta_func, this);\n	run_workers(phase1_init_func, this);\n"),
  ("void prover::sumcheck_phase1_init()", "static void run_workers(void (*work)(prover *, int), prover *p)\n{\n	std::thread threads[NUM_THREADS];\n" + FOR + "		threads[i] = std::thread(work, p, i);\n" + JOIN + "}\n\nvoid prover::sumcheck_phase1_init()"), ok=True)
m("pt-helper-bad", ("	std::thread threads[NUM_THREADS];\n\n" + FOR + B1 + JOIN + "\n" + FOR + I1 + JOIN, "	run_workers(phase1_init_func, this);\n"),
  ("void phase1_init_func(prover* p, int id)\n{\n", "void phase1_init_func(prover* p, int id)\n{\n	phase1_beta_func(p, id);\n"),
  ("void prover::sumcheck_phase1_init()", "static void run_workers(void (*work)(prover *, int), prover *p)\n{\n	std::thread threads[NUM_THREADS];\n" + FOR + "		threads[i] = std::thread(work, p, i);\n" + JOIN + "}\n\nvoid prover::sumcheck_phase1_init()"))
m("pnt-stride", ("	int bs = (1 << p -> length_g) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = bs * id, ed = bs * (id + 1);\n	if(ed > (1 << p -> length_g))\n		ed = (1 << p -> length_g);\n	for(int i = st; i < ed; ++i)\n",
  "	for(int i = id; i < (1 << p -> length_g); i += NUM_THREADS)\n"), ok=True)
m("pnt-min", ("	if(ed > (1 << p -> length_u))\n		ed = (1 << p -> length_u);\n", "	ed = std::min(ed, 1 << p -> length_u);\n"), ok=True)
m("pnt-tern", ("	if(ed > (1 << p -> length_u))\n		ed = (1 << p -> length_u);\n", "	ed = ed > (1 << p -> length_u) ? (1 << p -> length_u) : ed;\n"), ok=True)
m("pnt-ceil", ("	int bs = (1 << p -> length_g) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n", "	int bs = ((1 << p -> length_g) + NUM_THREADS - 1) / NUM_THREADS;\n"), ok=True)
m("pnt-even", ("	int bs = (1 << p -> length_g) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = bs * id, ed = bs * (id + 1);\n	if(ed > (1 << p -> length_g))\n		ed = (1 << p -> length_g);\n",
  "	int st = (1 << p -> length_g) * id / NUM_THREADS, ed = (1 << p -> length_g) * (id + 1) / NUM_THREADS;\n"), ok=True)
m("pt-even-bad", ("	int bs = (1 << p -> length_g) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = bs * id, ed = bs * (id + 1);\n	if(ed > (1 << p -> length_g))\n		ed = (1 << p -> length_g);\n",
  "	int st = (1 << p -> length_g) * id / NUM_THREADS, ed = (1 << p -> length_g) * (id + 1) / NUM_THREADS + 1;\n	if(ed > (1 << p -> length_g))\n		ed = (1 << p -> length_g);\n"))
m("pnt-own", (FOR + U1 + JOIN, "	for(int i = 1; i < NUM_THREADS; ++i)\n" + U1 + "	phase1_update_func(this, 0, total_uv, current_bit, previous_random);\n	for(int i = 1; i < NUM_THREADS; ++i)\n		threads[i].join();\n"), ok=True)
m("pt-own-twice", (FOR + U1 + JOIN, "	for(int i = 1; i < NUM_THREADS; ++i)\n" + U1 + "	phase1_update_func(this, 1, total_uv, current_bit, previous_random);\n	for(int i = 1; i < NUM_THREADS; ++i)\n		threads[i].join();\n"))
m("pnt-seq", (FOR + U1 + JOIN, FOR + "	{\n		std::thread t(phase1_update_func, this, i, total_uv, current_bit, previous_random);\n		t.join();\n	}\n"), ok=True)
m("pt-detach", (U2 + JOIN, U2 + JOIN.replace("join", "detach")))
m("pt-nojoin", (FOR + I2 + "	\n" + JOIN, FOR + I2))
m("pnt-member", ("void phase2_beta_func(prover* p, int id)\n{\n", "void prover::phase2_beta(int id)\n{\n	prover *p = this;\n"), (B2, "		threads[i] = std::thread(&prover::phase2_beta, this, i);\n"),
  hdr=[("	void delete_self();", "	void delete_self();\n	void phase2_beta(int id);")], ok=True)
m("pt-static-op", (U1, U1), pf=[("		u512b hi_factor = (u512b)hi * (u512b)my_factor;\n", "		static u512b hi_factor;\n		hi_factor = (u512b)hi * (u512b)my_factor;\n")])
m("pt-static-acc", ("	p -> rets[id].a = prime_field::field_element(0);\n", "	static int last_id;\n	last_id = id;\n	p -> rets[id].a = prime_field::field_element(0);\n"))
m("pnt-static-const", ("	p -> rets[id].a = prime_field::field_element(0);\n", "	static const int zero_value = 0;\n	p -> rets[id].a = prime_field::field_element(zero_value);\n"), ok=True)
m("pnt-local", ("		p -> V_mult_add[i] = p -> circuit_value[layer_id - 1][i];\n", "		prime_field::field_element x = p -> circuit_value[layer_id - 1][i];\n		p -> V_mult_add[i] = x;\n"), ok=True)
m("pnt-acc-local", ("	p -> rets[id].a = prime_field::field_element(0);\n	p -> rets[id].b = prime_field::field_element(0);\n	p -> rets[id].c = prime_field::field_element(0);\n", "	quadratic_poly &mine = p -> rets[id];\n	mine.a = prime_field::field_element(0);\n	mine.b = prime_field::field_element(0);\n	mine.c = prime_field::field_element(0);\n"), ok=True)
m("pnt-lift", ("void phase2_beta_func(prover* p, int id)\n{\n", "static void range_of(int total, int id, int &st, int &ed)\n{\n	int bs = total / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	st = id * bs;\n	ed = st + bs < total ? st + bs : total;\n}\n\nvoid phase2_beta_func(prover* p, int id)\n{\n"),
  ("	bs = (1 << p -> length_u) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	st = id * bs;\n	ed = (id + 1) * bs;\n	if(ed > (1 << p -> length_u))\n		ed = (1 << p -> length_u);\n", "	range_of(1 << p -> length_u, id, st, ed);\n"), ok=True)
# ---- second round, written from the statement alone
Z2 = "		rets[i] = quadratic_poly(prime_field::field_element(0), prime_field::field_element(0), prime_field::field_element(0));\n"
m("pt-zero-late", (FOR + Z2 + FOR + U2, FOR + U2 + FOR + Z2))
m("pt-half", ("	p -> rets[id].a = prime_field::field_element(0);\n	p -> rets[id].b = prime_field::field_element(0);\n	p -> rets[id].c = prime_field::field_element(0);\n	for", "	id = id >> 1;\n	p -> rets[id].a = prime_field::field_element(0);\n	p -> rets[id].b = prime_field::field_element(0);\n	p -> rets[id].c = prime_field::field_element(0);\n	for"))
GF = "		if(p -> C.circuit[p -> sumcheck_layer_id].u_gates.find(i) != p -> C.circuit[p -> sumcheck_layer_id].u_gates.end())\n		{\n			int sz = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i].size();\n			for(int j = 0; j < sz; ++j)\n			{\n				int u = i;\n				int g = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].second.first;\n				int v = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].second.second;\n				int ty = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].first;\n"
m("pt-wrong-list", (GF, GF.replace("u_gates", "v_gates").replace("int u = i;", "int v = i;").replace("int v = p ->", "int u = p ->")))
m("pnt-iter", (GF, "		auto it = p -> C.circuit[p -> sumcheck_layer_id].u_gates.find(i);\n		if(it != p -> C.circuit[p -> sumcheck_layer_id].u_gates.end())\n		{\n			for(auto &e : it -> second)\n			{\n				int u = i;\n				int g = e.second.first;\n				int v = e.second.second;\n				int ty = e.first;\n"), ok=True)
m("pnt-listref", (GF, GF.replace("			int sz = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i].size();\n", "			const auto &list = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i];\n			int sz = list.size();\n").replace("p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j]", "list[j]")), ok=True)
m("pnt-layerref", (GF, "		layer &cur = p -> C.circuit[p -> sumcheck_layer_id];\n" + GF.replace("p -> C.circuit[p -> sumcheck_layer_id].", "cur.")), ok=True)
m("pnt-continue", (GF, GF.replace("		if(p -> C.circuit[p -> sumcheck_layer_id].u_gates.find(i) != p -> C.circuit[p -> sumcheck_layer_id].u_gates.end())\n		{\n", "		if(p -> C.circuit[p -> sumcheck_layer_id].u_gates.find(i) == p -> C.circuit[p -> sumcheck_layer_id].u_gates.end())\n			continue;\n		{\n")), ok=True)
m("pnt-count", (GF, GF.replace(".u_gates.find(i) != p -> C.circuit[p -> sumcheck_layer_id].u_gates.end())", ".u_gates.count(i))")), ok=True)
m("pnt-entry", (GF, GF.replace("				int g = p ->", "				const std::pair<int, std::pair<int, int> > &e = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j];\n				int g = p ->")), ok=True)
m("pt-find-other", (GF, GF.replace(".u_gates.find(i)", ".v_gates.find(i)").replace("u_gates.end()", "v_gates.end()")))
m("pnt-sz0", (GF, GF.replace("			for(int j", "			if(sz == 0)\n				continue;\n			for(int j")), ok=True)
m("pt-next", ("	for(int i = st; i < ed; ++i)\n	{\n		p -> beta_g_sum[i].value", "	static int next = 0;\n	if(id == 0)\n		next = 0;\n	for(int i = st; i < ed; ++i)\n	{\n		++next;\n		p -> beta_g_sum[i].value"))
m("pt-cond-join", (U1 + JOIN, U1 + "	for(int i = 0; i < NUM_THREADS; ++i)\n		if(i < total_uv)\n			threads[i].join();\n"))
m("pnt-joinable", (U1 + JOIN, U1 + "	for(int i = 0; i < NUM_THREADS; ++i)\n		if(threads[i].joinable())\n			threads[i].join();\n"), ok=True)
m("pnt-rangefor", (U1 + JOIN, U1 + "	for(auto &t : threads)\n		t.join();\n"), ok=True)
m("pt-few", (FOR + U1 + JOIN + SUM, "	int used = total_uv >> 1 < NUM_THREADS ? total_uv >> 1 : NUM_THREADS;\n	for(int i = 0; i < used; ++i)\n" + U1 + "	for(int i = 0; i < used; ++i)\n		threads[i].join();\n" + SUM))
m("pnt-few", (FOR + U1 + JOIN + SUM, "	int used = total_uv >> 1 < NUM_THREADS ? total_uv >> 1 : NUM_THREADS;\n	for(int i = 0; i < used; ++i)\n" + U1 + "	for(int i = 0; i < used; ++i)\n		threads[i].join();\n" + SUM.replace("NUM_THREADS", "used")), ok=True)
m("pt-double", ("	int bs = (total_uv >> 1) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = id * bs;\n	int ed = (id + 1) * bs;\n", "	int bs = (total_uv >> 1) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = id * bs;\n	int ed = id == NUM_THREADS - 1 ? total_uv >> 1 : (id + 1) * bs + (bs & 1);\n"))
m("pt-tail", ("	int bs = (total_uv >> 1) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = bs * id;\n", "	int bs = (total_uv >> 1) / NUM_THREADS;\n	int st = bs * id;\n"))
m("pnt-fields", ("	int bs = (total_uv >> 1) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = bs * id;\n	int ed = bs * (id + 1);\n	if(ed > (total_uv >> 1))\n		ed = (total_uv >> 1);\n", "	const int half = total_uv / 2;\n	const int bs = std::max(1, half / NUM_THREADS);\n	const int st = bs * id;\n	const int ed = std::min(half, bs * (id + 1));\n"), ok=True)
m("pt-total", ("	std::swap(naddV_array, addV_array);\n	std::swap(nadd_mult_sum, add_mult_sum);\n	std::swap(nV_mult_add, V_mult_add);\n	\n	total_uv >>= 1;\n//	fprintf(stderr, \"sumcheck level %d, phase1 update finished", "	total_uv >>= 1;\n//	fprintf(stderr, \"sumcheck level %d, phase1 update finished"), (U1, U1 + "	total_uv += 0;\n	std::swap(naddV_array, addV_array);\n	std::swap(nadd_mult_sum, add_mult_sum);\n	std::swap(nV_mult_add, V_mult_add);\n"))
