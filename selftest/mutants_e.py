LP, TP, BP = "src/linear_gkr/prover_fast_track.cpp", "src/traditional_gkr/prover_clogc.cpp", "src/traditional_gkr/prover_bc_clogc.cpp"
E = ["E01"]
M = MUTANTS = []


def m(name, prog, exp, f, *prs):
    M.append((name, prog, exp, {f: list(prs)}))


LOOP = "	for(int i = 1; i < C.total_depth; ++i)\n	{\n		circuit_value[i] = new prime_field::field_element[(1 << C.circuit[i].bit_length)];\n		for(int j = 0;"
m("e-xor1", "eval-linear", E, LP, ("x + y - prime_field::field_element(2) * x * y", "x + y - x * y"))
m("e-minus", "eval-linear", E, LP, ("circuit_value[i][g] = circuit_value[i - 1][u] - circuit_value[i - 1][v];", "circuit_value[i][g] = circuit_value[i - 1][v] - circuit_value[i - 1][u];"))
m("e-naab", "eval-linear", E, LP, ("circuit_value[i][g] = y - x * y;", "circuit_value[i][g] = x - x * y;"))
m("e-sumlast", "eval-linear", E, LP, ("for(int k = u; k < v; ++k)\n					circuit_value[i][g]", "for(int k = u; k <= v; ++k)\n					circuit_value[i][g]"))
m("e-sumfirst", "eval-linear", E, LP, ("for(int k = u; k < v; ++k)\n					circuit_value[i][g]", "for(int k = u + 1; k < v; ++k)\n					circuit_value[i][g]"))
m("e-ret", "eval-linear", E, LP, ("return circuit_value[C.total_depth - 1];", "return circuit_value[C.total_depth - 2];"))
m("e-short", "eval-linear", E, LP, (LOOP, LOOP.replace("i < C.total_depth;", "i < C.total_depth - 1;")))
m("e-half", "eval-linear", E, LP, ("		for(int j = 0; j < (1 << C.circuit[i].bit_length); ++j)\n		{\n			int g, u, v, ty;", "		for(int j = 0; j < (1 << C.circuit[i].bit_length) - 1; ++j)\n		{\n			int g, u, v, ty;"))
m("e-relay", "eval-linear", E, LP, ("else if(ty == 10)\n			{\n				circuit_value[i][g] = circuit_value[i - 1][u];", "else if(ty == 10)\n			{\n				circuit_value[i][g] = circuit_value[i - 1][g];"))
m("e-row", "eval-linear", E, LP, ("else if(ty == 10)\n			{\n				circuit_value[i][g] = circuit_value[i - 1][u];", "else if(ty == 10)\n			{\n				circuit_value[i][g] = circuit_value[0][u];"))
m("e-inp", "eval-linear", E, LP, ("prime_field::field_element(ty == 2 ? 0 : u)", "prime_field::field_element(ty == 2 ? 0 : v)"))
m("e-prevprev", "eval-linear", E, LP, ("= prime_field::field_element(1) - circuit_value[i - 1][u];", "= prime_field::field_element(1) - circuit_value[i > 1 ? i - 2 : 0][u];"))
m("e-special", "eval-linear", E, LP, ("				circuit_value[i][g] = circuit_value[i - 1][u] * circuit_value[i - 1][v];", "				circuit_value[i][g] = u == v ? circuit_value[i - 1][u] : circuit_value[i - 1][u] * circuit_value[i - 1][v];"))
m("e-bmul", "eval-bc_clogc", E, BP, ("circuit_value[blk][i][g] = circuit_value[blk][i - 1][u] * circuit_value[blk][i - 1][v];", "circuit_value[blk][i][g] = circuit_value[blk][i - 1][u] * circuit_value[0][i - 1][v];"))
m("e-bres", "eval-bc_clogc", E, BP, ("result[i * bs + j] = circuit_value[i][", "result[i * bs + j] = circuit_value[0]["))
m("e-bres2", "eval-bc_clogc", E, BP, ("result[i * bs + j] = circuit_value[i][C.blocks[0].total_depth - 1][j]", "result[j * C.total_blocks + i] = circuit_value[i][C.blocks[0].total_depth - 1][j]"))
m("e-bblk", "eval-bc_clogc", E, BP, ("				u = C.blocks[blk].circuit[i].gates[g].u;", "				u = C.blocks[blk].circuit[i].gates[g].v;"))
m("e-tdum", "eval-bclogc", E, TP, ("circuit_value[i - 1][u] + circuit_value[i - 1][v]", "circuit_value[i - 1][u] + circuit_value[i - 1][u]"))
# behaviour-preserving
m("e0-prev", "eval-linear", None, LP,
  (LOOP, "	prime_field::field_element *below = circuit_value[0];\n" + LOOP),
  ("circuit_value[i - 1]", "below", 0),
  ("				assert(false);\n			}\n		}\n	}\n\n	std::chrono", "				assert(false);\n			}\n		}\n		below = circuit_value[i];\n	}\n\n	std::chrono"))
m("e0-alloc", "eval-linear", None, LP,
  (LOOP, "	for(int i = 1; i < C.total_depth; ++i)\n		circuit_value[i] = new prime_field::field_element[(1 << C.circuit[i].bit_length)];\n	for(int i = 1; i < C.total_depth; ++i)\n	{\n		for(int j = 0;"))
m("e0-refs", "eval-linear", None, LP,
  ("				circuit_value[i][g] = circuit_value[i - 1][u] * circuit_value[i - 1][v];", "				const auto &lhs = circuit_value[i - 1][u];\n				const auto &rhs = circuit_value[i - 1][v];\n				circuit_value[i][g] = rhs * lhs;"))
m("e0-sumacc", "eval-linear", None, LP,
  ("				circuit_value[i][g] = prime_field::field_element(0);\n				for(int k = u; k < v; ++k)\n					circuit_value[i][g] = circuit_value[i][g] + circuit_value[i - 1][k];",
   "				prime_field::field_element total(0);\n				for(int k = u; k < v; ++k)\n					total = total + circuit_value[i - 1][k];\n				circuit_value[i][g] = total;"))
m("e0-rowvar", "eval-linear", None, LP,
  (LOOP, LOOP.replace("		circuit_value[i] = new", "		prime_field::field_element *row = new").replace("bit_length)];\n", "bit_length)];\n		circuit_value[i] = row;\n		const layer &L = C.circuit[i];\n")),
  ("				circuit_value[i][g] = circuit_value[i - 1][u] + circuit_value[i - 1][v];", "				row[g] = circuit_value[i - 1][u] + circuit_value[i - 1][v];"),
  ("			ty = C.circuit[i].gates[g].ty;", "			ty = L.gates[g].ty;"))
m("e0-rowlate", "eval-linear", None, LP,
  (LOOP, LOOP.replace("		circuit_value[i] = new", "		prime_field::field_element *row = new")),
  ("circuit_value[i][g]", "row[g]", 0),
  ("				assert(false);\n			}\n		}\n	}\n\n	std::chrono", "				assert(false);\n			}\n		}\n		circuit_value[i] = row;\n	}\n\n	std::chrono"))
m("e0-bresult", "eval-bc_clogc", None, BP,
  ("	for(int i = 0; i < C.total_blocks; ++i)\n		for(int j = 0; j < bs; ++j)\n			result[i * bs + j] = circuit_value[i][C.blocks[0].total_depth - 1][j];",
   "	int pos = 0;\n	for(int i = 0; i < C.total_blocks; ++i)\n	{\n		prime_field::field_element *top = circuit_value[i][C.blocks[0].total_depth - 1];\n		for(int j = 0; j < bs; ++j)\n			result[pos++] = top[j];\n	}"))
m("e0-bshift", "eval-bc_clogc", None, BP,
  ("			result[i * bs + j] = circuit_value[i][C.blocks[0].total_depth - 1][j];", "			result[(i << C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length) + j] = circuit_value[i][C.blocks[0].total_depth - 1][j];"))
m("e0-balloc", "eval-bc_clogc", None, BP,
  ("	for(int i = 0; i < C.total_blocks; ++i)\n		circuit_value[i] = new prime_field::field_element*[C.blocks[0].total_depth];\n", ""),
  ("		circuit_value[blk][0] = new", "		circuit_value[blk] = new prime_field::field_element*[C.blocks[0].total_depth];\n		circuit_value[blk][0] = new"))
m("e0-bmemcpy", "eval-bc_clogc", None, BP,
  ("		for(int j = 0; j < bs; ++j)\n			result[i * bs + j] = circuit_value[i][C.blocks[0].total_depth - 1][j];", "		memcpy(result + i * bs, circuit_value[i][C.blocks[0].total_depth - 1], sizeof(prime_field::field_element) * bs);"))
m("e0-while", "eval-bclogc", None, TP,
  ("	for(int i = 1; i < C.total_depth; ++i)\n	{\n		circuit_value[i] =", "	int i = 0;\n	while(++i < C.total_depth)\n	{\n		circuit_value[i] ="))
