"""Loader mutants (M01)."""
L = "src/linear_gkr/verifier_fast_track.cpp"
B = "src/traditional_gkr/verifier_traditional.cpp"
C = "src/traditional_gkr/verifier_bc_clogc.cpp"
PL = "src/linear_gkr/prover_fast_track.cpp"
PC = "src/traditional_gkr/prover_bc_clogc.cpp"
H = "include/linear_gkr/circuit_fast_track.h"
HB = "include/traditional_gkr/circuit_bc_clogc.h"
M = MUTANTS = []
PR = {L: "load-linear", B: "load-bclogc", C: "load-bc_clogc", PL: "load-linear", PC: "load-bc_clogc", H: "load-linear", HB: "load-bc_clogc"}


def m(name, file, *prs, ok=False):
    M.append((name, PR[file], None if ok else ["M01"], {file: list(prs)}))


SCL = '			fscanf(circuit_in, "%d%d%lld%lld", &ty, &g, &u, &v);\n'
SCB = '			fscanf(file, "%d%d%d%d", &ty, &g, &u, &v);\n'
SCC = '			fscanf(input_file, "%d%d%d%d", &ty, &g, &u, &v);\n'
WB = "			C.circuit[i].gates[g] = gate(ty, u, v);\n		}\n		max_gate = previous_g;\n		int cnt = 0;\n		while(max_gate)"
GB = "			previous_g = g;\n			C.circuit[i].gates[g] = gate(ty, u, v);\n"
GL = "			if(i != 1)\n				C.circuit[i].gates[g] = gate(ty, u, v);\n			else\n			{\n				assert(ty == 2 || ty == 3);\n				C.circuit[1].gates[g] = gate(4, g, 0);\n				C.circuit[0].gates[g] = gate(ty, u, v);\n			}\n"
NOT = '			if(ty == 6)\n			{\n				if(v != 0)\n					fprintf(stderr, "WARNING, v!=0 for NOT gate.\\n");\n				v = 0;\n			}\n'
BC = "				C.blocks[blk_id].circuit[i].gates[g] = gate(ty, u, v);\n"
# ---- linear
m("l-sort-wires", L, (NOT, NOT + "			if((ty == 0 || ty == 1 || ty == 7) && u > v) std::swap(u, v);\n"))
m("l-not-keeps", L, ("				v = 0;\n			}\n			if(g", "			}\n			if(g"))
m("l-naab-clear", L, ("			if(ty == 6)\n", "			if(ty == 6 || ty == 9)\n"))
m("l-xor-self", L, (GL, "			if(ty == 8 && u == v)\n				ty = 2;\n" + GL), ok=False)
m("l-ident-swap", L, ("C.circuit[1].gates[g] = gate(4, g, 0);", "C.circuit[1].gates[g] = gate(4, g ^ 1, 0);"))
m("l-ident-add", L, ("C.circuit[1].gates[g] = gate(4, g, 0);", "C.circuit[1].gates[g] = gate(0, g, 0);"))
m("l-input-dummy", L, ("				C.circuit[0].gates[g] = gate(ty, u, v);\n", "				C.circuit[0].gates[g] = gate(ty, ty == 2 ? 0 : u, v);\n"))
m("l-input-mask", L, ("				C.circuit[0].gates[g] = gate(ty, u, v);\n", "				C.circuit[0].gates[g] = gate(ty, u & 0xffff, v);\n"))
m("l-pad-type", L, ("				C.circuit[i].gates[max_gate] = gate(2, 0, 0);\n				C.circuit[i].bit_length = cnt;\n", "				C.circuit[i].gates[max_gate] = C.circuit[i].gates[0];\n				C.circuit[i].bit_length = cnt;\n"))
m("l-pad-input", L, ("				C.circuit[0].gates[max_gate] = gate(2, 0, 0);\n", "				C.circuit[0].gates[max_gate] = gate(3, 1, 0);\n"))
m("l-bits", L, ("			C.circuit[i].bit_length = cnt - 1;\n			if(i == 1)", "			C.circuit[i].bit_length = cnt;\n			if(i == 1)"))
m("l-depth", L, ("	C.total_depth = d + 1;", "	C.total_depth = d;"))
m("l-last-layer", L, ("	for(int i = 1; i <= d; ++i)\n	{\n		fscanf", "	for(int i = 1; i < d; ++i)\n	{\n		fscanf"))
m("l-gate-cap", L, ("		for(int j = 0; j < n; ++j)\n		{\n			int ty, g;\n", "		for(int j = 0; j < n && j < 65536; ++j)\n		{\n			int ty, g;\n"))
m("l-hdr-ctor", H, ("		ty = t, u = U, v = V;", "		ty = t, u = U, v = (t == 10) ? U : V;"))
m("l-getcirc", PL, ("	C = from_verifier;", "	C.circuit = from_verifier.circuit;"))
m("l-floor", L, ("		max_gate = previous_g;\n		int cnt = 0;\n		while(max_gate)", "		max_gate = previous_g >> 1;\n		int cnt = 1;\n		while(max_gate)", 0), ok=False)
m("l-floor2", L, ("			C.circuit[i].bit_length = cnt - 1;\n			if(i == 1)\n				C.circuit[0].bit_length = cnt - 1;", "			cnt = 0;\n			while(n > 1)\n			{\n				cnt++;\n				n >>= 1;\n			}\n			C.circuit[i].bit_length = cnt;\n			if(i == 1)\n				C.circuit[0].bit_length = cnt;"))
m("ln-reads", L, (SCL, '			fscanf(circuit_in, "%d", &ty);\n			fscanf(circuit_in, "%d", &g);\n			fscanf(circuit_in, "%lld %lld", &u, &v);\n'), ok=True)
m("ln-tern", L, (NOT, "			v = (ty == 6) ? 0 : v;\n"), ok=True)
m("ln-else", L, (GL, "			int row = i;\n			if(i == 1)\n			{\n				assert(ty == 2 || ty == 3);\n				C.circuit[1].gates[g] = gate(4, g, 0);\n				row = 0;\n			}\n			C.circuit[row].gates[g] = gate(ty, u, v);\n"), ok=True)
m("ln-fields", L, ("				C.circuit[1].gates[g] = gate(4, g, 0);\n", "				gate &relay = C.circuit[1].gates[g];\n				relay.ty = 4;\n				relay.u = g;\n				relay.v = 0;\n"), ok=True)
m("ln-log", L, ("		int cnt = 0;\n		while(max_gate)\n		{\n			cnt++;\n			max_gate >>= 1;\n		}\n		max_gate = 1;\n		while(cnt)\n		{\n			max_gate <<= 1;\n			cnt--;\n		}\n		int mx_gate = max_gate;\n		while(mx_gate)\n		{\n			cnt++;\n			mx_gate >>= 1;\n		}\n		if(n == 1)\n		{\n			//add a dummy gate to avoid ill-defined layer.\n			if(i", "		int cnt = 1;\n		while((1 << (cnt - 1)) < n)\n			cnt++;\n		max_gate = 1 << (cnt - 1);\n		if(n == 1)\n		{\n			//add a dummy gate to avoid ill-defined layer.\n			if(i"), ok=True)
m("ln-log2", L, ("		int cnt = 0;\n		while(max_gate)\n		{\n			cnt++;\n			max_gate >>= 1;\n		}\n		max_gate = 1;\n		while(cnt)\n		{\n			max_gate <<= 1;\n			cnt--;\n		}\n		int mx_gate = max_gate;\n		while(mx_gate)\n		{\n			cnt++;\n			mx_gate >>= 1;\n		}\n		if(n == 1)\n		{\n			//add a dummy gate to avoid ill-defined layer.\n			if(i", "		int cnt = 1;\n		for(max_gate = 1; max_gate < n; max_gate <<= 1)\n			++cnt;\n		if(n == 1)\n		{\n			//add a dummy gate to avoid ill-defined layer.\n			if(i"), ok=True)
m("ln-shift0", L, ("	for(int i = 1; i <= d; ++i)\n	{\n		fscanf", "	for(int k = 0; k < d; ++k)\n	{\n		const int i = k + 1;\n		fscanf"), ok=True)
m("ln-while", L, ("		for(int j = 0; j < n; ++j)\n		{\n			int ty, g;\n", "		int left = n;\n		while(left-- > 0)\n		{\n			int ty, g;\n"), ok=True)
m("ln-helper", L, ("void verifier::read_circuit(const char *path)\n", "static gate make_gate(int ty, long long u, long long v)\n{\n	gate ret(ty, (int)u, (int)v);\n	return ret;\n}\n\nvoid verifier::read_circuit(const char *path)\n"), ("				C.circuit[i].gates[g] = gate(ty, u, v);\n			else", "				C.circuit[i].gates[g] = make_gate(ty, u, v);\n			else"), ok=True)
m("ln-helper2", L, ("void verifier::read_circuit(const char *path)\n", "static int bits_of(int x)\n{\n	int ret = 0;\n	while(x)\n	{\n		ret++;\n		x >>= 1;\n	}\n	return ret;\n}\n\nvoid verifier::read_circuit(const char *path)\n"), ("		int cnt = 0;\n		while(max_gate)\n		{\n			cnt++;\n			max_gate >>= 1;\n		}\n		max_gate = 1;\n		while(cnt)\n		{\n			max_gate <<= 1;\n			cnt--;\n		}\n		int mx_gate = max_gate;\n		while(mx_gate)\n		{\n			cnt++;\n			mx_gate >>= 1;\n		}\n		if(n == 1)\n		{\n			//add a dummy gate to avoid ill-defined layer.\n			if(i", "		max_gate = 1 << bits_of(max_gate);\n		int cnt = bits_of(max_gate);\n		if(n == 1)\n		{\n			//add a dummy gate to avoid ill-defined layer.\n			if(i"), ok=True)
m("ln-alloc", L, ("				C.circuit[0].gates = new gate[2];\n				C.circuit[1].gates = new gate[2];\n			}\n			else\n			{\n				C.circuit[0].gates = new gate[n];\n				C.circuit[1].gates = new gate[n];\n", "				C.circuit[0].gates = new gate[2];\n				C.circuit[1].gates = new gate[2];\n			}\n			else\n			{\n				for(int k = 0; k < 2; ++k)\n					C.circuit[k].gates = new gate[n];\n"), ok=True)
m("ln-ref", L, ("			if(i != 1)\n				C.circuit[i].gates[g] = gate(ty, u, v);\n", "			layer &cur = C.circuit[i];\n			if(i != 1)\n				cur.gates[g] = gate(ty, u, v);\n"), ok=True)
m("ln-err", L, ('				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");\n			}\n			previous_g = g;\n			if(i != 1)', '				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");\n				exit(1);\n			}\n			previous_g = g;\n			if(i != 1)'), ("#include <utility>\n", "#include <utility>\n#include <cstdlib>\n"), ok=True)
m("ln-check", L, (SCL, '			if(fscanf(circuit_in, "%d%d%lld%lld", &ty, &g, &u, &v) != 4)\n				fprintf(stderr, "short file\\n");\n'), ok=True)
m("ln-check2", L, (SCL, '			if(fscanf(circuit_in, "%d%d%lld%lld", &ty, &g, &u, &v) != 4)\n			{\n				fprintf(stderr, "short file\\n");\n				return;\n			}\n'), ok=True)
# ---- bclogc
m("l-b-swap", B, (GB, "			previous_g = g;\n			if(ty == 0)\n				C.circuit[i].gates[g] = gate(ty, v, v);\n			else\n				C.circuit[i].gates[g] = gate(ty, u, v);\n"))
m("l-b-square", B, (GB, "			previous_g = g;\n			C.circuit[i].gates[g] = gate(ty, u, (ty == 1 && v == u + 1) ? u : v);\n"))
m("l-b-layer", B, ("			C.circuit[i].gates[g] = gate(ty, u, v);\n", "			C.circuit[i].gates[j] = gate(ty & 3, u, v);\n"), ok=True)
m("l-b-pad", B, ("gates[max_gate] = gate(2, 0, 0);", "gates[max_gate] = gate(0, 0, 0);"))
m("l-b-bits1", B, ("			C.circuit[i].bit_length = cnt;\n", "			C.circuit[i].bit_length = cnt - 1;\n"))
m("l-b-bits", B, ("			C.circuit[i].bit_length = cnt - 1;\n", "			C.circuit[i].bit_length = cnt - 1 + (n > 1024);\n"))
m("l-b-depth", B, ("	C.total_depth = d;", "	C.total_depth = d - 1;"))
m("l-b-last", B, ("		for(int j = 0; j < n; ++j)\n		{\n			int ty, g, u, v;\n", "		for(int j = 1; j < n; ++j)\n		{\n			int ty, g, u, v;\n"))
m("ln-b-down", B, ("	static char str[300];\n	int offset;\n", ""), ok=True)
m("ln-b-ptr", B, (GB, "			previous_g = g;\n			gate *dst = C.circuit[i].gates + g;\n			*dst = gate(ty, u, v);\n"), ok=True)
m("ln-b-max", B, ("		if(C.circuit[i].bit_length > max_bit_length)\n			max_bit_length = C.circuit[i].bit_length;\n", "		max_bit_length = std::max(max_bit_length, C.circuit[i].bit_length);\n"), ("#include <utility>\n", "#include <utility>\n#include <algorithm>\n"), ok=True)
# ---- bc_clogc
m("l-c-copy0", C, (BC, "				C.blocks[blk_id].circuit[i].gates[g] = gate(ty, u, blk_id == 0 ? v : u);\n"))
m("l-c-last", C, ("			for(int blk_id = 0; blk_id < n_copy; ++blk_id)\n" + BC, "			for(int blk_id = 0; blk_id + 1 < n_copy; ++blk_id)\n" + BC))
m("l-c-first", C, ("			for(int blk_id = 0; blk_id < n_copy; ++blk_id)\n" + BC, "			for(int blk_id = 1; blk_id < n_copy; ++blk_id)\n" + BC))
m("l-c-blocks", C, ("	C.total_blocks_binary_length = binary_bn;", "	C.total_blocks_binary_length = binary_bn > 1 ? binary_bn : 1;"))
m("l-c-count", C, ("	C.total_blocks = num_blocks;", "	C.total_blocks = 1 << binary_bn;"))
m("l-c-depth", C, ("		C.blocks[i].total_depth = d;", "		C.blocks[i].total_depth = d - (i > 0);"))
m("l-c-pad", C, ("gates[max_gate] = gate(2, 0, 0);", "gates[max_gate] = gate(2, 1, 0);"))
m("l-c-bits", C, ("				C.blocks[blk_id].circuit[i].bit_length = cnt - 1;\n", "				C.blocks[blk_id].circuit[i].bit_length = blk_id ? cnt : cnt - 1;\n"))
m("l-c-getcirc", PC, ("	C = from_verifier;", "	C = from_verifier;\n	C.total_blocks_binary_length = 1;"))
m("ln-c-order", C, ("			for(int blk_id = 0; blk_id < n_copy; ++blk_id)\n" + BC, "			for(int blk_id = n_copy - 1; blk_id >= 0; --blk_id)\n" + BC), ok=True)
m("ln-c-local", C, ("			for(int blk_id = 0; blk_id < n_copy; ++blk_id)\n" + BC, "			const gate cur(ty, u, v);\n			for(int blk_id = 0; blk_id < n_copy; ++blk_id)\n				C.blocks[blk_id].circuit[i].gates[g] = cur;\n"), ok=True)
m("ln-c-bl", C, ("		if(n == 1)\n		{\n			//add a dummy gate to avoid ill-defined layer.\n", "		const bool single = (n == 1);\n		if(single)\n		{\n			//add a dummy gate to avoid ill-defined layer.\n"), ok=True)
