"""Verdict mutants (R01)."""
L = "src/linear_gkr/main_fast_track.cpp"
B = "src/traditional_gkr/bclogc.cpp"
C = "src/traditional_gkr/bc_clogc.cpp"
VL = "src/linear_gkr/verifier_fast_track.cpp"
VB = "src/traditional_gkr/verifier_traditional.cpp"
PB = "src/traditional_gkr/prover_clogc.cpp"
M = MUTANTS = []
PR = {L: "verdict-linear", B: "verdict-bclogc", C: "verdict-bc_clogc", VL: "verdict-linear", VB: "verdict-bclogc", PB: "verdict-bclogc"}


def m(name, file, *prs, ok=False):
    M.append((name, PR[file], None if ok else ["R01"], {file: list(prs)}))


AND = "		final_result &= result;"
m("w-last", B, (AND, "		final_result = result;"))
m("w-or", B, (AND, "		final_result |= result;"))
m("w-or2", B, ("bool final_result = true;", "bool final_result = false;"), (AND, "		final_result |= result;"))
m("w-skip-first", B, ("	for(int i = 0; i < n_copy; ++i)", "	for(int i = 1; i < n_copy; ++i)"))
m("w-short", B, ("	for(int i = 0; i < n_copy; ++i)", "	for(int i = 0; i + 1 < n_copy; ++i)"))
m("w-half", B, (AND, "		if(i % 2 == 0)\n			final_result &= result;"))
m("w-first", B, (AND, "		if(i == 0)\n			final_result = result;"))
m("w-count", B, (AND, "		accepted += result;"), ("	bool final_result = true;", "	int accepted = 0;"), ("	if(final_result)", "	if(accepted * 2 > n_copy)"))
m("w-count1", B, (AND, "		accepted += result;"), ("	bool final_result = true;", "	int accepted = 0;"), ("	if(final_result)", "	if(accepted >= n_copy - 1)"))
m("w-argv", B, ('sscanf(argv[2], "%d", &n_copy);', 'sscanf(argv[3], "%d", &n_copy);'))
m("w-same-v", B, ("v[i].verify()", "v[0].verify()"))
m("w-same-p", B, ("v[i].get_prover(&p[i])", "v[i].get_prover(&p[0])"))
m("w-circ", B, ("p[i].get_circuit(v[i].C);", "p[i].get_circuit(v[0].C);"))
m("w-lin-neg", L, ('result ? "Pass" : "Fail"', '"Pass"'))
m("w-lin-order", L, ("	v.read_circuit(\"test_circuit.txt\");\n	p.get_circuit(v.C);", "	p.get_circuit(v.C);\n	v.read_circuit(\"test_circuit.txt\");"))
m("w-lin-time", L, ('	printf("%s\\n", result ? "Pass" : "Fail");', '	printf("%s\\n", result || p.total_time > 0 ? "Pass" : "Fail");'))
m("w-bc-log", C, ("v.set_blocks(n_copy, log_n_copy);", "v.set_blocks(n_copy, n_copy);"))
m("w-bc-one", C, ("v.read_circuit(path, n_copy);", "v.read_circuit(path, 1);"))
m("w-bc-init", C, ("final_result &= v.verify();", "v.verify();"))
m("w-v-print", VL, ("	prime_field::field_element alpha, beta;", '	printf("Pass\\n");\n	prime_field::field_element alpha, beta;'))
m("w-keep", PB, ("	C = from_verifier;", ""))
m("w-early", B, (AND, AND + "\n		if(result) { final_result = true; break; }"))
m("wn-if", B, (AND, "		if(!result)\n			final_result = false;"), ok=True)
m("wn-and", B, (AND, "		final_result = final_result && result;"), ok=True)
m("wn-break", B, (AND, AND + "\n		if(!final_result)\n			break;"), ok=True)
m("wn-break2", B, (AND, "		if(!result) { final_result = false; break; }"), ok=True)
m("wn-count", B, (AND, "		accepted += result;"), ("	bool final_result = true;", "	int accepted = 0;"), ("	if(final_result)", "	if(accepted == n_copy)"), ok=True)
m("wn-fail", B, (AND, "		if(!result)\n			failures++;"), ("	bool final_result = true;", "	int failures = 0;"), ("	if(final_result)", "	if(failures == 0)"), ok=True)
m("wn-ifprint", L, ('	printf("%s\\n", result ? "Pass" : "Fail");', '	if(result)\n		puts("Pass");\n	else\n		puts("Fail");'), ok=True)
m("wn-inv", B, ("	if(final_result)\n	{\n		printf(\"Verification Pass, total time %f\\n\", (float)total_time);\n	}\n	else\n	{\n		printf(\"Verification Fail.\\n\");\n	}", "	if(!final_result)\n	{\n		printf(\"Verification Fail.\\n\");\n	}\n	else\n	{\n		printf(\"Verification Pass, total time %f\\n\", (float)total_time);\n	}"), ok=True)
m("wn-atoi", B, ('sscanf(argv[2], "%d", &n_copy);', 'n_copy = atoi(argv[2]);'), ("#include <cstdio>", "#include <cstdio>\n#include <cstdlib>"), ok=True)
m("wn-cout", L, ('	printf("%s\\n", result ? "Pass" : "Fail");', '	std::cout << (result ? "Pass" : "Fail") << std::endl;'), ("#define __timer__", "#define __timer__\n#include <iostream>"), ok=True)
m("wn-ref", B, ("		p[i].total_time = 0;\n		v[i].get_prover(&p[i]);", "		verifier &vi = v[i];\n		p[i].total_time = 0;\n		vi.get_prover(&p[i]);"), ok=True)
m("wn-helper", B, ("void run_verifications(", "static bool run_one(verifier &vv, prover &pp, const char *path)\n{\n	pp.total_time = 0;\n	vv.get_prover(&pp);\n	FILE *f = fopen(path, \"r\");\n	vv.read_circuit_from_FILE(f);\n	fclose(f);\n	pp.get_circuit(vv.C);\n	return vv.verify();\n}\n\nvoid run_verifications("),
  ("		p[i].total_time = 0;\n		v[i].get_prover(&p[i]);\n		FILE *input_file = fopen(input_path, \"r\");\n		v[i].read_circuit_from_FILE(input_file);\n		fclose(input_file);\n		p[i].get_circuit(v[i].C);\n		bool result = v[i].verify();", "		bool result = run_one(v[i], p[i], input_path);"), ok=True)
m("wn-while", B, ("	for(int i = 0; i < n_copy; ++i)\n	{", "	int i = -1;\n	while(++i < n_copy)\n	{"), ok=True)
m("wn-local", B, ("	p = new prover[n_copy];\n	v = new verifier[n_copy];", "	const int copies = n_copy;\n	p = new prover[copies];\n	v = new verifier[copies];"), ("i < n_copy", "i != copies"), ok=True)
