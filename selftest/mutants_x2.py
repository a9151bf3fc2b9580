# the same kind of restructuring in the traditional verifiers and the parallel one
import os, re
R = os.environ.get("ST_REPO", "/repo")
FS = {"bclogc": "src/traditional_gkr/verifier_traditional.cpp", "bc_clogc": "src/traditional_gkr/verifier_bc_clogc.cpp", "para": "src/linear_gkr/verifier_fast_para_track.cpp"}
MUTANTS = []
PF = "prime_field::field_element"


def span(s, a, b):
    i = s.index(a)
    return s[i:s.index(b, i)]


for prog, f in FS.items():
    s = open(os.path.join(R, f), newline="").read().replace("\r\n", "\n")

    def m(name, edits, expect=None):
        MUTANTS.append(("x2-%s-%s" % (prog, name), prog, expect, {f: edits}))

    def test(ph, extra=""):
        i = s.index('"Verification fail, phase%d' % ph)
        a = s.rindex("			if(", 0, i)
        return s[a:s.index("alpha_beta_sum = poly.eval(", i)]
    fns = [g for g in (0, 1, 2) if '"Verification fail, phase%d' % g in s]
    FIN = "	//post sumcheck\n"
    DECL = ("	random_oracle oracle;\n", "	random_oracle oracle;\n	bool ok = true;\n")
    # flag and break in every phase
    ed, bad = [DECL], None
    for g in fns:
        t = test(g)
        cond = t[t.index("if(") + 3:t.index(")\n")]
        ed.append((t, "			ok = ok && !(%s);\n			" % cond))
    m("flag", ed + [(FIN, "	if(!ok)\n		return false;\n" + FIN)])
    m("flag-lost", ed + [(FIN, FIN)], ["V01"])
    m("flag-last", [(a, b.replace("ok = ok && ", "ok = ")) for a, b in ed] + [(FIN, "	if(!ok)\n		return false;\n" + FIN)], ["V01"])
    # a template helper for the check
    H = "template<class Q>\nstatic bool consistent(Q &q, const %s &claim)\n{\n	return q.eval(%s(0)) + q.eval(%s(1)) == claim;\n}\n\nbool verifier::verify()\n" % (PF, PF, PF)
    if prog != "para":
        ed = [("bool verifier::verify()\n", H)]
        for g in fns:
            t = test(g)
            ed.append((t, "			if(!consistent(poly, alpha_beta_sum))\n				return false;\n			"))
        m("tmpl", ed)
        m("tmpl-bad", [(a, b.replace("q.eval(%s(1))" % PF, "q.eval(%s(0))" % PF)) for a, b in ed], ["V02"])
    # failures counted over the whole proof
    ed = [(DECL[0], DECL[0] + "	int failures = 0;\n")]
    for g in fns:
        t = test(g)
        cond = t[t.index("if(") + 3:t.index(")\n")]
        ed.append((t, "			if(%s)\n				++failures;\n			" % cond))
    m("count", ed + [(FIN, "	if(failures)\n		return false;\n" + FIN)])
    m("count-one", ed + [(FIN, "	if(failures > 1)\n		return false;\n" + FIN)], ["V01"])
    # goto a common rejecting end
    ed = []
    for g in fns:
        t = test(g)
        ed.append((t, t.replace("return false;", "{ printf(\"reject\\n\"); return rejected(); }")))
    m("rejected", [("bool verifier::verify()\n", "static bool rejected()\n{\n	fflush(stderr);\n	return false;\n}\n\nbool verifier::verify()\n")] + ed)
    # challenges drawn by a helper writing into a given array
    m("draw", [("bool verifier::verify()\n", "static void draw(%s *to, int n)\n{\n	%s *r = generate_randomness(n);\n	for(int k = 0; k < n; ++k)\n		to[k] = r[k];\n	delete[] r;\n}\n\nbool verifier::verify()\n" % (PF, PF)),
               ("		alpha = tmp_alpha[0];\n		beta = tmp_beta[0];\n		delete[] tmp_alpha;\n		delete[] tmp_beta;\n", "		draw(&alpha, 1);\n		draw(&beta, 1);\n"),
               ("		auto tmp_alpha = generate_randomness(1), tmp_beta = generate_randomness(1);\n", "")])
    m("draw-same", [("		beta = tmp_beta[0];\n", "		beta = alpha;\n")], ["V03"])
    m("draw-once", [("		alpha = tmp_alpha[0];\n		beta = tmp_beta[0];\n", "		static %s keep = tmp_alpha[0];\n		alpha = keep;\n		beta = tmp_beta[0];\n" % PF)], ["V03"])
    m("draw-pair", [("		auto tmp_alpha = generate_randomness(1), tmp_beta = generate_randomness(1);\n", "		auto pair = generate_randomness(2);\n"), ("		alpha = tmp_alpha[0];\n		beta = tmp_beta[0];\n		delete[] tmp_alpha;\n		delete[] tmp_beta;\n", "		alpha = pair[0];\n		beta = pair[1];\n		delete[] pair;\n")])
    m("uv-reuse", [("r_v = generate_randomness(", "r_v = r_u; (void)generate_randomness(")], ["V03"])
    m("next-swapped-point", [("		r_0 = r_u;\n		r_1 = r_v;\n", "		r_0 = r_v;\n		r_1 = r_u;\n")], ["V02"])
    m("skip-bit", [("		previous_random = prime_field::field_element(0);\n		for(int j = 0; j <", "		previous_random = prime_field::field_element(0);\n		for(int j = i > 1 ? 0 : 1; j <")], ["V01"])
    m("const-static", [("		beta = tmp_beta[0];\n", "		static const %s one = %s(1);\n		beta = tmp_beta[0] * one;\n" % (PF, PF))])
    m("const-static2", [("	random_oracle oracle;\n", "	random_oracle oracle;\n	static const int first_layer = 1;\n"), ("total_depth - 1; i >= 1; --i)", "total_depth - 1; i >= first_layer; --i)")])
    m("const-static3", [("	random_oracle oracle;\n", "	random_oracle oracle;\n	static const int first_layer = 2;\n"), ("total_depth - 1; i >= 1; --i)", "total_depth - 1; i >= first_layer; --i)")], ["V01"])
