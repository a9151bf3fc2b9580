"""Range mutants: representations combined outside the range where the arithmetic is exact."""
P = "src/linear_gkr/prover_fast_track.cpp"
V = "src/linear_gkr/verifier_fast_track.cpp"
PB = "src/traditional_gkr/prover_bc_clogc.cpp"
M = MUTANTS = []


def m(name, file, *prs, expect=("F02",), prog="field-linear"):
    M.append((name, prog, list(expect) if expect else None, {file: list(prs)}))


SUM = "				tmp = tmp % prime_field::mod;\n				for(int j = u; j < v; ++j)"
SUMIF = "					if(add_mult_sum[j].b.value >= prime_field::mod)\n						add_mult_sum[j].b.value = add_mult_sum[j].b.value - prime_field::mod;\n"
m("r-sumcond", P, (SUMIF, SUMIF.replace(">= prime_field::mod", "> tmp")), expect=("F02", "H01"))
m("r-sumnosub", P, (SUMIF, ""))
m("r-sumtmp", P, (SUM, SUM.split("\n")[1]))
m("r-nomod-not", P, ("				add_mult_sum[u].b.value = (add_mult_sum[u].b.value + prime_field::mod - tmp) % prime_field::mod;", "				add_mult_sum[u].b.value = (add_mult_sum[u].b.value - tmp) % prime_field::mod;"))
m("r-prod3", P, ("				add_mult_sum[v].b.value = add_mult_sum[v].b.value + (tmp_g * tmp_u % prime_field::mod * v_u.value);", "				add_mult_sum[v].b.value = add_mult_sum[v].b.value + (tmp_g * tmp_u * v_u.value);"))
m("r-add-late", P, ("				add_mult_sum[v].b.value = add_mult_sum[v].b.value % prime_field::mod;\n				addV_array[v].b.value = addV_array[v].b.value % prime_field::mod;\n",
  "				add_mult_sum[v].b.value = add_mult_sum[v].b.value % prime_field::mod;\n"))
m("r-init-half", P, ("			beta_u_fhalf[j].value = beta_u_fhalf[j].value * one_minus_r_u[i].value % prime_field::mod;", "			beta_u_fhalf[j].value = beta_u_fhalf[j].value * one_minus_r_u[i].value;"))
m("r-interp", P, ("			addV_array[i].a.value = (addV_array[g_one].a.value * previous_random.value + addV_array[g_one].b.value - addV_array[i].b.value + prime_field::mod) % prime_field::mod;",
  "			addV_array[i].a.value = (addV_array[g_one].a.value * previous_random.value + addV_array[g_one].b.value - addV_array[i].b.value) % prime_field::mod;"))
m("r-bc", PB, ("			output[j].value = (output[j << 1].value * one_minus_r_0[i].value + output[j << 1 | 1].value * r_0[i].value) % prime_field::mod;",
  "			output[j].value = (output[j << 1].value * one_minus_r_0[i].value + output[j << 1 | 1].value * r_0[i].value);"), prog="field-bc_clogc", expect=("F02", "H02"))
# same behaviour, written differently
m("rn-gt", P, (SUMIF, SUMIF.replace(">= prime_field::mod", "> prime_field::mod")), expect=None)   # p itself stays: not reduced, but only multiplied and reduced afterwards
m("rn-mod", P, (SUMIF, "					add_mult_sum[j].b.value = add_mult_sum[j].b.value % prime_field::mod;\n"), expect=None)
m("rn-fe", P, (SUMIF, ""), ("					add_mult_sum[j].b.value = (add_mult_sum[j].b.value + tmp);\n", "					add_mult_sum[j] .b.value = (add_mult_sum[j].b.value + tmp) % prime_field::mod;\n"), expect=None)
m("rn-late", P, ("	ret.a.value = ret.a.value % prime_field::mod;\n	ret.b.value = ret.b.value % prime_field::mod;\n	ret.c.value = ret.c.value % prime_field::mod;\n", "", 0), expect=None)
m("rn-add-late", P, ("				add_mult_sum[v].b.value = (add_mult_sum[v].b.value + tmp_g * tmp_u);\n", "				auto prod = tmp_g * tmp_u;\n				add_mult_sum[v].b.value = (add_mult_sum[v].b.value + prod);\n"), expect=None)
m("rn-fieldops", P, ("				add_mult_sum[u].b.value = (add_mult_sum[u].b.value + prime_field::mod - tmp) % prime_field::mod;", "				prime_field::field_element tf; tf.value = tmp;\n				add_mult_sum[u].b = add_mult_sum[u].b - tf;"), expect=None)
m("rn-3terms", P, ("				add_mult_sum[v].b.value = add_mult_sum[v].b.value + (tmp_g * tmp_u % prime_field::mod * v_u.value);\n				add_mult_sum[v].b.value = add_mult_sum[v].b.value % prime_field::mod;",
  "				prime_field::u512b acc = add_mult_sum[v].b.value;\n				acc = acc + (tmp_g * tmp_u % prime_field::mod * v_u.value);\n				add_mult_sum[v].b.value = acc % prime_field::mod;"), expect=None)
