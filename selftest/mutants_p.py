"""Message polynomial mutants."""
F = "src/linear_gkr/polynomial.cpp"
M = MUTANTS = []


def m(name, *prs, ok=False):
    M.append((name, "poly,field-linear", None if ok else ["F03"], {F: list(prs)}))


Q = "	return ((a * x) + b) * x + c;"
m("p-quad", (Q, "	return ((a * x) + b) * x + b;"))
m("p-one", (Q, "	if(x == prime_field::field_element(1))\n		return a + b;\n" + Q))
m("p-zero", (Q, "	if(a == prime_field::field_element(0))\n		return b + c;\n" + Q))
m("p-cubicmul", ("	return cubic_poly(a * x.a, a * x.b + b * x.a, b * x.b + c * x.a, c * x.b);", "	return cubic_poly(a * x.a, a * x.b + b * x.a, b * x.b, c * x.b);"))
m("p-linsq", ("	return quadratic_poly(a * x.a, a * x.b + b * x.a, b * x.b);", "	return quadratic_poly(a * x.a, a * x.b + b * x.a, b * b);"))
m("p-ctor", ("	a = prime_field::field_element(0);\n	b = x;", "	b = x;"), ok=True)   # the coefficient is zero anyway after construction
m("p-sum5", ("d + x.d, e + x.e, f + x.f", "d + x.d, e + x.e, x.f + x.f"))
m("p-raw", ("	return a * x + b;\n", "	prime_field::field_element ret;\n	ret.value = (a.value * x.value) % prime_field::mod + b.value;\n	return ret;\n"))
m("p-raw3", ("	return a * x + b;\n", "	prime_field::field_element ret;\n	ret.value = a.value * x.value * x.value % prime_field::mod;\n	return ret;\n"))
m("pn-raw", ("	return a * x + b;\n", "	prime_field::field_element ret;\n	ret.value = (a.value * x.value + b.value) % prime_field::mod;\n	return ret;\n"), ok=True)
m("pn-powers", (Q, "	prime_field::field_element x2 = x * x;\n	return a * x2 + b * x + c;"), ok=True)
m("pn-zero", (Q, "	if(x == prime_field::field_element(0))\n		return c;\n" + Q), ok=True)
m("pn-one", (Q, "	if(x == prime_field::field_element(1))\n		return a + b + c;\n" + Q), ok=True)
m("pn-init", ("quadratic_poly::quadratic_poly(const prime_field::field_element& aa, const prime_field::field_element& bb, const prime_field::field_element& cc)\n{\n	a = aa;\n	b = bb;\n	c = cc;\n}",
  "quadratic_poly::quadratic_poly(const prime_field::field_element& aa, const prime_field::field_element& bb, const prime_field::field_element& cc) : a(aa), b(bb), c(cc)\n{\n}"), ok=True)
m("pn-acc", ("	return (((a * x) + b) * x + c) * x + d;", "	prime_field::field_element acc = a;\n	const prime_field::field_element rest[3] = {b, c, d};\n	for(int i = 0; i < 3; ++i)\n		acc = acc * x + rest[i];\n	return acc;"), ok=True)
m("pn-sumlocal", ("	return linear_poly(a + x.a, b + x.b);", "	linear_poly r = *this;\n	r.a = r.a + x.a;\n	r.b = r.b + x.b;\n	return r;"), ok=True)
