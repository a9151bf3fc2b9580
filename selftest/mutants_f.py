PF = "src/linear_gkr/prime_field.cpp"
ML = "src/linear_gkr/main_fast_track.cpp"
M = MUTANTS = []


def n(name, *prs):
    M.append((name, "num", ["F01"], {PF: list(prs)}))


def f(name, *prs, file=PF):
    M.append((name, "field-linear", ["F02"], {file: list(prs)}))


def ok(name, *prs):
    M.append((name, "num,field-linear", None, {PF: list(prs)}))


n("n-add-nocarry", ("		if(midd == __max_ull)\n			midd += carry;\n", ""))
n("n-add-cmp", ("		carry = (ret.lo < lo);\n		midd", "		carry = (ret.lo <= lo);\n		midd"))
n("n-sub-one", ("		return *this + not_x + (u256b)(unsigned long long)1;", "		return *this + not_x;"))
n("n-mul-carry", ("		__uint128_t carry2 = ((lomid1 >> 64) + (lomid2 >> 64)) + \n						   (((lomid1 & __max_ull) + (lomid2 & __max_ull) + carry) >> 64);\n						   \n		ret.hi = (__uint128_t)lo",
  "		__uint128_t carry2 = ((lomid1 >> 64) + (lomid2 >> 64)) + \n						   (((lomid1 & __max_ull) + (lomid2 & __max_ull)) >> 64);\n						   \n		ret.hi = (__uint128_t)lo"))
n("n-mul-narrow", ("		ret.mid = ((unsigned long long)lomid1 + (unsigned long long)lomid2 + (unsigned long long)carry);\n		//this carry is not necessary less than 2**64\n		const __uint128_t carry2 = ((lomid1 >> 64) + (lomid2 >> 64)) + ",
  "		ret.mid = ((unsigned long long)lomid1 + (unsigned long long)lomid2 + (unsigned long long)carry);\n		//this carry is not necessary less than 2**64\n		const __uint128_t carry2 = ((lomid1 + lomid2) >> 64) + "))
n("n-512-carry2", ("			carry2 = ret.mid <= mid;", "			carry2 = ret.mid < mid;"))
n("n-512-lo", ("		ret.mid = mid + x.mid + carry;\n		if(carry", "		ret.mid = mid + x.mid;\n		if(carry"))
n("n-512-mul-carry", ("		const u256b tmp = (lomid1 + lomid2 + carry);", "		const u256b tmp = (lomid1 + lomid2);"))
n("n-512-mul-hi", ("		ret.hi = midmid + carry2;\n		return ret;", "		ret.hi = midmid + lomid1.hi + lomid2.hi;\n		return ret;"))
n("n-512-shortcut", ("		if(x.mid == 0 && x.lo == 0)\n			return x;", "		if(x.mid == 0 || x.lo == 0)\n			return x;"))
n("n-cmp-ge", ("		return lo >= x.lo;", "		return lo > x.lo;"))
n("n-cmp-mid", ("		if(hi > x.hi)\n			return true;\n		if(hi < x.hi)\n			return false;\n		if(mid > x.mid)\n			return true;\n		if(mid < x.mid)\n			return false;\n		return lo >= x.lo;",
  "		if(hi > x.hi)\n			return true;\n		if(mid > x.mid)\n			return true;\n		if(mid < x.mid)\n			return false;\n		return lo >= x.lo;"))
n("n-neq-hi", ("		return lo != x.lo || mid != x.mid || hi != x.hi;", "		return lo != x.lo || mid != x.mid;"))
n("n-left", ("		ret.hi = ((__uint128_t)lo | ((__uint128_t)mid << 64));", "		ret.hi = ((__uint128_t)lo | (mid << 63));"))
n("n-testbit", ("		if(i < 64)", "		if(i <= 64)"))
n("n-bitat", ("		if(pos < 128)\n			return (mid >> (pos - 64)) & 1;", "		if(pos <= 128)\n			return (mid >> (pos - 64)) & 1;"))
n("n-bitlen", ("			return 128 - __builtin_clzll(mid);", "			return 127 - __builtin_clzll(mid);"))
n("n-bitlen0", ("			if(lo == 0)\n				return 0;\n			return 64 - __builtin_clzll(lo);\n		}\n	}\n\n	int u256b", "			return 64 - __builtin_clzll(lo);\n		}\n	}\n\n	int u256b"))
n("n-ctor128", ("		mid = (unsigned long long)(x >> 64);", "		mid = (unsigned long long)(x >> 32);"))
n("n-text-base", ("			tmp = tmp * (u512b)((u256b)(unsigned long long)base);", "			tmp = tmp * (u512b)((u256b)(unsigned long long)10);"))
n("n-text-end", ("		for(int i = len - 1; i >= 0; --i)\n		{\n			ret = ret + tmp * ((u256b)", "		for(int i = len - 1; i > 0; --i)\n		{\n			ret = ret + tmp * ((u256b)"))
n("n-gmp", ("			str_value[i + 128] = ((value.mid >> i) & 1) + '0';", "			str_value[i + 128] = ((value.lo >> i) & 1) + '0';"))
n("n-bits", ("		for(int i = 0; i < 128; ++i)\n		{\n			out.push_back((value.mid >> i) & 1);", "		for(int i = 0; i < 127; ++i)\n		{\n			out.push_back((value.mid >> i) & 1);"))
n("n-512ctor", ("		lo = ((__uint128_t)x.mid << 64) | (__uint128_t)x.lo;", "		lo = ((__uint128_t)x.mid << 64) ^ (__uint128_t)x.hi;"))

f("f-add-gt", ("		if(ret.value >= mod_512)", "		if(ret.value > mod_512)"))
f("f-add-none", ("		if(ret.value >= mod_512)\n			ret.value = ret.value + minus_mod_512;", ""))
f("f-sub-gt", ("		if(value >= b.value)\n			ret.value = value - b.value;", "		if(value > b.value)\n			ret.value = value - b.value;"))
f("f-sub-eq2", ("			ret.value = value + mod_512 - b.value;", "			ret.value = value + mod_512 + mod_512 - b.value;"))
f("f-mul-nomod", ("		ret.value = (b.value * value) % mod;", "		ret.value = (b.value * value);"))
f("f-barrett-shift", ("		t.lo = (res.hi.lo << 4) | (res.mid >> 124);", "		t.lo = (res.hi.lo << 4) | (res.mid >> 125);"))
f("f-barrett-ge", ("		if(t512 >= mod)\n			result = t512 - mod;", "		if(t512 > mod)\n			result = t512 - mod;"))
f("f-barrett-lo", ("		lo256bit.mid = mid;", "		lo256bit.mid = 0;"))
f("f-factor", ("49885853761272603568320884710755151782187486770207743353506441985236025007921", "49885853761272603568320884710755151782187486770207743353506441985236025007721"))
f("f-factor-big", ("49885853761272603568320884710755151782187486770207743353506441985236025007921", "49885853761272603568320884710755151782187486770207743353506441985236025007922"))
f("f-prime", ("16798108731015832284940804142231733909759579603404752749028378864165570215949", "16798108731015832284940804142231733909759579603404752749028378864165570215947"), file=ML)
f("f-minus", ("		minus_mod_512 = prime_field::field_element(0).value - mod;", "		minus_mod_512 = prime_field::field_element(1).value - mod;"))
f("f-order", ("		one = (u256b)(unsigned long long)1;\n		zero", "		zero"))
f("f-eq", ("		return value != b.value;", "		return value.lo != b.value.lo;"))
f("f-int", ("	field_element::field_element(const int x)\n	{\n		value = (u256b)(unsigned long long)x;", "	field_element::field_element(const int x)\n	{\n		value = (u256b)(unsigned long long)(short)x;"))
ok("nf-nozero", ("	field_element::field_element()\n	{\n		value = (u256b)(unsigned long long)0;", "	field_element::field_element()\n	{\n		value.lo = 0;"))

ok("nf-add-simple", ("		if(midd == __max_ull)\n			midd += carry;\n		ret.mid = mid + x.mid + carry;", "		midd += carry;\n		ret.mid = (unsigned long long)midd;"))
ok("nf-ge-not-lt", ("		if(hi > x.hi)\n			return true;\n		if(hi < x.hi)\n			return false;\n		if(mid > x.mid)\n			return true;\n		if(mid < x.mid)\n			return false;\n		return lo >= x.lo;", "		return !(*this < x);"))
ok("nf-mod-sub", ("			ret.value = ret.value + minus_mod_512;", "			ret.value = ret.value - mod_512;"))
ok("nf-barrett-loop", ("		if(t512 >= mod)\n			result = t512 - mod;", "		while(result >= mod)\n			result = result - mod;"))
ok("nf-barrett-tern", ("		auto result = t512;\n		if(t512 >= mod)\n			result = t512 - mod;\n		return result;", "		return t512 >= mod ? t512 - mod : t512;"))
ok("nf-noshort", ("		if(x.mid == 0 && x.lo == 0)\n			return x;\n		if(mid == 0 && lo == 0)\n			return *this;\n", ""))
ok("nf-neg", ("		if(value >= b.value)\n			ret.value = value - b.value;\n		else\n			ret.value = value + mod_512 - b.value;", "		ret.value = value - b.value;\n		if(value < b.value)\n			ret.value = ret.value + mod_512;"))
ok("nf-mulhelp", ("		u256b lolo; mul_no_hi(alo, xlo, lolo);\n", "		u256b lolo = alo * xlo;\n"))
ok("nf-bits", ("			out.push_back((value.mid >> i) & 1);", "			out.push_back(((value.mid >> i) & 1) == 1);"))
ok("nf-bits2", ("			out.push_back((value.mid >> i) & 1);", "			out.push_back(value.mid & ((__uint128_t)1 << i));"))
ok("nf-text-horner", ("		u256b ret = (u256b)(unsigned long long)0;\n		u256b tmp = (u256b)(unsigned long long)1;\n		for(int i = len - 1; i >= 0; --i)\n		{\n			ret = ret + tmp * ((u256b)(unsigned long long)(x[i] - '0'));\n			tmp = tmp * ((u256b)(unsigned long long)base);\n		}",
   "		u256b ret = (u256b)(unsigned long long)0;\n		u256b b = (u256b)(unsigned long long)base;\n		for(int i = 0; i < len; ++i)\n		{\n			ret = ret * b + ((u256b)(unsigned long long)(x[i] - '0'));\n		}"))
ok("nf-bitat", ("		if(pos < 64)\n			return (lo >> pos) & 1;", "		if(pos < 64)\n		{\n			unsigned long long m = lo & (1ULL << pos);\n			return m != 0 ? 1 : 0;\n		}"))
ok("nf-switch-limbs", ("		ret.lo = lo + x.lo;\n		carry = ret.lo < lo;\n		ret.mid = mid + x.mid + carry;", "		ret.lo = lo + x.lo;\n		carry = ret.lo < x.lo ? 1 : 0;\n		ret.mid = mid + x.mid;\n		ret.mid = ret.mid + carry;"))
ok("nf-delta", ("		if(midd == __max_ull)\n			midd += carry;\n", "		if(carry && midd == __max_ull)\n			midd = midd + 1;\n"))
