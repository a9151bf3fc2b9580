from seeds import *
from seeds import seed

REJ = """#include "cheat.h"
int main(int, char **a)
{
	start();
	%s
	bool ok = run(a[1]%s);
	printf("wrong claim %%s\\n", ok ? "ACCEPTED" : "rejected");
	return ok;
}
"""

C_ADD2 = "4\n4 3 0 7 0 3 1 11 0 3 2 5 0 3 3 2 0\n4 1 0 0 1 0 1 1 2 1 2 2 3 0 3 0 3\n4 0 0 0 1 0 1 2 3 0 2 0 2 0 3 1 3\n2 1 0 0 1 0 1 2 3\n"
C_ADD1 = "4\n4 3 0 7 0 3 1 11 0 3 2 5 0 3 3 2 0\n4 0 0 0 1 0 1 1 2 0 2 2 3 0 3 0 3\n4 1 0 0 1 0 1 2 3 0 2 0 2 1 3 1 3\n2 1 0 0 1 0 1 2 3\n"

seed("v01-identity-layer", "V01", {LV: [
    ("			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)",
     "			if(i > 1 && poly.eval(0) + poly.eval(1) != alpha_beta_sum)")]},
    "a prover that keeps a wrong claim consistent down to the first phase of the lowest layer and is honest from there on",
    "the sumcheck rounds of the first phase of the lowest layer are not compared with the claim, so any claimed output is accepted",
    1, REJ % ("swap_layer = 2; swap_d = F(9); stop_layer = 1; stop_phase = 1; stop_round = 0;", ""), C_ADD1)

seed("v03-one-coefficient", "V03", {TV: [
    ("		beta = tmp_beta[0];", "		beta = tmp_alpha[0];")]},
    "a prover that shifts the two closing values of one layer in opposite directions",
    "both claims are combined with the same coefficient, so errors of the two closing values that cancel go unnoticed",
    2, REJ % ("swap_layer = 2; swap_d = F(9); stop_layer = 3; stop_phase = 0;", ""), C_ADD2)

seed("v06-prover-input", "V06", {BV: [
    ("				input[g] = prime_field::field_element(C.blocks[blk].circuit[0].gates[i].u);",
     "				input[g] = p -> circuit_value[blk][0][i];")]},
    "a prover that evaluates the circuit on another input than the public one",
    "the last claim is compared with the input values the prover stored, not with the circuit's input",
    3, """#include "cheat.h"
int main(int, char **a)
{
	start();
	// the prover's circuit gets a different input constant in copy 1
	extern bool run_other_input(const char *);
	bool ok = run_other_input(a[1]);
	printf("other input %s\\n", ok ? "ACCEPTED" : "rejected");
	return ok;
}
bool run_other_input(const char *path)
{
	Pr = new prover; V = new verifier;
	V -> set_blocks(2, 1);
	V -> get_prover(Pr);
	V -> read_circuit(path, 2);
	Pr -> total_time = 0;
	Pr -> get_circuit(V -> C);
	// private copy of the circuit for the prover, with one input changed
	Pr -> C.blocks = new layered_circuit[2];
	for(int b = 0; b < 2; ++b)
	{
		Pr -> C.blocks[b] = V -> C.blocks[b];
		int d = V -> C.blocks[b].total_depth;
		Pr -> C.blocks[b].circuit = new layer[d];
		for(int i = 0; i < d; ++i) Pr -> C.blocks[b].circuit[i] = V -> C.blocks[b].circuit[i];
	}
	int n = 1 << V -> C.blocks[1].circuit[0].bit_length;
	gate *g = new gate[n];
	for(int i = 0; i < n; ++i) g[i] = V -> C.blocks[1].circuit[0].gates[i];
	g[2].u += 3;
	Pr -> C.blocks[1].circuit[0].gates = g;
	return V -> verify();
}
""")

seed("v02-first-round-free", "V02", {BV: [
    ("			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase1",
     "			auto round_sum = poly.eval(0) + poly.eval(1);\n			if(j == 0 && C.total_blocks_binary_length == 0)\n				alpha_beta_sum = round_sum;\n			if(round_sum != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase1")]},
    "a single copy (no block variables) and a prover with a wrong claim that becomes honest in the first round over the gate wires",
    "with one copy the first round polynomial of each layer redefines the claim instead of being compared with it",
    3, REJ % ("out_pos = 0; stop_layer = 3; stop_phase = 1; stop_round = 0;", ", 1, 0"))

HON = """#include "cheat.h"
int main(int, char **a)
{
	start();
	bool ok = run(a[1]%s);
	printf("honest proof %%s\\n", ok ? "accepted" : "REJECTED");
	return !ok;
}
"""
C_NOT = "3\n4 3 0 7 0 3 1 11 0 3 2 5 0 3 3 2 0\n4 6 0 0 0 6 1 1 0 0 2 2 3 1 3 0 3\n2 0 0 0 1 1 1 2 3\n"
C_NAAB = C_NOT.replace("6 0 0 0 6 1 1 0", "9 0 0 0 9 1 1 2")

seed("e01-not-flag", "E01", {LP: [
    ("				circuit_value[i][g] = prime_field::field_element(1) - circuit_value[i - 1][u];",
     "				circuit_value[i][g] = prime_field::field_element(circuit_value[i - 1][u] == prime_field::field_element(0) ? 1 : 0);")]},
    "a NOT gate on a wire whose value is neither 0 nor 1",
    "the gate is computed as a flag, which 1-x is on bits only, so an honest proof is rejected", 1, HON % "", C_NOT)
seed("e01-naab-same", "E01", {LP: [
    ("				circuit_value[i][g] = y - x * y;", "				circuit_value[i][g] = u == v ? prime_field::field_element(0) : y - x * y;")]},
    "an and-not gate whose two inputs are the same wire with a value that is no bit",
    "the gate is taken to be 0, which y-y^2 is on bits only, so an honest proof is rejected", 1, HON % "", C_NAAB)

C_SELF = "3\n4 3 0 7 0 3 1 11 0 3 2 5 0 3 3 2 0\n4 7 0 1 1 7 1 1 2 0 2 2 3 1 3 0 3\n2 0 0 0 1 1 1 2 3\n"
seed("h01-self-minus", "H01", {LP: [
    ("				addV_array[u].b.value = (addV_array[u].b.value + prime_field::mod - (circuit_value[sumcheck_layer_id - 1][v].value * tmp % prime_field::mod)) % prime_field::mod;\n				add_mult_sum[u].b.value = (add_mult_sum[u].b.value + tmp) % prime_field::mod;\n",
     "				if(u == v)\n					break;\n				addV_array[u].b.value = (addV_array[u].b.value + prime_field::mod - (circuit_value[sumcheck_layer_id - 1][v].value * tmp % prime_field::mod)) % prime_field::mod;\n				add_mult_sum[u].b.value = (add_mult_sum[u].b.value + tmp) % prime_field::mod;\n")]},
    "a minus gate whose two wires are the same",
    "the gate is left out of the first-phase tables; it is 0 on the wires but not between them, so an honest proof is rejected", 1, HON % "", C_SELF)
seed("v05-self-minus", "V05", {LV: [
    ("		if(C.circuit[depth].gates[i].ty == 7)\n", "		if(C.circuit[depth].gates[i].ty == 7 && u != v)\n")]},
    "a minus gate whose two wires are the same",
    "the verifier leaves the gate out of the closing check, so an honest proof is rejected", 1, HON % "", C_SELF)

seed("v04-read-again", "V04", {LV: [
    ("			alpha_beta_sum = v_u;\n", "			alpha_beta_sum = p -> v_u;\n")]},
    "a prover that reports one value for the lowest layer's closing check and holds another one when the input is compared",
    "the last claim is read from the prover a second time, so any claimed output is accepted", 1, """#include "cheat.h"
static F twist(0);
static F power(F b, mpz_class e) { F r(1); while(e != 0) { if(mpz_class(e & 1) == 1) r = r * b; b = b * b; e >>= 1; } return r; }
static void lie(prover *p, const F *r, const F *o)
{
	if(cur_layer != 1) return;
	int n = p -> C.circuit[0].bit_length;
	F e0(1), e1(1);
	for(int i = 0; i < n; ++i)
	{
		e0 = e0 * (p -> r_0[i] * r[i] + p -> one_minus_r_0[i] * o[i]);
		e1 = e1 * (p -> r_1[i] * r[i] + p -> one_minus_r_1[i] * o[i]);
	}
	mpz_class q("16798108731015832284940804142231733909759579603404752749028378864165570215947");
	twist = off * power(p -> alpha * e0 + p -> beta * e1, q);
	p -> v_u = p -> v_u + twist;
}
static void recant(prover *p) { if(cur_layer == 1) p -> v_u = p -> v_u - twist; }
int main(int, char **a)
{
	start();
	swap_layer = 2; swap_d = F(9); stop_layer = 1; stop_phase = 2; stop_round = 0;
	on_phase2 = lie; on_final = recant;
	bool ok = run(a[1]);
	printf("wrong claim %s\\n", ok ? "ACCEPTED" : "rejected");
	return ok;
}
""", C_ADD1)

seed("h02-third-copy-bit", "H02", {BP: [
    ("	if(current_bit != 0)\n	{\n		//update arrays", "	if(current_bit == 1)\n	{\n		//update arrays")]},
    "at least eight copies (three copy variables)",
    "the tables over the copies are folded in the second round only, so an honest proof over 8 copies is rejected", 3, HON % ", 8, 3", C_SMALL)

# ---------------------------------------------------------------- arithmetic
NUM = """#include "linear_gkr/prime_field.h"
#include "linear_gkr/polynomial.h"
#include <cstdio>
#include <cstdlib>
using namespace prime_field;
typedef unsigned long long ull;
static mpz_class w(ull x) { mpz_class r((unsigned long)(x >> 32)); r <<= 32; r += (unsigned long)(x & 0xffffffffULL); return r; }
static mpz_class Z(__uint128_t x) { return (w(x >> 64) << 64) + w((ull)x); }
static mpz_class Z(const u256b &x) { return (Z(x.hi) << 128) + (w(x.mid) << 64) + w(x.lo); }
static mpz_class Z(const u512b &x) { return (Z(x.hi) << 256) + (Z(x.mid) << 128) + Z(x.lo); }
static ull limb() { static const ull p[] = {0, 1, 2, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xfffffffffffffffeULL, 0xffffffffffffffffULL}; int r = rand() %% 12; return r < 7 ? p[r] : r < 10 ? (r & 1 ? 0 : ~0ULL) : ((ull)rand() << 33) ^ ((ull)rand() << 11) ^ rand(); }
static __uint128_t l2() { __uint128_t h = limb(); return (h << 64) | limb(); }
static u256b r256() { u256b x((ull)0); x.lo = limb(); x.mid = limb(); x.hi = l2(); return x; }
static u512b r512() { u512b x(r256()); x.lo = l2(); x.mid = l2(); x.hi = r256(); return x; }
static int bad = 0;
static void same(const char *what, const mpz_class &a, const mpz_class &b) { if(a != b && bad++ < 3) printf("%%s is wrong\\n", what); }
int main()
{
	init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	mpz_class P("16798108731015832284940804142231733909759579603404752749028378864165570215949"), B256 = mpz_class(1) << 256, B512 = mpz_class(1) << 512;
	(void)P; (void)B256; (void)B512;
	%s
	printf("%%s\\n", bad ? "BROKEN" : "exact");
	return bad != 0;
}
"""
seed("f01-512-greater", "F01", {PF: [("	bool u512b::operator > (const u512b &x) const\n	{\n		if(hi > x.hi)\n			return true;\n		if(hi < x.hi)\n			return false;\n		if(mid > x.mid)\n			return true;\n		if(mid < x.mid)\n			return false;\n",
                                     "	bool u512b::operator > (const u512b &x) const\n	{\n		if(hi > x.hi)\n			return true;\n		if(hi < x.hi)\n			return false;\n		if(mid > x.mid)\n			return true;\n")]},
     "two 512-bit numbers that agree in the high limb, with the middle limbs ordered against the low limbs",
     "the smaller number is called the greater one", 0,
     NUM % 'for(int i = 0; i < 20000; ++i) { u512b a = r512(), b = r512(); b.hi = a.hi; if(i % 2) b.mid = a.mid; same("512-bit comparison", a > b, Z(a) > Z(b)); }')
seed("f02-sum-of-p", "F02", {PF: [("		if(ret.value >= mod_512)\n			ret.value = ret.value + minus_mod_512;\n		return ret;\n	}\n	field_element field_element::mul_non_mod",
                                   "		if(ret.value > mod_512)\n			ret.value = ret.value + minus_mod_512;\n		return ret;\n	}\n	field_element field_element::mul_non_mod")]},
     "two field elements that add up to exactly the prime", "their sum is the prime itself instead of 0, so it differs from 0", 0,
     NUM % 'for(int i = 0; i < 20000; ++i) { field_element a, b; a.value = u512b(r256()) % mod; if(i % 2) b = field_element(0) - a; else b.value = u512b(r256()) % mod; field_element s = a + b; same("field sum", Z(s.value), (Z(a.value) + Z(b.value)) % P); }')
seed("f03-quartic", "F03", {PO: [("	return ((((a * x) + b) * x + c) * x + d) * x + e;", "	prime_field::field_element x2 = x * x;\n	return (a * x2 + b * x + c) * x2 + d * x2 + e;")]},
     "a polynomial of degree four whose linear coefficient is not 0", "the linear term is taken times the square of the point", 0,
     NUM % 'for(int i = 0; i < 200; ++i) { field_element v[6]; for(int j = 0; j < 6; ++j) v[j].value = u512b(r256()) % mod; quadruple_poly q(v[0], v[1], v[2], v[3], v[4]); same("quartic", Z(q.eval(v[5]).value), (((((Z(v[0].value) * Z(v[5].value) + Z(v[1].value)) * Z(v[5].value) + Z(v[2].value)) * Z(v[5].value) + Z(v[3].value)) * Z(v[5].value)) + Z(v[4].value)) % P); }')
seed("f03-eval-zero-lead", "F03", {PO: [("	return ((a * x) + b) * x + c;", "	if(b == prime_field::field_element(0))\n		return (a * x) * x;\n	return ((a * x) + b) * x + c;")]},
     "a quadratic whose middle coefficient is 0 and whose constant is not", "the constant is dropped", 0,
     NUM % 'field_element z(0); for(int i = 1; i < 50; ++i) { quadratic_poly q(field_element(i), i % 3 ? z : field_element(5), field_element(7 * i)); field_element x(11 + i); field_element r = field_element(i) * x * x + (i % 3 ? z : field_element(5) * x) + field_element(7 * i); if(q.eval(x) != r) ++bad; }')

# ---------------------------------------------------------------- verdict
VERD = """// the real program with verifiers whose answers follow a pattern given on the command line
#define main program_main
#include "%s"
#undef main
#include <cstring>
#include <unistd.h>
static const char *pattern;
static int turn = 0;
%s
int main(int argc, char **argv)
{
	pattern = argv[1];
	char n[16], lg[16];
	sprintf(n, "%%d", (int)strlen(pattern));
	sprintf(lg, "2");
	char *a[] = {argv[0], (char*)"/dev/null", n, lg, 0};
	return program_main(4, a);
}
"""
VB_STUB = """bool verifier::verify() { return pattern[turn++] == '1'; }
void verifier::get_prover(prover *) {}
void verifier::read_circuit_from_FILE(FILE *) { C.circuit = 0; C.total_depth = 0; }
void verifier::delete_self() {}
"""
VSCRIPT = """#!/bin/bash
# cwd /repo. exit 0: the property holds; nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -r "$work"' EXIT
clang++ -w -O1 -march=native -std=c++11 -I include -I src "$here/demo.cpp" src/traditional_gkr/prover_clogc.cpp src/linear_gkr/prime_field.cpp src/linear_gkr/polynomial.cpp -o "$work/demo" -lgmp -lgmpxx || exit 0
for p in 1 0 11 10 01 00 111 110 101 011 001 1111 1110 1101 1011 0111 0011 1001; do
	out=$(cd "$work" && timeout 60 ./demo $p 2>/dev/null | tr -d '\\0')
	case $p in *0*) want=0;; *) want=1;; esac
	case "$out" in *"Verification Pass"*) got=1;; *) got=0;; esac
	if [ $got != $want ]; then echo "answers $p: program says $out"; exit 1; fi
done
exit 0
"""
BM = "src/traditional_gkr/bclogc.cpp"
seed("r01-last-copy", "R01", {BM: [("		final_result &= result;", "		final_result = result;")]},
     "several copies, of which one that is not the last is rejected", "only the last copy's verdict counts", 2,
     VERD % ("traditional_gkr/bclogc.cpp", VB_STUB), script=VSCRIPT)
seed("r01-majority", "R01", {BM: [("	bool final_result = true;", "	int accepted = 0;"), ("		final_result &= result;", "		accepted += result;"), ("	if(final_result)", "	if(accepted >= n_copy - n_copy / 4)")]},
     "four or more copies, of which one is rejected", "a single rejected copy out of four is tolerated", 2,
     VERD % ("traditional_gkr/bclogc.cpp", VB_STUB), script=VSCRIPT)

# ---------------------------------------------------------------- loading and memory
LOADED = """#include "cheat.h"
static int bad = 0;
int main(int, char **a)
{
	start();
	Pr = new prover; V = new verifier; V -> get_prover(Pr);
#if PROG == 3
	V -> set_blocks(4, 2);
	V -> read_circuit(a[1], 4);
	int copies = 4;
#else
	V -> read_circuit(a[1]);
	int copies = 1;
#endif
	FILE *f = fopen(a[1], "r");
	int d, n, ty, g, u, v;
	fscanf(f, "%d", &d);
	for(int i = 0; i < d; ++i)
	{
		fscanf(f, "%d", &n);
		for(int j = 0; j < n; ++j)
		{
			fscanf(f, "%d%d%d%d", &ty, &g, &u, &v);
			for(int b = 0; b < copies; ++b)
			{
#if PROG == 3
				gate x = V -> C.blocks[b].circuit[i].gates[j];
#else
				gate x = V -> C.circuit[i ? i + 1 : 0].gates[j];
#endif
				if(x.ty != ty || x.u != u || x.v != v)
					bad = 1, printf("layer %d gate %d copy %d: %d %d %d instead of %d %d %d\\n", i, j, b, x.ty, x.u, x.v, ty, u, v);
			}
		}
	}
	return bad;
}
"""
C_MINUS = "3\n4 3 0 7 0 3 1 11 0 3 2 5 0 3 3 2 0\n4 7 0 2 1 7 1 1 2 0 2 3 2 1 3 0 3\n2 0 0 0 1 1 1 2 3\n"
seed("m01-minus-sorted", "M01", {LV: [
    ("			if(g != previous_g + 1)\n			{\n				printf(\"Error, gates must be in sorted order, and full [0, 2^n - 1].\");\n			}\n			previous_g = g;\n			if(i != 1)\n",
     "			if(g != previous_g + 1)\n			{\n				printf(\"Error, gates must be in sorted order, and full [0, 2^n - 1].\");\n			}\n			previous_g = g;\n			if(i != 1 && (ty == 7 || ty == 8) && u > v)\n				std::swap(u, v); //the lower wire first\n			if(i != 1)\n")]},
    "a minus gate whose first wire has the higher number",
    "the wires of the gate are exchanged while loading, so the circuit proved subtracts the other way round", 1, LOADED, C_MINUS)
seed("m01-last-copy-relay", "M01", {BV: [
    ("				C.blocks[blk_id].circuit[i].gates[g] = gate(ty, u, v);\n", "				C.blocks[blk_id].circuit[i].gates[g] = (blk_id && u == v) ? C.blocks[0].circuit[i].gates[u] : gate(ty, u, v);\n")]},
    "several copies of a circuit with a gate whose two wires are the same",
    "all copies but the first get another gate of the layer in its place", 3, LOADED, "3\n4 3 0 7 0 3 1 11 0 3 2 5 0 3 3 2 0\n4 0 0 2 1 1 1 1 2 0 2 3 2 1 3 0 0\n2 0 0 0 1 1 1 2 3\n")
ASAN = """#!/bin/bash
# cwd /repo. exit 0: the property holds; nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -r "$work"' EXIT
clang++ -w -O1 -g -fsanitize=address -march=native -std=c++11 -I include %s src/linear_gkr/prime_field.cpp src/linear_gkr/polynomial.cpp -o "$work/prog" -lgmp -lgmpxx || exit 0
cd "$work"
cp "$here/circuit.txt" test_circuit.txt
export ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0
timeout 250 ./prog %s >out 2>err
grep -q "AddressSanitizer" err && { grep -m1 "AddressSanitizer" err; exit 1; }
exit 0
"""
A_LIN = ASAN % ("src/linear_gkr/main_fast_track.cpp src/linear_gkr/verifier_fast_track.cpp src/linear_gkr/prover_fast_track.cpp", "test_circuit.txt")
A_BC = ASAN % ("src/traditional_gkr/bclogc.cpp src/traditional_gkr/verifier_traditional.cpp src/traditional_gkr/prover_clogc.cpp", "test_circuit.txt 2 1")
A_BCC = ASAN % ("src/traditional_gkr/bc_clogc.cpp src/traditional_gkr/verifier_bc_clogc.cpp src/traditional_gkr/prover_bc_clogc.cpp", "test_circuit.txt 4 2")
C_ONE = "4\n4 3 0 7 0 3 1 11 0 3 2 5 0 3 3 2 0\n2 1 0 0 1 0 1 2 3\n1 0 0 0 1\n1 1 0 0 0\n"
C_WIDE = "3\n2 3 0 7 0 3 1 11 0\n2 0 0 0 1 1 1 0 1\n16 " + " ".join("%d %d %d %d" % (i % 2, i, i % 2, (i >> 1) % 2) for i in range(16)) + "\n"
seed("m02-one-gate", "M02", {LV: [
    ("			if(n == 1)\n				C.circuit[i].gates = new gate[2];\n			else\n				C.circuit[i].gates = new gate[n];\n		}\n		else\n		{\n			if", "			C.circuit[i].gates = new gate[n];\n		}\n		else\n		{\n			if")]},
    "a layer with a single gate",
    "the padding gate of a one-gate layer is written behind the end of the layer's gate table", 0, None, script=A_LIN, files={"circuit.txt": C_ONE})
seed("m02-wide-output", "M02", {TV: [
    ("		if(C.circuit[i].bit_length > max_bit_length)\n", "		if(i + 1 < d && C.circuit[i].bit_length > max_bit_length)\n")]},
    "a circuit whose output layer is wider than every other layer",
    "the shared tables are too small for the output layer", 0, None, script=A_BC, files={"circuit.txt": C_WIDE})
# ---- parallel prover (P01)
PV, PP = "src/linear_gkr/verifier_fast_para_track.cpp", "src/linear_gkr/prover_fast_para_track.cpp"
PARA_SRC = "src/linear_gkr/main_fast_para_track.cpp src/linear_gkr/verifier_fast_para_track.cpp src/linear_gkr/prover_fast_para_track.cpp"
TSAN = """#!/bin/bash
# cwd /repo. exit 0: the property holds; nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -r "$work"' EXIT
clang++ -w -O1 -g -fsanitize=thread -march=native -std=c++11 -I include %s src/linear_gkr/prime_field.cpp src/linear_gkr/polynomial.cpp -o "$work/prog" -lgmp -lgmpxx -lpthread || exit 0
cd "$work"
cp "$here/circuit.txt" test_circuit.txt
for k in 1 2 3; do
	timeout 80 ./prog >out 2>err
	grep -q "WARNING: ThreadSanitizer: data race" err && { grep -m1 -A8 "data race" err; exit 1; }
done
exit 0
""" % PARA_SRC
PARA_RUN = """#!/bin/bash
# cwd /repo. exit 0: the property holds; nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -r "$work"' EXIT
clang++ -w -O2 -march=native -std=c++11 -I include %s src/linear_gkr/prime_field.cpp src/linear_gkr/polynomial.cpp -o "$work/prog" -lgmp -lgmpxx -lpthread || exit 0
cd "$work"
cp "$here/circuit.txt" test_circuit.txt
timeout 200 ./prog >out 2>err
grep -q "Verification pass" err && exit 0
grep -m1 "Verification fail" err
exit 1
""" % PARA_SRC


def layers(*ls):
    return "%d\n" % len(ls) + "".join("%d %s\n" % (len(l), " ".join("%d %d %d %d" % g for g in [(t, i, u, v) for i, (t, u, v) in enumerate(l)])) for l in ls)


C_FAN = layers([(3, 3 * i + 1, 0) for i in range(16)], [(i % 2, 5, i) for i in range(16)], [(i % 2, 2 * i, 2 * i + 1) for i in range(8)])
C_DEEP = layers([(3, 3 * i + 1, 0) for i in range(16)], [((i // 2) % 2, i, 15 - i) for i in range(16)], [(i % 2, 2 * i, 2 * i + 1) for i in range(8)], [(1 - i % 2, 2 * i, 2 * i + 1) for i in range(4)])
C_NARROW = layers([(3, 9, 0), (3, 4, 0)], [(0, 0, 1), (1, 0, 1)], [(1, 0, 1), (0, 0, 1)])
GFU = "		if(p -> C.circuit[p -> sumcheck_layer_id].u_gates.find(i) != p -> C.circuit[p -> sumcheck_layer_id].u_gates.end())\n		{\n			int sz = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i].size();\n			for(int j = 0; j < sz; ++j)\n			{\n				int u = i;\n				int g = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].second.first;\n				int v = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].second.second;\n				int ty = p -> C.circuit[p -> sumcheck_layer_id].u_gates[i][j].first;\n"
seed("p01-by-right-wire", "P01", {PP: [(GFU, GFU.replace("u_gates", "v_gates").replace("int u = i;", "int v = i;").replace("int v = p ->", "int u = p ->"))]},
     "a layer where gates with right wires of different workers share their left wire, and the workers overlapping in time",
     "the first phase walks the lists by right wire, so two workers add to the entry of the shared left wire", 0, None, script=TSAN, files={"circuit.txt": C_FAN})
seed("p01-collect-first", "P01", {PP: [
    ("		threads[i].join();\n	for(int i = 0; i < NUM_THREADS; ++i)\n		ret = ret + rets[i];\n	\n", "	{\n		ret = ret + rets[i];\n		threads[i].join();\n	}\n	\n")]},
    "a worker that is not finished when its result is read",
    "each worker's partial result is added before the worker is joined", 0, None, script=TSAN, files={"circuit.txt": C_DEEP})
seed("p01-stale-share", "P01", {PP: [
    ("	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i] = std::thread(phase1_update_func, this, i, total_uv, current_bit, previous_random);\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i].join();\n",
     "	int used = total_uv >> 1 < NUM_THREADS ? total_uv >> 1 : NUM_THREADS;\n	for(int i = 0; i < used; ++i)\n		threads[i] = std::thread(phase1_update_func, this, i, total_uv, current_bit, previous_random);\n	for(int i = 0; i < used; ++i)\n		threads[i].join();\n")]},
    "a round with fewer entries than workers after a round with more",
    "idle workers are not started but their results of an earlier round are still added", 0, None, script=PARA_RUN, files={"circuit.txt": C_DEEP})
seed("p01-small-table", "P01", {PP: [
    ("	int bs = (total_uv >> 1) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = bs * id;\n", "	int bs = (total_uv >> 1) / NUM_THREADS;\n	int st = bs * id;\n")]},
    "a table with fewer entries than workers",
    "no worker handles any entry of such a table in the second phase", 0, None, script=PARA_RUN, files={"circuit.txt": C_NARROW})

C_SQUARE = layers([(3, 3 * i + 1, 0) for i in range(8)], [(1, i, i) if i % 2 else (0, i, i - 1 + 2 * (i == 0)) for i in range(8)], [(i % 2, 2 * i, 2 * i + 1) for i in range(4)])
seed("h01-parallel-square", "H01", {PP: [
    ("				if(ty == 1)\n				{\n					p -> add_mult_sum[u]", "				else if(ty == 1 && u != v)\n				{\n					p -> add_mult_sum[u]")]},
    "a multiplication gate with the same wire twice, in the parallel program",
    "the gate is left out of the first-phase tables, so an honest proof is rejected", 0, None, script=PARA_RUN, files={"circuit.txt": C_SQUARE})
seed("m01-list-distinct", "M01", {PV: [
    ("			C.circuit[i].v_gates[v].push_back(std::make_pair(ty, std::make_pair(g, u)));\n", "			if(u != v)\n				C.circuit[i].v_gates[v].push_back(std::make_pair(ty, std::make_pair(g, u)));\n")]},
    "a gate with the same wire twice, in the parallel program",
    "the gate is listed under its left wire only, so an honest proof is rejected", 0, None, script=PARA_RUN, files={"circuit.txt": C_SQUARE})

GEN = "bin/gen.cpp"
# reads the written circuit by the grammar of circuit files
WF = r"""import sys
t = [int(x) for x in open(sys.argv[1]).read().split()]
def bad(s):
    print(sys.argv[2:], s); sys.exit(1)
p = 0
def nxt():
    global p
    if p >= len(t): bad("the file ends early")
    p += 1
    return t[p - 1]
widths = []
for i in range(nxt()):
    n = nxt()
    if n < 1 or n & (n - 1): bad("layer %d has %d gates" % (i, n))
    for j in range(n):
        ty, g, u, v = nxt(), nxt(), nxt(), nxt()
        if g != j: bad("layer %d: gate %d is numbered %d" % (i, j, g))
        if (i == 0) != (ty in (2, 3)): bad("layer %d: gate of type %d" % (i, ty))
        if i and ty != 5 and not (0 <= u < widths[-1] and 0 <= v < widths[-1]): bad("layer %d: wires %d %d" % (i, u, v))
        if i and ty == 5 and not 0 <= u <= v <= widths[-1]: bad("layer %d: range %d %d" % (i, u, v))
    widths.append(n)
if p != len(t): bad("the file goes on after its last layer")
if len(sys.argv) > 2:
    m = [int(x) for x in open(sys.argv[2]).read().split()]
    if len(m) != 5 * len(widths): bad("block description")
    for i, n in enumerate(widths):
        a, b, la, lb = m[5 * i:5 * i + 4]
        if a * b != n or 1 << la != a or 1 << lb != b: bad("blocks of layer %d: %d %d %d %d" % (i, a, b, la, lb))
"""
GENSH = r"""#!/bin/bash
# cwd /repo. exit 0: the property holds; nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -r "$work"' EXIT
g++ -w -O1 bin/gen.cpp -o "$work/gen" || exit 0
cd "$work"
for a in "0 2 4" "0 5 3" "0 3 1" "1 4 6" "1 2 14" "1 3 17" "2 1" "2 2" "2 4" "2 64" "4 1" "4 8" "5 2 3" "5 4 2"; do
	rm -f meta_data.txt
	./gen $a > c.txt
	m=; [ -f meta_data.txt ] && m=meta_data.txt
	python3 "$here/wf.py" c.txt $m || { echo "gen $a"; exit 1; }
done
exit 0
"""


def gseed(id, edits, needs, breaks):
    seed(id, "G02", {GEN: edits}, needs, breaks, 0, None, script=GENSH, files={"wf.py": WF})


gseed("g02-three-layers", [('		sscanf(argv[3], "%d", &w);\n		printf("%d\\n", d);\n		int n = (1 << w);\n		printf("%d ", n);\n		for(int j = 0; j < n; ++j)\n		{\n			printf("%d %d %d %d ", 3, j, rand(), 0);',
                           '		sscanf(argv[3], "%d", &w);\n		printf("%d\\n", d < 3 ? 3 : d);\n		int n = (1 << w);\n		printf("%d ", n);\n		for(int j = 0; j < n; ++j)\n		{\n			printf("%d %d %d %d ", 3, j, rand(), 0);')],
      "a simple circuit of depth two", "the header announces at least three layers, but for depth two only two are written")
gseed("g02-many-blocks", [("		int block_number = (1 << (w - 5));\n", "		int block_number = (1 << (w - 5));\n		if(block_number > 256)\n			block_number = 256;\n")],
      "a blocked circuit of width 2^14 or more", "the number of blocks is capped, but the logarithms written in the block description are those of the uncapped number")
gseed("g02-matrix-64", [("int id = i * mat_sz * mat_sz + j * mat_sz + k;\n					str_length", "int id = (i * mat_sz + j) * mat_sz + (k & 31);\n					str_length")],
      "a matrix of size 64 or more", "gate numbers of the multiplication layer repeat after 32 products")
