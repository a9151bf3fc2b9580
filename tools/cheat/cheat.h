// A dishonest prover wrapped around the repository's own prover (ld --wrap), so verifier and honest
// prover are the repository's objects. It may claim a wrong output and then shifts every round
// polynomial by a constant that keeps the running claim consistent, up to a chosen point (stop_*).
// Compile with -DPROG=1 (linear), 2 (bclogc), 3 (bc_clogc).
#include <cstdio>
#include <cstdlib>
#if PROG == 1
#include "linear_gkr/verifier_fast_track.h"
#include "linear_gkr/prover_fast_track.h"
#elif PROG == 2
#include "traditional_gkr/verifier_traditional.h"
#include "traditional_gkr/prover_clogc.h"
#else
#include "traditional_gkr/verifier_bc_clogc.h"
#include "traditional_gkr/prover_bc_clogc.h"
#endif
#include "linear_gkr/prime_field.h"
typedef prime_field::field_element F;
typedef std::pair<F, F> FF;

// ---- the cheat's state; a demo sets what it needs before run()
static F inv2, off(0);
static int cur_layer = -1, cur_phase, top_layer;
static int out_pos = -1;                                 // output position claimed wrongly (-1: none)
static F out_delta(0);
static int stop_layer = 0, stop_phase = 9, stop_round = 0; // from there on honest
static int swap_layer = -1;                                // in this layer the two closing values are shifted by +swap, -swap
static F swap_d(0), d_u(0), d_v(0);
static void (*on_layer)(prover *, int layer) = 0;
static void (*on_phase2)(prover *, const F *r_u, const F *one_minus_r_u) = 0;
static void (*on_final)(prover *) = 0;

static bool honest_now(int phase, int round)
{
	if(cur_layer != stop_layer) return cur_layer < stop_layer;
	if(phase != stop_phase) return phase > stop_phase;
	return round >= stop_round;
}
static F shift(int phase, int round)
{
	if(honest_now(phase, round)) { off = F(0); return off; }
	off = off * inv2;   // p(0)+p(1) grows by twice the constant
	return off;
}
extern "C" {
F *__real__ZN6prover8evaluateEv(prover *);
F *__wrap__ZN6prover8evaluateEv(prover *p)
{
	F *r = __real__ZN6prover8evaluateEv(p);
#if PROG == 3
	top_layer = p -> C.blocks[0].total_depth - 1;
#else
	top_layer = p -> C.total_depth - 1;
	int n = 1 << p -> C.circuit[top_layer].bit_length;
	F *q = new F[n];
	for(int i = 0; i < n; ++i) q[i] = r[i];
	r = q;
#endif
	if(out_pos >= 0) r[out_pos] = r[out_pos] + out_delta;
	return r;
}
static F eq_at(const F *r, const F *omr, int n, int pos)
{
	F e(1);
	for(int i = 0; i < n; ++i) e = e * ((pos >> i & 1) ? r[i] : omr[i]);
	return e;
}
#if PROG == 3
void __real__ZN6prover13sumcheck_initEiiiiiRKN11prime_field13field_elementES3_PS2_S4_S4_PS1_S5_S5_(prover *, int, int, int, int, int, const F &, const F &, const F *, const F *, const F *, F *, F *, F *);
void __wrap__ZN6prover13sumcheck_initEiiiiiRKN11prime_field13field_elementES3_PS2_S4_S4_PS1_S5_S5_(prover *p, int layer, int lb, int lg, int lu, int lv, const F &a, const F &b, const F *rb, const F *r0, const F *r1, F *ob, F *o0, F *o1)
{
	if(layer == top_layer && out_pos >= 0)
		off = out_delta * a * eq_at(r0, o0, lg, out_pos & ((1 << lg) - 1)) * eq_at(rb, ob, lb, out_pos >> lg);
	else off = a * d_u + b * d_v;
	d_u = d_v = F(0);
	cur_layer = layer;
	if(on_layer) on_layer(p, layer);
	__real__ZN6prover13sumcheck_initEiiiiiRKN11prime_field13field_elementES3_PS2_S4_S4_PS1_S5_S5_(p, layer, lb, lg, lu, lv, a, b, rb, r0, r1, ob, o0, o1);
}
cubic_poly __real__ZN6prover22sumcheck_phase0_updateEN11prime_field13field_elementEi(prover *, F, int);
cubic_poly __wrap__ZN6prover22sumcheck_phase0_updateEN11prime_field13field_elementEi(prover *p, F r, int b)
{
	cubic_poly q = __real__ZN6prover22sumcheck_phase0_updateEN11prime_field13field_elementEi(p, r, b);
	q.d = q.d + shift(0, b);
	return q;
}
#else
void __real__ZN6prover13sumcheck_initEiiiiRKN11prime_field13field_elementES3_PS2_S4_PS1_S5_(prover *, int, int, int, int, const F &, const F &, const F *, const F *, F *, F *);
void __wrap__ZN6prover13sumcheck_initEiiiiRKN11prime_field13field_elementES3_PS2_S4_PS1_S5_(prover *p, int layer, int lg, int lu, int lv, const F &a, const F &b, const F *r0, const F *r1, F *o0, F *o1)
{
	if(layer == top_layer && out_pos >= 0)
		off = out_delta * a * eq_at(r0, o0, lg, out_pos);
	else off = a * d_u + b * d_v;
	d_u = d_v = F(0);
	cur_layer = layer;
	if(on_layer) on_layer(p, layer);
	__real__ZN6prover13sumcheck_initEiiiiRKN11prime_field13field_elementES3_PS2_S4_PS1_S5_(p, layer, lg, lu, lv, a, b, r0, r1, o0, o1);
}
#endif
quadratic_poly __real__ZN6prover22sumcheck_phase1_updateEN11prime_field13field_elementEi(prover *, F, int);
quadratic_poly __wrap__ZN6prover22sumcheck_phase1_updateEN11prime_field13field_elementEi(prover *p, F r, int b)
{
	quadratic_poly q = __real__ZN6prover22sumcheck_phase1_updateEN11prime_field13field_elementEi(p, r, b);
	q.c = q.c + shift(1, b);
	return q;
}
#if PROG != 3
void __real__ZN6prover20sumcheck_phase2_initEN11prime_field13field_elementEPKS1_S3_(prover *, F, const F *, const F *);
void __wrap__ZN6prover20sumcheck_phase2_initEN11prime_field13field_elementEPKS1_S3_(prover *p, F r, const F *a, const F *b)
{
	__real__ZN6prover20sumcheck_phase2_initEN11prime_field13field_elementEPKS1_S3_(p, r, a, b);
	if(PROG == 1 && cur_layer == swap_layer) p -> v_u = p -> v_u + swap_d;
	if(on_phase2) on_phase2(p, a, b);
}
#endif
quadratic_poly __real__ZN6prover22sumcheck_phase2_updateEN11prime_field13field_elementEi(prover *, F, int);
quadratic_poly __wrap__ZN6prover22sumcheck_phase2_updateEN11prime_field13field_elementEi(prover *p, F r, int b)
{
	quadratic_poly q = __real__ZN6prover22sumcheck_phase2_updateEN11prime_field13field_elementEi(p, r, b);
	q.c = q.c + shift(2, b);
	return q;
}
FF __real__ZN6prover17sumcheck_finalizeEN11prime_field13field_elementE(prover *, F);
FF __wrap__ZN6prover17sumcheck_finalizeEN11prime_field13field_elementE(prover *p, F r)
{
	FF c = __real__ZN6prover17sumcheck_finalizeEN11prime_field13field_elementE(p, r);
	if(honest_now(3, 0)) off = F(0);
	if(on_final) on_final(p);
	if(cur_layer == swap_layer)
	{
#if PROG != 1
		c.first = c.first + swap_d;
#endif
		c.second = c.second - swap_d;
		d_u = swap_d; d_v = F(0) - swap_d;
	}
	return c;
}
}
static void start()
{
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	inv2.value = prime_field::u512b("8399054365507916142470402071115866954879789801702376374514189432082785107975", 76, 10);
	out_delta = F(5);
}
static verifier *V;
static prover *Pr;
static bool run(const char *path, int copies = 1, int log_copies = 0)
{
	cur_layer = -1;
	Pr = new prover;
	V = new verifier;
	V -> get_prover(Pr);
#if PROG == 1
	V -> read_circuit(path);
#elif PROG == 2
	FILE *f = fopen(path, "r");
	V -> read_circuit_from_FILE(f);
	fclose(f);
#else
	V -> set_blocks(copies, log_copies);
	V -> read_circuit(path, copies);
#endif
	Pr -> total_time = 0;
	Pr -> get_circuit(V -> C);
	return V -> verify();
}
