"""H01: the linear-time prover's round messages and closing values.

The prover's entry points are interpreted in the order the protocol calls them (layer set-up, phase
one set-up, a first and a general round, phase two set-up, ...).  The working tables are found by what
they hold, not by name, and every table cell, round message and closing value is compared with the
sumcheck polynomial of the layer equation.
"""
import itertools
import term as t_
from term import (A, P, PA, T, F, ZERO, ONE, FZERO, FONE, KEYS, RANGES, beq, ind, subst, mk_sum, mk_eqp, p2, lift, is_nonneg,
                  blt, bnot, band_)
from interp import Interp, LV, Ptr, St, Content, Layer
from gkr import Ob, Circuit, opaque_atoms, GATES_LINEAR
from evalcheck import sym
from frontend import AnalysisError

FE = "prime_field::field_element"


def region(name):
    return Ptr(("spec", name))


def cell(name, i):
    return A("sel", ("in", "spec", name, "[]"), (lift(i),), f=True)


def one_minus(mem, name, src, n):
    z = A("bvtmp", ("om", name))
    RANGES[z.single_atom()] = (ZERO, n)
    mem[("spec", name, "[]")] = Content(("in", "spec", name, "[]"), [Layer("set", [(z.single_atom(), ZERO, n)], T, (z,), FONE - cell(src, z))])


class Base:
    prop = "H01"

    def __init__(self, prog, which):
        self.prog, self.which = prog, which
        self.cir = Circuit(which)
        self.obs = []
        self.units = {}

    def interp(self):
        return Interp(self.prog)

    def run_fn(self, name, args=None, mem=None):
        fn = self.prog.func(name)
        self.fn = fn
        I = self.interp()
        fr, st = I.run(fn, args, None, mem)
        self.units[name] = {"loops_summarised": len(I.loops)}
        return I, fr, st

    def ob(self, id, ok, what, detail="", fn=None, line=None):
        st = {True: "ok", False: "violated", None: "undecided"}[ok]
        fn = fn or self.fn
        self.obs.append(Ob("%s:prove-%s" % (self.which, id), (self.prop,), st, what, fn.file, line or fn.line, detail))
        return ok

    def eq(self, id, got, wants, what, fn=None):
        if not isinstance(wants, list):
            wants = [wants]
        if not isinstance(got, P):
            return self.ob(id, None, what, "value %r" % (got,), fn)
        for w in wants:
            if (got - w).is_zero():
                return self.ob(id, True, what, "", fn)
        opq = opaque_atoms(got)
        if opq:
            return self.ob(id, None, what, "not followed: " + ", ".join(t_.show_atom(a)[:80] for a in opq[:3]), fn)
        return self.ob(id, False, what, "difference " + min((t_.show(got - w) for w in wants), key=len)[:500], fn)


class LinearProver(Base):
    GATES, EXTRA = GATES_LINEAR, (4, 5)

    def kept(self, st, su):
        """what the rounds of a phase leave as it is"""
        return {s: c for s, c in st.mem.items() if su.mem.get(s) == c}

    def now(self, I, st, t):
        """the table a name stands for"""
        return t

    def run(self):
        cir = self.cir
        lay = sym("lay", 1, cir.D)
        self.lay = lay
        n, m = cir.bl(lay), cir.bl(lay - 1)
        self.n, self.m = n, m
        RANGES[m.single_atom()] = (ONE, None) if False else RANGES.get(m.single_atom(), (ONE, lift(60)))
        self.al, self.be = A("sel", ("in", "spec", "alpha"), (), f=True), A("sel", ("in", "spec", "beta"), (), f=True)
        mem = {}
        one_minus(mem, "o0", "r0", n)
        one_minus(mem, "o1", "r1", n)
        one_minus(mem, "ou", "ru", m)
        # layer set-up
        I, fr, st = self.run_fn("prover::sumcheck_init",
                                [lay, n, m, m, self.al, self.be, region("r0"), region("r1"), region("o0"), region("o1")], mem)
        base = dict(st.mem)
        # phase 1
        I1, fr, st1 = self.run_fn("prover::sumcheck_phase1_init", None, dict(base))
        f1 = self.fn
        self.phase(1, I1, st1, f1, base, "prover::sumcheck_phase1_update")
        self.phase_two(st1)
        return self.obs

    # ---- tables
    def tables(self, st):
        """shapes ending in [] with two field cells a, b"""
        out = []
        for s in st.mem:
            if s[0] == "this" and s[-1] == "b" and s[-2] == "[]" and s[:-1] + ("a",) in st.mem:
                out.append(s[:-1])
        return out

    def get(self, I, st, shape, i):
        return I.load(st, LV(shape, (lift(i),), FE))

    def Vprev(self, x):
        return A("sel", ("in", "this", "circuit_value", "[]", "[]"), (self.lay - 1, lift(x)), f=True)

    def beta_g(self, g):
        z = A("bvtmp", ("spec", "bg"))
        RANGES[z.single_atom()] = (ZERO, self.n)
        tot = FZERO
        for c, r in ((self.al, "r0"), (self.be, "r1")):
            tot = tot + c * mk_eqp(z.single_atom(), cell(r, z), FONE - cell(r, z), self.n, lift(g))
        return tot

    def eq_u(self, x):
        z = A("bvtmp", ("spec", "bu"))
        RANGES[z.single_atom()] = (ZERO, self.m)
        return mk_eqp(z.single_atom(), cell("ru", z), FONE - cell("ru", z), self.m, lift(x))

    def lin(self, G, first):
        """G(x, y) as (slope, constant) in the variable of this phase, given the other value"""
        def f(other):
            if first:
                c, d = G(FZERO, other), G(FONE, other)
            else:
                c, d = G(other, FZERO), G(other, FONE)
            return d - c, c
        return f

    def gsum(self, body):
        g = A("bvtmp", ("spec", "gate"))
        RANGES[g.single_atom()] = (ZERO, p2(self.n))
        return mk_sum(g.single_atom(), ZERO, p2(self.n), body(g))

    def spec_tables(self, first, x, vu=None):
        """two lists of alternatives: multiplier and addend tables at x"""
        cir, lay = self.cir, self.lay
        alts = [[], []]

        def add(*fs):
            for k in (0, 1):
                alts[k].append([self.gsum(f[k]) for f in fs])

        def per(k, G, sel=None, bg=None):
            lin = self.lin(G, first)

            def part(which):
                def body(g):
                    ty, u, v = (cir.gate(f, lay, g) for f in ("ty", "u", "v"))
                    w = bg(g, u) if bg else self.beta_g(g)
                    here = sel(g, u, v) if sel else ind(beq((u if first else v) - x))
                    if first:
                        val = lin(self.Vprev(v))[which]
                    else:
                        val = lin(vu)[which] * self.eq_u(u)
                    return ind(beq(ty - k)) * w * here * val
                return body
            return part(0), part(1)

        for k, G in self.GATES.items():
            o = [per(k, G)]
            if not first and k in (6, 10):
                o.append(per(k, G, sel=lambda g, u, v: ind(beq(lift(x)))))
            add(*o)
        if first and 4 in self.EXTRA:
            add(*[per(4, lambda a, b: a, bg=f) for f in (lambda g, u: self.beta_g(u), lambda g, u: self.beta_g(g), lambda g, u: self.beta_g(x))])

        def rng(which):
            def body(g):
                ty, u, v = (cir.gate(f, lay, g) for f in ("ty", "u", "v"))
                j = sym("rj", u, v)
                if first:
                    if which:
                        return FZERO
                    inner = mk_sum(j.single_atom(), u, v, ind(beq(j - x)))
                    return ind(beq(ty - 5)) * self.beta_g(g) * inner
                if not which:
                    return FZERO
                inner = mk_sum(j.single_atom(), u, v, self.eq_u(j))
                return ind(beq(ty - 5)) * self.beta_g(g) * inner * vu * ind(beq(lift(x)))
            return body

        def rng2(which):
            def body(g):
                ty, u, v = (cir.gate(f, lay, g) for f in ("ty", "u", "v"))
                if which:
                    return FZERO
                return ind(beq(ty - 5)) * self.beta_g(g) * ind(band_([bnot(blt(x - u)), blt(x - v)]))
            return body
        if 5 in self.EXTRA:
            add(*([(rng(0), rng(1)), (rng2(0), rng2(1))] if first else [(rng(0), rng(1))]))
        out = []
        for k in (0, 1):
            out.append([sum(c, FZERO) for c in itertools.product(*alts[k])])
            uniq = []
            for c in out[k]:
                if not any((c - d).is_zero() for d in uniq):
                    uniq.append(c)
            out[k] = uniq
        return out

    # ---- one phase
    def phase(self, k, I, st, f, base, upd, vu=None):
        x = sym("x", 0, p2(self.m))
        fu = self.prog.func(upd)
        tabs = self.tables(st)
        Vt = [t for t in tabs if isinstance(self.get(I, st, t + ("b",), x), P) and (self.get(I, st, t + ("b",), x) - self.Vprev(x)).is_zero()]
        rest = [t for t in tabs if t not in Vt]
        if len(Vt) != 1 or len(rest) != 2:
            # fall back on what the first phase found
            if k == 2 and self.roles and all(t in tabs for t in self.roles):
                cands = [self.roles]
            elif len(tabs) == 3:
                cands = list(itertools.permutations(tabs))
            else:
                self.ob("phase%d-tables" % k, None, "the three working tables are recognised", repr(tabs)[:200], f)
                return
        else:
            cands = [(Vt[0], rest[0], rest[1]), (Vt[0], rest[1], rest[0])]
        best = None
        saved = self.obs
        for c in cands:
            self.obs = []
            self.phase_roles(k, I, st, f, base, fu, c, x, vu)
            score = sum(o.status == "ok" for o in self.obs)
            if best is None or score > best[0]:
                best = (score, self.obs, c)
        self.obs = saved + best[1]
        self.roles = best[2]

    roles = None

    @staticmethod
    def overwritten(I, shp):
        """the line where a loop over gates sets the entry of a gate's wire to something that depends on the gate, whatever was there"""
        for key, r in I.loops.items():
            for L in r.W.get(shp) or ():
                if L.kind != "set" or L.binders or not isinstance(L.val, P) or not r.affine or r.breaks:
                    continue
                own = lambda x: any(KEYS[a][0] in ("phi", "aphi") or (KEYS[a][0] == "sel" and isinstance(KEYS[a][1], tuple) and KEYS[a][1][:1] == ("phi",)) for a in t_.deps_of(x))
                if own(L.val) or own(L.guard) or any(own(x) for x in L.idx) or opaque_atoms(L.val):
                    continue
                wire = L.idx[-1].single_atom() if isinstance(L.idx[-1], P) else None
                val = subst(L.val, {wire: A("bvtmp", ("spec", "wire"))}) if wire is not None and wire != r.bv else L.val
                if wire != r.bv and r.bv in val.deps() and (wire is None or KEYS[wire][0] in ("sel", "bv")):
                    return L.line or r.line
        return None

    def phase_roles(self, k, I, st, f, base, fu, roles, x, vu):
        first = k == 1
        V, M, Ad = roles
        self.eq("phase%d-V" % k, self.get(I, st, V + ("b",), x), self.Vprev(x), "the value table is the row below, at every position", f)
        ms, as_ = self.spec_tables(first, x, vu)
        for nm, t in (("M", M), ("A", Ad)):
            w = self.overwritten(I, t + ("b",)) if opaque_atoms(lift(self.get(I, st, t + ("b",), x))) else None
            if w is not None:
                self.ob("phase%d-%s-shares" % (k, nm), False, "the shares of gates with a common wire are added up", "a later gate's share replaces the earlier ones", f, w)
        self.eq("phase%d-M" % k, self.get(I, st, M + ("b",), x), ms, "the multiplier table sums, over all gates, weight times the gate's slope, at every position", f)
        self.eq("phase%d-A" % k, self.get(I, st, Ad + ("b",), x), as_, "the addend table sums, over all gates, weight times the gate's constant part, at every position", f)
        # rounds: first, then any later one
        sizes = []
        for s, c in st.mem.items():
            if s[0] == "this" and len(s) == 2 and len(c.layers) >= 1 and not c.layers[-1].idx and isinstance(c.layers[-1].val, P) \
                    and (c.layers[-1].val - p2(self.m)).is_zero() and not c.layers[-1].binders:
                sizes.append(s)
        for tag, j in (("first", ZERO), ("later", sym("bit", 1, self.m))):
            mem = dict(base)
            for s in sizes:
                mem[s] = Content(("in",) + s, [Layer("set", [], T, (), p2(self.m - j))])
            prev = cell("prev", 0)
            Iu = self.interp()
            fr, su = Iu.run(fu, [prev, j], None, mem)
            self.units[fu.qname + "/" + tag] = {"loops_summarised": len(Iu.loops)}
            i = sym("i", 0, p2(self.m - j - 1))
            old = lambda t, q, p: A("sel", ("in",) + t + (q,), (lift(p),), f=True)
            new = {}
            for nm, t in (("V", V), ("M", M), ("A", Ad)):
                if tag == "first":
                    ev = lambda p, t=t: old(t, "b", p)
                else:
                    ev = lambda p, t=t: old(t, "a", p) * prev + old(t, "b", p)
                new[nm] = lambda p, ev=ev: (ev(2 * p + 1) - ev(2 * p), ev(2 * p))
                for q, w in zip("ab", new[nm](i)):
                    got = self.get(Iu, su, self.now(Iu, su, t) + (q,), i)
                    if tag == "first":
                        got = self.drop_a(got, st, I, t, (V, M, Ad))
                    self.eq("phase%d-%s-round-%s.%s" % (k, tag, nm, q), got, w,
                            "a round folds the tables at the previous challenge, for every pair of entries", fu)
            for s in sizes:
                got = Iu.load(su, LV(s, (), "int"))
                self.eq("phase%d-%s-round-size" % (k, tag), got, p2(self.m - j - 1), "each round halves the number of table entries", fu)
            z = sym("zi", 0, p2(self.m - j - 1))
            (va, vb), (ma, mb), (aa, ab) = new["V"](z), new["M"](z), new["A"](z)
            S = lambda b: mk_sum(z.single_atom(), ZERO, p2(self.m - j - 1), b)
            want = {"a": S(ma * va), "b": S(ma * vb + mb * va + aa), "c": S(mb * vb + ab)}
            ex = [e for e in fr.exits if e.kind == "return"]
            if len(ex) != 1 or not isinstance(ex[0].val, St):
                self.ob("phase%d-%s-round-poly" % (k, tag), None, "the round polynomial has a recognised form", fn=fu)
                continue
            for q in "abc":
                got = ex[0].val.d.get(q) if hasattr(ex[0].val, "d") else None
                if tag == "first":
                    got = self.drop_a(got, st, I, None, (V, M, Ad))
                self.eq("phase%d-%s-round-poly.%s" % (k, tag, q), got, want[q],
                        "the round polynomial is the sum over all remaining points of multiplier times value plus addend", fu)

    def drop_a(self, got, st, I, t, tabs):
        """first round: slopes are what the set-up left there"""
        if not isinstance(got, P):
            return got
        mp = {}
        for a in got.deps():
            kk = KEYS[a]
            if kk[0] == "sel" and isinstance(kk[1], tuple) and kk[1][-1] == "a" and kk[1][1:-1] in tabs:
                v = self.get(I, st, kk[1][1:], kk[2][0])
                if isinstance(v, P):
                    mp[a] = v
        return subst(got, mp) if mp else got

    def phase_two(self, st1):
        if self.roles is None:
            return
        V = self.roles[0]
        upd = self.prog.func("prover::sumcheck_phase1_update")
        Iu = self.interp()
        _, su = Iu.run(upd, None, None, dict(st1.mem))
        mem = self.kept(st1, su)
        prev = cell("prevu", 0)
        I2, fr, st2 = self.run_fn("prover::sumcheck_phase2_init", [prev, region("ru"), region("ou")], dict(mem))
        f2 = self.fn
        old = lambda q: A("sel", ("in",) + V + (q,), (ZERO,), f=True)
        vu = old("a") * prev + old("b")
        if ("this", "v_u") in st2.mem:
            self.eq("closing-u", I2.load(st2, LV(("this", "v_u"), (), FE)), vu, "the first closing value is the folded value table at the last challenge", f2)
        base = {s: c for s, c in mem.items()}
        self.phase(2, I2, st2, f2, {s: c for s, c in mem.items()}, "prover::sumcheck_phase2_update", vu)
        # finalize
        upd = self.prog.func("prover::sumcheck_phase2_update")
        Iu = self.interp()
        _, su = Iu.run(upd, None, None, dict(st2.mem))
        mem3 = self.kept(st2, su)
        prev2 = cell("prevv", 0)
        # the value table after the second phase's rounds is a different one
        for q in "ab":
            mem3[V + (q,)] = Content(("in", "second") + V + (q,))
        I3, fr3, st3 = self.run_fn("prover::sumcheck_finalize", [prev2], mem3)
        old2 = lambda q: A("sel", ("in", "second") + V + (q,), (ZERO,), f=True)
        vv = old2("a") * prev2 + old2("b")
        ex = [e for e in fr3.exits if e.kind == "return"]
        if len(ex) != 1 or not isinstance(ex[0].val, St):
            self.ob("closing", None, "the closing values have a recognised form")
            return
        self.eq("closing-first", ex[0].val.d.get("first"), vu, "the first closing value is the row below extended at the first phase's challenges")
        self.eq("closing-second", ex[0].val.d.get("second"), vv, "the second closing value is the row below extended at the second phase's challenges")


class ParaProver(LinearProver):
    """the same, with the work of each step shared out among threads and the gates listed by their wires"""
    GATES, EXTRA = {k: GATES_LINEAR[k] for k in (0, 1)}, ()

    def interp(self):
        I = Interp(self.prog)
        n, m = self.n.single_atom(), self.m.single_atom()
        bit = sym("bit", 1, self.m)
        ba = bit.single_atom()
        insts = [{n: a, m: b, ba: j} for a in range(6) for b in range(1, 7) for j in range(0, b)]
        I.tile = ([p2(self.n), p2(self.m), p2(self.m - 1), p2(self.m - bit - 1)], insts)
        self.interps.append(I)
        return I

    def run(self):
        cir = self.cir
        lay = sym("lay", 1, cir.D)
        self.n, self.m = cir.bl(lay), cir.bl(lay - 1)
        self.interps = []
        return LinearProver.run(self)

    def ob(self, id, ok, what, detail="", fn=None, line=None):
        why = next((I.tile_unsure for I in self.interps if I.tile_unsure), None)
        if ok is False and why:
            ok, detail = None, why
        return LinearProver.ob(self, id, ok, what, detail, fn, line)

    def now(self, I, st, t):
        c = st.mem.get(t[:-1])
        v = c.layers[-1].val if c is not None and c.layers else None
        if not isinstance(v, Ptr) or v.idx or not v.off.is_zero():
            return t
        return v.shape if v.shape[-1] == "[]" else v.shape + ("[]",)

    def eq(self, id, got, wants, what, fn=None):
        if isinstance(got, P):
            got = self.by_gate(got)
        return LinearProver.eq(self, id, got, wants, what, fn)

    # ---- gates listed by wire
    @staticmethod
    def listed(k, last):
        """(table, index) when k is this part of the lists of gates by wire"""
        if k[0] == "sel" and isinstance(k[1], tuple) and k[1][-len(last):] == last and len(k[1]) > len(last) + 1 and k[1][-len(last) - 1] in ("u_gates", "v_gates"):
            return k[1][-len(last) - 1], k[2]
        return None

    def list_sum(self, a):
        """a sum over the list of one wire: the table and the wire"""
        k = KEYS[a]
        if k[0] != "sum" or not k[1].is_zero():
            return None
        h = k[2].single_atom()
        r = self.listed(KEYS[h], ("[]", "#size")) if h is not None else None
        return r if r and len(r[1]) == 2 else None

    def over_gates(self, a, r):
        """... as a sum over the gates of the layer with that wire (each gate is listed exactly once: M01)"""
        tab, (lay, x) = r
        own, other = ("u", "v") if tab == "u_gates" else ("v", "u")
        g = A("bvtmp", ("spec", "gate"))
        RANGES[g.single_atom()] = (ZERO, p2(self.cir.bl(lay)))
        j = A("bvtmp", ("spec", "entry"))
        RANGES[j.single_atom()] = (ZERO, KEYS[a][2])
        body = subst(KEYS[a][3], {t_.own_b(a).single_atom(): j})
        mp = {}
        for b in body.deps():
            for last, val in ((("first",), self.cir.gate("ty", lay, g)), (("second", "first"), g), (("second", "second"), self.cir.gate(other, lay, g))):
                e = self.listed(KEYS[b], ("[]", "[]") + last)
                if e and e[0] == tab and list(e[1]) == [lay, x, j]:
                    mp[b] = val
        body = subst(body, mp) if mp else body
        if j.single_atom() in body.deps():
            return None
        return mk_sum(g.single_atom(), ZERO, p2(self.cir.bl(lay)), body * ind(beq(self.cir.gate(own, lay, g) - x)))

    def by_gate(self, p):
        out = P({}, p.f)
        for m, c in p.t.items():
            q, sums, absent, there = P({(): c}, p.f), [], [], []
            for a, e in m:
                k = KEYS[a]
                f = PA(a)
                if k[0] == "sum" and e == 1:
                    r = self.list_sum(a)
                    w = self.over_gates(a, r) if r else None
                    if w is not None:
                        sums.append(r)
                        f = w
                    elif k[1].is_const() and k[2].is_const() and 0 <= k[2].const() - k[1].const() <= 64:
                        f = P({}, p.f)
                        for i in range(int(k[1].const()), int(k[2].const())):
                            f = f + subst(k[3], {t_.own_b(a).single_atom(): lift(i)})
                elif k[0] == "ind" and k[1][0] in ("eq", "lt"):
                    z, some = k[1][1], False
                    if k[1][0] == "lt":
                        z, some = (z + 1, False) if (z + 1).single_atom() is not None else (-z, True)
                    h = z.single_atom()
                    r = (self.listed(KEYS[h], ("[]", "#has")) or self.listed(KEYS[h], ("[]", "#size"))) if h is not None else None
                    if r and not some:
                        absent.append(r)
                    elif r:
                        there.append((r, PA(a)))
                        continue
                for _ in range(e if e > 0 else 0):
                    q = q * f
                if e < 0:
                    q = q * P({((a, e),): 1}, p.f)
            for r, f in there:
                if r not in sums:           # with entries to sum up it is 1
                    q = q * f
            if any(r in sums for r in absent):
                continue                # nothing is listed under a wire that is not there
            out = out + q
        return out

    def kept(self, st, su):
        out = LinearProver.kept(self, st, su)
        moved = set()
        for s, c in su.mem.items():
            if s[0] == "this" and st.mem.get(s) != c and c.layers and isinstance(c.layers[-1].val, Ptr):
                moved |= {s + ("[]",), c.layers[-1].val.shape}
        return {s: c for s, c in out.items() if not any(s[:len(k)] == k for k in moved)}


# ---------------------------------------------------------------- polynomials in the round variable

def padd(x, y):
    n = max(len(x), len(y))
    x, y = x + [FZERO] * (n - len(x)), y + [FZERO] * (n - len(y))
    return [a + b for a, b in zip(x, y)]


def pmul(x, y):
    out = [FZERO] * (len(x) + len(y) - 1)
    for i, a in enumerate(x):
        for j, b in enumerate(y):
            out[i + j] = out[i + j] + a * b
    return out


class TradProver(Base):
    prop = "H02"
    G = {0: padd, 1: pmul}

    forced = ()

    def ob(self, id, ok, *a, **k):
        if self.forced and ok is not True and id not in dict(self.forced) and not (id == "phase2-V" and "phase1-V" in dict(self.forced)):
            raise AnalysisError("candidate does not fit")
        return Base.ob(self, id, ok, *a, **k)

    def run(self):
        try:
            return self.attempt()
        except Give as g:
            gid, found, cands, what = g.args
        saved, fn = list(self.obs), self.fn
        # no table holds exactly what is wanted: the one that plays its part in the rounds, if that is clear
        if not self.forced:
            good = []
            for c in cands:
                t = TradProver(self.prog, self.which)
                t.forced = ((gid, c),)
                try:
                    obs = t.run()
                except AnalysisError:
                    continue
                rest = [o for o in obs if not (o.id.endswith((":prove-" + gid, ":prove-" + gid.replace("phase1-V", "phase2-V"))) and o.status != "ok")]
                if len(rest) > 12 and all(o.status == "ok" for o in rest):
                    good.append((c, obs, t.units))
            if len(good) == 1:
                c, self.obs, self.units = good[0]
                return self.obs
        self.obs = saved
        self.ob(gid, None, what, repr(found)[:200], fn)
        return self.obs

    def attempt(self):
        cir = self.cir
        self.bc = self.which == "bc_clogc"
        self.wcache = {}
        lay = sym("lay", 1, cir.D)
        self.lay = lay
        n, m = cir.bl(lay), cir.bl(lay - 1)
        self.n, self.m, self.nb = n, m, cir.nb
        self.al, self.be = A("sel", ("in", "spec", "alpha"), (), f=True), A("sel", ("in", "spec", "beta"), (), f=True)
        mem = {}
        one_minus(mem, "o0", "r0", n)
        one_minus(mem, "o1", "r1", n)
        one_minus(mem, "ou", "ru", m)
        if self.bc:
            one_minus(mem, "ob", "rb", self.nb)
            args = [lay, self.nb, n, m, m, self.al, self.be, region("rb"), region("r0"), region("r1"), region("ob"), region("o0"), region("o1")]
        else:
            args = [lay, n, m, m, self.al, self.be, region("r0"), region("r1"), region("o0"), region("o1")]
        I, fr, st = self.run_fn("prover::sumcheck_init", args, mem)
        mem = dict(st.mem)
        self.scale = FONE
        if self.bc:
            mem = self.phase0(mem)
        self.phases(mem)
        return self.obs

    beta_g = LinearProver.beta_g
    get = LinearProver.get

    def gate(self, f, g):
        return self.cir.gate(f, self.lay, g)

    def arrays(self, st):
        return [s for s in st.mem if s[0] == "this" and s[-1] == "[]" and len(s) == 3]

    def holding(self, I, st, x, want):
        out = []
        for s in self.arrays(st):
            v = self.get(I, st, s, x)
            if isinstance(v, P) and self.live(v - want).is_zero():
                out.append(s)
        return out

    def live(self, d):
        """the difference as gates that contribute see it (a table entry of any other gate is never looked at)"""
        if not isinstance(d, P) or d.is_zero():
            return d
        ty = self.gate("ty", sym("g", 0, p2(self.n))).single_atom()
        for kk in sorted(self.G):
            r = subst(d, {ty: lift(kk)})
            if not r.is_zero():
                return r
        return FZERO

    def eqw(self, id, got, want, what, fn=None):
        if isinstance(got, P):
            d = self.live(got - want)
            got = want + d
        self.eq(id, got, want, what, fn)

    def one(self, id, I, st, x, want, what, only=None):
        found = self.holding(I, st, x, want)
        if only is not None:
            found = [s for s in found if s in only]
        if len(found) == 1:
            return found[0]
        for i, s in self.forced:
            if i == id:
                if s not in found:
                    self.eqw(id, self.get(I, st, s, x), want, what)
                return s
        cands = found or [s for s in self.arrays(st) if (only is None or s in only) and isinstance(self.get(I, st, s, x), P)
                          and self.get(I, st, s, x).f and not opaque_atoms(self.get(I, st, s, x))]
        raise Give(id, found, cands, what)

    def written(self, f, mem):
        """shapes of the prover's own state that a round of f may write"""
        if f not in self.wcache:
            rounds = self.nb if f.endswith("phase0_update") else self.m
            m0 = {s: c for s, c in mem.items() if len(s) == 2}
            out = set()
            for j in (ZERO, sym("wbit", 1, rounds)):
                I = Interp(self.prog)
                _, st = I.run(self.prog.func(f), [cell("prevw", 0), j], None, dict(m0))
                out |= {s for s, c in st.mem.items() if s[0] == "this" and c != m0.get(s, Content(("in",) + s))}
            self.wcache[f] = out
        return self.wcache[f]

    def later(self, f, mem, j):
        """state before a round of f: what rounds write is unknown, except halved sizes"""
        w = self.written(f, mem)
        out = {s: c for s, c in mem.items() if s not in w}
        halved = []
        for s in w:
            c = mem.get(s)
            if c is None or len(s) != 2 or not c.layers or c.layers[-1].binders or c.layers[-1].idx:
                continue
            v = c.layers[-1].val
            if isinstance(v, P) and (v - p2(self.m)).is_zero():
                out[s] = Content(("in",) + s, [Layer("set", [], T, (), p2(self.m - j))])
                halved.append(s)
        return out, halved

    # ---- opening sums
    def open_sums(self, p, ranges, vars_, off=False):
        """p = sum over the given ranges of a body (in whatever order): the body, in the given variables; the
        ranges that are off by a constant are noted in self.short"""
        if not ranges:
            self.leaf.add(off)
            return p
        out = P({}, True)
        for mono, c in p.t.items():
            o = off
            s = [(a, e) for a, e in mono if KEYS[a][0] == "sum"]
            if len(s) != 1 or s[0][1] != 1:
                return None
            a = s[0][0]
            k = KEYS[a]
            at = [i for i, (lo, hi) in enumerate(ranges) if (k[1] - lo).is_zero() and (k[2] - hi).is_zero()]
            if not at:
                at = [i for i, (lo, hi) in enumerate(ranges) if (k[1] - lo).is_const() and (k[2] - hi).is_const()]
                if not at:
                    return None
                o = True
                self.short.add((at[0], (k[1] - ranges[at[0]][0]).const(), (k[2] - ranges[at[0]][1]).const(), len(ranges)))
            i = at[0]
            rest = P({tuple(x for x in mono if x[0] != a): c}, True)
            inner = subst(k[3], {t_.own_b(a).single_atom(): vars_[i]})
            b = self.open_sums(inner, ranges[:i] + ranges[i + 1:], vars_[:i] + vars_[i + 1:], o)
            if b is None:
                return None
            out = out + rest * b
        return out

    def same_copy(self, p):
        """every copy has the same gates"""
        if not self.bc:
            return p
        mp = {}
        for a in p.deps():
            k = KEYS[a]
            if k[0] == "sel" and isinstance(k[1], tuple) and "gates" in k[1] and "blocks" in k[1] and not k[2][0].is_zero():
                mp[a] = A("sel", k[1], (ZERO,) + tuple(k[2][1:]))
        return subst(p, mp) if mp else p

    def compare(self, id, got, ranges, vars_, cases, want, what, fn):
        """cases: list of (label, substitution, key)"""
        if not isinstance(got, P):
            return self.ob(id, None, what, repr(got)[:200], fn)
        self.short, self.leaf = set(), set()
        body = self.open_sums(got, ranges, vars_)
        if body is not None and self.short:
            # every term sums the same shortened range, or nothing can be said
            if len(self.short) == 1 and self.leaf == {True} and not opaque_atoms(got):
                (_, dl, dh, _), = self.short
                return self.ob(id, False, what, "the sum runs from %+d to %+d of the expected range" % (dl, dh), fn)
            body = None
        if body is None:
            opq = opaque_atoms(got)
            return self.ob(id, None, what, "the message is not a sum over the expected range: " + t_.show(got)[:300], fn)
        body = self.same_copy(body)
        for label, mp, key in cases:
            x = self.same_copy(subst(body, mp))
            w = self.same_copy(subst(want(key), mp))
            d = x - w
            if not d.is_zero():
                opq = opaque_atoms(x)
                return self.ob(id, None if opq else False, what, "%s: difference %s" % (label, t_.show(d)[:400]), fn)
        return self.ob(id, True, what, "", fn)

    # ---- phase over the copies
    def phase0(self, mem):
        nb, m = self.nb, self.m
        I, fr, st = self.run_fn("prover::sumcheck_phase0_init", None, dict(mem))
        f0 = self.fn
        x = sym("x", 0, p2(m))
        k = sym("k", 0, p2(nb))
        g = sym("g", 0, p2(self.n))
        z = sym("bz", 0, nb)
        eqb = mk_eqp(z.single_atom(), cell("rb", z), FONE - cell("rb", z), nb, k)
        self.W = self.one("copies-weight", I, st, g, self.beta_g(g), "a table holds every gate's weight")
        w0 = self.written("prover::sumcheck_phase0_update", st.mem)
        self.B = B = self.one("copies-beta", I, st, k, eqb, "a table holds every copy's weight", w0)
        val = A("sel", ("in", "this", "circuit_value", "[]", "[]", "[]"), (k, self.lay - 1, x), f=True)
        self.BV = BV = self.one("copies-values", I, st, k * p2(m) + x, val, "a table holds the row below of every copy", w0)
        for i, w in (("weight", "gate"), ("beta", "copy"), ("values", "value")):
            if "copies-" + i not in dict(self.forced):
                self.ob("copies-" + i, True, "the tables of the phase over the copies hold every weight and value", "", f0)
        fu = self.prog.func("prover::sumcheck_phase0_update")
        prev = cell("prev0", 0)
        old = lambda t, p: A("sel", ("in",) + t, (lift(p),), f=True)
        for tag, j in (("first", ZERO), ("later", sym("bit0", 1, nb))):
            rm, halved = self.later(fu.qname, st.mem, j)
            for s in (B, BV):
                rm.pop(s, None)
            Iu = Interp(self.prog)
            fr, su = Iu.run(fu, [prev, j], None, rm)
            self.units[fu.qname + "/" + tag] = {"loops_summarised": len(Iu.loops)}
            c = sym("c", 0, p2(nb - j))
            if tag == "first":
                b1 = lambda p: old(B, p)
                v1 = lambda p, u: old(BV, p * p2(m) + u)
            else:
                b1 = lambda p: old(B, 2 * p) * (FONE - prev) + old(B, 2 * p + 1) * prev
                v1 = lambda p, u: old(BV, 2 * p * p2(m) + u) * (FONE - prev) + old(BV, (2 * p + 1) * p2(m) + u) * prev
            self.eq("copies-%s-round-beta" % tag, self.get(Iu, su, B, c), b1(c), "a round folds the copy weights at the previous challenge", fu)
            self.eq("copies-%s-round-values" % tag, self.get(Iu, su, BV, c * p2(m) + x), v1(c, x), "a round folds the copies' values at the previous challenge", fu)
            ex = [e for e in fr.exits if e.kind == "return"]
            if len(ex) != 1 or not isinstance(ex[0].val, St):
                self.ob("copies-%s-round-poly" % tag, None, "the round polynomial has a recognised form", "", fu)
                continue
            q = sym("q", 0, p2(nb - j - 1))
            u, v, ty = (self.gate(f, g) for f in ("u", "v", "ty"))

            def want(key, deg):
                G = self.G.get(key)
                if G is None:
                    return FZERO
                X = [v1(2 * q, u), v1(2 * q + 1, u) - v1(2 * q, u)]
                Y = [v1(2 * q, v), v1(2 * q + 1, v) - v1(2 * q, v)]
                Bp = [b1(2 * q), b1(2 * q + 1) - b1(2 * q)]
                p = [self.wg(st, I, g) * a for a in pmul(Bp, G(X, Y))]
                return p[deg] if deg < len(p) else FZERO
            cases = [("gates of type %s" % kk, {ty.single_atom(): lift(kk)}, kk) for kk in (0, 1, 2)]
            for deg, fld in enumerate("dcba"):
                self.compare("copies-%s-round-poly.%s" % (tag, fld), ex[0].val.d.get(fld), [(ZERO, p2(nb - j - 1)), (ZERO, p2(self.n))], [q, g],
                             cases, lambda key, deg=deg: want(key, deg),
                             "the round polynomial over the copies is the weighted sum of every gate of every remaining copy", fu)
        # leave the phase
        w = self.written("prover::sumcheck_phase0_update", st.mem)
        return {s: c for s, c in st.mem.items() if s not in w}

    def wg(self, st, I, g):
        return self.beta_g(g)

    # ---- phases over the wires
    def phases(self, mem):
        m = self.m
        x = sym("x", 0, p2(m))
        g = sym("g", 0, p2(self.n))
        prev = cell("prev1", 0)
        I, fr, st = self.run_fn("prover::sumcheck_phase1_init", [prev] if self.bc else None, dict(mem))
        f1 = self.fn
        upd1 = "prover::sumcheck_phase1_update"
        w1 = self.written(upd1, st.mem)
        if self.bc:
            old = lambda t, p: A("sel", ("in",) + t, (lift(p),), f=True)
            val = lambda p: (old(self.BV, p) * (FONE - prev) + old(self.BV, p2(m) + p) * prev)
            Bv = old(self.B, ZERO) * (FONE - prev) + old(self.B, ONE) * prev
            W0 = self.W
            sc = [s for s in st.mem if s[0] == "this" and len(s) == 2 and isinstance(I.load(st, LV(s, (), FE)), P)
                  and (I.load(st, LV(s, (), FE)) - Bv).is_zero()]
            if not sc:
                self.ob("wires-copy-weight", None, "the combined copy weight is recognised", "", f1)
            # the combined copy weight may be taken into the gates' weights here, or into every message later
            w0 = self.get(I, st, W0, g)
            self.scale = FONE if isinstance(w0, P) and (w0 - self.beta_g(g) * Bv).is_zero() else Bv
            if self.scale == Bv:
                self.eqw("phase1-W", w0, self.beta_g(g), "a table holds every gate's weight", f1)
        else:
            val = lambda p: A("sel", ("in", "this", "circuit_value", "[]", "[]"), (self.lay - 1, lift(p)), f=True)
            W0 = None
        V = self.one("phase1-V", I, st, x, val(x), "the value table is the row below, at every position", w1)
        if "phase1-V" not in dict(self.forced):
            self.ob("phase1-V", True, "the value table is the row below, at every position", "", f1)
        if W0 is None:
            W0 = self.one("phase1-W", I, st, g, self.beta_g(g), "a table holds every gate's weight, and rounds update it", w1)
        if "phase1-W" not in dict(self.forced) and not self.bc:
            self.ob("phase1-W", True, "a table holds every gate's weight", "", f1)
        self.V, self.W = V, W0
        self.rounds(1, upd1, st.mem, val)
        # phase 2
        w = self.written(upd1, st.mem)
        mem2 = {s: c for s, c in st.mem.items() if s not in w}
        prevu = cell("prevu", 0)
        I2, fr, st2 = self.run_fn("prover::sumcheck_phase2_init", [prevu] + ([] if self.bc else [region("ru"), region("ou")]), dict(mem2))
        f2 = self.fn
        old = lambda t, p: A("sel", ("in",) + t, (lift(p),), f=True)
        vu = old(V, ZERO) * (FONE - prevu) + old(V, ONE) * prevu
        u = self.gate("u", g)
        ub = ind(beq(t_.bit(u, m - 1)))
        self.eq("phase2-V", self.get(I2, st2, V, x), val(x), "the value table is the row below again, at every position", f2)
        self.eqw("phase2-W", self.get(I2, st2, W0, g), old(W0, g) * (ub * (FONE - prevu) + (FONE - ub) * prevu),
                "every gate's weight takes in the last challenge of the first phase", f2)
        if ("this", "v_u") in st2.mem:
            self.eq("closing-u", I2.load(st2, LV(("this", "v_u"), (), FE)), vu, "the first closing value is the folded value table at the last challenge", f2)
        upd2 = "prover::sumcheck_phase2_update"
        self.rounds(2, upd2, st2.mem, lambda p: vu)
        w = self.written(upd2, st2.mem)
        mem3 = {s: c for s, c in st2.mem.items() if s not in w}
        mem3[V] = Content(("in", "second") + V)
        prevv = cell("prevv", 0)
        I3, fr3, st3 = self.run_fn("prover::sumcheck_finalize", [prevv], mem3)
        ex = [e for e in fr3.exits if e.kind == "return"]
        if len(ex) != 1 or not isinstance(ex[0].val, St):
            self.ob("closing", None, "the closing values have a recognised form")
            return
        o2 = lambda p: A("sel", ("in", "second") + V, (lift(p),), f=True)
        self.eq("closing-first", ex[0].val.d.get("first"), vu, "the first closing value is the row below extended at the first phase's challenges")
        self.eq("closing-second", ex[0].val.d.get("second"), o2(ZERO) * (FONE - prevv) + o2(ONE) * prevv,
                "the second closing value is the row below extended at the second phase's challenges")

    def rounds(self, k, upd, mem, other):
        V, W, m = self.V, self.W, self.m
        fu = self.prog.func(upd)
        prev = cell("prev", 0)
        g = sym("g", 0, p2(self.n))
        u, v, ty = (self.gate(f, g) for f in ("u", "v", "ty"))
        wire, oth = (u, v) if k == 1 else (v, u)
        old = lambda t, p: A("sel", ("in",) + t, (lift(p),), f=True)
        for tag, j in (("first", ZERO), ("later", sym("bit", 1, m))):
            rm, halved = self.later(upd, mem, j)
            for s in (V, W):
                rm.pop(s, None)
            Iu = Interp(self.prog)
            fr, su = Iu.run(fu, [prev, j], None, rm)
            self.units[fu.qname + "/" + tag] = {"loops_summarised": len(Iu.loops)}
            x = sym("i", 0, p2(m - j))
            if tag == "first":
                v1 = lambda p: old(V, p)
                w1 = old(W, g)
            else:
                v1 = lambda p: old(V, 2 * p) * (FONE - prev) + old(V, 2 * p + 1) * prev
                pb = ind(beq(t_.bit(wire, j - 1)))
                w1 = old(W, g) * (pb * (FONE - prev) + (FONE - pb) * prev)
            self.eq("phase%d-%s-round-V" % (k, tag), self.get(Iu, su, V, x), v1(x), "a round folds the value table at the previous challenge, for every pair of entries", fu)
            self.eqw("phase%d-%s-round-W" % (k, tag), self.get(Iu, su, W, g), w1, "a round multiplies every gate's weight by its wire bit's factor at the previous challenge", fu)
            for s in halved:
                self.eq("phase%d-%s-round-size" % (k, tag), Iu.load(su, LV(s, (), "int")), p2(m - j - 1), "each round halves the number of table entries", fu)
            ex = [e for e in fr.exits if e.kind == "return"]
            if len(ex) != 1 or not isinstance(ex[0].val, St):
                self.ob("phase%d-%s-round-poly" % (k, tag), None, "the round polynomial has a recognised form", "", fu)
                continue
            q = sym("wq", 0, p2(m - j - 1))
            cases = []
            for kk in (0, 1, 2):
                for b in (0, 1):
                    mp = {ty.single_atom(): lift(kk)}
                    if tag == "first":
                        mp[wire.single_atom()] = 2 * q + b
                    else:
                        mp[t_.shr(wire, j).single_atom()] = 2 * q + b
                        mp[t_.shr(wire, j + 1).single_atom()] = q
                        mp[t_.bit(wire, j).single_atom()] = lift(b)
                    cases.append(("gates of type %d with wire bit %d" % (kk, b), mp, (kk, b)))

            def want(key, deg):
                kk, b = key
                G = self.G.get(kk)
                if G is None:
                    return FZERO
                X = [v1(2 * q), v1(2 * q + 1) - v1(2 * q)]
                p = pmul([FZERO, FONE] if b else [FONE, -FONE], G(X, [other(oth)]))
                return self.scale * w1 * p[deg] if deg < len(p) else FZERO
            for deg, fld in enumerate("cba"):
                self.compare("phase%d-%s-round-poly.%s" % (k, tag, fld), ex[0].val.d.get(fld), [(ZERO, p2(self.n))], [g],
                             cases, lambda key, deg=deg: want(key, deg),
                             "the round polynomial is the sum of every gate's weighted contribution", fu)


class Give(Exception):
    pass
