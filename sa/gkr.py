"""Protocol conformance of the interactive verifiers.

`verify()` is abstractly interpreted once with the prover replaced by an adversary whose every
answer is an arbitrary message.  What acceptance implies is then a set of equations over messages,
challenges and the verifier's own circuit, indexed by (layer, round).  They are compared, as normal
forms, with the equations of the GKR protocol, for the first layer of the walk, for a generic inner
step, and for the last one.  Nothing is executed or solved.
"""
import term as t_
from term import (A, C, P, PA, T, F, ZERO, ONE, FZERO, FONE, KEYS, DEPS, RANGES, atom, beq, blt, bnot, band_, bor_, ite,
                  ind, subst, mk_sum, mk_prod, mk_eqp, p2, lift, is_pos, toF, deps_of)
from interp import Interp, BV, St, Ptr, Opq, vkey, bsub, vsubst
from frontend import AnalysisError

BAD = {"out", "top", "aout", "abrk", "brk", "opq", "opqF", "opqnum", "fop", "conv", "fctor", "strconst", "fcmp", "uninit", "phi"}
BADBASE = {"aout", "abrk", "mixbase", "mixspecial", "havoc", "phi", "mix"}


def opaque_atoms(x):
    """atoms that stand for something the analysis could not follow"""
    out = []
    for a in deps_of(x):
        k = KEYS[a]
        if k[0] in BAD:
            out.append(a)
        elif k[0] == "unk":
            key = k[1]
            if not (isinstance(key, tuple) and key and key[0] == "ext"):
                out.append(a)
        elif k[0] == "ind" and bool_opaque(k[1]):
            out.append(a)
        elif k[0] == "sel" and isinstance(k[1], tuple):
            b = k[1]
            if b and (b[0] in BADBASE or (b[0] == "in" and len(b) > 1 and (b[1] in ("phi", "out", "brk", "unk", "ptr", "iteptr", "X", "opqobj", "L", "S", "T") or (isinstance(b[1], tuple) and b[1][:1] != ("heap",))))):
                out.append(a)
    return out


def bool_opaque(b):
    """does a condition depend on something the analysis could not follow"""
    if isinstance(b, tuple):
        if b and b[0] == "op" and len(b) > 1 and b[1] in ("phi", "out", "brk", "sel", "?", "unk"):
            return True
        if b and b[0] in ("eq", "lt"):
            return bool(opaque_atoms(b[1]))
        return any(bool_opaque(x) for x in b if isinstance(x, (tuple, frozenset)))
    if isinstance(b, frozenset):
        return any(bool_opaque(x) for x in b)
    return False


def literals(b, path=(), guard=T):
    """equations implied by formula b: (loop path, guard, p) meaning  guard => p == 0"""
    k = b[0]
    if k == "and":
        for x in b[1]:
            for r in literals(x, path, guard):
                yield r
    elif k == "all":
        for r in literals(b[2], path + (b[1],), guard):
            yield r
    elif k == "eq":
        yield path, guard, b[1]
    elif k == "or":
        xs = list(b[1])
        for x in xs:
            others = [bnot(y) for y in xs if y is not x]
            if x[0] in ("eq", "all", "and"):
                for r in literals(x, path, band_([guard] + others)):
                    yield r
    return


class Ob:
    __slots__ = ("id", "props", "status", "what", "file", "line", "detail")

    def __init__(self, id, props, status, what, file=None, line=None, detail=""):
        self.id, self.props, self.status, self.what, self.file, self.line, self.detail = id, props, status, what, file, line, detail

    def __repr__(self):
        return "%-10s %-28s %s [%s] %s:%s %s" % (self.status, self.id, self.what, ",".join(self.props), self.file, self.line, self.detail[:300])


GATES_LINEAR = {
    0: lambda x, y: x + y,
    1: lambda x, y: x * y,
    6: lambda x, y: ONE - x,
    7: lambda x, y: x - y,
    8: lambda x, y: x + y - 2 * (x * y),
    9: lambda x, y: y - x * y,
    10: lambda x, y: x,
}
GATES_TRAD = {0: lambda x, y: x + y, 1: lambda x, y: x * y}


class Circuit:
    """symbolic accessors of the verifier's own circuit description"""

    def __init__(self, which, root=("in", "this", "C")):
        self.which = which
        if which == "bc_clogc":
            self.pre = root + ("blocks", "[]", "circuit", "[]")
            self.ipre = (ZERO,)
            self.D = A("sel", root + ("blocks", "[]", "total_depth"), (ZERO,))
            self.nb = A("sel", root + ("total_blocks_binary_length",), ())
        else:
            self.pre = root + ("circuit", "[]")
            self.ipre = ()
            self.D = A("sel", root + ("total_depth",), ())
            self.nb = None

    def bl(self, i):
        return A("sel", self.pre + ("bit_length",), self.ipre + (lift(i),))

    def gate(self, fld, i, g, blk=None):
        ip = self.ipre if blk is None else (blk,)
        return A("sel", self.pre + ("gates", "[]", fld), ip + (lift(i), lift(g)))


def EQ(r, n, g, name):
    """prod_b (bit b of g ? r(b) : 1 - r(b))"""
    z = A("bvtmp", ("spec", name))
    RANGES[z.single_atom()] = (ZERO, n)
    return mk_eqp(z.single_atom(), r(z), FONE - r(z), n, g)


def MLE(val, r, n, name="mle"):
    z = A("bvtmp", ("mle", name))
    RANGES[z.single_atom()] = (ZERO, p2(n))
    return mk_sum(z.single_atom(), ZERO, p2(n), EQ(r, n, z, name) * val(z))


# Which properties an obligation of the verifier's walk is a necessary condition of.
TAGS = (
    ("layer-check-first", ("V02", "V04", "V05", "V06")),
    ("layer-check", ("V02", "V04", "V05")),
    ("phase1-next", ("V02", "V03", "V04")), ("phase2-next", ("V02", "V03", "V04")), ("phase3-next", ("V02", "V03", "V04")),
    ("phase", ("V02",)),
    ("next-claim", ("V02", "V03", "V04")),
    ("input-claim", ("V02", "V04", "V06")),
    ("input-check", ("V02", "V04", "V06")),
    ("output-claim", ("V02", "V03", "V04", "V06")),
    ("output-weight", ("V02", "V06")),
)


def tags(id, props):
    out = {"V01"} | set(props)
    for k, v in TAGS:
        if id.startswith(k):
            out |= set(v)
            break
    return tuple(sorted(out))


class VerifyCheck:
    def __init__(self, prog, which, fname="verifier::verify"):
        self.prog, self.which = prog, which
        self.fn = prog.func(fname)
        self.I = Interp(prog, adversary=["prover"])
        self.fr, self.st = self.I.run(self.fn)
        self.obs = []
        self.cir = Circuit(which)
        self.notes = []

    # ---- reporting
    def ob(self, id, props, ok, what, where=None, detail=""):
        st = {True: "ok", False: "violated", None: "undecided"}[ok]
        f, l = (where.file, where.line) if where is not None else (self.fn.file, self.fn.line)
        self.obs.append(Ob(self.which + ":" + id, tags(id, props), st, what, f, l, detail))
        return ok

    def eq(self, id, props, got, want, what, where=None, scale=False):
        """got == want as normal forms (up to a non-zero constant factor if scale)"""
        d = got - want
        if d.is_zero():
            return self.ob(id, props, True, what, where)
        if scale and (got + want).is_zero():
            return self.ob(id, props, True, what, where)
        if opaque_atoms(got) or opaque_atoms(want):
            return self.ob(id, props, None, what, where, "not followed: " + ", ".join(t_.show_atom(a)[:80] for a in (opaque_atoms(got) + opaque_atoms(want))[:3]))
        return self.ob(id, props, False, what, where, "difference " + t_.show(d)[:600])

    def bvof(self, i):
        L = self.L
        if L.step == -1:
            return lift(i)
        return L.lo + (self.cir.D - 1) - lift(i)

    # ---- the check
    def run(self):
        try:
            self._run()
        except Stop:
            pass
        return self.obs

    def stop(self, id, props, ok, what, where=None, detail=""):
        self.ob(id, props, ok, what, where, detail)
        raise Stop()

    ALL = ("V01", "V02", "V03", "V04", "V05", "V06")

    def facts(self):
        """per accepting exit: the equations acceptance through it implies"""
        exits = [e for e in self.fr.exits if e.kind in ("return", "end")]
        acc = []
        before = []
        for e in exits:
            v = e.val
            b = v.b if isinstance(v, BV) else (F if isinstance(v, P) and v.is_zero() else T)
            if b == F:
                before.append(bnot(e.pc))
                continue
            acc.append((e, list(before), b))
            before.append(bor_([bnot(e.pc), b]))
        return acc

    def _run(self):
        I = self.I
        acc = self.facts()
        if not acc:
            self.stop("accept", ("V01", "R01"), None, "verify() has an accepting exit")
        polys = []
        for e in I.events:
            if e.kind == "pcall" and isinstance(e.res, St) and set(e.res.d) in ({"a", "b", "c"}, {"a", "b", "c", "d"}):
                polys.append(e)
        want = 3 if self.which == "bc_clogc" else 2
        # layer loop
        roots = [e.loops[0] for e in polys if e.loops]
        if not roots:
            self.stop("rounds", ("V01",), None, "the verifier receives round polynomials")
        Lk = roots[0]
        L = self.L = I.loops.get(Lk)
        inner = [e for e, _, _ in acc if e.loops]
        for e in inner:
            if not bool_opaque(e.pc):
                self.ob("early-accept@%d" % len(self.obs), ("V01", "R01"), False, "no accepting exit before the walk over the layers has finished", e)
        if L is None or not L.affine:
            self.stop("layer-loop", ("V01",), None, "the walk over the layers has a recognised form", L)
        D = self.cir.D
        okr = (L.lo == ONE and L.hi == D) if L.step == -1 else (L.hi - L.lo == D - 1)
        if L.step == -1 and okr is False and not opaque_atoms(L.lo - L.hi):
            self.stop("layer-loop", ("V01",), False, "the walk covers every layer from the output down to layer 1", L,
                      "covers [%s, %s)" % (L.lo, L.hi))
        if not okr:
            self.stop("layer-loop", ("V01",), None, "the walk covers every layer from the output down to layer 1", L)
        self.ob("layer-loop", ("V01",), True, "the walk covers every layer from the output down to layer 1", L)
        if L.breaks:
            for pc, _, nd in L.breaks:
                if not bool_opaque(pc) and pc != F:
                    self.ob("layer-break", ("V01",), False, "the walk over the layers is not cut short", nd, t_.bshow(pc)[:300])
        polys = [e for e in polys if e.loops and e.loops[0] == Lk]
        if len(polys) != want or any(len(e.loops) != 2 for e in polys):
            self.stop("rounds", ("V01",), None, "%d sumcheck phases per layer" % want, L, "found %d" % len(polys))
        final = [x for x in acc if not x[0].loops]
        if not final:
            self.stop("accept", ("V01",), None, "an accepting exit after the walk")
        for n, (e, before, b) in enumerate(final):
            lits = []
            for f in before + [e.pc, b]:
                lits += list(literals(f))
            for f in self.counted(before + [e.pc, b]):
                lits += list(literals(f))
            lits = self.unbroken(before + [e.pc, b], lits)
            self.one(n, e, lits, polys)
            if len(final) > 1 and e.pc != T and not self.obs:
                break

    def counted(self, forms):
        """a count of failures that acceptance requires to be 0: no iteration of any loop has raised it"""
        L, I = self.L, self.I
        new = []
        for shp, (iv0, nv0) in L.phis.items():
            if not isinstance(nv0, P) or not isinstance(iv0, P) or nv0.f or not iv0.is_zero():
                continue
            ends = [("eq", nv0), ("eq", A("out", L.key, shp))]
            if not any(e in ends or (e[0] == "all" and e[1] == L.key and e[2] in ends) for f in forms for e in (f[1] if f[0] == "and" else [f])):
                continue
            raised, ok = [], True
            for r in I.loops.values():
                if shp not in r.phis:
                    continue
                iv, nv = r.phis[shp]
                if not isinstance(nv, P) or not isinstance(iv, P):
                    ok = False
                    continue
                before = [A("phi", r.key, shp)] + [A("out", k.key, shp) for k in I.loops.values() if k is not r and shp in k.phis]
                # what an iteration adds, and what was added between the loops
                for v, path in ((nv, (L.key,) if r is L else (L.key, r.key)), (iv, (L.key,))):
                    if r is L and v is iv:
                        continue
                    base = before if v is nv else [A("phi", L.key, shp)] + before[1:]
                    d = next((v - b for b in base if not (set((v - b).deps()) & {x.single_atom() for x in before + base})), None)
                    inds = sorted(a for a in d.deps() if KEYS[a][0] == "ind") if d is not None else []
                    if d is None or len(inds) > 3 or any(a not in inds for m, c in d.t.items() for a, e in m):
                        ok = False
                        continue
                    zero = []
                    for n in range(1 << len(inds)):
                        mp = {a: C(n >> i & 1) for i, a in enumerate(inds)}
                        w = subst(d, mp)
                        if not w.is_const() or w.const() < 0:
                            ok = False
                        elif w.const() == 0:
                            zero.append(band_([KEYS[a][1] if n >> i & 1 else bnot(KEYS[a][1]) for i, a in enumerate(inds)]))
                    if inds:
                        b = bor_(zero) if len(zero) > 1 else (zero[0] if zero else F)
                        for k in reversed(path):
                            b = t_.mk_q("all", k, b)
                        raised.append(b)
            if ok:
                new += raised
        return new

    def unbroken(self, forms, lits):
        """acceptance says that no iteration of a loop met a condition it is left on: values carried past
        the loop then are those of the loop run to its end"""
        forms = forms + self.counted(forms)

        def parts(b, keys=()):
            if b[0] == "and":
                for x in b[1]:
                    yield from parts(x, keys)
            elif b[0] == "all":
                yield from parts(b[2], keys + (b[1],))
            elif b != T:
                yield keys, b
        always = {x for f in forms for x in parts(f)}

        def holds(path, b):
            return any(y == b and kk[-len(path):] == path for kk, y in always)
        # flags that are true before a loop and whenever an iteration ends
        known, more = {}, True
        while more:
            more = False
            for r in self.I.loops.values():
                for shp, (iv, nv) in r.phis.items():
                    op = ("op", "phi", r.key, shp)
                    if isinstance(iv, BV) and isinstance(nv, BV) and iv.b == T and op not in known and nv.b != T \
                            and all(b == op or holds((r.key,) + kk, b) for kk, b in parts(nv.b)):
                        known[op] = ONE
                        more = True
            if more:
                mp = {atom("ind", o): v for o, v in known.items()}
                always = {x for kk, b in always for x in parts(bsub(b, mp), kk)}
        never = {(k[-1], bnot(b)) for k, b in always if k}
        memo = {}

        def zero(a):
            if a not in memo:
                k = KEYS[a]
                ok = False
                if k[0] == "ind" and k[1][0] == "any":
                    X = k[1][2]
                    ok = all((k[1][1], x) in never for x in (X[1] if X[0] == "or" else [X]))
                memo[a] = ok
            return memo[a]

        def fix(v):
            mp = {a: ZERO for a in deps_of(vkey(v)) if zero(a)}
            mp.update((atom("ind", o), x) for o, x in known.items())
            return vsubst(v, mp) if mp else v
        for r in self.I.loops.values():
            for shp, (iv, nv) in list(r.phis.items()):
                r.phis[shp] = (fix(iv), fix(nv))
        return [(pth, fix(BV(g)).b, fix(q)) for pth, g, q in lits]

    def one(self, n, ex, lits, polys):
        I, L, cir = self.I, self.L, self.cir
        tag = "" if n == 0 else "#%d" % n
        bvL = L.bv
        phases = []
        for pi, e in enumerate(polys):
            ph = self.phase(tag, pi, e, lits)
            phases.append(ph)
        self.phases = phases
        if any(p is None for p in phases):
            self.stop("chain" + tag, ("V02",), None, "claims are threaded through the phases", L)
        # the claim a layer starts from
        S1 = phases[0]["init"]
        self.S1 = S1
        # --- generic step: the layer with number own = i follows layer i+1
        z = A("sym", "z")
        za = z.single_atom()
        RANGES[za] = (C(3), cir.D)
        nxt = I.shift(L, S1, 1, self.bvof(z - 1), self.bvof(z))
        self.ru = phases[-2]["r"]
        self.rv = phases[-1]["r"]
        self.rb = phases[0]["r"] if self.which == "bc_clogc" else None
        dec = self.decompose(tag, nxt, z)
        if dec is None:
            raise Stop()
        self.roles(tag, dec, lits, z)
        # last step: layer 1 -> input
        self.final(tag, lits)
        self.initial(tag, lits)
        self.hygiene(tag)

    def rfun(self, ph, i):
        """challenge of round b of a phase at layer i, as a function of b"""
        R = ph["rec"]

        def f(b):
            return subst(ph["r"], {self.L.bv: self.bvof(i), R.bv: b})
        return f

    def phase(self, tag, pi, e, lits):
        I, L, cir = self.I, self.L, self.cir
        R = I.loops.get(e.loops[1])
        d = e.res.d
        name = e.name
        props = ("V01", "V02")
        if R is None or not R.affine or R.step != 1:
            self.ob("phase%d-loop%s" % (pi, tag), props, None, "round loop has a recognised form", R or e)
            return None
        bvi = PA(L.bv)
        iexp = bvi if L.step == -1 else (cir.D - 1) - (bvi - L.lo)
        n = cir.nb if (self.which == "bc_clogc" and pi == 0) else cir.bl(iexp - 1)
        N = R.hi - R.lo
        if not (N - n).is_zero():
            if opaque_atoms(N):
                self.ob("phase%d-rounds%s" % (pi, tag), props, None, "one round per index bit", R)
                return None
            if not (cir.which == "linear" and self.norm1(N - n).is_zero()):
                self.ob("phase%d-rounds%s" % (pi, tag), props, False, "one round per index bit", R, "%s rounds instead of %s" % (N, n))
                return None
        if R.breaks:
            for pc, _, nd in R.breaks:
                if not bool_opaque(pc) and pc != F:
                    self.ob("phase%d-break%s" % (pi, tag), props, False, "the round loop is not cut short", nd)
        self.ob("phase%d-rounds%s" % (pi, tag), props, True, "one round per index bit", R)
        coefs = [d[k] for k in sorted(d)]
        ids = {c.single_atom() for c in coefs}
        mine = [x for x in lits if any(a in ids for a in x[2].deps())]
        here = [x for x in mine if x[0] == tuple(e.loops)]
        anyw = [x for x in lits if any(self.same_msg(a, e) for a in x[2].deps())]
        if not here:
            # a check outside the walk which hears of the message only because the walk was left on it
            def left(q):
                mp = {a: ZERO for a in q.deps() if (KEYS[a][0] == "ind" and KEYS[a][1][0] == "any" and KEYS[a][1][1] == L.key)
                      or (KEYS[a][0] in ("brk", "abrk") and KEYS[a][1] == L.key)}
                return subst(q, mp) if mp else q
            anyw = [x for x in anyw if x[0] or any(self.same_msg(a, e) for a in left(x[2]).deps())]
            if not anyw or all(x[0] == (e.loops[0],) for x in anyw):
                self.ob("phase%d-check%s" % (pi, tag), ("V01", "V02"), False, "every round polynomial is checked against the running claim", e,
                        "no rejecting branch depends on the polynomial received here")
            else:
                self.ob("phase%d-check%s" % (pi, tag), props, None, "every round polynomial is checked against the running claim", e)
            return None
        ung = [x for x in here if x[1] == T]
        if not ung:
            g = here[0][1]
            self.ob("phase%d-check%s" % (pi, tag), ("V01", "V02"), None if bool_opaque(g) else False,
                    "every round polynomial is checked, in every round", e, "only checked when " + t_.bshow(g)[:200])
            return None
        s = coefs[-1] + sum(coefs[1:], coefs[0])      # p(0) + p(1)
        best = None
        for _, _, q in ung:
            ca = q.coeff_of(coefs[0].single_atom())
            if ca is None or not ca[0].is_const() or ca[0].is_zero():
                continue
            k = ca[0].const()
            q1 = (q if k in (1, -1) and k == 1 else (-q if k == -1 else q * C(pow(k, -1, t_.PMOD), True)))
            cl = -(q1 - s)
            if not (cl.deps() & ids):
                best = cl
                break
        if best is None:
            q = ung[0][2]
            self.ob("phase%d-check%s" % (pi, tag), ("V01", "V02"), None if opaque_atoms(self.drop_phi(q, R)) else False,
                    "the check is p(0) + p(1) = claim", e, t_.show(q)[:400])
            return None
        self.ob("phase%d-check%s" % (pi, tag), ("V01", "V02"), True, "every round polynomial p is checked: p(0) + p(1) = claim", e)
        nx = I.shift(R, best, 1, PA(R.bv) + 1, PA(R.bv))
        r = None
        for a in sorted(nx.deps()):
            if KEYS[a][0] == "rnd":
                ra = PA(a, True)
                v = P({}, True)
                for c in coefs:
                    v = v * ra + c
                if (nx - v).is_zero():
                    r = ra
                    break
        if r is None:
            bad = opaque_atoms(nx)
            for a in sorted(nx.deps()):
                if bad and KEYS[a][0] == "rnd":
                    # p at a challenge, and something else: told apart even when that mentions what the walk carries
                    v = P({}, True)
                    for c in coefs:
                        v = v * PA(a, True) + c
                    rem = nx - v
                    if not (rem.deps() & ids) and any(self.is_msg(x) or KEYS[x][0] == "rnd" for x in rem.deps()) and all(
                            KEYS[x][:2] == ("phi", L.key) or (KEYS[x][0] == "sel" and KEYS[x][1][:3] == ("in", "phi", L.key)) for x in opaque_atoms(rem)):
                        bad = []
            self.ob("phase%d-next%s" % (pi, tag), ("V02", "V03"), None if bad else False,
                    "the next claim is the round polynomial at a random challenge", e, t_.show(nx)[:500])
            return None
        self.ob("phase%d-next%s" % (pi, tag), ("V02", "V03"), True, "the next claim is the round polynomial at a random challenge", e)
        dd = DEPS[r.single_atom()]
        if L.bv not in dd or R.bv not in dd:
            self.ob("phase%d-fresh%s" % (pi, tag), ("V03",), False, "a new challenge is drawn in every round of every layer", e, t_.show(r))
        else:
            self.ob("phase%d-fresh%s" % (pi, tag), ("V03",), True, "a new challenge is drawn in every round of every layer", e)
        init = I.shift(R, best, 0, R.lo)
        v = P({}, True)
        for c in coefs:
            v = v * r + c
        last = subst(v, {R.bv: R.hi - 1})
        out = last if is_pos(R.hi - R.lo) else ite(blt(R.lo - R.hi), last, init)
        return dict(ev=e, rec=R, claim=best, r=r, init=init, out=out, ids=ids, coefs=coefs)

    def drop_phi(self, q, R):
        return tuple(P({m: c}) for m, c in q.t.items() if not any(KEYS[a][0] == "phi" for a, _ in m))

    def same_msg(self, a, e):
        k = KEYS[a]
        return k[0] == "msg" and k[2] == e.name

    # ---- normalisation by loader facts (linear): layer 1 is the identity relay of layer 0
    def norm1(self, x):
        if self.which != "linear":
            return x
        b0, b1 = self.cir.bl(0).single_atom(), self.cir.bl(1)
        x = subst(x, {b0: b1})
        mp = {}
        for a in deps_of(x):
            k = KEYS[a]
            if k[0] == "sel" and isinstance(k[1], tuple) and k[1][:len(self.cir.pre)] == self.cir.pre and len(k[2]) == 2 and k[2][0] == ONE:
                if k[1][-1] == "ty":
                    mp[a] = C(4)
                elif k[1][-1] == "u":
                    mp[a] = k[2][1]
                elif k[1][-1] == "v":
                    mp[a] = ZERO
        return subst(x, mp) if mp else x

    def decompose(self, tag, nxt, z):
        """nxt = cu * m1 + cv * m2 with prover messages m1, m2 of the layer just finished"""
        terms = []
        bad = opaque_atoms(nxt)
        for m, c in nxt.t.items():
            ms, cs = [], []
            for a, e in m:
                if self.is_msg(a):
                    ms += [a] * e
                else:
                    cs.append((a, e))
            if len(ms) != 1:
                self.ob("next-claim" + tag, ("V02",), None if bad else False,
                        "the next layer's claim is a random combination of the two claimed values", self.L, t_.show(nxt)[:500])
                return None
            terms.append((ms[0], P({tuple(cs): c}, True)))
        by = {}
        for a, c in terms:
            by[a] = by.get(a, FZERO) + c
        if bad:
            kept = [a for a in bad if KEYS[a][0] == "sel" and KEYS[a][1][:2] == ("in", "S")]
            if len(kept) == len(bad) and len(by) == 2 and any(c.single_atom() in kept for c in by.values()):
                self.ob("mix-fresh" + tag, ("V03", "V02"), False, "the claims are combined with fresh independent random coefficients", self.L,
                        "a coefficient is kept in a static variable: " + t_.show(PA(kept[0]))[:200])
                return None
            self.ob("next-claim" + tag, ("V02",), None, "the next layer's claim is a random combination of the two claimed values", self.L, "not followed")
            return None
        if len(by) != 2:
            self.ob("next-claim" + tag, ("V02", "V04"), False, "the next layer's claim is a random combination of both claimed values", self.L, t_.show(nxt)[:500])
            return None
        self.ob("next-claim" + tag, ("V02",), True, "the next layer's claim combines the two claimed values", self.L)
        cs = list(by.values())
        rnds = []
        ok = True
        why = ""
        for c in cs:
            a = c.single_atom()
            if a is not None and KEYS[a][0] == "rnd":
                if z.single_atom() not in DEPS[a]:
                    ok, why = False, "the coefficient is not redrawn for every layer"
                rnds.append(a)
            elif c.is_const() and not c.is_zero():
                pass
            else:
                ok, why = (None if opaque_atoms(c) else False), "coefficient " + t_.show(c)[:200]
        if ok and (not rnds or len(set(rnds)) != len(rnds)):
            ok, why = False, "the two coefficients are not independent"
        rr = set()
        for ph in self.phases:
            rr.add(KEYS[ph["r"].single_atom()][1])
        if ok and any(KEYS[a][1] in rr for a in rnds):
            ok, why = False, "a coefficient reuses a round challenge"
        self.ob("mix-fresh" + tag, ("V03", "V02"), ok, "the claims are combined with fresh independent random coefficients", self.L, why)
        ks = [KEYS[ph["r"].single_atom()][1] for ph in self.phases]
        self.ob("phase-indep" + tag, ("V03",), len(set(ks)) == len(ks), "the phases use independent challenges", self.L)
        return by

    def is_msg(self, a):
        k = KEYS[a]
        if k[0] == "msg":
            return True
        return k[0] == "sel" and isinstance(k[1], tuple) and k[1][:2] == ("in", "ADV")

    # ---- the wiring identity
    def wiring(self, i, terms, rb_prev, mp_vu, mp_vv):
        """claim at the end of the last phase, for layer i reached with claim sum_k c_k V_i(rho_k)"""
        cir = self.cir
        i = lift(i)
        ru, rv = self.rfun(self.phases[-2], i), self.rfun(self.phases[-1], i)
        g = A("bvtmp", ("g", "spec"))
        ga = g.single_atom()
        n, m = cir.bl(i), cir.bl(i - 1)
        RANGES[ga] = (ZERO, p2(n))
        ty, u, v = (cir.gate(f, i, g) for f in ("ty", "u", "v"))
        w = FZERO
        for c, rho in terms:
            w = w + c * EQ(rho, n, g, "g")
        tot = FZERO
        eu, ev = EQ(ru, m, u, "u"), EQ(rv, m, v, "v")
        gates = GATES_LINEAR if self.which == "linear" else GATES_TRAD
        for k, G in gates.items():
            body = ind(beq(ty - k)) * w * eu * ev
            tot = tot + mk_sum(ga, ZERO, p2(n), body) * G(mp_vu, mp_vv)
        if self.which == "linear":
            j = A("bvtmp", ("j", "spec"))
            ja = j.single_atom()
            RANGES[ja] = (u, v)
            inner = mk_sum(ja, u, v, EQ(ru, m, j, "u"))
            body = ind(beq(ty - 5)) * w * inner * EQ(rv, m, ZERO, "v")
            tot = tot + mk_sum(ga, ZERO, p2(n), body) * mp_vu
        if self.which == "bc_clogc":
            rb = self.rfun(self.phases[0], i)
            b = A("bvtmp", ("blk", "spec"))
            ba = b.single_atom()
            RANGES[ba] = (ZERO, cir.nb)
            x, y = rb_prev(b), rb(b)
            tot = tot * mk_prod(ba, ZERO, cir.nb, x * y + (FONE - x) * (FONE - y))
        return tot

    def relay(self, i, terms):
        """direct relay weight of layer 1 (identity wiring)"""
        cir = self.cir
        if self.which != "linear" or not (lift(i) - 1).is_zero():
            return FZERO
        ru = self.rfun(self.phases[-2], i)
        b = A("bvtmp", ("rel", "spec"))
        ba = b.single_atom()
        n = cir.bl(1)
        RANGES[ba] = (ZERO, n)
        tot = FZERO
        for c, rho in terms:
            x, y = rho(b), ru(b)
            tot = tot + c * mk_prod(ba, ZERO, n, FONE - x - y + 2 * (x * y))
        return tot

    def at(self, x, i, how, val=None):
        """instantiate an expression of the layer loop body at layer i; how = 0 first layer, 1 after layer i+1"""
        r = self.I.shift(self.L, x, how, self.bvof(i), None if how == 0 else self.bvof(i + 1 if val is None else val))
        return self.norm1(r)

    def inst(self, p, i):
        return subst(p, {self.L.bv: self.bvof(i)})

    def cases(self):
        """(name, layer, how, terms, previous block point)"""
        cir = self.cir
        z = A("sym", "z")
        out = []
        ph = self.phases
        for nm, i in (("inner", z - 1), ("last", ONE)):
            cu = self.coef_u(i + 1)
            cv = self.coef_v(i + 1)
            terms = [(cu, self.rfun(ph[-2], i + 1)), (cv, self.rfun(ph[-1], i + 1))]
            out.append((nm, i, 1, terms, self.rfun(ph[0], i + 1) if self.which == "bc_clogc" else None))
        return out

    def roles(self, tag, by, lits, z):
        """decide which claimed value belongs to which point, and check the layer equation"""
        L, cir = self.L, self.cir
        ms = list(by)
        semi = [x for x in lits if x[0] == (L.key,)]
        last = self.phases[-1]
        zsub = {z.single_atom(): None}
        bv = PA(L.bv)

        def back(a, own):
            # the message / coefficient of layer number z, at layer `own`
            return subst(PA(a, True), {z.single_atom(): own})
        self.semi = None
        where = self.where_semi(semi)
        if not semi:
            self.ob("layer-check" + tag, ("V01", "V05"), False, "the last claim of a layer is checked against the layer's wiring", L,
                    "no rejecting branch in the layer loop outside the round loops")
            raise Stop()
        results = []
        for order in ((ms[0], ms[1]), (ms[1], ms[0])):
            mu, mv = order
            self.mu = lambda i, a=mu: subst(PA(a, True), {z.single_atom(): lift(i)})
            self.mv = lambda i, a=mv: subst(PA(a, True), {z.single_atom(): lift(i)})
            cu, cv = by[mu], by[mv]
            self.coef_u = lambda i, c=cu: subst(c, {z.single_atom(): lift(i)})
            self.coef_v = lambda i, c=cv: subst(c, {z.single_atom(): lift(i)})
            res = self.layer_eqs(semi)
            results.append((res, order, (self.mu, self.mv, self.coef_u, self.coef_v)))
        good = [r for r in results if all(x[1] for x in r[0])]
        if good:
            pick = good[0]
        else:
            pick = max(results, key=lambda r: (sum(1 for x in r[0] if x[1]), ))
            # prefer the order in which v_u is bound first
        self.mu, self.mv, self.coef_u, self.coef_v = pick[2]
        for nm, ok, diff, guard, opq in pick[0]:
            if ok:
                self.ob("layer-check-%s%s" % (nm, tag), ("V01", "V05", "V04"), True, "the layer equation is the circuit's wiring at the challenge points", where)
            elif guard is not None:
                self.ob("layer-check-%s%s" % (nm, tag), ("V01", "V05"), None if bool_opaque(guard) else False,
                        "the layer equation is checked for every layer", where, "only when " + t_.bshow(guard)[:300])
            else:
                self.ob("layer-check-%s%s" % (nm, tag), ("V01", "V05", "V04"), None if opq else False,
                        "the layer equation is the circuit's wiring at the challenge points", where, diff)
        self.chain(tag)

    def where_semi(self, semi):
        for e in self.fr.exits:
            if e.loops == [self.L.key]:
                return e
        return self.L

    def layer_eqs(self, semi):
        out = []
        for nm, i, how, terms, rbp in self.cases():
            out.append(self.layer_eq(semi, nm, i, how, terms, rbp))
        return out

    def layer_eq(self, semi, nm, i, how, terms, rbp, fix=None):
        fix = fix or (lambda x: x)
        want = self.inst(self.phases[-1]["out"], i) - self.wiring(i, terms, rbp, self.mu(i), self.mv(i))
        want = fix(self.norm1(want))
        best = None
        for path, guard, p in semi:
            # the claim leaving the last phase in effective terms: claim = out, plus what the code keeps aside
            got = fix(self.at(p, i, how))
            gg = self.I.shift(self.L, BV(guard), how, self.bvof(i), None if how == 0 else self.bvof(i + 1))
            gg = BV(bsub(gg.b, {})) if isinstance(gg, BV) else BV(guard)
            g = gg.b
            if self.which == "linear" and how == 1:
                pass
            d1, d2 = got - want, got + want
            if d1.is_zero() or d2.is_zero():
                if g == T:
                    return (nm, True, "", None, False)
                best = best or (nm, False, "", g, False)
            else:
                small = d1 if len(d1.t) <= len(d2.t) else d2
                oq = bool(opaque_atoms(got))
                cand = (nm, False, "difference " + t_.show(small)[:600], None, oq)
                if best is None or (best[3] is None and len(cand[2]) < len(best[2])):
                    best = cand
        return best or (nm, False, "no equation", None, False)

    def chain(self, tag):
        """claims are handed from phase to phase unchanged (minus the part the verifier knows)"""
        ph = self.phases
        for k in range(1, len(ph)):
            for nm, i, how, terms, rbp in self.cases():
                got = self.at(ph[k]["init"], i, how)
                want = self.at(ph[k - 1]["out"], i, how)
                if k == len(ph) - 1:
                    want = want - self.norm1(self.relay(i, terms) * self.mu(i))
                self.eq("chain%d-%s%s" % (k, nm, tag), ("V02",), got, self.norm1(want),
                        "phase %d starts from the claim phase %d ended with" % (k, k - 1), ph[k]["ev"])

    def final(self, tag, lits):
        cir = self.cir
        one = ONE
        fc = self.at(self.S1, ZERO, 1, one) if True else None
        vu, vv = self.mu(one), self.mv(one)
        ru, rv = self.rfun(self.phases[-2], one), self.rfun(self.phases[-1], one)
        du = fc.coeff_of(vu.single_atom())
        dv = None
        if du is not None:
            dv = du[1].coeff_of(vv.single_atom())
        top = [x for x in lits if x[0] == ()]
        where = None
        for e in self.fr.exits:
            if not e.loops and isinstance(e.val, BV) and e.val.b == F:
                where = e
        props = ("V01", "V06")
        if du is None or dv is None or not dv[1].is_zero():
            self.ob("input-claim" + tag, ("V02", "V06"), None if opaque_atoms(fc) else False,
                    "the claim reaching the input layer combines the claimed values", self.L, t_.show(fc)[:400])
            return
        cu, cv = du[0], dv[0]
        if self.which == "linear":
            okc = cu.is_const() and not cu.is_zero() and cv.is_zero()
            okc = okc or (not cu.is_zero() and not cv.is_zero())
        else:
            okc = not cu.is_zero() and not cv.is_zero()
        self.ob("input-claim" + tag, ("V02", "V06"), bool(okc), "both claims about the input layer are carried into the input check", self.L, t_.show(fc)[:300])
        if not top:
            self.ob("input-check" + tag, props, False, "the last claim is checked against the verifier's own input", where or self.fn and self.L,
                    "no rejecting branch after the layer loop")
            return
        got_any = None
        for variant in (0, 1):
            def inp(g, blk=None, variant=variant):
                v = toF(cir.gate("u", ZERO, g, blk))
                if variant == 0:
                    v = v * ind(beq(cir.gate("ty", ZERO, g, blk) - 3))
                return v
            if variant == 1 and self.which != "bc_clogc":
                continue
            if self.which == "bc_clogc":
                rb = self.rfun(self.phases[0], one)

                def full(r):
                    b = A("bvtmp", ("fb", "spec"))
                    RANGES[b.single_atom()] = (ZERO, p2(cir.nb))
                    return mk_sum(b.single_atom(), ZERO, p2(cir.nb), EQ(rb, cir.nb, b, "fb") * MLE(lambda g: inp(g, b), r, cir.bl(0), "fin"))
            else:
                def full(r):
                    return MLE(inp, r, cir.bl(0), "fin")
            want = self.norm1(cu * (vu - full(ru)) + (cv * (vv - full(rv)) if not cv.is_zero() else FZERO))
            for path, guard, p in top:
                got = self.norm1(p)
                if (got - want).is_zero() or (got + want).is_zero():
                    if guard == T:
                        self.ob("input-check" + tag, props, True, "the last claim is checked against the extension of the verifier's own input", where)
                        self.input_variant = variant
                        return
                    got_any = ("guard", guard)
                elif got_any is None or (got_any[0] == "diff" and len(got_any[1]) > 600):
                    d = got - want
                    if vu.single_atom() in got.deps() or len(top) == 1:
                        got_any = ("diff", t_.show(d), bool(opaque_atoms(got)))
        if got_any is None:
            self.ob("input-check" + tag, props, False, "the last claim is checked against the verifier's own input", where, "no equation mentions it")
        elif got_any[0] == "guard":
            self.ob("input-check" + tag, props, None if bool_opaque(got_any[1]) else False, "the input check is unconditional", where, t_.bshow(got_any[1])[:300])
        else:
            self.ob("input-check" + tag, props, None if got_any[2] else False,
                    "the last claim is checked against the extension of the verifier's own input", where, "difference " + got_any[1][:500])

    def initial(self, tag, lits):
        """the first claim is the extension of the claimed output at a random point"""
        cir, L = self.cir, self.L
        D = cir.D
        s0 = self.I.shift(L, self.S1, 0, self.bvof(D - 1))
        n = cir.bl(D - 1)
        props = ("V06", "V01")
        bases = set()
        rn = {}
        for a in s0.deps():
            k = KEYS[a]
            if k[0] == "sel" and isinstance(k[1], tuple) and k[1][:2] == ("in", "msgp"):
                bases.add(k[1])
            if k[0] == "rnd" and len(k[2]) == 1:
                rn[k[1]] = a
        if len(bases) != 1 or not rn:
            bad = opaque_atoms(s0)
            self.ob("output-claim" + tag, props, None if bad else False,
                    "the first claim is the extension of the claimed output, computed by the verifier at a random point", L, t_.show(s0)[:400])
            return
        base = bases.pop()

        def rho(K):
            return lambda b: A("rnd", K, (b,), f=True)
        terms, rest = [], s0
        if self.which == "bc_clogc":
            for Kb in sorted(rn, key=str):
                for Kg in sorted(rn, key=str):
                    if Kb == Kg:
                        continue
                    b = A("bvtmp", ("ob", "spec"))
                    RANGES[b.single_atom()] = (ZERO, p2(cir.nb))
                    M = mk_sum(b.single_atom(), ZERO, p2(cir.nb), EQ(rho(Kb), cir.nb, b, "fb") *
                               MLE(lambda g: A("sel", base, (g + b * p2(n),), f=True), rho(Kg), n, "out"))
                    if (s0 - M).is_zero():
                        terms, rest, rbp = [(FONE, rho(Kg))], FZERO, rho(Kb)
        else:
            rbp = None
            for K in sorted(rn, key=str):
                M = MLE(lambda g: A("sel", base, (g,), f=True), rho(K), n, "out")
                ma = M.single_atom()
                if ma is None:
                    continue
                ab = rest.coeff_of(ma)
                if ab is not None and not ab[0].is_zero():
                    terms.append((ab[0], rho(K)))
                    rest = ab[1]
        if not terms or not rest.is_zero():
            self.ob("output-claim" + tag, props, None if opaque_atoms(s0) else False,
                    "the first claim is the extension of the claimed output, computed by the verifier at a random point", L, t_.show(s0)[:400])
            return
        self.ob("output-claim" + tag, props, True, "the first claim is the extension of the claimed output, computed by the verifier at a random point", L)
        # at least one term with a known non-zero or random weight
        if not any(c.is_const() and not c.is_zero() or not c.is_const() for c, _ in terms):
            self.ob("output-weight" + tag, props, False, "the output claim has non-zero weight", L)
        semi = [x for x in lits if x[0] == (L.key,)]
        Da = D.single_atom()
        where = self.where_semi(semi)
        for nm, mp in (("deep", {Da: D + 1}), ("two-layer", {Da: C(2)})):
            if self.which != "linear" and nm == "two-layer":
                continue
            if self.which != "linear":
                mp = {}

            def fix(x, mp=mp):
                return self.norm1(subst(x, mp)) if mp else self.norm1(x)
            i = D - 1
            r = self.layer_eq(semi, "first-" + nm, i, 0, terms, rbp, fix)
            if self.which == "linear" and nm == "two-layer":
                # layer 1 is a pure relay: claim leaving phase 2 plus nothing
                pass
            _, ok, diff, guard, opq = r
            self.ob("layer-check-first-%s%s" % (nm, tag), ("V01", "V05", "V06"), True if ok else (None if opq else False),
                    "the output layer's equation is its wiring at the challenge points", where, diff)
            ph = self.phases
            for k in range(1, len(ph)):
                got = fix(self.at(ph[k]["init"], i, 0))
                want = fix(self.at(ph[k - 1]["out"], i, 0))
                if k == len(ph) - 1 and nm == "two-layer":
                    want = want - fix(self.relay(ONE, terms) * self.mu(i))
                self.eq("chain%d-first-%s%s" % (k, nm, tag), ("V02",), got, want,
                        "phase %d starts from the claim phase %d ended with (output layer)" % (k, k - 1), ph[k]["ev"])

    # ---- order of challenges and messages
    def hygiene(self, tag):
        """no challenge is handed to the prover before the message it must be independent of"""
        I, L = self.I, self.L
        ok = True
        pc = [e for e in I.events if e.kind in ("pcall", "advstore")]
        order = {id(e): k for k, e in enumerate(pc)}
        for pi, ph in enumerate(self.phases):
            K = KEYS[ph["r"].single_atom()][1]
            msg = ph["ev"]
            R = ph["rec"]
            viol = None
            for e in pc:
                before = order[id(e)] <= order[id(msg)]
                for v in e.args:
                    hit = self.discloses(v, K, e, R)
                    if hit is None:
                        continue
                    if before or e is msg:
                        # inside the round loop a phi carries the previous round's challenge: fine
                        viol = e
            self.ob("hidden%d%s" % (pi, tag), ("V03",), viol is None, "round challenges reach the prover only after the round's polynomial", viol or msg)
        # the claimed values must be fixed before the combining coefficients are known to the prover
        for nm, c, m in (("u", self.coef_u, self.mu), ("v", self.coef_v, self.mv)):
            pass
        ca = [c(A("sym", "z")).single_atom() for c in (self.coef_u, self.coef_v)]
        keys = {KEYS[a][1] for a in ca if a is not None and KEYS[a][0] == "rnd"}
        viol = None
        lastmsg = self.msg_event()
        for e in pc:
            if lastmsg is not None and order[id(e)] > order[id(lastmsg)]:
                continue
            for v in e.args:
                for K in keys:
                    if self.discloses(v, K, e, None):
                        viol = e
        self.ob("hidden-mix" + tag, ("V03",), viol is None, "the combining coefficients reach the prover only after the claimed values", viol or L)

    def msg_event(self):
        last = None
        for e in self.I.events:
            if e.kind == "pcall" and e.loops[:1] == [self.L.key] and len(e.loops) == 1:
                last = e
        return last

    def discloses(self, v, K, e, R):
        """does handing v to the prover at event e reveal a challenge drawn at K in the current layer"""
        for a in deps_of(vkey(v)):
            k = KEYS[a]
            if k[0] == "rnd" and k[1] == K:
                return a
        if isinstance(v, Ptr):
            for w in self.region_layers(v):
                for a in deps_of((vkey(w.val) if w.val is not None else (),)):
                    if KEYS[a][0] == "rnd" and KEYS[a][1] == K:
                        return a
        return None

    def region_layers(self, p):
        shp = p.shape + ("[]",)
        for rec in self.I.loops.values():
            for s, W in rec.W.items():
                if s == shp and W:
                    for w in W:
                        yield w


class Stop(Exception):
    pass


if __name__ == "__main__":
    import sys
    import time
    from frontend import Program, PROGRAMS
    for w in (sys.argv[1:] or PROGRAMS):
        t = time.time()
        p = Program(w, PROGRAMS[w])
        v = VerifyCheck(p, w)
        for o in v.run():
            print(o)
        print(w, "%.1fs" % (time.time() - t))
