"""Value-numbering domain.

Values are polynomial normal forms (class P) over interned atoms, with integer coefficients,
or coefficients modulo the field prime when the value is a field element (`f` set).
Booleans are small formula tuples.  Both are *normal forms*: two expressions that the rewrite
rules identify are the same Python value, so deciding an equality is comparing normal forms;
nothing here searches, enumerates inputs or calls a solver.
"""
from fractions import Fraction

PMOD = 16798108731015832284940804142231733909759579603404752749028378864165570215949

_atoms = {}
KEYS = []
DEPS = []          # aid -> frozenset of atom ids occurring (deeply) in it, itself included
RANGES = {}        # binder aid -> (lo P, hi P)  (hi exclusive)
_excl = {}         # ind aid -> (nonconst key, const, fld)
FLAGS = {"assumed_in_range": 0}


def atom(kind, *args):
    k = (kind,) + args
    a = _atoms.get(k)
    if a is None:
        a = len(KEYS)
        _atoms[k] = a
        KEYS.append(k)
        DEPS.append(None)
        s = {a}
        _collect(args, s)
        DEPS[a] = frozenset(s)
        if kind == "ind" and args[0][0] == "eq":
            p = args[0][1]
            c = p.t.get((), 0)
            rest = frozenset((m, v) for m, v in p.t.items() if m)
            _excl[a] = (rest, c)
    return a


def _collect(x, s):
    if isinstance(x, P):
        s |= x.deps()
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _collect(y, s)
    elif isinstance(x, dict):
        for y in x.values():
            _collect(y, s)


def deps_of(x):
    s = set()
    _collect(x, s)
    return s


def _norm(c):
    if isinstance(c, Fraction):
        if c.denominator == 1:
            return int(c)
        return c
    return c


def _fred(c):
    if isinstance(c, Fraction):
        c = c.numerator * pow(c.denominator, -1, PMOD)
    c %= PMOD
    if c > PMOD // 2:
        c -= PMOD
    return c


class P:
    __slots__ = ("t", "f", "_h", "_d")

    def __init__(self, t, f=False):
        self.t = t
        self.f = f
        self._h = None
        self._d = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def deps(self):
        if self._d is None:
            s = set()
            for m in self.t:
                for a, e in m:
                    s |= DEPS[a]
            self._d = frozenset(s)
        return self._d

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        o = lift(o)
        f = self.f or o.f
        if len(self.t) < len(o.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        t = dict(a)
        for m, c in b.items():
            v = t.get(m, 0) + c
            v = _fred(v) if f else _norm(v)
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        if f and not (self.f and o.f):
            return P(t).as_field()
        return P(t, f)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()}, self.f)

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        f = self.f or o.f
        if not self.t or not o.t:
            return P({}, f)
        t = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                c = c1 * c2
                c = _fred(c) if f else _norm(c)
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    m = mono_mul(m1, m2)
                    if m is None:
                        continue
                    if isinstance(m, P):
                        q = m * P({(): c}, f)
                        extra = q if extra is None else extra + q
                        continue
                v = t.get(m, 0) + c
                v = _fred(v) if f else _norm(v)
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        r = P(t, f)
        if extra is not None:
            r = r + extra
        return r

    __rmul__ = __mul__

    def as_field(self):
        if self.f:
            return self
        t = {}
        for m, c in self.t.items():
            c = _fred(c)
            if c:
                t[m] = c
        return P(t, True)

    def as_int(self):
        return P(dict(self.t), False)

    def __repr__(self):
        return show(self)

    def atoms(self):
        for m in self.t:
            for a, e in m:
                yield a

    def single_atom(self):
        """the atom id if self is exactly one atom"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def coeff_of(self, aid):
        """(A,B) with self = A*aid + B when self is (shallowly) affine in aid; else None"""
        A, B = {}, {}
        for m, c in self.t.items():
            hit = None
            for a, e in m:
                if a == aid:
                    hit = e
                elif aid in DEPS[a]:
                    return None
            if hit is None:
                B[m] = c
            elif hit == 1:
                A[tuple(x for x in m if x[0] != aid)] = c
            else:
                return None
        return P(A, self.f), P(B, self.f)


ZERO = P({})
ONE = P({(): 1})
FZERO = P({}, True)
FONE = P({(): 1}, True)


def lift(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return P({(): x}) if x else ZERO
    raise TypeError(repr(x))


def C(x, f=False):
    p = lift(x)
    return p.as_field() if f else p


def A(kind, *args, f=False):
    return P({((atom(kind, *args), 1),): 1}, f)


def PA(aid, f=False):
    return P({((aid, 1),): 1}, f)


def kind(aid):
    return KEYS[aid][0]


def mono_mul(m1, m2):
    """product of two non-constant monomials: a monomial, None (zero), or a P"""
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0:
            d.pop(a)
        else:
            d[a] = v
    inds = None
    eqs = None
    for a in d:
        k = KEYS[a][0]
        if k == "ind":
            d[a] = 1
            if inds is None:
                inds = [a]
            else:
                inds.append(a)
        elif k == "eqp":
            if eqs is None:
                eqs = [a]
            else:
                eqs.append(a)
    if inds and len(inds) > 1:
        seen = {}
        for a in inds:
            x = _excl.get(a)
            if x is not None:
                if x[0] in seen and seen[x[0]] != x[1]:
                    return None
                seen[x[0]] = x[1]
    if eqs and len(eqs) > 1:
        r = _combine_eq(d, eqs)
        if r is not None:
            return r
    return tuple(sorted(d.items()))


def _combine_eq(d, eqs):
    """eq over the low bits times eq over the high bits = eq over all bits"""
    for a in eqs:
        ka = KEYS[a]
        ga = ka[4].single_atom()
        if ga is None or KEYS[ga][0] != "low":
            continue
        g, n1 = KEYS[ga][1], KEYS[ga][2]
        if ka[3] != n1:
            continue
        for b in eqs:
            if b == a:
                continue
            kb = KEYS[b]
            if kb[4] != shr(g, n1):
                continue
            n2 = kb[3]
            v = A("bvtmp", "comb")
            xa, ya = open_b(a, v + n1)
            xb, yb = open_b(b, v)
            if xa == xb and ya == yb:
                if d[a] != 1 or d[b] != 1:
                    continue
                rest = dict(d)
                rest.pop(a)
                rest.pop(b)
                x0, y0 = open_b(a, v)
                q = mk_eqp(v.single_atom(), x0, y0, n1 + n2, g)
                m = tuple(sorted(rest.items()))
                return q * P({m: 1}, True)
    return None


# ---------------------------------------------------------------- bound variables

def bdepth(x):
    """largest index bound by a binder inside x; -1 if none"""
    best = -1
    for a in deps_of(x):
        k = KEYS[a]
        if k[0] in ("sum", "prod", "eqp") and k[-1] > best:
            best = k[-1]
    return best


def close(bv, *ps):
    """replace atom bv by a canonical bound variable; returns (var aid, ps)"""
    dd = bdepth(ps) + 1
    v = A("b", dd)
    return dd, tuple(subst(p, {bv: v}) for p in ps)


def own_b(aid):
    """the variable bound by a sum/prod/eqp atom"""
    return A("b", KEYS[aid][-1])


def mk_sum(bv, lo, hi, body):
    """Sum over binder atom bv in [lo,hi)"""
    n = hi - lo
    if n.is_const() and lo.is_const() and 0 < n.const() <= 4:
        res = P({}, body.f)
        for i in range(n.const()):
            res = res + subst(body, {bv: lo + i})
        return res
    res = P({}, body.f)
    for m, c in body.t.items():
        dep, indep = [], []
        for a, e in m:
            (dep if bv in DEPS[a] else indep).append((a, e))
        coef = P({tuple(indep): c}, body.f)
        if not dep:
            if bv_free(lo, hi):
                res = res + coef * (hi - lo)
            continue
        # collapse  sum_b [b == t] X(b) = X(t)
        done = False
        for a, e in dep:
            k = KEYS[a]
            if k[0] == "ind" and k[1][0] == "eq":
                ab = k[1][1].coeff_of(bv)
                if ab and ab[0].is_const() and ab[0].const() in (1, -1):
                    t = -ab[1] if ab[0].const() == 1 else ab[1]
                    rest = P({tuple(x for x in dep if x[0] != a): 1}, body.f)
                    r = subst(rest, {bv: t})
                    if not in_range(t, lo, hi):
                        r = r * ind(band_([bnot(blt(t - lo)), blt(t - hi)]))
                    res = res + coef * r
                    done = True
                    break
        if done:
            continue
        # sum_b sum_g [t(g) == b] X = sum_g sum_b [t(g) == b] X
        for a, e in dep:
            k = KEYS[a]
            if k[0] != "sum" or e != 1 or bv in k[1].deps() or bv in k[2].deps():
                continue
            z = A("bvtmp", ("xchg", a))
            za = z.single_atom()
            inner = subst(k[3], {own_b(a).single_atom(): z})
            if not any(KEYS[x][0] == "ind" and KEYS[x][1][0] == "eq" and bv in KEYS[x][1][1].deps() and _unit(KEYS[x][1][1], bv)
                       for mm in inner.t for x, _ in mm):
                continue
            RANGES[za] = (k[1], k[2])
            rest = P({tuple(x for x in dep if x[0] != a): 1}, body.f)
            res = res + coef * mk_sum(za, k[1], k[2], mk_sum(bv, lo, hi, rest * inner))
            done = True
            break
        if done:
            continue
        dm = P({tuple(dep): 1}, body.f)
        res = res + coef * mk_sum_closed(bv, lo, hi, dm)
    return res


def _unit(p, bv):
    ab = p.coeff_of(bv)
    return bool(ab and ab[0].is_const() and ab[0].const() in (1, -1))


def bv_free(*x):
    return True


def mk_sum_closed(bv, lo, hi, dm):
    if lo == hi:
        return P({}, dm.f)
    v, (b2,) = close(bv, dm)
    return A("sum", lo, hi, b2, v, f=dm.f)


def mk_prod(bv, lo, hi, body):
    if lo == hi:
        return C(1, body.f)
    if bv not in body.deps():
        if body == ONE:
            return C(1, body.f)
        if body.is_const() and body.const() == 2 and not body.f:
            return p2(hi - lo)
        n = hi - lo
        if n.is_const() and 0 <= n.const() <= 8:
            r = C(1, body.f)
            for _ in range(n.const()):
                r = r * body
            return r
        return A("pow", body, n, f=body.f)
    v, (b2,) = close(bv, body)
    return A("prod", lo, hi, b2, v, f=body.f)


def mk_eqp(bv, X, Y, n, g):
    """prod_{b<n} (bit b of g ? X(b) : Y(b)), X and Y in binder atom bv"""
    if n.is_zero():
        return FONE
    if g.is_zero():
        return mk_prod(bv, ZERO, n, Y)
    v, (x, y) = close(bv, X, Y)
    return A("eqp", x, y, n, g, v, f=True)


def open_b(aid, val):
    k = KEYS[aid]
    v = own_b(aid).single_atom()
    if k[0] == "eqp":
        return subst(k[1], {v: val}), subst(k[2], {v: val})
    if k[0] in ("sum", "prod"):
        return subst(k[3], {v: val})
    raise ValueError


# ---------------------------------------------------------------- integer functions

def p2(n):
    n = lift(n)
    r = ONE
    for m, c in n.t.items():
        if not m:
            if c >= 0:
                r = r * C(2 ** c if isinstance(c, int) else 1)
            else:
                r = r * C(Fraction(1, 2 ** (-c)))
        else:
            if not isinstance(c, int):
                return A("p2", n)
            r = r * P({((atom("p2", P({m: 1})), c),): 1})
    return r


def log2_mono(x):
    """if x is a product of p2 atoms (times a power of two), its exponent"""
    if len(x.t) != 1:
        return None
    (m, c), = x.t.items()
    e = ZERO
    cf = Fraction(c)
    if cf <= 0:
        return None
    num, den = cf.numerator, cf.denominator
    if num & (num - 1) or den & (den - 1):
        return None
    e = e + C(num.bit_length() - 1) - C(den.bit_length() - 1)
    for a, ex in m:
        if KEYS[a][0] != "p2":
            return None
        e = e + KEYS[a][1] * ex
    return e


def shl(a, n):
    return a * p2(n)


def shr(x, n):
    n = lift(n)
    x = lift(x)
    if n.is_zero():
        return x
    if x.is_const() and n.is_const():
        return C(x.const() >> n.const())
    if x.is_zero():
        return ZERO
    if log2_mono(x) is not None:
        return x * p2(-n)
    # x = q*2^n + r,  0 <= r < 2^n
    D = p2(n)
    q, r = _divide(x, D)
    if q is not None and (r.is_zero() or in_range(r, ZERO, D)):
        return q
    s = x.single_atom()
    if s is not None and KEYS[s][0] == "shr":
        return shr(KEYS[s][1], KEYS[s][2] + n)
    return A("shr", x, n)


def _divide(x, D):
    """split x = q*D + r where D is a p2 monomial; q integral"""
    (dm, dc), = D.t.items()
    q, r = {}, {}
    dd = dict(dm)
    for m, c in x.t.items():
        md = dict(m)
        ok = all(md.get(a, 0) >= e for a, e in dd.items()) if dd else True
        cc = Fraction(c) / Fraction(dc)
        if ok and cc.denominator == 1 and (dd or m or cc):
            for a, e in dd.items():
                md[a] -= e
                if md[a] == 0:
                    del md[a]
            q[tuple(sorted(md.items()))] = int(cc)
        elif not dd and not m:
            k = c // dc if isinstance(c, int) else None
            if k is None:
                return None, None
            if k:
                q[()] = int(k)
            if c - k * dc:
                r[()] = c - k * dc
        else:
            r[m] = c
    q = {m: c for m, c in q.items() if c}
    if not q:
        return None, None
    return P(q), P(r)


def low(x, n):
    x, n = lift(x), lift(n)
    if x.is_const() and n.is_const():
        return C(x.const() & ((1 << n.const()) - 1))
    if x.is_zero():
        return ZERO
    D = p2(n)
    if in_range(x, ZERO, D):
        return x
    q, r = _divide(x, D)
    if q is not None and (r.is_zero() or in_range(r, ZERO, D)):
        return r
    return A("low", x, n)


def band(a, b):
    if a.is_const() and b.is_const():
        return C(a.const() & b.const())
    if a.is_const():
        a, b = b, a
    e = log2_mono(b + 1)
    if e is not None:
        if e == ONE:
            return bit(a, ZERO)
        return low(a, e)
    e = log2_mono(a + 1)
    if e is not None and not a.is_const():
        return low(b, e)
    for x, y in ((a, b), (b, a)):
        e = log2_mono(-y)
        if e is not None and not e.is_zero():        # all but the lowest e bits
            return shl(shr(x, e), e)
    return A("band", *sorted((a, b), key=show))


def bit(x, n):
    n = lift(n)
    s = x.single_atom()
    if s is not None and KEYS[s][0] == "shr":
        return bit(KEYS[s][1], KEYS[s][2] + n)
    if n.is_zero():
        ok = True
        c = 0
        for m, v in x.t.items():
            if not m:
                c = v
            elif not isinstance(v, int) or v % 2:
                ok = False
        if ok:
            return C(c & 1)
    return A("bit", x, n)


def bor(a, b):
    if a.is_const() and b.is_const():
        return C(a.const() | b.const())
    if a.is_zero():
        return b
    if b.is_zero():
        return a
    for x, y in ((a, b), (b, a)):
        # x a multiple of D, 0 <= y < D
        D = _content(x)
        if D is not None and in_range(y, ZERO, D):
            return x + y
    for x, y in ((a, b), (b, a)):
        e = log2_mono(y + 1)
        if e is not None and not e.is_zero():        # the lowest e bits all set
            return shl(shr(x, e), e) + y
    return A("bor", *sorted((a, b), key=show))


def _content(x):
    """a p2 monomial (times power of two) dividing x"""
    common = None
    import math
    g = 0
    for m, c in x.t.items():
        if not isinstance(c, int):
            return None
        g = math.gcd(g, c)
        pm = {a: e for a, e in m if KEYS[a][0] == "p2" and e > 0}
        if common is None:
            common = pm
        else:
            common = {a: min(e, pm[a]) for a, e in common.items() if a in pm}
    g = g & -g
    r = P({tuple(sorted(common.items())): g})
    if r == ONE:
        return None
    return r


def bxor(a, b):
    if a.is_const() and b.is_const():
        return C(a.const() ^ b.const())
    if a == ONE:
        a, b = b, a
    if b == ONE:
        par = bit(a, ZERO)
        if par.is_const():
            return a + 1 if par.const() == 0 else a - 1
    o = bor(a, b)
    if o == a + b:              # no common bit
        return o
    return A("bxor", *sorted((a, b), key=show))


SUSPECT = set()     # binders whose range is still being established


def nonneg_atom(a):
    if a in SUSPECT:
        return False
    k = KEYS[a][0]
    return k not in ("phi", "top", "out", "brk")


def range_of(a):
    """known bounds of an atom: binders, and shifted or masked binders"""
    r = RANGES.get(a)
    if r is not None:
        return r
    k = KEYS[a]
    if k[0] == "low":
        return ZERO, p2(k[2])
    if k[0] == "bit":
        return ZERO, lift(2)
    if k[0] == "shr":
        x = k[1].single_atom()
        r = range_of(x) if x is not None else None
        if r is not None:
            lo, hi = r
            m = log2_mono(hi)
            if lo.is_zero() and m is not None:
                return ZERO, p2(m - k[2])
    if k[0] == "sel" and isinstance(k[1], tuple) and k[1][-3:] in (("gates", "[]", "u"), ("gates", "[]", "v")) and len(k[2]) >= 2:
        # well-formed circuits: wires lie inside the row below
        pre = ()
        if "blocks" in k[1]:
            pre = (ZERO,)
        return ZERO, p2(A("sel", k[1][:-3] + ("bit_length",), pre + (k[2][-2] - 1,)))
    if k[0] == "sel" and isinstance(k[1], tuple) and len(k[1]) > 6 and k[1][-5] in ("u_gates", "v_gates") and k[1][-2] == "second" and len(k[2]) == 3:
        # gates listed by wire: (type, (number, other wire))
        bl = lambda i: p2(A("sel", k[1][:-5] + ("bit_length",), (i,)))
        if k[1][-1] == "first":
            return ZERO, bl(k[2][0])
        if k[1][-1] == "second":
            return ZERO, bl(k[2][0] - 1)
    return None


def lower_bound(p, depth=0):
    """a polynomial lower bound of p obtained by replacing binders by their worst ends"""
    if depth > 12:
        return p
    if True:
        at = set(p.atoms())
        for a in at:
            k = KEYS[a]
            if k[0] == "shr" and nonneg_atom(a):
                x = k[1].single_atom()
                c = p.t.get(((x, 1),), 0) if x is not None else 0
                if c:
                    q = p2(k[2]) * PA(a) + A("low", k[1], k[2])
                    p = p + c * (q - PA(x))
                    break
    RG = {a: range_of(a) for a in set(p.atoms())}
    present = [a for a in RG if RG[a] is not None]
    first = [a for a in present
             if not any(b != a and (a in RG[b][0].deps() or a in RG[b][1].deps()) for b in present)]
    for a in sorted(first) + sorted(set(present) - set(first)):
        if True:
            pos = neg = False
            for m, c in p.t.items():
                for x, e in m:
                    if x == a:
                        if e != 1 or any(not nonneg_atom(y) for y, _ in m if y != a):
                            return p
                        if c > 0:
                            pos = True
                        else:
                            neg = True
            if pos and neg:
                ab = p.coeff_of(a)
                if ab is None:
                    return p
                sgn = _sign(ab[0], depth + 1)
                if sgn is None:
                    continue
                pos, neg = sgn > 0, sgn < 0
            lo, hi = RG[a]
            if any(a in DEPS[b] for b in p.atoms() if b != a):
                # occurrences inside other atoms stay: those atoms keep their meaning
                end, q = (lo if pos else hi - 1), ZERO
                for m, c in p.t.items():
                    if any(x == a for x, _ in m):
                        q = q + P({tuple(x for x in m if x[0] != a): c}) * end
                    else:
                        q = q + P({m: c})
                return lower_bound(q, depth + 1)
            return lower_bound(subst(p, {a: (lo if pos else hi - 1)}), depth + 1)
    return p


def _sign(p, depth=0):
    if is_pos(p, depth):
        return 1
    if is_pos(-p, depth):
        return -1
    return None


# smallest values guaranteed by the circuit loaders (layers are padded to at least two gates,
# a circuit has an input layer and at least one more layer)
MIN_SEL = {"bit_length": 1, "total_depth": 2, "total_blocks": 1}


def min_atom(a):
    """a lower bound of a non-negative atom"""
    k = KEYS[a]
    if k[0] == "sel" and isinstance(k[1], tuple) and k[1]:
        return MIN_SEL.get(k[1][-1], 0)
    if k[0] == "widest":
        return 1
    if k[0] == "p2":
        v = _nonneg_terms(k[1])
        return 2 ** v if v is not None and 0 <= v < 64 else 1
    return 0


def _nonneg_terms(p):
    """conservatively: every monomial has nonneg coefficient and nonneg atoms (x*p2 terms dominate negative consts)"""
    c0 = 0
    least = 0
    for m, c in p.t.items():
        if not m:
            c0 = c
            continue
        if c < 0 or any(not nonneg_atom(a) for a, e in m):
            return None
        lo = c
        for a, e in m:
            lo = lo * min_atom(a) ** e if e > 0 else 0
        least += lo
    return c0 + least


def is_pos(p, depth=0):
    v = _nonneg_terms(p)
    if v is not None and v > 0:
        return True
    q = lower_bound(p, depth)
    v = _nonneg_terms(q)
    if v is not None and v > 0:
        return True
    if depth < 3:
        for a in p.atoms():
            if KEYS[a][0] == "ind":
                # either value of a condition
                return all(is_pos(top_subst(p, a, x), depth + 1) for x in (ZERO, ONE))
    return False


def top_subst(p, a, x):
    """p with factor a replaced by x (occurrences inside other atoms stay)"""
    q = ZERO
    for m, c in p.t.items():
        r = P({tuple(y for y in m if y[0] != a): c}, p.f)
        for y, e in m:
            if y == a:
                for _ in range(e):
                    r = r * x
        q = q + r
    return q


def is_nonneg(p):
    return is_pos(p + 1)


def in_range(x, lo, hi):
    """prove lo <= x < hi"""
    if x.is_const() and x.const() < 0:
        return False
    return is_nonneg(x - lo) and is_pos(hi - x)


# ---------------------------------------------------------------- booleans

T = ("T",)
F = ("F",)


def _signnorm(p):
    if not p.t:
        return p
    m = min((m for m in p.t if m), key=lambda m: tuple(m), default=())
    c = p.t[m]
    if c < 0:
        return -p
    return p


def beq(p):
    """p == 0"""
    if p.is_const():
        return T if p.const() == 0 else F
    if not p.f:
        if is_pos(p) or is_pos(-p):
            return F
        # common power-of-two content does not change the zero set
    # two powers of two are equal when their exponents are
    if not p.f and len(p.t) == 2 and () not in p.t:
        (m1, c1), (m2, c2) = p.t.items()
        if c1 * c2 < 0:
            e1, e2 = log2_mono(P({m1: abs(c1)})), log2_mono(P({m2: abs(c2)}))
            if e1 is not None and e2 is not None:
                return beq(e1 - e2)
    # a 0/1 indicator compared with a constant
    s = _single_ind(p)
    if s is not None:
        a, coef, const = s
        b = KEYS[a][1]
        if const == 0:
            return bnot(b)
        if const == -coef:
            return b
        return F
    if not p.f and len(p.t) <= 2:
        s = _single_ind(p, "bit")
        if s is not None and s[2]:
            return bnot(("eq", PA(s[0]))) if s[2] == -s[1] else F
        if s is not None:
            return ("eq", PA(s[0]))
    return ("eq", _signnorm(p))


def _single_ind(p, kd="ind"):
    a = None
    coef = 0
    const = 0
    for m, c in p.t.items():
        if not m:
            const = c
        elif a is None and len(m) == 1 and m[0][1] == 1 and KEYS[m[0][0]][0] == kd:
            a, coef = m[0][0], c
        else:
            return None
    if a is None:
        return None
    return a, coef, const


def blt(p):
    """p < 0, integers"""
    if p.is_const():
        return T if p.const() < 0 else F
    if is_nonneg(p):
        return F
    if is_pos(-p):
        return T
    s = _single_ind(p)
    if s is not None:
        a, coef, const = s
        t1, t0 = coef + const < 0, const < 0
        b = KEYS[a][1]
        if t1 and t0:
            return T
        if not t1 and not t0:
            return F
        return b if t1 else bnot(b)
    return ("lt", p)


def bopaque(*key):
    return ("op",) + key


def bnot(b):
    k = b[0]
    if k == "T":
        return F
    if k == "F":
        return T
    if k == "not":
        return b[1]
    if k == "lt":
        return blt(-b[1] - 1)
    if k == "and":
        return bor_([bnot(x) for x in b[1]])
    if k == "or":
        return band_([bnot(x) for x in b[1]])
    if k == "any":
        return ("all", b[1], bnot(b[2]))
    if k == "all":
        return ("any", b[1], bnot(b[2]))
    return ("not", b)


def band_(xs):
    s = set()
    for x in xs:
        if x == F:
            return F
        if x == T:
            continue
        if x[0] == "and":
            s |= x[1]
        else:
            s.add(x)
    for x in list(s):
        if bnot(x) in s:
            return F
    # exclusive / implied equalities
    eqs = {}
    for x in s:
        if x[0] == "eq":
            p = x[1]
            key = frozenset((m, v) for m, v in p.t.items() if m)
            c = p.t.get((), 0)
            if key in eqs and eqs[key] != c:
                return F
            eqs[key] = c
    if eqs:
        for x in list(s):
            if x[0] == "not" and x[1][0] == "eq":
                p = x[1][1]
                key = frozenset((m, v) for m, v in p.t.items() if m)
                if key in eqs and eqs[key] != p.t.get((), 0):
                    s.discard(x)
    # absorption: x and (x or y)
    for x in list(s):
        if x[0] == "or":
            if any(y in s for y in x[1]):
                s.discard(x)
                continue
            # resolve: x and (not x or y) -> x and y
            keep = frozenset(y for y in x[1] if bnot(y) not in s)
            if keep != x[1]:
                s.discard(x)
                return band_(list(s) + [bor_(list(keep))])
    if not s:
        return T
    if len(s) == 1:
        return next(iter(s))
    return ("and", frozenset(s))


def bor_(xs):
    s = set()
    for x in xs:
        if x == T:
            return T
        if x == F:
            continue
        if x[0] == "or":
            s |= x[1]
        else:
            s.add(x)
    for x in list(s):
        if bnot(x) in s:
            return T
    for x in list(s):
        if x[0] == "and":
            if any(y in s for y in x[1]):
                s.discard(x)
                continue
            keep = frozenset(y for y in x[1] if bnot(y) not in s)
            if keep != x[1]:
                s.discard(x)
                return bor_(list(s) + [band_(list(keep))])
    if not s:
        return F
    if len(s) == 1:
        return next(iter(s))
    # (a and X) or (not a and X) -> X
    l = list(s)
    for i in range(len(l)):
        if l[i][0] != "and":
            continue
        for j in range(i + 1, len(l)):
            if l[j][0] != "and":
                continue
            d1, d2 = l[i][1] - l[j][1], l[j][1] - l[i][1]
            if len(d1) == 1 and len(d2) == 1 and bnot(next(iter(d1))) == next(iter(d2)):
                rest = [x for k, x in enumerate(l) if k not in (i, j)]
                return bor_(rest + [band_(list(l[i][1] & l[j][1]))])
    return ("or", frozenset(s))


def bite(c, a, b):
    if c == T:
        return a
    if c == F:
        return b
    if a == b:
        return a
    return bor_([band_([c, a]), band_([bnot(c), b])])


def ind(b):
    """0/1 polynomial of a boolean"""
    k = b[0]
    if k == "T":
        return ONE
    if k == "F":
        return ZERO
    if k == "not":
        return ONE - ind(b[1])
    if k == "and":
        r = ONE
        for x in sorted(b[1], key=bshow):
            r = r * ind(x)
        return r
    if k == "or":
        r = ONE
        for x in sorted(b[1], key=bshow):
            r = r * (ONE - ind(x))
        return ONE - r
    if k == "lt":
        # canonical direction: [p<0] or 1-[-p-1<0]
        q = -b[1] - 1
        if show(q) < show(b[1]):
            return ONE - A("ind", ("lt", q))
    if k == "all":
        return ONE - A("ind", ("any", b[1], bnot(b[2])))
    return A("ind", b)


def ite(c, a, b):
    if c == T:
        return a
    if c == F:
        return b
    if a == b:
        return a if a.f or not b.f else b
    if c[0] == "not" and c[1][0] == "eq":
        return ite(c[1], b, a)
    d = a - b
    if c[0] == "eq" and d.f and c[1].f and _vanishes(c[1], d):
        return b
    return b + ind(c) * d


def _vanishes(p, d):
    """is the field polynomial d zero wherever p is (p linear in some value of its own)"""
    for m, k in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and KEYS[m[0][0]][0] in ("rnd", "sel", "msg", "in"):
            x = m[0][0]
            if any(x in DEPS[a] for m2 in p.t if m2 != m for a, _ in m2):
                continue
            if any(x in DEPS[a] and a != x for m2 in d.t for a, _ in m2):
                continue
            inv = C(pow(int(k), -1, PMOD), True) if k not in (1, -1) else C(int(k), True)
            return subst(d, {x: PA(x, True) - p * inv}).is_zero()
    return False


def tobool(p):
    """p != 0 as a boolean"""
    return bnot(beq(p))


# ---------------------------------------------------------------- substitution

def subst(x, mp, memo=None):
    if not mp:
        return x
    if memo is None:
        memo = {}
    ks = frozenset(mp)
    return _subst(x, mp, ks, memo)


def _subst(x, mp, ks, memo):
    if isinstance(x, P):
        if not (x.deps() & ks):
            return x
        r = P({}, x.f)
        for m, c in x.t.items():
            term = P({(): c}, x.f)
            keep = []
            for a, e in m:
                if not (DEPS[a] & ks):
                    keep.append((a, e))
            if keep:
                term = P({tuple(keep): c}, x.f)
            for a, e in m:
                if not (DEPS[a] & ks):
                    continue
                v = _subst_atom(a, mp, ks, memo)
                if e < 0:
                    l = log2_mono(v)
                    if l is None:
                        v = A("inv", v)
                    else:
                        v = p2(-l)
                    e = -e
                for _ in range(e):
                    term = term * v
            r = r + term
        return r
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in _BK:
        return bsubst(x, mp, ks, memo)
    if isinstance(x, tuple):
        return tuple(_subst(y, mp, ks, memo) for y in x)
    return x


_BK = {"T", "F", "eq", "lt", "not", "and", "or", "any", "all", "op"}


def bsubst(b, mp, ks, memo):
    k = b[0]
    if k in ("T", "F"):
        return b
    if k == "eq":
        return beq(_subst(b[1], mp, ks, memo))
    if k == "lt":
        return blt(_subst(b[1], mp, ks, memo))
    if k == "not":
        return bnot(bsubst(b[1], mp, ks, memo))
    if k == "and":
        return band_([bsubst(x, mp, ks, memo) for x in b[1]])
    if k == "or":
        return bor_([bsubst(x, mp, ks, memo) for x in b[1]])
    if k in ("any", "all"):
        inner = bsubst(b[2], mp, ks, memo)
        return mk_q(k, b[1], inner)
    return (k,) + tuple(_subst(y, mp, ks, memo) if isinstance(y, (P, tuple)) else y for y in b[1:])


def mk_q(k, L, inner):
    if inner == F and k == "any":
        return F
    if inner == T and k == "all":
        return T
    return (k, L, inner)


SEL_HOOK = [None]


def _subst_atom(a, mp, ks, memo):
    if a in mp:
        return mp[a]
    if a in memo:
        return memo[a]
    k = KEYS[a]
    kd = k[0]
    args = tuple(_subst(y, mp, ks, memo) if isinstance(y, (P, tuple)) else y for y in k[1:])
    r = rebuild(kd, args, a)
    memo[a] = r
    return r


FIELD_KINDS = set()


def rebuild(kd, args, a):
    if kd == "ind":
        return ind(args[0])
    if kd == "p2":
        return p2(args[0])
    if kd == "shr":
        return shr(*args)
    if kd == "low":
        return low(*args)
    if kd == "band":
        return band(*args)
    if kd == "bor":
        return bor(*args)
    if kd == "bxor":
        return bxor(*args)
    if kd == "bit":
        return bit(*args)
    if kd == "bitlen":
        return bitlen(*args)
    if kd in ("sum", "prod"):
        lo, hi, body = args[:3]
        z = A("bvtmp", a)
        za = z.single_atom()
        RANGES[za] = (lo, hi)
        b2 = subst(body, {own_b(a).single_atom(): z})
        return (mk_sum if kd == "sum" else mk_prod)(za, lo, hi, b2)
    if kd == "eqp":
        x, y, n, g = args[:4]
        v = own_b(a).single_atom()
        z = A("bvtmp", a)
        RANGES[z.single_atom()] = (ZERO, n)
        return mk_eqp(z.single_atom(), subst(x, {v: z}), subst(y, {v: z}), n, g)
    if kd == "toF":
        return toF(args[0])
    if kd == "strch":
        return strch(*args)
    if kd == "pow":
        return A("pow", *args)
    return A(kd, *args)


def bitlen(x):
    if x.is_const():
        return C(x.const().bit_length())
    e = log2_mono(x)
    if e is not None:
        return e + 1
    a = x.single_atom()
    if a is not None and KEYS[a][0] == "shr" and KEYS[a][2] == ONE and is_pos(KEYS[a][1]):
        return bitlen(KEYS[a][1]) - 1
    y = log2_mono(x + 1)
    if y is not None:
        return y
    return A("bitlen", x)


def strch(s, i):
    """character i of a constant string"""
    if s is None:
        return A("top", ("strch",))
    if i.is_const() and 0 <= i.const() <= len(s):
        return C(ord(s[i.const()]) if i.const() < len(s) else 0)
    return A("strch", s, i)


def toF(p):
    """field_element(int): exact for non-negative values"""
    if p.is_const():
        c = p.const()
        if c < 0:
            c += 2 ** 64
        return C(c, True)
    if is_nonneg(p) and all(KEYS[a][0] in ("bit", "ind") for m in p.t for a, e in m) and all(isinstance(c, int) for c in p.t.values()):
        r = C(0, True)
        for m, c in p.t.items():
            x = C(c % PMOD if c < 0 else c, True)
            for a, e in m:
                x = x * (FONE - ind(beq(PA(a))) if KEYS[a][0] == "bit" else PA(a)).as_field()
            r = r + x
        return r
    return A("toF", p, f=True)


# ---------------------------------------------------------------- printing

def show_atom(a, d=0):
    k = KEYS[a]
    kd = k[0]
    if kd == "sel":
        return "%s[%s]" % (show_base(k[1]), ",".join(show(x, d + 1) for x in k[2]))
    if kd == "ind":
        return "[" + bshow(k[1], d + 1) + "]"
    if kd == "b":
        return "b%d" % k[1]
    if kd == "sym":
        return str(k[1])
    if kd == "eqp":
        return "EQ{b%d}(%s|%s;%s;%s)" % ((k[5],) + tuple(show(x, d + 1) for x in k[1:5]))
    if kd in ("sum", "prod"):
        v = own_b(a)
        return "%s{%s=%s..%s}(%s)" % (kd, show(v), show(k[1], d + 1), show(k[2], d + 1), show(k[3], d + 1))
    if kd == "toF":
        return "F(%s)" % show(k[1], d + 1)
    return "%s(%s)" % (kd, ",".join(show_any(x, d + 1) for x in k[1:]))


def show_base(b):
    if isinstance(b, tuple):
        return "/".join(show_any(x) for x in b)
    return str(b)


def show_any(x, d=0):
    if isinstance(x, P):
        return show(x, d)
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in _BK:
        return bshow(x, d)
    if isinstance(x, (tuple, list)):
        return "/".join(show_any(y, d) for y in x)
    if isinstance(x, frozenset):
        return "{" + ",".join(sorted(show_any(y, d) for y in x)) + "}"
    return str(x)


_showc = {}


def show(p, d=0):
    r = _showc.get(p)
    if r is not None:
        return r
    if not p.t:
        return "0"
    parts = []
    for m, c in p.t.items():
        fs = []
        for a, e in m:
            s = show_atom(a, d)
            fs.append(s if e == 1 else "%s^%d" % (s, e))
        fs.sort()
        body = "*".join(fs)
        if not body:
            parts.append(str(c))
        elif c == 1:
            parts.append(body)
        elif c == -1:
            parts.append("-" + body)
        else:
            parts.append("%s*%s" % (c, body))
    parts.sort()
    r = " + ".join(parts)
    _showc[p] = r
    return r


def bshow(b, d=0):
    k = b[0]
    if k in ("T", "F"):
        return k
    if k == "eq":
        return show(b[1]) + "==0"
    if k == "lt":
        return show(b[1]) + "<0"
    if k == "not":
        return "!(" + bshow(b[1]) + ")"
    if k in ("and", "or"):
        return "(" + (" && " if k == "and" else " || ").join(sorted(bshow(x) for x in b[1])) + ")"
    if k in ("any", "all"):
        return "%s<%s>(%s)" % (k, show_any(b[1]), bshow(b[2]))
    return "op(" + ",".join(show_any(x) for x in b[1:]) + ")"
