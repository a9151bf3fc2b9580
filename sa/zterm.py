"""Integer terms with exact floors: the value domain of the wide-integer and reduction analyses.

A term is a polynomial over atoms with integer coefficients. Atoms are inputs with a known range,
floors  fl(t, k) = floor(t / 2^k)  in a normal form (multiples of 2^k and inner floors are pulled
out, so limb sums re-assemble to the whole number), 0/1 indicators of conditions, and opaque values.
A region is a conjunction of interval facts about linear forms; bounds() evaluates a term over a region.
"""
from fractions import Fraction as Fr

ATOMS = []          # id -> (kind, ...)
INDEX = {}
RANGE = {}          # id -> (lo, hi) inclusive, None = unbounded


def _atom(key, lo, hi):
    i = INDEX.get(key)
    if i is None:
        i = INDEX[key] = len(ATOMS)
        ATOMS.append(key)
        RANGE[i] = (lo, hi)
    return i


class Z:
    __slots__ = ("t", "_h")

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Z) and self.t == o.t

    def __add__(self, o):
        o = lift(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Z(r)

    __radd__ = __add__

    def __neg__(self):
        return Z({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        if isinstance(o, (int, Fr)):
            return Z({m: c * o for m, c in self.t.items()}) if o else Z()
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Z(r)

    __rmul__ = __mul__

    def const(self):
        """the constant value, or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def c0(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def __repr__(self):
        return show(self)


def _mono(a, b):
    if not a:
        return b
    if not b:
        return a
    m = sorted(a + b)
    out = []
    for x in m:
        if out and out[-1] == x and ATOMS[x][0] == "ind":
            continue
        out.append(x)
    return tuple(out)


def lift(x):
    if isinstance(x, Z):
        return x
    return Z({(): x}) if x else Z()


def inp(name, lo, hi):
    return Z({(_atom(("in", name, lo, hi), lo, hi),): 1})


def opaque(why, lo=None, hi=None):
    return Z({(_atom(("opq", why), lo, hi),): 1})


def fn(name, args, lo, hi):
    """a known function of terms (bitwise and, count of leading zeros)"""
    return Z({(_atom(("fn", name, tuple(args)), lo, hi),): 1})


def band(a, b, w):
    """bitwise and of two w-bit values (both non-negative)"""
    a, b = lift(a), lift(b)
    for x, y in ((a, b), (b, a)):
        c = x.const()
        if c is not None:
            c %= 1 << w
            out, i = Z(), 0
            while c >> i:
                if c >> i & 1:
                    j = i
                    while c >> j & 1:
                        j += 1
                    out = out + (fl(y, i) - fl(y, j) * (1 << (j - i))) * (1 << i)
                    i = j
                else:
                    i += 1
            return out
    if a == b:
        return a
    for x, y in ((a, b), (b, a)):
        lo, hi = bounds(y)
        if lo is not None and lo >= 0 and hi is not None:
            k = hi.bit_length()
            if all(c % (1 << k) == 0 for c in x.t.values()):
                return Z()
    if show(a, 10 ** 9) > show(b, 10 ** 9):
        a, b = b, a
    his = [h for h in (bounds(a)[1], bounds(b)[1]) if h is not None]
    return fn("and", (a, b), 0, min(his) if his else (1 << w) - 1)


def clz(x, w):
    return fn("clz%d" % w, (lift(x),), 0, w - 1)


def show(t, n=400):
    if not t.t:
        return "0"
    out = []
    for m, c in sorted(t.t.items(), key=lambda x: (len(x[0]), x[0])):
        s = "*".join(show_atom(a) for a in m)
        if not s:
            out.append(_num(c))
        else:
            out.append(s if c == 1 else "-" + s if c == -1 else _num(c) + "*" + s)
    return " + ".join(out)[:n]


def _num(c):
    if isinstance(c, int) and abs(c) > 1 << 20:
        for d in (0, 1, -1):
            v = abs(c) + d
            if v & (v - 1) == 0:
                return ("-" if c < 0 else "") + "(2^%d%s)" % (v.bit_length() - 1, {0: "", 1: "-1", -1: "+1"}[d])
    return str(c)


def show_atom(a):
    k = ATOMS[a]
    if k[0] == "in":
        return str(k[1])
    if k[0] == "fl":
        return "floor((%s)/2^%d)" % (show(k[1], 200), k[2])
    if k[0] == "ind":
        return "[%s]" % show_cond(k[1])
    if k[0] == "fn":
        return "%s(%s)" % (k[1], ", ".join(show(x, 150) for x in k[2]))
    return "?" + str(k[1])[:60]


def show_cond(c):
    if c is True or c is False:
        return str(c)
    if c[0] == "lt0":
        return show(c[1], 120) + "<0"
    if c[0] == "eq0":
        return show(c[1], 120) + "==0"
    if c[0] == "not":
        return "!(" + show_cond(c[1]) + ")"
    if c[0] in ("and", "or"):
        return "(" + (" && " if c[0] == "and" else " || ").join(show_cond(x) for x in c[1:]) + ")"
    return str(c)[:60]


# ---------------------------------------------------------------- floors

def fl(t, k):
    """floor(t / 2^k)"""
    t = lift(t)
    if k == 0:
        return t
    M = 1 << k
    q, r = {}, {}
    for m, c in t.t.items():
        x = c % M
        if m and x > M // 2:
            x -= M
        if x:
            r[m] = x
        if c - x:
            q[m] = (c - x) >> k
    q, r = Z(q), Z(r)
    if not r.t:
        return q
    # a single inner floor: merge
    inner = [(m, a) for m in r.t for a in m if ATOMS[a][0] == "fl"]
    if len(inner) == 1 and len(inner[0][0]) == 1 and r.t[inner[0][0]] == 1:
        a = inner[0][1]
        _, x, j = ATOMS[a]
        rest = r - Z({(a,): 1})
        return q + fl(x + rest * (1 << j), j + k)
    # a low part that cannot carry
    for j in sorted({(abs(c) & -abs(c)).bit_length() - 1 for c in r.t.values()}, reverse=True):
        if j <= 0:
            break
        L = Z({m: c for m, c in r.t.items() if c % (1 << j)})
        b = bounds(L)
        if b[0] is not None and b[1] is not None and b[0] >> j == b[1] >> j and len(L.t) < len(r.t):
            H = Z({m: c >> j for m, c in r.t.items() if c % (1 << j) == 0})
            return q + fl(H + (b[0] >> j), k - j)
    lo, hi = bounds(r)
    flo = None if lo is None else lo >> k
    fhi = None if hi is None else hi >> k
    if flo is not None and flo == fhi:
        return q + flo
    return q + Z({(_atom(("fl", r, k), flo, fhi),): 1})


def wrap(t, w):
    """t modulo 2^w"""
    return t - fl(t, w) * (1 << w)


# ---------------------------------------------------------------- bounds

class Region:
    """interval facts about linear forms (no constant part)"""
    __slots__ = ("facts", "eqs", "memo")

    def __init__(self, facts=(), eqs=()):
        self.facts = tuple(facts)        # (form, ((lo, hi), ...))
        self.eqs = tuple(eqs)            # (atom, term) to substitute
        self.memo = {}

    def get(self, form):
        for f, iv in self.facts:
            if f == form:
                return iv
        return None


EMPTY = Region()


def _imul(a, b):
    """interval product; None = infinite"""
    if a == (0, 0) or b == (0, 0):
        return (0, 0)
    if None in a or None in b:
        al, ah = a
        bl, bh = b
        if al is not None and al >= 0 and bl is not None and bl >= 0:
            return (al * bl, None if ah is None or bh is None else ah * bh)
        return (None, None)
    p = [x * y for x in a for y in b]
    return (min(p), max(p))


def _iadd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0],
            None if a[1] is None or b[1] is None else a[1] + b[1])


def _iscale(a, c):
    lo = None if a[0] is None else a[0] * c
    hi = None if a[1] is None else a[1] * c
    return (lo, hi) if c >= 0 else (hi, lo)


def _imeet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return (lo, hi)


def arange(a, reg):
    lo, hi = RANGE[a]
    iv = reg.get(Z({(a,): 1}))
    if iv:
        lo, hi = _imeet((lo, hi), (iv[0][0], iv[-1][1]))
    k = ATOMS[a]
    if k[0] == "fl" and reg.facts:
        l2, h2 = bounds(k[1], reg)
        lo, hi = _imeet((lo, hi), (None if l2 is None else l2 >> k[2], None if h2 is None else h2 >> k[2]))
    if k[0] == "ind" and reg.facts:
        d = decide(k[1], reg)
        if d is not None:
            return (int(d), int(d))
    return lo, hi


def _plain(t, reg):
    tot = (0, 0)
    for m, c in t.t.items():
        v = (1, 1)
        i = 0
        while i < len(m):
            a = m[i]
            r = arange(a, reg)
            if i + 1 < len(m) and m[i + 1] == a:      # squares are not negative
                r2 = _imul(r, r)
                if r2[0] is not None and r2[0] < 0:
                    r2 = (0, r2[1])
                v = _imul(v, r2)
                i += 2
                continue
            v = _imul(v, r)
            i += 1
        tot = _iadd(tot, _iscale(v, c))
    return tot


def bounds(t, reg=EMPTY, depth=0):
    key = (t, depth)
    r = reg.memo.get(key)
    if r is not None:
        return r
    reg.memo[key] = (None, None)
    best = _plain(t, reg)
    if depth < 4:
        # use a fact about a form that occurs in t
        for f, iv in reg.facts:
            if len(f.t) < 2:
                continue
            m = max(f.t, key=lambda m: (abs(f.t[m]), m))
            if m in t.t:
                k = Fr(t.t[m], f.t[m])
                rest = t - f * k
                b = bounds(rest, reg, depth + 1)
                best = _imeet(best, _iadd(b, _iscale((iv[0][0], iv[-1][1]), k)))
        # a floor is its argument up to a fraction
        for m in t.t:
            if len(m) == 1 and ATOMS[m[0]][0] == "fl" and len(t.t) > 1:
                _, x, k = ATOMS[m[0]]
                rest = deep_atoms(t - Z({m: t.t[m]}))
                if not (deep_atoms(x) & rest):
                    continue
                c = t.t[m]
                rest = t - Z({m: c})
                b = bounds(rest + x * Fr(c, 1 << k), reg, depth + 1)
                best = _imeet(best, _iadd(b, _iscale((Fr(1, 1 << k) - 1, 0), c)))
    lo = None if best[0] is None else _ceil(best[0])
    hi = None if best[1] is None else _floor(best[1])
    if all(isinstance(c, int) or c.denominator == 1 for c in t.t.values()):
        best = (lo, hi)
    reg.memo[key] = best
    return best


def _ceil(x):
    return -((-x.numerator) // x.denominator) if isinstance(x, Fr) else x


def _floor(x):
    return x.numerator // x.denominator if isinstance(x, Fr) else x


# ---------------------------------------------------------------- conditions

def lt0(t):
    lo, hi = bounds(t)
    if hi is not None and hi < 0:
        return True
    if lo is not None and lo >= 0:
        return False
    return ("lt0", t)


def eq0(t):
    lo, hi = bounds(t)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return False
    if lo == 0 and hi == 0:
        return True
    if () not in t.t and t.t:
        from math import gcd
        g = 0
        for c in t.t.values():
            g = gcd(g, c)
        if g > 1:
            return eq0(Z({m: c // g for m, c in t.t.items()}))
    if lo is None or hi is None:
        pass
    else:
        for j in sorted({(abs(c) & -abs(c)).bit_length() - 1 for c in t.t.values()}, reverse=True):
            if j <= 0:
                break
            L = Z({m: c for m, c in t.t.items() if c % (1 << j)})
            b = bounds(L)
            if L.t and len(L.t) < len(t.t) and b[0] > -(1 << j) and b[1] < 1 << j:
                return cand(eq0(Z({m: c >> j for m, c in t.t.items() if c % (1 << j) == 0})), eq0(L))
    m = min((m for m in t.t if m), default=None)
    if m is not None and t.t[m] < 0:
        t = -t
    # a sum of non-negative terms is zero when every term is
    if lo == 0 and len(t.t) > 1 and () not in t.t and all(c > 0 for c in t.t.values()) and all(len(m) == 1 for m in t.t):
        return cand(*[eq0(Z({m: 1})) for m in t.t])
    return ("eq0", t)


def cnot(c):
    if c is True or c is False:
        return not c
    if c[0] == "not":
        return c[1]
    if c[0] == "lt0":
        return lt0(-c[1] - 1)
    return ("not", c)


def cand(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True or c in out:
            continue
        out.append(c)
    return True if not out else out[0] if len(out) == 1 else ("and",) + tuple(out)


def cor(*cs):
    return cnot(cand(*[cnot(c) for c in cs]))


def ind(c):
    if c is True:
        return lift(1)
    if c is False:
        return lift(0)
    if c[0] == "not":
        return 1 - ind(c[1])
    if c[0] == "eq0":
        b = bounds(c[1])
        if b == (0, 1):
            return 1 - c[1]
        if b == (-1, 0):
            return 1 + c[1]
    return Z({(_atom(("ind", c), 0, 1),): 1})


def ite(c, a, b):
    if c is True or a == b:
        return a
    if c is False:
        return b
    i = ind(c)
    return b + i * (a - b)


def form(t):
    """t = k*f + c with f a primitive form: (f, k, c)"""
    from math import gcd
    c = t.c0()
    g = 0
    for m, x in t.t.items():
        if m:
            g = gcd(g, x)
    m0 = min(m for m in t.t if m)
    if t.t[m0] < 0:
        g = -g
    return Z({m: x // g for m, x in t.t.items() if m}), g, c


def ivals(t, op, reg):
    """interval facts meaning  t <op> 0 : (form, intervals)"""
    f, k, c = form(t)
    lo, hi = bounds(f, reg)
    L = lo if lo is not None else -(1 << 2000)
    H = hi if hi is not None else (1 << 2000)
    cur = reg.get(f) or ((L, H),)
    if op == "lt":       # k f + c < 0
        if k > 0:
            want = [(L, (-c - 1) // k)]
        else:
            want = [((-c) // k + 1, H)]
    elif op == "eq":
        if c % k:
            return f, ()
        v = -c // k
        want = [(v, v)]
    else:                # ne
        if c % k:
            want = [(L, H)]
        else:
            v = -c // k
            want = [(L, v - 1), (v + 1, H)]
    out = []
    for a, b in cur:
        for x, y in want:
            l, h = max(a, x, L), min(b, y, H)
            if l <= h:
                out.append((l, h))
    return f, tuple(out)


def assume(c, reg):
    """the region where c also holds, or None when it is empty"""
    if c is True:
        return reg
    if c is False:
        return None
    neg = False
    if c[0] == "not":
        neg, c = True, c[1]
    if c[0] == "and" and not neg or c[0] == "or" and neg:
        for x in c[1:]:
            reg = assume(cnot(x) if neg else x, reg)
            if reg is None:
                return None
        return reg
    if c[0] in ("and", "or"):
        return reg
    t = simp(c[1], reg)
    if c[0] == "opqc":
        return reg
    if t.const() is not None:
        v = t.const() < 0 if c[0] == "lt0" else t.const() == 0
        return reg if v != neg else None
    f, iv = ivals(t, ("ge" if neg else "lt") if c[0] == "lt0" else ("ne" if neg else "eq"), reg) if not (c[0] == "lt0" and neg) \
        else ivals(-t - 1, "lt", reg)
    if not iv:
        return None
    facts = tuple(x for x in reg.facts if x[0] != f) + ((f, iv),)
    eqs = reg.eqs
    if len(iv) == 1 and iv[0][0] == iv[0][1]:
        # solve for an atom with coefficient +-1 that occurs nowhere else
        for m in sorted(f.t, reverse=True):
            if len(m) == 1 and abs(f.t[m]) == 1 and ATOMS[m[0]][0] == "in":
                rest = f - Z({m: f.t[m]})
                if m[0] not in deep_atoms(rest):
                    eqs = eqs + ((m[0], (iv[0][0] - rest) * f.t[m]),)
                    break
    return Region(facts, eqs)


def decide(c, reg):
    """truth of c over the region: True, False or None"""
    if c is True or c is False:
        return c
    k = c[0]
    if k == "not":
        d = decide(c[1], reg)
        return None if d is None else not d
    if k == "and":
        r = True
        for x in c[1:]:
            d = decide(x, reg)
            if d is False:
                return False
            if d is None:
                r = None
        return r
    if k == "lt0":
        lo, hi = bounds(c[1], reg)
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
        return None
    if k == "eq0":
        lo, hi = bounds(c[1], reg)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return False
        if lo == 0 and hi == 0:
            return True
        if any(m for m in c[1].t):
            f, iv = ivals(c[1], "eq", reg)
            if not iv:
                return False
        return None
    return None


def deep_atoms(t, seen=None):
    seen = set() if seen is None else seen
    for a in t.atoms():
        if a not in seen:
            seen.add(a)
            k = ATOMS[a]
            if k[0] == "fl":
                deep_atoms(k[1], seen)
            elif k[0] == "ind":
                _cond_atoms(k[1], seen)
            elif k[0] == "fn":
                for x in k[2]:
                    deep_atoms(x, seen)
    return seen


def _cond_atoms(c, seen):
    if isinstance(c, tuple):
        for x in c[1:]:
            if isinstance(x, Z):
                deep_atoms(x, seen)
            else:
                _cond_atoms(x, seen)


def subst(t, mp):
    """replace atoms by terms, everywhere"""
    if not (deep_atoms(t) & set(mp)):
        return t
    out = Z()
    for m, c in t.t.items():
        v = lift(c)
        for a in m:
            v = v * subst_atom(a, mp)
        out = out + v
    return out


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    k = ATOMS[a]
    if k[0] == "fl":
        return fl(subst(k[1], mp), k[2])
    if k[0] == "ind":
        return ind(csubst(k[1], mp))
    if k[0] == "fn":
        args = [subst(x, mp) for x in k[2]]
        if k[1] == "and":
            return band(args[0], args[1], 128)
        c = args[0].const()
        if c:
            return lift(int(k[1][3:]) - c.bit_length())
        return fn(k[1], args, *RANGE[a])
    return Z({(a,): 1})


def csubst(c, mp):
    if c is True or c is False:
        return c
    if c[0] == "lt0":
        return lt0(subst(c[1], mp))
    if c[0] == "eq0":
        return eq0(subst(c[1], mp))
    if c[0] == "not":
        return cnot(csubst(c[1], mp))
    if c[0] == "and":
        return cand(*[csubst(x, mp) for x in c[1:]])
    return c


def simp(t, reg):
    """t with everything the region determines filled in"""
    for _ in range(6):
        mp = {}
        for a, v in reg.eqs:
            mp[a] = v
        for a in deep_atoms(t):
            if a in mp:
                continue
            k = ATOMS[a]
            lo, hi = arange(a, reg)
            if lo is not None and lo == hi:
                mp[a] = lift(lo)
            elif k[0] == "ind":
                c2 = csimp(k[1], reg)
                if c2 != k[1]:
                    mp[a] = ind(c2)
        t2 = subst(t, mp) if mp else t
        if t2 == t:
            return t
        t = t2
    return t


def csimp(c, reg):
    if c is True or c is False:
        return c
    if c[0] == "not":
        return cnot(csimp(c[1], reg))
    if c[0] == "and":
        return cand(*[csimp(x, reg) for x in c[1:]])
    if c[0] in ("lt0", "eq0"):
        d = decide(c, reg)
        if d is not None:
            return d
        t = simp(c[1], reg)
        n = lt0(t) if c[0] == "lt0" else eq0(t)
        if n is True or n is False:
            return n
        d = decide(n, reg)
        return n if d is None else d
    return c


def leaf(c):
    """an elementary condition inside c"""
    while c[0] in ("not", "and"):
        c = c[1]
    return c


def pick(t, reg, depth=0):
    """what to split on to learn more about t: ('cond', c) or ('fl', atom, values)"""
    best = None
    for a in sorted(deep_atoms(t)):
        k = ATOMS[a]
        if k[0] == "ind":
            c = leaf(k[1])
            if c[0] not in ("lt0", "eq0"):
                continue
            inner = [x for x in deep_atoms(c[1]) if ATOMS[x][0] == "ind"]
            if inner:
                continue
            f = [x for x in c[1].atoms() if ATOMS[x][0] == "fl"]
            fl_ = [x for x in f if small(x, reg)]
            if fl_:
                cand_ = ("fl", fl_[0])
            else:
                cand_ = ("cond", c)
            return cand_
    for a in sorted(deep_atoms(t)):
        k = ATOMS[a]
        if k[0] == "fl" and small(a, reg) and not any(ATOMS[x][0] in ("ind",) for x in deep_atoms(k[1])):
            if not any(small(x, reg) for x in k[1].atoms() if ATOMS[x][0] == "fl"):
                return ("fl", a)
    return None


def small(a, reg):
    lo, hi = arange(a, reg)
    return lo is not None and hi is not None and hi - lo <= 3


def branches(p, reg):
    if p[0] == "cond":
        for c in (p[1], cnot(p[1])):
            r = assume(c, reg)
            if r is not None:
                for x in hulls(r):
                    x = tighten(x)
                    if x is not None:
                        yield x
    else:
        a = p[1]
        _, x, k = ATOMS[a]
        lo, hi = arange(a, reg)
        for v in range(lo, hi + 1):
            r = assume(cand(lt0(x - ((v + 1) << k)), cnot(lt0(x - (v << k)))), reg)
            if r is not None:
                f = Z({(a,): 1})
                r = Region(tuple(y for y in r.facts if y[0] != f) + ((f, ((v, v),)),), r.eqs)
                r = tighten(r)
                if r is not None:
                    yield r


def consistent(reg):
    """False when two facts contradict each other"""
    for n, (f, iv) in enumerate(reg.facts):
        if len(f.t) < 2 and all(ATOMS[a][0] == "in" for a in f.atoms()):
            continue
        lo, hi = bounds(f, Region(reg.facts[:n] + reg.facts[n + 1:], reg.eqs))
        if lo is not None and lo > iv[-1][1] or hi is not None and hi < iv[0][0]:
            return False
    return True


def tighten(reg):
    """fill what single-valued facts determine into the other facts; None when they contradict each other"""
    for _ in range(6):
        change = False
        for n, (f, iv) in enumerate(reg.facts):
            if len(iv) != 1 or len(f.t) < 2:
                continue
            rest = Region(reg.facts[:n] + reg.facts[n + 1:], reg.eqs)
            g = simp(f, rest)
            if g == f:
                continue
            lo, hi = iv[0]
            r = assume(cand(cnot(lt0(g - lo)), cnot(lt0(hi - g))), rest)
            if r is None:
                return None
            reg, change = r, True
            break
        if not change:
            break
    return reg if consistent(reg) else None


def hulls(reg):
    for n, (f, iv) in enumerate(reg.facts):
        if len(iv) > 1:
            for x in iv:
                for y in hulls(Region(reg.facts[:n] + ((f, (x,)),) + reg.facts[n + 1:], reg.eqs)):
                    yield y
            return
    yield reg


def zero_mod(t, mod, reg=EMPTY, fuel=None):
    """is t == 0 (mod `mod`; mod None: exactly) everywhere in the region?
    True, or the (term, region) that remains"""
    fuel = fuel if fuel is not None else [400]
    fuel[0] -= 1
    t = simp(t, reg)
    if mod is not None:
        t = Z({m: c % mod if c % mod <= mod // 2 else c % mod - mod for m, c in t.t.items() if c % mod})
    if not t.t:
        return True
    p = pick(t, reg) if fuel[0] > 0 else None
    if p is None:
        return t, reg
    n = 0
    for r in branches(p, reg):
        n += 1
        res = zero_mod(t, mod, r, fuel)
        if res is not True:
            return res
    return True


def same_truth(a, b, reg=EMPTY):
    return zero_mod(ind(a) - ind(b), None, reg)


# ---------------------------------------------------------------- a witness for a difference that remains

def value(t, env):
    s = 0
    for m, c in t.t.items():
        v = c
        for a in m:
            v = v * avalue(a, env)
        s += v
    return s


def avalue(a, env):
    if a in env:
        return env[a]
    k = ATOMS[a]
    if k[0] == "fl":
        v = value(k[1], env) >> k[2]
    elif k[0] == "ind":
        v = int(cvalue(k[1], env))
    elif k[0] == "fn":
        xs = [value(x, env) for x in k[2]]
        v = xs[0] & xs[1] if k[1] == "and" else int(k[1][3:]) - xs[0].bit_length()
    else:
        raise KeyError(a)
    env[a] = v
    return v


def cvalue(c, env):
    if c is True or c is False:
        return c
    if c[0] == "lt0":
        return value(c[1], env) < 0
    if c[0] == "eq0":
        return value(c[1], env) == 0
    if c[0] == "not":
        return not cvalue(c[1], env)
    if c[0] == "and":
        return all(cvalue(x, env) for x in c[1:])
    raise KeyError(c)


def witness(t, mod, tries=20000, where=True, hints=()):
    """input values at which the summary t is not 0 (mod `mod`); None when none of the corner values is one"""
    import random
    rnd = random.Random(7)
    ins = sorted(a for a in deep_atoms(t) | (deep_atoms(ind(where)) if where is not True else set()) if ATOMS[a][0] == "in")
    if any(ATOMS[a][0] == "opq" for a in deep_atoms(t)):
        return None
    twin = {}
    for a in ins:
        h, _, r = str(ATOMS[a][1]).partition(".")
        for b in ins:
            if b != a and str(ATOMS[b][1]).partition(".")[2] == r and r and RANGE[a] == RANGE[b]:
                twin.setdefault(a, b)
    for n in range(tries):
        env = {}
        last = []
        pair = n % 3 == 0 and twin
        for a in ins:
            if pair and twin.get(a) in env and rnd.random() < 0.85:
                env[a] = env[twin[a]]
                continue
            lo, hi = RANGE[a]
            w = hi - lo
            corners = [lo, hi, lo + 1 if w else lo, hi - 1 if w else hi, lo + w // 2, lo + w // 2 + 1 if w else lo]
            r = rnd.random()
            if hints and rnd.random() < 0.4:
                v = rnd.choice(hints)
                v = v * rnd.choice([1, rnd.randint(0, max(0, hi // v))]) + rnd.choice([0, 1, -1]) if v else lo
            elif r < 0.6:
                v = rnd.choice(corners)
            elif r < 0.75 and last:
                v = rnd.choice(last)
                v = rnd.choice([v, v + 1, v - 1, hi - v, hi - v - 1])
            elif r < 0.9:
                b = rnd.randrange(max(1, w.bit_length()))
                v = lo + rnd.choice([1 << b, (1 << b) - 1, w - (1 << b)])
            else:
                v = rnd.randint(lo, hi)
            v = min(max(v, lo), hi)
            last.append(v)
            env[a] = v
        e = dict(env)
        try:
            if where is not True and not cvalue(where, e):
                continue
            x = value(t, e)
        except KeyError:
            return None
        if (x % mod if mod is not None else x) != 0:
            return {ATOMS[a][1]: env[a] for a in ins}
    return None
