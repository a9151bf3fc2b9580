"""F02, second part: every place that combines representations of field elements directly (the .value members) or through
the field operators stays inside the range in which product, reduction, subtraction and comparison are exact.

Whole-program interval analysis: one range per named table / member / local (indices ignored), a strong update for the cell
just written, branch conditions taken into account, repeated until the ranges are stable. Terms are those of zterm.
"""
import zterm as zt
from zterm import Z, lift, lt0, cnot, cand, ind, Region, EMPTY
from limbs import U, V5, FE, clean, width, compare
from gkr import Ob
from frontend import AnalysisError

NUM = (V5, FE, U)
TRIPS = 1 << 31


class Cls:
    __slots__ = ("lo", "hi", "hlo", "hhi")

    def __init__(self, lo, hi):
        self.lo = self.hlo = lo
        self.hi = self.hhi = hi


class Dead(Exception):
    pass


class Ranges:
    def __init__(self, prog, which, p, limit_bits):
        self.prog, self.which, self.p, self.limit = prog, which, p, 1 << limit_bits
        self.cls = {}
        self.hard = {}          # atom -> attained range
        self.natom = 0
        self.round = 0
        self.found = {}         # (func, node id, kind) -> (status, func, node, text)
        self.count = {}
        self.obs = []

    # ------------------------------------------------------------ atoms and classes
    def atom(self, lo, hi, hlo=None, hhi=None):
        self.natom += 1
        z = zt.inp("r%d" % self.natom, lo, hi)
        a = next(iter(z.atoms())) if z.atoms() else None
        if a is not None:
            self.hard[a] = (lo if hlo is None else hlo, hi if hhi is None else hhi)
        return z

    def reduced(self):
        return self.atom(0, self.p - 1)

    def getcls(self, c):
        k = self.cls.get(c)
        if k is None:
            if c[0] in ("local", "param", "ret"):
                return None
            k = self.cls[c] = Cls(0, self.p - 1)
        return k

    def join(self, c, lo, hi, hlo, hhi):
        k = self.cls.get(c)
        if k is None:
            if c[0] in ("local", "param", "ret"):
                k = self.cls[c] = Cls(lo, hi)
                k.hlo, k.hhi = hlo, hhi
                self.changed = True
                return
            k = self.cls[c] = Cls(0, self.p - 1)
        if lo < k.lo or hi > k.hi:
            if self.round >= 3:
                # the range keeps growing: a loop that adds without reducing
                if lo < k.lo:
                    lo = k.lo - (k.lo - lo) * TRIPS
                    hlo = k.hlo - (k.hlo - hlo) * TRIPS if hlo < k.hlo else hlo
                if hi > k.hi:
                    hi = k.hi + (hi - k.hi) * TRIPS
                    hhi = k.hhi + (hhi - k.hhi) * TRIPS if hhi > k.hhi else hhi
            k.lo, k.hi = min(k.lo, lo), max(k.hi, hi)
            self.changed = True
        if hlo < k.hlo or hhi > k.hhi:
            k.hlo, k.hhi = max(k.lo, min(k.hlo, hlo)), min(k.hi, max(k.hhi, hhi))
            self.changed = True

    def bounds(self, t, reg):
        b = zt.bounds(t, reg)
        return (b[0] if b[0] is not None else -(1 << 600), b[1] if b[1] is not None else 1 << 600)

    def attained(self, t, reg):
        """smallest and largest value of t seen on corner values of what is known to be attained"""
        import random
        rnd = random.Random(3)
        ats = sorted(a for a in zt.deep_atoms(t) | {a for f, _ in reg.facts for a in zt.deep_atoms(f)} if zt.ATOMS[a][0] not in ("fl", "ind", "fn"))
        lo = hi = None
        for n in range(300):
            env = {}
            for a in ats:
                h = self.hard.get(a)
                if h is None:
                    return None
                env[a] = h[1] if n == 0 else h[0] if n == 1 else rnd.choice([h[0], h[1], (h[0] + h[1]) // 2, rnd.randint(h[0], h[1]), self.p % (h[1] + 1) if h[1] > 0 else h[0]])
            if all(any(x <= zt.value(f, dict(env)) <= y for x, y in iv) for f, iv in reg.facts):
                v = zt.value(t, dict(env))
                lo = v if lo is None else min(lo, v)
                hi = v if hi is None else max(hi, v)
        return None if lo is None else (lo, hi)

    # ------------------------------------------------------------ driver
    def run(self):
        fs = [f for f in self.prog.funcs.values() if f.cls not in NUM and not f.qname.startswith("prime_field::") and f.file.startswith(self.prog.repo)]
        for r in range(9):
            self.round = r
            self.changed = False
            self.found, self.count = {}, {}
            for f in sorted(fs, key=lambda f: (f.file, f.line)):
                self.func(f)
            if not self.changed:
                break
        by = {}
        for (q, nid, kind), v in self.found.items():
            by.setdefault(q, []).append(v)
        for f in sorted(fs, key=lambda f: (f.file, f.line)):
            n = self.count.get(f.mangled, 0)
            bad = by.get(f.mangled, [])
            if not n and not bad:
                continue
            k = self.cls.get(("ret", f.mangled))
            if k is not None and f.cls and f.cls.endswith("_poly") and not (0 <= k.lo and k.hi < self.p):
                bad = bad + [(False if k.hhi >= self.p else None, f.body, "a result is not reduced below the prime")]
            nm = self.which + ":raw." + f.qname + ("" if len(self.prog.byname[f.qname]) == 1 else "@%d" % self.prog.byname[f.qname].index(f))
            what = "field values combined in %s stay where the arithmetic is exact (%d operations)" % (f.qname, n)
            tags = self.tags(f)
            v = [b for b in bad if b[0] is False]
            if v:
                self.obs.append(Ob(nm, tags, "violated", what, f.file, v[0][1].line, v[0][2]))
            elif bad:
                self.obs.append(Ob(nm, tags, "undecided", what, f.file, bad[0][1].line, bad[0][2]))
            else:
                self.obs.append(Ob(nm, tags, "ok", what, f.file, f.line))
        self.units = {"functions": len(fs), "operations": sum(self.count.values()), "tables": len(self.cls), "rounds": self.round + 1,
                      "not_reduced": sorted("%s" % (c,) for c, k in self.cls.items() if k.lo < 0 or k.hi >= self.p)}
        return self.obs

    def tags(self, f):
        """the properties that rest on the arithmetic of this function"""
        name = f.qname.split("::")[-1]
        if f.cls == "prover":
            return ("F02", "E01") if name == "evaluate" else ("F02", "H01" if self.which.endswith("linear") else "H02")
        if f.cls == "verifier":
            return ("F02", "V02") if name == "verify" else ("F02", "V06") if name in ("V_in", "V_res") else ("F02", "V05")
        if f.cls and f.cls.endswith("_poly"):
            return ("F02", "F03")
        return ("F02",)

    def func(self, f):
        self.f = f
        self.env = {}
        self.reg = EMPTY
        self.dead = False
        self.stmt(f.body)
        self.flush()

    # ------------------------------------------------------------ environment
    def put(self, c, t, reg=None):
        """t may be the content of a cell of class c from now on"""
        reg = reg or self.reg
        lo, hi = self.bounds(t, reg)
        k = self.cls.get(c)
        if k is None and c[0] not in ("local", "param", "ret"):
            k = self.getcls(c)
        if k is not None and lo >= k.lo and hi <= k.hi and (k.hlo, k.hhi) == (k.lo, k.hi):
            return
        a = self.attained(t, reg) or (0, 0)
        self.join(c, lo, hi, *a)

    def flush(self, c=None, keep=None):
        for key in list(self.env):
            kc, t, reg, dirty = self.env[key]
            if (c is None or kc == c) and key != keep:
                if dirty:
                    self.put(kc, t, reg)
                del self.env[key]

    def read(self, key, c):
        e = self.env.get(key)
        if e is not None:
            return e[1]
        # another cell of the same table was just written: it may be this one
        for k2, e2 in list(self.env.items()):
            if e2[0] == c and e2[3]:
                self.put(c, e2[1], e2[2])
        k = self.getcls(c)
        t = self.atom(k.lo, k.hi, k.hlo, k.hhi) if k is not None else self.reduced()
        self.env[key] = (c, t, self.reg, False)
        return t

    def write(self, key, c, t):
        for k2 in [k for k, e in self.env.items() if e[0] == c and k != key]:
            e = self.env.pop(k2)
            if e[3]:
                self.put(c, e[1], e[2])
        # whole objects: parts of it are gone
        self.env[key] = (c, t, self.reg, True)

    def key(self, n):
        """(text, class) of an lvalue of number type; None when it is not one"""
        n = self.strip(n)
        if n.kind == "MemberExpr" and n.name == "value" and clean(n.inner[0].type) == FE:
            return self.key(n.inner[0])
        r = self.path(n)
        return r

    def strip(self, n):
        while n.kind in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") or \
                n.kind in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and n.extra.get("castKind") in ("NoOp", "LValueToRValue", "ArrayToPointerDecay"):
            n = [c for c in n.inner if c is not None][0]
        return n

    def text(self, n):
        n = self.strip(n)
        k = n.kind
        nm = n.name or (n.ref or {}).get("name") or ""
        idn = (n.ref or {}).get("id", "") if k == "DeclRefExpr" else ""
        return "%s %s %s %s %s(%s)" % (k, nm, idn, n.op or "", n.value if n.value is not None else "", ",".join(self.text(c) for c in n.inner if c is not None))

    def path(self, n):
        n = self.strip(n)
        k = n.kind
        if k == "DeclRefExpr":
            d = n.ref or {}
            g = self.prog.globals.get((self.f.tu, d.get("id")))
            if g is not None:
                return "g " + g, ("mem", g)
            if any(p.id == d.get("id") for p in self.f.params):
                return "p " + d["id"], ("param", self.f.mangled, d.get("name"))
            return "l " + str(d.get("id")), ("local", self.f.mangled, d.get("name"), d.get("id"))
        if k == "MemberExpr":
            b = self.strip([c for c in n.inner if c is not None][0])
            if b.kind == "CXXThisExpr":
                return "t " + n.name, ("mem", "%s" % n.name)
            r = self.path(b)
            if r is None:
                return None
            return r[0] + "." + n.name, r[1] + ("." + n.name,) if r[1][0] != "mem" else ("mem", r[1][1] + "." + n.name)
        if k == "ArraySubscriptExpr" or k == "CXXOperatorCallExpr" and self.opname(n) == "operator[]":
            b, i = (n.inner[0], n.inner[1]) if k == "ArraySubscriptExpr" else (n.inner[1], n.inner[2])
            r = self.path(b)
            if r is None:
                return None
            c = r[1]
            if c[0] == "param":
                c = ("mem", "%s:%s[]" % (c[1], "".join(c[2:])))
            elif c[0] == "local":
                c = ("mem", "%s:%s[]" % (c[1], "".join(c[2:])))
            else:
                c = ("mem", c[1] + "[]")
            return r[0] + "[" + self.text(i) + "]", c
        if k == "UnaryOperator" and n.op == "*":
            r = self.path(n.inner[0])
            return None if r is None else (r[0] + "[0]", ("mem", "".join(str(x) for x in r[1]) + "[]"))
        return None

    @staticmethod
    def opname(n):
        c = n.inner[0]
        while c is not None and c.kind == "ImplicitCastExpr":
            c = c.inner[0]
        return (c.ref or {}).get("name") if c is not None and c.ref else None

    # ------------------------------------------------------------ obligations
    def need(self, n, kind, cond_bad, text):
        """report when cond_bad (a condition) can hold"""
        self.count[self.f.mangled] = self.count.get(self.f.mangled, 0) + 1
        if cond_bad is False:
            return
        t = cond_bad
        d = zt.decide(t, self.reg)
        if d is False:
            return
        # is it attained?
        z = ind(t)
        a = self.attained(z, self.reg)
        st = False if a is not None and a[1] == 1 else None
        key = (self.f.mangled, n.nid, kind)
        if key not in self.found or st is False:
            self.found[key] = (st, n, text)

    def outside(self, t, lo, hi):
        """condition: t < lo or t >= hi"""
        a, b = lt0(t - lo), cnot(lt0(t - hi))
        return zt.cor(a, b)

    # ------------------------------------------------------------ expressions
    def num(self, n):
        """term of an expression of number type (None for others); visits everything once"""
        k = n.kind
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr"):
            return self.num([c for c in n.inner if c is not None][0])
        ty = clean(n.type)
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr"):
            sub = [c for c in n.inner if c is not None][0]
            v = self.num(sub)
            return v
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = [c for c in n.inner if c is not None and c.kind != "CXXDefaultArgExpr"]
            vs = [self.num(a) for a in args]
            if ty in NUM:
                if not args:
                    return lift(0)
                if len(args) == 1:
                    if vs[0] is not None:
                        return vs[0]
                    return self.integer(args[0])
                return self.reduced()
            return None
        if k == "CXXOperatorCallExpr":
            return self.opcall(n, ty)
        if k == "CXXMemberCallExpr" or k == "CallExpr":
            return self.call(n, ty)
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") and ty in NUM:
            if k == "DeclRefExpr":
                g = self.prog.globals.get((self.f.tu, (n.ref or {}).get("id"))) or ""
                s = g.split("::")[-1]
                if g.startswith("prime_field::"):
                    if s in ("mod", "mod_512"):
                        return lift(self.p)
                    if s == "minus_mod_512":
                        return lift((1 << 512) - self.p)
                    if s in ("one", "zero"):
                        return lift(int(s == "one"))
            kc = self.key(n)
            if kc is not None:
                return self.read(*kc)
            for c in n.inner:
                if c is not None:
                    v = self.num(c)
                    if k == "MemberExpr" and v is not None:
                        return v
            return self.reduced()
        if k == "ConditionalOperator":
            c = self.cond(n.inner[0])
            r0 = self.reg
            self.reg = self.take(c, r0)
            a = self.num(n.inner[1])
            ra = self.reg
            self.reg = self.take(cnot(c) if c is not None else None, r0)
            b = self.num(n.inner[2])
            rb = self.reg
            self.reg = r0
            if a is not None and b is not None:
                return self.union([(a, ra), (b, rb)])
            return None
        if k == "LambdaExpr":
            return None
        for c in n.inner:
            if c is not None:
                self.num(c)
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.op and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
            l = self.strip(n.inner[0])
            if l.kind == "MemberExpr" and clean(l.inner[0].type) in NUM:
                # a limb is written directly
                kc = self.key(l.inner[0])
                if kc is not None:
                    self.write(kc[0], kc[1], self.atom(0, (1 << 512) - 1, 0, 0))
        return None

    def integer(self, n):
        s = self.strip(n)
        while s.kind in ("ImplicitCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
            s = self.strip(s.inner[0])
        if s.kind == "IntegerLiteral":
            return lift(int(s.value))
        return self.atom(0, (1 << 64) - 1, 0, (1 << 31) - 1)

    def union(self, parts):
        if all(t == parts[0][0] for t, _ in parts):
            return parts[0][0]
        bs = [self.bounds(t, r) for t, r in parts]
        hs = [h for h in (self.attained(t, r) for t, r in parts) if h]
        lo, hi = min(b[0] for b in bs), max(b[1] for b in bs)
        if lo == hi:
            return lift(lo)
        if not hs:
            return self.atom(lo, hi, lo, lo)
        return self.atom(lo, hi, max(lo, min(h[0] for h in hs)), min(hi, max(h[1] for h in hs)))

    def take(self, c, reg):
        if c is None or c is True:
            return reg
        r = zt.assume(c, reg)
        return r

    CMPS = {"operator<": "<", "operator>": ">", "operator<=": "<=", "operator>=": ">=", "operator==": "==", "operator!=": "!="}

    def opcall(self, n, ty):
        op = self.opname(n)
        args = n.inner[1:]
        tys = [clean(a.type) for a in args]
        if op == "operator=" and tys[0] in NUM:
            v = self.num(args[1])
            if v is None:
                v = self.integer(args[1]) if clean(args[1].type) not in NUM else self.reduced()
            kc = self.key(args[0])
            if kc is not None:
                self.write(kc[0], kc[1], v)
            else:
                self.num(args[0])
            return v
        if op == "operator=":
            # whole objects: the parts take over the ranges of the source's parts
            self.num(args[1])
            self.copy(args[0], args[1])
            return None
        if op == "operator[]" and ty in NUM:
            kc = self.key(n)
            for a in args:
                if clean(a.type) in NUM or a.kind in ("CallExpr", "CXXMemberCallExpr"):
                    self.num(a)
            return self.read(*kc) if kc is not None else self.reduced()
        vs = [self.num(a) for a in args]
        if len(args) == 2 and any(t in NUM for t in tys):
            a, b = [v if v is not None else self.integer(x) for v, x in zip(vs, args)]
            fe = FE in tys
            if op == "operator+":
                if fe:
                    return self.feadd(n, a, b)
                return a + b
            if op == "operator-":
                if fe:
                    return self.fesub(n, a, b)
                return a - b
            if op == "operator*":
                self.need(n, "mul", zt.cor(self.outside(a, 0, 1 << 256), self.outside(b, 0, 1 << 256)),
                          "operand of a product can be negative or reach 2^256: %s, %s" % (self.show(a), self.show(b)))
                if fe:
                    self.need(n, "mulmod", self.outside(a * b, 0, self.limit), "product can leave the range of the reduction")
                    return self.reduced()
                return a * b
            if op == "operator%":
                self.need(n, "mod", self.outside(a, 0, self.limit), "operand of the reduction can be negative or too large: " + self.show(a))
                if b.const() != self.p:
                    self.found[(self.f.mangled, n.nid, "modulus")] = (None if b.const() is None else False, n, "reduction by something else than the prime")
                return self.reduced()
            if op in self.CMPS:
                if fe and op in ("operator==", "operator!="):
                    self.need(n, "eq", zt.cor(self.outside(a, 0, self.p), self.outside(b, 0, self.p)), "compared values may not be reduced: %s, %s" % (self.show(a), self.show(b)))
                elif not fe:
                    # representations are unsigned: a negative difference is a huge number
                    self.need(n, "cmp", zt.cor(lt0(a), lt0(b)), "compared value can be negative: %s, %s" % (self.show(a), self.show(b)))
                self.last = (n, compare(self.CMPS[op], a, b))
                return None
        return None

    def feadd(self, n, a, b):
        self.need(n, "add", zt.cor(lt0(a), lt0(b)), "summand can be negative")
        (al, ah), (bl, bh) = self.bounds(a, self.reg), self.bounds(b, self.reg)
        return self.atom(0, max(self.p - 1, ah + bh - self.p)) if ah + bh > 2 * self.p - 2 else self.reduced()

    def fesub(self, n, a, b):
        self.need(n, "sub", zt.cor(lt0(a), lt0(b), lt0(a + self.p - b)), "difference of values that are not reduced: %s, %s" % (self.show(a), self.show(b)))
        (al, ah) = self.bounds(a, self.reg)
        return self.atom(0, max(self.p - 1, ah)) if ah > self.p - 1 else self.reduced()

    def show(self, t):
        lo, hi = self.bounds(t, self.reg)

        def s(x):
            q = abs(x)
            return "0" if q == 0 else ("-" if x < 0 else "") + "2^%.1f" % (q.bit_length() - 1 + 0.0) if q >= 16 else str(x)
        return "[%s..%s]" % (s(lo), s(hi))

    def copy(self, dst, src):
        d, s = self.path(dst), self.path(src) if src is not None else None
        if d is None or s is None:
            return
        self.flush()
        self.link(d[1], s[1])

    def link(self, dc, sc):
        def name(c):
            return c[1] if c[0] == "mem" else "%s:%s" % (c[1], "".join(str(x) for x in c[2:3]))
        dn, sn = name(dc), name(sc)
        for c, k in list(self.cls.items()):
            if c[0] == "mem" and c[1].startswith(sn) and len(c[1]) > len(sn) and c[1][len(sn)] in ".[":
                if k.lo < 0 or k.hi >= self.p:
                    self.join(("mem", dn + c[1][len(sn):]), k.lo, k.hi, k.hlo, k.hhi)

    def call(self, n, ty):
        if n.kind == "CallExpr":
            c = n.inner[0]
            while c is not None and c.kind in ("ImplicitCastExpr", "ParenExpr"):
                c = c.inner[0]
            ref, base = (c.ref if c is not None else None), None
        else:
            c = n.inner[0]
            while c.kind in ("ParenExpr", "ImplicitCastExpr"):
                c = c.inner[0]
            ref = c.ref
            base = [x for x in c.inner if x is not None][0] if c.inner else None
        f = self.prog.funcs.get(self.prog.resolve(self.f.tu, ref)) if ref else None
        args = n.inner[1:]
        vs = []
        for i, a in enumerate(args):
            vs.append(self.num(a) if a is not None else None)
        if base is not None and clean(base.type) not in NUM:
            self.num(base)
        elif base is not None:
            self.num(base)
        self.flush()
        if f is not None and f.cls not in NUM and not f.qname.startswith("prime_field::"):
            for p, a, v in zip(f.params, args, vs):
                if v is not None and clean(p.type) in NUM:
                    self.put(("param", f.mangled, p.name), v)
                else:
                    s = self.path(a) if a is not None else None
                    if s is not None:
                        self.link(("param", f.mangled, p.name), s[1])
            if ty in NUM:
                k = self.getcls(("ret", f.mangled))
                return self.atom(k.lo, k.hi, k.hlo, k.hhi) if k is not None else self.reduced()
            return None
        if ty in NUM:
            return self.reduced()
        return None

    def cond(self, n):
        """condition of a branch in terms of numbers, None when it is about something else"""
        s = self.strip(n)
        if s.kind == "UnaryOperator" and s.op == "!":
            c = self.cond(s.inner[0])
            return None if c is None else cnot(c)
        if s.kind == "BinaryOperator" and s.op in ("&&", "||"):
            a, b = self.cond(s.inner[0]), self.cond(s.inner[1])
            if s.op == "&&" and a is not None and b is not None:
                return cand(a, b)
            return None
        self.last = None
        self.num(n)
        if self.last is not None and self.last[0] is s:
            return self.last[1]
        return None

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        if n is None or self.dead:
            return
        k = n.kind
        if k == "CompoundStmt":
            for c in n.inner:
                self.stmt(c)
                if self.dead:
                    return
            return
        if k == "DeclStmt":
            for d in n.inner:
                if d is not None and d.kind == "VarDecl":
                    init = [c for c in d.inner if c is not None]
                    ty = clean(d.type)
                    v = self.num(init[0]) if init else None
                    if ty in NUM and not (d.type or "").rstrip().endswith("&"):
                        if v is None:
                            v = self.integer(init[0]) if init else lift(0)
                        self.write("l " + d.id, ("local", self.f.mangled, d.name, d.id), v)
                    elif init:
                        s = self.path(init[0])
                        if s is not None:
                            self.link(("local", self.f.mangled, d.name), s[1])
            return
        if k == "ReturnStmt":
            if n.inner and n.inner[0] is not None:
                v = self.num(n.inner[0])
                if v is not None and clean(self.f.rtype) in NUM:
                    self.put(("ret", self.f.mangled), v)
            self.flush()
            self.dead = True
            return
        if k in ("BreakStmt", "ContinueStmt", "GotoStmt"):
            self.flush()
            self.dead = True
            return
        if k == "IfStmt":
            parts = [c for c in n.inner if c is not None]
            c = self.cond(parts[0])
            e0, r0 = dict(self.env), self.reg
            outs = []
            for cc, body in ((c, parts[1]), (None if c is None else cnot(c), parts[2] if len(parts) > 2 else None)):
                self.env, self.reg, self.dead = dict(e0), self.take(cc, r0), False
                if self.reg is None:
                    continue
                if body is not None:
                    self.stmt(body)
                if not self.dead:
                    outs.append((self.env, self.reg))
            self.dead = not outs
            self.reg = r0
            if len(outs) == 1:
                self.env, self.reg = outs[0]
            elif outs:
                self.env = self.meet(outs)
            return
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            inner = [c for c in n.inner if c is not None]
            if k == "ForStmt" and n.inner[0] is not None:
                self.stmt(n.inner[0])
                inner = [c for c in n.inner[1:] if c is not None]
            self.flush()
            r0 = self.reg
            for c in inner:
                self.stmt(c)
            self.dead = False
            self.flush()
            self.reg = r0
            return
        if k == "SwitchStmt":
            parts = [c for c in n.inner if c is not None]
            self.num(parts[0])
            e0, r0 = dict(self.env), self.reg
            for c in parts[-1].inner:
                if c is not None and c.kind in ("CaseStmt", "DefaultStmt"):
                    self.flush()
                    self.env, self.reg, self.dead = dict(e0), r0, False
                self.stmt(c)
            self.flush()
            for key in list(e0):
                kc, t, reg, dirty = e0[key]
                if dirty:
                    self.put(kc, t, reg)
            self.env, self.reg, self.dead = {}, r0, False
            return
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            self.stmt(n.inner[-1])
            return
        if k == "NullStmt":
            return
        self.num(n)

    def meet(self, outs):
        keys = set(outs[0][0])
        for e, _ in outs[1:]:
            keys &= set(e)
        out = {}
        for e, r in outs:
            for key, (c, t, reg, dirty) in e.items():
                if key not in keys and dirty:
                    self.put(c, t, r)
        for key in keys:
            es = [(e[key], r) for e, r in outs]
            c = es[0][0][0]
            dirty = any(x[3] for x, _ in es)
            t = self.union([(x[1], r) for x, r in es])
            out[key] = (c, t, self.reg, dirty)
        return out
