"""Exact integer semantics of the wide-integer and field classes: an abstract interpreter of the type-checked
syntax tree in the domain of zterm (polynomials over limbs with exact floors).

Functions are analysed one at a time: a call to another function of the class is replaced by that function's
specification, a call to anything else is entered. Branches are merged at their join, constant-trip loops are unrolled.
"""
import zterm as zt
from zterm import Z, lift, fl, wrap, band, lt0, eq0, cnot, cand, cor, ind, ite
from frontend import AnalysisError


class Unknown(AnalysisError):
    """a construct this interpreter has no meaning for"""


class Undef(Exception):
    """undefined behaviour on every value of the inputs"""


WIDTH = {"unsigned long long": (64, 0), "unsigned long": (64, 0), "unsigned __int128": (128, 0), "__int128": (128, 1), "int": (32, 1),
         "unsigned int": (32, 0), "long": (64, 1), "long long": (64, 1), "char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0),
         "short": (16, 1), "unsigned short": (16, 0), "bool": (1, 0)}


def clean(ty):
    ty = (ty or "").replace("const ", "").replace("volatile ", "").strip()
    while ty.endswith("&") or ty.endswith(" const"):
        ty = ty[:-1].strip() if ty.endswith("&") else ty[:-6].strip()
    return ty


def width(ty):
    return WIDTH.get(clean(ty))


class St:
    """a class value, immutable"""
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return "%s{%s}" % (self.cls.split("::")[-1], ", ".join("%s=%r" % x for x in self.f.items()))

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return St(self.cls, d)


class Seq:
    """array or vector value with constant positions, immutable"""
    __slots__ = ("d", "n")

    def __init__(self, d=None, n=0):
        self.d, self.n = d or {}, n

    def put(self, i, v):
        d = dict(self.d)
        d[i] = v
        return Seq(d, max(self.n, i + 1))


class Text:
    """a character string with known text, or a symbolic one"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class Mpz:
    """a big integer of the gmp library, by its constructor arguments"""
    __slots__ = ("args",)

    def __init__(self, args):
        self.args = args


U, V5, FE = "prime_field::u256b", "prime_field::u512b", "prime_field::field_element"


def big256(s):
    s = lift(s)
    a, b = fl(s, 64), fl(s, 128)
    return St(U, {"lo": s - a * (1 << 64), "mid": a - b * (1 << 64), "hi": b - fl(s, 256) * (1 << 128)})


def big512(s):
    s = lift(s)
    a, b = fl(s, 128), fl(s, 256)
    return St(V5, {"lo": s - a * (1 << 128), "mid": a - b * (1 << 128), "hi": big256(b - fl(s, 512) * (1 << 256))})


def val(v):
    """the number a value stands for"""
    if isinstance(v, Z):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return lift(v)
    if isinstance(v, (bool, tuple)):
        return ind(v)
    if isinstance(v, St):
        f = v.f
        if v.cls == U:
            return val(f["lo"]) + val(f["mid"]) * (1 << 64) + val(f["hi"]) * (1 << 128)
        if v.cls == V5:
            return val(f["lo"]) + val(f["mid"]) * (1 << 128) + val(f["hi"]) * (1 << 256)
        if v.cls == FE:
            return val(f["value"])
    raise Unknown("no number for %r" % (v,))


def sym256(name):
    return St(U, {"lo": zt.inp(name + ".lo", 0, 2 ** 64 - 1), "mid": zt.inp(name + ".mid", 0, 2 ** 64 - 1), "hi": zt.inp(name + ".hi", 0, 2 ** 128 - 1)})


def sym512(name, split=False):
    if split:
        w = [zt.inp("%s.w%d" % (name, i), 0, 2 ** 64 - 1) for i in range(4)]
        return St(V5, {"lo": w[0] + w[1] * (1 << 64), "mid": w[2] + w[3] * (1 << 64), "hi": big256(0)})
    return St(V5, {"lo": zt.inp(name + ".lo", 0, 2 ** 128 - 1), "mid": zt.inp(name + ".mid", 0, 2 ** 128 - 1), "hi": sym256(name + ".hi")})


def merge(c, a, b):
    if a is b:
        return a
    if isinstance(a, St) and isinstance(b, St) and a.cls == b.cls:
        return St(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Seq) and isinstance(b, Seq) and a.n == b.n and set(a.d) == set(b.d):
        return Seq({k: merge(c, a.d[k], b.d[k]) for k in a.d}, a.n)
    if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
        if a == b:
            return a
        return cor(cand(c, a), cand(cnot(c), b))
    if isinstance(a, (Z, int, tuple)) and isinstance(b, (Z, int, tuple)):
        return ite(c, val(a), val(b))
    if isinstance(a, Text) and isinstance(b, Text) and a.s == b.s:
        return a
    raise Unknown("values of different shape meet")


def cond(v):
    if isinstance(v, (bool, tuple)):
        return v
    if isinstance(v, int):
        return v != 0
    if isinstance(v, Z):
        c = v.const()
        if c is not None:
            return c != 0
        if len(v.t) == 1:
            (m, k), = v.t.items()
            if len(m) == 1 and zt.ATOMS[m[0]][0] == "ind" and k:
                return zt.ATOMS[m[0]][1]
        return cnot(eq0(v))
    raise Unknown("condition on %r" % (v,))


def to_type(v, ty):
    """integer conversion of the value v to type ty"""
    w = width(ty)
    if w is None or isinstance(v, (St, Seq, Text)):
        return v
    if clean(ty) == "bool":
        return cond(v)
    t = val(v)
    n, signed = w
    if not signed:
        return wrap(t, n)
    lo, hi = zt.bounds(t)
    if lo is not None and hi is not None and lo >= -(1 << (n - 1)) and hi < (1 << (n - 1)):
        return t
    return t - fl(t + (1 << (n - 1)), n) * (1 << n)


POISON = object()


def loop_depth(n):
    d = max([loop_depth(c) for c in n.inner if c is not None] or [0])
    return d + (n.kind in ("ForStmt", "WhileStmt", "DoStmt"))


class Frame:
    __slots__ = ("fid", "this", "rets", "func")


BREAK, CONT = "break", "continue"


class Exec:
    FUEL = 400000

    def __init__(self, prog, specs=None, globs=None):
        self.prog = prog
        self.specs = specs or {}            # mangled -> python callable(ex, this, args) -> value
        self.store = {}                     # (frame, decl id) | ("g", name) | ("tmp", n) -> value
        self.globs = globs or {}
        self.live = True                    # path condition of the current point (a condition)
        self.nf = 0
        self.nt = 0
        self.fuel = self.FUEL
        self.undef = []                     # (condition, node, text)
        self.pre = []                       # (condition that must hold, node, text)
        self.called = set()
        self.funcs = set()
        self.ncalls = 0
        self.refs = {}
        self.frame, self.ti = None, 0

    # ------------------------------------------------------------ storage
    def path_get(self, p):
        v = self.root(p[0])
        for k in p[1:]:
            if isinstance(v, St):
                v = v.f[k]
            elif isinstance(v, Seq):
                if k not in v.d:
                    raise Unknown("element not written")
                v = v.d[k]
            else:
                raise Unknown("member of %r" % (v,))
        return v

    def root(self, k):
        if k in self.store:
            if self.store[k] is POISON:
                raise Unknown("value of %s is not known" % (k,))
            return self.store[k]
        if k[0] == "g":
            self.store[k] = v = self.global_init(k[1])
            return v
        raise Unknown("value of %s is not known" % (k,))

    def path_set(self, p, v):
        if len(p) == 1:
            self.store[p[0]] = v
            return
        self.store[p[0]] = self._upd(self.root(p[0]), p[1:], v)

    def _upd(self, o, ks, v):
        k = ks[0]
        if isinstance(o, St):
            return o.with_(k, self._upd(o.f[k], ks[1:], v) if len(ks) > 1 else v)
        if isinstance(o, Seq):
            return o.put(k, self._upd(o.d[k], ks[1:], v) if len(ks) > 1 else v)
        raise Unknown("store into %r" % (o,))

    def global_init(self, name):
        if name in self.globs:
            return self.globs[name]
        n = self.prog.gnodes.get(name)
        if n is None:
            raise Unknown("global " + name)
        init = [c for c in n.inner if c is not None]
        if not init or init[0].kind == "CXXConstructExpr" and not init[0].inner:
            return self.default(n.type)
        save = self.frame if hasattr(self, "frame") else None
        self.frame = Frame()
        self.frame.fid, self.frame.this, self.frame.func = "glob", None, None
        ti = self.ti_of(n)
        old = self.ti if hasattr(self, "ti") else None
        self.ti = ti
        v = to_type(self.ev(init[0]), n.type)
        self.frame, self.ti = save, old
        return v

    def ti_of(self, n):
        for i, tu in enumerate(self.prog.tus):
            if tu.byid.get(n.id) is n:
                return i
        return 0

    def default(self, ty):
        ty = clean(ty)
        if ty == U:
            return big256(0)
        if ty == V5:
            return big512(0)
        if ty == FE:
            return St(FE, {"value": big512(0)})
        if width(ty):
            self.nt += 1
            lo, hi = self.trange(ty)
            return zt.opaque(("uninit", self.nt), lo, hi)
        if "[" in ty or ty.endswith("*"):
            return Seq()
        if "vector" in ty:
            return Seq()
        raise Unknown("object of type " + ty)

    @staticmethod
    def trange(ty):
        n, s = width(ty)
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)

    # ------------------------------------------------------------ calls
    def call(self, f, this, args):
        """this: path or None; args: list of values or ('ref', path)"""
        self.funcs.add(f.qname)
        if f.mangled in self.specs:
            self.called.add(f.qname)
            t = self.path_get(this) if this is not None else None
            a = [self.path_get(x[1]) if isinstance(x, tuple) and len(x) == 2 and x[0] == "ref" else x for x in args]
            r = self.specs[f.mangled](self, t, a, args, this)
            return r
        if f.rtype == "void" and f.cls is None and loop_depth(f.body) > 1 and not any(isinstance(x, tuple) and x[:1] == ("ref",) for x in args):
            # table building: its own variables aside it can only change globals
            for g in self.global_writes(f):
                self.store[("g", g)] = POISON
            return None
        self.ncalls += 1
        if self.ncalls > 3000:
            raise Unknown("call depth")
        return self.enter(f, this, args)

    def global_writes(self, f):
        out = set()
        for n in f.body.walk():
            t = None
            if n.kind in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") \
                    or n.kind == "UnaryOperator" and n.op in ("++", "--", "&"):
                t = n.inner[0]
            elif n.kind == "CXXOperatorCallExpr" and self.opname(n).endswith("="):
                t = n.inner[1]
            elif n.kind in ("CallExpr", "CXXMemberCallExpr"):
                t = n
            if t is None:
                continue
            for x in t.walk():
                if x.kind == "DeclRefExpr":
                    g = self.prog.globals.get((f.tu, (x.ref or {}).get("id")))
                    if g:
                        out.add(g)
        return out

    def enter(self, f, this, args):
        self.nf += 1
        fr = Frame()
        fr.fid, fr.this, fr.rets, fr.func = self.nf, this, [], f
        if self.nf > 20000:
            raise Unknown("too many calls")
        save = (getattr(self, "frame", None), getattr(self, "ti", None), self.live, getattr(self, "refs", None))
        self.frame, self.ti = fr, f.tu
        self.refs = dict(save[3] or {})
        for p, a in zip(f.params, args):
            key = (fr.fid, p.id)
            if isinstance(a, tuple) and len(a) == 2 and a[0] == "ref":
                if (p.type or "").rstrip().endswith("&"):
                    self.refs[key] = a[1]
                    continue
                a = self.path_get(a[1])
            self.store[key] = to_type(a, p.type)
        if f.is_ctor:
            for i in f.inits:
                self.ctor_init(f, i)
        self.block(f.body)
        rets = fr.rets
        if self.live is not False:
            rets.append((self.live, None, dict(self.store)))
        self.frame, self.ti, self.live, self.refs = save[0], save[1], save[2], save[3]
        if not rets:
            self.live = False
            return None
        c, v, st = rets[-1]
        for c2, v2, st2 in reversed(rets[:-1]):
            v = merge(c2, v2, v) if v2 is not None else v
            st = self.merge_store(c2, st2, st)
        self.store = st
        return v

    def ctor_init(self, f, i):
        nm = (i.extra.get("anyInit") or {}).get("name")
        if nm and i.inner:
            p = self.frame.this + (nm,)
            self.path_set(p, to_type(self.ev(i.inner[0]), (i.extra["anyInit"].get("type") or {}).get("qualType")))

    def merge_store(self, c, a, b):
        if a is b:
            return a
        out = {}
        for k in set(a) | set(b):
            if k not in a:
                out[k] = b[k]
            elif k not in b:
                out[k] = a[k]
            elif a[k] is b[k]:
                out[k] = a[k]
            else:
                try:
                    out[k] = merge(c, a[k], b[k])
                except Unknown:
                    pass
        return out

    # ------------------------------------------------------------ statements
    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unknown("too many steps")

    def block(self, n):
        for c in n.inner:
            if self.live is False:
                return None
            r = self.stmt(c)
            if r is not None:
                return r
        return None

    def stmt(self, n):
        if n is None or self.live is False:
            return None
        self.tick()
        k = n.kind
        if k == "CompoundStmt":
            return self.block(n)
        if k == "DeclStmt":
            for c in n.inner:
                if c is not None and c.kind == "VarDecl":
                    self.decl(c)
            return None
        if k == "ReturnStmt":
            v = None
            if n.inner and n.inner[0] is not None:
                v = to_type(self.ev(n.inner[0]), self.frame.func.rtype)
            self.frame.rets.append((self.live, v, dict(self.store)))
            self.live = False
            return None
        if k == "IfStmt":
            return self.if_(n)
        if k in ("ForStmt", "WhileStmt", "DoStmt"):
            return self.loop(n)
        if k == "BreakStmt":
            return BREAK
        if k == "ContinueStmt":
            return CONT
        if k == "NullStmt":
            return None
        self.ev(n)
        return None

    def decl(self, d):
        key = (self.frame.fid, d.id)
        init = [c for c in d.inner if c is not None]
        ty = d.type or ""
        if d.extra.get("storageClass") == "static" and not ty.startswith("const"):
            # keeps its value from earlier calls
            if key not in self.store:
                self.store[key] = self.default(ty)
            return
        if not init:
            self.store[key] = self.default(ty)
            return
        if ty.rstrip().endswith("&"):
            p = self.lv(init[0], must=False)
            if p is not None:
                self.refs[key] = p
                return
        self.store[key] = to_type(self.ev(init[0]), ty)

    def if_(self, n):
        parts = [c for c in n.inner if c is not None]
        c = cond(self.ev(parts[0]))
        if c is True or c is False:
            if c:
                return self.stmt(parts[1])
            return self.stmt(parts[2]) if len(parts) > 2 else None
        live0, st0 = self.live, self.store
        self.store = dict(st0)
        self.live = cand(live0, c)
        r1 = self.stmt(parts[1])
        l1, s1 = self.live, self.store
        self.store = dict(st0)
        self.live = cand(live0, cnot(c))
        r2 = self.stmt(parts[2]) if len(parts) > 2 else None
        l2, s2 = self.live, self.store
        if r1 or r2:
            if l1 is not False and l2 is not False or r1 != r2:
                if not (r1 and l2 is False or r2 and l1 is False):
                    raise Unknown("loop exit that depends on data")
        if l1 is False:
            self.live, self.store = l2, s2
            return r2
        if l2 is False:
            self.live, self.store = l1, s1
            return r1
        self.store = self.merge_store(c, s1, s2)
        self.live = live0 if l1 == cand(live0, c) and l2 == cand(live0, cnot(c)) else cor(l1, l2)
        return None

    def loop(self, n):
        k = n.kind
        if k == "ForStmt":
            init, _, test, inc, body = (list(n.inner) + [None] * 5)[:5]
            if init is not None:
                self.stmt(init)
        elif k == "WhileStmt":
            parts = [c for c in n.inner if c is not None]
            test, body, inc = parts[0], parts[1], None
        else:
            body, test = n.inner[0], n.inner[1]
            inc = None
        first = k == "DoStmt"
        return self.iterate(test, body, inc, first, 0)

    def iterate(self, test, body, inc, first, depth):
        while True:
            self.tick()
            if not first:
                if test is not None:
                    c = cond(self.ev(test))
                    if c is False:
                        return None
                    if c is not True:
                        # a loop that ends after a few data-dependent iterations
                        lc = cand(self.live, c)
                        if lc is not True and zt.zero_mod(ind(lc), None) is True:
                            return None
                        if depth >= 3:
                            raise Unknown("loop whose trip count depends on data")
                        live0, st0 = self.live, self.store
                        self.store, self.live = dict(st0), lc
                        r = self.stmt(body)
                        if r is None and self.live is not False:
                            if inc is not None:
                                self.ev(inc)
                            self.iterate(test, body, inc, False, depth + 1)
                        elif r == CONT:
                            raise Unknown("continue")
                        if self.live is False:
                            self.live, self.store = cand(live0, cnot(c)), st0
                        else:
                            self.store = self.merge_store(c, self.store, st0)
                            self.live = live0
                        return None
            first = False
            r = self.stmt(body)
            if self.live is False:
                return None
            if r == BREAK:
                return None
            if inc is not None:
                self.ev(inc)

    # ------------------------------------------------------------ expressions
    SKIP = ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr")

    def strip(self, n):
        while n.kind in self.SKIP or n.kind in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") \
                and n.extra.get("castKind") in ("NoOp", "LValueToRValue", "ArrayToPointerDecay", "FunctionToPointerDecay"):
            n = [c for c in n.inner if c is not None][0]
        return n

    def lv(self, n, must=True):
        """the storage path an expression denotes"""
        n = self.strip(n)
        k = n.kind
        if k == "DeclRefExpr":
            d = n.ref or {}
            key = (self.frame.fid, d.get("id"))
            if key in self.refs:
                return self.refs[key]
            if key in self.store:
                return (key,)
            g = self.prog.globals.get((self.ti, d.get("id")))
            if g is not None:
                return (("g", g),)
            if must:
                raise Unknown("variable " + str(d.get("name")))
            return None
        if k == "MemberExpr":
            b = [c for c in n.inner if c is not None][0]
            bs = self.strip(b)
            if bs.kind == "CXXThisExpr":
                return self.frame.this + (n.name,)
            p = self.lv(b, must)
            return None if p is None else p + (n.name,)
        if k == "UnaryOperator" and n.op == "*":
            b = self.strip(n.inner[0])
            if b.kind == "CXXThisExpr":
                return self.frame.this
        if k == "ArraySubscriptExpr":
            p = self.lv(n.inner[0], must)
            i = val(self.ev(n.inner[1])).const()
            if p is None:
                return None
            if i is None:
                raise Unknown("index that depends on data")
            return p + (i,)
        if k == "CXXOperatorCallExpr" and self.opname(n) == "operator=":
            self.ev(n)
            return self.lv(n.inner[1], must)
        if k == "CXXOperatorCallExpr" and self.opname(n) == "operator[]":
            p = self.lv(n.inner[1], must)
            i = val(self.ev(n.inner[2])).const()
            if p is not None and i is not None:
                return p + (i,)
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
            self.ev(n)
            return self.lv(n.inner[0], must)
        if must:
            raise Unknown("storage of " + k)
        return None

    @staticmethod
    def opname(n):
        c = n.inner[0]
        while c is not None and c.kind == "ImplicitCastExpr":
            c = c.inner[0]
        return (c.ref or {}).get("name") if c is not None and c.ref else None

    def callee(self, n):
        c = n
        while c is not None and c.kind in ("ImplicitCastExpr", "ParenExpr"):
            c = c.inner[0]
        if c is None or not c.ref:
            return None, None
        m = self.prog.resolve(self.ti, c.ref)
        return self.prog.funcs.get(m), c.ref.get("name")

    def arg(self, n, by_ref):
        if by_ref:
            p = self.lv(n, must=False)
            if p is not None:
                return ("ref", p)
        return self.ev(n)

    def tmp(self, v):
        self.nt += 1
        key = ("tmp", self.nt)
        self.store[key] = v
        return (key,)

    def obj(self, n):
        """path of the object an expression denotes (a temporary if need be)"""
        s = self.strip(n)
        if s.kind == "CXXThisExpr":
            return self.frame.this
        p = self.lv(n, must=False)
        return p if p is not None else self.tmp(self.ev(n))

    def args_for(self, f, nodes):
        out = []
        for i, a in enumerate(nodes):
            t = f.params[i].type if i < len(f.params) else ""
            by = t.rstrip().endswith("&") and not t.startswith("const")
            out.append(self.arg(a, by))
        return out

    def ev(self, n):
        self.tick()
        k = n.kind
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unknown("expression " + k)
        return m(n)

    def _sub(self, n):
        return self.ev([c for c in n.inner if c is not None][0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = _sub

    def e_IntegerLiteral(self, n):
        return lift(int(n.value))

    def e_CharacterLiteral(self, n):
        return lift(int(n.value))

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n.value)

    def e_StringLiteral(self, n):
        v = n.value
        return Text(v[1:-1] if v and v[0] == '"' else v)

    def e_CXXDefaultArgExpr(self, n):
        return None

    def e_UnaryExprOrTypeTraitExpr(self, n):
        raise Unknown("sizeof")

    def e_DeclRefExpr(self, n):
        e = self.prog.enums.get((self.ti, (n.ref or {}).get("id")))
        if e is not None:
            return lift(e)
        return self.path_get(self.lv(n))

    def e_MemberExpr(self, n):
        b = [c for c in n.inner if c is not None][0]
        bs = self.strip(b)
        if bs.kind != "CXXThisExpr" and self.lv(b, must=False) is None:
            v = self.ev(b)
            if isinstance(v, St):
                return v.f[n.name]
        return self.path_get(self.lv(n))

    def e_ArraySubscriptExpr(self, n):
        b = self.lv(n.inner[0], must=False)
        if b is not None:
            t = self.path_get(b)
            if isinstance(t, Text):
                return self.char(t, val(self.ev(n.inner[1])))
        return self.path_get(self.lv(n))

    def char(self, t, i):
        if isinstance(t.s, str) and i.const() is not None:
            return lift(ord(t.s[i.const()]))
        return zt.inp("digit[%r]" % (i,), 48, 57)

    def e_CXXThisExpr(self, n):
        raise Unknown("this as a value")

    def e_ImplicitCastExpr(self, n):
        ck = n.extra.get("castKind")
        sub = [c for c in n.inner if c is not None][0]
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            return to_type(self.ev(sub), n.type)
        if ck == "IntegralToBoolean":
            return cond(self.ev(sub))
        if ck in ("NoOp", "LValueToRValue", "ConstructorConversion", "ArrayToPointerDecay", "UserDefinedConversion", "DerivedToBase", "FunctionToPointerDecay"):
            return self.ev(sub)
        if ck == "ToVoid":
            return self.ev(sub)
        raise Unknown("cast " + str(ck))

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr

    def e_CXXConstructExpr(self, n):
        ty = clean(n.type)
        args = [c for c in n.inner if c is not None and c.kind != "CXXDefaultArgExpr"]
        ct = (n.extra.get("ctorType") or {}).get("qualType", "")
        if ty in (U, V5, FE):
            short = ty.split("::")[-1]
            if len(args) == 1 and short in ct and "&" in ct:
                return self.ev(args[0])
            f = self.find_ctor(ty, ct)
            if f is None:
                if not args:
                    return self.default(ty)
                raise Unknown("constructor %s %s" % (ty, ct))
            p = self.tmp(self.default(ty))
            self.call(f, p, self.args_for(f, args))
            return self.path_get(p)
        if "basic_string" in ty or "vector" in ty:
            if not args:
                return Text("") if "string" in ty else Seq()
            return self.ev(args[0])
        if "mpz_class" in ty or "__gmp_expr" in ty:
            v = [self.ev(a) for a in args]
            return v[0] if len(v) == 1 and isinstance(v[0], Mpz) else Mpz(v)
        raise Unknown("constructor of " + ty)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def find_ctor(self, ty, ct):
        for f in self.prog.ctors.get(ty, []):
            if clean_sig(f.node.extra.get("qualType") or f.node.type) == clean_sig(ct):
                return f
        return None

    def e_UnaryOperator(self, n):
        op = n.op
        sub = n.inner[0]
        if op in ("++", "--"):
            p = self.lv(sub)
            v = val(self.path_get(p))
            w = to_type(v + (1 if op == "++" else -1), sub.type)
            self.path_set(p, w)
            return v if n.extra.get("isPostfix") else w
        if op == "!":
            return cnot(cond(self.ev(sub)))
        if op == "*":
            return self.path_get(self.lv(n))
        v = val(self.ev(sub))
        if op == "-":
            return to_type(-v, n.type)
        if op == "+":
            return v
        if op == "~":
            w, s = width(n.type)
            return (-1 - v) if s else ((1 << w) - 1 - v)
        if op == "__extension__":
            return self.ev(sub)
        raise Unknown("operator " + str(op))

    def e_ConditionalOperator(self, n):
        a, b, c = n.inner
        cc = cond(self.ev(a))
        if clean(n.type) == "void":
            # assert
            if any(x.kind == "DeclRefExpr" and (x.ref or {}).get("name") in ("__assert_fail", "abort") for x in c.walk()):
                self.live = cand(self.live, cc)
                return None
        if cc is True:
            return self.ev(b)
        if cc is False:
            return self.ev(c)
        live0 = self.live
        self.live = cand(live0, cc)
        x = self.ev(b)
        self.live = cand(live0, cnot(cc))
        y = self.ev(c)
        self.live = live0
        return to_type(merge(cc, x, y), n.type)

    def arith(self, op, a, b, ty, n):
        w = width(ty)
        if w is None:
            raise Unknown("arithmetic in " + str(ty))
        bits, signed = w
        if op in ("<<", ">>"):
            k = val(b).const()
            if k is None:
                raise Unknown("shift by a variable amount")
            if k < 0 or k >= bits:
                self.undef.append((self.live, n, "shift of a %d-bit value by %d" % (bits, k)))
                k = k % bits
            if op == ">>":
                return fl(val(a), k)
            return to_type(val(a) * (1 << k), ty)
        a, b = val(a), val(b)
        if op in ("+", "-", "*"):
            t = a + b if op == "+" else a - b if op == "-" else a * b
            return to_type(t, ty)
        if op in ("&", "|", "^"):
            if signed:
                for x in (a, b):
                    lo, _ = zt.bounds(x)
                    if lo is None or lo < 0:
                        c = x.const()
                        if c is None:
                            raise Unknown("bit operation on a signed value")
            aa, bb = wrap(a, bits), wrap(b, bits)
            x = band(aa, bb, bits)
            r = x if op == "&" else aa + bb - x if op == "|" else aa + bb - 2 * x
            return to_type(r, ty) if signed else r
        if op in ("/", "%"):
            k = b.const()
            lo, _ = zt.bounds(a)
            if k and k > 0 and k & (k - 1) == 0 and lo is not None and lo >= 0:
                j = k.bit_length() - 1
                return fl(a, j) if op == "/" else wrap(a, j)
            if k and a.const() is not None and lo >= 0:
                return lift(a.const() // k if op == "/" else a.const() % k)
            raise Unknown("division")
        raise Unknown("operator " + op)

    def e_BinaryOperator(self, n):
        op = n.op
        if op == "=":
            p = self.lv(n.inner[0])
            v = to_type(self.ev(n.inner[1]), n.inner[0].type)
            self.path_set(p, v)
            return v
        if op == ",":
            self.ev(n.inner[0])
            return self.ev(n.inner[1])
        if op in ("&&", "||"):
            a = cond(self.ev(n.inner[0]))
            if a is (op == "||"):
                return a
            live0 = self.live
            self.live = cand(live0, a if op == "&&" else cnot(a))
            b = cond(self.ev(n.inner[1]))
            self.live = live0
            return cand(a, b) if op == "&&" else cor(a, b)
        a, b = self.ev(n.inner[0]), self.ev(n.inner[1])
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return compare(op, val(a), val(b))
        return self.arith(op, a, b, n.type, n)

    def e_CompoundAssignOperator(self, n):
        p = self.lv(n.inner[0])
        cur = self.path_get(p)
        b = self.ev(n.inner[1])
        op = n.op[:-1]
        ta, tb = n.inner[0].type, n.inner[1].type
        if op in ("<<", ">>"):
            ty = ta if (width(ta) or (0,))[0] >= 32 else "int"
        else:
            ty = promote(ta, tb)
        v = to_type(self.arith(op, to_type(cur, ty), to_type(b, ty) if op not in ("<<", ">>") else b, ty, n), ta)
        self.path_set(p, v)
        return v

    def e_CXXOperatorCallExpr(self, n):
        name = self.opname(n)
        f, _ = self.callee(n.inner[0])
        args = n.inner[1:]
        if name == "operator=":
            v = self.ev(args[1])
            p = self.lv(args[0])
            self.path_set(p, v)
            return v
        if name == "operator[]":
            v = self.ev(args[0])
            i = val(self.ev(args[1]))
            if isinstance(v, Text):
                return self.char(v, i)
            if isinstance(v, Seq) and i.const() in v.d:
                return v.d[i.const()]
            raise Unknown("element")
        if f is None:
            raise Unknown("operator " + str(name))
        if f.cls:
            this = self.obj(args[0])
            return self.call(f, this, self.args_for(f, args[1:]))
        return self.call(f, None, self.args_for(f, args))

    def e_CXXMemberCallExpr(self, n):
        me = n.inner[0]
        while me.kind in ("ParenExpr", "ImplicitCastExpr"):
            me = me.inner[0]
        name = me.name
        base = [c for c in me.inner if c is not None][0]
        m = self.prog.resolve(self.ti, me.ref) if me.ref else None
        f = self.prog.funcs.get(m)
        args = n.inner[1:]
        if f is not None:
            return self.call(f, self.obj(base), self.args_for(f, args))
        bt = clean(base.type)
        if "basic_string" in bt:
            v = self.ev(base)
            if name in ("c_str", "data"):
                return v
            if name in ("length", "size") and isinstance(v, Text):
                return lift(len(v.s)) if isinstance(v.s, str) else zt.inp("length", 0, 10 ** 6)
        if "vector" in bt and name in ("push_back", "emplace_back"):
            p = self.lv(base)
            v = self.path_get(p)
            x = self.ev(args[0])
            self.path_set(p, v.put(v.n, x))
            return None
        if "vector" in bt and name in ("reserve",):
            return None
        raise Unknown("method " + str(name))

    def e_CallExpr(self, n):
        f, name = self.callee(n.inner[0])
        args = n.inner[1:]
        if f is not None:
            return self.call(f, None, self.args_for(f, args))
        if name in ("__builtin_clzll", "__builtin_clzl", "__builtin_clz"):
            w = 32 if name == "__builtin_clz" else 64
            x = val(self.ev(args[0]))
            z = cand(self.live, eq0(x))
            if z is not False:
                self.undef.append((z, n, "%s of zero" % name))
            c = x.const()
            return lift(w - c.bit_length()) if c else zt.clz(x, w)
        if name in ("__assert_fail", "abort"):
            self.live = False
            return None
        if name in ("rand", "random", "lrand48"):
            self.nt += 1
            return zt.opaque(("rand", self.nt), 0, 2 ** 31 - 1)
        if name in ("swap", "move", "min", "max", "forward"):
            if name in ("move", "forward"):
                return self.ev(args[0])
            if name == "swap":
                p, q = self.lv(args[0]), self.lv(args[1])
                a, b = self.path_get(p), self.path_get(q)
                self.path_set(p, b)
                self.path_set(q, a)
                return None
        raise Unknown("call of " + str(name))

    def e_CXXNewExpr(self, n):
        return Seq()

    def e_CXXDeleteExpr(self, n):
        return None


def promote(a, b):
    wa, wb = width(a) or (0, 0), width(b) or (0, 0)
    m = max([(32, 1), wa, wb], key=lambda w: (w[0], not w[1]))
    for k in ("int", "unsigned int", "long long", "unsigned long long", "__int128", "unsigned __int128"):
        if WIDTH[k] == m:
            return k
    raise Unknown("promotion")


def compare(op, a, b):
    if op == "==":
        return eq0(a - b)
    if op == "!=":
        return cnot(eq0(a - b))
    if op == "<":
        return lt0(a - b)
    if op == ">":
        return lt0(b - a)
    if op == "<=":
        return cnot(lt0(b - a))
    return cnot(lt0(a - b))


def clean_sig(t):
    t = (t or "").replace("prime_field::", "").replace("const ", "").replace("noexcept", "").replace(" ", "")
    return t.replace("__uint128_t", "unsigned__int128").replace("unsignedlong&", "unsignedlonglong&")
