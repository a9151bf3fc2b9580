"""F01: every operation of u256b, u512b and the representation part of field_element is the mathematical one.
F02 (first part): field operations and the modular reduction.

Each function is analysed on its own for all limb values; calls between them are replaced by their specification.
"""
import zterm as zt
from zterm import Z, lift, fl, wrap, band, lt0, eq0, cnot, cand, cor, ind, ite, inp
from limbs import Exec, St, Seq, Text, Mpz, Unknown, U, V5, FE, big256, big512, sym256, sym512, val, cond, clean, merge, width
from gkr import Ob
from frontend import AnalysisError

M64, M128, M256, M512 = 1 << 64, 1 << 128, 1 << 256, 1 << 512
BITS = {U: 256, V5: 512}


def ptypes(f):
    return tuple(clean(p.type).replace("prime_field::", "") for p in f.params)


def short(f):
    return f.qname.replace("prime_field::", "")


CMP = {"operator<": lambda d: lt0(d), "operator>": lambda d: lt0(-d), "operator<=": lambda d: cnot(lt0(-d)),
       "operator>=": lambda d: cnot(lt0(d)), "operator==": lambda d: eq0(d), "operator!=": lambda d: cnot(eq0(d))}


def role(f):
    """(kind, ...) of a member function, or None"""
    if f.cls not in (U, V5, FE):
        return None
    n = f.qname.split("::")[-1]
    pt = ptypes(f)
    c = f.cls.split("::")[-1]
    if f.is_ctor:
        if pt == ():
            return ("ctor0",)
        if len(pt) == 1 and pt[0] in ("unsigned long long", "unsigned __int128", "int", "u256b"):
            return ("ctor", pt[0])
        if pt and pt[0] == "char *" and len(pt) == 3:
            return ("text",)
        return None
    if n in CMP and pt == (c,):
        return ("cmp", n)
    if n in ("operator+", "operator-", "operator*", "operator&") and pt == (c,):
        return ("bin", n[-1])
    if n == "operator%" and c == "u512b" and pt == ("u256b",):
        return ("mod",)
    if n == "left_128" and pt == () and c == "u256b":
        return ("left",)
    if n in ("bit_at", "testBit") and pt == ("int",):
        return ("bit",)
    if n == "bitLen" and pt == ():
        return ("bitlen",)
    if c == "field_element" and n in ("to_string", "to_gmp_class", "bit_stream", "mul_non_mod"):
        return (n,)
    return None


def make(cls, t):
    if cls == U:
        return big256(t)
    return big512(t)


def limbs_and(a, b):
    return St(U, {"lo": band(a.f["lo"], b.f["lo"], 64), "mid": band(a.f["mid"], b.f["mid"], 64), "hi": band(a.f["hi"], b.f["hi"], 128)})


def is0(x):
    return zt.bounds(x) == (0, 0)


class Specs:
    """what callers may assume"""

    def __init__(self, chk, skip=None, field=True):
        self.chk = chk
        self.map = {}
        for m, f in chk.prog.funcs.items():
            r = role(f)
            if r is None or m == skip:
                continue
            h = getattr(self, "s_" + r[0], None)
            if h is not None and (f.cls != FE or r[0] in ("ctor0", "ctor") or field):
                self.map[m] = (lambda ex, t, a, raw, this, h=h, r=r, f=f: h(ex, f, r, t, a, raw, this))

    def put(self, ex, this, cls, t):
        if isinstance(t, St):
            t = St(V5, {"lo": t.f["lo"] + t.f["mid"] * M64, "mid": t.f["hi"], "hi": big256(0)})
            ex.path_set(this, t if cls == V5 else St(FE, {"value": t}))
            return
        v = make(cls, t) if cls != FE else St(FE, {"value": big512(t)})
        ex.path_set(this, v)

    def s_ctor0(self, ex, f, r, t, a, raw, this):
        self.put(ex, this, f.cls, lift(0))

    def s_ctor(self, ex, f, r, t, a, raw, this):
        x = a[0]
        if isinstance(x, St) and f.cls == V5 and x.cls == U:
            self.put(ex, this, f.cls, x)
            return
        x = val(x)
        if f.cls == FE and r[1] == "int":
            x = wrap(x, 64)
        self.put(ex, this, f.cls, x)

    def s_text(self, ex, f, r, t, a, raw, this):
        if not (isinstance(a[0], Text) and isinstance(a[0].s, str)):
            raise Unknown("number from unknown text")
        n, b = val(a[1]).const(), val(a[2]).const()
        if n is None or b != 10 or n != len(a[0].s) or not a[0].s.isdigit():
            raise Unknown("number from text")
        if f.cls == V5 and len(a[0].s) > 77:
            raise Unknown("long number")
        self.put(ex, this, f.cls, lift(int(a[0].s)))

    def s_cmp(self, ex, f, r, t, a, raw, this):
        return CMP[r[1]](val(t) - val(a[0]))

    def s_bin(self, ex, f, r, t, a, raw, this):
        op = r[1]
        x, y = val(t), val(a[0])
        if f.cls == FE:
            return self.field(ex, op, x, y)
        if op == "+":
            return make(f.cls, x + y)
        if op == "-":
            return make(f.cls, x - y)
        if op == "&" and f.cls == U:
            return limbs_and(t, a[0])
        if op == "*":
            if f.cls == V5:
                if not (is0(val(t.f["hi"])) and is0(val(a[0].f["hi"]))):
                    raise Unknown("512-bit product of operands that may reach 2^256")
            return make(f.cls, x * y)
        raise Unknown("operator")

    def field(self, ex, op, x, y):
        raise Unknown("field operation inside a field operation")

    def s_left(self, ex, f, r, t, a, raw, this):
        return big256((t.f["lo"] + t.f["mid"] * M64) * M128)

    def s_bit(self, ex, f, r, t, a, raw, this):
        k = val(a[0]).const()
        if k is None or not 0 <= k < 256:
            raise Unknown("bit at an unknown position")
        x = val(t)
        return fl(x, k) - 2 * fl(x, k + 1)

    def s_bitlen(self, ex, f, r, t, a, raw, this):
        return bitlen_spec(t)


def words(v):
    """64-bit words, most significant first: (term, bit offset)"""
    if v.cls == FE:
        v = v.f["value"]
    out = []
    if v.cls == V5:
        out += [(w, o + 256) for w, o in words(v.f["hi"])]
        for k, o in (("mid", 128), ("lo", 0)):
            x = val(v.f[k])
            out += [(fl(x, 64), o + 64), (x - fl(x, 64) * M64, o)]
        return out
    h = val(v.f["hi"])
    return [(fl(h, 64), 192), (h - fl(h, 64) * M64, 128), (val(v.f["mid"]), 64), (val(v.f["lo"]), 0)]


def bitlen_spec(v):
    r = lift(0)
    for w, o in reversed(words(v)):
        if w.const() == 0:
            continue
        r = ite(cnot(eq0(w)), o + 64 - zt.clz(w, 64), r)
    return r


class NumCheck:
    def __init__(self, prog, which):
        self.prog, self.which = prog, which
        self.obs = []
        self.units = {}
        self.hints = ()

    def ob(self, id, ok, what, f, line=None, detail="", prop="F01"):
        st = {True: "ok", False: "violated", None: "undecided"}[ok]
        self.obs.append(Ob(self.which + ":" + id, (prop,), st, what, f.file, line or f.line, detail))

    # ------------------------------------------------------------ one function
    def exec(self, f, this, args, globs=None, **kw):
        """returns (Exec, result value, this afterwards)"""
        ex = Exec(self.prog, Specs(self, skip=f.mangled, **kw).map, globs or {"prime_field::one": big256(1), "prime_field::zero": big256(0)})
        tp = None
        if this is not None:
            ex.store[("this",)] = this
            tp = (("this",),)
        a = []
        for p, x in zip(f.params, args):
            if isinstance(x, (St, Seq)) and p.type.rstrip().endswith("&"):
                key = ("arg", p.name)
                ex.store[key] = x
                x = ("ref", (key,))
            a.append(x)
        r = ex.enter(f, tp, a)
        return ex, r, ex.path_get(tp) if tp else None

    def names(self, f):
        return "%s(%s)" % (short(f), ", ".join(ptypes(f)))

    def oid(self, f, r):
        return "%s.%s" % (f.cls.split("::")[-1], "-".join(str(x).replace(" ", "_") for x in r))

    def compare(self, id, f, ex, got, want, mod, what, where=True, prop="F01"):
        """got and want are terms; equal modulo mod (None: exactly) wherever `where` holds"""
        if ex is not None and ex.undef:
            for c, n, txt in ex.undef:
                cc = cand(where, c)
                d = zt.zero_mod(ind(cc), None) if cc is not True else ("undefined",)
                if cc is True or d is not True and zt.witness(ind(cc), None) is not None:
                    self.ob(id, False, what, f, n.line, "undefined behaviour: " + txt, prop)
                    return False
                if d is not True:
                    self.ob(id, None, what, f, n.line, "cannot exclude: " + txt, prop)
                    return None
        diff = val(got) - val(want)
        if where is not True:
            diff = ind(where) * diff
        r = zt.zero_mod(diff, mod)
        if r is True:
            self.ob(id, True, what, f, prop=prop)
            return True
        w = zt.witness(val(got) - val(want), mod, where=where, hints=self.hints)
        if w is not None:
            self.ob(id, False, what, f, detail="the result differs from the specification for " + showw(w) + "; difference " + zt.show(r[0], 160), prop=prop)
            return False
        self.ob(id, None, what, f, detail="remaining difference " + zt.show(r[0], 160), prop=prop)
        return None

    def run(self):
        for m, f in sorted(self.prog.funcs.items(), key=lambda x: (x[1].line or 0)):
            r = role(f)
            if r is None:
                continue
            h = getattr(self, "c_" + r[0], None)
            if h is None:
                continue
            id = self.oid(f, r)
            try:
                h(f, r, id)
            except (Unknown, KeyError, IndexError) as e:
                self.ob(id, None, self.names(f), f, detail="%s" % e)
        self.units["functions"] = sorted(set(self.names(f) for f in self.prog.funcs.values() if role(f) is not None))
        return self.obs

    def this(self, f, name="a"):
        if f.cls == U:
            return sym256(name)
        if f.cls == V5:
            return sym512(name)
        return St(FE, {"value": sym512(name)})

    def blank(self, f):
        return {U: big256(0), V5: big512(0), FE: St(FE, {"value": big512(0)})}[f.cls]

    def c_ctor0(self, f, r, id):
        ex, _, t = self.exec(f, self.blank(f), [])
        self.compare(id, f, ex, val(t), 0, None, self.names(f) + " makes zero")

    def c_ctor(self, f, r, id):
        if r[1] == "u256b":
            x = sym256("x")
        elif r[1] == "int":
            x = inp("x", 0, 2 ** 31 - 1)
        else:
            x = inp("x", 0, 2 ** width(r[1])[0] - 1)
        ex, _, t = self.exec(f, self.blank(f), [x])
        self.compare(id, f, ex, val(t), val(x), None, self.names(f) + " keeps the number" + (" (non-negative)" if r[1] == "int" else ""))

    def c_cmp(self, f, r, id):
        a, b = self.this(f), self.this(f, "b")
        ex, v, _ = self.exec(f, a, [b])
        self.compare(id, f, ex, v, CMP[r[1]](val(a) - val(b)), None, self.names(f) + " compares the numbers")

    def c_bin(self, f, r, id):
        if f.cls == FE:
            return
        a, b = self.this(f), self.this(f, "b")
        op = r[1]
        what = "%s is exact modulo 2^%d" % (self.names(f), BITS[f.cls])
        if op == "*" and f.cls == V5:
            a, b = sym512("a", True), sym512("b", True)
            what = self.names(f) + " is exact for operands below 2^256"
        ex, v, _ = self.exec(f, a, [b])
        x, y = val(a), val(b)
        if op == "&":
            if f.cls != U:
                return
            self.compare(id, f, ex, val(v), val(limbs_and(a, b)), None, self.names(f) + " is the bitwise and")
            return
        self.compare(id, f, ex, val(v), x + y if op == "+" else x - y if op == "-" else x * y, 1 << BITS[f.cls], what)

    def c_left(self, f, r, id):
        a = self.this(f)
        ex, v, _ = self.exec(f, a, [])
        self.compare(id, f, ex, val(v), val(a) * M128, M256, self.names(f) + " shifts left by 128")

    def c_bit(self, f, r, id):
        a = self.this(f)
        x = val(a)
        what = self.names(f) + " is the bit at every position 0..255"
        bad = []
        for k in range(256):
            n = len(self.obs)
            ex, v, _ = self.exec(f, a, [lift(k)])
            ok = self.compare(id, f, ex, v, fl(x, k) - 2 * fl(x, k + 1), None, what)
            o = self.obs.pop()
            if ok is not True:
                o.detail = "position %d: %s" % (k, o.detail)
                bad.append(o)
        if bad:
            self.obs.append(next((o for o in bad if o.status == "violated"), bad[0]))
        else:
            self.ob(id, True, what, f)

    def c_bitlen(self, f, r, id):
        a = self.this(f)
        ex, v, _ = self.exec(f, a, [])
        self.compare(id, f, ex, v, bitlen_spec(a), None, self.names(f) + " is the position above the highest set bit")

    def c_mul_non_mod(self, f, r, id):
        a, b = St(FE, {"value": sym512("a").with_("hi", big256(0))}), St(FE, {"value": sym512("b").with_("hi", big256(0))})
        ex, v, _ = self.exec(f, a, [b])
        self.compare(id, f, ex, val(v), val(a) * val(b), M512, self.names(f) + " is the exact product of operands below 2^256")

    def bits(self, f, id, seq, want, what):
        """seq: list of (position, value); want: position -> term"""
        for p, w in want.items():
            got = seq.get(p)
            if got is None:
                self.ob(id, None, what, f, detail="position %s is not written" % p)
                return
            d = val(got) - val(w)
            r = zt.zero_mod(d, None)
            if r is not True:
                wt = zt.witness(d, None)
                self.ob(id, False if wt is not None else None, what, f, detail="position %s: %s" % (p, zt.show(d, 120)))
                return
        self.ob(id, True, what, f)

    def bit(self, x, k):
        return fl(x, k) - 2 * fl(x, k + 1)

    def c_to_string(self, f, r, id):
        a = self.this(f)
        ex, v, _ = self.exec(f, a, [])
        if isinstance(v, Seq):
            self.bits(f, id, v.d, {k: self.bit(val(a), k) + 48 for k in range(512)}, self.names(f) + " writes the bits, lowest first")

    def c_bit_stream(self, f, r, id):
        a = St(FE, {"value": sym512("a").with_("hi", big256(0))})
        ex, v, _ = self.exec(f, a, [])
        if isinstance(v, Seq):
            if v.n != 256:
                self.ob(id, False, self.names(f), f, detail="%d positions" % v.n)
                return
            self.bits(f, id, v.d, {k: self.bit(val(a), k) for k in range(256)}, self.names(f) + " lists the bits, lowest first")

    def c_to_gmp_class(self, f, r, id):
        a = St(FE, {"value": sym512("a").with_("hi", big256(0))})
        ex, v, _ = self.exec(f, a, [])
        if isinstance(v, Mpz) and len(v.args) == 2 and isinstance(v.args[0], Seq) and val(v.args[1]).const() == 2:
            s = v.args[0]
            want = {k: self.bit(val(a), 255 - k) + 48 for k in range(256)}
            want[256] = lift(0)
            self.bits(f, id, s.d, want, self.names(f) + " converts the number (binary text, highest bit first)")
        else:
            self.ob(id, None, self.names(f), f, detail="not a conversion through binary text")

    # ------------------------------------------------------------ numbers from text
    def c_text(self, f, r, id):
        what = self.names(f) + " reads the digits in the given base"
        loops = [c for c in f.body.inner if c is not None and c.kind == "ForStmt"]
        if len(loops) != 1:
            self.ob(id, None, what, f, detail="expected one loop over the digits")
            return
        lp = loops[0]
        ex = Exec(self.prog, Specs(self, skip=f.mangled).map, {})
        n = inp("len", 1, 100)
        base = inp("base", 2, 36)
        # run up to the loop
        ex.nf += 1
        from limbs import Frame
        fr = Frame()
        fr.fid, fr.this, fr.rets, fr.func = 1, (("this",),), [], f
        ex.frame, ex.ti, ex.refs = fr, f.tu, {}
        ex.store[("this",)] = self.blank(f)
        for p, v in zip(f.params, (Text(None), n, base)):
            ex.store[(1, p.id)] = v
        i0 = f.body.inner.index(lp)
        for c in f.body.inner[:i0]:
            ex.stmt(c)
        init, _, test, inc, body = lp.inner
        before = dict(ex.store)
        ex.stmt(init)
        iv = [k for k in ex.store if k not in before]
        if len(iv) != 1:
            raise Unknown("loop variable")
        iv = iv[0]
        istart = val(ex.store[iv])
        objs = [k for k, v in before.items() if isinstance(v, St) and k != ("this",) and k[0] == 1]
        base_c = {k: val(before[k]).const() for k in objs}
        i = inp("i", 0, 10 ** 6)
        start = dict(ex.store)
        ch = list(objs)
        for _ in range(2):
            # first pass: which objects the body changes; second pass: with only those unknown
            sym = {}
            ex.store = dict(start)
            ex.store[iv] = i
            for k in ch:
                s = sym256("v%s" % k[1]) if before[k].cls == U else sym512("v%s" % k[1])
                if f.cls == V5 and base_c[k] == 1:
                    s = s.with_("hi", big256(0))
                sym[k] = ex.store[k] = s
            tc = cond(ex.ev(test))
            ex.stmt(body)
            ch = [k for k in ch if ex.store[k] is not sym[k]]
        after = {k: ex.store[k] for k in ch}
        ex.ev(inc)
        step = (val(ex.store[iv]) - i).const()
        for k in ch:
            ex.store[k] = sym[k]
        for c in f.body.inner[i0 + 1:]:
            ex.stmt(c)
        res = val(ex.path_get(fr.this))
        acc = [k for k in ch if base_c[k] == 0]
        if len(acc) != 1 or zt.zero_mod(res - val(sym[acc[0]]), None) is not True or step not in (1, -1):
            raise Unknown("accumulator")
        acc = acc[0]
        # the position whose digit the body reads
        at = [(c, d) for c in (0, -1, 1) for d in [ex.char(Text(None), i + c)] if d.atoms() & zt.deep_atoms(val(after[acc]))]
        if len(at) != 1:
            raise Unknown("digit")
        j, d = i + at[0][0], at[0][1] - 48
        mod = 1 << BITS[f.cls]
        first = istart + at[0][0]
        if step == -1 and len(ch) == 2:
            pw = [k for k in ch if k != acc][0]
            if base_c[pw] != 1:
                self.ob(id, False if base_c[pw] is not None else None, what, f, detail="the first power is %s, not 1" % base_c[pw])
                return
            A, T = val(sym[acc]), val(sym[pw])
            todo = [(val(after[acc]), A + T * d), (val(after[pw]), T * base)]
            lim, cnd = n - 1, cnot(lt0(j))
        elif step == 1 and len(ch) == 1:
            todo = [(val(after[acc]), val(sym[acc]) * base + d)]
            lim, cnd = lift(0), lt0(j - n)
        else:
            raise Unknown("neither powers from the last digit nor Horner's rule from the first")
        if first != lim:
            self.ob(id, False, what, f, lp.line, "starts at position %s of the text, not %s" % (zt.show(first), zt.show(lim)))
            return
        g = ind(tc) - ind(cnd)
        if zt.zero_mod(g, None) is not True:
            # a position inside the text at which the loop stops, or one outside at which it goes on
            w = zt.witness(g, None, where=cand(cnot(lt0(j + 1)), lt0(j - n - 1)))
            self.ob(id, False if w is not None else None, what, f, lp.line, "positions read are not 0..len-1")
            return
        for got, want in todo:
            if self.compare(id, f, None, got, want, mod, what) is not True:
                return
            self.obs.pop()
        self.ob(id, True, what, f)


def is_prime(n):
    if n < 4:
        return n in (2, 3)
    if n % 2 == 0:
        return False
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    import random
    r = random.Random(1)
    for _ in range(48):
        x = pow(r.randrange(2, n - 1), d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


class FieldCheck(NumCheck):
    """F02: the field operations, given the constants that init() computes for the prime the program passes"""

    def run(self):
        ini = self.prog.func("prime_field::init")
        main = self.prog.func("main")
        text = [x for x in main.body.walk() if x.kind == "CallExpr" and (x.inner[0].kind == "ImplicitCastExpr" and x.inner[0].inner[0].ref or {}).get("name") == "init"]
        lit = [y.value[1:-1] for x in text for y in x.walk() if y.kind == "StringLiteral"]
        if len(lit) != 1 or not lit[0].isdigit():
            self.ob("prime", None, "the prime passed to prime_field::init is a literal", main, prop="F02")
            return self.obs
        self.p = p = int(lit[0])
        line = text[0].line
        self.ob("prime", True if is_prime(p) else False, "the modulus passed to prime_field::init is prime", main, line, "" if is_prime(p) else str(p), "F02")
        ok = p < 1 << 254
        self.ob("prime-size", ok, "the modulus leaves room for sums and for the reduction (below 2^254)", main, line, prop="F02")
        try:
            ex = Exec(self.prog, Specs(self).map, {})
            base = [y for x in text for y in x.inner if y is not None and y.kind == "IntegerLiteral"]
            b = int(base[0].value) if base else 10
            ex.enter(ini, None, [Text(lit[0]), lift(b)])
            if ex.live is False:
                self.ob("init", False, "init() accepts the base it is given", ini, line, prop="F02")
                return self.obs
        except (Unknown, KeyError, IndexError) as e:
            self.ob("init", None, "constants set by init()", ini, detail=str(e), prop="F02")
            return self.obs
        self.globs = {}
        want = {"mod": p, "mod_512": p, "minus_mod_512": M512 - p, "one": 1, "zero": 0}
        for g in [k for k in self.prog.gnodes if k.startswith("prime_field::")]:
            try:
                v = ex.root(("g", g))
            except (Unknown, KeyError, IndexError):
                continue
            self.globs[g] = v
            nm = g.split("::")[-1]
            if nm in want and isinstance(v, St):
                c = val(v).const()
                self.ob("const-" + nm, None if c is None else c == want[nm], "init() sets %s to %s" % (nm, {"mod": "the prime", "mod_512": "the prime",
                        "minus_mod_512": "2^512 - prime"}.get(nm, want[nm])), ini, detail="" if c == want[nm] else "it is %s" % zt.show(val(v), 200), prop="F02")
        self.hints = (p, p - 1, p + 1)
        for m, f in sorted(self.prog.funcs.items(), key=lambda x: (x[1].line or 0)):
            r = role(f)
            if r is None:
                continue
            h = getattr(self, "f_" + r[0], None)
            if h is None:
                continue
            id = self.oid(f, r)
            try:
                h(f, r, id)
            except (Unknown, KeyError, IndexError) as e:
                self.ob(id, None, self.names(f), f, detail="%s" % e, prop="F02")
        self.units = {"prime": str(p), "reduction_exact_below": "2^%s" % getattr(self, "limit_bits", None)}
        return self.obs

    def modspec(self, ex, f, r, t, a, raw, this):
        x = val(t)
        b = zt.bounds(x)
        if b[0] is None or b[0] < 0 or b[1] is None or b[1] >= 1 << self.limit_bits:
            raise Unknown("reduction of a number that may reach 2^%d" % self.limit_bits)
        R = inp("rem%d" % len(self.rems), 0, self.p - 1)
        self.rems[next(iter(R.atoms()))] = x
        return big512(R)

    def exec(self, f, this, args, globs=None, **kw):
        self.s_mod = self.modspec
        ex = Exec(self.prog, FieldSpecs(self, skip=f.mangled).map, self.globs)
        tp = None
        if this is not None:
            ex.store[("this",)] = this
            tp = (("this",),)
        a = []
        for p, x in zip(f.params, args):
            if isinstance(x, (St, Seq)) and p.type.rstrip().endswith("&"):
                key = ("arg", p.name)
                ex.store[key] = x
                x = ("ref", (key,))
            a.append(x)
        r = ex.enter(f, tp, a)
        return ex, r, None

    def canonical(self, id, f, ex, got, want, what):
        p = self.p
        n = len(self.obs)
        got = val(got)
        full = zt.subst(got, self.rems) if self.rems else got
        over = ind(cnot(lt0(got - p)))
        ok = self.compare(id, f, ex, full, want, p, what, prop="F02")
        if ok is False or ok is None and (self.rems or zt.witness(over, None, hints=self.hints) is None):
            return False
        self.obs.pop()
        # below the prime
        r = zt.zero_mod(over, None)
        if r is True:
            self.ob(id, True, what, f, prop="F02")
            return True
        w = zt.witness(over, None, hints=self.hints) if not self.rems else None
        self.ob(id, False if w else None, what, f, detail="the result can reach the modulus" + (": " + showw(w) if w else ""), prop="F02")
        return False

    def f_mod(self, f, r, id):
        what = "%s is the remainder by the prime" % self.names(f)
        p = self.p
        self.rems = {}
        m = self.globs.get("prime_field::mod")
        best = None
        for k in (512, 511, 510, 509, 508, 507):
            X = inp("X", 0, (1 << k) - 1)
            try:
                ex, v, _ = self.exec(f, big512(X), [m])
            except Unknown:
                continue
            n = len(self.obs)
            ok = self.canonical(id, f, ex, v, X, "")
            del self.obs[n:]
            if ok is True:
                best = k
                break
        if best:
            self.limit_bits = best
            self.ob(id, True, what + ", for every number below 2^%d" % best, f, prop="F02")
            return
        X = inp("X", 0, (p - 1) ** 2)
        ex, v, _ = self.exec(f, big512(X), [m])
        self.limit_bits = 506
        self.canonical(id, f, ex, v, X, what + ", for every product of two reduced numbers")

    def elem(self, n):
        return inp(n, 0, self.p - 1)

    def f_bin(self, f, r, id):
        if f.cls != FE or r[1] not in "+-*":
            return
        x, y = self.elem("x"), self.elem("y")
        self.rems = {}
        if not hasattr(self, "limit_bits"):
            self.limit_bits = 506
        ex, v, _ = self.exec(f, St(FE, {"value": big512(x)}), [St(FE, {"value": big512(y)})])
        want = x + y if r[1] == "+" else x - y if r[1] == "-" else x * y
        self.canonical(id, f, ex, v, want, "%s is %s modulo the prime with a reduced result, for reduced operands" % (self.names(f), {"+": "the sum", "-": "the difference", "*": "the product"}[r[1]]))

    def f_cmp(self, f, r, id):
        if f.cls != FE:
            return
        x, y = self.elem("x"), self.elem("y")
        ex, v, _ = self.exec(f, St(FE, {"value": big512(x)}), [St(FE, {"value": big512(y)})])
        self.compare(id, f, ex, v, CMP[r[1]](x - y), None, self.names(f) + " compares the numbers", prop="F02")

    def f_ctor(self, f, r, id):
        if f.cls != FE:
            return
        x = inp("x", 0, 2 ** 31 - 1 if r[1] == "int" else 2 ** width(r[1])[0] - 1)
        ex = Exec(self.prog, FieldSpecs(self, skip=f.mangled).map, self.globs)
        ex.store[("this",)] = self.blank(f)
        ex.enter(f, (("this",),), [x])
        self.rems = {}
        self.canonical(id, f, ex, ex.path_get((("this",),)), x, self.names(f) + " makes the reduced element" + (" (non-negative)" if r[1] == "int" else ""))

    def f_ctor0(self, f, r, id):
        if f.cls != FE:
            return
        ex = Exec(self.prog, FieldSpecs(self, skip=f.mangled).map, self.globs)
        ex.store[("this",)] = St(FE, {"value": big512(inp("junk", 0, M512 - 1))})
        ex.enter(f, (("this",),), [])
        self.compare(id, f, ex, val(ex.path_get((("this",),))), 0, None, self.names(f) + " makes zero", prop="F02")


class FieldSpecs(Specs):
    def s_mod(self, ex, f, r, t, a, raw, this):
        return self.chk.modspec(ex, f, r, t, a, raw, this)


def showw(w):
    return ", ".join("%s=%s" % (k, zt._num(v) if abs(v) > 1 << 20 else v) for k, v in list(w.items())[:8])
