"""F03: the univariate message polynomials.  Each operation of each polynomial class is reduced to a normal form over the
stored coefficients and its argument, and compared with the polynomial identity it stands for."""
import random
import term as t_
from term import T, F, FZERO, KEYS, PMOD, P
from interp import Interp, LV, St
from gkr import Ob, opaque_atoms, bool_opaque
from frontend import AnalysisError

FE = "prime_field::field_element"


class Unk(Exception):
    pass


def pval(p, env):
    s = 0
    for m, c in p.t.items():
        v = c if isinstance(c, int) else c.numerator * pow(c.denominator, -1, PMOD)
        for a, e in m:
            v = v * pow(aval(a, env), e, PMOD)
        s += v
    return s % PMOD


def aval(a, env):
    if a in env:
        return env[a]
    k = KEYS[a]
    if k[0] == "ind":
        return int(bval(k[1], env))
    if k[0] == "sel":
        env[a] = env["choose"](a)
        return env[a]
    raise Unk()


def bval(b, env):
    k = b[0]
    if k in ("T", "F"):
        return k == "T"
    if k == "not":
        return not bval(b[1], env)
    if k == "and":
        return all(bval(x, env) for x in b[1])
    if k == "or":
        return any(bval(x, env) for x in b[1])
    if k == "eq" and b[1].f:
        return pval(b[1], env) == 0
    raise Unk()


class PolyCheck:
    def __init__(self, prog):
        self.prog, self.which = prog, "poly"
        self.obs = []
        self.ops = 0

    def run(self):
        classes = sorted(c for c in self.prog.records if c.endswith("_poly"))
        for c in classes:
            fs = self.prog.records[c]
            if len(fs) < 2 or any(t != FE for _, t in fs):
                continue
            names = [n for n, _ in fs]
            for f in sorted((f for f in self.prog.funcs.values() if f.cls == c and f.file.startswith(self.prog.repo)), key=lambda f: f.line):
                op = f.qname.split("::")[-1]
                try:
                    if op == c and f.params and not self.implicit(f, c):
                        self.ctor(f, c, names)
                    elif op == "eval":
                        self.eval(f, names)
                    elif op in ("operator+", "operator*"):
                        self.arith(f, c, names, op)
                except (AnalysisError, Unk) as e:
                    self.ob(f, op, None, "polynomial operation", str(e))
        self.units = {"classes": classes, "operations": self.ops}
        return self.obs

    @staticmethod
    def implicit(f, c):
        """copy and move constructors are the compiler's"""
        return len(f.params) == 1 and c in (f.params[0].type or "")

    def ob(self, f, op, ok, what, detail=""):
        st = {True: "ok", False: "violated", None: "undecided"}[ok]
        n = self.prog.byname[f.qname]
        nm = "poly:%s%s" % (f.qname, "" if len(n) == 1 else "/%d" % len(f.params))
        self.obs.append(Ob(nm, ("F03",), st, what, f.file, f.line, detail))

    def start(self, f):
        self.ops += 1
        I = Interp(self.prog, inst=True)
        fr, _ = I.run(f)
        return I, fr

    def field(self, I, st, base, name=None):
        lv = LV(base, (), FE)
        if name is not None:
            lv = LV(base + (name,), (), FE)
        return I.load(st, lv)

    def compare(self, f, op, what, pairs):
        """pairs: (condition, got, wanted)"""
        und = None
        for pc, got, want in pairs:
            if pc == F:
                continue
            if not isinstance(got, P):
                und = "result not followed"
                continue
            d = got - want
            if d.is_zero() or self.under(pc, d).is_zero():
                continue
            if opaque_atoms(got) or bool_opaque(pc):
                und = "result depends on something not followed"
                continue
            w = self.witness(pc, d)
            if w:
                self.ob(f, op, False, what, "difference to the expected value: %s%s" % (t_.show(d)[:200], "" if pc == T else " when " + t_.bshow(pc)[:100]))
                return
            if w is None:
                und = "cases not separated"
        self.ob(f, op, None if und else True, what, und or "")

    @staticmethod
    def under(pc, d):
        """d where the equalities of pc hold and its other literals are true"""
        lits = list(pc[1]) if pc[0] == "and" else [pc]
        for l in lits:
            if l[0] == "eq":
                p = l[1]
                for m, c in p.t.items():
                    if len(m) == 1 and m[0][1] == 1 and KEYS[m[0][0]][0] == "sel" and not any(m[0][0] in t_.DEPS[a] for m2 in p.t if m2 != m for a, _ in m2):
                        a = m[0][0]
                        d = t_.subst(d, {a: (t_.PA(a, True) - p * t_.lift(t_.Fraction(1, c)) if c not in (1, -1) else t_.PA(a, True) - p * t_.lift(c))})
                        break
        return d

    def witness(self, pc, d):
        rnd = random.Random(7)
        try:
            for n in range(4000):
                small = n % 2
                env = {"choose": lambda a: rnd.choice([0, 1, 2, PMOD - 1]) if small or rnd.random() < 0.5 else rnd.randrange(PMOD)}
                if bval(pc, env) and pval(d, env) != 0:
                    return True
        except Unk:
            return None
        return None if pc != T or any(KEYS[a][0] == "ind" for a in d.deps()) else True

    def ctor(self, f, c, names):
        I, fr = self.start(f)
        if len(f.params) == len(names):
            want = lambda st: [self.field(I, St0, ("arg", p.name or "arg%d" % i)) for i, p in enumerate(f.params)]
        elif len(f.params) == 1:
            want = lambda st: [FZERO] * (len(names) - 1) + [self.field(I, St0, ("arg", f.params[0].name or "arg0"))]
        else:
            return
        from interp import State
        St0 = State()
        pairs = []
        for e in fr.exits:
            for n, w in zip(names, want(None)):
                pairs.append((e.pc, self.field(I, e.state, ("this", n)), w))
        self.compare(f, "ctor", "constructing the polynomial stores its coefficients in order", pairs)

    def eval(self, f, names):
        from interp import State
        I, fr = self.start(f)
        s0 = State()
        x = self.field(I, s0, ("arg", f.params[0].name or "arg0"))
        w = FZERO
        for n in names:
            w = w * x + self.field(I, s0, ("this", n))
        self.compare(f, "eval", "evaluation gives the value of the polynomial with the stored coefficients", [(e.pc, e.val, w) for e in fr.exits])

    def arith(self, f, c, names, op):
        from interp import State
        I, fr = self.start(f)
        s0 = State()
        other = (f.params[0].type or "").replace("const", "").replace("&", "").strip()
        on = [n for n, _ in self.prog.records.get(other, [])]
        rt = (f.rtype or "").replace("const", "").replace("&", "").strip()
        rn = [n for n, _ in self.prog.records.get(rt, [])]
        pn = f.params[0].name or "arg0"
        a = [self.field(I, s0, ("this", n)) for n in reversed(names)]
        b = [self.field(I, s0, ("arg", pn, n)) for n in reversed(on)]
        if op == "operator+":
            w = [(a[k] if k < len(a) else FZERO) + (b[k] if k < len(b) else FZERO) for k in range(max(len(a), len(b)))]
        else:
            w = [FZERO] * (len(a) + len(b) - 1)
            for i, x in enumerate(a):
                for j, y in enumerate(b):
                    w[i + j] = w[i + j] + x * y
        if len(rn) != len(w):
            self.ob(f, op, None, "polynomial arithmetic", "result class has another degree")
            return
        pairs = []
        for e in fr.exits:
            if not isinstance(e.val, St):
                raise Unk("result not followed")
            for n, x in zip(reversed(rn), w):
                pairs.append((e.pc, e.val.d.get(n), x))
        self.compare(f, op, "%s of polynomials combines the coefficients" % ("sum" if op == "operator+" else "product"), pairs)
