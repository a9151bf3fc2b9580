"""R01: what the programs announce.

main is abstractly interpreted with verifier and prover replaced by objects whose answers are arbitrary; the condition under which a
success text reaches the standard output is compared with the conjunction of the verifiers' answers.
"""
import itertools
import random
import re
import term as t_
from term import T, F, KEYS, P, band_, bor_, RANGES
from interp import Interp, LV, Ptr, BV, St, Opq
from gkr import Ob
from frontend import AnalysisError

OK_TEXT = re.compile(r"\b(pass|accept|succe)", re.I)
NO_TEXT = re.compile(r"fail|not |reject", re.I)


class Unk(Exception):
    pass


def success_text(s):
    return bool(OK_TEXT.search(s)) and not NO_TEXT.search(s)


class VerdictCheck:
    def __init__(self, prog, which):
        self.prog, self.which = prog, which
        self.obs = []

    def ob(self, id, ok, what, detail="", node=None, fn=None):
        st = {True: "ok", False: "violated", None: "undecided"}[ok]
        f, l = (node.file, node.line) if node is not None else ((fn or self.fn).file, (fn or self.fn).line)
        self.obs.append(Ob("%s:verdict-%s" % (self.which, id), ("R01",), st, what, f, l, detail))

    def run(self):
        self.fn = self.prog.func("main")
        self.I = I = Interp(self.prog, adversary=["prover", "verifier"], inst=True)
        I.run(self.fn)
        self.ev = I.events
        self.verifies = [e for e in self.ev if e.kind == "pcall" and e.name == "verify" and e.extra["class"] == "verifier"]
        self.units = {"events": len(self.ev), "verify_calls": len(self.verifies), "functions": sorted(I.nfun)}
        self.announce()
        self.coverage()
        self.wiring()
        self.inner()
        return self.obs

    # ------------------------------------------------------------ announcements
    def sinks(self, events):
        """(condition, event) for every success text written to the standard output; unknown texts are skipped"""
        out = []
        for e in events:
            if e.kind not in ("call", "mcall", "opcall"):
                continue
            name = (e.name or "").split("::")[-1]
            args = list(e.args)
            nodes = [x for x in e.node.inner[1:] if x is not None]
            if name in ("fprintf", "fputs", "fwrite"):
                i = 0 if name == "fprintf" else len(nodes) - 1
                if not self.stdout(nodes[i]):
                    continue
            elif name == "<<" or name == "operator<<":
                if not self.stdout(nodes[0]):
                    continue
            elif name not in ("printf", "puts"):
                continue
            for a in args:
                for c, s in self.texts(a):
                    if success_text(s):
                        out.append((band_([e.pc, c]), e))
        return out

    def stdout(self, n):
        while n is not None:
            if n.kind == "DeclRefExpr":
                return (n.ref or {}).get("name") in ("stdout", "cout")
            nxt = [c for c in n.inner if c is not None]
            if n.kind == "CXXOperatorCallExpr":
                nxt = nxt[1:]
            n = nxt[0] if nxt else None
        return False

    def texts(self, v):
        s = getattr(v, "s", None)
        if isinstance(s, str):
            return [(T, s)]
        if isinstance(v, Opq):
            return self.optexts(v.key)
        return []

    def optexts(self, k):
        if isinstance(k, tuple) and k:
            if k[0] == "str" and len(k) == 2 and isinstance(k[1], str):
                return [(T, k[1])]
            if k[0] == "ite" and len(k) == 4:
                return [(band_([k[1], c]), s) for c, s in self.optexts(k[2])] + [(band_([t_.bnot(k[1]), c]), s) for c, s in self.optexts(k[3])]
            out = []
            for x in k:
                out += self.optexts(x)
            return out
        return []

    def announce(self):
        what = "success is announced exactly when every verification accepted"
        if not self.verifies:
            self.ob("announce", None, what, "no call of verify found")
            return
        if any(not isinstance(e.res, BV) for e in self.verifies):
            self.ob("announce", None, what, "verify does not return a truth value")
            return
        want = T
        for e in self.verifies:
            b = bor_([t_.bnot(e.pc), e.res.b])
            for k in reversed(e.loops):
                b = ("all", k, b) if b != T else T
            want = band_([want, b])
        S = []
        for c, e in self.sinks(self.ev):
            for k in reversed(e.loops):
                c = ("any", k, c) if c not in (T, F) else c
            S.append((c, e))
        if not S:
            self.ob("announce", None, what, "no success text found", self.verifies[0].node)
            return
        got = bor_([c for c, _ in S])
        node = S[0][1].node
        if got == want:
            self.ob("announce", True, what, "", node)
            return
        cx = None
        try:
            cx = self.compare(got, want)
        except Unk as u:
            self.ob("announce", None, what, "condition not followed: " + str(u), node)
            return
        self.ob("announce", False if cx else None, what, "announced although %s" % cx if cx else "forms differ but no difference found", node)

    # ---- truth tables over the verifiers' answers for small numbers of copies
    def compare(self, got, want):
        keys = {}
        for e in self.verifies:
            keys[e.res.b[2]] = e
        for n in (1, 2, 3, 4):
            slots = []
            for key, e in keys.items():
                slots += [(key, j) for j in (range(n) if e.loops else [None])]
            for bits in itertools.product((True, False), repeat=len(slots)):
                val = dict(zip(slots, bits))
                g = w = None
                for t in range(4):
                    env = {"n": n, "val": val, "bv": {}, "free": {}, "rnd": random.Random(t)}
                    g, w = self.bval(got, env), self.bval(want, env)
                    if g != w or not env["free"]:
                        break
                if g != w:
                    acc = [str(int(b)) for b in bits]
                    return "answers of the verifications were (%s)" % ", ".join(acc) if g else "silent for (%s)" % ", ".join(acc)
            if all(not e.loops for e in keys.values()):
                break
        return None

    def bval(self, b, env):
        k = b[0]
        if k in ("T", "F"):
            return k == "T"
        if k == "not":
            return not self.bval(b[1], env)
        if k == "and":
            return all(self.bval(x, env) for x in b[1])
        if k == "or":
            return any(self.bval(x, env) for x in b[1])
        if k in ("all", "any"):
            rec = self.I.loops.get(b[1])
            if rec is None or rec.lo is None or rec.hi is None or not rec.affine:
                raise Unk("loop bounds")
            lo, hi = self.ival(rec.lo, env), self.ival(rec.hi, env)
            bv = rec.bv if not isinstance(rec.bv, P) else rec.bv.single_atom()
            rs = []
            for j in range(lo, hi, rec.step if isinstance(rec.step, int) else 1):
                e2 = dict(env, bv=dict(env["bv"]))
                e2["bv"][bv] = j
                rs.append(self.bval(b[2], e2))
            return all(rs) if k == "all" else any(rs)
        if k == "eq":
            return self.ival(b[1], env) == 0
        if k == "lt":
            return self.ival(b[1], env) < 0
        if k == "op" and b[1] in ("phi", "out"):
            v = self.carried(b[1], b[2], b[3], env)
            if not isinstance(v, bool):
                raise Unk("loop variable")
            return v
        if k == "op" and b[1] == "msg":
            idx = b[4] if len(b) > 4 else ()
            j = self.ival(idx[0], env) if idx else None
            v = env["val"].get((b[2], j))
            if v is None:
                raise Unk("answer of a verification that does not exist")
            return v
        raise Unk(t_.bshow(b)[:80])

    def carried(self, kind, key, shp, env):
        """value of a variable carried round a loop, at the start of the current iteration or after the last one"""
        rec = self.I.loops.get(key)
        if rec is None or not rec.affine or rec.step != 1 or shp not in rec.phis:
            raise Unk("loop not followed")
        bv = rec.bv if not isinstance(rec.bv, P) else rec.bv.single_atom()
        lo = self.ival(rec.lo, env)
        hi = self.ival(rec.hi, env) if kind == "out" else env["bv"].get(bv)
        if hi is None:
            raise Unk("loop index")
        init, nxt = rec.phis[shp]

        def val(x, e):
            if isinstance(x, BV):
                return self.bval(x.b, e)
            if isinstance(x, P):
                return self.ival(x, e)
            raise Unk("loop variable")
        if hi <= lo:
            return val(init, env)
        if kind == "out":
            for j in range(lo, hi) if rec.breaks else ():
                e2 = dict(env, bv=dict(env["bv"]))
                e2["bv"][bv] = j
                for c, bst, _ in rec.breaks:
                    if self.bval(c, e2):
                        return val(self.I.load(bst, LV(shp, (), "bool" if isinstance(init, BV) else "int")), e2)
        e2 = dict(env, bv=dict(env["bv"]))
        e2["bv"][bv] = hi - 1
        return val(nxt, e2)

    def ival(self, p, env):
        if isinstance(p, int):
            return p
        s = 0
        for m, c in p.t.items():
            v = c
            for a, e in m:
                v = v * self.aval(a, env) ** e
            s += v
        return s

    def aval(self, a, env):
        if a in env["bv"]:
            return env["bv"][a]
        k = KEYS[a]
        if k[0] == "ind":
            return int(self.bval(k[1], env))
        if k[0] == "sum":
            return sum(self.ival(t_.open_b(a, t_.lift(j)), env) for j in range(self.ival(k[1], env), self.ival(k[2], env)))
        if k[0] == "shr":
            return self.ival(k[1], env) >> self.ival(k[2], env)
        if k[0] == "low":
            return self.ival(k[1], env) % (1 << self.ival(k[2], env))
        if k[0] == "p2":
            return 1 << self.ival(k[1], env)
        if k[0] == "bit":
            return self.ival(k[1], env) >> self.ival(k[2], env) & 1
        if k[0] in ("phi", "out"):
            return self.carried(k[0], k[1], k[2], env)
        if k[0] == "sel" and isinstance(k[1], tuple) and k[1][:2] == ("in", "ADV"):
            # whatever a verifier or prover left in its members
            if a not in env["free"]:
                env["free"][a] = env["rnd"].choice([0, 1, 2, 1000])
            return env["free"][a]
        if self.from_arg(a) == 2:
            return env["n"]
        raise Unk(t_.show_atom(a)[:80])

    # ---- where integers come from
    def from_arg(self, a):
        """index of the command line argument an unknown integer was parsed from"""
        k = KEYS[a]
        if k[0] != "unk":
            return None
        key = k[1]
        for e in self.ev:
            if e.kind == "call" and e.name in ("sscanf", "atoi", "strtol", "std::stoi", "stoi", "strtoul"):
                mine = False
                if isinstance(e.res, P) and e.res.t:
                    d = e.res.single_atom() if hasattr(e.res, "single_atom") else None
                    mine = d == a and e.name != "sscanf"
                    if not mine and isinstance(key, tuple) and key[:2] == ("out", e.name) and d is not None and KEYS[d][0] == "unk" and KEYS[d][1][:1] == ("ext",):
                        mine = KEYS[d][1][2:] == key[3:] and key[2] == 2
                if mine:
                    p = e.args[0]
                    if isinstance(p, Ptr) and p.shape[:2] == ("arg", "argv") and len(p.idx) == 1:
                        i = p.idx[0]
                        return i.const() if isinstance(i, P) and i.is_const() else i if isinstance(i, int) else None
        return None

    def coverage(self):
        what = "as many instances are verified as the program was asked for"
        if self.which == "linear" or not self.verifies:
            return
        if self.which == "bclogc":
            for e in self.verifies:
                if len(e.loops) != 1 or e.pc != T:
                    self.ob("copies", None, what, "call of verify is not in one plain loop", e.node)
                    continue
                rec = self.I.loops.get(e.loops[0])
                if rec is None or not rec.affine or rec.lo is None or rec.hi is None or rec.breaks:
                    self.ob("copies", None, what, "loop not followed", e.node)
                    continue
                n = rec.hi - rec.lo
                self.count("copies", what, n, 2, e.node, rec.step)
        else:
            for name, i, j in (("set_blocks", 0, 2), ("set_blocks", 1, 3), ("read_circuit", 1, 2)):
                for e in self.ev:
                    if e.kind == "pcall" and e.name == name and len(e.args) > i and isinstance(e.args[i], P):
                        self.count("copies-%s-%d" % (name, i), what if j == 2 else "the logarithm of the number of copies is the one asked for", e.args[i], j, e.node, 1)

    def count(self, id, what, n, j, node, step):
        ats = [a for m in n.t for a, _ in m]
        if step != 1:
            self.ob(id, None, what, "step", node)
            return
        if len(ats) == 1 and self.from_arg(ats[0]) is not None:
            exact = n == t_.PA(ats[0])
            right = self.from_arg(ats[0]) == j
            self.ob(id, exact and right, what, "" if exact and right else "%s instead of the number in argument %d" % (t_.show(n), j), node)
        elif not ats:
            self.ob(id, False, what, "constant " + t_.show(n), node)
        else:
            self.ob(id, None, what, "not traced to the command line: " + t_.show(n)[:100], node)

    # ------------------------------------------------------------ one run
    @staticmethod
    def place(x):
        """(shape, indices) of an object"""
        if isinstance(x, LV):
            return x.shape, tuple(x.idx)
        if isinstance(x, Ptr):
            sh = x.shape
            if x.off == t_.ZERO and (not sh or sh[0] != ("heap",) and sh[0] in ("G", "L", "arg", "this")):
                return sh, tuple(x.idx)
            return tuple(sh) + ("[]",), tuple(x.idx) + (x.off,)
        return None

    @staticmethod
    def known(pl):
        return pl is not None and pl[0] and (pl[0][0] == "G" or isinstance(pl[0][0], tuple) and pl[0][0][:1] == ("heap",) or pl[0][0] == "L")

    def differ(self, a, b):
        """True: certainly two objects; False: the same; None: unknown"""
        pa, pb = self.place(a), self.place(b)
        if pa is None or pb is None:
            return None
        if pa == pb:
            return False
        if not self.known(pa) or not self.known(pb):
            return None
        if pa[0] != pb[0]:
            return True
        for x, y in zip(pa[1], pb[1]):
            if isinstance(x, P) and isinstance(y, P):
                d = x - y
                if d.is_const() and d.const() != 0:
                    return True
                ok = all(KEYS[q][0] == "bv" or self.from_arg(q) is not None for m in d.t for q, _ in m)
                if ok and not d.is_zero():
                    return True
        return None

    def before(self, name, cls, e, **kw):
        return [x for x in self.ev if x.kind == "pcall" and x.name.startswith(name) and x.extra["class"] == cls and x.seq < e.seq]

    def wiring(self):
        inits = [e for e in self.ev if e.kind == "call" and e.name == "prime_field::init"]
        for n, e in enumerate(self.verifies):
            sfx = "" if len(self.verifies) == 1 else "-%d" % n
            before = [i for i in inits if i.seq < e.seq and not i.loops]
            self.ob("init" + sfx, True if any(i.pc == T for i in before) else (None if before or not inits else False),
                    "the field is set up before the verification", "", e.node)
            o = e.extra["object"]
            gp = [x for x in self.before("get_prover", "verifier", e)]
            rd = [x for x in self.before("read_circuit", "verifier", e)]
            gc = [x for x in self.before("get_circuit", "prover", e)]
            self.same("prover" + sfx, "the verifier that decides was given the prover that got its circuit", e,
                      [(self.differ(x.extra["object"], o), [(x.args[0], y.extra["object"]) for y in gc]) for x in gp])
            self.same("file" + sfx, "the verifier that decides has read the circuit", e, [(self.differ(x.extra["object"], o), []) for x in rd])
            what = "the prover gets the circuit of the verifier that decides, after it was read"
            if not gc:
                self.ob("circuit" + sfx, None, what, "no call found", e.node)
            else:
                g = gc[-1]
                src = g.extra["from"][0] if g.extra["from"] else None
                d = self.differ(src, o) if src is not None else None
                late = not any(x.seq < g.seq for x in rd) and bool(rd)
                self.ob("circuit" + sfx, False if d or late else True if d is False else None, what, "handed over before it was read" if late else "", g.node)

    def same(self, id, what, e, found):
        if not found:
            self.ob(id, None, what, "no call found", e.node)
            return
        st = None
        for d, pairs in found:
            r = d
            if d is False and pairs:
                rs = [self.differ(a, b) for a, b in pairs]
                r = False if any(x is False for x in rs) else True if all(x is True for x in rs) else None
            if r is False:
                st = True
            elif r is True and st is None:
                st = False
            elif r is None and st is False:
                st = None
        if st is None and all(d is True for d, _ in found):
            st = False
        self.ob(id, st, what, "" if st else "another object is used", e.node)

    # ------------------------------------------------------------ inside the classes
    def inner(self):
        for q, what in (("prover::get_circuit", "the prover keeps the circuit it is given"), ("verifier::get_prover", "the verifier keeps the prover it is given")):
            f = self.prog.func(q)
            if f is None or not f.params:
                continue
            I = Interp(self.prog, inst=True)
            fr, st = I.run(f)
            flds = dict(I.rec_fields(f.cls) or [])
            p = f.params[0]
            pn = p.name or "arg0"
            if q.startswith("prover"):
                ty = (p.type or "").replace("const", "").replace("&", "").strip()
                mine = [n for n, t in flds.items() if t == ty]
                sub = [n for n, _ in I.rec_fields(ty) or []]
                bases = [(("this", m, s), ("arg", pn, s), t) for m in mine for s, t in (I.rec_fields(ty) or [])]
            else:
                mine = [n for n, t in flds.items() if t.replace(" ", "") == (p.type or "").replace(" ", "")]
                bases = [(("this", m), ("arg", pn), p.type) for m in mine]
            if not bases:
                self.ob("keep-" + q.split("::")[1], None, what, "members not recognised", None, f)
                continue
            from interp import State
            s0 = State()
            ok, det = True, ""
            for e in fr.exits:
                for a, b, t in bases:
                    x, y = I.load(e.state, LV(a, (), t)), I.load(s0, LV(b, (), t))
                    if x != y:
                        x0 = I.load(s0, LV(a, (), t))
                        ok = False if x == x0 and ok is not None else None
                        det = "%s is not taken over" % "/".join(a[1:])
            self.ob("keep-" + q.split("::")[1], ok, what, det, None, f)
        f = self.prog.func("verifier::verify")
        I = Interp(self.prog, adversary=["prover"], inst=False)
        fr, st = I.run(f)
        what = "the verifier itself announces success on the standard output only when it accepts"
        bad = und = None
        self.I = I
        for c, e in self.sinks(I.events):
            rej = [x for x in fr.exits if not (isinstance(x.val, BV) and x.val.b == T)]
            both = [x for x in rej if band_([c, x.pc] if not e.loops else [x.pc]) != F]
            if not both:
                continue
            if any(isinstance(x.val, BV) and x.val.b == F for x in both):
                bad = e
            else:
                und = e
        self.ob("silent", False if bad else None if und else True, what, "a run that prints the text can still be rejected" if bad else "", (bad or und).node if bad or und else None, f)
