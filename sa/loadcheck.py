"""M01: what the circuit loaders leave in memory, gate by gate.

The file is an uninterpreted stream of numbers in the documented layout
    depth, then per layer: width, then per gate: type, number, left wire, right wire.
`fscanf` yields the next number of that layout; the loader is abstractly interpreted once and the
tables it leaves behind are compared, for a generic layer and gate, with the numbers of the file.
"""
import re
import term as t_
from term import A, P, PA, T, F, ZERO, ONE, KEYS, RANGES, atom, beq, ind, ite, subst, p2, lift, bitlen, deps_of, is_pos
from interp import Interp, LV, Ptr, St, BV, bsub, vsubst, strval, Str, NULL
from gkr import Ob, opaque_atoms
from frontend import AnalysisError

ENTRY = {"linear": "verifier::read_circuit", "para": "verifier::read_circuit", "bclogc": "verifier::read_circuit_from_FILE", "bc_clogc": "verifier::read_circuit"}
FIELDS = ("ty", "g", "u", "v")
CONV = re.compile(r"%(\*?)(\d*)(hh|h|ll|l|j|z|t|L)?([a-zA-Z])")


def sym(name, lo, hi):
    z = A("bvtmp", ("spec", name))
    RANGES[z.single_atom()] = (lift(lo), lift(hi))
    return z


def fdepth():
    return A("dm2") + 2                # a circuit has an input layer and at least one more


def width(i):
    return A("nm1", (i,)) + 1          # a layer has at least one gate


def rec(f, i, j):
    return A("rec", f, (i, j))


class LoadCheck:
    def __init__(self, prog, which):
        self.prog, self.which = prog, which
        self.fn = prog.func(ENTRY[which])
        if self.fn is None:
            raise AnalysisError("no loader")
        self.obs = []
        self.off = {1: (1, ZERO), 2: (1, ZERO)}       # level: direction, value of the loop variable in the first iteration
        self.problem = None
        for attempt in range(3):
            self.order = {}
            self.keys = {}
            self.problem = None
            self.I = Interp(prog, inst=True, hooks={"scan": self.scan, "push": self.push} if which == "para" else {"scan": self.scan})
            self.fr, self.st = self.I.run(self.fn)
            if not self.rebase():
                break
        self.units = {"entry": self.fn.qname, "reads": {k: len(v) for k, v in self.order.items()},
                      "loops_summarised": len(self.I.loops), "functions": sorted(self.I.nfun)}

    def rebase(self):
        """count layers and gates of the file from the first iteration of the loops that read them"""
        ch = False
        for lv, ks in self.keys.items():
            if len(ks) != 1:
                continue
            r = self.I.loops.get(next(iter(ks)))
            if r is None or not r.affine:
                continue
            o = None
            if r.step == 1 and r.lo.is_const():
                o = (1, r.lo)
            elif r.step == -1 and not any(KEYS[a][0] == "phi" for a in r.hi.deps()) and r.bv not in r.hi.deps():
                o = (-1, r.hi - 1)
            if o is not None and o != self.off[lv]:
                self.off[lv] = o
                ch = True
        return ch

    def scan(self, I, name, vals, outs, st, n, ev):
        k = 0 if name == "scanf" else 1
        s = strval(vals[k].s) if len(vals) > k and isinstance(vals[k], Str) else None
        if name == "sscanf":
            return None
        if s is None:
            self.problem = ("format of a read is not a constant", n)
            return None
        convs = CONV.findall(s)
        if CONV.sub("", s).strip():
            self.problem = ("a read expects text between the numbers", n)
        dep = len(I.loopstack)
        a = k + 1
        for ci, (star, wd, ln, cv) in enumerate(convs):
            if cv not in "di" or wd:
                self.problem = ("conversion %%%s" % cv, n)
            lv = None
            if not star:
                lv = outs[a] if a < len(outs) else None
                a += 1
            o = self.order.setdefault(dep, [])
            key = (I.frame.ctx, n.nid, ci)
            if key not in o:
                o.append(key)
            for q, L in enumerate(I.loopstack):
                self.keys.setdefault(q + 1, set()).add(L)
            v = self.token(I, dep, o.index(key), n)
            if star:
                continue
            if lv is None:
                if a - 1 < len(vals) and isinstance(vals[a - 1], Ptr):
                    p = vals[a - 1]
                    lv = LV(p.shape, p.idx, "int")
                    if not p.off.is_zero():
                        self.problem = ("a number is read into an array", n)
                        continue
                else:
                    self.problem = ("target of a read", n)
                    continue
            I.store(st, lv, v, n)
        return lift(len(convs))

    def push(self, I, lv, v, st, n):
        def flat(x):
            return flat(x.d.get("first")) + flat(x.d.get("second")) if isinstance(x, St) and set(x.d) == {"first", "second"} else [x]
        I.event("push", lv.shape, list(lv.idx) + flat(v), st, n, None, len(lv.idx))

    def lists(self, L1, L2):
        """the gates listed by left and by right wire"""
        i, j = self.nth(L1), self.nth(L2)
        for tab, own, other, nm in (("u_gates", "u", "v", "left"), ("v_gates", "v", "u", "right")):
            evs = [e for e in self.I.events if e.kind == "push" and e.name[-2:] == (tab, "[]")]
            what = "every gate is listed exactly once under its %s wire" % nm
            inn = [e for e in evs if e.loops == [L1.key, L2.key]]
            plain = len(inn) == 1 and inn[0].pc == T
            if not plain:
                mention = sum(n.kind == "MemberExpr" and (n.name or "").replace("->", "") == tab for n in self.fn.body.walk())
                ok, det = self.listed_once(inn, L1, L2, own, other) if inn else (False if mention <= len(evs) else None, "no place lists the gates that are read")
                self.ob("lists-" + tab, ok, what, det, inn[0].line if inn else None)
            if not plain:
                for e in evs:
                    if e not in inn:
                        self.extra_entry(tab, e)
                continue
            e = inn[0]
            ix, fl = e.args[:e.extra], e.args[e.extra:]
            if len(ix) != 2 or len(fl) != 3:
                self.ob("lists-" + tab, None, what, "the entry is not (type, (number, wire))", e.line)
                continue
            for f, x, w in (("layer", ix[0], i), ("wire", ix[1], rec(own, i, j)), ("type", fl[0], rec("ty", i, j)), ("number", fl[1], j), ("other", fl[2], rec(other, i, j))):
                self.same("lists-%s-%s" % (tab, f), x, w, what + " (%s)" % f, e.line)
            for e in evs:
                if e is not inn[0]:
                    self.extra_entry(tab, e)

    def extra_entry(self, tab, e):
        if len(e.args) == 5:
            ok = isinstance(e.args[2], P) and e.args[2].is_const() and e.args[2].const() == 2
            self.ob("lists-%s-extra-%s" % (tab, e.line), True if ok else False if isinstance(e.args[2], P) and e.args[2].is_const() else None,
                    "what is listed besides the gates of the file contributes nothing", "type %s" % (e.args[2],), e.line)

    def listed_once(self, inn, L1, L2, own, other):
        """the entries made for one gate of the file, over its possible records"""
        if any(len(e.args) != 5 or e.extra != 2 for e in inn):
            return None, "the entry is not (type, (number, wire))"
        i, j = self.nth(L1), self.nth(L2)
        names = {f: rec(f, i, j).single_atom() for f in ("ty", "u", "v")}
        for lay in (1, 2):
            for g in range(3):
                for ty in range(4):
                    for u in range(3):
                        for v in range(3):
                            val = {"ty": ty, "u": u, "v": v}
                            mp = {names[f]: lift(x) for f, x in val.items()}
                            for L, n in ((L1, lay), (L2, g)):
                                mp[L.bv] = (L.lo + n) if L.step == 1 else L.hi - 1 - n
                            got = []
                            for e in inn:
                                c = bsub(e.pc, mp)
                                if c not in (T, t_.F):
                                    return None, "listed under a condition"
                                if c == T:
                                    got.append([subst(x, mp) if isinstance(x, P) else x for x in e.args])
                            want = [lift(x) for x in (lay, val[own], ty, g, val[other])]
                            if ty in (0, 1):
                                if got != [want]:
                                    return False, "gate %d of layer %d, of type %d on wires %d and %d, is listed as %s" % (g, lay, ty, u, v, [[t_.show(x) if isinstance(x, P) else str(x) for x in y] for y in got])
                            elif any(not isinstance(x[2], P) or not x[2].is_const() or x[2].const() in (0, 1) for x in got):
                                return False, "a gate of type %d is listed with another type" % ty
        return True, ""

    def count(self, lv, x):
        d, o = self.off[lv]
        return x - o if d == 1 else o - x

    @staticmethod
    def nth(L):
        """how many iterations came before"""
        return PA(L.bv) - L.lo if L.step == 1 else L.hi - 1 - PA(L.bv)

    def token(self, I, dep, pos, n):
        ix = [PA(atom("bv", L)) for L in I.loopstack]
        if dep == 0 and pos == 0:
            return fdepth()
        if dep == 1 and pos == 0:
            return width(self.count(1, ix[0]))
        if dep == 2 and pos < 4:
            i, j = self.count(1, ix[0]), self.count(2, ix[1])
            return j if FIELDS[pos] == "g" else rec(FIELDS[pos], i, j)
        self.problem = ("more reads than the layout has numbers", n)
        return A("top", ("read", dep, pos))

    # ------------------------------------------------------------------
    def ob(self, id, ok, what, detail="", line=None):
        st = {True: "ok", False: "violated", None: "undecided"}[ok]
        self.obs.append(Ob(self.which + ":load-" + id, ("M01",), st, what, self.fn.file, line or self.fn.line, detail))

    def same(self, id, got, want, what, line=None):
        if not isinstance(got, P):
            self.ob(id, None, what, "found %r" % (got,), line)
            return
        d = got - want
        if d.is_zero():
            self.ob(id, True, what, "", line)
            return
        opq = [a for a in opaque_atoms(got)]
        self.ob(id, None if opq else False, what, "found %s, the file says %s" % (t_.show(got)[:250], t_.show(want)[:150]), line)

    def at(self, ptr, idx, field, ty, mp):
        """ptr[idx].field under the case mp"""
        if not isinstance(ptr, Ptr) or ptr == NULL:
            return None
        lv = LV(ptr.shape + ("[]",) + ((field,) if field else ()), tuple(ptr.idx) + (ptr.off + idx,), ty)
        return vsubst(self.I.load(self.st, lv), mp)

    def run(self):
        I, st, w = self.I, self.st, self.which
        self.handed_over()
        if w == "bc_clogc":
            self.blocks()
        if self.problem:
            self.ob("layout", None, "the loader reads the documented layout", "%s at line %s" % (self.problem[0], self.problem[1].line), self.problem[1].line)
            return self.obs
        reads = {k: len(v) for k, v in self.order.items()}
        if reads != {0: 1, 1: 1, 2: 4} or any(len(k) != 1 for k in self.keys.values()):
            self.ob("layout", None, "the loader reads one depth, one width per layer, four numbers per gate", str(reads))
            return self.obs
        L1, L2 = (I.loops.get(next(iter(self.keys[q]))) for q in (1, 2))
        if not (L1 and L2 and L1.affine and L2.affine and L1.step in (1, -1) and L2.step in (1, -1)):
            self.ob("layout", None, "the layers and gates of the file are counted up")
            return self.obs
        self.ob("layout", True, "the loader reads one depth, one width per layer, four numbers per gate")
        self.reads_unconditional(L1, L2)
        self.same("layers", L1.hi - L1.lo, fdepth(), "as many layers are read as the file has", getattr(L1, "line", None))
        bv1 = PA(L1.bv)
        self.same("gates-read", L2.hi - L2.lo, width(self.nth(L1)), "as many gates are read as the layer has", getattr(L2, "line", None))
        if self.which == "para":
            self.lists(L1, L2)
        self.tables()
        return self.obs

    def handed_over(self):
        """prover::get_circuit keeps the circuit it is given"""
        fn = self.prog.func("prover::get_circuit")
        if fn is None or not fn.params:
            return
        I = Interp(self.prog)
        fr, st = I.run(fn)
        pn = fn.params[0].name
        fs = ("blocks", "total_blocks", "total_blocks_binary_length") if self.which == "bc_clogc" else ("circuit", "total_depth")
        for f in fs:
            ty = "int" if f.startswith("total") else ("layered_circuit *" if f == "blocks" else "layer *")
            got = I.load(st, LV(("this", "C", f), (), ty))
            want = None
            for base in (("arg", pn), ("arg", pn, "*")):
                x = I.load(st, LV(base + (f,), (), ty))
                if got == x:
                    want = x
            what = "the prover works on the circuit the verifier loaded (%s)" % f
            if want is not None:
                self.ob("prover-" + f, True, what)
            else:
                own = I.load(type(st)(), LV(("this", "C", f), (), ty))
                self.obs.append(Ob(self.which + ":load-prover-" + f, ("M01",), "violated" if got == own or isinstance(got, P) and got.is_const() else "undecided", what, fn.file, fn.line, "found %r" % (got,)))

    def blocks(self):
        fn = self.prog.func("verifier::set_blocks")
        if fn is None or len(fn.params) != 2:
            self.ob("blocks", None, "the number of copies is stored")
            return
        I = Interp(self.prog)
        fr, st = I.run(fn)
        a = [I.load(st, LV(("arg", p.name), (), "int")) for p in fn.params]
        self.same("blocks-count", I.load(st, LV(("this", "C", "total_blocks"), (), "int")), a[0], "the number of copies is the one asked for", fn.line)
        self.same("blocks-bits", I.load(st, LV(("this", "C", "total_blocks_binary_length"), (), "int")), a[1], "the number of copy bits is the one asked for", fn.line)

    def reads_unconditional(self, L1, L2):
        bad = []
        for e in I_events(self.I, "fscanf"):
            if e.pc != T and not self.loopcond(e.pc):
                bad.append(e)
        self.ob("reads", True if not bad else None, "every number is read whatever was read before",
                "; ".join("line %s under %r" % (e.line, e.pc) for e in bad)[:300], bad[0].line if bad else None)

    def loopcond(self, pc):
        """only range conditions of the loops"""
        return False

    # ------------------------------------------------------------------
    def copies(self):
        if self.which != "bc_clogc":
            return [("", None)]
        nc = self.I.load(self.st, LV(("arg", self.fn.params[-1].name), (), "int")) if self.fn.params else None
        return [("", sym("copy", 0, nc if isinstance(nc, P) else A("ncopy")))]

    def root(self, blk):
        if blk is None:
            return ("this", "C"), ()
        p = self.I.load(self.st, LV(("this", "C", "blocks"), (), "layered_circuit *"))
        if not isinstance(p, Ptr):
            return None, None
        return p.shape + ("[]",), tuple(p.idx) + (p.off + blk,)

    def tables(self):
        lin = self.which == "linear"
        for tag, blk in self.copies():
            sh, ix = self.root(blk)
            if sh is None:
                self.ob("copies", None, "the copies are found")
                continue
            d = self.I.load(self.st, LV(sh + ("total_depth",), ix, "int"))
            self.same("depth" + tag, d, fdepth() + (1 if lin else 0), "the depth of the circuit is that of the file" + (" plus the identity layer" if lin else ""))
            c = self.I.load(self.st, LV(sh + ("circuit",), ix, "layer *"))
            if not isinstance(c, Ptr):
                self.ob("table" + tag, None, "the layers are found", repr(c)[:200])
                continue
            if lin:
                rows = [("input", ZERO, ZERO, False), ("identity", ONE, ZERO, True)]
                i = sym("row", 2, fdepth() + 1)
                rows.append(("inner", i, i - 1, False))
            else:
                i = sym("row", 1, fdepth())
                rows = [("input", ZERO, ZERO, False), ("inner", i, i, False)]
            for nm, k, fi, ident in rows:
                self.row(nm + tag, c, k, fi, ident)

    def row(self, nm, c, k, fi, ident):
        lin = self.which == "linear"
        n1 = A("nm1", (fi,)).single_atom()
        g = sym("gate", 0, A("nm2", (fi,)) + 2)
        cases = [("wide", {n1: A("nm2", (fi,)) + 1}, g), ("one", {n1: ZERO}, ZERO)]
        for cn, mp, g in cases:
            what = {"wide": "layer of two or more gates", "one": "layer of one gate"}[cn]
            bl = self.at(c, k, "bit_length", "int", mp)
            want = bitlen(subst(width(fi) - 1, mp)) if cn == "wide" else ONE
            self.same("%s-%s-bits" % (nm, cn), bl, want, "%s (%s): its width in bits covers exactly its gates" % (nm, what))
            gp = self.at(c, k, "gates", "gate *", mp)
            if not isinstance(gp, Ptr):
                self.ob("%s-%s-gates" % (nm, cn), None, "%s (%s): its gates are found" % (nm, what), repr(gp)[:200])
                continue
            ty, u, v = (rec(f, fi, g) for f in ("ty", "u", "v"))
            got = [self.at(gp, g, f, "int", mp) for f in ("ty", "u", "v")]
            if ident:
                for f, x, wv in zip(("ty", "u", "v"), got, (lift(4), g, ZERO)):
                    self.same("%s-%s-%s" % (nm, cn, f), x, wv, "%s (%s): gate g relays gate g below (%s)" % (nm, what, f))
            else:
                types = (2, 3) if k.is_zero() else ((0, 1, 2, 4, 5, 6, 7, 8, 9, 10) if lin else (0, 1, 2, 3))
                for q in types:
                    m2 = {ty.single_atom(): lift(q)}
                    m2.update(mp)
                    for f, x, wv in zip(("ty", "u", "v"), got, (ty, u, v)):
                        if f == "v" and q == 6 and lin:
                            wv = ZERO
                        self.same("%s-%s-ty%d-%s" % (nm, cn, q, f), vsubst(x, m2) if x is not None else None, vsubst(wv, m2),
                                  "%s (%s): a gate of type %d has the %s of the file" % (nm, what, q, {"ty": "type", "u": "left wire", "v": "right wire"}[f]))
            if cn == "one":
                pad = (4, 1, 0) if ident else (2, 0, 0)
                for f, wv in zip(("ty", "u", "v"), pad):
                    x = self.at(gp, ONE, f, "int", mp)
                    self.same("%s-pad-%s" % (nm, f), x, lift(wv), "%s: a one-gate layer is completed by a gate that contributes nothing (%s)" % (nm, f))


def I_events(I, name):
    return [e for e in I.events if e.kind == "call" and e.name == name]
