"""M02: every indexed access of a proof run lies inside its allocation, and nothing is used after it was released.

The abstract interpretations behind the other analyses (loader, evaluator, verifier, prover rounds) are repeated with
every indexed access recorded as (table, index, conditions) in terms of layer widths, loop variables and wires.  The size
of a table is the one its allocation gives it, in the same terms; the tables of the verifier and the prover are allocated
by the loader in terms of the widest layer M.  An access is safe when 0 <= index < size follows for all widths from
the loop bounds (monotone bounds of polynomials in powers of two); it is reported when instantiating the recorded
terms with small layer widths shows an index outside.
"""
import itertools, re, time
import term as t_
from term import bnot, band_, A, P, PA, T, F, ZERO, ONE, KEYS, RANGES, atom, subst, p2, lift, deps_of, is_nonneg, is_pos, range_of
import interp as ip
from interp import Interp, LV, Ptr, St, vsubst, NULL, is_heap_shape, Content, Layer
from gkr import Ob, Circuit
from frontend import AnalysisError
import gkr, evalcheck, provercheck, loadcheck

M = A("widest")


class Unknown(Exception):
    pass


class MemCheck:
    def __init__(self, prog, which):
        self.prog, self.which = prog, which
        self.cir = Circuit(which)
        self.obs = []
        self.units = {"accesses": 0, "tables": 0, "releases": 0}
        self.field = {"verifier": {}, "prover": {}}
        self.half = {}
        self.row_shape = None
        self.spent = 0

    def ob(self, id, ok, what, detail="", file=None, line=None):
        st = {True: "ok", False: "violated", None: "undecided"}[ok]
        self.obs.append(Ob("%s:mem-%s" % (self.which, id), ("M02",), st, what, file, line, detail))

    # ------------------------------------------------------------ recording
    def record(self, f):
        Interp.access_log = log = []
        try:
            r = f()
        finally:
            Interp.access_log = None
        return r, [tuple([I] + e) for I in log for e in I.accs]

    def run(self):
        w = self.which
        ld, acc = self.record(lambda: self.prepared(loadcheck.LoadCheck(self.prog, w)))
        self.loader(ld, acc)
        v, acc = self.record(lambda: gkr.VerifyCheck(self.prog, w))
        self.check("verify", "verifier", acc)
        ev, acc = self.record(lambda: evalcheck.EvalCheck(self.prog, w))
        cv = ev.I.load(ev.st, LV(("this", "circuit_value"), (), "void *"))
        if w == "bc_clogc" and isinstance(cv, Ptr):
            r = ev.I.load(ev.st, LV(cv.shape + ("[]",), tuple(cv.idx) + (loadcheck.sym("copy", 0, p2(self.cir.nb)),), "void *"))
            self.row_shape = r.shape + ("[]",) if isinstance(r, Ptr) else None
        self.check("evaluate", "prover", acc, ev.st)
        self.rows_evaluated(ev)
        pc = {"linear": provercheck.LinearProver, "para": ParaDrive}.get(w, provercheck.TradProver)(self.prog, w)
        _, acc = self.record(pc.run)
        self.check("prove", "prover", acc)
        fn = self.prog.func("prover::delete_self")
        if fn is not None:
            def f():
                I = Interp(self.prog)
                return I, I.run(fn)
            _, acc = self.record(f)
            self.check("delete", "prover", acc)
        return self.obs

    def prepared(self, ld):
        """the prover's tables, where the loader leaves making them to the proof itself"""
        fn = self.prog.func("prover::init_array")
        if self.which == "para" and fn is not None and len(fn.params) == 1 and not ld.problem:
            x = ld.I.load(ld.st, LV(("this", "max_bit_length"), (), "int"))
            if isinstance(x, P):
                _, st = ld.I.run(fn, [x], LV(("this", "p", "*"), (), "prover"), dict(ld.st.mem))
                self.made = st
        return ld

    made = None

    # ------------------------------------------------------------ loader: sizes of the shared tables
    def news(self, I):
        c = getattr(I, "_news", None)
        if c is None:
            c = I._news = {}
            for e in I.events:
                if e.kind == "new":
                    c[e.extra] = e
        return c

    def loader(self, ld, acc):
        I, st, fn = ld.I, ld.st, ld.fn
        self.ld = ld
        if ld.problem:
            self.ob("load", None, "the loader is followed", ld.problem[0])
            return
        self.mx = I.maxof
        for cls, pre in (("verifier", ("this",)), ("prover", ("this", "p", "*"))):
            for f, ty in I.rec_fields(cls) or []:
                m = re.match(r".*\[(\d+)\]$", ip.strip(ty) or "")
                if m and "*" not in ty:
                    self.field[cls][f] = (lift(int(m.group(1))), None)
            for f, ty in (self.prog.records.get(cls) or {}).items() if isinstance(self.prog.records.get(cls), dict) else I.rec_fields(cls) or []:
                if not ip.is_ptr_t(ip.strip(ty)):
                    continue
                p = I.load(self.made if self.made is not None and cls == "prover" else st, LV(pre + (f,), (), ip.strip(ty)))
                if isinstance(p, Ptr) and is_heap_shape(p.shape) and len(p.shape) == 1:
                    e = self.news(I).get(p.shape[0])
                    if e is not None:
                        self.field[cls][f] = (e.args[0], e)
                        self.units["tables"] += 1
        self.widest(ld)
        self.check("load", None, [e for e in acc if e[0] is ld.I], ld.st, ld)
        self.rows_loaded(ld)

    def widest(self, ld):
        """the width the tables are allocated for is at least that of every layer"""
        used = set()
        for cls in self.field:
            for f, (sz, e) in self.field[cls].items():
                used |= {a for a in lift(sz).deps() if KEYS[a][0] in ("maxof", "out", "phi", "top", "nm1")}
        self.Mmap = {}
        for a in used:
            if KEYS[a][0] in ("maxof", "out"):
                ok = self.covers(ld, a) if KEYS[a][0] == "maxof" else None
                det = ""
                if not ok:
                    det = self.narrow(ld, a)
                    ok, det = (False, det) if det else (None, t_.show_atom(a)[:200])
                    if ok is None and KEYS[a][0] != "maxof":
                        continue
                self.ob("widest", ok, "the tables are allocated for the widest layer", det, ld.fn.file, ld.fn.line)
                self.Mmap[a] = M

    def narrow(self, ld, a):
        """a small circuit with a layer wider than the width the tables are allocated for"""
        try:
            for k, b, fi in self.layer_bits(ld):
                for n, nb in self.instances():
                    env = Env(self, n, nb, [ld.I])
                    try:
                        have = env.atom(a)
                        r = env.search(b, PA(a) + 1, [])
                    except Skip:
                        continue
                    if r is not None:
                        return "%s the tables are allocated for %d bits and a layer has %d" % (self.describe(n, nb), have, r[0])
        except Unknown:
            return None
        return None

    def layer_bits(self, ld):
        """(row name, bit length of that row as loaded, file layer)"""
        d = loadcheck.fdepth()
        for tag, blk in ld.copies():
            sh, ix = ld.root(blk)
            if sh is None:
                raise Unknown("copies")
            c = ld.I.load(ld.st, LV(sh + ("circuit",), ix, "layer *"))
            if self.which == "linear":
                i = loadcheck.sym("row", 2, d + 1)
                rows = [(ZERO, ZERO), (ONE, ZERO), (i, i - 1)]
            else:
                i = loadcheck.sym("row", 0, d)
                rows = [(i, i)]
            for k, fi in rows:
                yield k, ld.at(c, k, "bit_length", "int", {}), fi

    def covers(self, ld, a, depth=0):
        try:
            for k, b, fi in self.layer_bits(ld):
                if not isinstance(b, P):
                    return None
                if not self.reaches(a, b, fi, ld):
                    return None
        except Unknown:
            return None
        return True

    def reaches(self, a, b, fi, ld, depth=0):
        """is maximum a at least b, the width of file layer fi"""
        if depth > 3 or KEYS[a][0] != "maxof":
            return False
        bv, lo, hi, x, _, outer = self.mx[KEYS[a][1:3]]
        mp = dict(zip(outer, KEYS[a][4]))
        lo, hi, x = (subst(y, mp) for y in (lo, hi, x))
        for z in (fi + lo, fi):
            if not (is_nonneg(z - lo) and is_pos(hi - z)):
                continue
            y = subst(x, {bv: z})
            if (y - b).is_zero() or is_nonneg(y - b):
                return True
            # a maximum over the copies, taken in each layer
            for q in y.deps():
                if KEYS[q][0] == "maxof" and self.reaches(q, b, fi, ld, depth + 1):
                    return True
        if self.which == "bc_clogc" and ld.fn.params:
            nc = ld.I.load(ld.st, LV(("arg", ld.fn.params[-1].name), (), "int"))
            hi = subst(hi, {nc.single_atom(): p2(self.cir.nb)})      # the copies number a power of two
        if bv not in x.deps() and is_pos(hi - lo) and ((x - b).is_zero() or is_nonneg(x - b)):
            return True
        return False

    def big(self, id, I, p, want, cls, ld, what, st, fn, maps=({},), loops=()):
        """the table p points to has room for want entries"""
        if not isinstance(p, Ptr) or p == NULL:
            return self.ob(id, None, what, "table not known", fn.file, fn.line)
        self.st, self.at_loops = st, set(loops)
        I._half = getattr(I, "_half", {})
        ok, det, bad = True, "", None
        for mp in maps:
            for q, cs in self.leaves(vsubst(p, mp)):
                cs = [subst(c, mp) for c in cs]
                try:
                    xs = list(self.sizes(I, q, cls, ld))
                except Unknown as u:
                    if not self.excluded(cs, I):
                        ok, det = None, "table not known: %s" % u
                    continue
                for sz, c2 in xs:
                    if sz is None:
                        continue
                    sz, c2 = subst(sz, mp), [subst(c, mp) for c in c2]
                    if self.contradiction(cs + c2):
                        continue
                    r, d = self.decide1(I, subst(want, mp) - 1, sz, cs + c2)
                    if r is not True:
                        ok, det = r, d
                        if r is False:
                            return self.ob(id, False, what, d, fn.file, fn.line)
        self.ob(id, ok, what, det, fn.file, fn.line)

    def rows_loaded(self, ld):
        """the gates of every layer have room for 2^width gates (layers hold one gate or a power of two)"""
        d = loadcheck.fdepth()
        lin = self.which == "linear"
        for tag, blk in ld.copies():
            sh, ix = ld.root(blk)
            if sh is None:
                continue
            c = ld.I.load(ld.st, LV(sh + ("circuit",), ix, "layer *"))
            i = loadcheck.sym("row", 2 if lin else 0, d + (1 if lin else 0))
            rows = [("input", ZERO, ZERO), ("identity", ONE, ZERO), ("inner", i, i - 1)] if lin else [("inner", i, i)]
            self.big("load-layers", ld.I, c, d + (1 if lin else 0), None, ld, "the table of layers has room for every layer", ld.st, ld.fn)
            for nm, k, fi in rows:
                n1 = A("nm1", (fi,)).single_atom()
                pw = p2(A("wk", (fi,)) + 1)
                for cn, mp in (("one", {n1: ZERO}), ("pow", {n1: pw - 1})):
                    self.big("load-gates-%s-%s" % (nm, cn), ld.I, ld.at(c, k, "gates", "gate *", mp), lift(2) if cn == "one" else pw, None, ld,
                             "%s: the gates of a layer have room for two to the power of its width" % nm, ld.st, ld.fn, [mp])

    def rows_evaluated(self, ev):
        """the value rows have room for every gate"""
        lay = loadcheck.sym("lay", 1, self.cir.D)
        blk = (loadcheck.sym("copy", 0, p2(self.cir.nb)),) if self.which == "bc_clogc" else ()
        cv = ev.I.load(ev.st, LV(("this", "circuit_value"), (), "void *"))
        if blk and isinstance(cv, Ptr):
            self.big("evaluate-copies", ev.I, cv, p2(self.cir.nb), "prover", None, "the value table has a row set for every copy", ev.st, ev.fn)
            cv = ev.I.load(ev.st, LV(cv.shape + ("[]",), tuple(cv.idx) + (cv.off + blk[0],), "void *"))
        self.big("evaluate-rows", ev.I, cv, self.cir.D, "prover", None, "the value table has a row for every layer", ev.st, ev.fn)
        for nm, k in (("input", ZERO), ("inner", lay)):
            r = ev.I.load(ev.st, LV(cv.shape + ("[]",), tuple(cv.idx) + (cv.off + k,), "void *")) if isinstance(cv, Ptr) else None
            self.big("evaluate-%s" % nm, ev.I, r, p2(self.cir.bl(k)), "prover", None, "%s: a row of the value table has room for every gate of its layer" % nm, ev.st, ev.fn)

    # ------------------------------------------------------------ sizes
    def size(self, I, p, cls, ld=None):
        sh = p.shape
        if p.obj:
            return ONE
        if not sh:
            raise Unknown("?")
        if is_heap_shape(sh):
            root = sh[0]
            e = self.news(I).get(root)
            if e is None and len(root) == 4:
                e = self.news(I).get(root[:3])
            if e is None:
                raise Unknown("allocation")
            if len(sh) > 1:
                return self.inner_size(I, p, cls, ld)
            sz = e.args[0]
            mp = {}
            for k, L in enumerate(root[2]):
                if k < len(p.idx):
                    mp[atom("bv", L)] = p.idx[k]
                elif L not in self.at_loops:
                    # the object left by the last iteration
                    rec = I.loops.get(L)
                    if rec is None or not rec.affine:
                        raise Unknown("object of an earlier loop")
                    mp[rec.bv] = rec.lo if rec.step == -1 else rec.hi - 1
            return subst(sz, mp)
        if sh[0] == "phi" or (sh[0] == "in" and sh[1] == "phi"):
            k = sh[1:] if sh[0] == "in" else sh
            rec = I.loops.get(k[1])
            if rec is None or k[2] not in rec.phis or not rec.affine:
                raise Unknown("carried pointer")
            a, b = rec.phis[k[2]]
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unknown("carried pointer")
            s0 = self.swapped(I, k, rec, cls, ld)
            if s0 is not None:
                return s0
            s0, s1 = self.size(I, a, cls, ld), self.size(I, b, cls, ld)
            f = subst(s1, {rec.bv: PA(rec.bv) - rec.step})
            first = rec.lo if rec.step == 1 else rec.hi - 1
            if (subst(f, {rec.bv: first}) - s0).is_zero():
                return f
            raise Unknown("carried pointer")
        if sh[0] == "out":
            rec = I.loops.get(sh[1])
            if rec is None or sh[2] not in rec.phis or not rec.affine:
                raise Unknown("pointer after a loop")
            a, b = rec.phis[sh[2]]
            if not isinstance(b, Ptr) or not is_pos(rec.hi - rec.lo):
                raise Unknown("pointer after a loop")
            last = rec.lo if rec.step == -1 else rec.hi - 1
            return subst(self.size(I, b, cls, ld), {rec.bv: last})
        if sh[0] == "ptr":
            raise Unknown("pointer stored in a table")
        if sh[0] == "spec":
            r = {"r0": "n", "r1": "n", "o0": "n", "o1": "n", "ru": "m", "ou": "m", "rb": "nb", "ob": "nb", "rt": "t", "ot": "t"}.get(sh[1])
            lay = loadcheck.sym("lay", 1, self.cir.D)
            if r == "n":
                return self.cir.bl(lay)
            if r == "m":
                return self.cir.bl(lay - 1)
            if r == "nb":
                return self.cir.nb
            if r == "t":
                return self.cir.bl(self.cir.D - 1)
            raise Unknown(str(sh[1]))
        if sh[0] == "msgp":
            top = p2(self.cir.bl(self.cir.D - 1))
            if sh[-1] == "evaluate" or "evaluate" in sh:
                return top * (p2(self.cir.nb) if self.which == "bc_clogc" else ONE)
            raise Unknown("message")
        if sh[0] == "this" and cls:
            return self.member_size(sh[1:], p.idx, cls)
        if sh[0] in ("L", "T", "S", "G", "arg", "X"):
            return None
        if sh[0] == "this" and ld is not None:
            if sh[1:] == ("C", "blocks"):
                nc = I.load(ld.st, LV(("arg", ld.fn.params[-1].name), (), "int"))
                return nc
            return None
        raise Unknown(str(sh[0]))

    def swapped(self, I, k, rec, cls, ld):
        """tables of one size that only change places from round to round"""
        todo, seen, out = [k[2]], set(), None
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x not in rec.phis:
                return None
            a, b = rec.phis[x]
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                return None
            s = self.size(I, a, cls, ld)
            if out is not None and (not isinstance(s, P) or not (s - out).is_zero()):
                return None
            out = s
            bs = b.shape[1:] if b.shape[0] == "in" else b.shape
            if bs[0] == "phi" and bs[1] == k[1] and len(bs) == 3:
                todo.append(bs[2])
            else:
                return None
        return out

    def inner_size(self, I, p, cls, ld):
        if self.row_shape is not None and p.shape == self.row_shape:
            return p2(self.cir.bl(p.idx[-1]))          # rows_evaluated
        raise Unknown("nested table")

    def member_size(self, path, idx, cls):
        c = self.cir
        if self.which == "bc_clogc":
            t = {("C", "blocks"): lambda x: p2(c.nb),
                 ("C", "blocks", "[]", "circuit"): lambda x: c.D,
                 ("C", "blocks", "[]", "circuit", "[]", "gates"): lambda x: p2(c.bl(x[1])),
                 ("circuit_value",): lambda x: p2(c.nb),
                 ("circuit_value", "[]"): lambda x: c.D,
                 ("circuit_value", "[]", "[]"): lambda x: p2(c.bl(x[1]))}
        else:
            t = {("C", "circuit"): lambda x: c.D,
                 ("C", "circuit", "[]", "gates"): lambda x: p2(c.bl(x[0])),
                 ("circuit_value",): lambda x: c.D,
                 ("circuit_value", "[]"): lambda x: p2(c.bl(x[0]))}
        if path in t:
            return t[path](idx)
        if len(path) == 1 and path[0] in self.field[cls]:
            sz, e = self.field[cls][path[0]]
            return subst(sz, self.Mmap)
        raise Unknown(".".join(map(str, path)))

    # ------------------------------------------------------------ checking
    def check(self, what, cls, acc, st=None, ld=None):
        self.st = st
        self.releases(what, cls, acc)
        for e in acc:
            I, n, ctx, fn, p, i, pc, loops = e
            if not isinstance(i, P):
                continue
            self.units["accesses"] += 1
            self.at_loops = set(loops)
            todo, unknown = [], None
            pc = list(pc) + listed(pc)
            for q, cs in self.leaves(p):
                try:
                    for sz, c2 in self.sizes(I, q, cls, ld):
                        if sz is not None:
                            todo.append((q.off + i, sz, list(pc) + cs + c2))
                except Unknown as u:
                    if band_(list(pc) + cs) != F:
                        todo.append((None, str(u), list(pc) + cs))
            if todo:
                self.decide(what, e, todo)

    # ------------------------------------------------------------ releases
    def releases(self, what, cls, acc):
        self.what, self.cls = what, cls
        by = {}
        for q, e in enumerate(acc):
            by.setdefault(id(e[0]), []).append(e)
        for es in by.values():
            dels = [(q, e) for q, e in enumerate(es) if isinstance(e[5], tuple) and e[5][0] == "del"]
            for q, d in dels:
                self.units["releases"] += 1
                self.release(es, q, d)

    def rel_ob(self, d, kind, ok, text, detail=""):
        I, n, ctx, fn, p, i, pc, loops = d
        self.ob("%s-%s-%s-%s" % (self.what, kind, n.line, n.nid), ok, "%s: %s" % (fn.qname, text), detail, n.file, n.line)

    def release(self, es, q, d):
        I, n, ctx, fn, p, i, pc, loops = d
        if p == NULL:
            return
        self.form(d)
        bad = None
        for r in range(q + 1, len(es)):
            x = es[r]
            if self.same_object(d, x) and self.both(I, d, x):
                bad = (x, "released again" if self.is_del(x) else "used")
                break
        text = "a released table is neither used nor released again"
        if bad is not None:
            x, how = bad
            return self.rel_ob(d, "release", False, text, "released at line %s, %s at line %s" % (n.line, how, x[1].line))
        c = self.carried(es, q, d)
        if c is not None:
            return self.rel_ob(d, "release", False, text, c)
        c = self.retained(es, q, d)
        if c is not None:
            return self.rel_ob(d, "release", False, text, c)
        self.rel_ob(d, "release", True, text)

    def is_del(self, x):
        return isinstance(x[5], tuple) and x[5][0] == "del"

    def objs(self, x):
        if isinstance(x[5], tuple) and x[5][0] == "adv":
            return [v for v in x[5][2] if isinstance(v, Ptr)]
        return [x[4]] if x[4] != NULL else []

    def same_object(self, d, x):
        return any(v.shape == d[4].shape and v.idx == d[4].idx for v in self.objs(x))

    def own_conds(self, I, e, drop=()):
        """conditions of an entry other than its loops' own ranges"""
        out = set()
        for c in e[6]:
            for k in (c[1] if c[0] == "and" else [c]):
                if k == T or any(self.loop_cond(I, k, L) for L in e[7]):
                    continue
                out.add(k)
        return out

    def loop_cond(self, I, c, L):
        rec = I.loops.get(L)
        if rec is None:
            return False
        if c == rec.cond:
            return True
        if rec.affine and c[0] == "lt":
            return c[1] in (PA(rec.bv) - rec.hi, rec.lo - 1 - PA(rec.bv), -PA(rec.bv) + rec.lo - 1)
        return False

    def both(self, I, d, x):
        """some run reaches d and then x on the same object"""
        dl, xl = d[7], x[7]
        k = 0
        while k < len(dl) and k < len(xl) and dl[k] == xl[k]:
            k += 1
        for L in dl[k:]:
            # x comes after a loop that releases in every iteration
            rec = I.loops.get(L)
            if rec is None or not rec.affine or not is_pos(rec.hi - rec.lo):
                return False
        a, b = self.own_conds(I, d), self.own_conds(I, x)
        return a <= b or b <= a

    def in_key(self, p, L):
        """does the object differ from one iteration of L to the next"""
        bv = atom("bv", L)
        if any(bv in y.deps() for y in p.idx):
            return True

        def rec(s):
            if isinstance(s, tuple):
                if s == L:
                    return True
                return any(rec(y) for y in s)
            return isinstance(s, P) and bv in s.deps()
        return rec(p.shape)

    def carried(self, es, q, d):
        I, n, ctx, fn, p, i, pc, loops = d
        for L in loops:
            rec = I.loops.get(L)
            if rec is None:
                continue
            free = not any(c for c in self.own_conds(I, d) if not self.outside(c, es, L))
            if not self.in_key(p, L):
                # an object from outside the loop, released in every iteration
                if free and not (rec.affine and is_nonneg(1 - (rec.hi - rec.lo))) and not rec.breaks:
                    return "released at line %s in every iteration of a loop, though it is made outside of it" % n.line
                continue
            for shp, (a, b) in rec.phis.items():
                if not (isinstance(b, Ptr) and b.shape == p.shape and b.idx == p.idx) or not free:
                    continue
                ph = (("phi", L, shp), ("in", "phi", L, shp), ("out", L, shp))
                for x in es:
                    if any(v.shape[:len(z)] == z for v in self.objs(x) for z in ph) and x[1] is not n:
                        return "released at line %s, carried into the next iteration and used at line %s" % (n.line, x[1].line)
        return None

    def outside(self, c, es, L):
        """a condition that holds around the loop"""
        return not any(a in deps_of(c) for a in (atom("bv", L),)) and all(c in self.flat(x[6]) for x in es if L in x[7])

    def flat(self, pc):
        return {k for c in pc for k in (c[1] if c[0] == "and" else [c])}

    def form(self, d):
        I, n, ctx, fn, p, i, pc, loops = d
        e = None
        if is_heap_shape(p.shape) and len(p.shape) == 1:
            e = self.news(I).get(p.shape[0]) or (self.news(I).get(p.shape[0][:3]) if len(p.shape[0]) == 4 else None)
        elif p.shape[:1] == ("this",) and len(p.shape) == 2 and self.cls:
            e = self.field[self.cls].get(p.shape[1], (None, None))[1]
        if e is None:
            return
        arr = bool(e.node.extra.get("isArray"))
        ok = arr == (i[1] == "[]")
        self.rel_ob(d, "form", ok, "a table is released in the form it was allocated in", "" if ok else "allocated at line %s with new%s" % (e.line, "[]" if arr else ""))

    # tables handed to the prover, which keeps them until it is given others
    def stored(self, name):
        """parameter position -> field that keeps the pointer"""
        fn = self.prog.func("prover::" + name, False)
        out = {}
        if fn is None or fn.body is None:
            return out
        ids = {p.id: k for k, p in enumerate(fn.params)}
        for x in walk(fn.body):
            if x.kind == "BinaryOperator" and x.op == "=" and len(x.inner) == 2:
                a, b = peel(x.inner[0]), peel(x.inner[1])
                if a.kind == "MemberExpr" and b.kind == "DeclRefExpr" and (b.ref or {}).get("id") in ids and ip.is_ptr_t(ip.strip(b.type or "")):
                    out[ids[b.ref["id"]]] = a.name.replace("->", "")
        return out

    def reads(self, name, field, seen=None):
        seen = seen if seen is not None else set()
        if name in seen:
            return False
        seen.add(name)
        fn = self.prog.func("prover::" + name, False)
        if fn is None or fn.body is None:
            return False
        skip = set()
        for x in walk(fn.body):
            if x.kind == "BinaryOperator" and x.op == "=":
                a = peel(x.inner[0])
                if a.kind == "MemberExpr":
                    skip.add(id(a))
            if x.kind == "MemberExpr" and id(x) not in skip:
                nm = (x.name or "").replace("->", "")
                if nm == field or self.reads(nm, field, seen):
                    return True
        return False

    def retained(self, es, q, d):
        I, n, ctx, fn, p, i, pc, loops = d
        given = None
        for r in range(q - 1, -1, -1):
            x = es[r]
            if isinstance(x[5], tuple) and x[5][0] == "adv" and x[7][:len(loops)] == loops:
                st = self.stored(x[5][1])
                for k, f in st.items():
                    if k < len(x[5][2]) and isinstance(x[5][2][k], Ptr) and x[5][2][k].shape == p.shape and x[5][2][k].idx == p.idx:
                        given = (x[5][1], f, x)
                if given:
                    break
        if given is None:
            return None
        meth, field, gx = given
        for r in range(q + 1, len(es)):
            x = es[r]
            if not (isinstance(x[5], tuple) and x[5][0] == "adv"):
                continue
            if field in self.stored(x[5][1]).values():
                return None
            if self.reads(x[5][1], field) and self.both(I, d, x):
                return "released at line %s while the prover still uses it as %s (call of %s at line %s)" % (n.line, field, x[5][1], x[1].line)
        return None

    def leaves(self, p):
        """the tables a conditional pointer may mean"""
        if p.shape[:1] == ("iteptr",):
            for k, c in zip(p.shape[2:4], (p.shape[1], bnot(p.shape[1]))):
                q = Ptr(*k)
                q = Ptr(q.shape, q.idx, q.off + p.off, q.obj)
                for r, cs in self.leaves(q):
                    yield r, [c] + cs
        else:
            yield p, []

    def sizes(self, I, p, cls, ld):
        """(size, condition) pairs; a pointer stored in a table is looked up there"""
        if p.shape[:1] == ("ptr",) and self.st is not None:
            b = p.shape[1]
            if isinstance(b, tuple) and b[0] == "in":
                b = b[1:]
            shp = b[2] if b[0] == "phi" else b
            v = I.load(self.st, LV(shp, p.idx, "void *"))
            if not isinstance(v, Ptr) or v.shape[:1] == ("ptr",):
                raise Unknown("pointer stored in a table")
            for q, cs in self.leaves(v):
                if q == NULL or q.shape[:1] == ("ptr",):
                    continue
                for sz, c2 in self.sizes(I, q, cls, ld):
                    yield sz, cs + c2
            return
        yield self.size(I, p, cls, ld), []

    def result(self, what, e, ok, detail):
        I, n, ctx, fn, p, i, pc, loops = e
        name = str(p.shape[-1]) if not is_heap_shape(p.shape) else "new at line %s" % getattr(self.news(I).get(p.shape[0]), "line", "?")
        key = (n.file, n.line, n.nid)
        r = self.res.setdefault(key, []) if hasattr(self, "res") else None
        self.ob("%s-%s-%s-%s" % (what, fn.name if hasattr(fn, "name") else fn.qname.split("::")[-1], n.line, n.nid), ok,
                "%s: the access to %s stays inside its allocation" % (fn.qname, name), detail, n.file, n.line)

    def norm(self, x):
        """the copies of a data-parallel circuit number two to the number of copy bits"""
        if self.which == "bc_clogc":
            mp = {}
            for a in x.deps():
                k = KEYS[a]
                if k[0] == "sel" and isinstance(k[1], tuple) and k[1][-1] == "total_blocks":
                    mp[a] = p2(self.cir.nb)
            if mp:
                x = subst(x, mp)
        return x

    def decide(self, what, e, todo):
        I = e[0]
        if not hasattr(I, "_half"):
            I._half = self.halving(I)
        left = None
        for idx, sz, pc in todo:
            if idx is None:
                if not self.excluded(pc, I):
                    left = "table not known: " + sz
                continue
            r, d = self.decide1(I, idx, sz, pc)
            if r is False:
                return self.result(what, e, False, d)
            if r is None:
                left = d
        self.result(what, e, None if left else True, left or "")

    def cases(self, *xs):
        if self.which == "bc_clogc" and any(self.cir.nb.single_atom() in deps_of(x) for x in xs) or \
                self.which == "bc_clogc" and not any(KEYS[a][0] == "nm1" for x in xs for a in deps_of(x)):
            nb = self.cir.nb.single_atom()
            return [{nb: ZERO}, {nb: A("nb1") + 1}]
        out = [{}]
        for a in sorted({a for x in xs for a in deps_of(x) if KEYS[a][0] == "nm1"})[:3]:
            # a layer of one gate, or of more
            out = [dict(m, **{}) | {a: v} for m in out for v in (ZERO, A("nm2", KEYS[a][1]) + 1)]
        return out

    def excluded(self, pc, I):
        return all(self.contradiction([subst(c, cs) for c in pc]) for cs in self.cases(*pc))

    def contradiction(self, pc):
        if F in pc:
            return True
        b = band_(pc)
        if b == F:
            return True
        for mp in self.eqs(pc):
            if band_([subst(c, mp) for c in pc]) == F:
                return True
        return False

    def decide1(self, I, idx, sz, pc):
        idx, sz = self.norm(idx), self.norm(sz)
        if self.which == "linear" and any(self.relay4(c) for c in pc):
            # direct relays occur in the identity layer only
            mp = {loadcheck.sym("lay", 1, self.cir.D).single_atom(): ONE}
            idx, sz, pc = subst(idx, mp), subst(sz, mp), [subst(c, mp) for c in pc]
        left = None
        for cs in self.cases(idx, sz, *pc):
            self.case = cs
            self.half = {a: subst(x, cs) for a, x in I._half.items()}
            self.half.update(cs)
            i2, s2, c2 = idx, sz, pc
            if self.half:
                i2, s2, c2 = subst(idx, self.half), subst(sz, self.half), [subst(c, self.half) for c in pc]
            if self.contradiction(c2) or self.inside(i2, s2, c2):
                continue
            self.half = I._half
            w = self.witness(I, subst(idx, self.half), subst(sz, self.half), [subst(c, self.half) for c in pc]) if not left else None
            if w is not None:
                self.half = {}
                return False, w
            left = "index %s, size %s" % (t_.show(i2)[:150], t_.show(s2)[:120])
        self.half = {}
        return None if left else True, left or ""

    def relay4(self, c):
        if c[0] == "and":
            return any(self.relay4(x) for x in c[1])
        if c[0] != "eq":
            return False
        for a in c[1].atoms():
            k = KEYS[a]
            if k[0] == "sel" and isinstance(k[1], tuple) and k[1][-1] == "ty":
                return (c[1] - (PA(a) - 4)).is_zero() or (c[1] + (PA(a) - 4)).is_zero()
        return False

    def bl_atoms(self, x):
        out, seen, work = [], set(), sorted(x.deps())
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            if KEYS[a][0] == "sel" and isinstance(KEYS[a][1], tuple) and KEYS[a][1][-1] == "bit_length":
                out.append(a)
                continue
            r = range_of(a)
            if r is not None:
                work += sorted((r[0].deps() | r[1].deps()) - seen)
        return out

    def inside(self, idx, sz, pc):
        """0 <= idx < sz for all widths"""
        if not (self.holds(idx, pc) or self.least(idx)):
            return False
        if self.holds(sz - 1 - idx, pc):
            return True
        U = self.upper(idx)
        for mp in self.eqs(pc):
            U, sz = subst(U, mp), subst(sz, mp)
        if is_nonneg(sz - 1 - U):
            return True
        e = t_.log2_mono(sz)
        if e is None:
            return False
        for m, c in list((U + 1).t.items()) + [(None, None)]:
            V = P({m: c}) if m is not None else U + 1
            u = t_.log2_mono(V)
            if u is not None and is_nonneg(V - U - 1) and self.below(u, e):
                return True
        seen = set()
        for b in self.bl_atoms(sz - idx) + [a for a in sorted(e.deps()) if KEYS[a][0] == "sel"]:
            if b in seen:
                continue
            seen.add(b)
            b = PA(b)
            h = t_.shr(b, ONE)
            nb = subst(self.cir.nb, self.case) if self.which == "bc_clogc" else ZERO
            for E in (b, h, h + 1, b - h, b - 1, b * 2) + ((b + nb, b * 2 + nb, nb) if nb is not ZERO else ()):
                if self.below(E, e) and (self.holds(p2(E) - 1 - idx, pc) or is_nonneg(p2(E) - 1 - U)):
                    return True
        return False

    def eqs(self, pc):
        """what the conditions fix"""
        out = []
        for c in pc:
            for k in (c[1] if c[0] == "and" else [c]):
                if k[0] != "eq":
                    continue
                for a in k[1].atoms():
                    if KEYS[a][0] in ("bv", "bvtmp"):
                        ab = k[1].coeff_of(a)
                        if ab is not None and ab[0].is_const() and abs(ab[0].const()) == 1 and ab[1].is_const():
                            out.append({a: -ab[1] * ab[0]})
        if self.which == "linear":
            out.append({self.cir.bl(ZERO).single_atom(): self.cir.bl(ONE)})
        return out

    def halving(self, I):
        """bounds that mention a variable halved in every iteration of a surrounding loop, in closed form"""
        mp = {}
        for rec in I.loops.values():
            if not rec.affine or rec.step != 1:
                continue
            for shp, (iv, nv) in rec.phis.items():
                if not (isinstance(iv, P) and isinstance(nv, P)):
                    continue
                ph = atom("phi", rec.key, shp)
                if nv == t_.shr(PA(ph), ONE):
                    m = t_.log2_mono(iv)
                    if m is not None and is_nonneg(m - (rec.hi - rec.lo)):
                        mp[ph] = p2(m - (PA(rec.bv) - rec.lo))
        return mp

    def least(self, x):
        return all(c >= 0 for c in x.t.values()) and all(t_.nonneg_atom(a) for a in x.atoms())

    def upper(self, x, depth=0):
        """an upper bound of x without loop variables: each is moved to the end of its range that makes x larger"""
        if depth > 20:
            return x
        inner = {}
        for a in x.atoms():
            if KEYS[a][0] == "p2":
                for b in KEYS[a][1].atoms():
                    inner.setdefault(b, []).append(a)
        RG = {a: self.range(a) for a in set(x.atoms()) | set(inner)}
        present = [a for a in RG if RG[a] is not None]
        for a in sorted(present):
            if any(b != a and a in (RG[b][0].deps() | RG[b][1].deps()) for b in present):
                continue
            hi = self.cap(RG[a][1]) - 1
            s = self.slope(x, a, inner)
            if s is None:
                continue
            if any(a in t_.DEPS[b] and b not in inner.get(a, ()) for b in x.atoms() if b != a):
                continue
            return self.upper(subst(x, {a: hi if s > 0 else RG[a][0]}), depth + 1)
        return x

    def cap(self, h):
        """min(x, y) written as a choice is at most the simpler of the two"""
        for c in sorted(h.deps()):
            k = KEYS[c]
            if k[0] == "ind" and k[1][0] == "lt":
                x, y = subst(h, {c: ONE}), subst(h, {c: ZERO})
                d = x - y - k[1][1]
                if d.is_const() and d.const() in (0, 1):
                    return min(x, y, key=lambda z: (len(z.deps()), len(z.t)))
        return h

    def range(self, a):
        r = range_of(a)
        if r is not None and KEYS[a][0] == "sel" and KEYS[a][1][-1] in ("bit_length", "total_blocks_binary_length", "total_depth"):
            return None
        if r is not None:
            if self.half and (deps_of(r[0]) | deps_of(r[1])) & set(self.half):
                r = subst(r[0], self.half), subst(r[1], self.half)
            return r
        k = KEYS[a]
        if k[0] == "shr":
            # x < 2^m, so x >> k < 2^(m - k)
            U = self.upper(k[1]) + 1
            for b in [None] + self.bl_atoms(k[1]):
                m = t_.log2_mono(U) if b is None else PA(b)
                if m is not None and is_nonneg(p2(m) - U) and is_nonneg(m - k[2]):
                    return ZERO, p2(m - k[2])
        if k[0] in ("bxor", "bor"):
            # flipping or setting bits below 2^m stays below 2^m
            for b in self.bl_atoms(sum(k[1:], ZERO)):
                if all(is_nonneg(p2(PA(b)) - 1 - self.upper(x)) for x in k[1:]):
                    return ZERO, p2(PA(b))
        return None

    def slope(self, x, a, inner):
        """1 if x grows with a, -1 if it falls"""
        r = set()
        for m, c in x.t.items():
            for y, e in m:
                if y == a:
                    if e != 1 or any(not t_.nonneg_atom(z) for z, _ in m):
                        return None
                    r.add(1 if c > 0 else -1)
                if y in inner.get(a, ()):
                    ab = KEYS[y][1].t.get(((a, 1),))
                    if ab is None or e not in (1, -1) or any(not t_.nonneg_atom(z) for z, _ in m) \
                            or any(z == a for q in KEYS[y][1].t if q != ((a, 1),) for z, _ in q):
                        return None
                    r.add(1 if ((c > 0) == (ab > 0)) == (e > 0) else -1)
        return r.pop() if len(r) == 1 else None

    def below(self, E, e):
        """E <= e for every width of a layer, given that M is the widest"""
        if is_nonneg(e - E):
            return True
        ma = M.single_atom()
        if ma not in e.deps():
            return False
        for b in self.bl_atoms(E):
            q, r, s, t = (A("mq", n) for n in "qrst")
            RANGES[r.single_atom()] = (ZERO, lift(2))
            RANGES[t.single_atom()] = (ZERO, lift(2))
            d = subst(e - E, {A("shr", PA(b), ONE).single_atom(): q, A("shr", M, ONE).single_atom(): q + s})
            for mp in ({b: 2 * q + r, ma: 2 * (q + s) + t}, {ma: PA(b) + s}):
                x = subst(d, mp)
                if is_nonneg(x):
                    return True
        return False

    def holds(self, x, pc):
        if is_nonneg(x):
            return True
        for c in pc:
            for k in (c[1] if c[0] == "and" else [c]):
                if k[0] == "lt":
                    y = x + k[1] + 1           # k[1] < 0, so x >= y
                    if is_nonneg(y):
                        return True
        return False

    # ------------------------------------------------------------ small instances
    def instances(self):
        """small well-formed circuits: gates per layer of the file, copy bits"""
        for d in (2, 3):
            for n in itertools.product((1, 2, 4, 8), repeat=d):
                for nb in ((0, 1, 2) if self.which == "bc_clogc" else (0,)):
                    yield n, nb

    def describe(self, n, nb):
        return "with layers of %s gates%s" % (", ".join(map(str, n)), " in %d copies" % (1 << nb) if self.which == "bc_clogc" else "")

    def witness(self, I, idx, sz, pc):
        """a small circuit for which the recorded index lies outside the recorded size"""
        t0 = time.time()
        if self.spent > 150:
            return None
        try:
            for n, nb in self.instances():
                env = Env(self, n, nb, [I, self.ld.I])
                try:
                    r = env.search(idx, sz, pc)
                except Skip:
                    continue
                except Unknown:
                    return None
                if r is not None:
                    return "%s the index is %d and the table has %d entries" % (self.describe(n, nb), r[0], r[1])
        finally:
            self.spent += time.time() - t0
        return None


def walk(n):
    yield n
    for c in n.inner or ():
        if c is not None:
            yield from walk(c)


def peel(n):
    while n is not None and n.kind in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr") and n.inner:
        n = n.inner[0]
    return n


class Skip(Exception):
    pass


class Env:
    """one small instance: the gates of every layer of the file; loop variables range over their bounds"""
    LIMIT = 4000

    def __init__(self, mc, n, nb, Is):
        self.mc, self.n_, self.nb, self.Is = mc, n, nb, Is
        bl = [max(1, (x - 1).bit_length()) for x in n]
        self.bl = [bl[0]] + bl if mc.which == "linear" else bl
        self.D = len(self.bl)
        self.val = {}
        self.n = 0

    def search(self, idx, sz, pc):
        conds = [c for x in pc for c in (x[1] if x[0] == "and" else [x]) if not self.check_passed(c)]
        free = self.free_vars([idx, sz], conds)
        return self.rec(free, 0, idx, sz, conds)

    def check_passed(self, c):
        """an equality test of the verifier on the prover's answers; it succeeds with the prover of this repository"""
        return c[0] == "eq" and any(KEYS[a][0] == "sel" and isinstance(KEYS[a][1], tuple) and "ADV" in KEYS[a][1][:3] for a in deps_of(c))

    def free_vars(self, xs, conds=()):
        seen, out = set(), []

        def key(x):
            if isinstance(x, P):
                visit(x)
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    key(y)

        def visit(x):
            for a in sorted(x.atoms()):
                k = KEYS[a]
                if a in seen:
                    continue
                seen.add(a)
                if k[0] not in ("out", "maxof", "phi", "widest"):
                    key(k[1:])
                if self.fixed(k):
                    continue
                if k[0] in ("bv", "bvtmp") or a in RANGES or (k[0] == "sel" and self.mc.range(a) is not None):
                    r = self.mc.range(a)
                    if r is None:
                        raise Unknown("variable %s" % (k,))
                    visit(r[0])
                    visit(r[1])
                    out.append(a)
                elif k[0] == "sel" and isinstance(k[1], tuple) and k[1][-1] == "ty" or k[0] in ("rec", "wk"):
                    out.append(a)
        for x in xs:
            visit(x)
        for c in conds:
            key(c)
        return out

    def fixed(self, k):
        return k[0] == "sel" and isinstance(k[1], tuple) and k[1][-1] in ("bit_length", "total_depth", "total_blocks", "total_blocks_binary_length")

    def domain(self, a):
        k = KEYS[a]
        if k[0] == "wk":
            return [0, 1, 2]
        if k[0] == "rec" and k[1] != "ty":
            i = self.ev(k[2][0])
            return list(range(self.n_[i - 1] if 0 < i < len(self.n_) else 2))
        if k[0] == "rec":
            i = self.ev(k[2][0])
            return [3, 2] if i == 0 else [0, 1, 7, 8, 9, 6, 10, 5, 2] if self.mc.which == "linear" else [0, 1, 2]
        if k[0] == "sel" and k[1][-1] == "ty":
            i = self.ev(k[2][-2])
            if i == 0:
                return [3, 2]
            if self.mc.which != "linear":
                return [0, 1, 2]
            return [4] if i == 1 else [0, 1, 7, 8, 9, 6, 10, 5, 2]
        r = self.mc.range(a)
        lo, hi = self.ev(r[0]), self.ev(r[1])
        vals = list(range(lo, hi))
        if len(vals) > 6:
            vals = vals[:2] + vals[-2:]
        return vals

    def rec(self, free, q, idx, sz, conds):
        self.n += 1
        if self.n > self.LIMIT:
            return None
        if q == len(free):
            for c in conds:
                if not self.cond(c):
                    return None
            i, s = self.ev(idx), self.ev(sz)
            return (i, s) if i < 0 or i >= s else None
        a = free[q]
        for v in self.domain(a):
            self.val[a] = v
            x = self.rec(free, q + 1, idx, sz, conds)
            if x is not None:
                return x
        self.val.pop(a, None)
        return None

    def ev(self, p):
        tot = 0
        for m, c in p.t.items():
            v = c
            for a, e in m:
                v = v * self.atom(a) ** e
            tot += v
        if getattr(tot, "denominator", 1) != 1:
            raise Skip("fraction")         # a shift that loses bits, for which the quotient is not exact
        return int(tot)

    def atom(self, a):
        if a in self.val:
            return self.val[a]
        k = KEYS[a]
        if k[0] == "widest":
            return max(self.bl)
        if k[0] == "sel" and isinstance(k[1], tuple):
            if k[1][-1] == "bit_length":
                i = self.ev(k[2][-1])
                if not 0 <= i < self.D:
                    raise Unknown("layer")
                return self.bl[i]
            if k[1][-1] == "total_depth":
                return self.D
            if k[1][-1] == "total_blocks":
                return 1 << self.nb
            if k[1][-1] == "total_blocks_binary_length":
                return self.nb
        if k[0] == "p2":
            e = self.ev(k[1])
            if e < 0:
                raise Unknown("negative shift")
            return 1 << e
        if k[0] == "shr":
            return self.ev(k[1]) >> self.ev(k[2])
        if k[0] == "low":
            return self.ev(k[1]) & ((1 << self.ev(k[2])) - 1)
        if k[0] == "bit":
            return (self.ev(k[1]) >> self.ev(k[2])) & 1
        if k[0] == "bor":
            r = 0
            for x in k[1:]:
                r |= self.ev(x)
            return r
        if k[0] == "bxor":
            r = 0
            for x in k[1:]:
                r ^= self.ev(x)
            return r
        if k[0] == "bitlen":
            return self.ev(k[1]).bit_length()
        if k[0] == "ind":
            return 1 if self.cond(k[1]) else 0
        if k[0] == "dm2":
            return len(self.n_) - 2
        if k[0] in ("nm1", "nm2"):
            i = self.ev(k[1][-1])
            if not 0 <= i < len(self.n_):
                raise Unknown("file layer")
            return self.n_[i] - (1 if k[0] == "nm1" else 2)
        if k[0] == "sel" and isinstance(k[1], tuple) and "arg" in k[1][:2] and self.mc.ld.fn.params and k[1][-1] == self.mc.ld.fn.params[-1].name \
                and self.mc.which == "bc_clogc":
            return 1 << self.nb
        if k[0] == "maxof":
            return self.maximum(k)
        if k[0] == "out":
            return self.unrolled(k)
        raise Unknown(str(k)[:80])

    def maximum(self, k):
        for I in self.Is:
            if k[1:3] in I.maxof:
                break
        else:
            raise Unknown("maximum")
        bv, lo, hi, y, _, outer = I.maxof[k[1:3]]
        mp = dict(zip(outer, k[4]))
        lo, hi, y = (subst(x, mp) for x in (lo, hi, y))
        best = self.ev(k[3])
        old = self.val.get(bv)
        for v in range(self.ev(lo), min(self.ev(hi), 64)):
            self.val[bv] = v
            best = max(best, self.ev(y))
        self.val.pop(bv, None)
        if old is not None:
            self.val[bv] = old
        return best

    def unrolled(self, k):
        """a variable after a loop, by its initial value and its value after one more round"""
        for I in self.Is:
            rec = I.loops.get(k[1])
            if rec is not None and k[2] in rec.phis:
                break
        else:
            raise Unknown("loop")
        if not rec.affine or rec.breaks or rec.extra_cond not in (None, T):
            raise Unknown("loop")
        need, todo = {}, [k[2]]
        while todo:
            shp = todo.pop()
            if shp in need:
                continue
            if shp not in rec.phis:
                raise Unknown("loop variable")
            iv, nv = rec.phis[shp]
            if not isinstance(iv, P) or not isinstance(nv, P):
                raise Unknown("loop variable")
            need[shp] = atom("phi", rec.key, shp)
            todo += [KEYS[a][2] for a in nv.deps() if KEYS[a][0] == "phi" and KEYS[a][1] == rec.key]
        cur = {shp: self.ev(rec.phis[shp][0]) for shp in need}
        rng = list(range(self.ev(rec.lo), self.ev(rec.hi)))
        if len(rng) > 64:
            raise Unknown("long loop")
        save = dict(self.val)
        for v in (rng if rec.step == 1 else reversed(rng)):
            self.val[rec.bv] = v
            self.val.update({need[s]: x for s, x in cur.items()})
            cur = {shp: self.ev(rec.phis[shp][1]) for shp in need}
        self.val = save
        return cur[k[2]]

    def cond(self, c):
        if c == T:
            return True
        if c == F:
            return False
        if c[0] == "eq":
            return self.ev(c[1]) == 0
        if c[0] == "lt":
            return self.ev(c[1]) < 0
        if c[0] == "not":
            return not self.cond(c[1])
        if c[0] == "and":
            return all(self.cond(x) for x in c[1])
        if c[0] == "or":
            return any(self.cond(x) for x in c[1])
        raise Unknown("condition")


class ParaDrive(provercheck.Base):
    """the parallel prover, stage by stage; each worker as a call"""
    def run(self):
        cir = self.cir
        lay = loadcheck.sym("lay", 1, cir.D)
        n, m = cir.bl(lay), cir.bl(lay - 1)
        reg = provercheck.region
        al, be, rnd = (A("sel", ("in", "spec", x), (), f=True) for x in ("alpha", "beta", "rnd"))
        I, fr, st = self.run_fn("prover::sumcheck_init", [lay, n, m, m, al, be, reg("r0"), reg("r1"), reg("o0"), reg("o1")], {})
        mem = dict(st.mem)
        bit = loadcheck.sym("round", 0, m)
        for stage, args in (("sumcheck_phase1_init", None), ("sumcheck_phase1_update", [rnd, bit]), ("sumcheck_phase2_init", [rnd, reg("ru"), reg("ou")]),
                            ("sumcheck_phase2_update", [rnd, bit]), ("sumcheck_finalize", [rnd])):
            x = dict(mem)
            x[("this", "total_uv")] = Content(("in", "this", "total_uv"), [Layer("set", [], T, (), p2(m - bit))])
            self.run_fn("prover::" + stage, args, x)
        fn = self.prog.func("prover::V_res")
        if fn is not None and len(fn.params) == 5:
            top = cir.bl(cir.D - 1)
            self.run_fn("prover::V_res", [reg("ot"), reg("rt"), Ptr(("msgp", "evaluate"), ()), top, p2(top)], {})
        return self.obs


def listed(pc):
    """the gates listed under a wire: the wire is one of the layer below"""
    out = []
    todo = list(pc)
    while todo:
        c = todo.pop()
        if c[0] == "and":
            todo += list(c[1])
        elif c[0] == "not" and c[1][0] == "eq":
            a = c[1][1].single_atom()
            k = KEYS[a] if a is not None else ("",)
            if k[0] == "sel" and isinstance(k[1], tuple) and k[1][-3:] in (("u_gates", "[]", "#has"), ("v_gates", "[]", "#has")) and len(k[2]) == 2:
                w = t_.A("sel", k[1][:-3] + ("bit_length",), (k[2][0] - 1,))
                out += [t_.blt(k[2][1] - t_.p2(w)), t_.bnot(t_.blt(k[2][1]))]
    return out
