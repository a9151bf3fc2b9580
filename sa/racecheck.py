"""P01: the workers of the parallel prover do not interfere and together do all the work.

Every prover function that starts threads is interpreted with each std::thread(f, args...) as a call of f whose reads and
writes are marked as the worker's (the loop that starts the workers makes the worker's number its loop variable).
Between the start and the matching join, a location written by one worker must not be touched by another one or by the
parent.  Disjointness is shown on the index terms (own slot, block partition, stride partition); what is not shown that
way is evaluated on small layer widths, where a common index is the reported witness.
"""
import copy
import re
import term as t_
from term import A, P, PA, T, F, ZERO, ONE, KEYS, RANGES, atom, subst, p2, lift, deps_of, is_nonneg, bnot
import interp as ip
from interp import Interp, is_heap_shape
from gkr import Ob
from frontend import AnalysisError
from memcheck import Env, Unknown, Skip

THREAD = ("std::thread", "thread")


def is_fork(n):
    if n.kind in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and ip.strip(n.type or "") in THREAD:
        a = [x for x in n.inner if x is not None and x.kind != "CXXDefaultArgExpr"]
        return bool(a) and ip.strip(a[0].type or "") not in THREAD
    if n.kind == "CXXMemberCallExpr" and n.inner and n.inner[0].name in ("emplace_back", "->emplace_back") and n.inner[0].inner:
        return "vector<std::thread" in (n.inner[0].inner[0].type or "")
    return False


class Acc:
    __slots__ = ("node", "fn", "shape", "idx", "pc", "loops", "kind", "worker", "extra", "at", "ctx")

    def __init__(self, e):
        self.node, self.ctx, self.fn, p, _, self.pc, self.loops, self.kind, self.worker, self.extra, self.at = e
        self.shape, self.idx = p.shape, p.idx

    def line(self):
        n = self.at or self.node
        return (n.file, n.line) if n is not None else (self.fn.file, self.fn.line)


class RaceCheck:
    def __init__(self, prog, which):
        self.prog, self.which = prog, which
        self.obs, self.units = [], {"steps": 0, "workers": 0, "accesses": 0, "pairs": 0}

    def ob(self, id, ok, what, detail="", file=None, line=None):
        st = {True: "ok", False: "violated", None: "undecided"}[ok]
        self.obs.append(Ob("%s:race-%s" % (self.which, id), ("P01",), st, what, file, line, detail))

    # ------------------------------------------------------------ entry points
    def callees(self, fn):
        out = set()
        if fn.body is None:
            return out
        for n in fn.body.walk():
            r = n.ref or {}
            if r.get("kind") in ("FunctionDecl", "CXXMethodDecl") or n.kind == "MemberExpr" and n.ref:
                m = self.prog.resolve(fn.tu, n.ref)
                if m in self.prog.funcs:
                    out.add(m)
        return out

    def roots(self):
        forks = {m for m, f in self.prog.funcs.items() if f.body is not None and any(is_fork(n) for n in f.body.walk())}
        call = {m: self.callees(f) for m, f in self.prog.funcs.items()}
        own = {m for m, f in self.prog.funcs.items() if f.cls != "verifier" and f.qname != "main"}
        reach = set(forks)
        while True:
            more = {m for m in own if m not in reach and call[m] & reach}
            if not more:
                break
            reach |= more
        roots = [m for m in reach if not any(m in call[x] for x in reach if x != m)]
        return forks, sorted(roots, key=lambda m: self.prog.funcs[m].line), call

    def run(self):
        forks, roots, self.call = self.roots()
        for m in roots:
            fn = self.prog.funcs[m]
            self.units["steps"] += 1
            try:
                self.step(fn)
            except AnalysisError as e:
                self.ob(fn.qname.split("::")[-1], None, "the workers are followed", str(e), fn.file, fn.line)
        self.effects(forks)
        return self.obs

    # ------------------------------------------------------------ functions the workers call keep no shared state
    def effects(self, forks):
        todo, seen = set(), set()
        for m in forks:
            f = self.prog.funcs[m]
            for n in f.body.walk():
                if is_fork(n):
                    for x in n.walk():
                        r = x.ref or {}
                        if r.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                            k = self.prog.resolve(f.tu, x.ref)
                            if k in self.prog.funcs:
                                todo.add(k)
        # functions handed over by pointer: every function whose address the starting functions or their callers mention
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            todo |= self.call.get(m, set())
        self.units["worker_functions"] = len(seen)
        bad = []
        for m in sorted(seen):
            f = self.prog.funcs[m]
            if f.body is None:
                continue
            stat = {}
            for n in f.body.walk():
                if n.kind == "VarDecl" and n.extra.get("storageClass") == "static" and not re.match(r"\s*(const|constexpr)\b", n.type or "") \
                        and not n.extra.get("tls"):
                    stat[n.id] = n
            for n in f.body.walk():
                if n.kind in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr", "UnaryOperator"):
                    tgt = self.target(n)
                    if tgt is None:
                        continue
                    r = tgt.ref or {}
                    if r.get("id") in stat:
                        bad.append((f, n, "writes the static variable %s" % r.get("name")))
                    elif r.get("kind") == "VarDecl" and r.get("name") in {g.split("::")[-1] for g in self.globals()} and self.is_global(f, tgt):
                        bad.append((f, n, "writes the global variable %s" % r.get("name")))
        for f, n, d in bad:
            self.ob("effect:%s:%s" % (f.qname.split("::")[-1], d.split()[-1]), False, "functions the workers call keep no shared state", d, n.file, n.line)
        if not bad:
            f = self.prog.funcs[sorted(seen)[0]] if seen else None
            if f is not None:
                self.ob("effect", True, "functions the workers call keep no shared state (%d functions)" % len(seen), "", f.file, f.line)

    def globals(self):
        g = self.prog.globals
        return list(g.keys()) if isinstance(g, dict) and g and isinstance(next(iter(g)), str) else [getattr(x, "name", None) or "" for x in (g.values() if isinstance(g, dict) else g)]

    def is_global(self, f, n):
        ids = {x.id for x in f.body.walk() if x.kind == "VarDecl"}
        return (n.ref or {}).get("id") not in ids

    def target(self, n):
        if n.kind == "UnaryOperator" and n.op not in ("++", "--"):
            return None
        if n.kind == "BinaryOperator" and n.op != "=":
            return None
        xs = [x for x in n.inner if x is not None]
        if n.kind == "CXXOperatorCallExpr":
            nm = [(y.ref or {}).get("name") or y.name for y in xs[0].walk() if y.kind == "DeclRefExpr"]
            if not nm or nm[0] not in ("operator=", "operator+=", "operator-=", "operator*=", "operator++"):
                return None
            xs = xs[1:]
        x = xs[0] if xs else None
        while x is not None:
            if x.kind == "DeclRefExpr":
                return x
            if x.kind in ("MemberExpr", "ArraySubscriptExpr", "ParenExpr", "ImplicitCastExpr"):
                if x.kind == "MemberExpr" and x.extra.get("isArrow"):
                    return None
                if x.kind == "ImplicitCastExpr" and (x.extra.get("castKind") == "LValueToRValue"):
                    return None
                x = x.inner[0] if x.inner else None
                continue
            return None
        return None

    # ------------------------------------------------------------ one fork-join step
    def step(self, fn):
        name = fn.qname.split("::")[-1]
        self.update = not name.endswith("init")
        Interp.rw_log = []
        try:
            I = Interp(self.prog)
            I.run(fn)
        finally:
            Interp.rw_log = None
        self.I = I
        accs = [Acc(e) for e in I.accs]
        self.units["accesses"] += len(accs)
        pending = {}                    # worker site -> group
        groups = []
        unknown = False
        for a in accs:
            if a.kind == "fork" and not a.worker:
                g = Group(a, len(groups))
                g.with_ = list(pending.values())
                pending[a.extra[0]] = g
                groups.append(g)
            elif a.kind == "unknown":
                unknown = True
            elif a.kind == "detach" and not a.worker:
                self.ob("%s:detach" % name, False, "every worker is joined before the step ends", "a worker is detached", *a.line())
            elif a.kind == "join" and not a.worker:
                self.join(name, a, pending)
            elif a.kind in ("r", "w"):
                if isinstance(a.extra, tuple) and a.extra[:1] == ("key",):
                    if a.extra[1] is not None and self.holds(a.pc, a.extra[1]):
                        continue                # the key is known to be there
                    a.extra = None
                if a.kind == "w" and isinstance(a.extra, tuple) and not a.worker:
                    for g in groups:
                        if g.site == a.extra and g.box is None:
                            g.box = base(a.shape)
                if a.worker:
                    for g in reversed(groups):
                        if g.site == a.worker[0]:
                            if not self.private(a, g):
                                g.accs.append(a)
                            break
                else:
                    for g in pending.values():
                        g.parent.append(a)
        self.units["workers"] += len(groups)
        if unknown:
            self.ob("%s:workers" % name, None, "what the workers run is known", "", fn.file, fn.line)
        for g in pending.values():
            self.ob("%s:joined" % name, False, "every worker is joined before the step ends", "no join follows this start", *g.fork.line())
        if groups and not pending:
            self.ob("%s:joined" % name, True, "every worker is joined before the step ends", "", fn.file, fn.line)
        for g in groups:
            self.conflicts(name, g)
            self.parent(name, g)
            for h in g.with_:
                self.cross(name, g, h)
            self.coverage(name, g)
            self.collected(name, g, accs)

    def holds(self, pc, c):
        todo = list(pc)
        while todo:
            x = todo.pop()
            if x == c:
                return True
            if isinstance(x, tuple) and x[0] == "and":
                todo += list(x[1])
        return False

    def private(self, a, g):
        """made by the worker itself, or its own copy of a captured variable"""
        s = a.shape
        if not s:
            return True
        wctx = g.site[0] + (g.site[1],)
        if s[0] in ("L", "T") and len(s) > 1:
            if tuple(s[1][:len(wctx)]) == wctx:
                return True
            return len(s) > 2 and s[0] == "L" and s[2] in g.byval
        if is_heap_shape(s):
            return tuple(s[0][1][0][:len(wctx)]) == wctx
        return False

    def join(self, name, j, pending):
        jb = base(j.extra) if j.extra else None
        cand = [w for w, g in pending.items() if g.box is not None and g.box == jb]
        sure = bool(cand)
        cand = cand or list(pending)
        if len(cand) > 1 and not sure:
            raise AnalysisError("which workers are joined at line %s is not known" % j.line()[1])
        for w in cand:
            g = pending[w]
            lf, lj = g.fork.loops, j.loops
            k = 0
            while k < len(lf) and k < len(lj) and lf[k] == lj[k]:
                k += 1
            rf, rj = lf[k:], lj[k:]
            pending.pop(w)
            self.all_joined(name, g, j, rf, rj)
            if not rf and not rj:
                g.single = True             # joined in the same iteration: one worker at a time
            elif len(rf) == 1 and len(rj) == 1:
                a, b = self.I.loops.get(rf[0]), self.I.loops.get(rj[0])
                if a is not None and b is not None and a.affine and b.affine and isinstance(a.hi, P) and isinstance(b.hi, P):
                    na, nb = a.hi - a.lo, b.hi - b.lo
                    if (na - nb).is_const() and not (na - nb).is_zero():
                        self.ob("%s:join-count" % name, False, "as many workers are joined as were started", "%s started, %s joined" % (na, nb), *j.line())

    def numbers(self, a, loops, inst):
        """the worker numbers an event happens for"""
        x = copy.copy(a)
        x.idx, x.loops = tuple(PA(atom("bv", L)) for L in loops), a.loops
        return {q for ps in RaceEnv(self, inst).positions(None, x, True).values() for q in ps}

    def all_joined(self, name, g, j, rf, rj):
        if len(rf) != 1 or len(rj) != 1:
            return
        for inst in self.instances():
            try:
                miss = self.numbers(g.fork, rf, inst) - self.numbers(j, rj, inst)
            except (Unknown, Skip):
                continue
            if miss:
                self.ob("%s:join-count" % name, False, "as many workers are joined as were started", "with %s worker %s is not joined" % (inst_text(inst), sorted(miss)[-1][0]), *j.line())
                return

    # ------------------------------------------------------------ conflicts
    def describe(self, a):
        return "%s (%s, line %s)" % ("/".join(str(x) for x in a.shape[1:] if isinstance(x, str) and x != "[]") or a.shape[-1], {"r": "read", "w": "written"}[a.kind], a.line()[1])

    def classes(self, accs):
        """one representative per (kind, location term, loop bounds, conditions)"""
        seen, out = set(), []
        for a in accs:
            k = (a.kind, a.shape, a.idx, a.loops, tuple(sorted(map(repr, a.pc))))
            if k not in seen:
                seen.add(k)
                out.append(a)
        return out

    def conflicts(self, name, g):
        if g.single or g.loop is None:
            return
        by = {}
        for a in self.classes(g.accs):
            by.setdefault(a.shape, []).append(a)
        for shape, xs in sorted(by.items(), key=lambda kv: str(kv[0])):
            ws = [a for a in xs if a.kind == "w"]
            if not ws:
                continue
            bad = und = None
            done = set()
            for w in ws:
                for x in xs:
                    k = (w.idx, w.loops, x.idx, x.loops)
                    if k in done:
                        continue
                    self.units["pairs"] += 1
                    if self.disjoint(g, w, x):
                        done.add(k)
                        continue
                    r = self.meet(g, w, x)
                    if r:
                        bad = (w, x, r)
                        break
                    und = (w, x)
                if bad:
                    break
            nm = nm_of(shape)
            id = "%s:%d:%s" % (name, g.no, nm)
            what = "no two workers use the same position of %s while one of them writes it" % nm
            if bad:
                w, x, r = bad
                self.ob(id, False, what, "%s and %s: %s" % (self.describe(w), self.describe(x), r), *w.line())
            elif und:
                self.ob(id, None, what, "%s and %s" % (self.describe(und[0]), self.describe(und[1])), *und[0].line())
            else:
                self.ob(id, True, what, "", *ws[0].line())

    def parent(self, name, g):
        """what the starting thread touches between start and join"""
        by = {}
        for a in g.accs:
            by.setdefault(a.shape, []).append(a)
        done = set()
        for a in g.parent:
            for x in by.get(a.shape, ()):
                if "w" not in (a.kind, x.kind):
                    continue
                if a.shape in done:
                    break
                # positions of the two: the parent's term has its own loop variables
                e = RaceEnv(self)
                same = all((p - q).is_zero() for p, q in zip(a.idx, x.idx)) if len(a.idx) == len(x.idx) else False
                r = "same position" if same else self.meet(g, a, x, parent=True)
                if r:
                    done.add(a.shape)
                    self.ob("%s:%d:parent:%s" % (name, g.no, nm_of(a.shape)), False, "the starting thread leaves the workers' data alone until they are joined",
                            "%s while a worker runs that has it %s: %s" % (self.describe(a), self.describe(x), r), *a.line())
                    break

    def cross(self, name, g, h):
        by = {}
        for a in h.accs:
            by.setdefault(a.shape, []).append(a)
        for a in self.classes(g.accs):
            for x in by.get(a.shape, ()):
                if "w" in (a.kind, x.kind):
                    r = self.meet(g, a, x, parent=True)
                    if r:
                        self.ob("%s:%d:group:%s" % (name, g.no, nm_of(a.shape)), False, "workers started before the earlier ones are joined use other data",
                                "%s and %s: %s" % (self.describe(a), self.describe(x), r), *a.line())
                        return

    # ------------------------------------------------------------ disjointness on terms
    def loop_of(self, b):
        k = KEYS[b]
        return self.I.loops.get(k[1]) if k[0] == "bv" else None

    def disjoint(self, g, w, x):
        if len(w.idx) != len(x.idx):
            return False
        t = g.bv
        L = self.I.loops.get(g.loop)
        if L is None or not L.affine:
            return False
        for p, q in zip(w.idx, x.idx):
            if not isinstance(p, P) or not isinstance(q, P):
                continue
            if p == q and (p - PA(t)).is_const():
                return True                      # own slot
            if self.stride(g, L, p, q):
                return True
            a, b = self.block(g, p), self.block(g, q)
            if a is not None and b is not None and self.apart(g, a, b):
                return True
        return False

    def stride(self, g, L, p, q):
        n = L.hi - L.lo
        if not n.is_const():
            return False
        n = n.const()
        for y in (p, q):
            for m, c in y.t.items():
                if m == ((g.bv, 1),):
                    if c != 1:
                        return False
                elif g.bv in {a for a, _ in m} or (m != () and (getattr(c, "denominator", 1) != 1 or c % n)):
                    return False
            if ((g.bv, 1),) not in y.t:
                return False
        return (p.const() - q.const()) % n == 0

    def block(self, g, p):
        """(lo, hi) with lo <= p < hi in terms of the worker's number"""
        if len(p.t) == 1 or (len(p.t) == 2 and () in p.t):
            vs = [m for m in p.t if m != ()]
            if len(vs) == 1 and len(vs[0]) == 1 and vs[0][0][1] == 1 and p.t[vs[0]] == 1:
                a = vs[0][0][0]
                L = self.loop_of(a)
                if L is not None and L.affine and a != g.bv and isinstance(L.lo, P) and isinstance(L.hi, P):
                    c = lift(p.const())
                    return L.lo + c, L.hi + c
        return None

    def split(self, xs):
        """cases of the truth of the conditions the terms depend on: (terms, expressions known to be >= 0)"""
        out = [(list(xs), [])]
        for _ in range(6):
            nxt, again = [], False
            for ys, kn in out:
                c = None
                for y in ys:
                    for a in sorted(y.deps()):
                        if KEYS[a][0] == "ind":
                            c = a
                            break
                    if c is not None:
                        break
                if c is None:
                    nxt.append((ys, kn))
                    continue
                again = True
                cond = KEYS[c][1]
                for v, k in ((1, cond), (0, bnot(cond))):
                    mp = {c: lift(v)}
                    e = self.known(k)
                    zs = [subst(y, mp) for y in ys]
                    kk = [subst(y, mp) for y in kn] + e
                    zs = [self.zero(y, k) for y in zs]
                    nxt.append((zs, [self.zero(y, k) for y in kk]))
            out = nxt
            if not again:
                break
        return out

    def known(self, c):
        if c[0] == "lt":
            return [-c[1] - 1]
        if c[0] == "eq":
            return [c[1], -c[1]]
        if c[0] == "not" and c[1][0] == "eq":
            e = c[1][1]
            if is_nonneg(e):
                return [e - 1]
        if c[0] == "and":
            return [y for x in c[1] for y in self.known(x)]
        return []

    def zero(self, y, c):
        if c[0] == "eq" and c[1].single_atom() is not None:
            return subst(y, {c[1].single_atom(): ZERO})
        return y

    def apart(self, g, a, b):
        """blocks of different workers do not overlap: both start at t*B and end at most at (t+1)*B"""
        t = g.bv
        for (lo1, hi1, lo2, hi2), kn in self.split([a[0], a[1], b[0], b[1]]):
            B = self.coeff(lo1, t)
            if B is None or not (lo1 - PA(t) * B).is_zero() or not (lo2 - PA(t) * B).is_zero() or not is_nonneg(B):
                return False
            for hi in (hi1, hi2):
                d = (PA(t) + 1) * B - hi
                if not (is_nonneg(d) or any(is_nonneg(d - k) for k in kn)):
                    return False
        return True

    def coeff(self, x, t):
        out = {}
        for m, c in x.t.items():
            if dict(m).get(t) == 1:
                out[tuple((a, e) for a, e in m if a != t)] = c
        return P(out) if out else None

    # ------------------------------------------------------------ small widths
    def meet(self, g, w, x, parent=False):
        """a width and two different workers (or a worker and the parent) at the same position"""
        if len(w.idx) != len(x.idx):
            return None
        if not w.idx and not w.pc and not x.pc:
            return "the same variable"
        for inst in self.instances():
            try:
                sw = self.positions(g, w, inst)
                sx = self.positions(g, x, inst)
            except (Unknown, Skip):
                continue
            for ta, pa in sw.items():
                for tb, pb in sx.items():
                    if (ta != tb or parent) and pa & pb:
                        z = sorted(pa & pb)[0]
                        return "workers %s and %s at position %s with %s" % (ta, tb, ",".join(map(str, z)) or "-", inst_text(inst)) if not parent else "position %s with %s" % (",".join(map(str, z)) or "-", inst_text(inst))
        return None

    def instances(self):
        for lg, lu in ((1, 1), (2, 2), (3, 3), (1, 3), (3, 1), (4, 4), (5, 4)):
            yield {"g": lg, "u": lu}

    def positions(self, g, a, inst, sure=False):
        e = RaceEnv(self, inst)
        return e.positions(g, a, sure)

    # ------------------------------------------------------------ every position is somebody's
    def coverage(self, name, g):
        if g.single or len(g.fork.loops) != 1:
            return
        seen = {}
        for a in self.classes(g.accs):
            if a.kind == "w" and a.idx and any(self.block(g, p) is not None or self.strided(g, p) for p in a.idx[-1:]):
                seen.setdefault(a.shape, []).append(a)
        for shape, ws in sorted(seen.items(), key=lambda kv: str(kv[0])):
            nm = "/".join(str(y) for y in shape[1:] if isinstance(y, str) and y != "[]")
            ok, det, n = True, "", 0
            for inst in self.instances():
                got, sure = set(), set()
                try:
                    for w in ws + [a for a in g.parent if a.kind == "w" and a.shape == shape]:
                        for t, ps in self.positions(g, w, inst).items():
                            got |= {p[-1] for p in ps}
                        for t, ps in self.positions(g, w, inst, True).items():
                            sure |= {p[-1] for p in ps}
                except (Unknown, Skip):
                    continue
                n += 1
                want = [set(range(k)) for k in self.wanted(inst)]
                if not any(k <= got and sure <= k for k in want):
                    k = min(want, key=lambda z: len(z - got) + len(sure - z))
                    ok, det = False, "with %s positions %s are not written" % (inst_text(inst), sorted(k - got)[:4]) if k - got else "with %s position %s is beyond the table" % (inst_text(inst), max(sure))
                    break
            if ok and not n:
                continue
            self.ob("%s:%d:cover:%s" % (name, g.no, nm), ok, "the workers together write every position of %s" % nm, det, *ws[0].line())

    def strided(self, g, p):
        return ((g.bv, 1),) in p.t and len(p.t) >= 2 and p.t[((g.bv, 1),)] == 1

    def wanted(self, inst):
        g, u = 1 << inst["g"], 1 << inst["u"]
        if self.update:
            return [u >> 1]
        return [g, u]

    def collected(self, name, g, accs):
        """partial results, one per worker, are all used"""
        if g.single or g.loop is None:
            return
        own = {a.shape for a in g.accs if a.kind == "w" and len(a.idx) == 1 and a.idx[0] == PA(g.bv)}
        L = self.I.loops[g.loop]
        done = set()
        after = False
        for a in accs:
            if a.kind == "fork" and a is g.fork:
                after = True
            if not after or a.worker or a.kind != "r" or a.shape not in own or a.shape in done or len(a.idx) != 1:
                continue
            b = a.idx[0].single_atom() if isinstance(a.idx[0], P) else None
            M = self.loop_of(b) if b is not None else None
            if M is None or not M.affine:
                continue
            done.add(a.shape)
            nm = "/".join(str(y) for y in a.shape[1:] if isinstance(y, str) and y != "[]")
            ok, det, n = True, "", 0
            for inst in self.instances():
                try:
                    start = self.numbers(g.fork, [g.loop], inst)
                    mine = {p for w in accs if w.kind == "w" and not w.worker and w.shape == a.shape for p in self.rows(w, inst)}
                    used = self.rows(a, inst)
                except (Unknown, Skip):
                    continue
                n += 1
                if start - used:
                    ok, det = False, "with %s the result of worker %s is not used" % (inst_text(inst), sorted(start - used)[0][0])
                elif used - start - mine:
                    ok, det = False, "with %s the result of worker %s is used, which was not started" % (inst_text(inst), sorted(used - start - mine)[0][0])
                if not ok:
                    break
            self.ob("%s:%d:collect:%s" % (name, g.no, nm), ok if n else None, "the partial results of all workers are used", det, *a.line())

    def rows(self, a, inst):
        return {q for ps in RaceEnv(self, inst).positions(None, a, False).values() for q in ps}


def inst_text(inst):
    return "%d gates over %d" % (1 << inst["g"], 1 << inst["u"])


def base(shape):
    s = tuple(shape)
    while s and s[-1] in ("[]", "#size"):
        s = s[:-1]
    return s


def nm_of(shape):
    return "/".join(str(y) for y in shape[1:] if isinstance(y, str) and y != "[]") or "table"


class Group:
    def __init__(self, f, no):
        self.fork, self.no = f, no
        self.site, self.byval = f.extra
        self.loop = f.loops[-1] if f.loops else None
        self.bv = atom("bv", self.loop) if self.loop else None
        self.accs, self.parent, self.with_ = [], [], []
        self.single = False
        self.box = None                         # where its threads are kept


class RaceEnv(Env):
    """one small layer: 2^g gates over 2^u values; wires range over everything"""
    def __init__(self, rc, inst=None):
        self.rc, self.inst = rc, inst or {}
        self.val, self.n = {}, 0
        self.mc = None

    sure = False

    def positions(self, g, a, sure=False):
        """worker number -> set of positions (sure: only where every condition is known to hold)"""
        self.sure = sure
        out = {}
        todo = []
        need = [b for p in a.idx for b in sorted(p.deps())]
        need += [b for c in a.pc for b in sorted(deps_of(c)) if b not in need]
        L = self.rc.I.loops.get(g.loop) if g is not None and g.loop else None
        loops = [k for k in a.loops]
        self.vars_ = [(atom("bv", k), self.rc.I.loops.get(k)) for k in loops]
        self.wires = list(dict.fromkeys(b for b in need if self.is_wire(KEYS[b])))[:2]
        for b, R in self.vars_:
            if R is None or not R.affine:
                raise Unknown("loop")
        self.enum(0, a, g, out)
        return out

    def is_wire(self, k):
        return k[0] == "sel" and isinstance(k[1], tuple) and "circuit" in k[1] and k[1][-1] not in ("bit_length", "total_depth", "ty", "#size")

    def enum(self, q, a, g, out):
        self.n += 1
        if self.n > 60000:
            raise Unknown("size")
        if q < len(self.vars_):
            b, R = self.vars_[q]
            try:
                lo, hi = self.ev(R.lo), self.ev(R.hi)
            except Unknown:
                if b == (g.bv if g else None):
                    raise
                lo, hi = 0, 1                    # a loop over what the file holds
            for v in range(lo, min(hi, lo + 70)):
                self.val[b] = v
                self.enum(q + 1, a, g, out)
            self.val.pop(b, None)
            return
        if q < len(self.vars_) + len(self.wires):
            b = self.wires[q - len(self.vars_)]
            for v in range(1 << max(self.inst["g"], self.inst["u"]) if len(self.wires) < 2 else 4):
                self.val[b] = v
                self.enum(q + 1, a, g, out)
            self.val.pop(b, None)
            return
        for c in a.pc:
            try:
                if not self.cond(c):
                    return
            except (Unknown, Skip):
                if self.sure:
                    return
        t = self.val.get(g.bv) if g is not None and g.bv is not None else None
        out.setdefault(t, set()).add(tuple(self.ev(p) for p in a.idx))

    def atom(self, a):
        if a in self.val:
            return self.val[a]
        k = KEYS[a]
        if k[0] == "sel" and isinstance(k[1], tuple):
            f = k[1][-1]
            if f == "length_g":
                return self.inst["g"]
            if f in ("length_u", "length_v"):
                return self.inst["u"]
            if f == "bit_length" and len(k[2]) == 1:
                lid = [b for b in k[2][0].atoms() if KEYS[b][0] == "sel" and KEYS[b][1][-1] == "sumcheck_layer_id"]
                d = k[2][0] - PA(lid[0]) if lid else None
                if d is not None and d.is_const():
                    return self.inst["g"] if d.const() == 0 else self.inst["u"]
            if f in ("total_uv", "output_size"):
                return 1 << self.inst["u"]
            if f in ("r_0_size",):
                return self.inst["u"]
            if f in ("sumcheck_layer_id",):
                return 2
        if k[0] == "div":
            return self.ev(k[1]) // self.ev(k[2])
        if k[0] not in ("p2", "shr", "low", "bit", "bor", "bxor", "bitlen", "ind"):
            raise Unknown(str(k)[:80])
        return Env.atom(self, a)
