"""G02: bin/gen writes well-formed circuits.

The generator is interpreted once per mode with its parameters symbolic. What it prints becomes a tree of
numbers (printf sites under summarised loops); the tree is parsed by the circuit-file grammar
    depth, then per layer: width, then per gate: type, number, left wire, right wire
with the running gate number as a polynomial in the parameters and loop counters.
"""
import itertools
import re
from fractions import Fraction
import term as t_
from term import A, P, PA, T, F, ZERO, ONE, KEYS, RANGES, atom, lift, p2, subst, is_pos, log2_mono
from interp import Interp, LV, Str, strval, Ptr
from gkr import Ob
from frontend import AnalysisError

# mode: its parameters (argument number: smallest value, power of two?)
MODES = {0: {2: (2, False), 3: (1, False)}, 1: {2: (2, False), 3: (6, False)}, 2: {2: (0, True)}, 4: {2: (0, True)}, 5: {2: (2, False), 3: (0, False)}}
META = (1, 2)
PIECE = re.compile(r"%[-+ 0#]*\d*(?:hh|h|ll|l|j|z|t)?([a-zA-Z%])|(-?\d+)|(\s+)|(.)", re.S)
SILENT = {"sscanf", "rand", "srand", "fopen", "fclose", "fflush", "resize", "time", "assert", "__assert_fail", "size", "fprintf", "printf", "exit", "reserve",
          "__builtin_popcount", "__builtin_popcountll", "push_back", "atoi", "atol", "atoll", "stoi", "strtol", "setvbuf"}
NEVER_GATE = (2, 3)


class Undecided(Exception):
    def __init__(self, why, line=None):
        Exception.__init__(self, why)
        self.line = line


class Broken(Exception):
    def __init__(self, rule, why, line=None):
        Exception.__init__(self, why)
        self.rule, self.line = rule, line


class Loop:
    def __init__(self, key, bv, lo, hi, line):
        self.key, self.bv, self.lo, self.hi, self.line, self.body, self.down = key, bv, lo, hi, line, [], False

    def nth(self):
        return self.hi - 1 - PA(self.bv) if self.down else PA(self.bv) - self.lo


class Lay:
    """a layer: its width and, per site that writes gates of it, gate number and wires"""
    def __init__(self, w, gates):
        self.w, self.gates = w, gates


class Tok:
    def __init__(self, v, line, cond=None):
        self.v, self.line, self.cond = v, line, cond      # cond: 1 where the number is written, 0 where not


class GenCheck:
    def __init__(self, prog):
        self.prog = prog
        self.fn = prog.func("main")
        self.obs = []
        self.units = {"entry": "main", "modes": {}}

    # ------------------------------------------------------------ one mode's output
    def mode(self, mode):
        def param(k):
            lo, pow2 = MODES[mode].get(k, (0, False))
            return p2(A("nm1", (k,))) if pow2 else A("nm1", (k,)) + lo

        def arg(v):
            if isinstance(v, Ptr):
                s = repr(v)
                m = re.search(r"argv.*\[(\d+)\][^\[\]]*$", s)
                if m:
                    return int(m.group(1))
            return None

        def value(k):
            return lift(mode) if k == 1 else param(k)

        def scan(I, name, vals, outs, st, n, ev):
            if name != "sscanf" or len(vals) < 3 or len(outs) < 3 or outs[2] is None:
                return None
            k = arg(vals[0])
            f = strval(vals[1].s) if isinstance(vals[1], Str) else None
            if k is None or f is None or f.strip() not in ("%d", "%lld", "%ld", "%i", "%u"):
                return None
            I.store(st, outs[2], value(k), n)
            return ONE
        def number(I, vals, args, st):
            k = arg(vals[0]) if vals else None
            if k is None and args and args[0] is not None and not any(
                    x.kind in ("CXXOperatorCallExpr", "BinaryOperator", "CXXMemberCallExpr", "CallExpr") for x in args[0].walk()):
                # std::stoi(argv[k]): the argument is a std::string made from the char pointer
                for x in args[0].walk():
                    if x.kind == "ArraySubscriptExpr":
                        k = arg(I.ev(x, st))
                        break
            return None if k is None else value(k)
        self.I = I = Interp(self.prog, inst=True, hooks={"scan": scan, "number": number})
        I.run(self.fn, args=[lift(1 + max(MODES[mode]))] if self.fn.params else None)
        # counters halved or doubled by every iteration
        self.closed = {}
        for key, rec in I.loops.items():
            if not rec.affine:
                continue
            b = rec.bv if isinstance(rec.bv, P) else PA(rec.bv)
            for shp, (init, nxt) in (rec.phis or {}).items():
                if not isinstance(init, P) or not isinstance(nxt, P):
                    continue
                ph = [a for a in nxt.deps_atoms() if self.is_phi(a, key, shp)] if hasattr(nxt, "deps_atoms") else [a for a in alldeps(nxt) if self.is_phi(a, key, shp)]
                e = log2_mono(init)
                if len(ph) != 1 or e is None:
                    continue
                x = PA(ph[0])
                for s in (1, 2, 3):
                    if nxt == t_.shr(x, s):
                        self.closed[ph[0]] = p2(e - (b - rec.lo) * s)
                    elif nxt == x * 2 ** s:
                        self.closed[ph[0]] = p2(e + (b - rec.lo) * s)
        # counters advanced by the same amount in every iteration
        for _ in range(3):
            for key, rec in I.loops.items():
                if not rec.affine or rec.breaks or rec.step != 1:
                    continue
                b = rec.bv if isinstance(rec.bv, P) else PA(rec.bv)
                lo, hi = self.norm(rec.lo), self.norm(rec.hi)
                for shp, (init, nxt) in (rec.phis or {}).items():
                    pa = atom("phi", key, shp)
                    if not isinstance(init, P) or not isinstance(nxt, P) or pa in self.closed:
                        continue
                    i0, d = self.norm(init), self.norm(nxt) - PA(pa)
                    if any(KEYS[a][0] == "phi" and KEYS[a][1] == key for a in alldeps(d)) or b.single_atom() in alldeps(d):
                        continue
                    self.closed[pa] = i0 + (b - lo) * d
                    if is_pos(hi - lo + 1) or log2_mono(hi - lo) is not None:
                        self.closed[atom("out", key, shp)] = i0 + (hi - lo) * d
        self.bounds = {}
        return I

    @staticmethod
    def is_phi(a, key, shp):
        k = KEYS[a]
        return k[0] == "phi" and k[1] == key and k[2] == shp

    def norm(self, p):
        for _ in range(4):
            q = subst(p, self.closed) if self.closed else p
            d = {}
            for a in alldeps(q):
                k = KEYS[a]
                if k[0] == "div" and len(k) == 3:
                    x, y = log2_mono(lift(k[1])), log2_mono(lift(k[2]))
                    if x is not None and y is not None and is_pos(x - y + 1):
                        d[a] = p2(x - y)
            if d:
                q = subst(q, d)
            if q == p:
                break
            p = q
        return p

    def streams(self, I):
        """the numbers written to standard output, and to any other file, as trees"""
        out, other = [], []
        so, sx = [], []
        glue = {id(out): True, id(other): True}
        def place(tree, stack, loops, toks):
            line = toks[0].line
            d = 0
            while d < len(stack) and d < len(loops) and stack[d].key == loops[d]:
                d += 1
            del stack[d:]
            for key in loops[d:]:
                rec = I.loops.get(key)
                if rec is None or not rec.affine or rec.breaks or rec.step not in (1, -1):
                    raise Undecided("loop around an output is not counted", line)
                b = rec.bv if not isinstance(rec.bv, P) else rec.bv.single_atom()
                L = Loop(key, b, self.norm(rec.lo), self.norm(rec.hi), rec.line)
                L.down = rec.step == -1
                self.bounds[b] = (L.lo, L.hi)
                (stack[-1].body if stack else tree).append(L)
                stack.append(L)
            (stack[-1].body if stack else tree).extend(toks)

        pends = {id(out): [], id(other): []}

        def flush(tree, stack):
            pend = pends[id(tree)]
            if not pend:
                return
            loops, groups = pend
            pends[id(tree)] = []
            line = groups[0][1][0].line
            if len(groups) == 1 and len(groups[0][1]) == 4 and loops and tree is out:
                for t in groups[0][1]:
                    t.cond = self.norm(t_.ind(groups[0][0]))
                place(tree, stack, loops, groups[0][1])
                return
            un = t_.bor_([c for c, _ in groups])
            if len(groups) < 2 or un != T or any(t_.band_([a, b]) != F for (a, _), (b, _) in itertools.combinations(groups, 2)) or len({len(t) for _, t in groups}) != 1:
                raise Undecided("output under a condition", line)
            toks = groups[-1][1]
            for c, ts in reversed(groups[:-1]):
                toks = [Tok(None if a.v is None or b.v is None else self.norm(t_.ite(c, a.v, b.v)), a.line) for a, b in zip(ts, toks)]
            place(tree, stack, loops, toks)

        for e in sorted(I.events, key=lambda e: e.seq):
            if e.kind not in ("call", "opcall", "opaque", "mcall", "pcall"):
                continue
            if e.kind == "opcall" or (e.kind in ("opaque", "pcall")):
                raise Undecided("output may be written by %s" % (e.name,), e.line)
            if e.name not in SILENT and e.kind == "call":
                x = e.args[0] if e.args else None
                if (isinstance(x, P) and x.is_const() and x.const() in (9, 10, 13, 32)) or (isinstance(x, Str) and not (strval(x.s) or "x").strip()):
                    if e.name in ("puts", "putchar"):
                        glue[id(out)] = True
                        continue
                    if e.name in ("fputs", "fputc", "putc") and len(e.args) > 1:
                        glue[id(out if "stdout" in repr(e.args[1]) else other)] = True
                        continue
                if e.name in ("puts", "putchar", "fputs", "fputc", "putc"):
                    raise Undecided("output written by %s" % e.name, e.line)
                raise Undecided("call of %s" % e.name, e.line)
            if e.name not in ("printf", "fprintf") or e.pc == F:
                continue
            args = list(e.args)
            tree, stack = out, so
            if e.name == "fprintf":
                if "stdout" in repr(args[0]):
                    pass
                elif "stderr" in repr(args[0]):
                    continue
                else:
                    tree, stack = other, sx
                args = args[1:]
            f = strval(args[0].s) if args and isinstance(args[0], Str) else None
            if f is None:
                raise Undecided("format of an output is not a constant", e.line)
            toks, k, open_ = [], 1, glue[id(tree)]
            for cv, num, ws, oth in PIECE.findall(f):
                if ws:
                    open_ = True
                    continue
                if oth or cv == "%":
                    raise Undecided("text in the output", e.line)
                if not open_:
                    raise Undecided("numbers written without a blank between them", e.line)
                open_ = False
                if num:
                    toks.append(Tok(lift(int(num)), e.line))
                    continue
                if k >= len(args) or cv not in "diu":
                    raise Undecided("conversion %%%s" % cv, e.line)
                v = args[k]
                k += 1
                toks.append(Tok(self.norm(v) if isinstance(v, P) else None, e.line))
            glue[id(tree)] = open_
            if not toks:
                continue
            pend = pends[id(tree)]
            if pend and (pend[0] != list(e.loops) or e.pc == T):
                flush(tree, stack)
            if e.pc != T:
                pend = pends[id(tree)]
                if not pend:
                    pend += [list(e.loops), []]
                if pend[1] and pend[1][-1][0] == e.pc:
                    pend[1][-1][1].extend(toks)
                else:
                    pend[1].append((e.pc, toks))
                continue
            place(tree, stack, e.loops, toks)
        flush(out, so)
        flush(other, sx)
        return out, other

    def splits(self, trees):
        """the trees under every combination of the conditions on parameters that values in them depend on"""
        def walk(items):
            for x in items:
                if isinstance(x, Loop):
                    yield x.lo
                    yield x.hi
                    yield from walk(x.body)
                elif x.v is not None:
                    yield x.v
                    if x.cond is not None:
                        yield x.cond
        todo = [([], trees, self.bounds, {})]
        for _ in range(3):
            nxt = []
            for asm, ts, bounds, shift in todo:
                c = None
                for t in ts:
                    for v in walk(t):
                        for a in alldeps(v):
                            k = KEYS[a]
                            if k[0] == "ind" and k[1][0] in ("lt", "eq") and isinstance(k[1][1], P) and all(KEYS[z][0] in ("nm1", "p2") for z in alldeps(k[1][1])):
                                if c is None or a < c:
                                    c = a
                if c is None:
                    nxt.append((asm, ts, bounds, shift))
                    continue
                for val, par, x in self.regions(c):
                    # counters of this case have ranges of their own
                    ren = {} if par is None else {par: x}

                    def sb(p):
                        return self.norm(subst(subst(p, {c: lift(val)}), ren))
                    nb, left = {}, list(bounds)
                    while left:
                        b = next((b for b in left if not any(z in alldeps(y) for y in bounds[b] for z in left if z != b)), None)
                        if b is None:
                            raise Undecided("ranges of the loops")
                        left.remove(b)
                        z = atom("bvtmp", ("gen", len(RANGES), KEYS[b][1]))
                        RANGES[z] = nb[z] = (sb(bounds[b][0]), sb(bounds[b][1]))
                        ren[b] = PA(z)

                    def cp(items):
                        r = []
                        for x in items:
                            if isinstance(x, Loop):
                                y = Loop(x.key, ren[x.bv].single_atom(), sb(x.lo), sb(x.hi), x.line)
                                y.down, y.body = x.down, cp(x.body)
                            else:
                                y = Tok(None if x.v is None else sb(x.v), x.line, None if x.cond is None else sb(x.cond))
                            r.append(y)
                        return r
                    sh = dict(shift)
                    if par is not None:
                        sh[par] = sh.get(par, 0) + (x - PA(par)).const() if not x.is_const() else 0
                    nxt.append(([(self.bsub(w, par, x), y) for w, y in asm] + ([(KEYS[c][1], bool(val))] if par is None else []), [cp(t) for t in ts], nb, sh))
            todo = nxt
        for asm, ts, bounds, self.shift in todo:
            self.assume, self.bounds = asm, bounds
            if asm:
                # cases no parameters fall into
                if not any(True for _ in self.points(ZERO)):
                    continue
            yield ts

    @staticmethod
    def bsub(c, par, x):
        return c if par is None else (c[0], subst(c[1], {par: x}))

    @staticmethod
    def regions(c):
        """the cases of a condition: its truth, and the parameter it bounds with what to write for it (its lower values one by one)"""
        cond = KEYS[c][1]
        p = cond[1]
        pars = {a for a in alldeps(p) if KEYS[a][0] == "nm1"}
        if len(pars) == 1 and cond[0] == "lt":
            a, = pars
            cs = [k for m, k in p.t.items() if m]
            up = all(k > 0 for k in cs) and all(e > 0 for m in p.t for _, e in m) and all(KEYS[z][0] in ("nm1", "p2") and (KEYS[z][0] == "nm1" or KEYS[z][1] == PA(a)) for m in p.t for z, _ in m)
            dn = all(k < 0 for k in cs) and all(e > 0 for m in p.t for _, e in m) and all(KEYS[z][0] in ("nm1", "p2") and (KEYS[z][0] == "nm1" or KEYS[z][1] == PA(a)) for m in p.t for z, _ in m)
            if up or dn:
                # true below a number (up), or from a number on (dn)
                for n in range(17):
                    if evalb(cond, {a: n}) is (not up):
                        return [(1 if up else 0, a, lift(j)) for j in range(n)] + [(0 if up else 1, a, PA(a) + n)]
        return [(1, None, None), (0, None, None)]

    # ------------------------------------------------------------ deciding signs
    def extremes(self, p):
        """p with every loop counter at its ends, or None"""
        for _ in range(12):
            bs = [b for b in self.bounds if b in alldeps(p)]
            if not bs:
                return [p]
            # innermost: no other counter's range depends on it
            inner = [b for b in bs if not any(b in alldeps(x) for c in bs if c != b for x in self.bounds[c])]
            if not inner:
                return None
            b = inner[0]
            lo, hi = self.bounds[b]
            z = atom("p2", PA(b))
            ex, lin = set(), True
            for m in p.t:
                d = dict(m)
                ex.add((d.get(b, 0), d.get(z, 0)))
                if any(b in alldeps(PA(a)) for a in d if a not in (b, z)):
                    return None
            if all(x[1] == 0 for x in ex):
                if max(x[0] for x in ex) > 1:
                    return None
            elif all(x[0] == 0 for x in ex):
                if max(x[1] for x in ex) - min(x[1] for x in ex) > 1:
                    return None
            else:
                return None
            r = []
            for x in (lo, hi - 1):
                q = self.extremes(subst(p, {b: x}))
                if q is None:
                    return None
                r += q
            return r
        return None

    def nonneg(self, p):
        """p >= 0 for all parameters and loop counters"""
        for q in self.cases(p) or [p]:
            if not self.nonneg1(q):
                return False
        return True

    def cases(self, p, depth=0):
        """p with each condition it depends on decided either way"""
        for a in p.atoms():
            k = KEYS[a]
            if k[0] == "ind" and depth < 4:
                y, n = t_.top_subst(p, a, ONE), t_.top_subst(p, a, ZERO)
                if k[1][0] == "lt" and isinstance(k[1][1], P):
                    if self.nonneg1(k[1][1]):
                        return self.cases(n, depth + 1) or [n]
                    if self.nonneg1(-k[1][1] - 1):
                        return self.cases(y, depth + 1) or [y]
                if k[1][0] == "eq":
                    for b in self.bounds:
                        for m, c in k[1][1].t.items():
                            if m == ((b, 1),) and c in (1, -1):
                                x = PA(b) - k[1][1] * c
                                if b not in alldeps(x):
                                    y = subst(y, {b: x})
                return (self.cases(y, depth + 1) or [y]) + (self.cases(n, depth + 1) or [n])
        return None

    def nonneg1(self, p):
        if is_pos(p + 1):
            return True
        # a remainder is any number below its divisor
        d = {}
        for a in p.atoms():
            k = KEYS[a]
            if k[0] in ("mod", "low") and len(k) == 3:
                z = atom("bvtmp", ("genmod", a))
                self.bounds[z] = RANGES[z] = (ZERO, lift(k[2]) if k[0] == "mod" else p2(lift(k[2])))
                d[a] = PA(z)
        if d:
            q = ZERO
            for m, c in p.t.items():
                r = P({(): c})
                for a, e in m:
                    r = r * (d[a] if a in d and e == 1 else P({((a, e),): 1}))
                q = q + r
            p = q
        es = self.extremes(p)
        if es is None:
            return False
        # the loops the number is written in are not empty
        at = set(alldeps(p))
        for _ in range(6):
            for b in list(at):
                if b in self.bounds:
                    at |= set(alldeps(self.bounds[b][0])) | set(alldeps(self.bounds[b][1]))
        least = {}
        for b in at:
            if b in self.bounds:
                r = self.bounds[b][1] - self.bounds[b][0]
                for a in r.atoms():
                    c = r - PA(a)
                    if KEYS[a][0] == "nm1" and c.is_const() and c.const() < 1:
                        least[a] = max(least.get(a, 0), 1 - c.const())
        for c, w in self.assume:
            # parameter below a number: not
            for a in c[1].atoms():
                d = c[1] - PA(a)
                if c[0] == "lt" and not w and KEYS[a][0] == "nm1" and d.is_const() and d.const() < 0:
                    least[a] = max(least.get(a, 0), -d.const())
                d = c[1] + PA(a)
                if c[0] == "lt" and w and KEYS[a][0] == "nm1" and d.is_const() and d.const() >= 0:
                    least[a] = max(least.get(a, 0), d.const() + 1)
        if least:
            es = [subst(e, {a: PA(a) + x for a, x in least.items()}) for e in es]
        return es is not None and all(self.base_nonneg(e) for e in es)

    def base_nonneg(self, p):
        if is_pos(p + 1):
            return True
        # clear negative powers of two, then write every power of two as 1 + something
        for a in list(p.atoms()):
            if KEYS[a][0] == "p2":
                mn = min([dict(m).get(a, 0) for m in p.t])
                for _ in range(-mn):
                    p = p * PA(a)
        q = ZERO
        for m, c in p.t.items():
            r = lift(c) if isinstance(c, int) else P({(): c})
            for a, e in m:
                k = KEYS[a]
                if k[0] == "p2" and e > 0 and is_pos(k[1] + 1):
                    x = A("nm1", ("p2of", a)) + 1
                elif k[0] == "nm1":
                    x = PA(a)
                else:
                    return False
                for _ in range(e):
                    r = r * x
            q = q + r
        return all(c >= 0 for c in q.t.values())

    def points(self, p):
        """small admissible parameters and loop counters, with the value of p"""
        atoms = set(alldeps(p))
        for c, _ in self.assume:
            atoms |= set(alldeps(c[1]))
        for _ in range(6):
            for b in list(atoms):
                if b in self.bounds:
                    atoms |= set(alldeps(self.bounds[b][0])) | set(alldeps(self.bounds[b][1]))
        pars = sorted(a for a in atoms if KEYS[a][0] == "nm1")
        bvs = [b for b in self.bounds if b in atoms]
        order = []
        while len(order) < len(bvs):
            nx = [b for b in bvs if b not in order and not any(c in alldeps(x) for c in bvs if c not in order and c != b for x in self.bounds[b])]
            if not nx:
                return
            order.append(nx[0])
        for vs in sorted(itertools.product((0, 1, 2, 3, 5, 8, 12, 16, 20), repeat=len(pars)), key=lambda x: max(x, default=0)):
            if any(evalb(c, dict(zip(pars, vs))) is not w for c, w in self.assume):
                continue
            yield from self.runs(dict(zip(pars, vs)), order, p)

    def runs(self, env, order, p):
        if not order:
            v = evalp(p, env)
            if v is not None:
                yield env, v
            return
        lo, hi = (evalp(x, env) for x in self.bounds[order[0]])
        if lo is None or hi is None:
            return
        r = range(int(lo), int(hi))
        if len(r) > 5:
            r = list(r[:2]) + list(r[-2:])
        for j in r:
            yield from self.runs(dict(env, **{}) | {order[0]: j}, order[1:], p)

    def witness(self, p, bad):
        for k, (env, v) in enumerate(self.points(p)):
            if bad(v):
                return "; ".join("%s = %d" % (self.aname(a), x + self.base(a)) for a, x in env.items()) or "always"
            if k > 40000:
                break
        return None

    def base(self, a):
        return self.shift.get(a, 0)

    @staticmethod
    def aname(a):
        k = KEYS[a]
        return "parameter %s over its least value" % k[1][0] if k[0] == "nm1" else "a loop counter"

    def simp(self, p):
        d = {}
        for a in alldeps(p):
            k = KEYS[a]
            if k[0] in ("mod", "div", "low") and len(k) == 3:
                x, n = lift(k[1]), lift(k[2]) if k[0] != "low" else p2(lift(k[2]))
                if self.nonneg(x) and self.nonneg(n - 1 - x):
                    d[a] = ZERO if k[0] == "div" else x
        if d:
            p = self.norm(subst(p, d))
        # a quotient and its remainder
        ats = {KEYS[a][1:]: a for a in alldeps(p) if KEYS[a][0] == "div" and len(KEYS[a]) == 3}
        d = {a: lift(KEYS[a][1]) - lift(KEYS[a][2]) * PA(ats[KEYS[a][1:]]) for a in alldeps(p) if KEYS[a][0] == "mod" and KEYS[a][1:] in ats}
        return self.norm(subst(p, d)) if d else p

    def zero(self, rule, p, what, line):
        p = self.simp(p)
        if p.is_zero() or all(q.is_zero() for q in self.cases(p) or [p]):
            return
        w = self.witness(p, lambda v: v != 0)
        if w is None:
            raise Undecided("%s: %s" % (what, t_.show(p)[:80]), line)
        raise Broken(rule, "%s (off by %s; e.g. %s)" % (what, t_.show(p)[:80], w), line)

    def geq0(self, rule, p, what, line):
        p = self.simp(p)
        if self.nonneg(p):
            return
        w = self.witness(p, lambda v: v < 0)
        if w is None:
            raise Undecided("%s: %s" % (what, t_.show(p)[:80]), line)
        raise Broken(rule, "%s (%s is negative; e.g. %s)" % (what, t_.show(p)[:80], w), line)

    # ------------------------------------------------------------ grammar
    def gates_in(self, items, off, prev, first):
        """number of gates written by a run of items, checking each gate; None if they are not whole gates"""
        total, k = ZERO, 0
        while k < len(items):
            it = items[k]
            if isinstance(it, Loop):
                m = self.count(it.body)
                if m is None:
                    return None
                if any(b in alldeps(m) for b in [it.bv]):
                    raise Undecided("gates per iteration vary", it.line)
                self.gates_in(it.body, off + total + it.nth() * m, prev, first)
                total = total + (it.hi - it.lo) * m
                k += 1
                continue
            if k + 4 > len(items) or any(isinstance(x, Loop) for x in items[k:k + 4]):
                return None
            self.gate(items[k:k + 4], off + total, prev, first)
            total = total + 1
            k += 4
        return total

    def count(self, items):
        total, k = ZERO, 0
        while k < len(items):
            it = items[k]
            if isinstance(it, Loop):
                m = self.count(it.body)
                if m is None:
                    return None
                total = total + (it.hi - it.lo) * m
                k += 1
                continue
            if k + 4 > len(items) or any(isinstance(x, Loop) for x in items[k:k + 4]):
                return None
            total = total + 1
            k += 4
        return total

    def gate(self, toks, num, prev, first):
        ty, g, u, v = (t.v for t in toks)
        line = toks[1].line
        self.ngates += 1
        if ty is None or not ty.is_const():
            raise Undecided("type of a gate", toks[0].line)
        ty = ty.const()
        if g is None:
            raise Undecided("number of a gate", line)
        self.zero("gen-number", g - num, "gates of a layer are not numbered 0, 1, 2, ... in order", line)
        if first:
            if ty not in NEVER_GATE:
                raise Broken("gen-type", "a gate of type %d in the input layer" % ty, toks[0].line)
            return
        if ty not in (0, 1, 2, 4, 5, 6, 7, 8, 9, 10):
            raise Broken("gen-type", "a gate of type %d above the input layer" % ty, toks[0].line)
        if ty == 2:
            return
        for k, (w, t) in enumerate(((u, toks[2]), (v, toks[3]))):
            if k == 1 and ty in (4, 6, 10):
                break
            if w is None:
                raise Undecided("wire of a gate", t.line)
            lim = prev if ty == 5 and k == 1 else prev - 1
            if ty == 5 and k == 0:
                lim = prev
            self.geq0("gen-wire", w, "a wire of a gate is negative", t.line)
            self.geq0("gen-wire", lim - w, "a wire of a gate leaves the layer below", t.line)
        self.wired.append((num, [u] if ty in (4, 6, 10) else [u, v] if ty != 5 else [u, v - 1], line))
        if ty == 4:
            self.zero("gen-wire", u - num, "a direct relay does not name the gate of its own number", toks[2].line)
        if ty == 5:
            self.geq0("gen-wire", v - u, "a range ends before it starts", toks[2].line)

    def layers(self, items, prev, first):
        """parse whole layers; (number of layers, width of the last one, structure)"""
        n, k, shape = ZERO, 0, []
        while k < len(items):
            it = items[k]
            if isinstance(it, Loop):
                if it.down:
                    raise Undecided("layers of a loop that counts down", it.line)
                if first:
                    raise Undecided("input layer written inside a loop over layers", it.line)
                # the layer before the first of an iteration is the last of the one before
                cnt, w, shp = self.loop_layers(it, prev)
                if it.bv in alldeps(cnt):
                    raise Undecided("layers per iteration vary", it.line)
                n = n + cnt * (it.hi - it.lo)
                shape.append((it, shp))
                prev = subst(w, {it.bv: it.hi - 1})
                k += 1
                continue
            w = it.v
            if w is None or it.cond is not None:
                raise Undecided("width of a layer", it.line)
            k += 1
            self.width(w, it.line)
            tot, start = ZERO, k
            while k < len(items) and not (tot - w).is_zero():
                if isinstance(items[k], Loop):
                    m = self.count([items[k]])
                    if m is None:
                        break
                    k += 1
                else:
                    if k + 4 > len(items) or any(isinstance(x, Loop) for x in items[k:k + 4]):
                        break
                    m = ONE
                    k += 4
                tot = tot + m
                d = tot - w
                if not d.is_zero() and k < len(items) and self.witness(d, lambda v: v != 0) is None:
                    raise Undecided("end of a layer: %s" % t_.show(d)[:60], it.line)
            cond = list(self.conds(items[start:k]))
            if cond and not self.simp(tot - w).is_zero():
                raise Undecided("output under a condition", cond[0].line)
            for t in cond:
                x = self.witness(t.cond, lambda v: v == 0)
                if x is None:
                    raise Undecided("output under a condition", t.line)
                raise Broken("gen-width", "a gate the width of the layer counts is not written (%s)" % x, t.line)
            self.zero("gen-width", tot - w, "a layer does not have as many gates as announced", it.line)
            self.wired = []
            self.gates_in(items[start:k], ZERO, prev, first)
            shape.append(Lay(w, self.wired))
            prev, first = w, False
            n = n + 1
        return n, prev, shape

    def conds(self, items):
        for x in items:
            if isinstance(x, Loop):
                yield from self.conds(x.body)
            elif x.cond is not None:
                yield x

    def loop_layers(self, it, prev):
        ws = [x for x in self.widths(it.body)]
        if not ws:
            raise Undecided("layers of a loop", it.line)
        w = ws[-1]
        before = subst(w, {it.bv: PA(it.bv) - 1})
        d = subst(before, {it.bv: it.lo}) - prev
        if not d.is_zero():
            # the first iteration has another layer below than the rest: widths as such are judged on the first
            raise Undecided("layer below the first layer of a loop: %s" % t_.show(d)[:60], it.line)
        cnt, w2, shp = self.layers(it.body, before, False)
        return cnt, w2, shp

    def widths(self, items):
        k, r = 0, []
        while k < len(items):
            it = items[k]
            if isinstance(it, Loop):
                raise Undecided("layers in nested loops", it.line)
            w = it.v
            if w is None:
                raise Undecided("width of a layer", it.line)
            r.append(w)
            k += 1
            tot = ZERO
            while k < len(items) and not (tot - w).is_zero():
                m = self.count([items[k]]) if isinstance(items[k], Loop) else (ONE if self.count(items[k:k + 4]) is not None and k + 4 <= len(items) else None)
                if m is None:
                    break
                tot = tot + m
                k += 1 if isinstance(items[k], Loop) else 4
        return r

    def width(self, w, line):
        e = log2_mono(w)
        if e is not None and self.nonneg(e):
            return
        x = self.witness(w, lambda v: v < 1 or v.denominator != 1 or int(v) & (int(v) - 1))
        if x is None:
            raise Undecided("width of a layer: %s" % t_.show(w)[:60], line)
        raise Broken("gen-width", "the width of a layer is no power of two (%s; e.g. %s)" % (t_.show(w)[:60], x), line)

    def meta(self, lines, shape, prev=None):
        """per layer: block size, number of blocks, their logarithms, length; prev: block size of the layer below. Returns the last block size"""
        k = 0
        for s in shape:
            if isinstance(s, tuple):
                L = lines[k] if k < len(lines) else None
                if not isinstance(L, Loop) or L.down or s[0].down or prev is None:
                    raise Undecided("block description of layers written in a loop", s[0].line)
                if not (L.hi - L.lo - s[0].hi + s[0].lo).is_zero():
                    raise Undecided("block description of layers written in a loop", L.line)
                if len(L.body) != 5 or isinstance(L.body[0], Loop) or L.body[0].v is None:
                    raise Undecided("block description of layers written in a loop", L.line)
                to = {L.bv: PA(s[0].bv) - s[0].lo + L.lo}
                body = [Tok(None if t.v is None else subst(t.v, to), t.line) for t in L.body]
                below = subst(body[0].v, {s[0].bv: PA(s[0].bv) - 1})
                if not (subst(below, {s[0].bv: s[0].lo}) - prev).is_zero():
                    below = None
                prev = subst(self.meta(body, s[1], below), {s[0].bv: s[0].hi - 1})
                k += 1
                continue
            t = lines[k:k + 5]
            if len(t) < 5 or any(isinstance(x, Loop) or x.v is None for x in t[:4]):
                raise Undecided("block description of a layer", t[0].line if t else None)
            bs, bn, ls, ln = (x.v for x in t[:4])
            self.zero("gen-block", bs * bn - s.w, "the blocks described do not make up the layer", t[0].line)
            self.zero("gen-block", bs - p2(ls), "the logarithm of the block size is wrong", t[0].line)
            self.zero("gen-block", bn - p2(ln), "the logarithm of the number of blocks is wrong", t[0].line)
            for num, wires, line in s.gates:
                if prev is None:
                    raise Undecided("block size of the layer below", t[0].line)
                for w in wires:
                    self.inside(num, w, bs, prev, line)
            prev = bs
            k += 5
        if k < len(lines):
            raise Undecided("more blocks are described than layers written", getattr(lines[k], "line", None))
        return prev

    def inside(self, num, w, bs, prev, line):
        """a gate and its wire are in blocks of the same number"""
        e = log2_mono(prev), log2_mono(bs)
        if None not in e and self.nonneg(e[0] - e[1]):
            c = p2(e[0] - e[1])
            d = self.simp(w - c * num)
            if self.nonneg(d) and self.nonneg(c - 1 - d):
                return
        # number of the block from the shape of the gate number
        q = ZERO
        for m, k in num.t.items():
            x = P({m: k}) * P({(): Fraction(1)})
            e = log2_mono(bs)
            y = x * p2(-e) if e is not None else ZERO
            if y.t and all(Fraction(z).denominator == 1 for z in y.t.values()) and all(ex > 0 for mm in y.t for _, ex in mm):
                q = q + y
        r, d = num - q * bs, w - q * prev
        if self.nonneg(r) and self.nonneg(bs - 1 - r) and self.nonneg(d) and self.nonneg(prev - 1 - d):
            return
        ps = (num, w, bs, prev)
        tot = num * 2 + w * 3 + bs * 5 + prev * 7            # every atom of the four
        for env, _ in itertools.islice(self.points(tot), 20000):
            n_, w_, b_, p_ = (evalp(x, env) for x in ps)
            if None not in (n_, w_, b_, p_) and b_ > 0 and p_ > 0 and n_ // b_ != w_ // p_:
                raise Broken("gen-block", "gate %d is in block %d, its wire %d in block %d of the layer below (%s)" % (
                    n_, n_ // b_, w_, w_ // p_, "; ".join("%s = %d" % (self.aname(a), x + self.base(a)) for a, x in env.items())), line)
        raise Undecided("block of a wire", line)

    # ------------------------------------------------------------ result
    def run(self):
        for mode in MODES:
            self.ngates = 0
            self.assume, self.shift = [], {}
            oid = "gen-mode%d" % mode
            what = {"file": self.fn.file}
            try:
                out, other = self.streams(self.mode(mode))
                if not out or isinstance(out[0], Loop) or out[0].v is None:
                    raise Undecided("nothing recognisable is written")
                shapes = []
                und = None
                for out, other in self.splits([out, other]):
                    try:
                        n, w, shape = self.layers(out[1:], ZERO, True)
                        self.zero("gen-depth", out[0].v - n, "the depth announced is not the number of layers written", out[0].line)
                    except Undecided as e:
                        und = e
                        continue
                    shapes.append((shape, other, self.assume, self.bounds, self.shift))
                if und is not None:
                    raise und
                self.obs.append(Ob(oid, ("G02",), "ok", "depth, widths, numbering, types and wires of every gate written in mode %d are well formed" % mode, self.fn.file, out[0].line,
                                   "%d output sites, layers: %s" % (self.ngates, t_.show(n))))
                self.units["modes"][mode] = {"gate sites": self.ngates, "layers": t_.show(n)}
            except Broken as e:
                self.obs.append(Ob("%s-%s" % (oid, e.rule[4:]), ("G02",), "violated", "circuit written by the generator is well formed", self.fn.file, e.line, "mode %d: %s" % (mode, e)))
                continue
            except Undecided as e:
                self.obs.append(Ob(oid, ("G02",), "undecided", "circuit written by the generator is well formed", self.fn.file, e.line, str(e)))
                continue
            if mode in META:
                try:
                    if not other:
                        raise Undecided("no block description is written")
                    for shape, other, self.assume, self.bounds, self.shift in shapes:
                        self.meta(other, shape)
                    self.obs.append(Ob(oid + "-blocks", ("G02",), "ok", "the block description written in mode %d divides every layer" % mode, self.fn.file, self.fn.line))
                except Broken as e:
                    self.obs.append(Ob("%s-blocks" % oid, ("G02",), "violated", "the block description divides every layer into its blocks", self.fn.file, e.line, "mode %d: %s" % (mode, e)))
                except Undecided as e:
                    self.obs.append(Ob(oid + "-blocks", ("G02",), "undecided", "the block description divides every layer", self.fn.file, e.line, str(e)))
        return self.obs


def alldeps(p):
    return t_.deps_of(p) if isinstance(p, P) else set()


def evalp(p, env):
    s = Fraction(0)
    for m, c in p.t.items():
        v = Fraction(c)
        for a, e in m:
            x = evala(a, env)
            if x is None or (x == 0 and e < 0):
                return None
            v *= Fraction(x) ** e
        s += v
    return s


def evala(a, env):
    if a in env:
        return Fraction(env[a])
    k = KEYS[a]
    if k[0] == "p2":
        x = evalp(k[1], env)
        return None if x is None or x.denominator != 1 else Fraction(2) ** int(x)
    if k[0] == "shr":
        x, n = evalp(k[1], env), evalp(lift(k[2]), env)
        return None if x is None or n is None or n < 0 else Fraction(int(x) >> int(n))
    if k[0] == "ind":
        x = evalb(k[1], env)
        return None if x is None else Fraction(int(x))
    if k[0] == "low" and len(k) == 3:
        x, n = evalp(lift(k[1]), env), evalp(lift(k[2]), env)
        return None if x is None or n is None or n < 0 else Fraction(int(x) % (1 << int(n)))
    if k[0] == "bit" and len(k) == 3:
        x, n = evalp(lift(k[1]), env), evalp(lift(k[2]), env)
        return None if x is None or n is None or n < 0 or x < 0 else Fraction((int(x) >> int(n)) & 1)
    if k[0] == "bxor" and len(k) == 3:
        x, n = evalp(lift(k[1]), env), evalp(lift(k[2]), env)
        return None if x is None or n is None or x < 0 or n < 0 else Fraction(int(x) ^ int(n))
    if k[0] in ("div", "mod") and len(k) == 3:
        x, n = evalp(lift(k[1]), env), evalp(lift(k[2]), env)
        if x is None or n is None or x < 0 or n < 1:
            return None
        return Fraction(int(x) // int(n) if k[0] == "div" else int(x) % int(n))
    return None


def evalb(b, env):
    k = b[0]
    if k in ("T", "F"):
        return k == "T"
    if k == "not":
        x = evalb(b[1], env)
        return None if x is None else not x
    if k in ("and", "or"):
        xs = [evalb(x, env) for x in b[1]]
        return None if None in xs else (all(xs) if k == "and" else any(xs))
    if k in ("eq", "lt") and isinstance(b[1], P):
        x = evalp(b[1], env)
        return None if x is None else (x == 0 if k == "eq" else x < 0)
    return None
