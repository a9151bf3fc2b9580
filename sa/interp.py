"""Structured abstract interpreter over the clang AST in the value-numbering domain of term.py.

 * Branches are merged with gated values (no path is ever enumerated).
 * A loop body is analysed for one generic iteration; loop-carried values become phi atoms and the
   loop effect is summarised by closed forms (map / accumulate / fold / doubling-table / reduction)
   or, where no rule applies, by an opaque `out` atom.
 * Repository functions are inlined; library functions are opaque; methods of the classes named in
   `adversary` are not entered at all: their results are arbitrary messages.
"""
import re
import sys

from frontend import AnalysisError, Program
import term as t_
from term import (A, C, P, PA, T, F, ZERO, ONE, FZERO, FONE, KEYS, DEPS, RANGES, atom, beq, blt, bnot, band_, bor_,
                  bite, ite, ind, subst, mk_sum, mk_prod, mk_eqp, p2, shl, shr, low, band, bor, bxor, lift,
                  in_range, is_pos, is_nonneg, toF, deps_of, bopaque, bsubst)

sys.setrecursionlimit(20000)


class BV:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __eq__(self, o):
        return isinstance(o, BV) and self.b == o.b

    def __hash__(self):
        return hash(("BV", self.b))

    def __repr__(self):
        return "BV(%s)" % t_.bshow(self.b)


class St:
    __slots__ = ("cls", "d")

    def __init__(self, cls, d):
        self.cls = cls
        self.d = d

    def __eq__(self, o):
        return isinstance(o, St) and self.d == o.d

    def __hash__(self):
        return hash(tuple(sorted((k, hash(v)) for k, v in self.d.items())))

    def __repr__(self):
        return "St%r" % self.d


class Ptr:
    """pointer to element `off` of the region (shape, idx); obj: points to the object itself"""
    __slots__ = ("shape", "idx", "off", "obj")

    def __init__(self, shape, idx=(), off=ZERO, obj=False):
        self.shape, self.idx, self.off, self.obj = shape, tuple(idx), off, obj

    def key(self):
        return (self.shape, self.idx, self.off, self.obj)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "Ptr(%s%s+%s)" % (t_.show_any(self.shape), list(self.idx), self.off)


NULL = Ptr(("NULL",))


def strval(s):
    """contents of a string literal as clang prints it"""
    if not (isinstance(s, str) and len(s) >= 2 and s[0] == '"' and s[-1] == '"'):
        return None
    v = s[1:-1]
    if "\\" in v:
        try:
            v = v.encode("latin-1").decode("unicode_escape")
        except Exception:
            return None
    return v if all(ord(c) < 128 for c in v) else None


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __hash__(self):
        return hash(("Str", self.s))

    def __repr__(self):
        return "Str(%r)" % self.s


class Opq:
    """opaque value (library object)"""
    __slots__ = ("key",)

    def __init__(self, *key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Opq) and self.key == o.key

    def __hash__(self):
        return hash(("Opq", self.key))

    def __repr__(self):
        return "Opq(%s)" % t_.show_any(self.key)


class Closure:
    __slots__ = ("node", "frame", "fn")

    def __init__(self, node, frame, fn):
        self.node, self.frame, self.fn = node, frame, fn


class LV:
    __slots__ = ("shape", "idx", "type")

    def __init__(self, shape, idx=(), type=None):
        self.shape, self.idx, self.type = shape, tuple(idx), type

    def field(self, name, ty):
        return LV(self.shape + (name,), self.idx, ty)

    def elem(self, i, ty):
        return LV(self.shape + ("[]",), self.idx + (i,), ty)

    def __repr__(self):
        return "LV(%s%s:%s)" % ("/".join(map(str, self.shape)), list(self.idx), self.type)


class Layer:
    __slots__ = ("kind", "binders", "guard", "idx", "val", "extra", "line")

    def __init__(self, kind, binders, guard, idx, val, extra=None, line=None):
        self.kind, self.binders, self.guard, self.idx, self.val = kind, tuple(binders), guard, tuple(idx), val
        self.extra = extra
        self.line = line

    def key(self):
        return (self.kind, self.binders, self.guard, self.idx, self.val, self.extra)

    def __eq__(self, o):
        return self is o or (isinstance(o, Layer) and self.key() == o.key())

    def __hash__(self):
        return hash((self.kind, self.binders, self.idx))

    def __repr__(self):
        return "%s%s g=%s idx=%s val=%s" % (self.kind, [(t_.show_atom(b[0]), b[1], b[2]) for b in self.binders],
                                            t_.bshow(self.guard), list(self.idx), self.val)


class Content:
    __slots__ = ("base", "layers")

    def __init__(self, base, layers=()):
        self.base, self.layers = base, tuple(layers)

    def __eq__(self, o):
        return self is o or (isinstance(o, Content) and self.base == o.base and self.layers == o.layers)

    def __hash__(self):
        return hash((self.base, len(self.layers)))

    def __repr__(self):
        return "Content(%s, %s)" % (t_.show_any(self.base), list(self.layers))


class State:
    __slots__ = ("mem", "pc", "facts", "alive", "epoch")

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.facts = []
        self.alive = True
        self.epoch = ("start",)

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.alive = self.alive
        s.epoch = self.epoch
        return s


class Exit:
    __slots__ = ("pc", "val", "line", "file", "loops", "state", "kind")

    def __init__(self, pc, val, node, state, kind="return"):
        self.pc, self.val = pc, val
        self.line, self.file = node.line, node.file
        self.loops = []
        self.state = state
        self.kind = kind


class Event:
    __slots__ = ("kind", "name", "args", "res", "line", "file", "loops", "pc", "seq", "func", "node", "extra")

    def __repr__(self):
        return "Ev#%d(%s %s@%s loops=%s)" % (self.seq, self.kind, self.name, self.line, len(self.loops))


def starts_workers(n):
    """does this code start threads itself, and not in a loop within"""
    if n is None or n.kind in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
        return False
    if n.kind in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and strip(n.type or "") in ("std::thread", "thread"):
        a = [x for x in n.inner if x is not None and x.kind != "CXXDefaultArgExpr"]
        if a and strip(a[0].type or "") not in ("std::thread", "thread"):
            return True
    if n.kind == "CXXMemberCallExpr" and n.inner and n.inner[0].name in ("emplace_back", "->emplace_back") and n.inner[0].inner \
            and "vector<std::thread" in (n.inner[0].inner[0].type or ""):
        return True
    return any(starts_workers(x) for x in n.inner if x is not None)


def num_at(p, mp):
    """the number a term denotes when the given atoms have the given values"""
    q = subst(p, {a: lift(v) for a, v in mp.items()})
    for _ in range(6):
        if q.is_const():
            return int(q.const()) if q.const() == int(q.const()) else None
        m = {}
        for a in q.atoms():
            k = KEYS[a]
            if k[0] == "shr" and isinstance(k[1], P) and k[1].is_const() and k[2].is_const():
                m[a] = lift(int(k[1].const()) >> int(k[2].const()))
            elif k[0] == "ind":
                m[a] = lift(1) if k[1] == T else lift(0) if k[1] == F else None
        m = {a: v for a, v in m.items() if v is not None}
        if not m:
            return None
        q = subst(q, m)
    return None


class LoopRec:
    __slots__ = ("key", "node", "bv", "lo", "hi", "step", "phis", "affine", "cond", "breaks", "line", "file", "types",
                 "extra_cond", "rel", "arrs", "W", "rel_pairs", "mem0", "mem1", "indshape")


class Frame:
    def __init__(self, fn, ctx, this, parent_vars=None):
        self.fn = fn
        self.ctx = ctx
        self.this = this
        self.vars = dict(parent_vars or {})
        self.exits = []
        self.aborts = []
        self.tu = fn.tu if fn else 0


FIELD_T = {"field_element", "u512b", "u256b"}


def strip(ty):
    if not ty:
        return ty
    ty = ty.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "volatile ", "class ", "struct "):
            if ty.startswith(p):
                ty = ty[len(p):]
                ch = True
        if ty.endswith(" const"):
            ty = ty[:-6]
            ch = True
        if ty.endswith("&"):
            ty = ty.rstrip("&").strip()
            ch = True
    ty = re.sub(r"\*\s*const$", "*", ty)
    return ty.strip()


def base_cls(ty):
    ty = strip(ty)
    return ty


def is_field_t(ty):
    ty = strip(ty)
    return bool(ty) and ty.split("::")[-1] in FIELD_T and "*" not in ty and "[" not in ty and "<" not in ty


def is_ptr_t(ty):
    ty = strip(ty)
    return bool(ty) and ty.endswith("*")


def is_arr_t(ty):
    ty = strip(ty)
    return bool(ty) and ty.endswith("]")


def pointee(ty):
    ty = strip(ty)
    if ty.endswith("*"):
        return ty[:-1].strip()
    m = re.match(r"^(.*?)\s*\[[^\]]*\](.*)$", ty)
    if m:
        return (m.group(1) + m.group(2)).strip()
    return None


INT_T = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short",
         "char", "signed char", "unsigned char", "__int128", "unsigned __int128", "size_t", "bool", "uint64_t", "int64_t",
         "uint32_t", "int32_t", "uint8_t", "std::size_t"}
UNS_BITS = {"unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "unsigned __int128": 128,
            "unsigned char": 8, "unsigned short": 16}


def is_int_t(ty):
    return strip(ty) in INT_T


def is_vec_t(ty):
    ty = strip(ty) or ""
    return (ty.startswith("std::vector<") or ty.startswith("vector<")) and ty.endswith(">") and not ty.startswith("std::vector<bool")


def is_map_t(ty):
    ty = (strip(ty) or "").replace("std::", "")
    return ty.startswith("unordered_map<") or ty.startswith("map<")


def vec_elem_t(ty):
    ty = strip(ty)
    return strip(split_targs(ty[ty.index("<") + 1:-1])[0])


class Interp:
    def __init__(self, prog, adversary=(), opaque=(), hooks=None, params=None, inst=False):
        self.inst = inst         # heap objects made in loops are indexed by the iteration numbers
        self.prog = prog
        self.adversary = set(adversary)
        self.opaque = set(opaque)
        self.events = []
        self.accs = []
        self.workers = []
        self.at = None
        if Interp.access_log is not None:
            Interp.access_log.append(self)
        if Interp.rw_log is not None:
            Interp.rw_log.append(self)
        self.loops = {}
        self.loopstack = []
        self.phicache = {}
        self.depth = 0
        self.notes = []
        self.hooks = hooks or {}
        self.breakstack = []
        self.contstack = []
        self.nfun = set()
        self.seq = 0
        self.lost = []           # constructs not modelled
        self.ptrfull = set()     # loop-carried pointers that change region
        self.nosecond = set()
        self.ncalls = 0
        self.maxof = {}          # largest value over a loop: (binder, lo, hi, value, initial)
        self.instmem = {}        # content of a heap object made in a loop, in terms of the iteration number
        self.inststale = set()   # such objects written to after the loop

    # ------------------------------------------------------------ type helpers
    def rec_fields(self, ty):
        ty = strip(ty)
        if ty in self.prog.records and not is_field_t(ty):
            out = []
            for b in self.prog.bases.get(ty, []):
                bf = self.rec_fields(b)
                if bf:
                    out += bf
            return out + self.prog.records[ty]
        m = re.match(r"^(?:std::)?pair<(.*)>$", ty or "")
        if m:
            a, b = split_targs(m.group(1))
            return [("first", a), ("second", b)]
        return None

    # ------------------------------------------------------------ memory
    def content(self, st, shape):
        c = st.mem.get(shape)
        if c is None:
            if isinstance(shape[0], tuple) and len(shape[0]) == 4 and shape[0][0] == "heap":
                return self.inst_content(shape)
            return Content(self.default_base(st, shape))
        return c

    def inst_content(self, shape):
        root = shape[0]
        plain = (root[:3],) + shape[1:]
        cc = self.instmem.get(plain, (None,))[0]
        if cc is None or root[:3] in self.inststale:
            return Content(("lostinst",) + shape)
        cc = content_subst(cc, {atom("bv", k): e for k, e in root[3]})
        return Content(("in",) + shape, cc.layers)

    def instance(self, v, mp):
        """v is a pointer found in cell number e of a table filled in a loop: when it points to an
        object made in that loop, it points to the object of iteration e"""
        if self.inst or not isinstance(v, Ptr) or not v.shape or not isinstance(v.shape[0], tuple) or not v.shape[0] or v.shape[0][0] != "heap":
            return v
        root = v.shape[0]
        inst = dict(root[3]) if len(root) == 4 else {}
        for k in root[2]:
            a = atom("bv", k)
            if a in mp and k not in inst:
                e = lift(mp[a])
                rec = self.loops.get(k)
                if rec is not None and rec.affine and len(root[2]) == 1 and (e - (rec.hi - 1 if rec.step == 1 else rec.lo)).is_zero():
                    continue
                inst[k] = e
        if not inst:
            return v
        return Ptr((root[:3] + (tuple(sorted(inst.items(), key=lambda x: str(x[0]))),),) + v.shape[1:], v.idx, v.off, v.obj)

    def default_base(self, st, shape):
        # heap regions / phi regions carry their base in the root
        return ("in",) + shape

    def load(self, st, lv):
        if Interp.rw_log is not None:
            self.note_rw("r", lv, st)
        if lv.shape and lv.shape[0] == "iteptr" and len(lv.shape) > 4:
            c, a, b = split_iteptr(lv)
            if a is None or b is None:          # reading through a null pointer is no choice
                if (a or b) is not None:
                    return self.load(st, a or b)
            else:
                return vite(c, self.load(st, a), self.load(st, b))
        ty = strip(lv.type)
        if is_arr_t(ty):
            return Ptr(lv.shape, lv.idx)
        fs = None
        if ty and not is_field_t(ty) and not is_ptr_t(ty) and not is_int_t(ty):
            fs = self.rec_fields(ty)
        if fs is not None:
            return St(ty, {f: self.load(st, lv.field(f, ft)) for f, ft in fs})
        if lv.shape == ("G", "prime_field::mod") and not lv.idx:
            return FZERO                    # the modulus is 0 in the field
        c = self.content(st, lv.shape)
        return self.select(st, c, lv.shape, lv.idx, ty)

    def unknown(self, base, shape, idx, ty):
        """value of an unwritten cell of `base`"""
        ty = strip(ty)
        if isinstance(base, tuple) and base and base[0] == "in" and len(idx) <= 3:
            # facts the data-parallel loader establishes (checked separately): every copy has the
            # same shape, and there are 2^k copies
            if base[-1] == "total_blocks":
                return p2(A("sel", base[:-1] + ("total_blocks_binary_length",), tuple(idx)))
            if base[-1] in ("bit_length", "total_depth") and "blocks" in base:
                idx = (ZERO,) + tuple(idx[1:])
        if is_field_t(ty):
            if is_heap(base) or self.fresh_cell(base, idx):
                return FZERO
            return A("sel", base, tuple(idx), f=True)
        if is_ptr_t(ty):
            if base and base[0] == "in":
                return Ptr(shape, idx)
            return Ptr(("ptr", base) if not isinstance(base, str) else (base,), idx)
        if ty == "bool":
            return BV(("op", "sel", base, tuple(idx)))
        if is_int_t(ty) or ty in ("double", "float"):
            return A("sel", base, tuple(idx))
        return Opq("sel", base, tuple(idx))

    def fresh_cell(self, base, idx):
        """a cell, as the iteration starts, of an object that this iteration has yet to make"""
        if not self.inst or not isinstance(base, tuple) or base[0] != "phi" or not is_heap_shape(base[2]):
            return False
        loops = base[2][0][2]
        if base[1] not in loops:
            return False
        k = loops.index(base[1])
        return k < len(idx) and idx[k] == PA(atom("bv", base[1]))

    def select(self, st, c, shape, idx, ty, upto=None):
        layers = c.layers if upto is None else c.layers[:upto]
        return self._select(c.base, layers, len(layers), shape, idx, ty)

    def _select(self, base, layers, n, shape, idx, ty):
        while n > 0:
            w = layers[n - 1]
            if w.kind == "set":
                if not w.binders:
                    eq = self.idx_eq(w.idx, idx)
                    g = band_([eq, w.guard])
                    if g == T:
                        return w.val
                    if g == F:
                        n -= 1
                        continue
                    rest = self._select(base, layers, n - 1, shape, idx, ty)
                    return vite(g, w.val, rest)
                r = self.match_binders(w, idx)
                if r is None:          # cannot match at all
                    n -= 1
                    continue
                if r == "unknown":
                    return A("top", ("sel", shape, tuple(idx), len(layers)), f=is_field_t(ty))
                mp, cond = r
                val = self.instance(vsubst(w.val, mp), mp)
                g = band_([cond, bsub(w.guard, mp)])
                if g == T:
                    return val
                if g == F:
                    n -= 1
                    continue
                rest = self._select(base, layers, n - 1, shape, idx, ty)
                return vite(g, val, rest)
            if w.kind == "acc":
                rest = self._select(base, layers, n - 1, shape, idx, ty)
                r = self.match_binders(w, idx, acc=True)
                if r is None:
                    return rest
                mp, cond = r
                v = vsubst(w.val, mp)
                if not isinstance(v, P) or not isinstance(rest, P):
                    return A("top", ("acc", shape, tuple(idx)), f=is_field_t(ty))
                add = v * ind(band_([cond, bsub(w.guard, mp)]))
                for b in reversed(w.binders):
                    if b[0] not in mp:
                        add = mk_sum(b[0], subst(b[1], mp), subst(b[2], mp), add)
                return rest + add
            if w.kind == "eqtab":
                cc, bv, X, Y, N = w.extra
                return cc * mk_eqp(bv, X, Y, N, idx[-1])
            if w.kind == "fold":
                bv, X, Y, N, init = w.extra
                z = A("bvtmp", ("fold", bv))
                za = z.single_atom()
                RANGES[za] = (ZERO, p2(N))
                src = self._select(init.base, init.layers, len(init.layers), shape, idx[:-1] + (idx[-1] * p2(N) + z,), ty)
                return mk_sum(za, ZERO, p2(N), src * mk_eqp(bv, X, Y, N, z))
            raise AssertionError(w.kind)
        return self.unknown(base, shape, idx, ty)

    def idx_eq(self, a, b):
        if len(a) != len(b):
            return F
        return band_([beq(x - y) for x, y in zip(a, b)])

    def match_binders(self, w, idx, acc=False):
        """solve w.idx(binders) == idx; (mapping, condition) | None (impossible) | 'unknown'"""
        mp = {}
        cond = []
        bset = {b[0]: b for b in w.binders}
        pending = list(zip(w.idx, idx))
        progress = True
        while pending and progress:
            progress = False
            for k, (wi, x) in enumerate(pending):
                wi = subst(wi, mp)
                free = [b for b in bset if b not in mp and b in wi.deps()]
                if not free:
                    e = beq(wi - x)
                    if e == F:
                        return None
                    if e != T:
                        cond.append(e)
                    pending.pop(k)
                    progress = True
                    break
                if len(free) == 1:
                    b = free[0]
                    ab = wi.coeff_of(b)
                    if ab and ab[0].is_const() and ab[0].const() in (1, -1):
                        tt = (x - ab[1]) * ab[0].const()
                        _, lo, hi = bset[b]
                        mp[b] = tt
                        lo, hi = subst(lo, mp), subst(hi, mp)
                        m = self.membership(tt, lo, hi, acc)
                        if m == F:
                            return None
                        if m != T:
                            cond.append(m)
                        pending.pop(k)
                        progress = True
                        break
                # mixed radix: wi = b1*D + b2 with 0<=b2<D
                if len(free) >= 2:
                    sp = self.split_radix(wi, x, free, bset, mp)
                    if sp is not None:
                        pending.pop(k)
                        pending.extend(sp)
                        progress = True
                        break
        if pending:
            if acc:
                for wi, x in pending:
                    cond.append(beq(subst(wi, mp) - x))
                    if cond[-1] == F:
                        return None
                return mp, band_(cond)
            # impossible by ranges?
            for wi, x in pending:
                d = subst(wi, mp) - x
                if beq(d) == F:
                    return None
            return "unknown"
        if not acc:
            g = bsub(w.guard, mp)
            for b in bset:
                if b in mp:
                    continue
                _, lo, hi = bset[b]
                if not mentions_atom(g, b):
                    # written in every iteration of b: last one wins
                    mp[b] = subst(hi, mp) - 1
                    continue
                tt = self.fixed_by(g, b)
                if tt is None:
                    return "unknown"
                # written only in the iteration the guard names
                mp[b] = tt
                m = self.membership(tt, subst(lo, mp), subst(hi, mp))
                if m == F:
                    return None
                if m != T:
                    cond.append(m)
                g = bsub(g, {b: tt})
        return mp, band_(cond)

    def fixed_by(self, g, b):
        """the value of binder b if condition g says b == value"""
        for c in (g[1] if g[0] == "and" else [g]):
            if c[0] == "eq":
                ab = c[1].coeff_of(b)
                if ab and ab[0].is_const() and ab[0].const() in (1, -1):
                    return -ab[1] * ab[0].const()
        return None

    def crossing(self, rec, out):
        """may a write listed earlier overwrite, in a later iteration, a cell written by one listed later?"""
        b = rec.bv
        for q, w2 in enumerate(out):
            for w1 in out[:q]:
                if w1.kind != "set" and w2.kind != "set":
                    continue
                if len(w1.idx) != len(w2.idx):
                    return True
                if not self.no_crossing(b, w1, w2):
                    return True
        return False

    def no_crossing(self, b, w1, w2):
        # iteration x of w1 against iteration y of w2
        f2 = self.fixed_by(w2.guard, b)
        f1 = self.fixed_by(w1.guard, b)
        for i1, i2 in zip(w1.idx, w2.idx):
            if beq(i1 - i2) == F and b not in i1.deps() and b not in i2.deps():
                return True
            c1, c2 = i1.coeff_of(b), i2.coeff_of(b)
            if not c1 or not c2 or not c1[0].is_const() or not c2[0].is_const():
                continue
            k1, k2 = c1[0].const(), c2[0].const()
            if k1 in (1, -1) and k1 == k2:
                d = (c2[1] - c1[1]) * k1          # x - y
                if d.is_const() and d.const() <= 0:
                    return True
                inner = [z for w in (w1, w2) for z, _, _ in w.binders[1:]]
                if k1 == 1 and not any(z in c1[1].deps() or z in c2[1].deps() for z in inner):
                    span = w1.binders[0][2] - w1.binders[0][1] - 1
                    if is_pos(d - span) or is_pos(-d - span):
                        return True
            if k1 in (1, -1) and k2 == 0:
                x = (c2[1] - c1[1]) * k1          # the only iteration of w1 that meets the cell
                if any(y in x.deps() for y, _, _ in w1.binders + w2.binders):
                    continue
                if bsub(w1.guard, {b: x}) == F or self.membership(x, w1.binders[0][1], w1.binders[0][2]) == F:
                    return True
                if f2 is not None and (f2 - x).is_const() and (f2 - x).const() >= 0:
                    return True
            if k1 == 0 and k2 in (1, -1):
                y = (c1[1] - c2[1]) * k2
                if any(z in y.deps() for z, _, _ in w1.binders + w2.binders):
                    continue
                if bsub(w2.guard, {b: y}) == F or self.membership(y, w2.binders[0][1], w2.binders[0][2]) == F:
                    return True
                if f1 is not None and (y - f1).is_const() and (y - f1).const() >= 0:
                    return True
        if f1 is not None and f2 is not None and (f2 - f1).is_const() and (f2 - f1).const() >= 0:
            return True
        if w1.idx == w2.idx and b not in deps_of(w1.idx) and w1.guard == w2.guard and not mentions_atom(w1.guard, b):
            return True
        if band_([w1.guard, w2.guard]) == F and not mentions_atom(w1.guard, b) and not mentions_atom(w2.guard, b):
            return True
        return False

    def split_radix(self, wi, x, free, bset, mp):
        D = None
        for b in free:
            ab = wi.coeff_of(b)
            if ab is None:
                return None
            if t_.log2_mono(ab[0]) is not None and not ab[0] == ONE:
                D = ab[0] if D is None else D
        if D is None:
            return None
        q, r = t_._divide(wi, D)
        xq, xr = t_._divide(x, D)
        if q is None:
            return None
        if xq is None:
            xq, xr = ZERO, x
        if in_range(r, ZERO, D):
            if in_range(xr, ZERO, D):
                return [(q, xq), (r, xr)]
            n = t_.log2_mono(D)
            return [(q, shr(x, n)), (r, low(x, n))]
        return None

    def membership(self, x, lo, hi, acc=False):
        if in_range(x, lo, hi):
            return T
        if is_pos(lo - x) or is_nonneg(x - hi):
            return F
        # does the index provably leave the range for some admissible binder value?
        up = -t_.lower_bound(-x)
        if is_nonneg(up - hi) and up != x:
            return band_([bnot(blt(x - lo)), blt(x - hi)])
        if lo.is_zero() and any(KEYS[a][0] == "sel" for a in x.deps()):
            # an index read from data (a wire, a gate id): inputs are taken to be well formed
            t_.FLAGS["assumed_in_range"] += 1
            return T
        return band_([bnot(blt(x - lo)), blt(x - hi)])

    def havoc_region(self, st, shape, node):
        """everything below `shape` may have been overwritten"""
        ks = [k for k in st.mem if k[:len(shape)] == shape] + [shape + ("[]",)]
        for k in ks:
            st.mem[k] = Content(("havoc", self.fresh(node) if node is not None else (), k), ())

    def region_set(self, st, ptr, n, val, node, ty):
        """ptr[0..n) = val(i)"""
        b = A("bvtmp", ("rset", self.frame.ctx, node.nid))
        ba = b.single_atom()
        RANGES[ba] = (ZERO, n)
        v = val(b)
        shape = ptr.shape + ("[]",)
        if isinstance(v, St) or not isinstance(v, (P, BV, Ptr)):
            self.havoc_region(st, ptr.shape, node)
            return
        v = self.coerce(v, ty) if ty else v
        c = self.content(st, shape)
        st.mem[shape] = Content(c.base, c.layers + (Layer("set", ((ba, ZERO, n),), T, ptr.idx + (ptr.off + b,), v, None, node.line),))

    def vec_size(self, st, lv):
        return self.load(st, LV(lv.shape + ("#size",), lv.idx, "int"))

    def vec_set_size(self, st, lv, v, node):
        self.store(st, LV(lv.shape + ("#size",), lv.idx, "int"), v, node)

    def vec_fresh(self, st, lv):
        for k in [k for k in st.mem if k[:len(lv.shape)] == lv.shape]:
            del st.mem[k]

    def vec_fill(self, st, lv, lo, n, v, node):
        """elements lo..n) become v (None: value-initialised)"""
        et = vec_elem_t(lv.type)
        if v is None:
            if is_field_t(et):
                v = FZERO
            elif is_int_t(et):
                v = BV(F) if et == "bool" else ZERO
            elif is_ptr_t(et):
                v = NULL
            elif is_vec_t(et):
                return
            else:
                self.havoc_region(st, lv.shape, node)
                return
        self.region_set(st, Ptr(lv.shape, lv.idx, lo), n - lo, lambda b: v, node, et)

    def vec_construct(self, st, lv, n):
        """initialise the vector object at lv from constructor node n; False when not modelled"""
        args = [x for x in n.inner if x is not None and x.kind != "CXXDefaultArgExpr"]
        if lv.idx:
            return False
        if not args:
            self.vec_fresh(st, lv)
            self.vec_set_size(st, lv, ZERO, n)
            return True
        if len(args) == 1 and is_vec_t(args[0].type):
            src = self.try_lv(args[0], st)
            if src is None or src.idx:
                return False
            pre = src.shape
            for k in list(st.mem):
                if k[:len(pre)] == pre:
                    st.mem[lv.shape + k[len(pre):]] = st.mem[k]
            k = lv.shape + ("[]",)
            if k not in st.mem:
                st.mem[k] = self.content(st, pre + ("[]",))
            return True
        vals = [self.ev(a, st) for a in args]
        et = vec_elem_t(lv.type)
        if len(vals) <= 2 and isinstance(vals[0], P) and not vals[0].f and is_int_t(args[0].type):
            self.vec_fresh(st, lv)
            self.vec_set_size(st, lv, vals[0], n)
            v = vals[1] if len(vals) == 2 else None
            if v is not None and is_field_t(et):
                v = self.tofield(v)
            self.vec_fill(st, lv, ZERO, vals[0], v, n)
            return True
        if len(vals) == 2 and all(isinstance(v, Ptr) for v in vals) and vals[0].shape == vals[1].shape and vals[0].idx == vals[1].idx:
            p, q = vals
            self.vec_fresh(st, lv)
            self.vec_set_size(st, lv, q.off - p.off, n)
            self.region_set(st, Ptr(lv.shape, lv.idx), q.off - p.off, lambda b: self.load(st, self.ptr_elem(p, b, et)), n, et)
            return True
        return False

    def vec_method(self, name, lv, args, st, n):
        """library vector operations; None when not modelled"""
        et = vec_elem_t(lv.type)
        if name in ("size", "length"):
            return self.vec_size(st, lv)
        if name == "empty":
            return BV(beq(self.num(self.vec_size(st, lv))))
        if name in ("data", "begin", "cbegin"):
            return Ptr(lv.shape, lv.idx)
        if name in ("end", "cend"):
            return Ptr(lv.shape, lv.idx, self.num(self.vec_size(st, lv)))
        if name == "at":
            return self.load(st, LV(lv.shape + ("[]",), lv.idx + (self.num(self.ev(args[0], st)),), et))
        if name == "front":
            return self.load(st, LV(lv.shape + ("[]",), lv.idx + (ZERO,), et))
        if name == "back":
            return self.load(st, LV(lv.shape + ("[]",), lv.idx + (self.num(self.vec_size(st, lv)) - 1,), et))
        if name in ("reserve", "shrink_to_fit"):
            for a in args:
                self.ev(a, st)
            return Opq("void")
        if name in ("push_back", "emplace_back") and len(args) == 1:
            v = self.ev(args[0], st)
            if is_field_t(et):
                v = self.tofield(v)
            if self.hooks.get("push"):
                self.hooks["push"](self, lv, v, st, n)
            sz = self.num(self.vec_size(st, lv))
            self.store(st, LV(lv.shape + ("[]",), lv.idx + (sz,), et), v, n)
            self.vec_set_size(st, lv, sz + 1, n)
            return Opq("void")
        if name == "clear" and not lv.idx:
            self.vec_fresh(st, lv)
            self.vec_set_size(st, lv, ZERO, n)
            return Opq("void")
        if name in ("resize", "assign") and args:
            vals = [self.ev(a, st) for a in args if a.kind != "CXXDefaultArgExpr"]
            if isinstance(vals[0], P) and len(vals) <= 2 and is_int_t(args[0].type):
                old = self.num(self.vec_size(st, lv)) if name == "resize" else ZERO
                v = vals[1] if len(vals) == 2 else None
                if v is not None and is_field_t(et):
                    v = self.tofield(v)
                if name == "assign" or old.is_zero():
                    self.vec_fill(st, lv, ZERO, vals[0], v, n)
                    self.vec_set_size(st, lv, vals[0], n)
                    return Opq("void")
        return None

    def store(self, st, lv, val, node=None):
        if Interp.rw_log is not None:
            self.note_rw("w", lv, st, node, val.key[1] if isinstance(val, Opq) and val.key and val.key[0] == "thread" else None)
        if lv.shape and lv.shape[0] == "iteptr" and len(lv.shape) > 4:
            c, a, b = split_iteptr(lv)
            if a is None or b is None:
                if (a or b) is not None:
                    return self.store(st, a or b, val, node)
            else:
                for k, x in ((c, a), (bnot(c), b)):
                    self.store(st, x, vite(k, val, self.load(st, x)), node)
                return
        ty = strip(lv.type)
        if is_vec_t(ty):
            self.havoc_region(st, lv.shape, node)
            return
        if isinstance(val, St):
            fs = self.rec_fields(ty) or []
            fs = dict(fs)
            for k, v in val.d.items():
                self.store(st, lv.field(k, fs.get(k)), v, node)
            return
        if not is_arr_t(ty) and not is_field_t(ty) and not is_ptr_t(ty) and not is_int_t(ty):
            fs = self.rec_fields(ty)
            if fs is not None:
                for f, ft in fs:
                    self.store(st, lv.field(f, ft), self.havoc_value(("hv", f, self.fresh(node)), ft), node)
                return
        val = self.coerce(val, ty)
        shape, idx = lv.shape, lv.idx
        if is_heap_shape(shape):
            if self.inst:
                pass
            elif len(shape[0]) == 4:
                self.inststale.add(shape[0][:3])
            elif shape in self.instmem and self.instmem[shape][1] is not None and not set(shape[0][2]) <= set(self.loopstack):
                self.inststale.add(shape[0])
        line = node.line if node is not None else None
        c = self.content(st, shape)
        if not idx:
            st.mem[shape] = Content(c.base, (Layer("set", (), T, (), val, None, line),))
            return
        # array write
        layers = c.layers
        if isinstance(val, P):
            prior = self._select(c.base, layers, len(layers), shape, idx, ty)
            if isinstance(prior, P):
                x = val - prior
                if not self.mentions(x, c.base, shape) and self.mentions(val, c.base, shape):
                    if x.is_zero():
                        return
                    st.mem[shape] = Content(c.base, layers + (Layer("acc", (), T, idx, x, None, line),))
                    return
        # drop overwritten identical-index unguarded set at the end
        if layers and layers[-1].kind in ("set", "acc") and not layers[-1].binders and layers[-1].idx == idx:
            k = len(layers)
            while k > 0 and not layers[k - 1].binders and layers[k - 1].kind in ("set", "acc") and layers[k - 1].idx == idx:
                k -= 1
            layers = layers[:k]
        st.mem[shape] = Content(c.base, layers + (Layer("set", (), T, idx, val, None, line),))

    def mentions(self, x, base, shape):
        for a in deps_of(x):
            k = KEYS[a]
            if k[0] == "sel" and k[1] == base:
                return True
        return False

    def coerce(self, val, ty):
        if is_field_t(ty) and isinstance(val, P) and not val.f:
            return toF(val)
        if ty == "bool" and isinstance(val, P):
            return BV(t_.tobool(val))
        if is_int_t(ty) and ty != "bool" and isinstance(val, BV):
            return ind(val.b)
        return val

    def fresh(self, node):
        return (self.ctx(), node.nid if node is not None else 0)

    def ctx(self):
        return self.frame.ctx if getattr(self, "frame", None) else ()

    def havoc_value(self, key, ty):
        ty = strip(ty)
        idx = self.binder_idx()
        if is_field_t(ty):
            return A("unk", key, idx, f=True)
        if ty == "bool":
            return BV(("op", "unk", key, idx))
        if is_ptr_t(ty):
            return Ptr(("unk", key), idx)
        if is_int_t(ty) or ty in ("double", "float"):
            return A("unk", key, idx)
        fs = self.rec_fields(ty)
        if fs is not None:
            return St(ty, {f: self.havoc_value(key + (f,), ft) for f, ft in fs})
        return Opq("unk", key, idx)

    def binder_idx(self):
        return tuple(PA(L) for L in self.binders())

    def binders(self):
        return [atom("bv", k) for k in self.loopstack]

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2):
        """state that is s1 where c holds and s2 otherwise"""
        if not s1.alive and not s2.alive:
            s1.alive = False
            return s1
        if not s1.alive:
            return s2
        if not s2.alive:
            return s1
        r = State()
        r.pc = list(s2.pc)
        r.facts = [x for x in s1.facts if x in s2.facts]
        if s1.epoch == s2.epoch:
            r.epoch = s1.epoch
        else:
            r.epoch = ("mix", s1.epoch, s2.epoch)
        for k in set(s1.mem) | set(s2.mem):
            a = s1.mem.get(k)
            b = s2.mem.get(k)
            if a is b or a == b:
                r.mem[k] = a
                continue
            if a is None:
                a = Content(self.default_base(s1, k))
            if b is None:
                b = Content(self.default_base(s2, k))
            r.mem[k] = self.merge_content(c, k, a, b)
        return r

    def merge_content(self, c, shape, a, b):
        if a.base != b.base:
            # one side re-allocated; keep a side if the other is untouched garbage
            return Content(("mixbase", shape, a.base, b.base), ())
        scalar = not any(l.idx for l in a.layers) and not any(l.idx for l in b.layers) and "[]" not in shape
        if scalar:
            va = a.layers[-1].val if a.layers else None
            vb = b.layers[-1].val if b.layers else None
            if va is None or vb is None:
                known = va if va is not None else vb
                other = self.like_unknown(a.base, shape, known)
                if va is None:
                    va = other
                else:
                    vb = other
            if va == vb:
                return a
            return Content(a.base, (Layer("set", (), T, (), vite(c, va, vb), None, (a.layers or b.layers)[-1].line),))
        k = 0
        n = min(len(a.layers), len(b.layers))
        while k < n and (a.layers[k] is b.layers[k] or a.layers[k] == b.layers[k]):
            k += 1
        common = a.layers[:k]
        ra, rb = a.layers[k:], b.layers[k:]
        if len(ra) == 1 and len(rb) == 1 and ra[0].kind == rb[0].kind and ra[0].kind in ("set", "acc") and \
                ra[0].idx == rb[0].idx and ra[0].binders == rb[0].binders and ra[0].guard == rb[0].guard:
            if ra[0].val == rb[0].val:
                return Content(a.base, common + ra)
            return Content(a.base, common + (Layer(ra[0].kind, ra[0].binders, ra[0].guard, ra[0].idx,
                                                   vite(c, ra[0].val, rb[0].val), ra[0].extra, ra[0].line),))
        out = list(common)
        for w in ra:
            if w.kind in ("set", "acc"):
                out.append(Layer(w.kind, w.binders, band_([c, w.guard]), w.idx, w.val, w.extra, w.line))
            else:
                return Content(("mixspecial", shape, a.base), ())
        nc = bnot(c)
        for w in rb:
            if w.kind in ("set", "acc"):
                out.append(Layer(w.kind, w.binders, band_([nc, w.guard]), w.idx, w.val, w.extra, w.line))
            else:
                return Content(("mixspecial", shape, a.base), ())
        return Content(a.base, out)

    def like_unknown(self, base, shape, v):
        if isinstance(v, P):
            if v.f and is_heap(base):
                return FZERO
            return A("sel", base, (), f=v.f)
        if isinstance(v, BV):
            return BV(("op", "sel", base, ()))
        if isinstance(v, Ptr):
            return Ptr(shape, ())
        return Opq("sel", base, ())

    # ------------------------------------------------------------ running a function
    def run(self, fn, args=None, this=None, mem=None):
        """analyse fn as an entry point; returns (frame, final state)"""
        st = State()
        if mem:
            st.mem.update(mem)
        if fn.cls and this is None:
            this = LV(("this",), (), fn.cls)
        fr = Frame(fn, (fn.qname,), this)
        self.frame = fr
        self.nfun.add(fn.mangled)
        for i, p in enumerate(fn.params):
            nm = p.name or "arg%d" % i
            if args and i < len(args) and args[i] is not None:
                v = args[i]
                if isinstance(v, LV):
                    fr.vars[p.id] = v
                    continue
                lv = LV(("L", fr.ctx, nm, p.nid), (), strip(p.type))
                fr.vars[p.id] = lv
                self.store(st, lv, v, p)
            else:
                lv = LV(("arg", nm), (), strip(p.type))
                fr.vars[p.id] = lv
        if fn.inits and this is not None:
            self.run_inits(fn, this, st)
        self.exec(fn.body, st)
        if st.alive:
            fr.exits.append(Exit(band_(st.pc), None, fn.body, st.copy(), "end"))
        return fr, st

    def call_function(self, fn, args, this, st, node):
        """inline fn; args: list of values or LV (for references)"""
        if self.depth > 40 or fn.mangled in [f for f in self.callchain()]:
            return self.havoc_value(("rec", self.fresh(node)), fn.rtype)
        self.nfun.add(fn.mangled)
        self.ncalls += 1
        saved = self.frame
        ctx = saved.ctx + (node.nid,)
        parent_vars = None
        fr = Frame(fn, ctx, this, parent_vars)
        fr.parent = saved
        self.frame = fr
        self.depth += 1
        pc0, facts0 = st.pc, st.facts
        st.pc = []
        try:
            for i, p in enumerate(fn.params):
                ty = p.type
                if i < len(args):
                    v = args[i]
                else:
                    v = self.default_arg(p, st)
                isref = (ty or "").strip().endswith("&")
                if isref and isinstance(v, LV):
                    fr.vars[p.id] = v
                else:
                    if isinstance(v, LV):
                        v = self.load(st, v)
                    lv = LV(("L", ctx, p.name, p.nid), (), strip(ty))
                    fr.vars[p.id] = lv
                    self.store(st, lv, v, p)
            if fn.is_ctor:
                self.run_inits(fn, this, st)
            self.exec(fn.body, st)
        finally:
            self.frame = saved
            self.depth -= 1
        return self.finish_call(fr, st, pc0, facts0, node, fn)

    def callchain(self):
        out = []
        f = self.frame
        while f is not None:
            if f.fn is not None and getattr(f.fn, "mangled", None):
                out.append(f.fn.mangled)
            f = getattr(f, "parent", None)
        return out

    def default_arg(self, p, st):
        for c in p.inner:
            if c is not None:
                return self.ev(c, st)
        return Opq("defarg", p.name)

    def finish_call(self, fr, st, pc0, facts0, node, fn):
        fell = st.alive
        exits = list(fr.exits)
        rel = st
        if fell:
            exits.append(Exit(T, None, node, st.copy(), "end"))
        for ab in fr.aborts:
            ab.pc = band_(pc0 + [ab.pc])
            self.frame.aborts.append(ab)
        if not exits:
            st.alive = False
            st.pc, st.facts = pc0, facts0
            return Opq("noreturn")
        # last exit is the remainder
        last = exits[-1]
        val = last.val
        res = last.state
        for e in reversed(exits[:-1]):
            val = vite(e.pc, e.val, val) if (e.val is not None and val is not None) else (val if val is not None else e.val)
            if not e.loops:
                res = self.merge(e.pc, e.state, res)
        st.mem = res.mem
        st.epoch = res.epoch
        st.alive = True
        st.pc = pc0
        st.facts = facts0
        return val if val is not None else Opq("void")

    def run_inits(self, fn, this, st):
        for c in fn.inits:
            x = c.extra.get("anyInit")
            if x and c.inner and c.inner[0] is not None:
                nm = x.get("name")
                ft = None
                for f, t in (self.rec_fields(fn.cls) or []):
                    if f == nm:
                        ft = t
                if ft is None:
                    continue
                if c.inner[0].kind == "CXXDefaultInitExpr":
                    continue
                v = self.ev(c.inner[0], st)
                if is_arr_t(ft):
                    continue
                self.store(st, this.field(nm, ft), v, c)

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        if isinstance(n, list):
            for x in n:
                self.exec(x, st)
            return
        if n is None or not st.alive:
            return
        self.at = n
        m = getattr(self, "x_" + n.kind, None)
        if m:
            m(n, st)
        else:
            self.ev(n, st)

    def x_CompoundStmt(self, n, st):
        for c in n.inner:
            if not st.alive:
                return
            self.exec(c, st)

    def x_NullStmt(self, n, st):
        pass

    def x_DeclStmt(self, n, st):
        for c in n.inner:
            if c is not None and c.kind == "VarDecl":
                self.declare(c, st)

    def declare(self, d, st):
        fr = self.frame
        ty = d.type or ""
        init = [c for c in d.inner if c is not None]
        qt = (d.extra.get("qualType") or ty).strip()
        isref = ty.strip().endswith("&") or qt.endswith("&")
        if isref and init:
            lv = self.try_lv(init[-1], st)
            if lv is not None:
                fr.vars[d.id] = lv
                return
        lv = LV(("L", fr.ctx, d.name, d.nid), (), strip(ty))
        if d.extra.get("storageClass") == "static":
            local = lv
            lv = LV(("S", d.file, d.name, d.line), (), strip(ty))
            fr.vars[d.id] = lv
            if "const" in qt.split() and d.extra.get("init") and init and not is_arr_t(ty) and not is_vec_t(ty) and not any(lv.shape == k[:len(lv.shape)] for k in st.mem):
                v = self.ev(init[-1], st.copy())
                if not isinstance(v, Opq) and not deps_of(vkey(v)):
                    fr.vars[d.id] = local       # the same constant every time
                    self.store(st, local, v, d)
            return
        fr.vars[d.id] = lv
        if not d.extra.get("init") or not init:
            # uninitialised / default
            for k in [k for k in st.mem if k[:len(lv.shape)] == lv.shape]:
                del st.mem[k]
            self.default_init(lv, ty, st, d)
            return
        if is_vec_t(ty):
            x = init[-1]
            while x.kind in ("ExprWithCleanups", "ParenExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr") and len(x.inner) == 1:
                x = x.inner[0]
            if x.kind in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and self.vec_construct(st, lv, x):
                return
        v = self.ev(init[-1], st)
        if is_arr_t(ty):
            for k in [k for k in st.mem if k[:len(lv.shape)] == lv.shape]:
                del st.mem[k]
            self.array_init(st, lv, ty, init[-1], d)
            return
        self.store(st, lv, v, d)

    def array_init(self, st, lv, ty, x, d):
        et = pointee(ty)
        if x.kind == "InitListExpr" and not is_arr_t(et):
            xs = [c for c in x.inner if c is not None and c.kind not in ("ImplicitValueInitExpr",)]
            if any(c.extra.get("array_filler") for c in xs):
                pass
            for i, c in enumerate(xs):
                self.store(st, LV(lv.shape + ("[]",), lv.idx + (C(i),), et), self.ev(c, st), d)

    def default_init(self, lv, ty, st, node):
        ty = strip(ty)
        if is_field_t(ty):
            self.store(st, lv, FZERO, node)

    def x_IfStmt(self, n, st):
        inner = [c for c in n.inner]
        if n.extra.get("hasVar") or n.extra.get("hasInit"):
            self.exec(inner[0], st)
            inner = inner[1:]
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        c = self.cond(cond, st)
        if not st.alive:
            return
        self.branch(c, st, lambda s: self.exec(then, s), (lambda s: self.exec(els, s)) if els is not None else None)

    def branch(self, c, st, fthen, felse):
        c = self.decide(c, st)
        if c == T:
            fthen(st)
            return
        if c == F:
            if felse:
                felse(st)
            return
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(c)
        s1.facts.append(c)
        nc = bnot(c)
        s2.pc.append(nc)
        s2.facts.append(nc)
        fthen(s1)
        if felse:
            felse(s2)
        pc, facts = st.pc, st.facts
        r = self.merge(c, s1, s2)
        st.mem, st.alive, st.epoch = r.mem, r.alive, r.epoch
        st.pc = pc
        if not s1.alive and s2.alive:
            st.facts = facts + [x for x in [nc]]
            self.assume(st, c, False)
            self.settle(st)
        elif not s2.alive and s1.alive:
            st.facts = facts + [c]
            self.assume(st, c, True)
            self.settle(st)
        else:
            st.facts = facts

    def assume(self, st, c, val):
        """substitute the (non-trivial) truth value of an indicator into the store"""
        lits = []
        if val:
            lits = list(c[1]) if c[0] == "and" else [c]
        else:
            lits = [bnot(x) for x in c[1]] if c[0] == "or" else [bnot(c)]
        mp = {}
        for l in lits:
            neg = False
            if l[0] == "not":
                neg, l = True, l[1]
            if l[0] == "all":
                neg, l = not neg, bnot(l)
            if l[0] == "lt":
                q = ind(l)
                s = t_._single_ind(q)
                if s is None:
                    continue
                a, coef, const = s
                # q == 1 iff l ; value of atom a when q is known
                want = 0 if neg else 1
                mp[a] = C((want - const) * coef)
                continue
            if l[0] in ("eq", "any", "op"):
                a = t_._atoms.get(("ind", l))
                if a is not None:
                    mp[a] = ZERO if neg else ONE
        if not mp:
            return
        ks = frozenset(mp)
        for k, cc in list(st.mem.items()):
            hit = False
            for w in cc.layers:
                if deps_of(vkey(w.val)) & ks:
                    hit = True
            if hit:
                st.mem[k] = Content(cc.base, [Layer(w.kind, w.binders, w.guard, w.idx, vsubst(w.val, mp), w.extra, w.line)
                                              if w.kind in ("set", "acc") else w for w in cc.layers])

    def decide(self, c, st):
        if c in (T, F):
            return c
        if not st.facts:
            return c
        r = band_(st.facts + [c])
        if r == F:
            return F
        r = band_(st.facts + [bnot(c)])
        if r == F:
            return T
        return c

    def cond(self, n, st):
        v = self.ev(n, st)
        return self.as_bool(v)

    def as_bool(self, v):
        if isinstance(v, BV):
            return v.b
        if isinstance(v, P):
            return t_.tobool(v)
        if isinstance(v, Ptr):
            if v == NULL:
                return F
            return bopaque("ptr", v.key())
        if isinstance(v, Str):
            return T
        if isinstance(v, Opq):
            return bopaque("opq", v.key)
        return bopaque("?", repr(v))

    def x_ReturnStmt(self, n, st):
        v = None
        if n.inner and n.inner[0] is not None:
            v = self.ev(n.inner[0], st)
            if self.frame.fn is not None and strip(self.frame.fn.rtype) == "bool":
                v = self.coerce(v, "bool")
            elif self.frame.fn is not None and is_field_t(self.frame.fn.rtype):
                v = self.coerce(v, strip(self.frame.fn.rtype))
        if not st.alive:
            return
        if isinstance(v, BV):
            v = BV(self.decide(v.b, st))
        self.frame.exits.append(Exit(band_(st.pc), v, n, st.copy()))
        st.alive = False

    def x_BreakStmt(self, n, st):
        if self.breakstack:
            base, lst = self.breakstack[-1]
            c = st.copy()
            self.settle(c)
            lst.append((band_(st.pc[base:]), c, n))
        st.alive = False

    def settle(self, st):
        """flags whose value the branches taken decide"""
        if not st.facts:
            return
        for k, cc in list(st.mem.items()):
            if cc.layers and "[]" not in k and cc.layers[-1].kind == "set" and isinstance(cc.layers[-1].val, BV):
                w = cc.layers[-1]
                b = w.val.b
                if b not in (T, F):
                    r = self.decide(b, st)
                    if r != b:
                        st.mem[k] = Content(cc.base, list(cc.layers[:-1]) + [Layer("set", w.binders, w.guard, w.idx, BV(r), w.extra, w.line)])
            elif cc.layers and "[]" not in k and cc.layers[-1].kind == "set" and isinstance(cc.layers[-1].val, Ptr):
                w = cc.layers[-1]
                v = w.val
                while v.shape and v.shape[0] == "iteptr" and len(v.shape) >= 4:
                    r = self.decide(v.shape[1], st)
                    if r not in (T, F):
                        break
                    q = Ptr(*v.shape[2 if r == T else 3])
                    if v.shape[4:]:
                        rs, ri = rebase(q.key(), v.shape[4:], v.idx)
                        v = Ptr(rs, ri, v.off, v.obj)
                    else:
                        v = Ptr(q.shape, q.idx, q.off + v.off, q.obj)
                if v is not w.val:
                    st.mem[k] = Content(cc.base, list(cc.layers[:-1]) + [Layer("set", w.binders, w.guard, w.idx, v, w.extra, w.line)])

    def flag_conjs(self, cond, st, n, inc):
        """a flag among the conjuncts of a loop's condition is tested before the loop and at the end of each iteration"""
        parts, todo = [], [cond]
        while todo:
            x = todo.pop(0)
            y = x
            while y.kind in ("ParenExpr", "ExprWithCleanups") and len(y.inner) == 1:
                y = y.inner[0]
            if y.kind == "BinaryOperator" and y.op == "&&":
                todo = list(y.inner) + todo
            else:
                parts.append(x)
        if len(parts) < 2:
            return [cond], []
        flags, rest = [], []
        for x in parts:
            y = x
            while y.kind in ("ParenExpr", "ExprWithCleanups", "ImplicitCastExpr", "UnaryOperator") and len(y.inner) == 1 and (y.kind != "UnaryOperator" or y.op == "!"):
                y = y.inner[0]
            if y.kind in ("DeclRefExpr", "MemberExpr") and strip(y.type or "") == "bool":
                flags.append(x)
            else:
                rest.append(x)
        return (rest, flags) if rest else ([cond], [])

    def x_ContinueStmt(self, n, st):
        if self.contstack:
            base, lst = self.contstack[-1]
            lst.append((band_(st.pc[base:]), st.copy(), n))
        st.alive = False

    def x_SwitchStmt(self, n, st):
        inner = [c for c in n.inner if c is not None]
        body = inner[-1]
        val = self.ev(inner[-2], st)
        val = val if isinstance(val, P) else self.num(val)
        # flatten labels
        seq = []

        def flat(x):
            if x.kind == "CaseStmt":
                sub = [c for c in x.inner if c is not None]
                k = self.const_int(sub[0])
                seq.append(("case", k))
                flat(sub[-1])
            elif x.kind == "DefaultStmt":
                seq.append(("default", None))
                for c in x.inner:
                    if c is not None:
                        flat(c)
            else:
                seq.append(("stmt", x))
        for c in (body.inner if body.kind == "CompoundStmt" else [body]):
            if c is not None:
                flat(c)
        labels = [k for kd, k in seq if kd == "case"]
        entries = []
        i = 0
        while i < len(seq):
            if seq[i][0] in ("case", "default"):
                ks, dflt = [], False
                while i < len(seq) and seq[i][0] in ("case", "default"):
                    if seq[i][0] == "case":
                        ks.append(seq[i][1])
                    else:
                        dflt = True
                    i += 1
                entries.append((ks, dflt, i))
            else:
                i += 1
        nodef = band_([bnot(beq(val - k)) for k in labels])
        outs = []
        has_def = False
        for ks, dflt, start in entries:
            g = bor_([beq(val - k) for k in ks] + ([nodef] if dflt else []))
            has_def = has_def or dflt
            g = self.decide(g, st)
            if g == F:
                continue
            s = st.copy()
            base = len(s.pc)
            s.pc.append(g)
            s.facts.append(g)
            brk = []
            self.breakstack.append((base + 1, brk))
            for kd, x in seq[start:]:
                if kd == "stmt" and s.alive:
                    self.exec(x, s)
            self.breakstack.pop()
            r = s
            for bpc, bs, _ in reversed(brk):
                r = self.merge(bpc, bs, r) if r.alive else bs
            outs.append((g, r))
            if g == T:
                break
        res = st.copy()
        if has_def or any(g == T for g, _ in outs):
            res.alive = False
        for g, r in reversed(outs):
            if not r.alive:
                continue
            res = self.merge(g, r, res) if res.alive else r
        # when every branch died
        if not any(r.alive for _, r in outs) and not res.alive:
            st.alive = False
            return
        st.mem, st.epoch, st.alive = res.mem, res.epoch, True

    def const_int(self, n):
        for x in n.walk():
            if x.kind == "ConstantExpr" and x.value is not None:
                return int(x.value)
        for x in n.walk():
            if x.kind == "IntegerLiteral":
                return int(x.value)
        v = self.ev(n, State())
        if isinstance(v, P) and v.is_const():
            return v.const()
        raise AnalysisError("case label")

    # ------------------------------------------------------------ loops
    def x_ForStmt(self, n, st):
        init, _, cond, inc, body = (n.inner + [None] * 5)[:5]
        if self.tile is not None and not self.tiling and starts_workers(body) and self.tiled(n, init, cond, inc, body, st):
            return
        if init is not None:
            self.exec(init, st)
        self.loop(n, cond, inc, body, st)

    # ------------------------------------------------------------ workers that share a table out in consecutive slices
    tile = None              # (table sizes, small instances) when set: see tiled
    tiling = False
    tile_over = {}
    tile_w = 0
    tile_unsure = None
    tile_sites = 0

    def tiled(self, n, init, cond, inc, body, st):
        """A loop that starts workers: the loops over worker b's slice [lo(b), hi(b)) are recognised, the slices are shown to
        make up a whole table, and the workers are followed as if the first one did everything."""
        key = (self.frame.ctx, n.nid)
        marks = (len(self.events), len(self.frame.exits), len(self.frame.aborts), len(self.lost), len(self.accs))
        loops0, phi0 = dict(self.loops), dict(self.phicache)

        def dry(over):
            s = st.copy()
            self.tiling, self.tile_over, self.tile_w = True, over, 0
            try:
                if init is not None:
                    self.exec(init, s)
                self.loop(n, cond, inc, body, s)
                return self.loops.get(key), {k: r for k, r in self.loops.items() if loops0.get(k) is not r and k != key}
            finally:
                self.tiling, self.tile_over = False, {}
                del self.events[marks[0]:], self.frame.exits[marks[1]:], self.frame.aborts[marks[2]:], self.lost[marks[3]:], self.accs[marks[4]:]
                self.loops, self.phicache = dict(loops0), dict(phi0)
        rec, new = dry({})
        if rec is None or not rec.affine or rec.step != 1 or not rec.lo.is_zero() or not rec.hi.is_const() or not 0 < rec.hi.const() <= 64:
            self.tile_unsure = "the loop that starts the workers is not followed"
            return False
        b, N = atom("bv", key), rec.hi.const()
        over = {}
        for k, r in new.items():
            if r.affine and (b in r.lo.deps() or b in r.hi.deps()):
                T_ = self.tile_total(r, b, N) if r.step == 1 else None
                if T_ is None:
                    self.tile_unsure = "the workers' slices of a table are not recognised"
                    return False
                over[k] = (r.indshape, T_)
        rec, _ = dry(over)
        for shp, W in rec.W.items():
            for L in W or ():
                if L.idx and list(L.idx[-1:]) == [PA(b)] and not any(b in x.deps() for x in L.idx[:-1]):
                    vals = [L.val]
                else:
                    vals = list(L.idx) + [L.val]
                if any(b in deps_of(vkey(x)) for x in vals) or b in deps_of(L.guard) or W is None:
                    self.tile_unsure = "what a worker does depends on its number otherwise than by its slice (%s)" % "/".join(map(str, shp[1:]))
            if W is None:
                self.tile_unsure = "what the workers write is not followed"
        self.tile_sites += 1
        if init is not None:
            self.exec(init, st)
        try:
            for w in range(N):
                self.tile_over, self.tile_w = over, w
                brk, cont = [], []
                self.breakstack.append((0, brk))
                self.contstack.append((0, cont))
                self.exec(body, st)
                self.breakstack.pop()
                self.contstack.pop()
                if brk or cont:
                    self.tile_unsure = "the loop that starts the workers is left early"
                if inc is not None:
                    self.ev(inc, st)
        finally:
            self.tile_over, self.tile_w = {}, 0
        return True

    @staticmethod
    def only_keys(r):
        """beyond the table the loop finds no key of the map it walks, and does nothing"""
        for W in r.W.values():
            if W is None:
                return False
            for L in W:
                lits = L.guard[1] if L.guard[0] == "and" else [L.guard]
                if not any(KEYS[a][0] == "sel" and isinstance(KEYS[a][1], tuple) and KEYS[a][1][-1] == "#has" and PA(r.bv) in KEYS[a][2]
                           for c in lits if c[0] == "not" and c[1][0] == "eq" for a in c[1][1].atoms()):
                    return False
        return True

    def tile_cond(self, over, s, c):
        shp, size = over
        v = s.mem[shp].layers[-1].val if shp in s.mem and s.mem[shp].layers else None
        if not isinstance(v, P):
            self.tile_unsure = "the loop over a slice is not followed"
            return c
        return blt(v - size)

    def tile_total(self, r, b, N):
        sizes, insts = self.tile
        for S in sizes:
            ok, cnt = True, 0
            for mp in insts:
                tot = num_at(S, mp)
                if tot is None:
                    continue
                cnt += 1
                seen = []
                for w in range(N):
                    mw = dict(mp)
                    mw[b] = w
                    lo, hi = num_at(r.lo, mw), num_at(r.hi, mw)
                    if lo is None or hi is None:
                        ok = False
                        break
                    seen += range(lo, hi)
                seen.sort()
                if not ok or seen[:tot] != list(range(tot)) or (len(seen) > tot and not (len(set(seen)) == len(seen) and self.only_keys(r))):
                    ok = False
                    break
            if ok and cnt:
                return S
        return None

    def x_WhileStmt(self, n, st):
        inner = n.inner
        self.loop(n, inner[-2], None, inner[-1], st)

    def x_DoStmt(self, n, st):
        body, cond = n.inner[0], n.inner[1]
        self.loop(n, cond, None, body, st, post=True)

    def x_CXXForRangeStmt(self, n, st):
        ks = list(n.inner)
        while len(ks) < 8:
            ks.insert(0, None)
        init, rng, beg, end, cond, inc, var, body = ks[-8:]
        for x in (init, rng, beg, end):
            if x is not None:
                self.exec(x, st)
        self.loop(n, cond, inc, [var, body], st)

    def x_CXXTryStmt(self, n, st):
        self.exec(n.inner[0], st)

    def generic_havoc(self, n, st):
        for x in n.walk():
            if x.kind in ("BinaryOperator", "CompoundAssignOperator") and x.op and x.op.endswith("=") and x.op not in ("==", "!=", "<=", ">="):
                lv = None
                try:
                    lv = self.try_lv(x.inner[0], st.copy())
                except Exception:
                    lv = None
                if lv is not None:
                    for k in [k for k in st.mem if k[:len(lv.shape)] == lv.shape] + [lv.shape]:
                        st.mem[k] = Content(("havoc", n.nid, k), ())

    def loop(self, n, cond, inc, body, st, post=False, flagged=None):
        key = (self.frame.ctx, n.nid)
        over = self.tile_over.get(key) if self.tile_over else None
        if over is not None and self.tile_w != 0:
            return                  # an empty slice
        if over is not None and over[0] in st.mem:
            st.mem[over[0]] = Content(st.mem[over[0]].base, (Layer("set", (), T, (), ZERO, None, n.line),))
        conds, flags = flagged or (([cond], []) if post or cond is None else self.flag_conjs(cond, st, n, inc))
        if flags and not flagged:
            entry = band_([self.cond(x, st.copy()) for x in flags])
            if entry != T:
                self.branch(entry, st, lambda q: self.loop(n, cond, inc, body, q, flagged=(conds, flags)), None)
                return
        outer_pc, outer_facts = st.pc, st.facts
        ev0, ex0, ab0, lost0 = len(self.events), len(self.frame.exits), len(self.frame.aborts), len(self.lost)
        ac0 = len(self.accs)
        frames = []
        f = self.frame
        self.loopstack.append(key)
        bva = atom("bv", key)
        phis, indvar, second = self.phicache.get(key, (set(), None, {}))
        phis, second = set(phis), dict(second)
        tried_ind = indvar is not None
        rounds = 0
        try:
            while True:
                rounds += 1
                if rounds > 40:
                    raise AnalysisError("loop fixpoint at %s:%s" % (n.file, n.line))
                del self.events[ev0:]
                del self.accs[ac0:]
                del self.frame.exits[ex0:]
                del self.frame.aborts[ab0:]
                del self.lost[lost0:]
                s = st.copy()
                s.pc, s.facts = [], [x for x in outer_facts]
                s.facts = []
                start = {}
                inits = {}
                rec = LoopRec()
                rec.key, rec.node, rec.line, rec.file = key, n, n.line, n.file
                rec.bv, rec.affine = bva, False
                rec.breaks = []
                rec.rel = []
                rec.extra_cond = T
                for shp in sorted(phis, key=str):
                    if shp not in s.mem:
                        c0 = Content(self.default_base(s, shp))
                    else:
                        c0 = s.mem[shp]
                    inits[shp] = c0
                    s.mem[shp] = self.phi_content(key, shp, c0)
                if indvar is not None:
                    shp, step, lo, hi = indvar
                    RANGES.pop(bva, None)
                    if shp in phis:
                        v0 = inits[shp].layers[-1].val if inits[shp].layers else None
                        vb = Ptr(v0.shape, v0.idx, PA(bva)) if isinstance(v0, Ptr) else PA(bva)
                        s.mem[shp] = Content(s.mem[shp].base, (Layer("set", (), T, (), vb, None, n.line),))
                    for sh2, d2 in second.items():
                        if sh2 in phis:
                            i0 = inits[sh2].layers[-1].val if inits[sh2].layers else None
                            k2 = (PA(bva) - lo) if step == 1 else (hi - 1 - PA(bva))
                            if isinstance(i0, Ptr):
                                v2 = Ptr(i0.shape, i0.idx, i0.off + d2 * k2)
                            elif isinstance(i0, P):
                                v2 = i0 + d2 * k2
                            else:
                                continue
                            s.mem[sh2] = Content(s.mem[sh2].base, (Layer("set", (), T, (), v2, None, n.line),))
                for shp in phis:
                    start[shp] = s.mem[shp]
                s.epoch = ("loop", key) if self.loop_has_adv.get(key) else st.epoch
                s0mem = dict(s.mem)
                brk, cont = [], []
                if not post:
                    t_.SUSPECT.add(bva)
                    try:
                        c = band_([self.cond(x, s) for x in conds]) if cond is not None else T
                        if over is not None:
                            c = self.tile_cond(over, s, c)
                    finally:
                        t_.SUSPECT.discard(bva)
                else:
                    c = None
                rec.cond = c
                if indvar is not None and (indvar[0] in phis or indvar[0][0] == "#"):
                    RANGES[bva] = (indvar[2], indvar[3])
                self.breakstack.append((0, brk))
                self.contstack.append((0, cont))
                extra = T
                if c is not None:
                    c_main, extra = self.split_cond(c, phis, key, indvar)
                    if c_main == F:
                        pass
                    if extra != T:
                        brk.append((bnot(extra), s.copy(), n))
                        s.facts.append(extra)
                    if c not in (T, F):
                        s.facts.append(c)
                self.exec(body, s)
                self.contstack.pop()
                for bpc, bs, _ in reversed(cont):
                    s = self.merge(bpc, bs, s) if s.alive else bs
                for x in flags:
                    if s.alive:
                        self.branch(bnot(self.cond(x, s)), s, lambda q: self.x_BreakStmt(n, q), None)
                        self.settle(s)
                self.breakstack.pop()
                if inc is not None and s.alive:
                    self.ev(inc, s)
                if post and s.alive:
                    c = self.cond(cond, s)
                    rec.cond = c
                if s.alive and s.epoch != ("loop", key) and s.epoch != st.epoch and not self.loop_has_adv.get(key):
                    self.loop_has_adv[key] = True
                    continue
                changed = set()
                endmem = s.mem if s.alive else s0mem
                for shp, cc in endmem.items():
                    if shp in phis:
                        continue
                    b = s0mem.get(shp)
                    if b is None:
                        b = Content(self.default_base(s, shp))
                    if cc != b and not self.loop_local(shp, key, s0mem):
                        changed.add(shp)
                for _, bs, _ in brk:
                    # what only changes on the way out
                    for shp, cc in bs.mem.items():
                        if shp in phis or shp in changed or self.loop_local(shp, key, s0mem):
                            continue
                        b = s0mem.get(shp)
                        if b is None:
                            b = Content(self.default_base(s, shp))
                        if cc != b:
                            changed.add(shp)
                if changed:
                    phis |= changed
                    continue
                redo = False
                for shp in phis:
                    if "[]" in shp or (key, shp) in self.ptrfull:
                        continue
                    i0 = inits[shp].layers[-1].val if inits[shp].layers else None
                    nx = endmem.get(shp)
                    nx = nx.layers[-1].val if nx is not None and nx.layers else None
                    if isinstance(i0, Ptr) and i0 != NULL and not i0.obj and nx is not None \
                            and not (isinstance(nx, Ptr) and nx.shape == i0.shape and nx.idx == i0.idx and not nx.obj):
                        self.ptrfull.add((key, shp))
                        second.pop(shp, None)
                        redo = True
                if redo:
                    continue
                if not tried_ind and not post:
                    tried_ind = True
                    iv = self.find_induction(key, rec.cond, phis, inits, endmem, s.alive)
                    if iv is not None:
                        indvar = iv
                        continue
                if indvar is not None:
                    # recheck the range with current values
                    shp, step, lo, hi = indvar
                    iv = self.find_induction(key, rec.cond, phis, inits, endmem, s.alive, bva)
                    if iv is None:
                        indvar = None
                        RANGES.pop(bva, None)
                        continue
                    if iv[2] != lo or iv[3] != hi or iv[1] != step:
                        indvar = iv
                        continue
                    sec2 = self.find_second(key, indvar, phis, start, endmem, bva)
                    if sec2 != second:
                        for sh2 in second:
                            if sec2.get(sh2) != second[sh2]:
                                self.nosecond.add((key, sh2))
                                sec2.pop(sh2, None)
                        second = sec2
                        continue
                break
        finally:
            self.loopstack.pop()
        self.phicache[key] = (set(phis), indvar, second)
        rec.phis = {}
        rec.arrs = {}
        rec.W = {}
        if indvar is not None:
            rec.affine = True
            rec.step, rec.lo, rec.hi = indvar[1], indvar[2], indvar[3]
            rec.indshape = indvar[0]
        else:
            rec.step = rec.lo = rec.hi = rec.indshape = None
        rec.extra_cond = extra
        rec.breaks = brk
        rec.mem0, rec.mem1 = dict(st.mem), dict(endmem)
        self.loops[key] = rec
        # ---- summarise
        scal, arrs = [], []
        for shp in phis:
            a, b = start[shp], endmem.get(shp)
            if self.is_scalar_content(shp, a, b, inits[shp]):
                scal.append(shp)
            else:
                arrs.append(shp)
        for shp in arrs:
            b = endmem.get(shp)
            a = start[shp]
            if b is not None and b.base == a.base and b.layers[:len(a.layers)] == a.layers:
                rec.W[shp] = b.layers[len(a.layers):]
            elif b is not None and b.base == a.base:
                rec.W[shp] = b.layers
            else:
                rec.W[shp] = None
        res_cache = {}

        def resolve(v):
            return self.resolve(rec, inits, v, res_cache)
        out = {}
        for shp in arrs:
            out[shp] = self.summarise_array(rec, shp, inits[shp], rec.W[shp], resolve, endmem, inits)
        for shp in scal:
            iv = self.scalar_of(inits[shp], shp, start[shp])
            nv = self.scalar_of(endmem[shp], shp, start[shp])
            nv = resolve(nv)
            rec.phis[shp] = (iv, nv)
        self.infer_relations(rec)
        for shp in scal:
            iv, nv = rec.phis[shp]
            ov = self.scalar_out(rec, shp, iv, nv, scal)
            out[shp] = Content(inits[shp].base, (Layer("set", (), T, (), ov, None, n.line),))
        # ---- exits / events inside the loop
        for e in self.frame.exits[ex0:]:
            e.pc = mkq("any", key, bresolve(e.pc, resolve))
            e.pc = band_(outer_pc + [e.pc])
            e.val = resolve(e.val)
            e.loops = [key] + e.loops
        for e in self.frame.aborts[ab0:]:
            e.pc = band_(outer_pc + [mkq("any", key, bresolve(e.pc, resolve))])
            e.loops = [key] + e.loops
        for e in self.events[ev0:]:
            e.args = [resolve(x) for x in e.args]
            e.pc = bresolve(e.pc, resolve)
        if Interp.access_log is not None or Interp.rw_log is not None:
            self.close_accs(ac0, key, resolve, list(outer_facts) + list(outer_pc))
        # ---- state after the loop
        st.pc, st.facts = outer_pc, outer_facts
        lastmp = None
        if rec.affine and is_pos(rec.hi - rec.lo):
            lastmp = {bva: (rec.hi - 1 if rec.step == 1 else rec.lo)}
        for shp, cc in endmem.items():
            if shp in out:
                st.mem[shp] = out[shp]
            elif self.loop_local(shp, key, s0mem):
                # what is left of an object made in the loop body is the last iteration's instance
                if is_heap_shape(shp) and len(shp[0]) == 3:
                    if shp not in self.instmem or self.instmem[shp][1] == cc:
                        self.instmem.setdefault(shp, [cc, None])
                    else:
                        self.inststale.add(shp[0])
                if lastmp and is_heap_shape(shp):
                    cc = content_subst(cc, lastmp)
                if shp in self.instmem:
                    self.instmem[shp][1] = cc
                st.mem[shp] = cc
            # unchanged otherwise
        for shp in out:
            st.mem[shp] = out[shp]
        if self.loop_has_adv.get(key):
            st.epoch = ("after", key)
        if brk:
            real = [(bresolve(p, resolve), bs, nd) for p, bs, nd in brk]
            bc = mkq("any", key, bor_([p for p, _, _ in real]))
            bc = self.decide(bc, st)
            if bc != F:
                for shp in phis:
                    cc = st.mem.get(shp)
                    vals = [bs.mem.get(shp) for _, bs, _ in real]
                    if shp in scal:
                        nvs = [resolve(self.scalar_of(v, shp, start[shp])) for v in vals]
                        cur = st.mem[shp].layers[-1].val
                        if all(isinstance(x, BV) and x.b in (T, F) for x in nvs) and len(set(nvs)) == 1:
                            v = vite(bc, nvs[0], cur)
                        elif all(x == self.phi_value(key, shp, inits[shp]) for x in nvs) and rec.phis[shp][0] == rec.phis[shp][1]:
                            v = cur
                        else:
                            b0 = self.brk_value(key, shp, cur)
                            v = vite(bc, b0, cur)
                        st.mem[shp] = Content(st.mem[shp].base, (Layer("set", (), T, (), v, None, n.line),))
                    else:
                        if st.mem[shp] != inits[shp]:
                            st.mem[shp] = Content(("abrk", key, shp), ())
        # `for(;;)` without break never falls through
        if rec.cond == T and not brk:
            st.alive = False

    loop_has_adv = {}

    def loop_local(self, shp, key, s0mem):
        """heap object allocated, or local declared, inside the loop body: not loop carried"""
        root = shp[0]
        if root == "T":
            return True
        if isinstance(root, tuple) and root and root[0] == "heap":
            return key in root[2] and not self.inst
        if root == "L":
            # declared inside loop: not present at loop start
            return shp not in s0mem and not any(k[:4] == shp[:4] for k in s0mem) and self.declared_in(shp, key)
        return False

    def declared_in(self, shp, key):
        ctx, nid = shp[1], shp[3]
        n = None
        rec_ctx, loopnid = key
        if ctx == rec_ctx:
            node = self._loopnode(key)
            return node is None or any(x.nid == nid for x in node.walk() if x.kind in ("VarDecl", "ParmVarDecl"))
        return len(ctx) > len(rec_ctx) and ctx[:len(rec_ctx)] == rec_ctx

    def _loopnode(self, key):
        f = self.frame
        fn = f.fn
        cache = getattr(self, "_lncache", None)
        if cache is None:
            cache = self._lncache = {}
        if key in cache:
            return cache[key]
        r = None
        if fn is not None:
            for x in fn.node.walk():
                if x.nid == key[1] and x.kind in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                    r = x
        cache[key] = r
        return r

    def split_cond(self, c, phis, key, indvar):
        """separate the induction test(s) from further conjuncts of the loop condition"""
        if c[0] != "and":
            return c, T
        main, extra = [], []
        bva = atom("bv", key) if indvar is not None else None
        for x in c[1]:
            ok = x[0] == "lt" or (x[0] == "not" and x[1][0] == "eq" and not x[1][1].f)
            if ok and bva is not None:
                q = x[1] if x[0] == "lt" else x[1][1]
                ab = q.coeff_of(bva)
                ok = ab is not None and ab[0].is_const() and (ab[0].const() in (1, -1) or indvar[0][0] == "#" and not ab[0].is_zero())
            (main if ok else extra).append(x)
        lts = [x for x in main if x[0] == "lt"]
        if lts:
            extra += [x for x in main if x[0] != "lt"]
            main = lts
        if not main or (len(main) > 1 and not lts):
            return c, T
        return band_(main), band_(extra)

    def phi_content(self, key, shp, c0):
        base = ("phi", key, shp)
        # scalar?
        if self.scalar_like(shp, c0):
            return Content(c0.base, (Layer("set", (), T, (), self.phi_value(key, shp, c0), None, None),))
        return Content(base, ())

    def scalar_like(self, shp, c):
        return "[]" not in shp

    def phi_value(self, key, shp, c0):
        v = c0.layers[-1].val if c0.layers else None
        ty = self.shape_type(shp)
        if v is None:
            if ty is None:
                return A("phi", key, shp)
            v = self.unknown(("in",) + shp, shp, (), ty)
        if isinstance(v, P):
            return A("phi", key, shp, f=v.f)
        if isinstance(v, BV):
            return BV(("op", "phi", key, shp))
        if isinstance(v, Ptr):
            if v != NULL and not v.obj and (key, shp) not in self.ptrfull:
                return Ptr(v.shape, v.idx, A("phi", key, shp))
            return Ptr(("phi", key, shp))
        return Opq("phi", key, shp)

    def brk_value(self, key, shp, cur):
        if isinstance(cur, P):
            return A("brk", key, shp, f=cur.f)
        if isinstance(cur, BV):
            return BV(("op", "brk", key, shp))
        if isinstance(cur, Ptr):
            return Ptr(("brk", key, shp))
        return Opq("brk", key, shp)

    def shape_type(self, shp):
        return self.shape_types.get(shp)

    shape_types = {}

    def is_scalar_content(self, shp, a, b, init):
        return "[]" not in shp

    def scalar_of(self, c, shp, ref):
        if c is None or not c.layers:
            v = ref.layers[-1].val if ref.layers else None
            if v is not None:
                return self.like_unknown(c.base if c is not None else ("in",) + shp, shp, v)
            return A("sel", ("in",) + shp, ())
        return c.layers[-1].val

    def find_induction(self, key, cond, phis, inits, endmem, alive, bva=None):
        if cond is None or not alive:
            return None
        main, extra = self.split_cond(cond, phis, key, None)
        lits = list(main[1]) if main[0] == "and" else [main]
        tests = []
        for x in lits:
            if x[0] == "lt":
                tests.append((x[1], False))
            elif x[0] == "not" and x[1][0] == "eq" and not x[1][1].f:
                tests.append((x[1][1], True))
        if not tests:
            return None
        for shp in sorted(phis, key=str):
            if "[]" in shp:
                continue
            phi = A("phi", key, shp)
            nxt = endmem.get(shp)
            if nxt is None or not nxt.layers:
                continue
            nv = nxt.layers[-1].val
            if isinstance(nv, Ptr) and (key, shp) not in self.ptrfull and nv != NULL and not nv.obj:
                nv = nv.off
            if not isinstance(nv, P) or nv.f:
                continue
            for me in ([phi] if bva is None else [PA(bva), phi]):
                d = nv - me
                if not (d.is_const() and d.const() in (1, -1)):
                    continue
                step = d.const()
                iv = inits[shp].layers[-1].val if inits[shp].layers else A("sel", inits[shp].base, ())
                if isinstance(iv, Ptr):
                    iv = iv.off
                if not isinstance(iv, P):
                    continue
                a = me.single_atom()
                bounds = []
                for p, ne in tests:
                    ab = p.coeff_of(a)
                    if ab is None or ab[0].is_zero() or not ab[0].is_const() or ab[0].const() not in (1, -1):
                        continue
                    rest = ab[1]
                    # bound must not vary in the loop
                    if any((KEYS[x][0] in ("phi", "bv") and KEYS[x][1] == key) or
                           (KEYS[x][0] == "sel" and isinstance(KEYS[x][1], tuple) and KEYS[x][1][:2] == ("phi", key)) for x in rest.deps()):
                        continue
                    if ne:
                        nn = -rest if ab[0].const() == 1 else rest
                        bounds.append(nn if step == 1 else nn + 1)
                    elif ab[0].const() == 1 and step == 1:
                        bounds.append(-rest)
                    elif ab[0].const() == -1 and step == -1:
                        # -i + rest < 0  <=>  i > rest
                        bounds.append(rest + 1)
                if not bounds:
                    continue
                bounds.sort(key=t_.show)
                h = bounds[0]
                for b in bounds[1:]:
                    if step == 1:
                        h = h if is_nonneg(b - h) else b if is_nonneg(h - b) else ite(blt(h - b), h, b)
                    else:
                        h = h if is_nonneg(h - b) else b if is_nonneg(b - h) else ite(blt(b - h), h, b)
                return (shp, 1, iv, h) if step == 1 else (shp, -1, h, iv + 1)
        return self.find_stride(key, tests, phis, inits, endmem, bva)

    def find_stride(self, key, tests, phis, inits, endmem, bva):
        """a variable that advances by a power of two: counted by the number of the iteration"""
        for shp in sorted(phis, key=str):
            nxt = endmem.get(shp)
            if "[]" in shp or nxt is None or not nxt.layers or not inits[shp].layers:
                continue
            nv, iv = nxt.layers[-1].val, inits[shp].layers[-1].val
            if not isinstance(nv, P) or nv.f or not isinstance(iv, P):
                continue
            phi = A("phi", key, shp)
            d = nv - phi
            if not d.is_const() and bva is not None:
                d = (nv - iv).coeff_of(bva)
                d = d[0] if d is not None and (nv - iv - d[0] * (PA(bva) + 1)).is_zero() else None
            if d is None or not d.is_const() or not isinstance(d.const(), int) or abs(d.const()) not in (2, 4, 8, 16, 32, 64):
                continue
            d = d.const()
            s, m = abs(d), abs(d).bit_length() - 1
            for p, ne in tests:
                if ne:
                    continue
                q = subst(p, {bva: ZERO}) if bva is not None and bva in p.deps() else None
                if q is not None:
                    ab = p.coeff_of(bva)
                    if ab is None or not ab[0].is_const() or abs(ab[0].const()) != s:
                        continue
                    c = ab[0].const() // d
                    rest = q - c * iv
                else:
                    ab = p.coeff_of(phi.single_atom())
                    if ab is None or not ab[0].is_const() or ab[0].const() not in (1, -1):
                        continue
                    c, rest = ab[0].const(), ab[1]
                if c * d < 0 or any((KEYS[x][0] in ("phi", "bv") and KEYS[x][1] == key) or
                                    (KEYS[x][0] == "sel" and isinstance(KEYS[x][1], tuple) and KEYS[x][1][:2] == ("phi", key)) for x in rest.deps()):
                    continue
                n = -rest - iv if d > 0 else iv - rest
                e = t_.log2_mono(n)
                if e is not None and is_nonneg(e - m):
                    N = t_.p2(e - m)
                else:
                    N = shr(n + (s - 1), lift(m))
                return (("#",) + shp, 1, ZERO, N)
        return None

    def find_second(self, key, indvar, phis, start, endmem, bva):
        """further variables that advance by a fixed amount in every iteration"""
        out = {}
        for shp in phis:
            if "[]" in shp or shp == indvar[0] or (key, shp) in self.nosecond:
                continue
            a = start[shp].layers[-1].val if start[shp].layers else None
            b = endmem.get(shp)
            b = b.layers[-1].val if b is not None and b.layers else None
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.shape != b.shape or a.idx != b.idx or (a.shape and a.shape[0] == "phi"):
                    continue
                d = b.off - a.off
            elif isinstance(a, P) and isinstance(b, P) and not a.f and not b.f:
                d = b - a
            else:
                continue
            if d.is_zero() or any((KEYS[x][0] in ("phi", "bv") and KEYS[x][1] == key) or
                                  (KEYS[x][0] == "sel" and isinstance(KEYS[x][1], tuple) and KEYS[x][1][:2] == ("phi", key)) for x in d.deps()):
                continue
            if not d.is_const():
                continue
            out[shp] = d
        return out

    # ---- array reads that see the pre-loop value
    def resolve(self, rec, inits, v, cache):
        if v is None or isinstance(v, (Str, Opq, Closure)):
            return v
        ks = deps_of(vkey(v))
        mp = {}
        for a in ks:
            k = KEYS[a]
            if k[0] == "sel" and isinstance(k[1], tuple) and k[1][:2] == ("phi", rec.key):
                if a in cache:
                    r = cache[a]
                else:
                    r = self.resolve_sel(rec, inits, a, k)
                    cache[a] = r
                if r is not None:
                    mp[a] = r
        if not mp:
            return v
        return vsubst(v, mp)

    def resolve_sel(self, rec, inits, a, k):
        shp = k[1][2]
        if shp not in inits:
            return None
        W = rec.W.get(shp)
        if W is None or not rec.affine:
            return None
        ridx = k[2]
        if not self.unaffected(rec, W, ridx):
            return None
        c0 = inits[shp]
        ty = "prime_field::field_element" if self.is_fsel(a) else "int"
        return self._select(c0.base, c0.layers, len(c0.layers), shp, ridx, ty)

    fsel = set()

    def is_fsel(self, a):
        return True if a in self.fsel else self._guess_f(a)

    def _guess_f(self, a):
        # sel atoms are field typed unless they name integer data
        shp = KEYS[a][1][2] if isinstance(KEYS[a][1], tuple) and len(KEYS[a][1]) > 2 else ()
        last = shp[-1] if shp else ""
        return last not in ("ty", "u", "v", "bit_length", "total_depth")

    def unaffected(self, rec, W, ridx):
        """no earlier iteration writes index ridx (which is read in iteration bv)"""
        bv = rec.bv
        for w in W:
            if w.kind not in ("set", "acc"):
                return False
            z = A("bvtmp", ("dep", rec.key))
            za = z.single_atom()
            i = PA(bv)
            if rec.step == 1:
                RANGES[za] = (rec.lo, i)
            else:
                RANGES[za] = (i + 1, rec.hi)
            mp = {bv: z}
            for q, b in enumerate(w.binders):
                y = A("bvtmp", ("depb", rec.key, q))
                ya = y.single_atom()
                mp[b[0]] = y
                RANGES[ya] = (subst(b[1], mp), subst(b[2], mp))
            if len(w.idx) != len(ridx):
                return False
            ok = False
            for wi, x in zip(w.idx, ridx):
                if beq(x - subst(wi, mp)) == F:
                    ok = True
                    break
            if not ok:
                return False
        return True

    def summarise_array(self, rec, shp, c0, W, resolve, endmem, inits):
        opaque = Content(("aout", rec.key, shp), ())
        if W is None:
            return opaque
        if not W:
            return c0
        if not rec.affine:
            return opaque
        r = self.try_doubling(rec, shp, c0, W)
        if r is not None:
            return r
        r = self.try_fold(rec, shp, c0, W, endmem, inits)
        if r is not None:
            return r
        out = []
        b = (rec.bv, rec.lo, rec.hi)
        for w in W:
            if w.kind not in ("set", "acc"):
                return opaque
            val = resolve(w.val)
            guard = bresolve(w.guard, resolve)
            idx = tuple(resolve(x) for x in w.idx)
            bs = tuple((x, resolve(lo), resolve(hi)) for x, lo, hi in w.binders)
            if self.has_phi(rec, (vkey(val), guard, idx, tuple((l, h) for _, l, h in bs))):
                return opaque
            out.append(Layer(w.kind, (b,) + bs, guard, idx, val, w.extra, w.line))
        if self.crossing(rec, out):
            if __import__("os").environ.get("XDBG"): print("CROSS", str(shp)[:100], str(out)[:400])
            return opaque
        return Content(c0.base, c0.layers + tuple(out))

    def has_phi(self, rec, x):
        for a in deps_of(x):
            k = KEYS[a]
            if k[0] == "phi" and k[1] == rec.key:
                return True
            if k[0] == "sel" and isinstance(k[1], tuple) and k[1][:2] == ("phi", rec.key):
                return True
        return self.has_phi_bool(rec, x)

    def has_phi_bool(self, rec, x):
        if isinstance(x, tuple):
            if len(x) >= 3 and x[0] == "op" and x[1] == "phi" and x[2] == rec.key:
                return True
            return any(self.has_phi_bool(rec, y) for y in x)
        if isinstance(x, frozenset):
            return any(self.has_phi_bool(rec, y) for y in x)
        return False

    def try_doubling(self, rec, shp, c0, W):
        if rec.step != 1 or not rec.lo.is_zero() or len(W) != 2:
            return None
        i = PA(rec.bv)
        base = ("phi", rec.key, shp)
        hiw = low_ = None
        for w in W:
            if w.kind == "acc" and w.guard == T and len(w.binders) == 1:
                pass
            if w.kind != "set" or w.guard != T or len(w.binders) != 1 or len(w.idx) != 1:
                return None
            b, lo, hi = w.binders[0]
            if not lo.is_zero() or hi != p2(i):
                return None
            j = PA(b)
            sel = A("sel", base, (j,), f=True)
            sa = sel.single_atom()
            if not isinstance(w.val, P):
                return None
            ab = w.val.coeff_of(sa)
            if ab is None or not ab[1].is_zero() or b in ab[0].deps():
                return None
            if self.has_phi(rec, ab[0]):
                return None
            if w.idx[0] == j + p2(i):
                hiw = ab[0]
            elif w.idx[0] == j:
                low_ = ab[0]
            else:
                return None
        if hiw is None or low_ is None:
            return None
        cc = self._select(c0.base, c0.layers, len(c0.layers), shp, (ZERO,), "prime_field::field_element")
        return Content(c0.base, c0.layers + (Layer("eqtab", (), T, (), None, (cc, rec.bv, hiw, low_, rec.hi), rec.line),))

    def try_fold(self, rec, shp, c0, W, endmem, inits):
        if rec.step != 1 or not rec.lo.is_zero() or len(W) != 1:
            return None
        w = W[0]
        if w.kind != "set" or w.guard != T or len(w.binders) != 1 or len(w.idx) != 1 or not isinstance(w.val, P):
            return None
        b, lo, hi = w.binders[0]
        j = PA(b)
        if not lo.is_zero() or w.idx[0] != j:
            return None
        base = ("phi", rec.key, shp)
        e0 = A("sel", base, (2 * j,), f=True).single_atom()
        e1 = A("sel", base, (2 * j + 1,), f=True).single_atom()
        ab = w.val.coeff_of(e0)
        if ab is None:
            return None
        X = ab[0]
        cd = ab[1].coeff_of(e1)
        if cd is None or not cd[1].is_zero():
            return None
        Y = cd[0]
        if self.has_phi(rec, (X, Y)) or b in X.deps() or b in Y.deps():
            return None
        # the folded length must halve each round: hi = size/2 with size carried, size' = size/2
        ok = False
        for s2, c2 in inits.items():
            if "[]" in s2:
                continue
            ph = A("phi", rec.key, s2)
            nx = endmem.get(s2)
            if nx is None or not nx.layers or not isinstance(nx.layers[-1].val, P):
                continue
            if hi == shr(ph, 1) and nx.layers[-1].val == shr(ph, 1):
                init_sz = self.scalar_of(c2, s2, c2)
                if isinstance(init_sz, P):
                    # needs 2^N * something elements; element 0 after N folds uses 2^N entries
                    ok = True
                    rec.rel.append(("foldsize", shp, init_sz, rec.hi))
        lg = t_.log2_mono(hi)
        if not ok and lg is not None:
            # hi = 2^(n-1-i)
            if rec.bv in hi.deps():
                nn = lg + 1 + PA(rec.bv)
                if rec.bv not in nn.deps():
                    ok = True
                    rec.rel.append(("foldsize", shp, p2(nn), rec.hi))
        if not ok:
            return None
        # fold: element g bit i=0 weight X(i), bit i=1 weight Y(i)
        return Content(c0.base, (Layer("fold", (), T, (), None, (rec.bv, Y, X, rec.hi, c0), rec.line),))

    def scalar_out(self, rec, shp, iv, nv, scal):
        key = rec.key
        if isinstance(nv, BV) or isinstance(iv, BV):
            if not isinstance(iv, BV):
                iv = BV(self.as_bool(iv))
            if not isinstance(nv, BV):
                nv = BV(self.as_bool(nv))
            ph = ("op", "phi", key, shp)
            r = split_bool(nv.b, ph)
            if r is not None:
                kd, X = r
                if kd == "same":
                    return iv
                if not bool_mentions(X, ph):
                    if kd == "and":
                        return BV(band_([iv.b, mkq("all", key, X)]))
                    if kd == "or":
                        return BV(bor_([iv.b, mkq("any", key, X)]))
            return BV(("op", "out", key, shp))
        if isinstance(nv, Ptr) or isinstance(iv, Ptr):
            if iv == nv or nv == Ptr(("phi", key, shp)):
                return iv
            if isinstance(nv, Ptr) and isinstance(iv, Ptr) and nv.shape == iv.shape and nv.idx == iv.idx and not nv.obj and not iv.obj:
                o = self.scalar_out(rec, shp, iv.off, nv.off, scal)
                return Ptr(iv.shape, iv.idx, o)
            if rec.affine and is_pos(rec.hi - rec.lo) and isinstance(nv, Ptr) and is_heap_shape(nv.shape) \
                    and key in nv.shape[0][2] and len(nv.shape) == 1:
                return vsubst(nv, {rec.bv: rec.hi - 1 if rec.step == 1 else rec.lo})
            return Ptr(("out", key, shp))
        if isinstance(nv, P) and isinstance(iv, P):
            ph = A("phi", key, shp, f=nv.f or iv.f)
            pa = ph.single_atom()
            if nv == ph:
                return iv
            out = A("out", key, shp, f=nv.f or iv.f)
            if rec.affine:
                bv, lo, hi = rec.bv, rec.lo, rec.hi
                N = hi - lo
                if nv.single_atom() is None or nv.single_atom() != pa:
                    d = nv - ph
                    if pa not in d.deps() and not self.has_phi(rec, d):
                        return iv + mk_sum(bv, lo, hi, d)
                    ab = nv.coeff_of(pa)
                    if ab is not None and ab[1].is_zero() and not self.has_phi(rec, ab[0]) and pa not in ab[0].deps():
                        return iv * mk_prod(bv, lo, hi, ab[0])
                    if nv == shr(ph, 1):
                        return shr(iv, N)
                if PA(bv) == nv + (-1 if rec.step == 1 else 1) and shp:
                    # the induction variable itself
                    return hi if rec.step == 1 else lo - 1
                if pa not in nv.deps() and not self.has_phi(rec, nv):
                    last = hi - 1 if rec.step == 1 else lo
                    lastv = subst(nv, {bv: last})
                    if is_pos(N):
                        return lastv
                    return ite(blt(lo - hi), lastv, iv)
                mx = self.running_max(rec, shp, iv, nv, ph)
                if mx is not None:
                    return mx
                if lo.is_const() and hi.is_const() and N.const() <= 512:
                    # constant trip count: apply the step that often
                    others = {a for a in nv.deps() if KEYS[a][0] == "phi" and KEYS[a][1] == key and a != pa}
                    if not others:
                        val = iv
                        rng = range(lo.const(), hi.const())
                        for k in (rng if rec.step == 1 else reversed(rng)):
                            val = subst(nv, {pa: val, bv: lift(k)})
                            if len(val.t) > 50:
                                return out
                        return val
            else:
                r = self.while_forms(rec, shp, iv, nv)
                if r is not None:
                    return r
            return out
        if iv == nv:
            return iv
        if isinstance(nv, Opq) or isinstance(iv, Opq):
            return Opq("out", key, shp)
        return Opq("out", key, shp)

    def running_max(self, rec, shp, iv, nv, ph):
        """`if(x > m) m = x;` over the loop: the largest of the initial value and all x"""
        pa = ph.single_atom()
        for a in nv.atoms():
            k = KEYS[a]
            if k[0] != "ind" or k[1][0] != "lt":
                continue
            ab = k[1][1].coeff_of(pa)
            if ab is None or not ab[0].is_const() or ab[0].const() not in (1, -1):
                continue
            x = -ab[1] * ab[0].const()
            for y in (x, x + 1, x - 1):
                if self.has_phi(rec, y) or pa in y.deps():
                    continue
                if nv in (ite(blt(ph - y), y, ph), ite(blt(ph - y - 1), y, ph)):
                    return self.max_atom(rec, shp, iv, y)
        a = nv.single_atom()
        if a is not None and KEYS[a][0] == "maxof" and KEYS[a][3] == ph:
            return self.max_atom(rec, shp, iv, nv)
        return None

    def max_atom(self, rec, shp, iv, y):
        outer = sorted(a for a in y.deps() | rec.lo.deps() | rec.hi.deps()
                       if a != rec.bv and KEYS[a][0] in ("bv", "phi") and not (KEYS[a][0] == "phi" and KEYS[a][1] == rec.key))
        self.maxof[(rec.key, shp)] = (rec.bv, rec.lo, rec.hi, y, iv, tuple(outer))
        return A("maxof", rec.key, shp, iv, tuple(PA(a) for a in outer))

    def while_forms(self, rec, shp, iv, nv):
        """closed forms of loops that halve or double until a bound is reached:
        `while(x){c++; x>>=1;}`            c += bitlen(x), x = 0
        `while(x > 1){c++; x>>=1;}`        c += bitlen(x) - 1, x = 1          (x >= 1)
        `while((1 << k) < n) k++;`         k = bitlen(n - 1)                  (k = 0, n >= 1)
        `while(m < n){m <<= 1; c++;}`      m = 2^bitlen(n - 1)                (m = 1, n >= 1)"""
        key = rec.key
        c = rec.cond
        if c is None:
            return None
        ph = A("phi", key, shp)
        mine = lambda a: KEYS[a][0] == "phi" and KEYS[a][1] == key and KEYS[a][2] in rec.phis
        step = nv - ph if isinstance(nv, P) else None
        if c[0] == "not" and c[1][0] == "eq":
            x = c[1][1].single_atom()
            if x is None or not mine(x):
                return None
            xi, xn = rec.phis[KEYS[x][2]]
            if not isinstance(xi, P) or xn != shr(PA(x), 1):
                return None
            if shp == KEYS[x][2]:
                return ZERO
            if step is not None and step.is_const():
                return iv + step * t_.bitlen(xi)
            return None
        if c[0] != "lt":
            return None
        e = c[1]
        for x in e.atoms():
            k = KEYS[x]
            if mine(x):
                xi, xn = rec.phis[k[2]]
                ab = e.coeff_of(x)
                if not isinstance(xi, P) or not ab or not ab[0].is_const() or ab[1].deps() & self.phiset(rec, ab[1]):
                    continue
                X = PA(x)
                if ab[0].const() == -1 and ab[1] == ONE and xn == shr(X, 1) and is_pos(xi):
                    if shp == k[2]:
                        return ONE
                    if step is not None and step.is_const():
                        return iv + step * (t_.bitlen(xi) - 1)
                if ab[0].const() == 1 and xn == X * 2 and xi == ONE and is_pos(-ab[1]):
                    L = t_.bitlen(-ab[1] - 1)
                    if shp == k[2]:
                        return p2(L)
                    if step is not None and step.is_const():
                        return iv + step * L
            elif k[0] == "p2":
                ab = e.coeff_of(x)
                ex = t_.log2_mono(ab[0] * PA(x)) if ab and ab[0].is_const() else None
                if ex is None or not is_pos(-ab[1]) or ab[1].deps() & self.phiset(rec, ab[1]):
                    continue
                for y in ex.atoms():
                    if not mine(y):
                        continue
                    yi, yn = rec.phis[KEYS[y][2]]
                    kk = ex - PA(y)
                    if isinstance(yi, P) and kk.is_const() and (yi + kk).is_zero() and yn == PA(y) + 1:
                        L = t_.bitlen(-ab[1] - 1)
                        if shp == KEYS[y][2]:
                            return yi + L
                        if step is not None and step.is_const():
                            return iv + step * L
        return None

    def phiset(self, rec, p):
        return {a for a in p.deps() if KEYS[a][0] == "phi" and KEYS[a][1] == rec.key}

    # ---- loop-carried values at loop entry / after one iteration
    def shift(self, rec, x, mode, own=None, val=None):
        """x (a polynomial over the phis of loop rec) with every phi replaced by its value at loop
        entry (mode 0) or at the end of an iteration (mode 1).  The iteration number occurring in x
        itself becomes `own`; the one occurring in the replaced values becomes `val`."""
        if own is not None:
            x = vsubst(x, {rec.bv: own})
        mem = rec.mem0 if mode == 0 else rec.mem1
        mp = {}
        for a in deps_of(vkey(x)):
            k = KEYS[a]
            r = None
            if k[0] == "phi" and k[1] == rec.key and k[2] in rec.phis:
                r = rec.phis[k[2]][mode]
                if isinstance(r, Ptr):
                    r = r.off
            elif k[0] == "sel" and isinstance(k[1], tuple):
                b = k[1]
                if b[:3] == ("in", "phi", rec.key) and len(b) > 3 and b[3] in rec.phis:
                    p = rec.phis[b[3]][mode]
                    if isinstance(p, Ptr):
                        r = self.sel_through(mem, p, b[4:], k[2], rec, val)
                elif b[:2] == ("phi", rec.key) and len(b) == 3:
                    c = mem.get(b[2])
                    if c is not None:
                        if val is not None:
                            c = content_subst(c, {rec.bv: val})
                        r = self._select(c.base, c.layers, len(c.layers), b[2], k[2], "prime_field::field_element")
            if isinstance(r, P):
                if val is not None:
                    r = subst(r, {rec.bv: val})
                mp[a] = r
        return vsubst(x, mp) if mp else x

    def sel_through(self, mem, p, suffix, idx, rec, val):
        if not suffix or suffix[0] != "[]":
            return None
        shp = p.shape + tuple(suffix)
        idx = p.idx + (p.off + idx[0],) + tuple(idx[1:])
        c = mem.get(shp)
        if c is None:
            c = Content(("in",) + shp)
        if val is not None:
            c = content_subst(c, {rec.bv: val})
        return self._select(c.base, c.layers, len(c.layers), shp, idx, "prime_field::field_element")

    def infer_relations(self, rec):
        """invariants  Q[b] + P[b] = 1  between loop-carried pointers (both checked: entry and step)"""
        ptrs = [s for s, (a, b) in rec.phis.items() if isinstance(a, Ptr) and isinstance(b, Ptr)]
        rec.rel_pairs = []

    # ------------------------------------------------------------ expressions
    def num(self, v):
        if isinstance(v, P):
            return v
        if isinstance(v, BV):
            return ind(v.b)
        if isinstance(v, St):
            return A("top", ("num", id(v)))
        return A("opqnum", vkey(v))

    def ev(self, n, st):
        if n is None:
            return Opq("none")
        m = getattr(self, "e_" + n.kind, None)
        if m is None:
            lv = self.try_lv(n, st)
            if lv is not None:
                return self.load(st, lv)
            self.lost.append((n.file, n.line, n.kind))
            return self.havoc_value(("expr", self.fresh(n)), n.type or "")
        return m(n, st)

    def e_pass(self, n, st):
        for c in n.inner:
            if c is not None:
                return self.ev(c, st)
        return Opq("void")

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_pass
    e_SubstNonTypeTemplateParmExpr = e_pass

    def e_IntegerLiteral(self, n, st):
        return C(int(n.value))

    def e_CharacterLiteral(self, n, st):
        return C(int(n.value))

    def e_CXXBoolLiteralExpr(self, n, st):
        return BV(T if n.value in (True, "true") else F)

    def e_FloatingLiteral(self, n, st):
        return A("float", str(n.value))

    def e_StringLiteral(self, n, st):
        return Str(n.value)

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return NULL

    def e_GNUNullExpr(self, n, st):
        return NULL

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.name == "sizeof" or n.extra.get("name") == "sizeof":
            at = (n.extra.get("argType") or {})
            t = at.get("desugaredQualType") or at.get("qualType") or (n.inner[0].type if n.inner else None)
            if t:
                return A("sizeof", strip(t))
        return A("unk", ("ext", "sizeof", n.nid), ())

    def e_CXXScalarValueInitExpr(self, n, st):
        return ZERO

    def e_ImplicitValueInitExpr(self, n, st):
        ty = strip(n.type)
        if is_field_t(ty):
            return FZERO
        if is_ptr_t(ty):
            return NULL
        return ZERO

    def e_CXXThisExpr(self, n, st):
        t = self.frame.this
        return Ptr(t.shape, t.idx, ZERO, True) if t is not None else Ptr(("this",), (), ZERO, True)

    def e_CXXDefaultArgExpr(self, n, st):
        for c in n.inner:
            if c is not None:
                return self.ev(c, st)
        return Opq("defarg")

    def e_InitListExpr(self, n, st):
        ty = strip(n.type)
        fs = self.rec_fields(ty)
        vals = [self.ev(c, st) for c in n.inner if c is not None]
        if fs and not is_field_t(ty) and len(vals) == len(fs):
            return St(ty, {f: self.coerce(v, strip(ft)) for (f, ft), v in zip(fs, vals)})
        if len(vals) == 1:
            return vals[0]
        return Opq("initlist", self.fresh(n))

    def e_LambdaExpr(self, n, st):
        fn = None
        for x in n.walk():
            if x.kind == "CXXMethodDecl" and x.name == "operator()":
                body = [c for c in x.inner if c is not None and c.kind == "CompoundStmt"]
                if body:
                    from frontend import Func
                    f = Func()
                    f.node, f.tu, f.qname, f.mangled, f.cls = x, self.frame.tu, "lambda", "lambda%d" % n.nid, None
                    f.params = [c for c in x.inner if c is not None and c.kind == "ParmVarDecl"]
                    f.body, f.inits, f.file, f.line, f.is_ctor, f.static = body[0], [], x.file, x.line, False, False
                    f.rtype = (x.type or "").split("(")[0].strip()
                    fn = f
                    break
        return Closure(n, self.frame, fn)

    def cast(self, n, st):
        ck = n.extra.get("castKind")
        sub = [c for c in n.inner if c is not None]
        if not sub:
            return Opq("cast")
        sub = sub[-1]
        if ck == "LValueToRValue":
            if sub.kind == "DeclRefExpr" and (sub.ref or {}).get("kind") == "VarDecl":
                v = self.constant(sub.ref.get("id"), st)
                if v is not None:
                    return v
            lv = self.try_lv(sub, st)
            if lv is not None:
                return self.load(st, lv)
            return self.ev(sub, st)
        if ck == "ArrayToPointerDecay":
            if sub.kind == "StringLiteral":
                return Str(sub.value)
            lv = self.try_lv(sub, st)
            if lv is not None:
                return Ptr(lv.shape, lv.idx)
            return self.ev(sub, st)
        if ck == "NullToPointer":
            return NULL
        if ck == "FunctionToPointerDecay":
            m = self.prog.resolve(self.frame.tu, sub.ref) if sub.ref and sub.kind == "DeclRefExpr" else None
            if m in self.prog.funcs:
                return Opq("func", m)
            return Opq("fn", sub.ref["name"] if sub.ref else "?")
        v = self.ev(sub, st)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return BV(self.as_bool(v))
        if ck == "IntegralCast":
            ty = strip(n.type)
            if isinstance(v, BV):
                return ind(v.b)
            if isinstance(v, P) and v.is_const() and ty in UNS_BITS and isinstance(v.const(), int):
                return C(v.const() % (1 << UNS_BITS[ty]))
            return v
        if ck == "ToVoid":
            return Opq("void")
        if ck in ("IntegralToFloating", "FloatingCast", "FloatingToIntegral"):
            return A("conv", vkey(v)) if not (isinstance(v, P) and v.is_const()) else v
        return v

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = cast
    e_CXXReinterpretCastExpr = e_CXXConstCastExpr = cast

    def constant(self, id, st):
        """the value of a constant at namespace or class scope (None: not one, or not understood)"""
        ti = self.frame.tu
        init = self.prog.gconst.get((ti, id))
        if init is None:
            r = self.prog.gconst.get(self.prog.globals.get((ti, id)))
            if r is None:
                return None
            ti, init = r
        for x in init.walk():
            if x.kind in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXNewExpr"):
                return None
        fr, old = self.frame, self.frame.tu
        fr.tu = ti
        try:
            v = self.ev(init, st)
        finally:
            fr.tu = old
        return v if isinstance(v, (P, BV)) else None

    def e_DeclRefExpr(self, n, st):
        if n.ref and n.ref.get("kind") == "EnumConstantDecl":
            v = self.prog.enums.get((self.frame.tu, n.ref.get("id")))
            if v is not None:
                return lift(v)
        if n.ref and n.ref.get("kind") == "VarDecl":
            v = self.constant(n.ref.get("id"), st)
            if v is not None:
                return v
        lv = self.try_lv(n, st)
        if lv is None:
            if n.ref and n.ref.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                m = self.prog.resolve(self.frame.tu, n.ref)
                if m in self.prog.funcs:
                    return Opq("func", m)
            return Opq("ref", n.ref.get("name") if n.ref else "?")
        return self.load(st, lv)

    def e_MemberExpr(self, n, st):
        lv = self.try_lv(n, st)
        if lv is not None:
            return self.load(st, lv)
        v = self.ev(n.inner[0], st)
        return self.member(v, n.name, n.type)

    def member(self, v, name, ty):
        if isinstance(v, St):
            if name in v.d:
                return v.d[name]
        if isinstance(v, P) and name == "value":
            return v
        if isinstance(v, Opq):
            return self.typed_opq(("mem", v.key, name), ty)
        return self.havoc_value(("member", name, vkey(v)), ty or "")

    def typed_opq(self, key, ty):
        ty = strip(ty or "")
        if is_field_t(ty):
            return A("opq", key, f=True)
        if ty == "bool":
            return BV(("op", "opq", key))
        if is_int_t(ty):
            return A("opq", key)
        return Opq(*key)

    def e_ArraySubscriptExpr(self, n, st):
        lv = self.try_lv(n, st)
        if lv is None:
            if len(n.inner) == 2 and strip(n.inner[0].type or "").replace("const ", "").strip().startswith("char"):
                b, i = self.ev(n.inner[0], st), self.ev(n.inner[1], st)
                if isinstance(b, Str) and isinstance(i, P):
                    return t_.strch(strval(b.s), i)
            return self.havoc_value(("subs", self.fresh(n)), n.type or "")
        return self.load(st, lv)

    # -- lvalues
    def try_lv(self, n, st):
        k = n.kind
        if k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr"):
            return self.try_lv(n.inner[0], st)
        if k == "MaterializeTemporaryExpr":
            sub = n.inner[0]
            v = self.ev(sub, st)
            lv = LV(("T", self.frame.ctx, n.nid), (), strip(n.type))
            self.store(st, lv, v, n)
            return lv
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr"):
            ck = n.extra.get("castKind")
            if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase"):
                lv = self.try_lv(n.inner[0], st)
                return lv
            return None
        if k == "DeclRefExpr":
            r = n.ref
            if r is None:
                return None
            fr = self.frame
            while fr is not None:
                if r["id"] in fr.vars:
                    v = fr.vars[r["id"]]
                    return v
                fr = getattr(fr, "lexical", None)
            q = self.prog.globals.get((self.frame.tu, r["id"]))
            if q:
                return LV(("G", q), (), strip(n.type))
            if r.get("kind") in ("VarDecl", "ParmVarDecl"):
                return LV(("X", r.get("name")), (), strip(n.type))
            return None
        if k == "MemberExpr":
            b = n.inner[0]
            bt = strip(b.type)
            if n.extra.get("isArrow"):
                it = self.map_iter(b, st)
                if it is not None and n.name == "second":
                    return LV(it.key[1] + ("[]",), it.key[2] + (it.key[3],), strip(n.type))
                pv = self.ev(b, st)
                bcls = pointee(bt) if bt else None
                base = self.deref(pv, bcls)
            else:
                it = self.map_iter(b, st)
                if it is not None and n.name == "second":
                    return LV(it.key[1] + ("[]",), it.key[2] + (it.key[3],), strip(n.type))
                base = self.try_lv(b, st)
                bcls = bt
                if base is None:
                    return None
            if base is None:
                return None
            bcls = strip(bcls or "")
            if is_field_t(bcls) and n.name == "value":
                return LV(base.shape, base.idx, strip(n.type))
            if bcls in self.adversary:
                return self.adv_lv(n, st, base)
            lv = base.field(n.name, strip(n.type))
            self.shape_types[lv.shape] = strip(n.type)
            return lv
        if k == "ArraySubscriptExpr":
            a, i = n.inner[0], n.inner[1]
            av = self.ev(a, st)
            iv = self.ev(i, st)
            if isinstance(iv, Ptr):
                av, iv = iv, av
            iv = self.num(iv)
            if isinstance(av, Ptr):
                if Interp.access_log is not None:
                    self.note_access(n, av, iv, st)
                return self.ptr_elem(av, iv, strip(n.type))
            return None
        if k == "UnaryOperator" and n.op == "*":
            pv = self.ev(n.inner[0], st)
            if Interp.access_log is not None and isinstance(pv, Ptr):
                self.note_access(n, pv, ZERO, st)
            return self.deref(pv, strip(n.type))
        if k == "UnaryOperator" and n.op in ("++", "--") and not n.extra.get("isPostfix"):
            self.ev(n, st)
            return self.try_lv(n.inner[0], st)
        if k == "BinaryOperator" and n.op == "=":
            self.ev(n, st)
            return self.try_lv(n.inner[0], st)
        if k == "CompoundAssignOperator":
            self.ev(n, st)
            return self.try_lv(n.inner[0], st)
        if k == "CXXOperatorCallExpr":
            nm = self.callee_name(n)
            if nm == "operator=":
                self.ev(n, st)
                return self.try_lv(n.inner[1], st)
            if nm == "operator[]":
                return self.vec_elem(n, st)
            if nm == "operator*" and len(n.inner) == 2 and "iterator" in (n.inner[1].type or ""):
                x = self.ev(n.inner[1], st)
                if isinstance(x, Ptr):
                    return self.deref(x, strip(n.type))
        if k == "CXXMemberCallExpr":
            me = n.inner[0]
            b = me.inner[0] if me.inner else None
            if b is not None and me.name in ("at", "back", "front") and is_vec_t(b.type):
                lv = self.try_lv(b, st)
                if lv is not None:
                    i = ZERO if me.name == "front" else self.num(self.ev(n.inner[1], st)) if me.name == "at" else self.num(self.vec_size(st, lv)) - 1
                    return LV(lv.shape + ("[]",), lv.idx + (i,), strip(n.type))
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") and (n.extra.get("qualType") or "").strip() and n.extra.get("_lv"):
            return None
        return None

    def map_iter(self, b, st):
        """the iterator b of `b->` / `(*b).` when it is the result of a map's find"""
        while b is not None and b.kind in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") and b.inner:
            b = b.inner[0]
        if b is None or b.kind != "CXXOperatorCallExpr" or self.callee_name(b) not in ("operator->", "operator*") or len(b.inner) != 2 \
                or "iterator" not in (b.inner[1].type or ""):
            return None
        lv = self.try_lv(b.inner[1], st)
        v = self.load(st, lv) if lv is not None else self.ev(b.inner[1], st)
        return v if isinstance(v, Opq) and v.key and v.key[0] == "mapit" else None

    def map_has(self, st, lv, k):
        """is key k in the map (a condition)"""
        return bnot(beq(self.num(self.load(st, LV(lv.shape + ("[]", "#has"), lv.idx + (k,), "int")))))

    def map_method(self, name, lv, args, st, n):
        if name in ("end", "cend"):
            return Opq("mapend", lv.shape, lv.idx)
        if name in ("find", "count", "contains") and len(args) == 1:
            k = self.ev(args[0], st)
            if isinstance(k, P):
                if name == "find":
                    return Opq("mapit", lv.shape, lv.idx, k)
                h = self.map_has(st, lv, k)
                return BV(h) if name == "contains" else t_.ind(h)
        return None

    def vec_elem(self, n, st):
        base = self.try_lv(n.inner[1], st)
        if base is None:
            return None
        i = self.num(self.ev(n.inner[2], st))
        if Interp.rw_log is not None and is_map_t(n.inner[1].type):
            has = self.load(st, LV(base.shape + ("[]", "#has"), base.idx + (i,), "int"))
            self.note_rw("w", LV(base.shape + ("#keys",), base.idx, ""), st, n, ("key", bnot(beq(has)) if isinstance(has, P) else None))      # operator[] adds a missing key
        return LV(base.shape + ("[]",), base.idx + (i,), strip(n.type))

    access_log = None        # when a list: every indexed access (memcheck)
    rw_log = None            # when a list: every read and write, with forks and joins (racecheck)

    def note_rw(self, kind, lv, st, node=None, extra=None):
        self.accs.append([node, self.frame.ctx if self.frame else (), self.frame.fn if self.frame else None,
                          Ptr(lv.shape, lv.idx) if lv is not None else NULL, ZERO, list(st.facts) + list(st.pc), tuple(self.loopstack),
                          kind, tuple(self.workers), extra, self.at])

    def note_access(self, n, p, i, st):
        self.accs.append([n, self.frame.ctx, self.frame.fn, p, i, list(st.facts) + list(st.pc), tuple(self.loopstack)])

    def close_accs(self, ac0, key, resolve, outer):
        """accesses inside a loop that is now summarised: their terms in closed form, under the conditions around the loop"""
        seen = set()

        def ranges(x):
            for a in deps_of(x):
                if a in seen:
                    continue
                seen.add(a)
                r = RANGES.get(a)
                if r is None:
                    continue
                if any(KEYS[b][0] == "phi" and KEYS[b][1] == key for y in r for b in y.deps()):
                    r = RANGES[a] = tuple(resolve(y) for y in r)
                for y in r:
                    ranges(y)
        for e in self.accs[ac0:]:
            e[3] = resolve(e[3])
            if isinstance(e[4], P):
                e[4] = resolve(e[4])
            elif e[4][0] == "adv":
                e[4] = ("adv", e[4][1], [resolve(x) for x in e[4][2]])
            e[5] = [bresolve(c, resolve) for c in e[5]]
            e[5] += [c for c in outer if c not in e[5]]
            if isinstance(e[3], Ptr):
                ranges(e[3].off)
                for y in e[3].idx:
                    ranges(y)
            if isinstance(e[4], P):
                ranges(e[4])

    def ptr_elem(self, p, i, ty):
        if p.obj:
            # a single object has one element only
            if i.is_zero() or not re.search(r"\b(char|short|int|long|bool|float|double|u?int\d+_t|size_t|unsigned)\b|__int|\*", ty or "int"):
                return LV(p.shape, p.idx, ty)
            return LV(p.shape + ("[]",), p.idx + (i,), ty)
        return LV(p.shape + ("[]",), p.idx + (p.off + i,), ty)

    def deref(self, v, ty):
        if isinstance(v, Ptr):
            if v.obj:
                return LV(v.shape, v.idx, ty)
            if v == NULL:
                return LV(("NULLOBJ",), (), ty)
            # pointer member to a single object: region element 0
            if v.off.is_zero() and v.shape and v.shape[0] in ("this", "in", "G", "arg", "L") and not self.is_heap_shape(v.shape):
                return LV(v.shape + ("*",), v.idx, ty)
            return LV(v.shape + ("[]",), v.idx + (v.off,), ty)
        if isinstance(v, Opq):
            return LV(("opqobj", v.key), (), ty)
        return None

    def is_heap_shape(self, s):
        return isinstance(s[0], tuple) and s[0] and s[0][0] == "heap"

    def adv_lv(self, n, st, base):
        shape = ("ADV", st.epoch, n.name)
        return LV(shape, self.binder_idx() if st.epoch[0] == "call" else (), strip(n.type))

    # -- operators
    def e_UnaryOperator(self, n, st):
        op = n.op
        x = n.inner[0]
        if op in ("++", "--"):
            lv = self.try_lv(x, st)
            v = self.load(st, lv) if lv is not None else self.ev(x, st)
            d = 1 if op == "++" else -1
            if isinstance(v, Ptr):
                nv = Ptr(v.shape, v.idx, v.off + d, v.obj)
            else:
                v = self.num(v)
                nv = v + d
            if lv is not None:
                self.store(st, lv, nv, n)
            return v if n.extra.get("isPostfix") else nv
        if op == "&":
            lv = self.try_lv(x, st)
            if lv is None:
                return Opq("addr", self.fresh(n))
            if lv.shape and lv.shape[-1] == "[]":
                return Ptr(lv.shape[:-1], lv.idx[:-1], lv.idx[-1])
            return Ptr(lv.shape, lv.idx, ZERO, True)
        if op == "*":
            lv = self.try_lv(n, st)
            return self.load(st, lv) if lv is not None else self.havoc_value(("deref", self.fresh(n)), n.type or "")
        v = self.ev(x, st)
        if op == "!":
            return BV(bnot(self.as_bool(v)))
        v = self.num(v)
        if op == "-":
            return -v
        if op == "+":
            return v
        if op == "~":
            if v.is_const() and strip(n.type) in UNS_BITS:
                return C((~v.const()) % (1 << UNS_BITS[strip(n.type)]))
            return -v - 1
        return self.havoc_value(("un", op, self.fresh(n)), n.type or "")

    def e_BinaryOperator(self, n, st):
        op = n.op
        a, b = n.inner[0], n.inner[1]
        if op == "=":
            v = self.ev(b, st)
            lv = self.try_lv(a, st)
            if lv is not None:
                self.do_store(st, lv, v, n)
            return v
        if op == ",":
            self.ev(a, st)
            return self.ev(b, st)
        if op in ("&&", "||"):
            c = self.cond(a, st)
            c = self.decide(c, st)
            res = {}

            def right(s):
                res["v"] = self.as_bool(self.ev(b, s))
            if op == "&&":
                if c == F:
                    return BV(F)
                self.branch(c, st, right, None)
                return BV(band_([c, res.get("v", F)]))
            if c == T:
                return BV(T)
            self.branch(c, st, lambda s: None, right)
            return BV(bor_([c, res.get("v", F)]))
        x, y = self.ev(a, st), self.ev(b, st)
        return self.binop(op, x, y, n)

    def binop(self, op, x, y, n):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op in ("+", "-") and isinstance(x, Ptr) and isinstance(y, P):
                return Ptr(x.shape, x.idx, x.off + y if op == "+" else x.off - y, x.obj and y.is_zero())
            if op == "+" and isinstance(y, Ptr) and isinstance(x, P):
                return Ptr(y.shape, y.idx, y.off + x)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.shape == y.shape and x.idx == y.idx and not x.obj and not y.obj and x != NULL and y != NULL:
                d = x.off - y.off
                if op == "-":
                    return d
                return self.binop(op, d, ZERO, n)
            if op in ("==", "!="):
                e = T if x == y else bopaque("ptreq", vkey(x), vkey(y))
                return BV(e if op == "==" else bnot(e))
            return BV(bopaque("ptrcmp", op, vkey(x), vkey(y)))
        if isinstance(x, BV) and isinstance(y, BV) and op in ("==", "!=", "&", "|", "^"):
            if op == "&":
                return BV(band_([x.b, y.b]))
            if op == "|":
                return BV(bor_([x.b, y.b]))
            e = bite(x.b, y.b, bnot(y.b))
            return BV(e if op == "==" else bnot(e))
        x, y = self.num(x), self.num(y)
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "<<":
            return shl(x, y)
        if op == ">>":
            return shr(x, y)
        if op == "|":
            return bor(x, y)
        if op == "&":
            return band(x, y)
        if op == "^":
            return bxor(x, y)
        if op == "/":
            if y.is_const() and y.const() == 1:
                return x
            if y.is_const() and isinstance(y.const(), int) and y.const() > 0 and (y.const() & (y.const() - 1)) == 0:
                if (Interp.rw_log is not None or Interp.access_log is not None or self.tile is not None) and y.const() > 2 and not x.is_const():
                    return A("shr", x, lift(y.const().bit_length() - 1))        # the layer may be smaller than the number of workers
                return shr(x, y.const().bit_length() - 1)
            return A("div", x, y)
        if op == "%":
            if y.is_const() and isinstance(y.const(), int) and y.const() > 0 and (y.const() & (y.const() - 1)) == 0:
                return low(x, y.const().bit_length() - 1) if y.const() != 2 else t_.bit(x, ZERO)
            return A("mod", x, y)
        if op == "==":
            return BV(beq(x - y))
        if op == "!=":
            return BV(bnot(beq(x - y)))
        if op == "<":
            return BV(blt(x - y))
        if op == ">":
            return BV(blt(y - x))
        if op == "<=":
            return BV(bnot(blt(y - x)))
        if op == ">=":
            return BV(bnot(blt(x - y)))
        self.lost.append((n.file, n.line, "op " + op))
        return self.havoc_value(("bin", op, self.fresh(n)), n.type or "")

    def do_store(self, st, lv, v, n):
        if lv.shape and lv.shape[0] == "ADV":
            self.event("advstore", lv.shape[2], [v], st, n)
            return
        self.store(st, lv, v, n)

    def e_CompoundAssignOperator(self, n, st):
        y = self.ev(n.inner[1], st)
        lv = self.try_lv(n.inner[0], st)
        x = self.load(st, lv) if lv is not None else self.ev(n.inner[0], st)
        if strip(n.type) == "bool" and isinstance(x, BV):
            y = BV(self.as_bool(y))
        v = self.binop(n.op[:-1], x, y, n)
        if lv is not None:
            self.do_store(st, lv, v, n)
        return v

    def e_ConditionalOperator(self, n, st):
        c = self.cond(n.inner[0], st)
        res = {}

        def do(k, x):
            def f(s):
                res[k] = self.ev(x, s)
                if not s.alive:
                    res.pop(k, None)
            return f
        c2 = self.decide(c, st)
        self.branch(c2, st, do("t", n.inner[1]), do("f", n.inner[2]))
        if "t" in res and "f" in res and c2 not in (T, F):
            return vite(c2, res["t"], res["f"])
        return res.get("t", res.get("f", Opq("void")))

    # -- new / delete
    def e_CXXNewExpr(self, n, st):
        root = ("heap", (self.frame.ctx, n.nid), tuple(self.loopstack))
        size = None
        inner = [c for c in n.inner if c is not None]
        if n.extra.get("isArray"):
            for c in inner:
                if c.kind in ("CXXConstructExpr", "InitListExpr", "ImplicitValueInitExpr"):
                    continue
                size = self.num(self.ev(c, st))
                break
        pre = ()
        if self.inst:
            pre = tuple(PA(atom("bv", k)) for k in self.loopstack)
        if not pre:
            for k in [k for k in st.mem if k[0] == root]:
                del st.mem[k]
        ety = pointee(strip(n.type))
        self.event("new", ety, [size if size is not None else ONE], st, n, extra=root)
        if not n.extra.get("isArray"):
            for c in inner:
                if c.kind == "CXXConstructExpr":
                    v = self.ev(c, st)
                    self.store(st, LV((root,), pre, ety), v, n)
            return Ptr((root,), pre, ZERO, True)
        return Ptr((root,), pre)

    def e_CXXDeleteExpr(self, n, st):
        v = self.ev(n.inner[0], st)
        form = "[]" if n.extra.get("isArrayAsWritten") or n.extra.get("isArray") else ""
        self.event("delete", form, [v], st, n)
        if Interp.access_log is not None and isinstance(v, Ptr):
            self.note_access(n, v, ("del", form), st)
        return Opq("void")

    def e_CXXThrowExpr(self, n, st):
        self.frame.aborts.append(Exit(band_(st.pc), None, n, None, "throw"))
        st.alive = False
        return Opq("void")

    # -- calls
    def event(self, kind, name, args, st, n, res=None, extra=None):
        e = Event()
        e.kind, e.name, e.args, e.res = kind, name, list(args), res
        e.line, e.file, e.loops, e.pc = n.line, n.file, list(self.loopstack), band_(st.pc)
        self.seq += 1
        e.seq = self.seq
        e.func = self.frame.fn.qname if self.frame.fn else None
        e.node = n
        e.extra = extra
        self.events.append(e)
        return e

    def callee_ref(self, n):
        c = n.inner[0]
        while c is not None and c.kind in ("ImplicitCastExpr", "ParenExpr"):
            c = c.inner[0]
        return c

    def callee_name(self, n):
        c = self.callee_ref(n)
        if c is None:
            return None
        if c.ref:
            return c.ref.get("name") or c.name
        return c.name

    def arg_val(self, a, st, byref):
        if byref:
            lv = self.try_lv(a, st)
            if lv is not None:
                return lv
        return self.ev(a, st)

    def e_CallExpr(self, n, st):
        c = self.callee_ref(n)
        name = self.callee_name(n)
        args = [x for x in n.inner[1:] if x is not None]
        fn = None
        if c is not None and c.ref and c.kind == "DeclRefExpr":
            m = self.prog.resolve(self.frame.tu, c.ref)
            fn = self.prog.funcs.get(m) if m else None
            if fn is None and m is None:
                fn = None
            q = None
            if m:
                q = fn.qname if fn else m
        if c is not None and c.kind == "DeclRefExpr":
            lv = None
            if c.ref and c.ref.get("kind") in ("VarDecl", "ParmVarDecl"):
                v = self.ev(c, st)
                if isinstance(v, Closure):
                    return self.call_closure(v, args, st, n)
                if isinstance(v, Opq) and v.key and v.key[0] == "func" and not self.prog.funcs[v.key[1]].cls:
                    fn = self.prog.funcs[v.key[1]]
        if fn is not None:
            h = self.prim_call(fn, args, st, n)
            if h is not None:
                return h[0]
            return self.do_call(fn, args, None, st, n)
        return self.external(name, args, st, n)

    def prim_call(self, fn, args, st, n):
        q = fn.qname
        if q == "prime_field::random":
            return (self.random_draw(st, n),)
        if q in self.opaque or fn.qname.split("::")[-1] in self.opaque:
            vals = [self.ev(a, st) for a in args]
            r = self.havoc_value(("call", q, self.fresh(n)), fn.rtype)
            self.event("opaque", q, vals, st, n, r)
            return (r,)
        if fn.qname in ("prime_field::init", "prime_field::init_random", "prime_field::preprocess_mod"):
            vals = [self.ev(a, st) for a in args]
            self.event("call", q, vals, st, n)
            return (Opq("void"),)
        return None

    def random_draw(self, st, n):
        r = A("rnd", (self.frame.ctx, n.nid), self.binder_idx(), f=True)
        self.event("rnd", "random", [], st, n, r)
        return r

    def do_call(self, fn, args, this, st, n):
        vals = []
        for i, a in enumerate(args):
            byref = i < len(fn.params) and (fn.params[i].type or "").strip().endswith("&")
            vals.append(self.arg_val(a, st, byref))
        return self.call_function(fn, vals, this, st, n)

    def call_closure(self, v, args, st, n):
        if v.fn is None:
            return Opq("closure")
        fn = v.fn
        vals = []
        for i, a in enumerate(args):
            byref = i < len(fn.params) and (fn.params[i].type or "").strip().endswith("&")
            vals.append(self.arg_val(a, st, byref))
        saved = self.frame
        ctx = saved.ctx + (n.nid,)
        fr = Frame(fn, ctx, v.frame.this)
        fr.lexical = v.frame
        fr.parent = saved
        fr.tu = saved.tu
        self.frame = fr
        self.depth += 1
        pc0, facts0 = st.pc, st.facts
        st.pc = []
        try:
            for i, p in enumerate(fn.params):
                isref = (p.type or "").strip().endswith("&")
                val = vals[i] if i < len(vals) else self.default_arg(p, st)
                if isref and isinstance(val, LV):
                    fr.vars[p.id] = val
                else:
                    if isinstance(val, LV):
                        val = self.load(st, val)
                    lv = LV(("L", ctx, p.name, p.nid), (), strip(p.type))
                    fr.vars[p.id] = lv
                    self.store(st, lv, val, p)
            self.exec(fn.body, st)
        finally:
            self.frame = saved
            self.depth -= 1
        return self.finish_call(fr, st, pc0, facts0, n, fn)

    PURE = {"printf", "fprintf", "puts", "fputs", "sprintf", "snprintf", "strlen", "strcmp", "fopen", "fclose", "fflush", "perror",
            "fscanf", "sscanf", "scanf", "free", "memcmp", "equal", "accumulate", "atoi", "strtol", "now", "clock"}

    def bulk(self, name, vals, args, st, n):
        """std::copy, std::fill, memcpy, memset on arrays of known element type"""
        def et(a):
            t = a.type or ""
            x = a
            while x is not None and x.kind in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "ParenExpr") and x.inner:
                x = x.inner[0]
                if is_ptr_t(x.type) or is_arr_t(x.type):
                    t = x.type
            return strip(pointee(strip(t)) or "") if (is_ptr_t(t) or is_arr_t(t)) else None

        def same(p, q):
            return isinstance(p, Ptr) and isinstance(q, Ptr) and p.shape == q.shape and p.idx == q.idx
        if name in ("copy", "copy_n", "memcpy", "memmove") and len(vals) == 3:
            if name == "copy" and same(vals[0], vals[1]) and isinstance(vals[2], Ptr):
                src, dst, cnt, t = vals[0], vals[2], vals[1].off - vals[0].off, et(args[0])
                res = Ptr(dst.shape, dst.idx, dst.off + cnt)
            elif name == "copy_n" and isinstance(vals[0], Ptr) and isinstance(vals[2], Ptr) and isinstance(vals[1], P):
                src, dst, cnt, t = vals[0], vals[2], vals[1], et(args[0])
                res = Ptr(dst.shape, dst.idx, dst.off + cnt)
            elif name.startswith("mem") and isinstance(vals[0], Ptr) and isinstance(vals[1], Ptr) and isinstance(vals[2], P):
                src, dst, t = vals[1], vals[0], et(args[1])
                res = dst
                sz = A("sizeof", t or "?")
                cd = vals[2].coeff_of(sz.single_atom())
                if cd is None or not cd[1].is_zero():
                    return None
                cnt = cd[0]
            else:
                return None
            if not t or src.obj or dst.obj:
                return None
            self.region_set(st, dst, cnt, lambda b: self.load(st, self.ptr_elem(src, b, t)), n, t)
            return res
        if name in ("fill", "fill_n") and len(vals) == 3:
            if name == "fill" and same(vals[0], vals[1]):
                dst, cnt = vals[0], vals[1].off - vals[0].off
            elif name == "fill_n" and isinstance(vals[0], Ptr) and isinstance(vals[1], P):
                dst, cnt = vals[0], vals[1]
            else:
                return None
            t = et(args[0])
            if dst.obj:
                return None
            self.region_set(st, dst, cnt, lambda b: self.tofield(vals[2]) if t and is_field_t(t) else vals[2], n, t)
            return Opq("void")
        if name == "memset" and len(vals) == 3 and isinstance(vals[0], Ptr) and not vals[0].obj:
            t = et(args[0])
            if t and (is_field_t(t) or is_int_t(t)) and isinstance(vals[1], P) and vals[1].is_zero() and isinstance(vals[2], P):
                cd = vals[2].coeff_of(A("sizeof", t).single_atom())
                if cd is not None and cd[1].is_zero():
                    self.region_set(st, vals[0], cd[0], lambda b: FZERO if is_field_t(t) else ZERO, n, t)
                    return vals[0]
        return None

    NORETURN = {"abort", "exit", "_exit", "__assert_fail", "terminate", "quick_exit", "__assert"}

    def external(self, name, args, st, n):
        vals = []
        outs = []
        for a in args:
            # pointers / references to scalars handed to library code may be written
            lv = None
            x = a
            while x is not None and x.kind in ("ImplicitCastExpr", "ParenExpr") and x.inner:
                if x.extra.get("castKind") in ("LValueToRValue",):
                    break
                x = x.inner[0]
            if x is not None and x.kind == "UnaryOperator" and x.op == "&":
                lv = self.try_lv(x.inner[0], st)
            v = self.ev(a, st)
            vals.append(v)
            outs.append(lv)
        ev = self.event("call", name, vals, st, n)
        ev.extra = outs
        if name in self.NORETURN:
            self.frame.aborts.append(Exit(band_(st.pc), None, n, None, name))
            st.alive = False
            return Opq("void")
        if name == "strlen" and len(vals) == 1 and isinstance(vals[0], Str) and strval(vals[0].s) is not None:
            return lift(len(strval(vals[0].s)))
        if name == "make_pair" and len(vals) == 2:
            return St("pair", {"first": vals[0], "second": vals[1]})
        if name in ("move", "forward", "ref", "cref", "addressof") and len(vals) == 1:
            return vals[0]
        if name in ("max", "min") and len(vals) == 2 and all(isinstance(v, P) for v in vals):
            c = blt(vals[0] - vals[1])
            return ite(c, vals[1], vals[0]) if name == "max" else ite(c, vals[0], vals[1])
        if name == "swap" and len(args) == 2:
            l1, l2 = self.try_lv(args[0], st), self.try_lv(args[1], st)
            if l1 is not None and l2 is not None:
                v1, v2 = self.load(st, l1), self.load(st, l2)
                self.store(st, l1, v2, n)
                self.store(st, l2, v1, n)
                return Opq("void")
        if name in ("fscanf", "scanf", "sscanf") and self.hooks and self.hooks.get("scan"):
            r = self.hooks["scan"](self, name, vals, outs, st, n, ev)
            if r is not None:
                return r
        if name in ("atoi", "atol", "atoll", "stoi", "stol", "stoll", "strtol", "strtoll") and self.hooks and self.hooks.get("number"):
            r = self.hooks["number"](self, vals, args, st)
            if r is not None:
                return r
        r = self.bulk(name, vals, args, st, n)
        if r is not None:
            return r
        if name not in self.PURE:
            for v, lv in zip(vals, outs):
                if isinstance(v, Ptr) and lv is None and v != NULL and not v.obj:
                    self.havoc_region(st, v.shape, n)
        for i, lv in enumerate(outs):
            if lv is not None:
                fs = self.rec_fields(lv.type) if lv.type else None
                self.store(st, lv, self.havoc_value(("out", name, i, self.fresh(n)), lv.type or "int"), n)
        r = self.havoc_value(("ext", name, self.fresh(n)), n.type or "")
        ev.res = r
        return r

    def e_CXXMemberCallExpr(self, n, st):
        me = n.inner[0]
        while me.kind in ("ParenExpr", "ImplicitCastExpr"):
            me = me.inner[0]
        args = [x for x in n.inner[1:] if x is not None]
        base = me.inner[0]
        bt = strip(base.type)
        bcls = pointee(bt) if me.extra.get("isArrow") else bt
        bcls = strip(bcls or "")
        name = me.name
        if name and name.startswith("->"):
            name = name[2:]
        if bcls in ("std::thread", "thread") and name in ("join", "detach", "joinable"):
            if name != "joinable":
                lv = self.try_lv(me.inner[0], st) if me.inner else None
                self.note_fork(name, n, st, lv.shape if lv is not None else None)
            return ONE if name == "joinable" else Opq("void")
        if name == "emplace_back" and bcls.replace("std::", "").startswith("vector<thread") and args \
                and strip(args[0].type) not in ("std::thread", "thread"):
            v = self.fork(n, args, st)
            lv = self.try_lv(me.inner[0], st)
            if lv is not None and Interp.rw_log is not None:
                self.note_rw("w", lv, st, n, v.key[1])
            return Opq("void")
        if bcls in self.adversary:
            vals = []
            for a in args:
                vals.append(self.ev(a, st))
            bv = self.ev(base, st) if me.extra.get("isArrow") else None
            if not me.extra.get("isArrow"):
                self.ev(base, st)
            obj = self.deref(bv, bcls) if isinstance(bv, Ptr) else None if me.extra.get("isArrow") else self.try_lv(base, st)
            rty = self.ret_type(n)
            key = (self.frame.ctx, n.nid)
            r = self.msg_value(key, name, rty)
            self.event("pcall", name, vals, st, n, r, extra={"class": bcls, "object": obj, "from": [self.owner(a, st) for a in args]})
            st.epoch = ("call", key)
            if Interp.access_log is not None:
                self.note_access(n, NULL, ("adv", name, list(vals)), st)
            return r
        m = self.prog.resolve(self.frame.tu, me.ref) if me.ref else None
        fn = self.prog.funcs.get(m) if m else None
        if is_field_t(bcls):
            return self.field_method(name, base, args, st, n, me)
        if fn is not None:
            if me.extra.get("isArrow"):
                this = self.deref(self.ev(base, st), bcls)
            else:
                this = self.try_lv(base, st)
                if this is None:
                    v = self.ev(base, st)
                    this = LV(("T", self.frame.ctx, n.nid, "obj"), (), bcls)
                    self.store(st, this, v, n)
            if this is None:
                this = LV(("unkobj", n.nid), (), bcls)
            if this.type is None or strip(this.type) != fn.cls:
                this = LV(this.shape, this.idx, fn.cls)
            h = self.prim_call(fn, args, st, n)
            if h is not None:
                return h[0]
            return self.do_call(fn, args, this, st, n)
        # library method
        lv = self.try_lv(base, st) if not me.extra.get("isArrow") else self.deref(self.ev(base, st), bcls)
        if lv is not None and is_vec_t(bcls):
            lv = LV(lv.shape, lv.idx, bcls)
            r = self.vec_method(name, lv, args, st, n)
            if r is not None:
                return r
            if not (n.inner[0].type or "").rstrip().endswith("const"):
                self.havoc_region(st, lv.shape, n)
        if lv is not None and is_map_t(bcls):
            r = self.map_method(name, lv, args, st, n)
            if r is not None:
                return r
        vals = [self.ev(a, st) for a in args]
        lv = self.try_lv(base, st) if not me.extra.get("isArrow") else None
        bv = self.ev(base, st) if lv is None else None
        ev = self.event("mcall", name, vals, st, n, extra=(lv.shape if lv is not None else vkey(bv)))
        r = self.havoc_value(("ext", name, self.fresh(n)), n.type or "")
        ev.res = r
        return r

    def owner(self, n, st):
        """the object of an adversary class that an argument is a member of"""
        while n is not None and n.kind in ("ImplicitCastExpr", "ParenExpr", "UnaryOperator", "CXXConstructExpr", "MaterializeTemporaryExpr"):
            n = n.inner[0] if n.inner else None
        if n is None or n.kind != "MemberExpr":
            return None
        b = n.inner[0]
        bt = strip(b.type)
        if n.extra.get("isArrow"):
            if strip(pointee(bt) or "") not in self.adversary:
                return None
            v = self.ev(b, st)
            return self.deref(v, strip(pointee(bt))) if isinstance(v, Ptr) else None
        return self.try_lv(b, st) if bt in self.adversary else None

    def ret_type(self, n):
        return strip(n.type or "")

    def msg_value(self, key, name, ty):
        ty = strip(ty)
        idx = self.binder_idx()
        fs = None
        if is_field_t(ty):
            return A("msg", key, name, "", idx, f=True)
        if is_ptr_t(ty):
            return Ptr(("msgp", key, name), idx)
        if ty == "bool":
            return BV(("op", "msg", key, name, idx))
        fs = self.rec_fields(ty)
        if fs is not None:
            d = {}
            for f, ft in fs:
                if is_field_t(ft):
                    d[f] = A("msg", key, name, f, idx, f=True)
                else:
                    d[f] = self.msg_value(key + (f,), name, ft)
            return St(ty, d)
        if ty == "void":
            return Opq("void")
        if is_int_t(ty):
            return A("msg", key, name, "", idx)
        return Opq("msg", key, name, idx)

    def field_method(self, name, base, args, st, n, me):
        lv = None
        if me.extra.get("isArrow"):
            p = self.ev(base, st)
            lv = self.deref(p, "prime_field::field_element")
            x = self.load(st, lv) if lv is not None else FZERO
        else:
            x = self.ev(base, st)
        vals = [self.ev(a, st) for a in args]
        if name and name.startswith("operator"):
            return self.field_op(name[8:].strip(), x, vals[0] if vals else None, n)
        if name == "mul_non_mod":
            return self.tofield(x) * self.tofield(vals[0])
        if name == "random":
            r = self.random_draw(st, n)
            lv = self.try_lv(base, st)
            if lv is not None:
                self.store(st, lv, r, n)
            return Opq("void")
        self.event("fmeth", name, [x] + vals, st, n)
        return self.havoc_value(("fmeth", name, vkey(x)), n.type or "")

    def tofield(self, v):
        if isinstance(v, P):
            return v if v.f else toF(v)
        return A("opqF", vkey(v), f=True)

    def field_op(self, op, x, y, n):
        x = self.tofield(x)
        y = self.tofield(y) if y is not None else None
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "%":
            if y is not None and y.is_zero():       # reduction modulo the field's own modulus
                return x
            return A("fmod", x, y, f=True)
        if op == "==":
            return BV(beq(x - y))
        if op == "!=":
            return BV(bnot(beq(x - y)))
        if op == "<" and y.is_zero():
            return BV(F)
        if op in ("<", ">", "<=", ">="):
            return BV(bopaque("fcmp", op, x, y))
        self.lost.append((n.file, n.line, "field op " + op))
        return A("fop", op, x, y if y is not None else ZERO, f=True)

    def e_CXXOperatorCallExpr(self, n, st):
        name = self.callee_name(n) or ""
        args = [x for x in n.inner[1:] if x is not None]
        op = name[8:].strip() if name.startswith("operator") else name
        t0 = strip(args[0].type) if args else ""
        if op == "()":
            v = self.ev(args[0], st)
            if isinstance(v, Closure):
                return self.call_closure(v, args[1:], st, n)
        if op == "=" and len(args) == 2:
            fn = self.op_fn(n)
            if fn is None or fn.node.extra.get("isImplicit") or is_field_t(t0) or fn.node.extra.get("explicitlyDefaulted"):
                v = self.ev(args[1], st)
                lv = self.try_lv(args[0], st)
                if lv is not None:
                    if isinstance(v, P) and self.rec_fields(t0) and not is_field_t(t0):
                        v = Opq("badassign")
                    self.do_store(st, lv, v, n)
                return v
        if is_field_t(t0) or (len(args) > 1 and is_field_t(args[1].type) and op in ("+", "-", "*", "==", "!=")):
            fn = self.op_fn(n)
            if op in ("+=", "-=", "*="):
                y = self.ev(args[1], st)
                lv = self.try_lv(args[0], st)
                v = self.field_op(op[:-1], self.load(st, lv), y, n)
                self.do_store(st, lv, v, n)
                return v
            x = self.ev(args[0], st)
            y = self.ev(args[1], st) if len(args) > 1 else None
            if y is None and op == "-":
                return -self.tofield(x)
            return self.field_op(op, x, y, n)
        fn = self.op_fn(n)
        if fn is not None:
            if fn.cls and not fn.static:
                this = self.try_lv(args[0], st)
                if this is None:
                    v = self.ev(args[0], st)
                    this = LV(("T", self.frame.ctx, n.nid, "obj"), (), fn.cls)
                    self.store(st, this, v, n)
                if strip(this.type or "") != fn.cls:
                    this = LV(this.shape, this.idx, fn.cls)
                return self.do_call(fn, args[1:], this, st, n)
            return self.do_call(fn, args, None, st, n)
        if op == "[]":
            lv = self.vec_elem(n, st)
            if lv is not None:
                return self.load(st, lv)
        if "iterator" in t0 and args:
            x = self.ev(args[0], st) if op not in ("++", "--") else None
            if op in ("++", "--"):
                lv = self.try_lv(args[0], st)
                v = self.load(st, lv) if lv is not None else None
                if isinstance(v, Ptr):
                    nv = Ptr(v.shape, v.idx, v.off + (1 if op == "++" else -1), v.obj)
                    self.store(st, lv, nv, n)
                    return v if len(args) > 1 else nv
            elif isinstance(x, Ptr):
                if op == "*" and len(args) == 1:
                    return self.load(st, self.deref(x, strip(n.type)))
                if len(args) == 2 and op in ("+", "-", "==", "!=", "<", ">", "<=", ">="):
                    return self.binop(op, x, self.ev(args[1], st), n)
        vals = [self.ev(a, st) for a in args]
        if op in ("==", "!=") and len(vals) == 2 and all(isinstance(v, Opq) and v.key and v.key[0] in ("mapit", "mapend") for v in vals) \
                and vals[0].key[1:3] == vals[1].key[1:3] and {v.key[0] for v in vals} == {"mapit", "mapend"}:
            it = vals[0] if vals[0].key[0] == "mapit" else vals[1]
            h = self.map_has(st, LV(it.key[1], it.key[2], ""), it.key[3])
            return BV(h if op == "!=" else bnot(h))
        for a, v in zip(args, vals):
            if isinstance(v, Ptr) and op not in ("<<", ">>", "==", "!=", "<", ">"):
                self.havoc_region(st, v.shape, n)
        self.event("opcall", op, vals, st, n)
        ty = strip(n.type or "")
        if ty == "bool":
            return BV(bopaque("opcall", op, tuple(vkey(v) for v in vals)))
        return self.havoc_value(("opcall", op, self.fresh(n)), n.type or "")

    def op_fn(self, n):
        c = self.callee_ref(n)
        if c is not None and c.ref:
            m = self.prog.resolve(self.frame.tu, c.ref)
            return self.prog.funcs.get(m) if m else None
        return None

    def fork(self, n, args, st):
        """std::thread(f, args...): in terms of values, the call itself; the accesses it makes are marked as the worker's"""
        args = [a for a in args if a.kind != "CXXDefaultArgExpr"]
        f = args[0]
        while f is not None and f.kind in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "UnaryOperator", "CXXConstructExpr", "CXXFunctionalCastExpr") and len(f.inner) == 1:
            f = f.inner[0]
        w = (self.frame.ctx, n.nid)
        fn = clo = None
        if f is not None and f.kind == "DeclRefExpr":
            m = self.prog.resolve(self.frame.tu, f.ref) if f.ref else None
            fn = self.prog.funcs.get(m) if m else None
        byval = set()
        if fn is None:
            v = self.ev(args[0], st)
            if isinstance(v, Closure) and v.fn is not None:
                clo = v
                byval = captured_by_value(v.node)
            elif isinstance(v, Opq) and v.key and v.key[0] == "func":
                fn = self.prog.funcs.get(v.key[1])
        self.note_fork("fork", n, st, (w, frozenset(byval)))
        rest = args[1:]
        this = None
        if fn is not None and fn.cls and not fn.static and rest:
            o = self.ev(rest[0], st)
            this = self.deref(o, fn.cls) if isinstance(o, Ptr) else None
            if this is None:
                fn = None
            rest = rest[1:]
        vals = [self.arg_val(x, st, False) for x in rest]
        self.workers.append(w)
        try:
            if clo is not None:
                self.call_closure(clo, rest, st, n)
            elif fn is not None:
                self.call_function(fn, vals, this, st, n)
            else:
                self.note_fork("unknown", n, st, w)
        finally:
            self.workers.pop()
        return Opq("thread", w)

    def note_fork(self, kind, n, st, extra):
        if Interp.rw_log is not None:
            self.note_rw(kind, None, st, n, extra)

    def e_CXXConstructExpr(self, n, st):
        ty = strip(n.type)
        args = [x for x in n.inner if x is not None]
        if ty in ("std::thread", "thread", "std::jthread"):
            if not [a for a in args if a.kind != "CXXDefaultArgExpr"]:
                return Opq("thread", None)
            if strip(args[0].type) not in ("std::thread", "thread"):
                return self.fork(n, args, st)
            return self.ev(args[0], st)
        if is_arr_t(ty):
            return Opq("arrinit")
        if is_field_t(ty):
            if not args:
                return FZERO
            vals = [self.ev(a, st) for a in args]
            if len(vals) == 1:
                return self.tofield(vals[0])
            if isinstance(vals[0], Str):
                return A("strconst", vals[0].s, f=True)
            return A("fctor", tuple(vkey(v) for v in vals), f=True)
        fs = self.rec_fields(ty)
        if fs is not None:
            if len(args) == 1 and strip(args[0].type) == ty:
                return self.ev(args[0], st)
            ct = (n.extra.get("ctorType") or {}).get("qualType")
            cand = [f for f in self.prog.ctors.get(ty, []) if norm_sig(f.node.type) == norm_sig(ct)]
            if cand and not cand[0].node.extra.get("isImplicit"):
                this = LV(("T", self.frame.ctx, n.nid), (), ty)
                for f, ft in fs:
                    if is_field_t(ft):
                        self.store(st, this.field(f, ft), FZERO, n)
                self.do_call(cand[0], args, this, st, n)
                return self.load(st, this)
            if not args:
                return St(ty, {f: self.default_value(ft, n, f) for f, ft in fs})
            if ty.startswith("std::pair") or ty.startswith("pair"):
                vals = [self.ev(a, st) for a in args]
                if len(vals) == 2:
                    return St(ty, {"first": vals[0], "second": vals[1]})
                if len(vals) == 1 and isinstance(vals[0], St):
                    return vals[0]
        vals = [self.ev(a, st) for a in args]
        if len(vals) == 1:
            if isinstance(vals[0], (Str, Opq, St, Closure)):
                return vals[0]
        return Opq("obj", ty, self.fresh(n), tuple(vkey(v) for v in vals))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def default_value(self, ft, n, f):
        if is_field_t(ft):
            return FZERO
        return self.havoc_value(("uninit", f, self.fresh(n)), ft)


# -------------------------------------------------------------------- helpers

def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return (out + [None, None])[:2]


def norm_sig(t):
    if not t:
        return None
    t = t.replace("prime_field::", "").replace(" noexcept", "")
    t = re.sub(r"\s+", " ", t)
    return t


def captured_by_value(n):
    """names of the variables a lambda copies"""
    rec = next((c for c in n.inner if c is not None and c.kind == "CXXRecordDecl"), None)
    if rec is None:
        return set()
    fields = [c for c in rec.inner if c is not None and c.kind == "FieldDecl"]
    inits = [c for c in n.inner if c is not None and c is not rec and c.kind != "CompoundStmt"]
    out = set()
    for f, x in zip(fields, inits):
        if not (f.type or "").strip().endswith("&"):
            out |= {(y.ref or {}).get("name") for y in x.walk() if y.kind == "DeclRefExpr"}
    return out


def is_heap_shape(s):
    return isinstance(s[0], tuple) and bool(s[0]) and s[0][0] == "heap"


def content_subst(c, mp):
    out = []
    for w in c.layers:
        bs = tuple((b, subst(lo, mp), subst(hi, mp)) for b, lo, hi in w.binders)
        ex = w.extra
        if w.kind == "eqtab":
            cc, bv, X, Y, N = ex
            ex = (subst(cc, mp), bv, subst(X, mp), subst(Y, mp), subst(N, mp))
        elif w.kind == "fold":
            bv, X, Y, N, init = ex
            ex = (bv, subst(X, mp), subst(Y, mp), subst(N, mp), content_subst(init, mp))
        out.append(Layer(w.kind, bs, bsub(w.guard, mp), tuple(subst(x, mp) for x in w.idx),
                         vsubst(w.val, mp) if w.val is not None else None, ex, w.line))
    return Content(c.base, out)


def is_heap(base):
    # base = ("in", root, ...) where root is a heap root
    return isinstance(base, tuple) and len(base) > 1 and isinstance(base[1], tuple) and base[1] and base[1][0] == "heap"


def vkey(v):
    if isinstance(v, P):
        return v
    if isinstance(v, BV):
        return v.b
    if isinstance(v, Ptr):
        return ("ptr",) + v.key()
    if isinstance(v, St):
        return tuple((k, vkey(x)) for k, x in sorted(v.d.items()))
    if isinstance(v, Str):
        return ("str", v.s)
    if isinstance(v, Opq):
        return ("opq", v.key)
    return ("?", str(type(v)))


def vite(c, a, b):
    if c == T:
        return a
    if c == F:
        return b
    if a == b:
        return a
    if isinstance(a, BV) and isinstance(b, BV):
        return BV(bite(c, a.b, b.b))
    if isinstance(a, BV) and isinstance(b, P):
        a = ind(a.b)
    if isinstance(b, BV) and isinstance(a, P):
        b = ind(b.b)
    if isinstance(a, P) and isinstance(b, P):
        return ite(c, a, b)
    if isinstance(a, St) and isinstance(b, St) and set(a.d) == set(b.d):
        return St(a.cls, {k: vite(c, a.d[k], b.d[k]) for k in a.d})
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return Ptr(("iteptr", c, a.key(), b.key()))
    if isinstance(a, Opq) and a.key in (("void",), ("none",)):
        return b
    if isinstance(b, Opq) and b.key in (("void",), ("none",)):
        return a
    return Opq("ite", c, vkey(a), vkey(b))


def rebase(key, rest, idx):
    """the place `rest`/`idx` below a pointer given by its key"""
    sh, ix, off, obj = key
    if rest and rest[0] == "[]" and idx:
        if sh[0] == "iteptr" and len(sh) == 4:
            return sh + rest, (off + idx[0],) + tuple(idx[1:])
        return sh + rest, tuple(ix) + (off + idx[0],) + tuple(idx[1:])
    return sh + rest, tuple(ix) + tuple(idx)


def split_iteptr(lv):
    """the two places an access through a choice of pointers may mean"""
    c, ka, kb = lv.shape[1:4]
    out = []
    for k in (ka, kb):
        if k[0] == ("NULL",):
            out.append(None)
        else:
            s, i = rebase(k, lv.shape[4:], lv.idx)
            out.append(LV(s, i, lv.type))
    return c, out[0], out[1]


def vsubst(v, mp):
    if isinstance(v, P):
        return subst(v, mp)
    if isinstance(v, BV):
        return BV(bsub(v.b, mp))
    if isinstance(v, Ptr):
        sh = v.shape
        if sh and sh[0] == "iteptr" and len(sh) >= 4:
            r = vite(bsub(sh[1], mp), vsubst(Ptr(*sh[2]), mp), vsubst(Ptr(*sh[3]), mp))
            rest, idx, off = sh[4:], tuple(subst(x, mp) for x in v.idx), subst(v.off, mp)
            if not rest:
                return Ptr(r.shape, r.idx, r.off + off, r.obj)
            rs, ri = rebase(r.key(), rest, idx)
            return Ptr(rs, ri, off, v.obj)
        if sh and isinstance(sh[0], tuple) and len(sh[0]) == 4 and sh[0][0] == "heap":
            sh = (sh[0][:3] + (tuple((k, subst(lift(e), mp)) for k, e in sh[0][3]),),) + sh[1:]
        return Ptr(sh, tuple(subst(x, mp) for x in v.idx), subst(v.off, mp), v.obj)
    if isinstance(v, St):
        return St(v.cls, {k: vsubst(x, mp) for k, x in v.d.items()})
    if isinstance(v, Opq):
        return v
    return v


def subst_any(x, mp):
    return x


def bsub(b, mp):
    if b in (T, F) or not mp:
        return b
    return bsubst(b, mp, frozenset(mp), {})


def mkq(k, L, b):
    return t_.mk_q(k, L, b)


def bresolve(b, resolve):
    if b in (T, F):
        return b
    return resolve(BV(b)).b


def bool_mentions(b, x):
    if b == x:
        return True
    if isinstance(b, tuple):
        return any(bool_mentions(y, x) for y in b if isinstance(y, (tuple, frozenset)))
    if isinstance(b, frozenset):
        return any(bool_mentions(y, x) for y in b)
    return False


def split_bool(b, ph):
    """b == ph AND X, or b == ph OR X"""
    if b == ph:
        return ("same", None)
    if b[0] == "and" and ph in b[1]:
        return ("and", band_([x for x in b[1] if x != ph]))
    if b[0] == "or" and ph in b[1]:
        return ("or", bor_([x for x in b[1] if x != ph]))
    if b == F or b == T:
        return None
    return None


def mentions_atom(b, a):
    """does a condition depend on atom a"""
    return a in deps_of(b)
