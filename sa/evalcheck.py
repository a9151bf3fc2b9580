"""E01: what prover::evaluate leaves in the value table, cell by cell."""
import term as t_
from term import A, P, PA, T, F, ZERO, ONE, FZERO, KEYS, RANGES, atom, beq, ind, subst, mk_sum, p2, lift
from interp import Interp, LV, Ptr, St, vsubst, is_heap_shape
from gkr import Ob, Circuit, GATES_LINEAR, GATES_TRAD, opaque_atoms
from frontend import AnalysisError


def sym(name, lo, hi):
    z = A("bvtmp", ("spec", name))
    RANGES[z.single_atom()] = (lift(lo), lift(hi))
    return z


def unroll(p):
    """sums over ranges of a known small length, written out"""
    while True:
        a = next((a for m in p.t for a, _ in m if KEYS[a][0] == "sum" and (KEYS[a][2] - KEYS[a][1]).is_const() and (KEYS[a][2] - KEYS[a][1]).const() <= 32), None)
        if a is None:
            return p
        k = KEYS[a]
        s = FZERO if p.f else ZERO
        for j in range(max(0, (k[2] - k[1]).const())):
            s = s + t_.open_b(a, k[1] + j)
        p = t_.top_subst(p, a, s)


class EvalCheck:
    def __init__(self, prog, which):
        self.prog, self.which = prog, which
        self.fn = prog.func("prover::evaluate")
        self.I = Interp(prog, inst=True)
        self.fr, self.st = self.I.run(self.fn)
        self.cir = Circuit(which)
        self.obs = []

    def ob(self, id, ok, what, detail="", line=None):
        st = {True: "ok", False: "violated", None: "undecided"}[ok]
        self.obs.append(Ob(self.which + ":eval-" + id, ("E01",), st, what, self.fn.file, line or self.fn.line, detail))

    def load(self, ptr, idx, ty="prime_field::field_element"):
        p = ptr
        lv = LV(p.shape + ("[]",), tuple(p.idx) + (p.off + idx,), ty)
        return self.I.load(self.st, lv)

    # a row of the table found through a pointer carried by the layer loop
    def canon(self, v, i, blk):
        """replace reads of the row below by V(index)"""
        I = self.I
        mp, bad = {}, []
        for a in v.deps():
            k = KEYS[a]
            if k[0] != "sel" or not isinstance(k[1], tuple):
                continue
            r = self.row_of(k[1], k[2], i, blk)
            if r is None:
                continue
            if r == "bad":
                bad.append(a)
                continue
            mp[a] = A("Vprev", r, f=True)
        return subst(v, mp), bad

    def row_of(self, base, idx, i, blk):
        want = ((blk,) if blk is not None else ()) + (i - 1,)
        if len(base) >= 2 and base[0] == "in" and isinstance(base[1], str) and base[1] == "ptr":
            ph = base[2]
        elif len(base) >= 2 and base[0] == "in" and isinstance(base[1], tuple) and base[1][:1] == ("ptr",):
            ph = base[1][1]
        elif base[:2] == ("in", "phi") or (base and base[0] == "phi"):
            # a pointer carried round the loop, or cells of an object made in an earlier iteration
            b = base[1:] if base[0] == "in" else base
            return self.carried(b, idx, i, blk)
        else:
            return None
        if not isinstance(ph, tuple) or ph[0] != "phi":
            return None
        rec = self.I.loops.get(ph[1])
        if rec is None or not rec.affine or rec.step != 1:
            return None
        if len(idx) != len(want) + 1:
            return None
        if tuple(idx[:-1]) == want:
            return idx[-1]
        return "bad"

    def carried(self, b, idx, i, blk):
        rec = self.I.loops.get(b[1])
        if rec is None or not rec.affine or rec.step != 1:
            return None
        shp = b[2]
        ph = rec.phis.get(shp)
        if ph is not None and isinstance(ph[0], Ptr) and isinstance(ph[1], Ptr):
            # carried pointer: row lo-1 at entry, the row just made afterwards
            z = PA(rec.bv)
            r0 = self.rowptr(rec.lo - 1, blk)
            r1 = self.rowptr(z, blk)
            if r0 is not None and r1 is not None and r0 == ph[0] and r1 == ph[1]:
                return idx[-1] if (rec.lo - 1).is_zero() else None
            return None
        if is_heap_shape(shp) and b[1] in shp[0][2]:
            k = shp[0][2].index(b[1])
            if k < len(idx) and idx[k] == i - 1 and len(idx) == len(shp[0][2]) + 1:
                return idx[-1]
        return None

    def rowptr(self, i, blk):
        I = self.I
        lv = LV(("this", "circuit_value"), (), "prime_field::field_element ***" if blk is not None else None)
        if blk is not None:
            p = I.load(self.st, lv)
            if not isinstance(p, Ptr):
                return None
            q = I.load(self.st, LV(p.shape + ("[]",), tuple(p.idx) + (p.off + blk,), "prime_field::field_element **"))
        else:
            q = Ptr(("this", "circuit_value"))
        if not isinstance(q, Ptr):
            return None
        return I.load(self.st, LV(q.shape + ("[]",), tuple(q.idx) + (q.off + i,), "prime_field::field_element *"))

    def cell_checks(self, tag, val, i, g, blk, line=None):
        """val: the value of gate g of layer i >= 1"""
        cir = self.cir
        ty = cir.gate("ty", i, g, blk)
        u, v = cir.gate("u", i, g, blk), cir.gate("v", i, g, blk)
        names = {0: "add", 1: "multiply", 2: "dummy", 4: "direct relay", 5: "range sum", 6: "not", 7: "minus", 8: "xor", 9: "naab", 10: "relay"}
        gates = dict(GATES_LINEAR if self.which == "linear" else GATES_TRAD)
        gates[2] = lambda x, y: FZERO
        if self.which == "linear":
            gates[4] = lambda x, y: x
            gates[5] = None
        if not isinstance(val, P):
            self.ob(tag, None, "gate values have a recognised form", repr(val)[:200], line)
            return
        for k, G in sorted(gates.items()):
            what = "a gate of type %d (%s) gets the value of its function on the row below" % (k, names[k])
            x = subst(val, {ty.single_atom(): lift(k)})
            x, bad = self.canon(x, i, blk)
            V = lambda z: A("Vprev", lift(z), f=True)
            if G is None:
                j = sym("sumj", u, v)
                want = mk_sum(j.single_atom(), u, v, V(j))
            else:
                want = G(V(u), V(v))
            d = x - want
            if d.is_zero():
                self.ob("%s-ty%d" % (tag, k), True, what, "", line)
            else:
                opq = [a for a in opaque_atoms(x) if KEYS[a][0] != "Vprev" and a not in bad]
                if G is None and not opq:
                    # a sum in another form: what it comes to on ranges of every small length
                    n = next((n for n in range(10) if not unroll(subst(d, {v.single_atom(): u + n})).is_zero()), None)
                    if n is None:
                        self.ob("%s-ty%d" % (tag, k), None, what, "a sum of another form, right for ranges of up to 9 wires", line)
                        continue
                    self.ob("%s-ty%d" % (tag, k), False, what, "for a range of %d wires the value is %s" % (n, t_.show(unroll(subst(x, {v.single_atom(): u + n})))[:300]), line)
                    continue
                self.ob("%s-ty%d" % (tag, k), None if opq else False, what,
                        "value %s" % t_.show(x)[:300] + (" (not followed)" if opq else ""), line)

    def run(self):
        try:
            self._run()
        except Stop:
            pass
        return self.obs

    def _run(self):
        cir, I = self.cir, self.I
        blk = sym("blk", 0, p2(cir.nb)) if self.which == "bc_clogc" else None
        i = sym("lay", 1, cir.D)
        # input row
        g = sym("g0", 0, p2(cir.bl(ZERO)))
        r = self.rowptr(ZERO, blk)
        if not isinstance(r, Ptr):
            self.ob("input", None, "the input row is found in the value table")
        else:
            val = self.load(r, g)
            ty, u = cir.gate("ty", ZERO, g, blk), cir.gate("u", ZERO, g, blk)
            for k, want in ((3, None), (2, None)):
                what = "an input gate has its constant as value" if k == 3 else "a dummy input gate has the value the verifier uses"
                x = subst(val, {ty.single_atom(): lift(k)}) if isinstance(val, P) else None
                if x is None:
                    self.ob("input-ty%d" % k, None, what)
                    continue
                want = self.fint(u) if k == 3 or self.which == "bc_clogc" else FZERO
                d = x - want
                self.ob("input-ty%d" % k, True if d.is_zero() else (None if opaque_atoms(x) else False), what, t_.show(x)[:300])
        # inner rows
        g = sym("g", 0, p2(cir.bl(i)))
        r = self.rowptr(i, blk)
        if not isinstance(r, Ptr):
            self.ob("row", None, "the rows are found in the value table", repr(r)[:200])
        else:
            self.cell_checks("row", self.load(r, g), i, g, blk)
        # returned output
        exits = [e for e in self.fr.exits if e.kind == "return"]
        if not exits:
            raise AnalysisError("prover::evaluate does not return")
        top = cir.D - 1
        for e in exits:
            if not isinstance(e.val, Ptr):
                self.ob("output", None, "the output has a recognised form", repr(e.val)[:200], e.line)
                continue
            g = sym("gt", 0, p2(cir.bl(top)))
            if blk is None:
                self.cell_checks("output", self.load(e.val, g), top, g, None, e.line)
            else:
                val = self.load(e.val, blk * p2(cir.bl(top)) + g)
                self.cell_checks("output", val, top, g, blk, e.line)

    def fint(self, u):
        return t_.toF(lift(u))


class Stop(Exception):
    pass
