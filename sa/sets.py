"""Sparse-set vocabulary: representation, invariant and map view shared by the rules."""
from .terms import *
from .adt import *
from .core import Skip

U32 = (1 << 32) - 1


class Voc:
    """Accessors bound to the field order of the current tree."""

    def __init__(self, cx):
        self.cx = cx
        self.ei = cx.fi(ENT, "index", "u32")[0]
        self.ev = cx.fi(ENT, "version")[0]
        self.si = cx.fi(SLOT, "index", "u32")[0]
        self.sv = cx.fi(SLOT, "version")[0]

    # entities
    def idx(self, e):
        return fld(e, self.ei, 0, 2)

    def ver(self, e):
        return fld(fld(e, self.ev, 0, 2), 0, 0, 1)

    def ent_eq(self, a, b):
        return conj(eq(self.idx(a), self.idx(b)), eq(self.ver(a), self.ver(b)))

    def mkent(self, i, v):
        f = [None, None]
        f[self.ei] = i
        f[self.ev] = agg(0, v)
        return agg(0, *f)

    # slots: Option<SparseVecSlot>
    def sidx(self, s):
        return fld(fld(s, 0, 1), self.si, 0, 2)

    def sver(self, s):
        return fld(fld(fld(s, 0, 1), self.sv, 0, 2), 0, 0, 1)

    # ---- invariant
    def ri_axioms(self, S, n, E, L):
        def nest(t):
            k = 0
            while isinstance(t, Term):
                if t.op == "sel":
                    k += 1
                    t = t.args[1]
                elif t.op == "fld":
                    t = t.args[0]
                elif t.op == "lin":
                    return k + max(nest(a) for a, _ in t.args[1])
                else:
                    break
            return k

        def ax(f, t):
            if t.op != "sel":
                return
            if t.args[0] is S:
                x = t.args[1]
                f.upper[self.sidx(t)] = U32
                f.upper[T("discr", t)] = 1
                if nest(t) > 3:
                    return
                d = self.sidx(t)
                f.add_axiom(conj(lt(x, n), eq(T("discr", t), Int(1))), lambda: [
                    lt(d, L),
                    eq(self.idx(T("sel", E, d)), x),
                    eq(self.ver(T("sel", E, d)), self.sver(t)),
                ])
            elif t.args[0] is E:
                i = t.args[1]
                f.upper[self.idx(t)] = U32
                if nest(t) > 3:
                    return
                x = self.idx(t)
                s = T("sel", S, x)
                f.add_axiom(lt(i, L), lambda: [
                    lt(x, n),
                    eq(T("discr", s), Int(1)),
                    eq(self.sidx(s), i),
                    eq(self.sver(s), self.ver(t)),
                ])

        return ax

    # ---- map view (forking)
    def has_sparse(self, X, S, n, x):
        """Is a slot present at sparse index x?"""
        if not X.ask(lt(x, n)):
            return False
        return X.is_variant(X.sel(S, x), 1)

    def contains(self, X, S, n, e):
        x = self.idx(e)
        if not self.has_sparse(X, S, n, x):
            return False
        s = X.sel(S, x)
        return X.ask(eq(self.sver(X.simp(s)), self.ver(e)))

    def dense(self, X, S, e):
        return self.sidx(X.simp(X.sel(S, self.idx(e))))

    # ---- post conditions
    def check_ri(self, X, S, n, E, L, props=None, tag=""):
        """The invariant holds for a generic sparse index and a generic dense index."""
        x = Sym("rix")
        X.st.facts.upper[x] = U32
        if self.has_sparse(X, S, n, x):
            s = X.simp(X.sel(S, x))
            d = self.sidx(s)
            if X.require(tag + "present slot points inside the dense arrays", lt(d, L), props):
                e = X.sel(E, d)
                X.require(tag + "slot and dense entity agree on the index", eq(self.idx(e), x), props)
                X.require(tag + "slot and dense entity agree on the version", eq(self.ver(e), self.sver(s)), props)

    def check_ri2(self, X, S, n, E, L, props=None, tag=""):
        i = Sym("rii")
        if X.ask(lt(i, L)):
            e = X.sel(E, i)
            x = self.idx(e)
            if X.require(tag + "dense entity has a slot", lt(x, n), props):
                s = X.simp(X.sel(S, x))
                if X.require(tag + "slot of a dense entity is present", eq(discr(s), Int(1)), props):
                    X.require(tag + "slot of a dense entity points back", eq(self.sidx(s), i), props)
                    X.require(tag + "slot of a dense entity has its version", eq(self.sver(s), self.ver(e)), props)


def discr(v):
    return Int(v.args[0]) if v.op == "agg" else T("discr", v)


class Ess:
    """Symbolic EntitySparseSet."""

    def __init__(self, cx, name="self"):
        self.cx = cx
        self.v = Voc(cx)
        self.S, self.n = Sym("S"), Sym("n")
        self.E, self.L = Sym("E"), Sym("L")
        self.val = cx.mk(ESS, sparse=cx.mk(SV, slots=agg(0, self.n, self.S)), entities=agg(0, self.L, self.E))
        self.axiom = self.v.ri_axioms(self.S, self.n, self.E, self.L)
        self.assume = [le(self.L, Int(U32))]

    def parts(self, X, v):
        """(S, n, E, L) of an EntitySparseSet value."""
        sp = X.simp(self.cx.get(v, ESS, "sparse"))
        sl = X.simp(self.cx.get(sp, SV, "slots"))
        en = X.simp(self.cx.get(v, ESS, "entities"))
        return fld(sl, 1, 0, 2), fld(sl, 0, 0, 2), fld(en, 1, 0, 2), fld(en, 0, 0, 2)


class Css:
    """Symbolic ComponentSparseSet."""

    def __init__(self, cx):
        self.cx = cx
        self.v = Voc(cx)
        self.S, self.n = Sym("S"), Sym("n")
        self.Ep, self.Cp = Sym("Eptr"), Sym("Cptr")
        self.E, self.C = Sym("E"), Sym("C")
        self.L, self.cap = Sym("L"), Sym("cap")
        self.vt = Sym("vt")
        self.val = cx.mk(CSS, sparse=cx.mk(SV, slots=agg(0, self.n, self.S)), entities=agg(0, self.Ep),
                         components=agg(0, self.Cp), len=self.L, cap=self.cap, vtable=self.vt)
        self.mem = {self.Ep: self.E, self.Cp: self.C}
        self.axiom = self.v.ri_axioms(self.S, self.n, self.E, self.L)
        self.assume = [le(self.L, Int(U32)), le(self.L, self.cap)]
        self.vi = {f[1]: i for i, f in enumerate(cx.fields(VT))}
        self.vn = len(self.vi)

    def parts(self, X, v):
        """S, n, E, C, L, cap of a ComponentSparseSet value in the memory of exit X."""
        g = lambda f: X.simp(self.cx.get(v, CSS, f))
        sl = X.simp(self.cx.get(g("sparse"), SV, "slots"))
        p = {}
        p["S"], p["n"] = fld(sl, 1, 0, 2), fld(sl, 0, 0, 2)
        p["Ep"], p["Cp"] = fld(g("entities"), 0, 0, 1), fld(g("components"), 0, 0, 1)
        p["E"], p["C"] = X.buf(p["Ep"]), X.buf(p["Cp"])
        p["L"], p["cap"] = g("len"), g("cap")
        p["vt"] = g("vtable")
        return p

    def slot_fn(self, fv):
        """Name of the vtable slot a called function pointer was loaded from."""
        if fv.op == "fld" and fv.args[0] is self.vt:
            for k, i in self.vi.items():
                if i == fv.args[2]:
                    return k
        return None

    def vcall(self, c):
        """Boundary for calls through the function table: the contract of the slot."""
        fv = c.cal.get("fv")
        k = self.slot_fn(fv) if fv is not None else None
        if k is None:
            return NotImplemented
        pl = c.deref(0)
        v = c.I.simp(c.st, c.read(pl))
        c.event("vcall", slot=k, obj=v, place=pl, args=list(c.args[1:]))
        if k == "grow":
            i = {f: self.cx.fi(CSS, f) for f in ("entities", "components", "len", "cap")}
            gv = lambda f: c.I.simp(c.st, fld(v, i[f][0], 0, i[f][1]))
            ep, cp = fld(gv("entities"), 0, 0, 1), fld(gv("components"), 0, 0, 1)
            E = c.I.root_val(c.st, ("O", c.I.simp(c.st, ep)))
            C = c.I.root_val(c.st, ("O", c.I.simp(c.st, cp)))
            e2, c2, cap2 = fresh("Eptr"), fresh("Cptr"), fresh("cap")
            c.I.set_root(c.st, ("O", e2), E)
            c.I.set_root(c.st, ("O", c2), C)
            if not c.st.facts.assume(lt(gv("cap"), cap2)):
                return UNIT
            for f, nv in (("entities", agg(0, e2)), ("components", agg(0, c2)), ("cap", cap2)):
                c.I.write(c.st, pl[0], pl[1] + (("f",) + i[f],), nv)
        return UNIT
