"""Group layouts: building the groups of a world, moving the existing components into them."""
from .terms import *
from .core import rule, Skip, Exit
from .interp import Fork, ForkVal, PathEnd
from .adt import *
from .wvoc import *
from .bits import bit, shl_axiom, NoBits
from .seq import loop_cells, trip_count
from .spec_group import trip_count_head, step_exit, unchecked

LQ = "C08 C10 C11 C12 C13 C24"
META_P = "C08 C10 C11 C12 C13 C24 C04 C05"


class Lay:
    """Symbolic group layout."""

    def __init__(self, cx):
        self.cx = cx
        self.F, self.nf = Sym("families"), Sym("nf")
        self.val = cx.mk(GL, families=agg(0, self.nf, self.F))
        self.ic, self.n = cx.fi(GF, "components")
        self.ia, _ = cx.fi(GF, "arities")

    def comps(self, k):
        v = fld(T("sel", self.F, k), self.ic, 0, self.n)
        return fld(v, 0, 0, 2), fld(v, 1, 0, 2)

    def arities(self, k):
        v = fld(T("sel", self.F, k), self.ia, 0, self.n)
        return fld(v, 0, 0, 2), fld(v, 1, 0, 2)

    def axiom(self, f, t):
        """Arities of a family: strictly increasing, from 2 to the number of its components, at most 16."""
        if t.op == "sel" and t.args[0].op == "fld":
            v = t.args[0].args[0]
            if v.op == "fld" and v.args[2] == self.ia and v.args[0].op == "sel" and v.args[0].args[0] is self.F:
                k, i = v.args[0].args[1], t.args[1]
                n = self.arities(k)[0]
                m = self.comps(k)[0]
                f.add_axiom(TRUE, lambda: [le(Int(2), t)])
                f.add_axiom(lt(i, n), lambda: [le(t, Int(16)), le(t, m)])
                for u in [u for u in f.known if u.op == "sel" and u is not t and u.args[0] is t.args[0]]:
                    f.add_axiom(lt(i, u.args[1]), lambda u=u: [lt(t, u)])
                    f.add_axiom(lt(u.args[1], i), lambda u=u: [lt(u, t)])
                    f.add_axiom(conj(le(i, u.args[1]), le(u.args[1], i)), lambda u=u: [eq(u, t)])


def levels(evs, chain=()):
    """(chain of loops, end state of a step of the innermost)."""
    for e in evs:
        if e.kind == "loop":
            c = chain + (e.rec,)
            for b in e.rec.backs:
                yield c, b
                yield from levels(b.ev, c)


@rule("set-layout", LQ + " C04 C05 C07 C09 C16 C21")
def r_layout(cx):
    """Setting a layout creates the described groups, keeps every component set under its type and regroups all entities."""
    W, Ly = Wld(cx), Lay(cx)
    lp, ents, ne = Sym("layout"), Sym("ents"), Sym("ne")

    def ax(f, t):
        W.axiom(f, t)
        Ly.axiom(f, t)
        shl_axiom(f, t)
        # storage indexes of the registry are in range
        if t.op == "fld" and t.args[2] == W.si[0] and t.args[0].op == "app" and t.args[0].args[0] == "mval" and t.args[0].args[1] is W.M:
            f.add_axiom(lt(t.args[0].args[2], T("app", "mlen", W.M)), lambda: [lt(t, W.cn)])

    self_ = ref(("O", W.world), W.pc)
    ex = cx.run(CST + "::set_layout", [self_, lp, T("slice", ref(("O", ents), ()), Int(0), ne)], W.mem | {lp: Ly.val, ents: Sym("E")},
                axioms=[ax], assume=W.assume + [le(ne, Int(1 << 32))], bounds=W.bounds())
    pl = {f: W.pc + (("f",) + cx.fi(CST, f),) for f in ("groups", "metadata", "components")}
    R = ("O", W.world)

    def vlen(X, st, f):
        v = X.I.read(st, R, pl[f] + (("f", 0, 2),))
        return X.simp(v) if st is X.st else v   # head symbols stand for other values in the facts of an exit

    def too_many(X):
        # more groups than supported
        for c, b in levels(X.st.ev):
            pass
        G = vlen(X, X.st, "groups")
        f = X.st.facts
        for t in list(f.known):
            if t.op == "fld" and t.args[2] == 0 and t.args[0].op == "fld" and t.args[0].args[2] == Ly.ia and t.args[0].args[0].op == "sel" \
                    and t.args[0].args[0].args[0] is Ly.F:
                # groups before the family + groups of the family
                for s in list(f.known):
                    if s.op == "sym" and s.args[0].startswith("h") and X.holds(lt(Int(64), add(s, t))) and X.holds(le(s, G)):
                        return True
        return X.holds(lt(Int(64), G))

    rets = cx.returns(ex, allow_panic=too_many, panic_props="C09 C10 C24", unreachable_props="C07")

    def post(X):
        I = X.I
        unchecked(X, "C07")
        pushes = lambda st, f: [e for e in st.ev if e.kind == "push" and e.place == (R, pl[f])]
        puts = lambda st: [e for e in st.ev if e.kind == "mapput" and e.place == (R, pl["metadata"])]
        if pushes(X.st, "components") or pushes(X.st, "groups"):
            return X.undecided("set_layout", "storages outside of loops")
        fam = left = None
        for c, b in levels(X.st.ev):
            for e in pushes(b, "components"):
                ks = puts(b)
                if len(ks) != 1 or len(pushes(b, "components")) != 1:
                    X.fail("every storage is registered once", "%d registrations in a step adding %d storages" % (len(ks), len(pushes(b, "components"))), META_P)
                    return
                k = X.simp(ks[0].k)
                if k.op == "app" and k.args[0] == "mkey" and len(c) == 1:
                    left = c
                elif len(c) == 3:
                    fam = c
                else:
                    return X.undecided("set_layout", "storages are created in an unrecognised loop")
        if (fam is None) != (left is None):
            # no other step adds a storage
            return X.fail("every storage is registered once", "no storages are added for %s" % ("the families of the layout" if fam is None else "the remaining components"), META_P)
        if fam is None or left is None:
            return X.undecided("set_layout", "loops over families or remaining storages not recognised")
        fr, ar, cr = fam
        lr = left[0]
        # --- the old layout is gone
        X.same("no group of the old layout remains", vlen(X, fr.init, "groups"), Int(0), LQ)
        X.same("no storage of the old layout remains", vlen(X, fr.init, "components"), Int(0), "C10")
        X.require("no registration of the old layout remains", Bool(X.simp(I.read(fr.init, R, pl["metadata"])) is T("app", "mempty")), META_P)
        # --- extraction
        mp, m0 = extracted(X, W, fr, R, pl, META_P)
        # --- families
        fc = loop_cells(X, fr)
        ft = trip_count(X, fr, fc)
        if ft is None or mp is None:
            return X.undecided("set_layout", "loop over the families without counter")
        if not X.require("every group family is set up", eq(ft, Ly.nf), LQ):
            return
        f = trip_count_head(fr, fc)
        G0, S0 = vlen(X, fr.head, "groups"), vlen(X, fr.head, "components")
        an, ab = Ly.arities(f)
        Gend = add(G0, an)
        a = trip_count_head(ar, loop_cells(X, ar))
        if a is None:
            return X.undecided("set_layout", "loop over the arities without counter")
        g, S1 = vlen(X, ar.head, "groups"), vlen(X, ar.head, "components")

        def family(Y):
            unchecked(Y, "C07")
            Y.same("a family creates one group per arity", vlen(Y, Y.st, "groups"), Gend, LQ)

        for b in fr.backs:
            cx.each([step_exit(X, b)], family)

        def bits(Y, label, v, lo, hi, w, props, want=True):
            j = Sym("bit")
            Y.assume(conj(le(Int(0), j), lt(j, Int(w))))
            try:
                if loop_value(Y.simp(v)):
                    raise NoBits("built in a loop: %s" % show(v))
                have = bit(Y, v, j, w)
            except NoBits as e:
                return Y.undecided(label, "mask %s" % e, props)
            exp = Y.ask(le(lo, j)) and Y.ask(lt(j, hi))
            Y.emit(label, have == (exp == want), props, None if have == (exp == want) else
                   "bit %s, %s..%s is %s" % (show(j), show(lo), show(hi), "set" if have else "clear"))

        def gfield(v, n):
            i, k = cx.fi(GMETA, n)
            return fld(cx.get(v, GROUP, "metadata"), i, 0, k)

        def qm(v, n, part):
            return fld(cx.get(gfield(v, n), QM, part), 0, 0, 1)

        def arity(Y):
            unchecked(Y, "C07")
            ps = pushes(Y.st, "groups")
            if not Y.require("an arity creates one group", len(ps) == 1, LQ, "%d groups" % len(ps)):
                return
            v = Y.simp(ps[0].v)
            end = vlen(Y, Y.st, "components")
            Y.same("groups are numbered in order", ps[0].i, g, LQ)
            Y.same("groups follow the arities of the family", sub(g, G0), a, LQ)
            Y.same("a group starts with the first storage of its family", gfield(v, "storage_start"), S0, LQ + " C07")
            Y.same("the new storages of a group follow those of its parent", gfield(v, "new_storage_start"), S1, LQ + " C07")
            Y.same("a group ends with its last storage", gfield(v, "storage_end"), end, LQ + " C07")
            Y.same("a group has as many storages as its arity", sub(end, S0), T("sel", ab, a), LQ)
            Y.same("a new group is empty", cx.get(v, GROUP, "len"), Int(0), LQ)

        def amask(Y, part):
            ps = pushes(Y.st, "groups")
            if len(ps) != 1:
                return
            v = Y.simp(ps[0].v)
            pre, tot = sub(S1, S0), T("sel", ab, a)
            Y.st.facts.add_term(tot)
            if part == 0:
                bits(Y, "skipping a group leaves out its descendants", fld(gfield(v, "skip_mask"), 0, 0, 1), g, Gend, 64, LQ, False)
            elif part == 1:
                bits(Y, "the group serves queries including all of its storages", qm(v, "include_mask", "include"), Int(0), tot, 16, "C12 C13 C11 C24")
            elif part == 2:
                bits(Y, "the group serves queries including without excluding", qm(v, "include_mask", "exclude"), Int(0), Int(0), 16, "C12 C13 C11 C24")
            elif part == 3:
                bits(Y, "the group serves exclusions including the storages of its parent", qm(v, "exclude_mask", "include"), Int(0), pre, 16, "C12 C13 C11 C24")
            elif part == 4:
                bits(Y, "the group serves exclusions of its new storages", qm(v, "exclude_mask", "exclude"), pre, tot, 16, "C12 C13 C11 C24")

        for b in ar.backs:
            cx.each([step_exit(X, b)], arity)
            for p in range(5):
                cx.each([step_exit(X, b)], lambda Y: amask(Y, p))

        def meta(v, n):
            i, k = cx.fi(META, n)
            return fld(v, i, 0, k)

        def comp(Y, part):
            if part == 0:
                unchecked(Y, "C07")
            e, k = pushes(Y.st, "components")[0], puts(Y.st)[0]
            v = Y.simp(k.v)
            loc = sub(e.i, S0)
            key = Y.simp(k.k)
            if part == 0:
                Y.same("a type is registered with the index of its storage", meta(v, "storage_index"), e.i, META_P + " C07 C16")
                cp = type_of(key)
                if cp is None:
                    return Y.undecided("registered type", "key %s" % show(key), META_P)
                Y.same("storages of a family follow its component order", cp, fld(T("sel", Ly.comps(f)[1], loc), 0), LQ)
                set_kept(Y, mp, key, cp, fld(Y.simp(e.v), 0, 0, 1))
                gi = Y.simp(meta(v, "group_info"))
                if not Y.is_variant(gi, 1):
                    return Y.fail("grouped types know their group", "no group info", "C12 C13 C24 C11")
                q = fld(gi, 0, 1)
                Y.same("group info starts with the first group of the family", cx.get(q, GI, "group_start"), G0, "C12 C13 C11 C24 C07")
                Y.same("group info ends with the group that adds the type", cx.get(q, GI, "group_end"), add(g, Int(1)), "C12 C13 C11 C24 C07")
            elif part == 1:
                bits(Y, "inserting a type visits all groups of its family", fld(meta(v, "insert_mask"), 0, 0, 1), G0, Gend, 64, LQ + " C18")
            elif part == 2:
                bits(Y, "removing a type visits the groups that contain it", fld(meta(v, "delete_mask"), 0, 0, 1), g, Gend, 64, LQ)
            elif part == 3:
                gi = Y.simp(meta(v, "group_info"))
                if Y.is_variant(gi, 1):
                    mk = fld(cx.get(fld(gi, 0, 1), GI, "storage_mask"), 0, 0, 1)
                    bits(Y, "group info names the storage within its family", mk, loc, add(loc, Int(1)), 16, "C12 C13 C11 C24")

        for b in cr.backs:
            if not pushes(b, "components"):
                X.fail("every component of a group gets a storage", "a step creates no storage", LQ)
            else:
                for p in range(4):
                    cx.each([step_exit(X, b)], lambda Y: comp(Y, p))
        # --- remaining storages
        lc = loop_cells(X, lr)
        lt_ = trip_count(X, lr, lc)
        if lt_ is None:
            return X.undecided("set_layout", "loop over remaining storages without counter")
        i = trip_count_head(lr, lc)
        mleft = X.simp(I.read(fr.head, mp[0], mp[1]))
        X.require("every remaining storage is kept", eq(lt_, T("app", "mlen", mleft)), META_P + " C21")

        def rest(Y):
            unchecked(Y, "C07")
            e, k = pushes(Y.st, "components")[0], puts(Y.st)[0]
            v = Y.simp(k.v)
            Y.same("a type is registered with the index of its storage", meta(v, "storage_index"), e.i, META_P + " C07 C16")
            Y.same("remaining types keep their storage", Y.simp(k.k), T("app", "mkey", mleft, i), META_P + " C21 C16")
            Y.same("remaining types keep their components", fld(Y.simp(e.v), 0, 0, 1), T("app", "mval", mleft, i), META_P + " C16")
            for n in ("insert_mask", "delete_mask"):
                Y.same("ungrouped types belong to no group", fld(Y.simp(meta(v, n)), 0, 0, 1), Int(0), LQ + " C07")
            Y.require("ungrouped types have no group info", Bool(not Y.is_variant(Y.simp(meta(v, "group_info")), 1)), LQ + " C07")

        for b in lr.backs:
            if not pushes(b, "components"):
                X.fail("every remaining storage is kept", "a step drops a storage", META_P + " C21")
            else:
                cx.each([step_exit(X, b)], rest)
        # --- regrouping
        rr = [e for e in X.st.ev if e.kind == "loop" and any(x.kind == "gr" for b in e.rec.backs for x in b.ev)]
        direct = [e for e in X.st.ev if e.kind == "gr"]
        if len(rr) != 1 or direct:
            gn = vlen(X, X.st, "groups")
            if not rr and not direct:
                if X.holds(eq(gn, Int(0))) or X.holds(eq(ne, Int(0))):
                    return X.emit("all entities are grouped again", True, LQ)
                return X.fail("all entities are grouped again", "no entity is grouped", LQ)
            return X.undecided("regrouping", "not one loop over the entities")
        rec = rr[0].rec
        rc = loop_cells(X, rec)
        t = trip_count(X, rec, rc)
        if t is None:
            return X.undecided("regrouping", "loop without counter")
        X.require("all entities are grouped again", eq(t, ne), LQ)
        j = trip_count_head(rec, rc)
        gn = vlen(X, X.st, "groups")

        def again(Y):
            ev = [x for x in Y.st.ev if x.kind == "gr"]
            if not Y.require("all entities are grouped again", len(ev) == 1 and ev[0].op == "group", LQ, "%s" % [x.op for x in ev]):
                return
            a = ev[0].args
            ok = any(Y.holds(eq(a[3], T("sel", Sym("E"), z))) for z in (j, sub(sub(ne, Int(1)), j)))
            Y.emit("each entity is grouped again", ok, LQ, None if ok else show(a[3]))
            for n, s in (("components", a[0]), ("groups", a[1])):
                s = Y.simp(s)
                ok = s.op == "slice" and s.args[0].op == "ref" and s.args[0].args == (R, pl[n] + (("f", 1, 2),)) and \
                    Y.holds(conj(eq(s.args[1], Int(0)), eq(s.args[2], vlen(Y, Y.st, n))))
                Y.emit("grouping works on all %s" % n, ok, LQ + " C07", None if ok else show(s))
            bits(Y, "entities are grouped in all groups", fld(Y.simp(a[2]), 0, 0, 1), Int(0), gn, 64, LQ)

        for b in rec.backs:
            cx.each([step_exit(X, b)], again)

    cx.each(rets, post)


def loop_value(v):
    """Whether a mask was left behind by a loop of its own: a loop cell used as a mask, not as a count or a position."""
    if v.op == "sym":
        return v.args[0].startswith("h") and "." in v.args[0]
    if v.op == "app" and v.args[0] == "op":
        a = v.args[3:]
        if v.args[1] in ("Shl", "Shr"):
            a = a[:1]
        return any(loop_value(x) for x in a if isinstance(x, Term))
    if v.op == "app" and isinstance(v.args[0], str) and v.args[0].startswith("trunc"):
        return loop_value(v.args[1])
    if v.op == "lin":
        return any(loop_value(x) for x in lin_parts(v)[1])
    return False


def type_of(key):
    """The component description whose type id the key is."""
    if key.op == "app" and key.args[0] == "call" and str(key.args[1]).endswith("type_id"):
        return key.args[-1]
    return None


def set_kept(Y, mp, key, cp, v):
    """The storage of a grouped type is the one it had before, or a new one for the same type."""
    dels = [e for e in Y.st.ev if e.kind == "mapdel" and e.place == mp]
    lab = "a type keeps its storage, or gets a new one of its own type"
    v = Y.simp(v)
    if v.op == "app" and v.args[0] == "mapget":
        ok = len(dels) == 1 and Y.holds(conj(eq(dels[0].k, key), eq(v.args[2], key)))
        Y.emit(lab, ok, META_P + " C16", None if ok else "storage %s for type %s" % (show(v), show(key)))
        return
    ok = v.op == "app" and v.args[0] == "call" and str(v.args[1]).endswith("create_sparse_set") and v.args[-1] is cp
    Y.emit(lab, ok, META_P + " C16", None if ok else "storage %s for type %s" % (show(v), show(key)))
    if ok:
        m = [t for t in Y.st.facts.known if t.op == "app" and t.args[0] == "has" and t.args[2] is key]
        gone = any(Y.holds(neg(t)) for t in m if t.args[1] is Y.simp(Y.I.read(Y.st, *mp)))
        Y.emit("a new storage is created only for types that had none", gone and not dels, META_P, None if gone else "existing storage is not reused")


def extracted(X, W, fr, R, pl, props):
    """The local map that holds the old storages when the families are set up."""
    I = X.I
    for e in X.st.ev:
        if e.kind != "loop" or e.rec is fr:
            continue
        rec = e.rec
        ps = [x for b in rec.backs for x in b.ev if x.kind == "mapput"]
        if not ps or any(x.place[0] == R for x in ps):
            continue
        lab = "every storage is taken over with its type"
        sym = rec.cells.get(ps[0].place)
        mp = None
        for root, v in fr.init.mem.items():
            if root[0] == "L" and sym is not None and X.simp(v) is sym:
                mp = (root, ())
        cells = loop_cells(X, rec)
        t = trip_count(X, rec, cells)
        if mp is None or t is None:
            return None, None
        X.require(lab, eq(t, T("app", "mlen", W.M)), props)
        i = trip_count_head(rec, cells)
        A = X.I.read(rec.head, R, pl["components"] + (("f", 1, 2),))

        def step(Y):
            unchecked(Y, "C07")
            p = [x for x in Y.st.ev if x.kind == "mapput"]
            if not Y.require(lab, len(p) == 1, props, "%d storages" % len(p)):
                return
            mv = T("app", "mval", W.M, i)
            Y.same(lab, p[0].k, T("app", "mkey", W.M, i), props)
            # the storages may have been moved out of the world before
            A2 = A
            for cell, s in rec.cells.items():
                try:
                    if I.read(rec.init, *cell) is W.Cb and any(z.op == "sel" and z.args[0] is s for z in subterms(Y.simp(p[0].v))):
                        A2 = s
                except (Fork, ForkVal, PathEnd):
                    pass
            Y.same("storages are taken from the place they are registered at", p[0].v,
                   fld(T("sel", A2, fld(mv, W.si[0], 0, W.si[1])), 0, 0, 1), props)

        for b in rec.backs:
            X.cx.each([step_exit(X, b)], step)
        return mp, sym
    return None, None
