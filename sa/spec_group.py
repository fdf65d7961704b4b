"""Groups: how entities enter and leave the packed prefix of the storages of a group."""
from .terms import *
from .core import rule, Skip, Exit
from .adt import *
from .sets import Voc
from .wvoc import *
from .bits import bit, shl_axiom, NoBits
from .seq import loop_cells, trip_count

GP = "C08 C11 C12 C13"
M_ = "sparsey::component::group::"


class Grp:
    """Symbolic slices of component cells and groups."""

    def __init__(self, cx):
        self.cx = cx
        self.v = Voc(cx)
        self.comps, self.groups = Sym("comps"), Sym("groups")
        self.cn, self.gn = Sym("cn"), Sym("gn")
        self.ent = Sym("entity")
        self.mi, self.mn = cx.fi(GROUP, "metadata")
        self.li, _ = cx.fi(GROUP, "len")
        self.gf = {n: cx.fi(GMETA, n) for n in ("storage_start", "new_storage_start", "storage_end", "skip_mask")}
        self.assume = [le(self.gn, Int(64)), le(self.cn, Int(1 << 40))]
        self.mem = {Sym("components"): self.comps, Sym("group_slice"): self.groups}
        self.cs = T("slice", ref(("O", Sym("components")), ()), Int(0), self.cn)
        self.gs = T("slice", ref(("O", Sym("group_slice")), ()), Int(0), self.gn)

    # component cells
    def css(self, A, k):
        return fld(T("sel", A, k) if A.op != "store" else T("sel", A, k), 0, 0, 1)

    def parts(self, s):
        g = lambda v, a, n: self.cx.get(v, a, n)
        sl = g(g(s, CSS, "sparse"), SV, "slots")
        return {"S": fld(sl, 1, 0, 2), "n": fld(sl, 0, 0, 2), "L": g(s, CSS, "len")}

    def has_sparse(self, X, k, x):
        p = self.parts(self.css(self.comps, k))
        return self.v.has_sparse(X, p["S"], p["n"], x)

    def present(self, k, x, A=None):
        """has_sparse as a condition."""
        p = self.parts(self.css(A or self.comps, k))
        return conj(lt(x, p["n"]), eq(T("discr", T("sel", p["S"], x)), Int(1)))

    def contains(self, k, e):
        p = self.parts(self.css(self.comps, k))
        s = T("sel", p["S"], self.v.idx(e))
        return conj(self.present(k, self.v.idx(e)), eq(self.v.sver(s), self.v.ver(e)))

    def dense(self, k, e, A=None):
        p = self.parts(self.css(A or self.comps, k))
        return self.v.sidx(T("sel", p["S"], self.v.idx(e)))

    # groups
    def meta(self, A, g, f):
        i, n = self.gf[f]
        return fld(fld(T("sel", A, g), self.mi, 0, self.mn), i, 0, n)

    def glen(self, A, g):
        return fld(T("sel", A, g), self.li, 0, self.mn)

    def axiom(self, f, t):
        """Storages of a group: start <= new start < end <= number of storages."""
        nm = self.gf["storage_start"][1]
        if t.op == "fld" and struct_n.get(t.args[0]) == nm and t.args[0].op == "fld" and t.args[0].args[0].op == "sel" \
                and t.args[0].args[2] == self.mi:
            m = t.args[0]
            a, b, c = (fld(m, self.gf[k][0], 0, nm) for k in ("storage_start", "new_storage_start", "storage_end"))
            if t in (a, b, c):
                f.add_axiom(TRUE, lambda: [le(a, b), lt(b, c), le(c, self.cn)])
        self.bit_axiom(f, t)

    def bit_axiom(self, f, t):
        """The set bits of a group mask are indexes of groups."""
        if t.op == "app" and t.args[0] in ("ctz", "clz") and t.args[2].op != "int":
            m = t.args[2]
            i = t if t.args[0] == "ctz" else sub(Int(63), t)
            f.add_axiom(neg(eq(m, Int(0))), lambda: [lt(i, self.gn), le(Int(0), i)])


def step_exit(X, st):
    return Exit(X.cx, X.I, st, X.key, X.span)


@rule("group-status", GP + " C07")
def r_status(cx):
    """The status of an entity in a group follows from its presence in the new storages and its position in the first."""
    G = Grp(cx)
    key = M_ + "get_group_status"
    names = status_names(cx)
    e, n, s0, m = G.ent, Sym("group_len"), Sym("start"), Sym("count")
    sl = T("slice", ref(("O", Sym("components")), ()), s0, m)
    ex = cx.run(key, [sl, n, e], G.mem, assume=G.assume + [le(Int(1), m)])
    x = G.v.idx(e)

    def post(X):
        k = names[variant(X)]
        loops = [ev for ev in X.st.ev if ev.kind == "loop"]
        if len(loops) > 1:
            return X.undecided("status", "several loops")
        done = Int(0)
        first = None
        if loops:
            rec = loops[0].rec
            cells = loop_cells(X, rec)
            done = trip_count(X, rec, cells)
            if done is None:
                return X.undecided("status", "loop without counter")
        if k == "Incomplete":
            cand = [s0, add(s0, done), add(s0, add(done, Int(1)))]
            f = X.st.facts
            ok = any(X.holds(neg(G.contains(c, e))) for c in cand)
            X.emit("an entity is incomplete only if it lacks a component of the group", ok, GP,
                   None if ok else "reported incomplete although no storage is known to lack it")
            return
        ok = X.holds(G.contains(s0, e)) or (loops and X.holds(G.present(s0, x)))
        X.emit("the first new storage of the group contains the entity", ok, GP + " C07")
        X.require("the entity is grouped exactly if its position is below the length of the group",
                  lt(G.dense(s0, e), n) if k == "Grouped" else le(n, G.dense(s0, e)), GP)
        # every other storage was checked
        if not loops:
            X.require("every new storage of the group contains the entity", eq(m, Int(1)), GP + " C07")
            return
        tot = X.holds(eq(done, m))
        one = not tot and X.holds(eq(add(done, Int(1)), m))
        X.emit("every new storage of the group is checked", tot or one, GP + " C07", None if tot or one else "%s of %s storages are checked" % (show(done), show(m)))
        if tot or one:
            for b in rec.backs:
                Y = step_exit(X, b)
                j = trip_count_head(rec, cells)
                k2 = add(s0, add(j, Int(1 if one else 0)))
                okk = Y.holds(G.present(k2, x))
                X.emit("every new storage of the group contains the entity", okk, GP + " C07",
                       None if okk else "a step passes without finding the entity")

    def variant(X):
        r = X.simp(X.ret)
        for i in range(len(names) - 1):
            if X.is_variant(r, i, len(names)):
                return i
        return len(names) - 1

    cx.each(cx.returns(ex, unreachable_props="C07"), post)


def trip_count_head(rec, cells):
    for s, (iv, d) in cells.items():
        if d == 1:
            return sub(s, iv)
        if d == -1:
            return sub(iv, s)
    return None


def status_names(cx):
    a = cx.P.adts.get(M_ + "GroupStatus")
    if not a:
        raise Skip("GroupStatus not found")
    n = cx.P.variants(M_ + "GroupStatus")
    if sorted(n) != ["Grouped", "Incomplete", "Ungrouped"]:
        raise Skip("variants of GroupStatus")
    return n


def css_swap(c):
    """Boundary: exchanging two positions of a set."""
    pl = c.deref(0)
    s = c.read(pl)
    c.event("swap", place=pl, a=c.args[1], b=c.args[2])
    c.write(pl, T("app", "css_swap", s, *c.args[1:]))
    return UNIT


@rule("group-pack", GP + " C07 C10")
def r_pack(cx):
    """Entering (leaving) a group moves the entity to the end of the packed prefix in every storage of the group."""
    G = Grp(cx)
    e, n, s0, m, p = G.ent, Sym("group_len"), Sym("start"), Sym("count"), Sym("len_ptr")
    sl = T("slice", ref(("O", Sym("components")), ()), s0, m)
    x = G.v.idx(e)
    for name, d in (("group_components", 1), ("ungroup_components", -1)):
        key = M_ + name

        def ax(f, t):
            # the caller found the entity in every storage of the group
            if t.op == "sel" and (t.args[0] is G.comps or (t.args[0].op == "sym" and t.args[0].args[0].endswith("O(components)"))):
                a, i = t.args
                f.add_axiom(conj(le(s0, i), lt(i, add(s0, m))), lambda: [G.present(i, x, a)])

        ex = cx.run(key, [sl, p, e], G.mem | {p: n}, axioms=[ax], assume=G.assume + [le(Int(1), n) if d < 0 else le(Int(0), n)],
                    bounds={CSS + "::swap": css_swap})
        where = n if d > 0 else sub(n, Int(1))
        act = "entering" if d > 0 else "leaving"

        def post(X):
            X.same("%s a group changes its length by one" % act, X.simp(X.deref(p)), add(n, Int(d)), GP)
            loops = [ev for ev in X.st.ev if ev.kind == "loop"]
            if not loops and not any(ev.kind == "swap" for ev in X.st.ev):
                return X.fail("%s a group moves the entity in every storage" % act, "no storage is changed", GP)
            if len(loops) != 1 or any(ev.kind == "swap" for ev in X.st.ev):
                return X.undecided(act, "not one loop over the storages")
            rec = loops[0].rec
            cells = loop_cells(X, rec)
            done = trip_count(X, rec, cells)
            if done is None:
                return X.undecided(act, "loop without counter")
            X.require("%s a group moves the entity in every storage" % act, eq(done, m), GP)
            j = add(s0, trip_count_head(rec, cells))
            # the storage of a step is untouched by the steps before it
            A = X.I.read(rec.head, ("O", Sym("components")), ())

            def step(Y):
                sw = [ev for ev in Y.st.ev if ev.kind == "swap"]
                lp = [ev for ev in Y.st.ev if ev.kind == "loop"]
                if len(sw) > 1 or lp:
                    return Y.fail("%s a group swaps once per storage" % act, "%d swaps" % len(sw), GP)
                den = G.dense(j, e, A)
                if not sw:
                    return Y.require("%s a group leaves a storage alone only if the entity is in place" % act, eq(den, where), GP)
                w = sw[0]
                ok = w.place[0] == ("O", Sym("components")) and w.place[1] and w.place[1][0][0] == "i" and Y.holds(eq(w.place[1][0][1], j))
                Y.emit("%s a group visits each storage" % act, ok, GP, None if ok else "swaps in %s" % (w.place,))
                ok = any(Y.holds(conj(eq(a, den), eq(b, where))) for a, b in ((w.a, w.b), (w.b, w.a)))
                Y.emit("%s a group swaps the entity with the end of the packed prefix" % act, ok, GP,
                       None if ok else "swaps %s and %s, expected %s and %s" % (show(w.a), show(w.b), show(den), show(where)))
                Y.require("positions swapped are distinct", neg(eq(w.a, w.b)), GP + " C07")

            for b in rec.backs:
                cx.each([step_exit(X, b)], lambda Y: (unchecked(Y, "C07"), step(Y)))

        cx.each(cx.returns(ex, unreachable_props="C07"), post)


def unchecked(Y, props):
    for ev in Y.st.ev:
        if ev.kind == "unchecked":
            Y.emit("unchecked access in bounds", ev.ok, props, None if ev.ok else "unchecked access at %s in %s: %s not established" % (ev.line, ev.fn, show(ev.cond)))


def gs_bounds(cx):
    def rec(name, d):
        def f(c):
            if name == "get_group_status":
                r = fresh("status")
                c.event("gs", op=name, args=list(c.args), ret=r)
                return r
            pl = c.deref(1)
            v = c.read(pl)
            c.event("gs", op=name, args=list(c.args), ret=UNIT, place=pl)
            c.write(pl, add(v, Int(d)))
            return UNIT
        return f

    out = {}
    for n, d in (("get_group_status", 0), ("group_components", 1), ("ungroup_components", -1)):
        if not cx.has(M_ + n):
            raise Skip("anchor %s not found" % n)
        out[M_ + n] = rec(n, d)
    return out


@rule("group-walk", GP + " C07 C10 C05")
def r_walk(cx):
    """Groups are visited parents first when entering and children first when leaving, skipping the
    descendants of a group the entity is not complete for."""
    G = Grp(cx)
    names = status_names(cx)
    B = gs_bounds(cx)
    mask = Sym("mask")
    for name in ("group", "ungroup", "ungroup_all"):
        args = [G.cs, G.gs] + ([] if name == "ungroup_all" else [agg(0, mask)]) + [G.ent]
        ex = cx.run(M_ + name, args, G.mem, axioms=[G.axiom, shl_axiom], assume=G.assume, bounds=B)
        cx.each(cx.returns(ex, unreachable_props="C07"), lambda X: walk(cx, G, X, name, names, mask))


def walk(cx, G, X, name, names, mask):
    loops = [ev for ev in X.st.ev if ev.kind == "loop"]
    if not loops and not any(ev.kind == "gs" for ev in X.st.ev):
        if name == "ungroup_all":
            return X.require("every group is visited", eq(G.gn, Int(0)), GP + " C05")
        return X.require("no group of the mask is left out", eq(mask, Int(0)), GP + " C05")
    if len(loops) != 1 or any(ev.kind == "gs" for ev in X.st.ev):
        return X.undecided(name, "not one loop over the groups")
    rec = loops[0].rec
    last = [e for e in loops[0].d.get("last") or () if e.kind == "gs"]
    A = X.I.read(rec.head, ("O", Sym("group_slice")), ())
    cells = loop_cells(X, rec)
    rem = None
    if name == "ungroup_all":
        done = trip_count(X, rec, cells)
        if done is None:
            return X.undecided(name, "loop without counter")
        X.require("every group is visited", eq(add(done, Int(1)) if last else done, G.gn), GP + " C05")
        idx = sub(sub(G.gn, Int(1)), trip_count_head(rec, cells))
    else:
        for cell, s in rec.cells.items():
            if cell[0][0] == "L" and X.simp(X.I.read(rec.init, cell[0], cell[1])) is mask:
                rem = (cell, s)
        if rem is None:
            if not any(c[0][0] == "L" for c in rec.cells):
                return X.fail("%s continues with the right groups" % name, "no step makes progress", GP + " C05")
            return X.undecided(name, "no set of remaining groups")
        left = X.simp(X.I.read(X.st, rem[0][0], rem[0][1])) if last else rem[1]
        X.require("no group of the mask is left out", eq(left, Int(0)), GP + " C05")
        idx = T("app", "ctz", 64, rem[1]) if name == "group" else sub(Int(63), T("app", "clz", 64, rem[1]))

    def step(Y, gs=None):
        part = gs is not None
        if not part:
            unchecked(Y, "C07")
            if any(e.kind == "loop" for e in Y.st.ev):
                return Y.undecided(name, "nested loop")
            gs = [e for e in Y.st.ev if e.kind == "gs"]
        st = [e for e in gs if e.op == "get_group_status"]
        if len(st) != 1:
            return Y.undecided(name, "%d status calls in a step" % len(st))
        s = st[0]
        start, end = G.meta(A, idx, "storage_start"), G.meta(A, idx, "storage_end")
        new = G.meta(A, idx, "new_storage_start")
        Q = GP + (" C05" if name != "group" else " C10")
        Y.emit("%s looks at the next group in order" % name, Y.holds(eq(s.args[1], G.glen(A, idx))), Q,
               "status is taken with length %s, expected group %s" % (show(s.args[1]), show(idx)))
        is_slice(Y, "%s takes the status from the new storages of the group" % name, G, s.args[0], new, end, Q)
        Y.require("%s takes the status of the entity" % name, Bool(s.args[2] is G.ent), Q)
        k = variant_of(Y, s.ret, names)
        want = {"group": {"Ungrouped": "group_components"}, "ungroup": {"Grouped": "ungroup_components"},
                "ungroup_all": {"Grouped": "ungroup_components"}}[name].get(k)
        acts = [e for e in gs if e is not s]
        Y.emit("%s of an %s entity %s" % (name, k.lower(), "moves it" if want else "changes nothing"),
               [e.op for e in acts] == ([want] if want else []), Q, "does %s, expected %s" % ([e.op for e in acts], want))
        if want and [e.op for e in acts] == [want]:
            a = acts[0]
            is_slice(Y, "%s moves the entity in all storages of the group" % name, G, a.args[0], start, end, Q)
            ok = a.place[0] == ("O", Sym("group_slice")) and len(a.place[1]) == 2 and a.place[1][1][1] == G.li and Y.holds(eq(a.place[1][0][1], idx))
            Y.emit("%s updates the length of the group" % name, ok, Q, None if ok else "updates %s" % (a.place,))
            Y.require("%s moves the entity" % name, Bool(a.args[2] is G.ent), Q)
        # the groups themselves
        A2 = Y.simp(Y.I.read(Y.st, ("O", Sym("group_slice")), ()))
        q = Sym("q")
        Y.same("%s leaves the description of groups alone" % name, fld(Y.simp(Y.sel(A2, q)), G.mi, 0, G.mn), fld(T("sel", A, q), G.mi, 0, G.mn), Q)
        if rem is not None and not part:
            v = Y.I.read(Y.st, rem[0][0], rem[0][1])
            j = Sym("bit")
            Y.assume(conj(le(Int(0), j), lt(j, Int(64))))
            try:
                now = bit(Y, v, j)
                was = bit(Y, rem[1], j) and not Y.ask(eq(j, idx))
                if name == "group" and k == "Incomplete":
                    i, n = G.gf["skip_mask"]
                    was = was and bit(Y, fld(G.meta(A, idx, "skip_mask"), 0, 0, 1), j)
            except NoBits as e:
                return Y.undecided("%s continues with the right groups" % name, "mask %s" % e, Q)
            Y.emit("%s continues with the right groups" % name, now == was, Q,
                   None if now == was else "after a group with status %s, a group is %s" % (k, "visited again or wrongly kept" if now else "dropped"))

    for b in rec.backs:
        cx.each([step_exit(X, b)], step)
    if last:
        cx.each([X.clone()], lambda Y: step(Y, last))


def variant_of(Y, r, names):
    for i in range(len(names) - 1):
        if Y.is_variant(r, i, len(names)):
            return names[i]
    if r.op != "agg":
        Y.assume(eq(T("discr", r), Int(len(names) - 1)))
    return names[-1]


def is_slice(Y, label, G, t, a, b, props):
    t = Y.simp(t)
    ok = t.op == "slice" and t.args[0].op == "ref" and t.args[0].args == (("O", Sym("components")), ()) and \
        Y.holds(conj(eq(t.args[1], a), eq(t.args[2], sub(b, a))))
    Y.emit(label, ok, props, None if ok else "uses %s" % show(t))
