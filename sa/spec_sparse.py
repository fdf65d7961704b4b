"""Rules for the sparse sets: SparseVec, EntitySparseSet, ComponentSparseSet."""
from .terms import *
from .adt import *
from .core import rule, Skip, Infeasible, Exit
from .sets import *
from .interp import Ev

LOOKUP = "C03 C04 C11 C20 C22"


def sv_setup(cx):
    e = Ess(cx)
    self_ = Sym("self")
    v = cx.mk(SV, slots=agg(0, e.n, e.S))
    return e, self_, {self_: v}


@rule("sparse-vec-lookup", "C03 C04 C11 C12 C14 C15 C22 C02")
def r_sv(cx):
    """Lookups by entity compare the version; lookups by index do not; both return the stored index."""
    for name, by_entity, kind in (("get", True, "opt"), ("contains", True, "bool"),
                                  ("get_sparse", False, "opt"), ("contains_sparse", False, "bool")):
        key = SV + "::" + name
        if not cx.has(key):
            continue
        e, p, mem = sv_setup(cx)
        q = Sym("q")
        V = e.v

        def post(X):
            if by_entity:
                c = V.contains(X, e.S, e.n, q)
                x = V.idx(q)
            else:
                c = V.has_sparse(X, e.S, e.n, q)
                x = q
            if kind == "bool":
                X.same("%s tells whether the entity is present" % name, X.ret, Bool(c))
            else:
                r = X.simp(X.ret)
                X.require("%s finds exactly present entities" % name, eq(discr(r), Bool(c)))
                if c and X.is_variant(r, 1):
                    X.same("%s returns the stored dense index" % name, fld(r, 0, 1), V.sidx(X.simp(X.sel(e.S, x))))

        ex = cx.run(key, [p, q], mem, assume=e.assume)
        cx.each(cx.returns(ex) if False else ex, lambda X: wrap(cx, X, post))


def wrap(cx, X, post, allow=None, panic_props=None, ub_props=None):
    for y in cx.returns([X], allow, panic_props, ub_props):
        post(y)


@rule("entity-set", "C01 C02 C03 C05 C18 C25 C10 C13")
def r_ess(cx):
    MAP = "C02 C03 C25"
    e = Ess(cx)
    V = e.v
    p, a, q = Sym("self"), Sym("entity"), Sym("q")
    mem = {p: e.val}

    def base(X):
        X.st.facts.upper[V.idx(q)] = U32
        X.st.facts.upper[V.idx(a)] = U32
        return e.parts(X, X.simp(X.deref(p)))

    # insert: the index of the new entity is not in use
    def insert(X):
        if V.has_sparse(X, e.S, e.n, V.idx(a)):
            raise Infeasible()
        S, n, E, L = base(X)
        X.same("insert adds one entity", L, add(e.L, Int(1)), "C02 C18 C25")
        X.require("insert appends the entity to the list", V.ent_eq(X.sel(E, e.L), a), "C02 C18 C25 C10")
        V.check_ri(X, S, n, E, L, MAP)

    def insert2(X):
        if V.has_sparse(X, e.S, e.n, V.idx(a)):
            raise Infeasible()
        S, n, E, L = base(X)
        V.check_ri2(X, S, n, E, L, MAP)
        i = Sym("i")
        if X.ask(lt(i, e.L)):
            X.require("insert keeps the other entities in place", V.ent_eq(X.sel(E, i), T("sel", e.E, i)), "C02 C18 C10")

    def insert3(X):
        if V.has_sparse(X, e.S, e.n, V.idx(a)):
            raise Infeasible()
        S, n, E, L = base(X)
        was = V.contains(X, e.S, e.n, q)
        same = X.ask(V.ent_eq(q, a))
        now = V.contains(X, S, n, q)
        X.require("insert adds exactly the given entity", Bool(now == (was or same)), MAP)

    key = ESS + "::insert"
    if cx.has(key):
        ex = cx.run(key, [p, a], mem, axioms=[e.axiom], assume=e.assume)
        for f in (insert, insert2, insert3):
            cx.each(ex, lambda X: wrap(cx, X, f, None, "C02", "C02"))

    # remove
    def remove(X):
        S, n, E, L = base(X)
        had = V.contains(X, e.S, e.n, a)
        X.same("remove reports whether the entity was present", X.ret, Bool(had), "C02 C03")
        X.same("remove shortens the list by the removed entity", L, sub(e.L, Int(1)) if had else e.L, "C02 C03")
        V.check_ri(X, S, n, E, L, MAP)

    def remove2(X):
        S, n, E, L = base(X)
        V.check_ri2(X, S, n, E, L, MAP)

    def remove3(X):
        S, n, E, L = base(X)
        was = V.contains(X, e.S, e.n, q)
        same = X.ask(V.ent_eq(q, a))
        now = V.contains(X, S, n, q)
        X.require("remove takes out exactly the given entity", Bool(now == (was and not same)), MAP)

    key = ESS + "::remove"
    if cx.has(key):
        ex = cx.run(key, [p, a], mem, axioms=[e.axiom], assume=e.assume)
        for f in (remove, remove2, remove3):
            cx.each(ex, lambda X: wrap(cx, X, f, None, "C02", "C02"))

    # clear
    def clear(X):
        S, n, E, L = base(X)
        X.same("clear empties the list", L, Int(0), "C02 C05")
        X.require("clear forgets every entity", Bool(not V.has_sparse(X, S, n, Sym("x"))), "C02 C05 C03")

    key = ESS + "::clear"
    if cx.has(key):
        cx.each(cx.run(key, [p], mem, axioms=[e.axiom], assume=e.assume), lambda X: wrap(cx, X, clear))

    # reads
    def contains(X):
        X.same("contains tells whether the entity is present", X.ret, Bool(V.contains(X, e.S, e.n, q)), "C02 C03")

    def length(X):
        X.same("len is the number of entities", X.ret, e.L, "C02 C18")

    def empty(X):
        X.require("is_empty means no entities", eqb(X, X.ret, eq(e.L, Int(0))), "C02")

    def as_slice(X):
        r = X.simp(X.ret)
        ok = r.op == "slice"
        if ok:
            X.same("the list starts with the first entity", r.args[1], Int(0), "C02 C13 C18 C10")
            X.same("the list has all entities", r.args[2], e.L, "C02 C13 C18 C10")
            rr, pp = r.args[0].args
            X.same("the list is the entity array", X.I.get_path(X.st, X.I.root_val(X.st, rr), pp), e.E, "C02 C13 C18 C10")
        else:
            X.fail("the list is the entity array", "returns " + show(r))

    for name, f, args in (("contains", contains, [p, q]), ("len", length, [p]), ("is_empty", empty, [p]), ("as_slice", as_slice, [p])):
        key = ESS + "::" + name
        if cx.has(key):
            cx.each(cx.run(key, args, mem, axioms=[e.axiom], assume=e.assume), lambda X: wrap(cx, X, f))


def eqb(X, a, b):
    """a and b are the same truth value."""
    va, vb = X.ask(a) if is_cond(a) or a.op != "int" else bool(a.args[0]), X.ask(b) if b.op != "int" else bool(b.args[0])
    return Bool(va == vb)


# ---------------------------------------------------------------- component sparse sets

class Watch:
    """Checks every access to the dense arrays against the bounds at that moment."""

    def __init__(self, c):
        self.c = c
        self.bad = []
        self.n = 0

    def __call__(self, I, st, root, i, write):
        c = self.c
        if root[1] is c.Ep or root[1] is c.Cp:
            lim = c.cap if write else c.L
        elif root[1].op == "sym" and root[1].args[0].startswith(("Eptr#", "Cptr#")):
            # storage obtained by growing: larger than the old one
            lim = c.cap if not write else add(c.cap, Int(1))
        else:
            return
        self.n += 1
        arr = I.root_val(st, root)
        if not write and arr.op == "store" and st.facts.decide_eq(arr.args[1], i) is True:
            return
        if not I.holds(st, lt(i, lim)):
            I.event(st, "oob", root=root, i=i, write=write, lim=lim)


MEMP = "C07"


def css_accesses(X):
    for e in X.st.ev:
        if e.kind == "oob":
            X.fail("component memory accesses stay inside the arrays", "%s at %s: index %s is not shown to be below %s" % (
                "write" if e.write else "read", e.line, show(e.i), show(e.lim)), MEMP)
            return
    X.emit("component memory accesses stay inside the arrays", True, MEMP)


def value(X, c, S, C, e):
    return X.sel(C, c.v.dense(X, S, e))


@rule("component-set-insert", "C03 C04 C05 C06 C07 C08 C16 C18 C19 C26")
def r_css_insert(cx):
    c = Css(cx)
    V = c.v
    p, a, q, val = Sym("self"), Sym("entity"), Sym("q"), Sym("component")
    key = CSS + "::insert"
    if not cx.has(key):
        raise Skip("no insert")
    # a slot present at the index of the entity belongs to the entity
    slot = T("sel", c.S, V.idx(a))
    ex = cx.run(key, [p, a, val], dict(c.mem, **{}) | {p: c.val}, axioms=[c.axiom], assume=c.assume,
                bounds={"<fnptr>": c.vcall}, watch=Watch(c))

    def pre(X):
        X.st.facts.upper[V.idx(q)] = U32
        if V.has_sparse(X, c.S, c.n, V.idx(a)):
            X.assume(eq(V.sver(slot), V.ver(a)))
            return True
        return False

    def f1(X):
        had = pre(X)
        d = c.parts(X, X.simp(X.deref(p)))
        X.same("insert counts a new component once", d["L"], c.L if had else add(c.L, Int(1)), "C04 C07 C08 C18")
        X.require("capacity covers the components", le(d["L"], d["cap"]), MEMP)
        r = X.simp(X.ret)
        if X.require("insert hands back the old value exactly when there was one", eq(discr(r), Bool(had)), "C04 C06"):
            if had:
                X.same("insert hands back the value it replaces", fld(r, 0, 1), T("sel", c.C, V.sidx(slot)), "C04 C06")
        V.check_ri(X, d["S"], d["n"], d["E"], d["L"], "C03 C04 C07 C08")
        css_accesses(X)
        drops(X, 0)
        X.require("insert keeps the function table", eq(d["vt"], c.vt), "C16")

    def f2(X):
        pre(X)
        d = c.parts(X, X.simp(X.deref(p)))
        V.check_ri2(X, d["S"], d["n"], d["E"], d["L"], "C03 C04 C07 C08")

    def f3(X):
        pre(X)
        d = c.parts(X, X.simp(X.deref(p)))
        was = V.contains(X, c.S, c.n, q)
        same = X.ask(V.ent_eq(q, a))
        now = V.contains(X, d["S"], d["n"], q)
        X.require("insert adds exactly the given entity", Bool(now == (was or same)), "C03 C04 C05 C18")
        if now:
            v = value(X, c, d["S"], d["C"], q)
            if same:
                X.same("the inserted value is stored", v, val, "C04 C16 C06 C18")
            else:
                X.same("insert leaves other components alone", v, value(X, c, c.S, c.C, q), "C04 C06")

    def f4(X):
        pre(X)
        d = c.parts(X, X.simp(X.deref(p)))
        i = Sym("i")
        if X.ask(lt(i, c.L)):
            X.require("insert does not reorder components", V.ent_eq(X.sel(d["E"], i), T("sel", c.E, i)), "C08")

    def f5(X):
        """A destructor run by insert finds the new component in place of the dropped one."""
        if not pre(X):
            raise Infeasible()
        for e in comp_drops(X):
            if X.holds(eq(e.v, T("sel", c.C, V.sidx(slot)))):
                Y = X.clone()
                Y.st.mem = e.mem
                d = c.parts(Y, Y.simp(Y.deref(p)))
                X.same("a panicking destructor in insert leaves only live values in the set", X.sel(d["C"], V.sidx(slot)), val, "C19")

    for f in (f1, f2, f3, f4, f5):
        cx.each(ex, lambda X: wrap(cx, X, f, None, "C04", MEMP))


def comp_drops(X):
    """The drops of component values, also of those wrapped into an Option."""
    out = []
    for e in X.st.ev:
        if e.kind != "drop":
            continue
        v, ty = e.v, e.ty
        while True:
            t = X.I.P.types[ty]
            if t["k"] == "adt" and t["name"].endswith("option::Option"):
                v = X.simp(v)
                if not X.is_variant(v, 1):
                    break
                v, ty = fld(v, 0, 1), t["args"][0]
                continue
            if t["s"] == "T":
                out.append(e if v is e.v else Ev("drop", {**e.d, "v": v, "s": "T"}, e.line, e.fn))
            break
    return out


def drops(X, n, props="C06"):
    k = comp_drops(X)
    X.require("the operation drops %d component values itself" % n, len(k) == n, props, "drops %d values" % len(k))


@rule("component-set-remove", "C03 C04 C05 C06 C07 C08 C16 C19")
def r_css_remove(cx):
    c = Css(cx)
    V = c.v
    p, a, q = Sym("self"), Sym("entity"), Sym("q")
    for name in ("remove", "delete"):
        key = CSS + "::" + name
        if not cx.has(key):
            continue
        ex = cx.run(key, [p, a], c.mem | {p: c.val}, axioms=[c.axiom], assume=c.assume,
                    bounds={"<fnptr>": c.vcall}, watch=Watch(c))
        remove_contract(cx, c, ex, p, a, q, name)


def remove_contract(cx, c, ex, p, a, q, name):
    V = c.v

    def f1(X):
        d = c.parts(X, X.simp(X.deref(p)))
        had = V.contains(X, c.S, c.n, a)
        old = value(X, c, c.S, c.C, a) if had else None
        X.same("%s takes out one component" % name, d["L"], sub(c.L, Int(1)) if had else c.L, "C04 C05 C03")
        V.check_ri(X, d["S"], d["n"], d["E"], d["L"], "C03 C04 C07 C08")
        css_accesses(X)
        ds = comp_drops(X)
        if name == "remove":
            r = X.simp(X.ret)
            if X.require("remove hands back a value exactly when there was one", eq(discr(r), Bool(had)), "C03 C04 C06"):
                if had:
                    X.same("remove hands back the value of the entity", fld(r, 0, 1), old, "C04 C06")
            X.require("remove drops nothing", len(ds) == 0, "C06", "drops %d values" % len(ds))
        else:
            X.require("delete drops the value exactly when there was one", len(ds) == (1 if had else 0), "C06 C05",
                      "drops %d values" % len(ds))
            if had and len(ds) == 1:
                X.same("delete drops the value of the entity", ds[0].v, old, "C06 C04")
        X.require("%s keeps the function table and capacity" % name, conj(eq(d["vt"], c.vt), eq(d["cap"], c.cap)), "C16 C07")

    def f2(X):
        d = c.parts(X, X.simp(X.deref(p)))
        V.check_ri2(X, d["S"], d["n"], d["E"], d["L"], "C03 C04 C07 C08")

    def f3(X):
        d = c.parts(X, X.simp(X.deref(p)))
        X.st.facts.upper[V.idx(q)] = U32
        was = V.contains(X, c.S, c.n, q)
        same = X.ask(V.ent_eq(q, a))
        now = V.contains(X, d["S"], d["n"], q)
        X.require("%s takes out exactly the given entity" % name, Bool(now == (was and not same)), "C03 C04 C05")
        if now:
            X.same("%s leaves other components alone" % name, value(X, c, d["S"], d["C"], q), value(X, c, c.S, c.C, q), "C04 C06 C07")

    def f5(X):
        """At the moment a destructor runs the set is already consistent without the value."""
        had = V.contains(X, c.S, c.n, a)
        if not had:
            raise Infeasible()
        i = V.dense(X, c.S, a)
        for e in comp_drops(X):
            if True:
                Y = X.clone()
                Y.st.mem = e.mem
                d = c.parts(Y, Y.simp(Y.deref(p)))
                X.same("a panicking destructor leaves the set without the dropped component", d["L"], sub(c.L, Int(1)), "C19")
                j = Sym("j")
                if X.ask(lt(j, d["L"])):
                    # position j holds the value of some remaining entity, not the dropped one
                    got = X.sel(d["C"], j)
                    want = T("sel", c.C, j)
                    if X.ask(eq(j, i)):
                        want = T("sel", c.C, sub(c.L, Int(1)))
                    X.same("a panicking destructor leaves only live values in the set", got, want, "C19")

    def f6(X):
        """Order: positions before the removed one are kept, the last one fills the gap."""
        d = c.parts(X, X.simp(X.deref(p)))
        had = V.contains(X, c.S, c.n, a)
        if not had:
            raise Infeasible()
        i, j = V.dense(X, c.S, a), Sym("j")
        if X.ask(lt(j, sub(c.L, Int(1)))) and not X.ask(eq(j, i)):
            X.require("%s keeps the positions of other components" % name, V.ent_eq(X.sel(d["E"], j), T("sel", c.E, j)), "C08")

    for f in (f1, f2, f3, f5, f6):
        cx.each(ex, lambda X: wrap(cx, X, f, None, "C04", MEMP))


@rule("component-set-reads", "C03 C04 C07 C11 C13 C16 C22 C20")
def r_css_reads(cx):
    c = Css(cx)
    reads(cx, c, CSS + "::", Sym("self"), c.mem | {Sym("self"): c.val})


def reads(cx, c, prefix, p, mem):
    """The read operations of a component set, or of a view (behind p) of the set c."""
    V = c.v
    q = Sym("q")

    def opt_ref(name):
        def f(X):
            had = V.contains(X, c.S, c.n, q)
            r = X.simp(X.ret)
            if X.require("%s finds exactly present components" % name, eq(discr(r), Bool(had)), "C03 C04 C11 C22") and had:
                d = V.dense(X, c.S, q)
                elem_ref(X, "%s refers to the component of the entity" % name, fld(r, 0, 1), c.Cp, d, "C04 C07 C11 C22 C16")
        return f

    def boolf(X):
        X.require("contains tells whether the component is present", eqb(X, X.ret, Bool(V.contains(X, c.S, c.n, q))), "C03 C04 C11")

    def whole(base, name):
        def f(X):
            whole_slice(X, name, X.ret, base, c.L)
        return f

    def length(X):
        X.same("len is the number of components", X.ret, c.L, "C13 C11 C04")

    def empty(X):
        X.require("is_empty means no components", eqb(X, X.ret, eq(c.L, Int(0))), "C04 C13")

    def ptr(X):
        r = X.simp(X.ret)
        r = fld(r, 0, 0, 1) if r.op == "agg" or struct_n.get(r) else r
        X.same("the base pointer is the component array", r, c.Cp, "C04 C07 C11 C13")

    for name, f, args in (("get", opt_ref("get"), [p, q]), ("get_mut", opt_ref("get_mut"), [p, q]), ("contains", boolf, [p, q]),
                          ("entities", whole(c.Ep, "entities"), [p]), ("as_slice", whole(c.Cp, "as_slice"), [p]),
                          ("as_mut_slice", whole(c.Cp, "as_mut_slice"), [p]), ("len", length, [p]), ("is_empty", empty, [p]),
                          ("as_non_null_ptr", ptr, [p])):
        key = prefix + name
        if cx.has(key):
            cx.each(cx.run(key, args, mem, axioms=[c.axiom], assume=c.assume), lambda X: wrap(cx, X, f, None, "C04", MEMP))


def elem_ref(X, label, r, base, i, props):
    """r is a reference to element i of the buffer behind pointer base."""
    r = X.simp(r)
    ok = False
    if r.op == "ref" and r.args[0][0] == "O" and len(r.args[1]) == 1 and r.args[1][0][0] == "i":
        if X.holds(eq(r.args[0][1], base)):
            ok = X.holds(eq(r.args[1][0][1], i))
    elif r is base or (r.op == "ref" and r.args[0] == ("O", base) and not r.args[1]):
        ok = X.holds(eq(i, Int(0)))
    X.emit(label, ok, props, None if ok else "refers to %s, expected element %s of %s" % (show(r), show(i), show(base)))
    return ok


def whole_slice(X, name, r, base, n, props="C13 C04 C07 C11", start=None):
    r = X.simp(r)
    ok = False
    if r.op == "slice":
        b = r.args[0]
        b = b.args[0] if b.op == "ref" and not b.args[1] else (("O", b) if b.op != "ref" else None)
        ok = b is not None and b[0] == "O" and X.holds(eq(b[1], base)) and X.holds(eq(r.args[1], start or Int(0))) and X.holds(eq(r.args[2], n))
    X.emit("%s covers exactly its elements" % name, ok, props, None if ok else "returns %s, expected %s elements of %s" % (show(r), show(n), show(base)))


@rule("component-set-dispatch", "C04 C05 C07 C16 C06 C08")
def r_css_dispatch(cx):
    """The untyped operations call the matching slot of the set's own function table, with their own arguments."""
    c = Css(cx)
    p, a, x, y = Sym("self"), Sym("entity"), Sym("a"), Sym("b")
    for name, slot, args in (("delete_dyn", "delete", [p, a]), ("swap", "swap", [p, x, y]), ("clear", "clear", [p])):
        key = CSS + "::" + name
        if not cx.has(key):
            continue
        ex = cx.run(key, args, c.mem | {p: c.val}, axioms=[c.axiom], assume=c.assume, bounds={"<fnptr>": c.vcall})

        def post(X):
            ev = [e for e in X.st.ev if e.kind == "vcall"]
            ok = len(ev) == 1 and ev[0].slot == slot and list(ev[0].args) == args[1:] and ev[0].place == (("O", p), ())
            X.emit("%s uses the matching typed operation" % name, ok, None,
                   None if ok else "calls %s" % [(e.slot, [show(z) for z in e.args]) for e in ev])

        cx.each(ex, lambda X: wrap(cx, X, post))
    # dropping a set runs the drop slot
    key = "<%s as core::ops::drop::Drop>::drop" % CSS
    if cx.has(key):
        ex = cx.run(key, [p], c.mem | {p: c.val}, assume=c.assume, bounds={"<fnptr>": c.vcall})

        def post2(X):
            ev = [e for e in X.st.ev if e.kind == "vcall"]
            ok = len(ev) == 1 and ev[0].slot == "drop"
            X.emit("dropping a set drops its contents", ok, "C06 C07 C16", None if ok else "calls %s" % [e.slot for e in ev])

        cx.each(ex, lambda X: wrap(cx, X, post2))
    else:
        cx.record("dropping a set drops its contents", False, key, detail="ComponentSparseSet has no Drop implementation", props="C06 C07")


@rule("component-set-table", "C04 C05 C06 C07 C08 C10 C16 C19")
def r_css_table(cx):
    """Every slot of the function table built for T satisfies the contract of the slot, for T."""
    c = Css(cx)
    V = c.v
    p, a, x, y, q = Sym("self"), Sym("entity"), Sym("a"), Sym("b"), Sym("q")
    key = CSS + "::new"
    ex = [z for z in cx.run(key, []) if z.kind == "return"]
    if len(ex) != 1:
        raise Skip("constructor")
    X0 = ex[0]
    v = X0.simp(X0.ret)
    tbl = X0.simp(cx.get(v, CSS, "vtable"))
    X0.same("a new set is empty", cx.get(v, CSS, "len"), Int(0), "C04 C07")
    X0.same("a new set has no memory", cx.get(v, CSS, "cap"), Int(0), "C07")
    sl = X0.simp(cx.get(cx.get(v, CSS, "sparse"), SV, "slots"))
    X0.same("a new set has no slots", fld(sl, 0, 0, 2), Int(0), "C04 C05")
    insts = {}
    for k, i in c.vi.items():
        fp = X0.simp(fld(tbl, i, 0, c.vn))
        if not (fp.op == "app" and fp.args[0] == "fnptr" and fp.args[2] is not None):
            X0.fail("table slot %s is a known function" % k, show(fp), "C16")
            continue
        insts[k] = fp.args[2]
        body = cx.P.body(fp.args[2])
        X0.require("table slot %s is instantiated for the type of the set" % k, body_targs(cx, body) in (None, ("T",)), "C16",
                   "%s is instantiated for %s" % (body.key, body_targs(cx, body)))

    def run(k, args, watch=None):
        if k not in insts:
            return None
        b = cx.P.body(insts[k])
        return cx.run(b.key, args, c.mem | {p: c.val}, axioms=[c.axiom], assume=c.assume, bounds={"<fnptr>": c.vcall},
                      inst=insts[k], span=b.span, watch=watch)

    exs = run("delete", [p, a], Watch(c))
    if exs:
        remove_contract(cx, c, exs, p, a, q, "delete")
    table_swap(cx, c, run, p, x, y, q)
    table_grow(cx, c, run, p, q)
    table_clear(cx, c, run, p)
    table_drop(cx, c, run, p)
    table_layouts(cx, c, run, p)


def body_targs(cx, b):
    g = b.j.get("gargs")
    if g is None:
        return None
    out = []
    for t in g:
        out.append(cx.P.types[t]["s"] if isinstance(t, int) else str(t))
    return tuple(out)


def table_swap(cx, c, run, p, x, y, q):
    V = c.v
    exs = run("swap", [p, x, y], Watch(c))
    if not exs:
        return
    P = "C04 C07 C08 C10"

    def pre(X):
        X.assume(lt(x, c.L))
        X.assume(lt(y, c.L))
        X.assume(neg(eq(x, y)))
        X.st.facts.upper[V.idx(q)] = U32
        return c.parts(X, X.simp(X.deref(p)))

    def f1(X):
        d = pre(X)
        V.check_ri(X, d["S"], d["n"], d["E"], d["L"], P)
        X.require("swap keeps length and capacity", conj(eq(d["L"], c.L), eq(d["cap"], c.cap)), P)
        X.require("swap keeps the arrays", conj(eq(d["Ep"], c.Ep), eq(d["Cp"], c.Cp)), P)

    def f2(X):
        d = pre(X)
        V.check_ri2(X, d["S"], d["n"], d["E"], d["L"], P)

    def f3(X):
        d = pre(X)
        was = V.contains(X, c.S, c.n, q)
        now = V.contains(X, d["S"], d["n"], q)
        X.require("swap neither adds nor removes entities", Bool(was == now), "C04 C08 C10")
        if now and was:
            X.same("swap leaves every component with its entity", value(X, c, d["S"], d["C"], q), value(X, c, c.S, c.C, q), "C04 C08 C10 C16")

    def f4(X):
        d = pre(X)
        i = Sym("i")
        X.assume(lt(i, c.L))
        want = i
        if X.ask(eq(i, x)):
            want = y
        elif X.ask(eq(i, y)):
            want = x
        X.require("swap exchanges exactly the two positions", V.ent_eq(X.sel(d["E"], i), T("sel", c.E, want)), "C08 C10")

    def g(f):
        def h(X):
            pre(X)
            wrap(cx, X, f, None, "C08 C04", MEMP)
        return h

    for f in (f1, f2, f3, f4):
        cx.each(exs, g(f))


def table_grow(cx, c, run, p, q):
    V = c.v
    exs = run("grow", [p])
    if not exs:
        return

    def allow(X):
        # overflow of the capacity or of the layout size
        return True

    def f1(X):
        d = c.parts(X, X.simp(X.deref(p)))
        X.same("growing keeps the length", d["L"], c.L, "C07 C04")
        X.require("growing makes room", lt(c.L, d["cap"]) if X.holds(eq(c.L, c.cap)) else le(c.L, d["cap"]), "C07")
        al = [e for e in X.st.ev if e.kind == "alloc"]
        if X.require("growing allocates once", len(al) == 1, "C07", "%d allocations" % len(al)):
            base = al[0].p
            X.require("entities live at the start of the allocation", ptr_is(X, d["Ep"], base), "C07")
        i = Sym("i")
        X.assume(lt(i, c.L))
        X.require("growing keeps every entity", V.ent_eq(X.sel(d["E"], i), T("sel", c.E, i)), "C07 C04 C08")
        X.same("growing keeps every component", X.sel(d["C"], i), T("sel", c.C, i), "C07 C04")
        X.require("growing leaves the lookup table alone", conj(eq(d["S"], c.S), eq(d["n"], c.n), eq(d["vt"], c.vt)), "C04 C16")
        de = [e for e in X.st.ev if e.kind == "dealloc"]
        had = not X.ask(eq(c.cap, Int(0)))
        if X.require("growing releases the old allocation exactly if there is one", len(de) == (1 if had else 0), "C07", "%d releases" % len(de)) and had:
            X.require("growing releases the old allocation", ptr_is(X, c.Ep, de[0].p), "C07")
            # contents are copied before the old allocation is released
            ks = [e.kind for e in X.st.ev]
            X.require("contents are copied before the old allocation is released",
                      "copy" not in ks[ks.index("dealloc"):], "C07")

    def h(X):
        X.assume(eq(c.L, c.cap))
        wrap(cx, X, f1, allow, "C07", MEMP)

    cx.each(exs, h)


def ptr_is(X, a, b):
    """a and b address the same byte."""
    def norm(z):
        z = X.simp(z)
        while z.op == "ref" and z.args[0][0] == "O" and (not z.args[1] or (len(z.args[1]) == 1 and z.args[1][0][0] == "i" and z.args[1][0][1] is Int(0))):
            z = X.simp(z.args[0][1])
        return z
    return X.holds(eq(norm(a), norm(b)))


def drop_all(X, c, label, props):
    """The path drops every element 0..len exactly once (in a loop or as a slice)."""
    ok, why = False, "no loop over the components"
    direct = [e for e in X.st.ev if e.kind == "drop"]
    for e in direct:
        if e.s.startswith("[") and e.place is not None:
            path = e.place[1]
            if len(path) == 1 and path[-1][0] == "s" and e.place[0][0] == "O" and X.holds(eq(e.place[0][1], c.Cp)) \
                    and X.holds(eq(path[-1][1], Int(0))) and X.holds(eq(path[-1][2], c.L)):
                return X.emit(label, True, props)
    for ev in X.st.ev:
        if ev.kind != "loop" or "rec" not in ev.d:
            continue
        rec = ev.rec
        why = "components are not dropped one by one"
        good = bool(rec.backs)
        var = None
        for b in rec.backs:
            ds = [e for e in b.ev if e.kind == "drop" and e.s == "T"]
            if len(ds) != 1:
                good = False
                why = "%d drops per step" % len(ds)
                break
            pl = ds[0].place
            if not pl or pl[0][0] != "O" or not pl[1] or pl[1][0][0] != "i" or b.facts.find(pl[0][1]) is not b.facts.find(c.Cp):
                good = False
                why = "drops something else than an element"
                break
            i = pl[1][0][1]
            cell, k = None, 0
            for kk, s in rec.cells.items():
                k = lin_parts(i)[1].get(s, 0)
                if k:
                    cell = kk
                    break
            rest = {x for x in subterms(i) if x in rec.cells.values() and (cell is None or x is not rec.cells[cell])}
            if cell is None or rest:
                good = False
                why = "the dropped position does not advance"
                break
            s = rec.cells[cell]
            nv = X.I.read(b, cell[0], cell[1])
            dir_ = sub(subst(i, {s: nv}), i)
            if dir_ is not Int(1) and dir_ is not Int(-1):
                good = False
                why = "the position advances by %s" % show(dir_)
                break
            iv = subst(i, {s: X.I.read(rec.init, cell[0], cell[1])})
            start = Int(0) if dir_ is Int(1) else sub(c.L, Int(1))
            if rec.init.facts.decide_eq(iv, start) is not True:
                good = False
                why = "starts at %s" % show(iv)
                break
            if not X.I.holds(b, lt(i, c.L) if dir_ is Int(1) else le(Int(0), i)):
                good = False
                why = "position %s may reach the end" % show(i)
                break
            var = i
        if good and var is not None:
            # leaving the loop means every position was visited
            if X.holds(le(c.L, var) if dir_ is Int(1) else lt(var, Int(0))):
                X.emit(label, True, props)
                return "up" if dir_ is Int(1) else "down"
            why = "the loop may end early"
    return X.emit(label, False, props, why)


def needs_drop(X):
    """Case split on whether T has drop glue, if the code asks."""
    for t, r in list(X.st.facts.parent.items()):
        if t.op == "app" and t.args and t.args[0] in ("needs_drop",):
            rr = X.st.facts.find(t)
            if rr.op == "int":
                return bool(rr.args[0])
    return True


def table_clear(cx, c, run, p):
    exs = run("clear", [p])
    if not exs:
        return

    def f(X):
        d = c.parts(X, X.simp(X.deref(p)))
        X.same("clear leaves no components", d["L"], Int(0), "C05 C06")
        X.require("clear forgets every entity", Bool(not c.v.has_sparse(X, d["S"], d["n"], Sym("x"))), "C05 C03")
        X.require("clear keeps the allocation", conj(eq(d["cap"], c.cap), eq(d["Ep"], c.Ep), eq(d["Cp"], c.Cp), eq(d["vt"], c.vt)), "C07 C16")
        nde = [e for e in X.st.ev if e.kind == "dealloc"]
        X.require("clear releases no memory", not nde, "C07")
        if needs_drop(X):
            way = drop_all(X, c, "clear drops every component once", "C05 C06")
            for ev in X.st.ev:
                lst = [ev] if ev.kind == "drop" else [e for b in ev.rec.backs for e in b.ev if e.kind == "drop"] if ev.kind == "loop" else []
                for e in lst:
                    if e.kind == "drop" and e.s in ("T", "[T]"):
                        Y = X.clone()
                        Y.st.mem = e.mem
                        dd = c.parts(Y, Y.simp(Y.deref(p)))
                        if way == "down" and e.s == "T" and e.place and e.place[1] and e.place[1][0][0] == "i":
                            # the components before the dropped one are still there
                            b = next((b for b in ev.rec.backs if e in b.ev), None) if ev.kind == "loop" else None
                            if b is None:
                                continue
                            Z = Exit(X.cx, X.I, b.copy(), X.key, X.span)
                            Z.st.mem = e.mem
                            dd = c.parts(Z, Z.simp(Z.deref(p)))
                            ok = Z.holds(le(dd["L"], e.place[1][0][1]))
                            X.emit("a panicking destructor in clear leaves no dropped component behind", ok, "C19",
                                   None if ok else "%s components are left while %s is dropped" % (show(dd["L"]), show(e.place[1][0][1])))
                        else:
                            X.same("a panicking destructor in clear leaves no dropped component behind", dd["L"], Int(0), "C19")
                        X.require("a panicking destructor in clear leaves no lookup entry behind",
                                  Bool(not c.v.has_sparse(Y, dd["S"], dd["n"], Sym("x"))), "C19")

    cx.each(exs, lambda X: wrap(cx, X, f, None, "C05", MEMP))


def table_drop(cx, c, run, p):
    exs = run("drop", [p])
    if not exs:
        return

    def f(X):
        if needs_drop(X):
            drop_all(X, c, "dropping a set drops every component once", "C06")
        de = [e for e in X.st.ev if e.kind == "dealloc"]
        had = not X.ask(eq(c.cap, Int(0)))
        if X.require("dropping a set releases its allocation exactly once", len(de) == (1 if had else 0), "C07", "%d releases" % len(de)) and had:
            X.require("dropping a set releases its own allocation", ptr_is(X, c.Ep, de[0].p), "C07")
            seen = False
            for e in X.st.ev:
                if e.kind == "dealloc":
                    seen = True
                elif seen and e.kind in ("drop", "loop"):
                    X.fail("components are dropped before their memory is released", "drops after releasing", "C07")

    def allow(X):
        # the layout of an existing allocation was computed successfully when it was made
        return any(g.startswith("not(app('layout_ok'") for g in X.st.guards())

    cx.each(exs, lambda X: wrap(cx, X, f, allow, "C06", MEMP))


def table_layouts(cx, c, run, p):
    """Memory is released with the layout it was allocated with (same expression of the capacity)."""
    A, D = [], []
    for k in ("grow", "drop"):
        for X in run(k, [p]) or []:
            if X.kind != "return":
                continue
            d = c.parts(X, X.simp(X.deref(p)))
            for e in X.st.ev:
                if e.kind == "alloc":
                    off = X.simp(d["Cp"])
                    A.append((X, e.layout, d["cap"], off))
                elif e.kind == "dealloc":
                    D.append((X, e.layout, c.cap))
    for X, la, capa, off in A:
        for Y, ld, capd in D:
            ok = match(la, ld, capa, capd)
            Y.emit("memory is released with the layout it was allocated with", ok, "C07",
                   None if ok else "allocated %s for capacity %s, released %s for capacity %s" % (show(la), show(capa), show(ld), show(capd)))
        # the allocated layout holds capa entities and capa components of T
        s = list(subterms(la))
        ents = [t for t in s if t.op == "app" and t.args[0] == "layout_array"]
        X.require("the allocation is sized by the new capacity", any(capa in [z for z in t.args if isinstance(z, Term)] for t in ents) and
                  all(capa in [z for z in t.args if isinstance(z, Term)] for t in ents), "C07", "layout %s for capacity %s" % (show(la), show(capa)))
        X.require("the allocation is sized for entities and components of the type of the set",
                  sorted(t.args[1] for t in ents) in (["T", "entity::Entity"], ["T", "sparsey::entity::Entity"]) or len(ents) == 2 and {str(t.args[1]).split("::")[-1] for t in ents} == {"T", "Entity"},
                  "C07 C16", "layout %s" % show(la))


def match(a, b, ca, cb):
    if a is ca and b is cb:
        return True
    if not isinstance(a, Term) or not isinstance(b, Term):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(match(x, y, ca, cb) for x, y in zip(a, b))
        return a == b
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    if not a.args:
        return a is b
    return all(match(x, y, ca, cb) for x, y in zip(a.args, b.args))
