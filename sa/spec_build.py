"""Creating worlds: new, default, set_layout, the builder, and the group descriptions of tuples."""
from .terms import *
from .adt import *
from .core import rule, Skip
from .wvoc import *
from .seq import loop_cells
from .spec_sparse import wrap
from .spec_group import step_exit, unchecked
from .spec_set import all_events
from .spec_world import discr

BP = "C24"


def slice_parts(c, i):
    """(length, buffer, start) of a slice argument."""
    v = c.I.simp(c.st, c.args[i])
    if v.op == "app" and v.args[0] == "const":
        return v
    if v.op != "slice":
        return None
    p = v.args[0]
    b = c.I.read(c.st, *p.args) if p.op == "ref" else c.I.root_val(c.st, ("O", p))
    return agg(0, v.args[2], b, v.args[1])


def effect(name, fmt):
    """Boundary: an operation on the object behind the first argument."""
    def f(c):
        pl = c.deref(0)
        old = c.I.simp(c.st, c.read(pl))
        args = fmt(c)
        new = T("app", name, old, *args)
        c.event("build", op=name, place=pl, old=old, args=args)
        c.write(pl, new)
        return T("app", name + "_ret", old, *args)
    return f


def layout_arg(c, i):
    v = c.I.simp(c.st, c.args[i])
    if v.op == "ref":
        return c.I.simp(c.st, c.I.read(c.st, *v.args))
    return c.I.simp(c.st, c.I.root_val(c.st, ("O", v)))


def opaque(x):
    return x if isinstance(x, Term) else T("app", "unknown")


BOUNDS = {
    CST + "::set_layout": effect("cst_layout", lambda c: (layout_arg(c, 1), opaque(slice_parts(c, 2)))),
    CST + "::register_dyn": effect("cst_register", lambda c: (c.I.simp(c.st, c.args[1]),)),
    GL + "::add_group_dyn": effect("layout_add", lambda c: (opaque(slice_parts(c, 1)),)),
    CD + "::new": lambda c: T("app", "cdata", c.I.P.types[c.targ(0)]["s"]),
}


def builds(X):
    return all_events(X, ("build",))


@rule("world-build", "C24 C10 C21 C09 C02 C08")
def r_build(cx):
    """A world has the given layout and its types; a built one also exactly the types given to the builder."""
    W = Wld(cx)
    bounds = {**W.es_ops(), **BOUNDS}
    nothing = Sym("nothing")

    def run(key, args, mem, post, props=BP):
        if not cx.has(key):
            cx.record("public operation exists", False, key, "", "%s is missing" % key, props)
            return
        ex = cx.run(key, args, mem, bounds=bounds)
        cx.each(ex, lambda X: wrap(cx, X, post, None, props, "C07"))

    def empty_es(X, v, what, props):
        v = X.simp(v)
        ok = v.op == "agg" and X.holds(eq(v.args[1], Int(0)))
        X.emit(what + " has no entities", ok, props + " C02", "entities %s" % show(v))

    def vec_len(X, v):
        return X.simp(fld(v, 0, 0, 2))

    def empty_cst(X, v, what, props):
        v = X.simp(v)
        X.same(what + " has no storages", vec_len(X, cx.get(v, CST, "components")), Int(0), props + " C21")
        X.same(what + " has no groups", vec_len(X, cx.get(v, CST, "groups")), Int(0), props + " C08")
        m = X.simp(cx.get(v, CST, "metadata"))
        ok = m.op == "app" and m.args[0] == "mempty"
        X.emit(what + " has no registered types", ok, props + " C21", "registry %s" % show(m))

    # ---- default
    def default(X):
        v = X.simp(X.ret)
        unchecked(X, "C07")
        empty_es(X, cx.get(v, WORLD, "entities"), "the default world", BP)
        c = X.simp(cx.get(v, WORLD, "components"))
        if not laid_out(X, c, None, "the default world", BP):
            empty_cst(X, c, "the default world", BP)

    def no_entities(X, args):
        s = X.simp(args[1])
        return s.op == "agg" and X.holds(eq(s.args[1], Int(0)))

    def laid_out(X, c, lay, what, props):
        """c is an empty storage with the layout (None: some layout without groups)."""
        if not (c.op == "app" and c.args[0] == "cst_layout"):
            return False
        empty_cst(X, c.args[1], what, props)
        if lay is None:
            X.same(what + " has no groups", vec_len(X, cx.get(c.args[2], GL, "families")), Int(0), props)
        else:
            X.same(what + " has the given layout", c.args[2], lay, props + " C10 C09")
        return True

    run("<%s as core::default::Default>::default" % WORLD, [], {}, default)

    # ---- new
    lp, lay = Sym("layout"), Sym("lay")

    def new(X):
        v = X.simp(X.ret)
        unchecked(X, "C07")
        empty_es(X, cx.get(v, WORLD, "entities"), "a new world", BP)
        c = X.simp(cx.get(v, WORLD, "components"))
        if not laid_out(X, c, lay, "a new world", BP):
            X.fail("a new world has the given layout", "components %s" % show(c), BP + " C09")
        bs = builds(X)
        X.require("creating a world registers nothing else", all(e.op == "cst_layout" for e in bs), BP + " C21", "%s" % [e.op for e in bs])

    run(WORLD + "::new", [lp], {lp: lay}, new)

    # ---- set_layout
    def set_layout(X):
        v = X.simp(X.deref(W.world))
        unchecked(X, "C07")
        X.same("setting a layout keeps the entities", X.simp(cx.get(v, WORLD, "entities")), W.es, "C10 C02")
        c = X.simp(cx.get(v, WORLD, "components"))
        if not X.require("setting a layout lays out the component storage once", c.op == "app" and c.args[0] == "cst_layout" and X.holds(eq(c.args[1], W.cst)),
                         "C10 C24", "components %s" % show(c)):
            return
        X.same("setting a layout uses the given layout", c.args[2], lay, "C10 C24 C09")
        s = X.simp(c.args[3])
        if s.op != "agg":
            return X.undecided("set_layout", "entities passed to the component storage")
        X.same("all entities are grouped anew", s.args[1], W.n0, "C10 C08")
        k = Sym("k")
        if X.ask(lt(k, W.n0)):
            X.same("all entities are grouped anew", X.sel(s.args[2], add(s.args[3], k)), T("sel", W.ES0, k), "C10 C08")

    run(WORLD + "::set_layout", [W.world, lp], W.mem | {lp: lay}, set_layout, "C10 C24")

    # ---- builder
    b, N, Cs, B0 = Sym("builder"), Sym("ncomp"), Sym("comps"), Sym("layout0")
    bval = cx.mk(WB, layout=B0, components=agg(0, N, Cs))

    def fields(X, v):
        return X.simp(cx.get(v, WB, "layout")), X.simp(cx.get(v, WB, "components"))

    def same_list(X, c, what):
        X.same(what + " keeps the configured types", c, agg(0, N, Cs), BP)

    def returns_self(X):
        X.same("builder methods return the builder", X.simp(X.ret), b, BP)

    def b_default(X):
        l, c = fields(X, X.simp(X.ret))
        X.same("a new builder has no groups", vec_len(X, cx.get(l, GL, "families")), Int(0), BP)
        X.same("a new builder has no types", vec_len(X, c), Int(0), BP)

    run(WORLD + "::builder", [], {}, b_default)
    run("<%s as core::default::Default>::default" % WB, [], {}, b_default)

    def b_layout(X):
        l, c = fields(X, X.simp(X.deref(b)))
        X.same("setting a layout replaces the configured one", l, lay, BP)
        same_list(X, c, "setting a layout")
        returns_self(X)

    run(WB + "::set_layout", [b, lay], {b: bval}, b_layout)

    ks, nk = Sym("ks"), Sym("nk")
    Ks = Sym("Ks")

    def adds(where, get, want):
        def f(X):
            l = get(X)
            ok = l.op == "app" and l.args[0] == "layout_add" and X.holds(eq(l.args[1], B0))
            if not X.require("adding a group adds it to the layout once", ok, BP + " C09", "layout %s" % show(l)):
                return
            want(X, X.simp(l.args[2]))
            where(X)
        return f

    def dyn_group(X, s):
        if s.op != "agg":
            return X.undecided("add_group", "types passed to the layout")
        X.same("a group is added with all its types", s.args[1], nk, BP + " C09")
        k = Sym("k")
        if X.ask(lt(k, nk)):
            X.same("a group is added with all its types", X.sel(s.args[2], add(s.args[3], k)), T("sel", Ks, k), BP + " C09")

    def own_group(X, s):
        if s.op == "agg":
            s = X.simp(s.args[2])
        ok = s.op == "app" and s.args[0] == "const" and s.args[1].endswith("GroupDescriptor::COMPONENTS")
        if not ok:
            return X.undecided("add_group", "types passed to the layout: %s" % show(s))
        X.emit("a group is added with the types of its description", [cx.P.types[i]["s"] for i in s.args[2]] == ["G"], BP + " C09 C26", "adds %s" % show(s))

    def in_builder(X):
        return fields(X, X.simp(X.deref(b)))[0]

    def rest(X):
        same_list(X, fields(X, X.simp(X.deref(b)))[1], "adding a group")
        returns_self(X)

    ksl = T("slice", ref(("O", ks), ()), Int(0), nk)
    run(WB + "::add_group_dyn", [b, ksl], {b: bval, ks: Ks}, adds(rest, in_builder, dyn_group))
    run(WB + "::add_group", [b], {b: bval}, adds(rest, in_builder, own_group))
    g = Sym("layout")
    run(GL + "::add_group", [g], {g: B0}, adds(lambda X: None, lambda X: X.simp(X.deref(g)), own_group), "C24 C09")

    data = Sym("data")

    def registers(want):
        def f(X):
            l, c = fields(X, X.simp(X.deref(b)))
            X.same("configuring a type keeps the layout", l, B0, BP)
            returns_self(X)
            ps = [e for e in X.st.ev if e.kind == "push"]
            k = Sym("k")
            if not ps:
                known = X.holds(T("app", "contains", Cs, N, want))
                X.emit("a configured type is remembered", known and X.holds(eq(vec_len(X, c), N)), BP + " C21", "components %s" % show(c))
                return same_list(X, c, "configuring a type")
            n = vec_len(X, c)
            X.same("configuring a type adds one type", n, add(N, Int(1)), BP + " C21")
            buf = X.simp(fld(c, 1, 0, 2))
            if len(ps) != 1 or not X.holds(eq(ps[0].i, N)):
                return X.undecided("register", "%d additions" % len(ps))
            X.same("a configured type is remembered", X.sel(buf, N), want, BP + " C21")
            if X.ask(lt(k, N)):
                X.same("configuring a type keeps the configured types", X.sel(buf, k), T("sel", Cs, k), BP)
        return f

    run(WB + "::register_dyn", [b, data], {b: bval}, registers(data))
    run(WB + "::register", [b], {b: bval}, registers(T("app", "cdata", "T")))

    # ---- build
    def build(X):
        unchecked(X, "C07")
        l, c = fields(X, X.simp(X.deref(b)))
        X.same("building keeps the configured layout", l, B0, BP)
        same_list(X, c, "building")
        v = X.simp(X.ret)
        empty_es(X, cx.get(v, WORLD, "entities"), "a built world", BP)
        cs = X.simp(cx.get(v, WORLD, "components"))
        regs = [e for e in builds(X) if e.op == "cst_register"]
        loops = [e.rec for e in X.st.ev if e.kind == "loop" and any(z.kind == "build" for z in back_events(e.rec))]
        base = cs
        if not loops:
            # a fixed number of registrations
            X.require("every configured type is registered", le(N, Int(len(regs))), BP + " C21", "%d types are registered" % len(regs))
            if regs:
                return X.undecided("build", "types are registered in an unrecognised way")
        elif len(loops) > 1 or any(e.kind == "build" and e.op == "cst_register" for e in X.st.ev):
            return X.undecided("build", "types are registered in an unrecognised way")
        else:
            rec = loops[0]
            cell = next((k for k, s in rec.cells.items() if s is cs), None)
            if cell is None:
                return X.undecided("build", "components %s" % show(cs))
            base = X.simp(X.I.read(rec.init, *cell))
            cells = loop_cells(X, rec)
            walk = [(s, iv, d) for s, (iv, d) in cells.items() if d in (1, -1)]
            full = None
            for s, iv, d in walk:
                if d == 1 and X.holds(eq(sub(s, iv), N)) or d == -1 and X.holds(eq(sub(iv, s), N)):
                    full = (s, iv, d)
                    break
            if not X.require("every configured type is registered", full is not None, BP + " C21", "the loop does not reach all types"):
                return
            s, iv, d = full

            def step(Y):
                rs = [e for e in Y.st.ev if e.kind == "build"]
                if not rs:
                    # left out because it is known already?
                    return Y.undecided("build", "a type is left out")
                ok = len(rs) == 1 and rs[0].op == "cst_register"
                if ok and rs[0].place != cell:
                    # moved out of the world and back
                    ok = rs[0].old is rec.cells[cell] and Y.simp(Y.I.read(Y.st, *cell)) is T("app", "cst_register", rs[0].old, *rs[0].args)
                if not Y.require("a configured type is registered in the built world", ok, BP + " C21", "%s" % [e.op for e in rs]):
                    return
                j = sub(s, iv) if d == 1 else sub(sub(iv, s), Int(0))
                a = Y.simp(rs[0].args[0])
                want = [T("sel", Cs, j)] + [T("sel", Cs, sub(sub(N, Int(1)), j))]
                for w in want:
                    Y.st.facts.add_term(w)
                Y.emit("every configured type is registered once", any(Y.holds(eq(a, w)) for w in want), BP + " C21", "registers %s" % show(a))

            for z in rec.backs:
                cx.each([step_exit(X, z)], step)
        if not laid_out(X, base, B0, "a built world", BP):
            X.fail("a built world has the configured layout", "components %s" % show(base), BP)

    run(WB + "::build", [b], {b: bval}, build)

    def b_clone(X):
        unchecked(X, "C07")
        X.same("cloning a builder keeps it", X.simp(X.deref(b)), bval, BP)
        l, c = fields(X, X.simp(X.ret))
        fams = X.simp(cx.get(l, GL, "families"))
        ofam = X.simp(cx.get(B0, GL, "families"))
        X.require("a cloned builder has the same layout", l is B0 or X.holds(eq(vec_len(X, fams), vec_len(X, ofam))), BP)
        X.same("a cloned builder has the same types", vec_len(X, c), N, BP)

    k = "<%s as core::clone::Clone>::clone" % WB
    if cx.has(k):
        run(k, [b], {b: bval}, b_clone)


def back_events(rec):
    for b in rec.backs:
        for e in b.ev:
            yield e


@rule("group-descriptors", "C26 C09")
def r_desc(cx):
    """The description of a tuple names each of its component types once, for every arity."""
    found = {}
    for i in cx.P.items:
        if i["k"] == "constbody" and i["key"].endswith("GroupDescriptor>::COMPONENTS"):
            found.setdefault(i["key"], []).append(i)
    # the tuple implementations that exist
    for n in range(2, 17):
        key = "<(%d) as sparsey::component::group_layout::GroupDescriptor>::COMPONENTS" % n
        if key not in found:
            cx.record("tuples of every supported length describe groups", False, key, "", "no description for tuples of %d components" % n, "C26 C09")
    mk = {CD + "::new": lambda c: T("app", "cdata", c.I.P.types[c.targ(0)]["s"])}

    def value(key, inst, depth):
        ex = [X for X in cx.run(key, [], {}, inst=inst, span="", bounds=mk)]
        if len(ex) != 1 or ex[0].kind != "return":
            return None, None
        X = ex[0]
        r = X.simp(X.ret)
        if r.op == "slice":
            if r.args[1] is not Int(0) or r.args[2].op != "int":
                return X, None
            p = r.args[0]
            return array(key, X, X.simp(p), r.args[2].args[0], depth)
        return array(key, X, r, None, depth)

    def array(key, X, p, n, depth):
        if p.op == "app" and p.args[0] == "const":
            if depth > 4 or len(p.args) < 5 or p.args[4] is None:
                return X, None
            Y, v = value(key, p.args[4], depth + 1)
            return Y, v if v is None or n is None else v[:n]
        if p.op == "ref":
            if p.args[0][0] == "O" and p.args[0][1].op == "app" and p.args[0][1].args[0] == "const":
                return array(key, X, p.args[0][1], n, depth)
            v = X.simp(X.I.read(X.st, *p.args))
        else:
            v = p
        if v.op == "agg":
            return X, [X.simp(a) for a in v.args[1:]][: n if n is not None else len(v.args)]
        if v.op == "const" or v.op == "app" and v.args[0] == "const" and len(v.args) > 4:
            return array(key, X, v, n, depth + 1) if v.op == "app" and depth < 5 else (X, None)
        return X, None

    for key, rs in sorted(found.items()):
        for i in rs:
            X, v = value(key, i["inst"], 0)
            if X is None or v is None:
                cx.note("undecided", key, "the value of COMPONENTS is not recognised")
                continue
            want = [x.strip() for x in i["impl_ty"].strip("()").split(",") if x.strip()]
            got = [a.args[1] if a.op == "app" and a.args[0] == "cdata" else show(a) for a in v]
            cx.record("a group description names each component type of its tuple once", sorted(got) == sorted(want), key, i["span"],
                      "names %s for %s" % (", ".join(got), i["impl_ty"]), "C26 C09")
