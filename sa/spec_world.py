"""Rules for the operations of World on entities and components."""
from .terms import *
from .adt import *
from .core import rule, Skip, Infeasible
from .wvoc import *
from .spec_sparse import wrap
from .spec_set import CSET, all_events, dropped, check_gr_args

CDATA_NEW = CD + "::new"


def key(cx, name):
    k = WORLD + "::" + name
    if not cx.has(k):
        # the public API is what the properties talk about
        cx.record("public operation exists", False, k, "", "%s is missing" % k)
        return None
    return k


class Api:
    def __init__(self, cx):
        self.cx = cx

    def run(self, name, args, post, extra=None, allow=None, panics="C21 C07", boxed=None):
        k = key(self.cx, name)
        if k is None:
            return
        W = Wld(self.cx)
        b = W.bounds()
        if extra:
            b = b | extra
        ex = self.cx.run(k, [W.world] + args, W.mem, axioms=[W.axiom], assume=W.assume, bounds=b)
        self.cx.each(ex, lambda X: wrap(self.cx, X, lambda Y: post(W, Y), (lambda Y: allow(W, Y)) if allow else None, panics, "C07"))


KINDS = ("css", "css_new", "es", "gr", "borrow", "mapput", "mapdel", "mapclear", "push", "clear", "into_iter")


def evs(X, kinds=KINDS):
    return all_events(X, kinds)


def csets(X):
    """Calls of operations on generic component sets."""
    return [e for e in all_events(X, ("call",)) if e.name.startswith(CSET + "::")]


def other_calls(X, allowed=()):
    return [e.name for e in all_events(X, ("call",)) if not e.d.get("pure") and not e.name.startswith(CSET + "::") and e.name not in allowed]


def unchanged(W, X, what, props, es=True, cst=True):
    e, c = W.state(X)
    if es:
        X.same(what + " leaves the entities alone", e, W.es, props)
    if cst:
        X.same(what + " leaves the components alone", X.simp(c), W.cst, props)


def one_cset(X, W, op, args, what, props):
    cs = csets(X)
    if not X.require("%s hands the components to the component set once" % what, len(cs) == 1 and cs[0].name == CSET + "::" + op, props,
                     "calls %s" % [c.name for c in cs]):
        return None
    c = cs[0]
    ok = len(c.args) == len(args) and all(X.holds(eq(X.simp(a), b)) for a, b in zip(c.args, args))
    X.emit("%s passes its own arguments on" % what, ok, props, "passes %s" % [show(a) for a in c.args])
    return c


@rule("world-operations", "C01 C02 C03 C04 C05 C06 C08 C10 C16 C18 C21 C25 C26 C07")
def r_world(cx):
    A = Api(cx)
    ent, comps = Sym("entity"), Sym("components")

    # ---- create
    def create(W, X):
        es = [e for e in evs(X, ("es",))]
        if not X.require("create makes one entity", len(es) == 1 and es[0].op == "create", "C01 C02 C26", "entity operations %s" % [e.op for e in es]):
            return
        r = X.simp(X.ret)
        X.same("create returns the new entity", r, es[0].ret, "C01 C02 C26")
        c = one_cset(X, W, "insert", [W.world, es[0].ret, comps], "create", "C04 C06 C16 C26")
        X.require("create keeps the components it stores", dropped(X, comps, list(flat(X.st.ev))) == 0, "C06 C04")
        fl = list(flat(X.st.ev))
        if c is not None and c in fl:
            X.require("create stores the components after making the entity", fl.index(es[0]) < fl.index(c), "C02 C04")
        X.require("create does nothing else", not [e for e in evs(X) if e.kind != "es"] and not other_calls(X), "C02 C04 C08")

    A.run("create", [comps], create)

    # ---- insert
    def insert(W, X):
        alive = X.ask(T("app", "alive", W.es, ent))
        r = X.simp(X.ret)
        d = dropped(X, comps, list(flat(X.st.ev)))
        if alive:
            X.require("insert reports success for a live entity", eq(r, TRUE), "C03 C04")
            one_cset(X, W, "insert", [W.world, ent, comps], "insert", "C03 C04 C06 C16 C26")
            X.require("insert keeps the components it stores", d == 0, "C06 C04")
        else:
            X.require("insert reports failure for a dead entity", eq(r, FALSE), "C03")
            X.require("insert stores nothing for a dead entity", not csets(X), "C03 C04", "the component set is called")
            X.require("insert drops the components of a dead entity once", d == 1, "C06", "dropped %d times" % d)
        X.require("insert does nothing else", not evs(X) and not other_calls(X), "C02 C03 C04 C08", "%s" % [e.kind for e in evs(X)])

    A.run("insert", [ent, comps], insert)

    # ---- remove, delete, extend
    def forward(op, ret):
        def f(W, X):
            c = one_cset(X, W, op, [W.world] + ([comps] if op == "extend" else [ent]), op, "C03 C04 C06 C26 C16" + (" C18" if op == "extend" else ""))
            if ret and c is not None:
                X.same(op + " returns what the component set returns", X.simp(X.ret), c.ret, "C04 C06 C26" + (" C18" if op == "extend" else ""))
            X.require(op + " does nothing else", not evs(X) and not other_calls(X), "C02 C04 C08", "%s" % [e.kind for e in evs(X)])
        return f

    A.run("remove", [ent], forward("remove", True))
    A.run("delete", [ent], forward("delete", False))
    A.run("extend", [comps], forward("extend", True))

    # ---- destroy
    def destroy(W, X):
        alive = X.ask(T("app", "alive", W.es, ent))
        r = X.simp(X.ret)
        es = evs(X, ("es",))
        e, c = W.state(X)
        X.require("destroy reports whether the entity was alive", eq(r, Bool(alive)), "C02 C03")
        if not alive:
            ok = all(z.op == "remove" and X.holds(eq(z.args[0], ent)) for z in es)
            X.require("destroying a dead entity changes no entity", ok, "C02 C03", "%s" % [z.op for z in es])
            X.same("destroying a dead entity changes no component", X.simp(c), W.cst, "C03 C05")
            X.require("destroying a dead entity changes no group", not [z for z in evs(X, ("gr", "css", "mapput", "mapdel"))], "C03 C08")
            return
        ok = len(es) == 1 and es[0].op == "remove" and X.holds(eq(es[0].args[0], ent))
        X.emit("destroy removes the entity once", ok, "C02 C01", "entity operations %s" % [z.op for z in es])
        fl = list(flat(X.st.ev)) + []
        gr = [z for z in all_events(X, ("gr",))]
        ok = len(gr) == 1 and gr[0].op == "ungroup_all" and gr[0] in X.st.ev
        if X.require("destroy takes the entity out of all groups", ok, "C05 C08", "calls %s" % [z.op for z in gr]):
            g = gr[0]
            check_gr_args(X, W, g, "destroy", "C05 C08")
            X.require("destroy takes the destroyed entity out of the groups", eq(g.args[2], ent), "C05 C08 C03")
            late = False
            for z in X.st.ev:
                if z is g:
                    break
                if has_ev(z, lambda y: y.kind == "css"):
                    late = True
            X.emit("destroy takes the entity out of the groups before its components are removed", not late, "C08 C05")
        k = Sym("k")
        cb = X.simp(cx.get(X.simp(c), CST, "components"))
        X.same("destroy keeps the storages", fld(cb, 0, 0, 2), W.cn, "C16 C05")
        if X.ask(lt(k, W.cn)):
            old = fld(T("sel", W.Cb, k), 0, 0, 1)
            new = X.fld(X.sel(fld(cb, 1, 0, 2), k), 0, 0, 1)
            want = T("app", "css_delete_dyn", old, ent)
            if X.simp(new) is X.simp(old) and X.holds(neg(T("app", "css_contains", old, ent))):
                want = old
            X.same("destroy deletes the entity's component from every storage", new, want, "C05 C03 C06")
        X.require("destroy only deletes components", all(z.op == "delete_dyn" for z in evs(X, ("css",))), "C05 C06", "calls %s" % [z.op for z in evs(X, ("css",))])
        X.same("destroy keeps the registry", X.simp(cx.get(X.simp(c), CST, "metadata")), W.M, "C16")
        X.require("destroy does nothing else", not evs(X, ("mapput", "mapdel", "mapclear", "push", "clear", "borrow")) and not csets(X) and not other_calls(X), "C02 C05")

    A.run("destroy", [ent], destroy)

    # ---- clear, reset
    def wipe(op):
        def f(W, X):
            e, c = W.state(X)
            es = evs(X, ("es",))
            ok = len(es) == 1 and es[0].op == op
            X.emit("%s drops all entities" % op, ok, "C02 C01 C05", "entity operations %s" % [z.op for z in es])
            k = Sym("k")
            cb = X.simp(cx.get(X.simp(c), CST, "components"))
            X.same("%s keeps the storages" % op, fld(cb, 0, 0, 2), W.cn, "C16 C05")
            if X.ask(lt(k, W.cn)):
                old = fld(T("sel", W.Cb, k), 0, 0, 1)
                new = X.fld(X.sel(fld(cb, 1, 0, 2), k), 0, 0, 1)
                want = T("app", "css_clear", old)
                if X.simp(new) is X.simp(old) and X.holds(eq(T("app", "css_len", old), Int(0))):
                    want = old
                X.same("%s empties every storage" % op, new, want, "C05 C06")
            X.require("%s only empties storages" % op, all(z.op == "clear" for z in evs(X, ("css",))), "C05 C06", "calls %s" % [z.op for z in evs(X, ("css",))])
            g = X.simp(cx.get(X.simp(c), CST, "groups"))
            X.same("%s keeps the groups" % op, fld(g, 0, 0, 2), W.gn, "C08 C10")
            if X.ask(lt(k, W.gn)):
                new = X.simp(X.sel(fld(g, 1, 0, 2), k))
                X.same("%s empties every group" % op, X.simp(cx.get(new, GROUP, "len")), Int(0), "C08 C05 C07")
                md = cx.get(new, GROUP, "metadata")
                X.same("%s keeps the definition of every group" % op, X.simp(md), cx.get(T("sel", W.G, k), GROUP, "metadata"), "C08 C10")
            X.same("%s keeps the registry" % op, X.simp(cx.get(X.simp(c), CST, "metadata")), W.M, "C16")
            X.require("%s does nothing else" % op, not evs(X, ("mapput", "mapdel", "mapclear", "push", "borrow", "gr")) and not csets(X) and not other_calls(X), "C05")
        return f

    A.run("clear", [], wipe("clear"))
    A.run("reset", [], wipe("reset"))

    # ---- maintain, create_atomic and the readers
    def passes(op, ret, props):
        def f(W, X):
            es = evs(X, ("es",))
            ok = len(es) == 1 and es[0].op == op
            X.emit("%s is the entity storage's %s" % (op, op), ok, props, "entity operations %s" % [z.op for z in es])
            if ret and ok:
                X.same("%s returns the entity storage's result" % op, X.simp(X.ret), es[0].ret, props)
            X.require("%s does nothing else" % op, not [z for z in evs(X) if z.kind != "es"] and not csets(X) and not other_calls(X), props)
        return f

    A.run("maintain", [], passes("maintain", False, "C02 C25"))
    A.run("create_atomic", [], passes("create_atomic", True, "C25 C01"))

    def reader(what, want, props):
        def f(W, X):
            want(W, X)
            X.require(what + " changes nothing", not evs(X) and not csets(X) and not other_calls(X), props)
        return f

    A.run("contains_entity", [ent], reader("contains_entity", lambda W, X: X.same(
        "contains_entity tells whether the entity is alive", X.simp(X.ret), T("app", "alive", W.es, ent), "C01 C02 C03"), "C02"))
    A.run("is_empty", [], reader("is_empty", lambda W, X: X.require(
        "is_empty tells whether there are no entities", eq(Bool(X.ask(eq(W.n0, Int(0)))), X.simp(X.ret)), "C02"), "C02"))

    def entities(W, X):
        r = X.simp(X.ret)
        k = Sym("k")
        ok = r.op == "slice" and r.args[0].op == "ref" and X.holds(eq(r.args[2], W.n0))
        if ok and X.ask(lt(k, W.n0)):
            b = X.I.read(X.st, r.args[0].args[0], r.args[0].args[1])
            ok = X.holds(eq(X.sel(b, add(r.args[1], k)), T("sel", W.ES0, k)))
        X.emit("entities returns the whole entity list", bool(ok), "C02 C18", "returns %s" % show(r))

    A.run("entities", [], reader("entities", entities, "C02"))

    # ---- registration
    data = Sym("data")
    tid_of = lambda p: None

    def type_id_call(X):
        return [e for e in all_events(X, ("call",)) if e.name.endswith("::type_id")]

    def register(W, X, known):
        """known: (type id, is the sparse set of the same component)."""
        ids = type_id_call(X)
        r = X.simp(X.ret)
        objs = {X.simp(e.args[0]) for e in ids}
        src = known(X)
        X.require("registration looks up the component's own type", len(objs) >= 1 and all(X.holds(eq(o, src)) for o in objs) if src is not None else bool(objs),
                  "C16 C21", "looks up %s" % [show(o) for o in objs])
        if not ids:
            return
        t = ids[0].ret
        e, c = W.state(X)
        cb = X.simp(cx.get(X.simp(c), CST, "components"))
        M2 = X.simp(cx.get(X.simp(c), CST, "metadata"))
        X.same("registration leaves the entities alone", e, W.es, "C02 C16")
        X.same("registration leaves the groups alone", X.simp(cx.get(X.simp(c), CST, "groups")), agg(0, W.gn, W.G), "C08 C10")
        if X.ask(W.has(t)):
            X.require("registering twice reports false", eq(r, FALSE), "C16 C21")
            X.same("registering twice changes nothing", M2, W.M, "C16 C21 C10")
            X.same("registering twice keeps the storages", cb, agg(0, W.cn, W.Cb), "C16 C21 C05 C10")
            return
        X.require("registering a new type reports true", eq(r, TRUE), "C16 C21")
        puts = evs(X, ("mapput",))
        if X.require("registering a new type adds one entry", len(puts) == 1 and X.holds(eq(puts[0].k, t)), "C16 C21", "adds %s" % [show(p.k) for p in puts]):
            v = X.simp(puts[0].v)
            si = X.simp(cx.get(v, META, "storage_index"))
            X.require("the new entry refers to the new storage", eq(si, W.cn), "C16 C21 C07", "storage index %s" % show(si))
            for f in ("insert_mask", "delete_mask"):
                m = X.simp(fld(X.simp(cx.get(v, META, f)), 0, 0, 1))
                X.require("a type registered without a group is in no group", eq(m, Int(0)), "C08 C10")
            X.require("a type registered without a group is in no group", eq(discr(X.simp(cx.get(v, META, "group_info"))), Int(0)), "C08 C10 C12")
        X.same("registering a new type adds one storage", fld(cb, 0, 0, 2), add(W.cn, Int(1)), "C16 C21 C07")
        k = Sym("k")
        buf = fld(cb, 1, 0, 2)
        if X.ask(lt(k, W.cn)):
            X.same("registration keeps the other storages", X.sel(buf, k), T("sel", W.Cb, k), "C16 C04 C05")
        cell = X.fld(X.sel(buf, W.cn), 0, 0, 1)
        mk = [z for z in all_events(X, ("call",)) if z.name.endswith("::create_sparse_set") and z.ret is cell]
        ok = bool(mk) and X.holds(eq(X.simp(mk[0].args[0]), X.simp(ids[0].args[0])))
        if not ok and cell.op == "app" and cell.args[0] == "css_new":
            ok = True
        X.emit("the new storage is made by the registered component", ok, "C16", "stores %s" % show(cell))

    A.run("register_dyn", [data], lambda W, X: register(W, X, lambda X: fld(data, 0, 0, 1)))

    def is_const_data(X):
        ids = type_id_call(X)
        o = X.simp(ids[0].args[0]) if ids else None
        if o is not None and o.op == "app" and o.args[0] == "const" and o.args[1] == CDATA_NEW:
            return o if [cx.P.types[i]["s"] for i in o.args[2]] == ["T"] else Sym("component_data_of_T")
        return None

    A.run("register", [], lambda W, X: register(W, X, is_const_data))

    def registered(t):
        def f(W, X):
            X.require("is_registered tells whether the type is registered", eq(X.simp(X.ret), Bool(X.ask(W.has(t(W))))), "C21 C16")
        return f

    A.run("is_registered", [], reader("is_registered", registered(lambda W: W.tid("T")), "C16"))
    ty = Sym("type_id")
    A.run("is_registered_dyn", [ty], reader("is_registered_dyn", registered(lambda W: ty), "C16"))


@rule("component-data", "C16 C21 C23")
def r_data(cx):
    """The type-erased description of a component belongs to that component."""
    found = 0
    for k in sorted(cx.P.by_key):
        m = k.rsplit("::", 1)[-1]
        if "AbstractComponentData>::" not in k or m not in ("type_id", "create_sparse_set", "type_name"):
            continue
        found += 1
        W = Wld(cx)
        ex = cx.run(k, None, W.mem, bounds=W.bounds())

        def f(X):
            r = X.simp(X.ret)
            if m == "type_id":
                X.require("a component's description has the component's type id", eq(r, T("app", "tid", "T")), "C16 C21 C23", "returns %s" % show(r))
            elif m == "create_sparse_set":
                X.require("a component's description creates storages of the component's type", eq(r, T("app", "css_new", "T")), "C16", "returns %s" % show(r))

        cx.each(ex, lambda X: wrap(cx, X, f))
    if found < 2:
        raise Skip("implementation of AbstractComponentData not found")
    for n in ("type_id",):
        k = CD + "::" + n
        if not cx.has(k):
            cx.record("public operation exists", False, k, "", "%s is missing" % k)
            continue
        d = Sym("data")
        ex = cx.run(k, [d], {d: agg(0, Sym("obj"))})

        def g(X):
            cs = [e for e in all_events(X, ("call",)) if e.name.endswith("::" + n)]
            ok = len(cs) == 1 and X.holds(eq(X.simp(cs[0].args[0]), Sym("obj"))) and X.holds(eq(X.simp(X.ret), cs[0].ret))
            X.emit("a component's description reports its own %s" % n, ok, "C16 C21 C23")

        cx.each(ex, lambda X: wrap(cx, X, g))


def discr(v):
    return Int(v.args[0]) if v.op == "agg" else T("discr", v)


@rule("world-borrow", "C15 C16 C21 C07 C12 C13 C04")
def r_borrow(cx):
    A = Api(cx)

    def allow(W, X):
        if not X.holds(neg(W.has(W.tid("T")))):
            return False
        X.emit("borrowing an unregistered type touches nothing", not evs(X), "C21")
        return True

    def borrow(mut, info):
        def f(W, X):
            t = W.tid("T")
            X.require("borrow succeeds only for registered types", W.has(t), "C21 C16")
            bs = evs(X, ("borrow",))
            if not X.require("borrow takes one guard", len(bs) == 1, "C15 C16", "%d guards" % len(bs)):
                return
            b = bs[0]
            X.require("borrow takes the guard of its own type", W.cell_is(X, b.place, t) or W.cell_is(X, (b.place[0], b.place[1] + (("f", 0, 1),)), t), "C15 C16 C04", "borrows %s" % show(ref(*b.place)))
            X.require("borrow takes a %s guard" % ("unique" if mut else "shared"), b.mut == mut, "C15")
            r = X.simp(X.ret)
            v = fld(r, 0, 0, 2) if info else r
            g = v
            for _ in range(3):
                if g.op == "agg" and len(g.args) > 1:
                    g = X.simp(g.args[1])
            ok = g.op == "app" and g.args[0] == "guard" and g.args[1] is Bool(mut) and g.args[2].op == "ref"
            X.emit("borrow keeps the guard in the view", ok, "C15", "returns %s" % show(v))
            if info:
                gi = X.simp(fld(r, 1, 0, 2))
                want = fld(W.meta(t), cx.fi(META, "group_info")[0], 0, cx.fi(META, "group_info")[1])
                X.same("borrow returns the group information of its own type", gi, want, "C12 C13")
            X.require("borrow changes nothing", not [z for z in evs(X) if z.kind != "borrow"] and not other_calls(X), "C16")
        return f

    A.run("borrow", [], borrow(False, False), allow=allow)
    A.run("borrow_mut", [], borrow(True, False), allow=allow)
    A.run("borrow_with_group_info", [], borrow(False, True), allow=allow)
    A.run("borrow_with_group_info_mut", [], borrow(True, True), allow=allow)
