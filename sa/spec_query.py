"""Rules for views and queries."""
from .terms import *
from .adt import *
from .core import rule, Skip, Exit, Infeasible
from .sets import *
from .wvoc import *
from .spec_sparse import wrap, eqb, elem_ref, whole_slice, reads, MEMP

QP = "sparsey::query::query_part::QueryPart"
QY = "sparsey::query::Query"


def as_view(cx, c, adt, mut):
    """A view of the component set c; the set lies behind the guard."""
    css = Sym("css")
    g = agg(0, T("app", "guard", Int(1 if mut else 0), ref(("O", css), ())))
    return cx.mk(adt, components=g), c.mem | {css: c.val}


@rule("views", "C03 C04 C07 C11 C13 C16 C22 C20")
def r_views(cx):
    """Views give exactly the components, entities and lengths of the component set they guard."""
    for adt, mut in ((VIEW, False), (VIEWMUT, True)):
        c = Css(cx)
        v, mem = as_view(cx, c, adt, mut)
        p, q = Sym("view"), Sym("q")
        reads(cx, c, adt + "::", p, mem | {p: v})
        for tr, fn in (("Index", "index"), ("IndexMut", "index_mut")):
            key = "<%s as core::ops::index::%s>::%s" % (adt, tr, fn)
            if not cx.has(key):
                continue

            def post(X):
                if X.require("indexing finds only present components", Bool(c.v.contains(X, c.S, c.n, q)), "C03 C04"):
                    elem_ref(X, "indexing refers to the component of the entity", X.ret, c.Cp, c.v.dense(X, c.S, q), "C04 C07 C16")

            def allow(X):
                X.emit("indexing finds present components", not c.v.contains(X, c.S, c.n, q), "C04")
                return True

            ex = cx.run(key, [p, q], mem | {p: v}, axioms=[c.axiom], assume=c.assume)
            cx.each(ex, lambda X: wrap(cx, X, post, allow, "C04", MEMP))


# ---------------------------------------------------------------- parts of queries

FORMS = (("<&T as %s>::", VIEW, False, False), ("<&mut T as %s>::", VIEWMUT, True, False),
         ("<core::option::Option<&T> as %s>::", VIEW, False, True), ("<core::option::Option<&mut T> as %s>::", VIEWMUT, True, True))


def single(cx, ex, key, n=None):
    """The value returned by a function that always returns the same value."""
    vals = []
    for X in ex:
        if X.kind == "return":
            v = X.simp(X.ret)
            vals.append((v, X))
    if not vals:
        raise Skip("%s does not return" % key)
    return vals


class Part:
    """The parts a query part or query is split into, independent of their representation."""

    def __init__(self, cx, prefix, view, mem, axioms, assume, bounds=None, idx=0, must=True):
        self.cx, self.prefix, self.mem, self.axioms, self.assume, self.bounds, self.idx = cx, prefix, mem, axioms, assume, bounds, idx
        v = Sym("view")
        self.view = v
        self.mem = mem | {v: view}

    def run(self, fn, args, assume=(), axioms=()):
        return self.cx.run(self.prefix + fn, args, self.mem, axioms=list(self.axioms) + list(axioms), assume=list(self.assume) + list(assume),
                           bounds=self.bounds, idx=self.idx)

    def split(self, fn, n, check=None):
        """The n components of the value of a split function, the first being the list of entities."""
        ex = self.run(fn, [self.view])
        if check is not None:
            self.cx.each(ex, lambda X: wrap(self.cx, X, check))
        out = None
        for X in ex:
            if X.kind != "return":
                continue
            r = X.simp(X.ret)
            vs = [X.simp(fld(r, i, 0, n)) for i in range(n)]
            if out is None:
                out = vs
            elif out[1:] != vs[1:]:
                raise Skip("%s%s: parts differ between paths" % (self.prefix, fn))
        if out is None:
            raise Skip("%s%s does not return" % (self.prefix, fn))
        return out


def live(V, S, n, e):
    """The entity e is alive and the storage only holds live entities: a slot for its index is its own."""

    def ax(f, t):
        if t.op == "sel" and t.args[0] is S:
            x = V.idx(e)
            f.add_axiom(conj(eq(t.args[1], x), lt(x, n), eq(T("discr", t), Int(1))), lambda: [eq(V.sver(t), V.ver(e))])
    return ax


def opt_item(X, c, label, r, x, props):
    """r is Some(component in the slot of sparse index x) exactly if the slot is occupied."""
    had = c.v.has_sparse(X, c.S, c.n, x)
    r = X.simp(r)
    if X.require(label + ": present exactly if the entity has the component", eq(discr(r), Bool(had)), props) and had:
        elem_ref(X, label + ": refers to the entity's own component", fld(r, 0, 1), c.Cp, c.v.sidx(X.simp(X.sel(c.S, x))), props + " C04 C07")


@rule("query-parts", "C03 C04 C07 C11 C12 C13 C14 C15 C16 C20 C22")
def r_parts(cx):
    """Each kind of query part matches, finds and slices exactly the components of its own view."""
    for pre, adt, mut, opt in FORMS:
        pre = pre % QP
        P = "C22 C14" if opt else "C11 C14 C12"
        c = Css(cx)
        V = c.v
        v, mem = as_view(cx, c, adt, mut)
        e, x, i = Sym("e"), Sym("x"), Sym("i")
        A = Part(cx, pre, v, mem, [c.axiom], c.assume)

        def entities(X, props=P):
            r = X.simp(X.ret)
            s = X.simp(fld(r, 0, 0, 3 if len(r.args) == 4 else 2))
            if opt:
                X.require("an optional part does not restrict the entities", eq(discr(s), Int(0)), "C22 C11")
            elif X.require("a required part lists its entities", eq(discr(s), Int(1)), props):
                whole_slice(X, "list of entities", fld(s, 0, 1), c.Ep, c.L, props + " C13")

        # --- entity by entity
        def contains(X):
            want = True if opt else V.contains(X, c.S, c.n, e)
            X.require("contains: the part matches the right entities", eqb(X, X.ret, Bool(want)), "C22 C11" if opt else "C11 C03 C04")

        cx.each(A.run("contains", [A.view, e]), lambda X: wrap(cx, X, contains, None, "C11", MEMP))

        def got(X):
            r = X.simp(X.ret)
            had = V.contains(X, c.S, c.n, e)
            if opt:
                if not X.require("get: an optional part always matches", eq(discr(r), Int(1)), "C22"):
                    return
            elif not X.require("get: a required part matches entities with the component", eq(discr(r), Bool(had)), "C11 C03 C04"):
                return
            if opt or had:
                k = X.simp(fld(r, 0, 1))
                st = X.st
                ex = cx.run(pre + "get_sparse", [A.view, k], A.mem, axioms=[c.axiom], assume=c.assume + facts_of(st))
                cx.each(ex, lambda Y: wrap(cx, Y, item, None, "C11", MEMP))

        def item(Y):
            r = Y.simp(Y.ret)
            had = V.contains(Y, c.S, c.n, e)
            if opt:
                if Y.require("get: the optional item is present exactly if the entity has the component", eq(discr(r), Bool(had)), "C22 C03") and had:
                    elem_ref(Y, "get: the optional item is the entity's own component", fld(r, 0, 1), c.Cp, V.dense(Y, c.S, e), "C22 C04 C07")
            elif had:
                elem_ref(Y, "get: the item is the entity's own component", r, c.Cp, V.dense(Y, c.S, e), "C11 C04 C07")

        cx.each(A.run("get_sparse_key", [A.view, e]), lambda X: wrap(cx, X, got, None, "C11", MEMP))

        # --- filters
        _, sp = A.split("split_filter_parts", 2, entities)

        def raw(X):
            want = True if opt else V.has_sparse(X, c.S, c.n, x)
            X.require("filters: the part matches the right entities", eqb(X, X.ret, Bool(want)), P)

        cx.each(A.run("contains_raw", [sp, x]), lambda X: wrap(cx, X, raw, None, "C11", MEMP))

        # --- entities from a list
        _, sp, data = A.split("split_sparse_parts", 3, entities)
        lv = live(V, c.S, c.n, e)

        def key_raw(X):
            r = X.simp(X.ret)
            had = V.has_sparse(X, c.S, c.n, V.idx(e))
            if opt:
                if not X.require("filtered: an optional part always matches", eq(discr(r), Int(1)), "C22 C14"):
                    return
            elif not X.require("filtered: a required part matches entities with the component", eq(discr(r), Bool(had)), P):
                return
            if opt or had:
                k = X.simp(fld(r, 0, 1))
                ex = cx.run(pre + "get_sparse_raw", [data, k], A.mem, axioms=[c.axiom, lv], assume=c.assume + facts_of(X.st))
                cx.each(ex, lambda Y: wrap(cx, Y, item_raw, None, "C11", MEMP))

        def item_raw(Y):
            if opt:
                opt_item(Y, c, "filtered", Y.ret, V.idx(e), "C22 C14")
            elif V.has_sparse(Y, c.S, c.n, V.idx(e)):
                elem_ref(Y, "filtered: the item is the entity's own component", Y.ret, c.Cp, V.sidx(Y.simp(Y.sel(c.S, V.idx(e)))), P + " C04 C07")

        cx.each(A.run("get_sparse_key_raw", [sp, e], axioms=[lv]), lambda X: wrap(cx, X, key_raw, None, "C11", MEMP))

        # --- packed
        ents, data = A.split("split_dense_parts", 2, entities)

        def dense(X):
            if opt:
                opt_item(X, c, "packed", X.ret, V.idx(e), "C22 C14 C12")
            else:
                elem_ref(X, "packed: the item is the component at the entity's position", X.ret, c.Cp, i, "C12 C11 C13 C14 C07")

        cx.each(A.run("get_dense_raw", [data, i, e], axioms=[lv], assume=[lt(i, c.L)] if not opt else []), lambda X: wrap(cx, X, dense, None, "C12", MEMP))
        lo, hi = Sym("lo"), Sym("hi")
        if not opt:
            def slices(X):
                r = X.simp(X.ret)
                ok = r.op == "slice" and X.holds(eq(sub(r.args[2], Int(0)), sub(hi, lo)))
                b = r.args[0] if r.op == "slice" else r
                b = b.args[0][1] if b.op == "ref" and not b.args[1] and b.args[0][0] == "O" else b
                X.emit("slices: components lo..hi", ok and X.holds(conj(eq(b, c.Cp), eq(r.args[1], lo))), "C13 C07 C12", show(r))

            ex = A.run("slice_raw", [data, Sym("ents"), agg(0, lo, hi)], assume=[le(lo, hi), le(hi, c.L)])
            cx.each(ex, lambda X: wrap(cx, X, slices, None, "C13", MEMP))
        borrows(cx, pre, adt, mut, opt)
    entity_part(cx)


def facts_of(st):
    """The facts of a path, as assumptions for the next function."""
    return list(st.facts.log)


def borrows(cx, pre, adt, mut, opt):
    """The part guards its own component type, exclusively if it gives exclusive access."""
    for fn, info in (("borrow", False), ("borrow_with_group_info", True)):
        W = Wld(cx)
        t = W.tid("T")
        bounds = W.bounds()
        bounds[CSS + "::len"] = lambda c: T("app", "css_len", c.I.simp(c.st, c.read(c.deref(0))))
        ex = cx.run(pre + fn, [W.world], W.mem, axioms=[W.axiom], assume=W.assume, bounds=bounds)

        def allow(X):
            return X.holds(neg(W.has(t)))

        def post(X):
            bs = [z for z in X.st.ev if z.kind == "borrow"]
            if not X.require("a part takes one guard", len(bs) == 1, "C15", "%d guards" % len(bs)):
                return
            b = bs[0]
            X.require("a part guards its own component type", W.cell_is(X, b.place, t) or W.cell_is(X, (b.place[0], b.place[1] + (("f", 0, 1),)), t),
                      "C15 C16 C11 C22", "borrows %s" % show(ref(*b.place)))
            X.require("a part takes %s guard" % ("an exclusive" if mut else "a shared"), Bool(b.mut == mut), "C15")
            r = X.simp(X.ret)
            v = X.simp(fld(r, 0, 0, 2)) if info else r
            g = v
            for _ in range(3):
                if g.op == "agg" and len(g.args) > 1:
                    g = X.simp(g.args[1])
            ok = g.op == "app" and g.args[0] == "guard" and g.args[1] is Int(1 if mut else 0)
            X.emit("a part keeps its guard while it is in use", ok, "C15", "returns %s" % show(v))
            if info:
                gi = X.simp(fld(r, 1, 0, 2))
                if opt:
                    X.require("an optional part does not take part in grouping", eq(discr(gi), Int(0)), "C22 C12 C11")
                elif X.require("a required part takes part in grouping", eq(discr(gi), Int(1)), "C12 C13 C11"):
                    gi = fld(gi, 0, 1)
                    want = fld(W.meta(t), cx.fi(META, "group_info")[0], 0, cx.fi(META, "group_info")[1])
                    X.same("a part has the group of its own type", X.simp(cx.get(gi, VGI, "info")), want, "C12 C13 C11")
                    n = X.simp(cx.get(gi, VGI, "len"))
                    i, k = cx.fi(CSS, "len")
                    cell = ok and g.args[2].op == "ref" and X.simp(X.I.read(X.st, *g.args[2].args))
                    X.emit("a part knows the number of its components", bool(cell) and X.holds(disj(eq(n, T("app", "css_len", cell)), eq(n, fld(cell, i, 0, k)))),
                           "C12 C13 C11 C14", show(n))

        cx.each(ex, lambda X: wrap(cx, X, post, allow, "C15 C21", "C07"))


def entity_part(cx):
    """Entities as a part of a query: always match, and the item is the entity itself."""
    pre = "<%s as %s>::" % (ENT, QP)
    view, e, x, i = Sym("view"), Sym("e"), Sym("x"), Sym("i")
    E, n = Sym("ents"), Sym("n")
    A = Part(cx, pre, UNIT, {}, [], [])
    V = Voc(cx)

    def always(X):
        X.require("an entity part matches every entity", eqb(X, X.ret, TRUE), "C11 C14")

    def none(X):
        r = X.simp(X.ret)
        X.require("an entity part does not restrict the entities", eq(discr(X.simp(fld(r, 0, 0, len(r.args) - 1))), Int(0)), "C11")

    def itself(lab, pr):
        return lambda X: X.require("%s: the item is the entity itself" % lab, V.ent_eq(X.simp(X.ret), e), pr)

    def key(fn, args, lab, pr):
        def f(X):
            r = X.simp(X.ret)
            if X.require("%s: an entity part always matches" % lab, eq(discr(r), Int(1)), pr):
                cx.each(cx.run(pre + fn, args + [X.simp(fld(r, 0, 1))], A.mem), lambda Y: wrap(cx, Y, itself(lab, pr)))
        return f

    cx.each(A.run("contains", [A.view, e]), lambda X: wrap(cx, X, always))
    cx.each(A.run("get_sparse_key", [A.view, e]), lambda X: wrap(cx, X, key("get_sparse", [A.view], "get", "C11")))
    _, sp = A.split("split_filter_parts", 2, none)
    cx.each(A.run("contains_raw", [sp, x]), lambda X: wrap(cx, X, always))
    _, sp, data = A.split("split_sparse_parts", 3, none)
    cx.each(A.run("get_sparse_key_raw", [sp, e]), lambda X: wrap(cx, X, key("get_sparse_raw", [data], "filtered", "C11 C14")))
    _, data = A.split("split_dense_parts", 2, none)
    cx.each(A.run("get_dense_raw", [data, i, e]), lambda X: wrap(cx, X, itself("packed", "C11 C12 C14")))
    lo, hi = Sym("lo"), Sym("hi")
    s = T("slice", ref(("O", E), ()), Int(0), n)

    def slices(X):
        r = X.simp(X.ret)
        ok = r.op == "slice" and r.args[0].op == "ref" and r.args[0].args == (("O", E), ()) and X.holds(conj(eq(r.args[1], lo), eq(r.args[2], sub(hi, lo))))
        X.emit("slices: entities lo..hi", ok, "C13", show(r))

    cx.each(A.run("slice_raw", [data, s, agg(0, lo, hi)], assume=[le(lo, hi), le(hi, n)]), lambda X: wrap(cx, X, slices, None, "C13", MEMP))

    def info(X):
        r = X.simp(X.ret)
        X.require("an entity part does not take part in grouping", eq(discr(X.simp(fld(r, 1, 0, 2))), Int(0)), "C11 C12")

    cx.each(A.run("borrow_with_group_info", [Sym("world")]), lambda X: wrap(cx, X, info))


# ---------------------------------------------------------------- tuples of parts

def absent(X, t):
    """The option t is known to be None."""
    X.st.facts.add_term(t)
    X.st.facts.upper[T("discr", t)] = 1
    return X.holds(neg(eq(T("discr", t), Int(1))))


def key_axiom(f, t):
    """A part has a key for exactly the entities it contains (the contract of `get_sparse_key`, checked by query-parts)."""
    if t.op == "app" and t.args[0] == "qp_get_sparse_key":
        c, d = T("app", "qp_contains", *t.args[1:]), T("discr", t)
        f.add_axiom(c, lambda: [eq(d, Int(1))])
        f.add_axiom(neg(c), lambda: [eq(d, Int(0))])


def opaque(c, v):
    return c.I.simp(c.st, v)


class Parts:
    """Query parts of unknown types, as uninterpreted operations. Which of them list entities and
    take part in grouping is fixed by the pattern."""

    def __init__(self, cx, names, ents=(), infos=()):
        self.cx, self.names, self.ents, self.infos = cx, names, set(ents), set(infos)
        self.views = {n: Sym("view_" + n) for n in names}

    def slice(self, n):
        return T("slice", ref(("O", Sym("ents_" + n)), ()), Int(0), Sym("nents_" + n))

    def opt_ents(self, n):
        return agg(1, self.slice(n)) if n in self.ents else agg(0)

    def opt_info(self, n):
        return agg(1, Sym("info_" + n)) if n in self.infos else agg(0)

    def ops(self):
        P = self.cx.P

        def arg(c, i):
            """Value of argument i; references to views are followed."""
            t = P.types[c.argtys[i]] if c.argtys[i] is not None else None
            v = c.I.simp(c.st, c.args[i])
            if t is not None and t["k"] == "ref" and v.op != "slice":
                pl = c.deref(i)
                if pl[0] in c.st.mem:
                    return c.I.simp(c.st, c.read(pl))
            return v

        def op(name, f):
            def h(c):
                n = P.types[c.targ(0)]["s"]
                args = [arg(c, i) for i in range(len(c.args))]
                c.event("qp", op=name, part=n, args=args)
                return f(c, n, args)
            return h

        def app(name):
            return lambda c, n, a: T("app", "qp_" + name, n, *a)

        fs = {m: app(m) for m in ("borrow", "contains", "get_sparse_key", "get_sparse", "contains_raw", "get_sparse_key_raw", "get_sparse_raw",
                                  "get_dense_raw")}
        fs["borrow_with_group_info"] = lambda c, n, a: agg(0, T("app", "qp_borrow", n, *a), self.opt_info(n))
        fs["split_filter_parts"] = lambda c, n, a: agg(0, self.opt_ents(n), T("app", "qp_fsparse", n, *a))
        fs["split_sparse_parts"] = lambda c, n, a: agg(0, self.opt_ents(n), T("app", "qp_sparse", n, *a), T("app", "qp_data", n, *a))
        fs["split_dense_parts"] = lambda c, n, a: agg(0, self.opt_ents(n), T("app", "qp_ddata", n, *a))
        fs["slice_raw"] = lambda c, n, a: T("app", "qp_slice_raw", n, a[0], a[1], fld(a[2], 0, 0, 2), fld(a[2], 1, 0, 2))
        out = {QP + "::" + m: op(m, f) for m, f in fs.items()}
        out[QGI + "::add_view"] = lambda c: T("app", "add_view", arg(c, 0), arg(c, 1))
        out[QGI + "::add_query"] = lambda c: T("app", "add_query", arg(c, 0), arg(c, 1))
        return out

    def bounds(self):
        return Bounds((QP + "::",), self.ops())


def info_leaves(X, q):
    """The group infos merged into a query's group info, or None if it is not understood."""
    q = X.simp(q)
    if q.op == "agg":
        return set() if q.args[0] == 0 else {q.args[1]} if q.args[0] == 1 else None
    if q.op == "fld" and q.args[1:3] == (1, 0) or q.op == "fld" and q.args[0].op == "app" and q.args[0].args[0] in ("add_view", "add_query"):
        a = q.args[0]
        if a.op == "app" and a.args[0] == "add_view":
            l = info_leaves(X, a.args[1])
            return None if l is None else l | {a.args[2]}
        if a.op == "app" and a.args[0] == "add_query":
            l, r = info_leaves(X, a.args[1]), info_leaves(X, a.args[2])
            return None if l is None or r is None else l | r
    return None


def query_impls(cx, fn):
    """(key prefix, index, names of the parts or None for the implementation for single parts)."""
    out = []
    for k, rs in cx.P.by_key.items():
        if not k.endswith(" as %s>::%s" % (QY, fn)):
            continue
        for i, r in enumerate(rs):
            ty = r["impl_ty"].strip()
            if ty.startswith("("):
                out.append((k[: -len(fn)], i, [x.strip() for x in ty[1:-1].split(",") if x.strip()]))
            else:
                out.append((k[: -len(fn)], i, None))
    out.sort(key=lambda z: len(z[2]) if z[2] is not None else 1)
    return out


def patterns(names):
    """Which parts list entities: all choices for few parts, otherwise at most two or all."""
    n = len(names)
    if n <= 3:
        for m in range(1 << n):
            yield [names[i] for i in range(n) if m >> i & 1]
        return
    yield []
    for i in range(n):
        yield [names[i]]
    for i in range(n):
        yield [names[i], names[(i + 1) % n]]
        if n > 4:
            yield [names[i], names[(i + n // 2) % n]]
    if n <= 5:
        yield list(names)


TUP = "C11 C12 C13 C14 C22 C26 C15 C07"


@rule("query-tuples", TUP + " C09 C24", parts=[0, 1])
def r_tuples(cx, part):
    """Queries over several parts apply each operation to each part once, with its own view and data."""
    impls = query_impls(cx, "get")
    if len(impls) < 3:
        raise Skip("implementations of Query not found")
    order = [z for z in impls]
    for pre, idx, names in order:
        n = 1 if names is None else len(names)
        if (0 if n < 14 else 1) != part:
            continue
        tuple_query(cx, pre, idx, names)


def tuple_query(cx, pre, idx, names):
    one = names is None
    if one:
        names = ["Q"]
    n = len(names)
    e, x, i = Sym("e"), Sym("x"), Sym("i")

    def pos(v, k, m=None):
        return v if one else fld(v, k, 0, n)

    def tup(vals):
        vals = list(vals)
        return vals[0] if one else (agg(0, *vals) if vals else UNIT)

    Q = Parts(cx, names)
    view = tup(Q.views[a] for a in names)
    A = Part(cx, pre, view, {}, [], [], Q.bounds(), idx)
    app = lambda m, a, *args: T("app", "qp_" + m, a, *args)
    E = [Q.views[a] for a in names]

    def run(fn, args, f, props="C26 C11", assume=()):
        cx.each(cx.run(pre + fn, args, A.mem, axioms=[key_axiom], assume=list(assume), bounds=A.bounds, idx=idx), lambda X: wrap(cx, X, f, None, props, "C07"))

    def all_none(label, conds, props):
        """The value is true exactly if every condition holds."""
        def f(X):
            if X.ask(X.ret) if X.ret.op != "int" else X.ret.args[0]:
                for a, c in zip(names, conds):
                    X.require(label + ": true only if it holds for every part", c, props, "not established for %s" % a)
            else:
                X.require(label + ": false only if it fails for a part", Bool(any(X.holds(neg(c)) for c in conds)), props)
        return f

    def item(label, keys, vals, props, extra=None):
        """Some(all values) exactly if every key is there."""
        def f(X):
            r = X.simp(X.ret)
            if X.is_variant(r, 1):
                it = X.simp(fld(r, 0, 1))
                for k, (a, key, val) in enumerate(zip(names, keys, vals)):
                    X.require(label + ": matches only if every part matches", eq(T("discr", key), Int(1)), props, "not established for %s" % a)
                    X.same(label + ": each part gives its own item", pos(it, k), val, props)
            else:
                X.require(label + ": fails only if a part does not match", Bool(any(absent(X, k) for k in keys)), props)
        return f

    def whole(label, vals, props):
        def f(X):
            r = X.simp(X.ret)
            for k, (a, v) in enumerate(zip(names, vals)):
                X.same(label, pos(r, k), v, props)
            if not vals:
                X.emit(label, True, props)
        return f

    key = lambda t: fld(t, 0, 1)
    run("contains_all", [A.view, e], all_none("inclusion", [app("contains", a, v, e) for a, v in zip(names, E)], "C11 C26"))
    run("contains_none", [A.view, e], all_none("exclusion", [neg(app("contains", a, v, e)) for a, v in zip(names, E)], "C11 C26"))
    ks = [app("get_sparse_key", a, v, e) for a, v in zip(names, E)]
    run("get", [A.view, e], item("get", ks, [app("get_sparse", a, v, key(k)) for a, v, k in zip(names, E, ks)], "C11 C22 C26"))
    world = Sym("world")
    run("borrow", [world], whole("every part borrows its own view", [app("borrow", a, world) for a in names], "C15 C11 C26"))
    # the parts for raw access
    _, fsp = A.split("split_filter_parts", 2)
    run("contains_all_raw", [fsp, x], all_none("inclusion filter", [app("contains_raw", a, app("fsparse", a, v), x) for a, v in zip(names, E)], "C11 C14 C26"))
    run("contains_none_raw", [fsp, x], all_none("exclusion filter", [neg(app("contains_raw", a, app("fsparse", a, v), x)) for a, v in zip(names, E)], "C11 C14 C26"))
    _, sp, data = A.split("split_sparse_parts", 3)
    ks = [app("get_sparse_key_raw", a, app("sparse", a, v), e) for a, v in zip(names, E)]
    run("get_sparse_raw", [sp, data, e], item("filtered", ks, [app("get_sparse_raw", a, app("data", a, v), key(k)) for a, v, k in zip(names, E, ks)], "C11 C14 C22 C26"))
    _, dd = A.split("split_dense_parts", 2)
    run("get_dense_raw", [dd, i, e], whole("packed: each part gives its own item", [app("get_dense_raw", a, app("ddata", a, v), i, e) for a, v in zip(names, E)], "C12 C11 C14 C22 C26"))
    ents, lo, hi = Sym("ents"), Sym("lo"), Sym("hi")
    run("slice_raw", [dd, ents, agg(0, lo, hi)], whole("slices: each part gives its own slice", [app("slice_raw", a, app("ddata", a, v), ents, lo, hi) for a, v in zip(names, E)], "C13 C26"))
    # which list of entities is visited
    for pt in patterns(names):
        Q = Parts(cx, names, ents=pt)

        def chosen(m, props):
            def f(X):
                r = X.simp(X.ret)
                s = X.simp(fld(r, 0, 0, m))
                if not pt:
                    X.require("without required parts no list of entities is chosen", eq(discr(s), Int(0)), props)
                elif X.require("the entities of a required part are visited", eq(discr(s), Int(1)), props):
                    v = X.simp(fld(s, 0, 1))
                    X.require("the entities of a required part are visited completely", Bool(any(X.holds(eq(v, Q.slice(a))) for a in pt)), props, show(v))
            return f

        for fn, m, props in (("split_filter_parts", 2, "C11 C12 C14 C26"), ("split_sparse_parts", 3, "C11 C14 C26"), ("split_dense_parts", 2, "C12 C13 C14 C26")):
            cx.each(cx.run(pre + fn, [A.view], A.mem, bounds=Q.bounds(), idx=idx), lambda X: wrap(cx, X, chosen(m, props), None, props, "C07"))
    # group information
    pats = [list(names), []] + ([[a] for a in names] + [[b for b in names if b is not a] for a in names] if n > 1 else [])
    for pt in pats:
        Q = Parts(cx, names, infos=pt)

        def info(X):
            r = X.simp(X.ret)
            v, g = X.simp(fld(r, 0, 0, 2)), X.simp(fld(r, 1, 0, 2))
            for k, a in enumerate(names):
                X.same("every part borrows its own view", pos(v, k), app("borrow", a, world), "C15 C11 C26")
            if X.is_variant(g, 1):
                l = info_leaves(X, fld(g, 0, 1))
                if l is None:
                    return X.undecided("group info", "group info %s" % show(g), "C12 C13")
                want = {Sym("info_" + a) for a in pt}
                X.emit("the group of a query covers all of its parts", l == want, "C12 C13 C11 C26 C14",
                       None if l == want else "covers %s, expected %s" % (sorted(map(show, l)), sorted(map(show, want))))
            else:
                why = any(t.op == "app" and t.args[0] in ("add_view", "add_query") and absent(X, t) for t in list(X.st.facts.known))
                X.emit("grouped queries know their group", why, "C09 C24", None if why else "no group info although all parts are compatible")

        cx.each(cx.run(pre + "borrow_with_group_info", [world], A.mem, bounds=Q.bounds(), idx=idx), lambda X: wrap(cx, X, info, None, "C15 C11", "C07"))
