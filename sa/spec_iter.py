"""Rules for lookups and iteration."""
from .terms import *
from .adt import *
from .core import rule, Skip, Exit
from .sets import *
from .wvoc import *
from .seq import loop_cells, trip_count, segments, Unrecognised
from .spec_sparse import wrap, eqb, MEMP
from .spec_group import step_exit, trip_count_head
from .spec_query import QY, facts_of

QALL = "sparsey::query::query_all::QueryAll"
QONE = "sparsey::query::query_one::QueryOne"
ITER = "sparsey::query::iter::Iter"
IT = "core::iter::traits::iterator::Iterator"
CSTG = "sparsey::component::component_storage::ComponentStorage"
QGIK = QGI


class Queries:
    """Queries of unknown types, as uninterpreted operations. lists: the queries that list entities;
    infos: those that have group information."""

    def __init__(self, cx, lists=(), infos=()):
        self.cx, self.lists, self.infos = cx, set(lists), set(infos)
        self.world = Sym("world")

    def off(self, n):
        return Sym("off_" + n)

    def cnt(self, n):
        return Sym("cnt_" + n)

    def root(self, n):
        return Sym("list_" + n)

    def slice(self, n):
        return T("slice", ref(("O", self.root(n)), ()), self.off(n), self.cnt(n))

    def opt_list(self, n):
        return agg(1, self.slice(n)) if n in self.lists else agg(0)

    def info(self, n):
        return agg(1, Sym("info_" + n)) if n in self.infos else agg(0)

    def ops(self):
        P = self.cx.P

        def arg(c, i):
            t = P.types[c.argtys[i]] if c.argtys[i] is not None else None
            v = c.I.simp(c.st, c.args[i])
            if t is not None and t["k"] == "ref" and v.op != "slice":
                pl = c.deref(i)
                if pl[0] in c.st.mem:
                    return c.I.simp(c.st, c.read(pl))
            return v

        def op(name, f):
            def h(c):
                n = P.types[c.targ(0)]["s"]
                args = [arg(c, i) for i in range(len(c.args))]
                if name.startswith("contains") and (n == "()" or any(a.op == "app" and a.args[:2] == ("qy_fsparse", "()") for a in args if isinstance(a, Term))):
                    return TRUE   # the empty query has nothing to ask for
                c.event("qy", op=name, q=n, args=args)
                return f(c, n, args)
            return h

        def app(name):
            return lambda c, n, a: T("app", "qy_" + name, n, *a)

        fs = {m: app(m) for m in ("borrow", "contains_all", "contains_none", "get", "contains_all_raw", "contains_none_raw", "get_sparse_raw", "get_dense_raw")}
        fs["borrow_with_group_info"] = lambda c, n, a: agg(0, T("app", "qy_borrow", n, *a), self.info(n))
        fs["split_filter_parts"] = lambda c, n, a: agg(0, self.opt_list(n), T("app", "qy_fsparse", n, *a))
        fs["split_sparse_parts"] = lambda c, n, a: agg(0, self.opt_list(n), T("app", "qy_sparse", n, *a), T("app", "qy_data", n, *a))
        fs["split_dense_parts"] = lambda c, n, a: agg(0, self.opt_list(n), T("app", "qy_ddata", n, *a))
        fs["slice_raw"] = lambda c, n, a: T("app", "qy_slice_raw", n, a[0], a[1], fld(a[2], 0, 0, 2), fld(a[2], 1, 0, 2))
        out = {QY + "::" + m: op(m, f) for m, f in fs.items()}
        out[QGI + "::add_view"] = lambda c: T("app", "add_view", arg(c, 0), arg(c, 1))
        out[QGI + "::add_query"] = lambda c: T("app", "add_query", arg(c, 0), arg(c, 1))

        def group_range(c):
            t = T("app", "group_range", arg(c, 1), arg(c, 2))
            c.event("gr", args=[arg(c, 1), arg(c, 2)], ret=t)
            if not (self.lists & {"G", "I"}):
                return agg(0)
            return t

        out[CSTG + "::group_range"] = group_range
        return out

    def bounds(self):
        return Bounds((QY + "::",), self.ops())

    def axiom(self, f, t):
        """A range of packed entities is a range of the list of entities."""
        if t.op == "app" and t.args[0] == "group_range":
            r = fld(t, 0, 1)
            lo, hi = fld(r, 0, 0, 2), fld(r, 1, 0, 2)
            f.add_axiom(TRUE, lambda: [le(lo, hi)] + [le(hi, self.cnt(n)) for n in self.lists & {"G", "I"}])


def value(ex, what):
    """The value a function returns, and the facts of the path, if there is one path."""
    out = [X for X in ex if X.kind == "return"]
    if len(out) != 1:
        raise Skip("%s: %d results" % (what, len(out)))
    return out[0]


# ---------------------------------------------------------------- one entity

@rule("query-lookup", "C11 C15 C16 C22 C26")
def r_one(cx):
    """A lookup matches an entity exactly if it has everything that is required and nothing that is excluded."""
    Q = Queries(cx)
    w, e = Q.world, Sym("e")
    V = {n: T("app", "qy_borrow", n, w) for n in "GIE"}
    B = Q.bounds()
    configs = []
    q0 = value(cx.run(WORLD + "::query_one", [w], bounds=B), "query_one").ret
    qi = value(cx.run(QONE + "::include", [q0], bounds=B), "include").ret
    qe = value(cx.run(QONE + "::exclude", [q0], bounds=B), "exclude").ret
    qie = value(cx.run(QONE + "::exclude", [qi], bounds=B), "exclude").ret
    qei = value(cx.run(QONE + "::include", [qe], bounds=B), "include").ret
    for tag, q, vi, ve in (("no filters", q0, UNIT, UNIT), ("include", qi, V["I"], UNIT), ("exclude", qe, UNIT, V["E"]),
                           ("include, exclude", qie, V["I"], V["E"]), ("exclude, include", qei, V["I"], V["E"])):
        p = Sym("query")
        inc = T("app", "qy_contains_all", "I", vi, e)
        none = T("app", "qy_contains_none", "E", ve, e)
        has = T("app", "qy_contains_all", "G", V["G"], e)
        got = T("app", "qy_get", "G", V["G"], e)

        def filters(X, ok, rest):
            """ok exactly if the entity matches; rest: it has the required components."""
            if ok:
                X.require("matches only entities that pass the inclusion filter", inc, "C11 C26")
                X.require("matches only entities that pass the exclusion filter", none, "C11 C26")
                X.require("matches only entities with the components", rest, "C11")
            else:
                no = X.holds(neg(inc)) or X.holds(neg(none)) or X.holds(neg(rest))
                X.require("matches every entity that passes the filters", Bool(no), "C11 C26")

        def contains(X):
            r = X.simp(X.ret)
            r = bool(r.args[0]) if r.op == "int" else X.ask(r)
            filters(X, r, has)

        def get(X):
            ok = X.is_variant(X.ret, 1)
            X.st.facts.upper[T("discr", got)] = 1
            filters(X, ok, eq(T("discr", got), Int(1)))
            if ok:
                X.same("the item is the one of the entity", X.simp(fld(X.simp(X.ret), 0, 1)), X.simp(fld(got, 0, 1)), "C11 C22")

        def mapped(X):
            ok = X.is_variant(X.ret, 1)
            X.st.facts.upper[T("discr", got)] = 1
            filters(X, ok, eq(T("discr", got), Int(1)))
            calls = [z for z in X.st.ev if z.kind == "call"]
            X.require("the function is called exactly for a matching entity", len(calls) == (1 if ok else 0), "C11", "%d calls" % len(calls))
            if ok and len(calls) == 1:
                c = calls[0]
                X.require("the function is called with the item of the entity", Bool(any(X.holds(eq(X.simp(a), X.simp(fld(got, 0, 1)))) for a in leaves(X, c.args))),
                          "C11 C22", "called with %s" % ", ".join(map(show, c.args)))
                X.same("the result is the one of the function", X.simp(fld(X.simp(X.ret), 0, 1)), c.ret, "C11")

        mem = {p: q}
        for fn, args, f in (("contains", [p, e], contains), ("get", [p, e], get), ("map", [p, e, Sym("f")], mapped)):
            ex = cx.run(QONE + "::" + fn, args, mem, bounds=B)
            cx.each(ex, lambda X: wrap(cx, X, f, None, "C11", "C07"))
        if vi is UNIT and ve is UNIT:
            inc = none = TRUE
            ex = cx.run(WORLD + "::contains", [w, e], bounds=B)
            cx.each(ex, lambda X: wrap(cx, X, contains, None, "C11", "C07"))
    # entry points
    for fn, ctor in (("query_one", QONE), ("query_all", QALL)):
        Q2 = Queries(cx, infos=["Q", "G"])
        ex = cx.run(WORLD + "::" + fn, [w], bounds=Q2.bounds())

        def entry(X):
            bs = [z for z in X.st.ev if z.kind == "qy" and z.op in ("borrow", "borrow_with_group_info")]
            ok = len(bs) == 1 and X.holds(eq(X.simp(bs[0].args[0]), w))
            X.emit("a query borrows the components of the world it is made from", ok, "C11 C15", "borrows %s" % [str(b) for b in bs])

        cx.each(ex, lambda X: wrap(cx, X, entry, None, "C15", "C07"))


def leaves(X, args):
    for a in args:
        a = X.simp(a)
        yield a
        if a.op == "agg":
            yield from leaves(X, a.args[1:])


# ---------------------------------------------------------------- all entities

def chain(cx, Q, order):
    """A query built by new and the filters in the given order."""
    B = Q.bounds()
    q = value(cx.run(WORLD + "::query_all", [Q.world], bounds=B), "query_all").ret
    for o in order:
        fn = {"I": "include", "E": "exclude"}[o]
        q = value(cx.run(QALL + "::" + fn, [q], bounds=B), fn).ret
    return q


CASES = [(order, lists, infos) for order in ("", "I", "E", "IE", "EI") for lists in ("GI", "G", "I", "")
         for infos in ("GIE", "GI", "GE", "IE") if (infos == "GIE" or lists == "GI")
         and not ("I" not in order and "I" in lists and lists != "GI")]


def empty_info(cx):
    names = cx.P.variants(QGI)
    if "Empty" not in names:
        raise Skip("variant Empty of %s" % QGI)
    return agg(names.index("Empty"))


class Case:
    def __init__(self, cx, order, lists, infos):
        self.cx, self.order = cx, order
        self.bare = False   # no filters at all, not even unknown ones
        self.lists = "".join(x for x in lists if x == "G" or x in order)
        self.Q = Queries(cx, self.lists, infos)
        self.infos = infos
        w = self.Q.world
        self.q = chain(cx, self.Q, order)
        self.V = {n: (T("app", "qy_borrow", n, w) if n == "G" or n in order else UNIT) for n in "GIE"}
        emp = empty_info(cx)
        self.I = {n: self.Q.info(n) if n == "G" or n in order else agg(1, emp) for n in "GIE"}
        self.p = Sym("query")
        self.mem = {self.p: self.q}
        for n in "GIE":
            self.mem[self.Q.root(n)] = Sym("ents_" + n)
        self.emp = emp
        a = lambda m, n: T("app", "qy_" + m, n, self.V[n])
        self.fI, self.fE = a("fsparse", "I"), a("fsparse", "E")
        self.sG, self.dG, self.ddG = a("sparse", "G"), a("data", "G"), a("ddata", "G")
        self.assume = [le(self.Q.off(n), Int(1 << 40)) for n in "GI"] + [le(self.Q.cnt(n), Int(1 << 40)) for n in "GI"]

    def run(self, key, args, assume=(), mem=None):
        return self.cx.run(key, args, mem or self.mem, bounds=self.Q.bounds(), axioms=[self.Q.axiom], assume=list(self.assume) + list(assume))

    def tag(self):
        return "%s/%s/%s" % (self.order or "-", self.lists or "-", self.infos)

    # ---- the decision
    def packed(self, X):
        """(known, range): the range of packed entities the path decided on, None if the filtered path was chosen."""
        g = [z for z in X.st.ev if z.kind == "gr"]
        for z in g:
            t = z.ret
            if X.holds(eq(T("discr", t), Int(1))):
                return True, z
        return False, None

    def check_range(self, X, z, props):
        """The range was computed from the group information of exactly the parts of the query."""
        inc, exc = z.args
        l = group_parts(X, inc)
        want = {self.I["G"].args[1], self.I["I"].args[1]} - {self.emp} if self.I["G"].args[0] == 1 and self.I["I"].args[0] == 1 else None
        if l is not None:
            l = {X.simp(t) for t in l} - {self.emp}
        ok = want is not None and l == want
        X.emit("packed iteration covers the required and included components", ok, props,
               None if ok else "group of %s" % (sorted(map(show, l)) if l is not None else show(inc)))
        ex = self.I["E"]
        ok = ex.args[0] == 1 and X.holds(eq(X.simp(exc), X.simp(ex.args[1])))
        X.emit("packed iteration leaves out the excluded components", ok, props, "excludes %s" % show(exc))

    def declined(self, X, props):
        """The filtered path was chosen for a reason."""
        g = [z for z in X.st.ev if z.kind == "gr"]
        ok = any(absent_(X, z.ret) for z in g)
        ok = ok or any(self.I[n].args[0] == 0 for n in "GIE")
        ok = ok or any(t.op == "app" and t.args[0] in ("add_query", "add_view") and absent_(X, t) for t in list(X.st.facts.known))
        ok = ok or not self.lists
        X.emit("a grouped query uses the packed range", ok, props, "no packed range although the group is known")


def group_parts(X, q):
    """The group information merged into q."""
    q = X.simp(q)
    a = q.args[0] if q.op == "fld" else None
    if isinstance(a, Term) and a.op == "app" and a.args[0] in ("add_query", "add_view"):
        l, r = group_parts(X, a.args[1]), group_parts(X, a.args[2])
        return None if l is None or r is None else l | r
    return {q}


def absent_(X, t):
    X.st.facts.upper[T("discr", t)] = 1
    return X.holds(neg(eq(T("discr", t), Int(1))))


def iter_shape(cx):
    """Indexes of the variants of Iter."""
    n = cx.P.variants(ITER)
    if sorted(n) != ["Dense", "Sparse"]:
        raise Skip("variants of %s" % ITER)
    return n.index("Sparse"), n.index("Dense")


def same_iter(C, X):
    """An iterator as a value of the path."""
    return X.simp(X.ret)


def match_cond(C, e):
    V = Voc(C.cx)
    ix = V.idx(e)
    got = T("app", "qy_get_sparse_raw", "G", C.sG, C.dG, e)
    if C.bare:
        return [TRUE, TRUE, eq(T("discr", got), Int(1))], got
    return [T("app", "qy_contains_none_raw", "E", C.fE, ix), T("app", "qy_contains_all_raw", "I", C.fI, ix), eq(T("discr", got), Int(1))], got


def check_match(X, C, e, want, where):
    """Whether the path has established that e matches (want) or does not match."""
    conds, got = match_cond(C, e)
    X.st.facts.upper[T("discr", got)] = 1
    labels = ("passes the exclusion filter", "passes the inclusion filter", "has the required components")
    if want:
        for c, l in zip(conds, labels):
            X.require("%s: a visited entity %s" % (where, l), c, "C11 C14 C12 C20")
    else:
        X.require("%s: a skipped entity does not match" % where, Bool(any(X.holds(neg(c)) for c in conds)), "C11 C14 C12 C20")
    return got


ITP = "C11 C12 C13 C14 C20 C22"


@rule("query-iteration", ITP + " C09 C15 C26 C07", parts=[0, 1, 2, 3])
def r_all(cx, part):
    """Iteration visits every matching entity once; packed ranges are used exactly if the group is known."""
    if part == 0:
        conversions(cx)
    for i, (order, lists, infos) in enumerate(CASES):
        if i % 4 == part:
            all_case(cx, Case(cx, order, lists, infos))


def conversions(cx):
    """An iterator made from a filtered or a packed one is that iterator."""
    for adt in (ITER, PITER):
        if not cx.P.adts.get(adt):
            continue
        names = cx.P.variants(adt)
        for i, r in enumerate(cx.P.by_key.get("<%s as core::convert::From>::from" % adt, [])):
            want = [k for k, n in enumerate(names) if "%sParIter<" % n in r["sig"].split("->")[0] or "%sIter<" % n in r["sig"].split("->")[0]]
            if len(want) != 1:
                cx.note("undecided", r["key"], "conversion from %s" % r["sig"])
                continue

            def same(X):
                X.same("a converted iterator is the one it is made from", X.simp(X.ret), agg(want[0], Sym("inner")), "C20")

            cx.each(cx.run(r["key"], [Sym("inner")], idx=i), lambda X: wrap(cx, X, same, None, "C20", "C07"))


def all_case(cx, C):
    sparse, dense = iter_shape(cx)
    for key in (QALL + "::iter", "<&mut %s as core::iter::traits::collect::IntoIterator>::into_iter" % QALL):
        full = key.endswith("::iter")
        ex = C.run(key, [C.p])

        def made(X):
            v = X.simp(X.ret)
            on, z = C.packed(X)
            d = X.is_variant(v, dense)
            if on:
                C.check_range(X, z, "C11 C12 C14")
            else:
                C.declined(X, "C09")
            if not on:
                X.require("packed iteration only over a packed range", not d, "C12 C11")
            body = X.simp(fld(v, 0, dense if d else sparse))
            visits(cx, C, X, v, d, z if on else None, full)

        cx.each(ex, lambda X: wrap(cx, X, made, None, "C11 C15", "C07"))

    def each(X):
        on, z = C.packed(X)
        if on:
            C.check_range(X, z, "C11 C12 C14")
        folded(C, X, None, on, z, False)

    cx.each(C.run(QALL + "::for_each", [C.p, Sym("f")]), lambda X: wrap(cx, X, each, None, "C11 C14", "C07"))
    if not C.order:
        C.bare = True
        cx.each(C.run(WORLD + "::for_each", [C.Q.world, Sym("f")]), lambda X: wrap(cx, X, each, None, "C11 C14", "C07"))
        C.bare = False

    def sliced(X):
        on, z = C.packed(X)
        some = X.is_variant(X.ret, 1)
        if not on:
            X.require("slices are given only for a packed range", not some, "C13 C12")
            C.declined(X, "C09")
            return
        C.check_range(X, z, "C13 C12")
        if not X.require("a grouped query gives its slices", some, "C09 C13"):
            return
        lo, hi = bounds_of(C, X, z)
        r = X.simp(fld(X.simp(X.ret), 0, 1))
        ok = any(X.holds(eq(r, T("app", "qy_slice_raw", "G", C.ddG, C.Q.slice(n), lo, hi))) for n in lists_of(C, True))
        X.emit("slices are those of the packed range", ok, "C13 C12", show(r))

    cx.each(C.run(QALL + "::slice", [C.p]), lambda X: wrap(cx, X, sliced, None, "C13", "C07 C13"))
    parallel(cx, C)


WORLD = "sparsey::world::World"
PITER = "sparsey::query::par_iter::ParIter"
PIT = "rayon::iter::ParallelIterator"


def parallel(cx, C):
    """Parallel iteration visits the same entities as sequential iteration."""
    if not cx.has(QALL + "::par_iter"):
        return
    n = cx.P.variants(PITER)
    if sorted(n) != ["Dense", "Sparse"]:
        raise Skip("variants of %s" % PITER)
    dense = n.index("Dense")
    ex = C.run(QALL + "::par_iter", [C.p])

    def made(X):
        v = X.simp(X.ret)
        on, z = C.packed(X)
        d = X.is_variant(v, dense)
        if on:
            C.check_range(X, z, "C11 C12 C14 C20")
        else:
            C.declined(X, "C09")
            X.require("packed iteration only over a packed range", not d, "C12 C14")
        z = z if on else None
        assume = facts_of(X.st)
        p = Sym("iter")
        mem = dict(C.mem)
        mem[p] = v
        sink = Sym("consumer")
        ex = C.run("<%s as %s>::drive_unindexed" % (PITER, PIT), [v, sink], assume, mem)
        cx.each(ex, lambda Y: wrap(cx, Y, lambda Y: driven(C, Y, v, d, z, sink), None, "C14", "C07 C12"))
        ex = C.run("<%s as %s>::opt_len" % (PITER, PIT), [p], assume, mem)
        cx.each(ex, lambda Y: wrap(cx, Y, lambda Y: olen(C, Y, d, z), None, "C20", "C07"))
        for fn, want in (("is_dense", d), ("is_sparse", not d)):
            ex = C.run(PITER + "::" + fn, [p], assume, mem)
            cx.each(ex, lambda Y: wrap(cx, Y, lambda Y: Y.require("an iterator tells whether it is packed", eqb(Y, Y.ret, Bool(want)), "C20"), None, "C20", "C07"))
        body = X.simp(fld(v, 0, dense)) if d else None
        if d:
            D = "sparsey::query::par_iter::dense_par_iter::DenseParIter"
            mem[p] = body
            for tr, fn in ((PIT, "drive_unindexed"), ("rayon::iter::IndexedParallelIterator", "drive"), ("rayon::iter::IndexedParallelIterator", "with_producer")):
                ex = C.run("<%s as %s>::%s" % (D, tr, fn), [body, sink], assume, mem)
                cx.each(ex, lambda Y: wrap(cx, Y, lambda Y: driven(C, Y, v, d, z, sink, fn != "drive_unindexed"), None, "C14", "C07 C12"))
            ex = C.run("<%s as %s>::opt_len" % (D, PIT), [p], assume, mem)
            cx.each(ex, lambda Y: wrap(cx, Y, lambda Y: olen(C, Y, d, z), None, "C20", "C07"))
            ex = C.run("<%s as rayon::iter::IndexedParallelIterator>::len" % D, [p], assume, mem)

            def plen(Y):
                a, b = bounds_of(C, Y, z)
                Y.require("parallel packed iteration knows its length", eq(Y.simp(Y.ret), sub(b, a)), "C20")

            cx.each(ex, lambda Y: wrap(cx, Y, plen, None, "C20", "C07"))

    cx.each(ex, lambda X: wrap(cx, X, made, None, "C14 C15", "C07"))

    def each(X):
        on, z = C.packed(X)
        if on:
            C.check_range(X, z, "C11 C12 C14")
        driven(C, X, None, on, z, T("app", "for_each", Sym("f")))

    cx.each(C.run(QALL + "::par_for_each", [C.p, Sym("f")]), lambda X: wrap(cx, X, each, None, "C14", "C07"))
    if not C.order:
        C.bare = True
        cx.each(C.run(WORLD + "::par_for_each", [C.Q.world, Sym("f")]), lambda X: wrap(cx, X, each, None, "C14", "C07"))
        C.bare = False


def olen(C, X, d, z):
    r = X.simp(X.ret)
    if X.is_variant(r, 1):
        u = X.simp(fld(r, 0, 1))
        if d and z is not None:
            a, b = bounds_of(C, X, z)
            X.require("parallel iteration only claims a length it has", eq(u, sub(b, a)), "C20")
        else:
            X.require("parallel iteration only claims a length it has", Bool(not C.lists and X.holds(eq(u, Int(0)))), "C20", show(u))
    else:
        X.require("parallel packed iteration knows its length", not d, "C20")


def driven(C, X, v, d, z, sink, indexed=False):
    """Every entity of the range is treated once."""
    ps = [e for e in X.st.ev if e.kind == "par"]
    others = [e for e in X.st.ev if e.kind == "call" and not str(e.d.get("name")).startswith("core::ops::function")]
    if others:
        return X.undecided("parallel iteration", "calls %s" % others[0].name, "C14")
    if not C.lists and not ps:
        X.emit("parallel: without required parts nothing is visited", True, "C14")
        return
    if not X.require("parallel: the entities are visited once", len(ps) == 1, "C14 C11", "%d passes" % len(ps)):
        return
    e = ps[0]
    if isinstance(sink, Term) and sink.op == "app":
        f = X.simp(e.sink)
        ok = X.holds(eq(f, sink)) or e.op == "for_each" and X.holds(eq(f, sink.args[1]))
        X.emit("parallel: items go to the given function", ok, "C14", show(f))
    else:
        X.same("parallel: items go to the given consumer", X.simp(e.sink), sink, "C14")
        X.same("parallel: the result is that of the consumer", X.simp(X.ret), e.ret, "C14")
    lo, hi = X.simp(e.lo), X.simp(e.hi)
    if not C.lists:
        X.require("parallel: without required parts nothing is visited", le(hi, lo), "C14")
        return
    if indexed:
        X.require("parallel: items of packed iteration have their position", e.indexed, "C14 C20")
    n = None
    if e.src == "slice":
        b = X.simp(e.buf)
        for m in lists_of(C, d):
            if b.op == "ref" and b.args[0] == ("O", C.Q.root(m)):
                n = m
        if n is None:
            return X.require("parallel: the entities of a required part are visited", False, "C14 C11", "visits %s" % show(b))
        lo, hi = sub(lo, C.Q.off(n)), sub(hi, C.Q.off(n))
        k = sub(e.k, C.Q.off(n))
    else:
        k = e.k
        subs = set(t for x in e.items for t in subterms(X.simp(x)))
        c = [m for m in lists_of(C, d) if Sym("ents_" + m) in subs]
        n = c[0] if c else (lists_of(C, d) or [None])[0]
    if d and z is not None:
        a, b = bounds_of(C, X, z)
        X.require("parallel: exactly the packed range is visited", conj(eq(lo, a), eq(hi, b)), "C14 C12 C13")
    else:
        X.require("parallel: the whole list is visited", conj(eq(lo, Int(0)), eq(hi, C.Q.cnt(n))), "C14 C11")
    if X.holds(le(hi, lo)):
        return
    at = ent_at(C, X, n, k)
    if d:
        if X.require("parallel: packed iteration skips nothing", len(e.items) == 1, "C14 C12"):
            X.same("parallel: packed items are those of the entities in order", X.simp(e.items[0]), X.simp(T("app", "qy_get_dense_raw", "G", C.ddG, k, at)), "C14 C12 C13")
    else:
        got = check_match(X, C, at, bool(e.items), "parallel")
        for x in e.items:
            X.same("parallel: an item is the one of the visited entity", X.simp(x), X.simp(fld(got, 0, 1)), "C14 C22")


def lists_of(C, d):
    """The lists of entities that may be visited."""
    return [n for n in "GI" if n in C.lists]


def visits(cx, C, X, v, d, z, full=True):
    """The iterator v visits exactly what it should, one step at a time and all at once."""
    p = Sym("iter")
    st = X.st
    mem = dict(C.mem)
    mem[p] = v
    assume = facts_of(st)
    key = "<%s as %s>::next" % (ITER, IT)
    ex = C.run(key, [p], assume, mem)
    cx.each(ex, lambda Y: wrap(cx, Y, lambda Y: step(C, Y, v, p, d, z), None, "C11", "C07 C12"))
    ex = C.run("<%s as %s>::fold" % (ITER, IT), [v, Sym("init"), Sym("f")], assume, mem)
    cx.each(ex, lambda Y: wrap(cx, Y, lambda Y: folded(C, Y, v, d, z), None, "C11 C14", "C07 C12"))
    if not full:
        return
    shortcuts(cx, C, v, d, z, p, assume, mem)
    ex = C.run("<%s as %s>::size_hint" % (ITER, IT), [p], assume, mem)
    cx.each(ex, lambda Y: wrap(cx, Y, lambda Y: hint(C, Y, d, z), None, "C20", "C07"))
    if d and z is not None:
        mem2 = dict(mem)
        mem2[p] = X.simp(fld(v, 0, iter_shape(cx)[1]))
        ex = C.run("<sparsey::query::iter::dense_iter::DenseIter as core::iter::traits::exact_size::ExactSizeIterator>::len", [p], assume, mem2)

        def dlen(Y):
            a, b = bounds_of(C, Y, z)
            Y.require("packed iteration knows its length", eq(Y.simp(Y.ret), sub(b, a)), "C20")

        cx.each(ex, lambda Y: wrap(cx, Y, dlen, None, "C20", "C07"))
    for fn, want in (("is_dense", d), ("is_sparse", not d)):
        ex = C.run(ITER + "::" + fn, [p], assume, mem)
        cx.each(ex, lambda Y: wrap(cx, Y, lambda Y: Y.require("an iterator tells whether it is packed", eqb(Y, Y.ret, Bool(want)), "C20"), None, "C20", "C07"))


DENSE = "sparsey::query::iter::dense_iter::DenseIter"
SPARSE = "sparsey::query::iter::sparse_iter::SparseIter"
KNOWN = ("next", "fold", "size_hint")


def shortcuts(cx, C, v, d, z, p, assume, mem):
    """Methods with an implementation of their own treat the same items as stepping."""
    for ty in (ITER, DENSE if d else SPARSE):
        pre = "<%s as %s>::" % (ty, IT)
        for key in sorted(k for k in cx.P.by_key if k.startswith(pre) and "::" not in k[len(pre):]):
            m = key[len(pre):]
            if m in KNOWN:
                continue
            me = v if ty == ITER else fld(v, 0, iter_shape(cx)[1 if d else 0])
            mm = dict(mem)
            mm[p] = me
            if m == "for_each":
                ex = C.run(key, [me, Sym("f")], assume, mm)
                cx.each(ex, lambda Y: wrap(cx, Y, lambda Y: folded(C, Y, v, d, z, False), None, "C20", "C07"))
            elif m == "count":
                ex = C.run(key, [me], assume, mm)
                cx.each(ex, lambda Y: wrap(cx, Y, lambda Y: counted(C, Y, v, d, z), None, "C20", "C07"))
            elif m in ("nth", "last") and d and z is not None:
                ex = C.run(key, [p, Sym("skip")] if m == "nth" else [me], list(assume) + [le(Sym("skip"), Int(1 << 40))], mm)

                def one(Y):
                    lo, hi = bounds_of(C, Y, z)
                    n = used_list(C, Y, v, d)
                    if n is None:
                        return Y.undecided(m, "visited list", "C20")
                    at = add(lo, Sym("skip")) if m == "nth" else sub(hi, Int(1))
                    if not Y.is_variant(Y.simp(Y.ret), 1):
                        Y.require("%s: there is an item for every entity" % m, le(hi, at) if m == "nth" else le(hi, lo), "C20")
                        if m == "nth":
                            Y.require("nth: an exhausted iterator stays exhausted", Bool(rest_from(C, Y, me, p, z, hi)), "C20")
                        return
                    if not Y.require("%s: an item belongs to an entity of the list" % m, conj(le(lo, at), lt(at, hi)), "C20 C07"):
                        return
                    Y.same("%s: the item is the one of the entity at the position" % m, Y.simp(fld(Y.simp(Y.ret), 0, 1)),
                           Y.simp(T("app", "qy_get_dense_raw", "G", C.ddG, at, ent_at(C, Y, n, at))), "C20 C13")
                    if m == "nth":
                        Y.require("nth: iteration goes on behind the item", Bool(rest_from(C, Y, me, p, z, add(at, Int(1)))), "C20")

                cx.each(ex, lambda Y: wrap(cx, Y, one, None, "C20", "C07"))
            else:
                cx.note("undecided", key, "no rule for this way to consume an iterator")


def rest_from(C, X, me, p, z, at):
    """Whether the iterator at p is me with its position moved."""
    r = fld(z.ret, 0, 1)
    a, b = fld(r, 0, 0, 2), fld(r, 1, 0, 2)
    bad = []
    after_step(X, me, X.simp(X.I.read(X.st, ("O", p), ())), {a: at, X.simp(a): at}, bad)
    return not bad


def counted(C, X, v, d, z):
    """The number of items."""
    n = used_list(C, X, v, d)
    r = X.simp(X.ret)
    if n is None:
        if loop_value(v) or C.lists:
            return X.undecided("count", "visited list", "C20")
        return X.same("count: without required parts there are no items", r, Int(0), "C20")
    if d and z is not None:
        lo, hi = bounds_of(C, X, z)
        return X.require("count: packed iteration has an item for every entity", eq(r, sub(hi, lo)), "C20")
    ls = loops_of(X)
    if not ls:
        # never more than the matching entities: without looking at them only an empty list is known
        return X.require("count: only matching entities are counted", le(C.Q.cnt(n), Int(0)), "C20", "returns %s" % show(r))
    if len(ls) > 1 or r.op != "sym":
        return X.undecided("count", "not one loop", "C20")
    rec = ls[0].rec
    cells = loop_cells(X, rec)
    pos = next((s for s, (iv, k) in cells.items() if k == 1 and sub(iv, C.Q.off(n)) is Int(0)), None)
    num = next((c for c, s in rec.cells.items() if s is r), None)
    if pos is None or num is None:
        return X.undecided("count", "loop without position", "C20")
    X.same("count: nothing is counted in advance", X.I.read(rec.init, *num), Int(0), "C20")
    X.require("count: the whole list is counted", le(add(C.Q.off(n), C.Q.cnt(n)), pos), "C20")
    for b in rec.backs:
        def one(B):
            k = sub(B.simp(X.I.read(B.st, *num)), r)
            if k.op != "int" or k.args[0] not in (0, 1):
                return B.fail("count: an entity counts once", "counts %s" % show(k), "C20")
            check_match(B, C, ent_at(C, B, n, sub(pos, C.Q.off(n))), k is Int(1), "count")
        C.cx.each([step_exit(X, b)], one)


def bounds_of(C, X, z):
    r = fld(z.ret, 0, 1)
    return X.simp(fld(r, 0, 0, 2)), X.simp(fld(r, 1, 0, 2))


def ent_at(C, X, n, k):
    """Entity number k of the list n."""
    return X.sel(Sym("ents_" + n), add(C.Q.off(n), k))


def hint(C, X, d, z):
    r = X.simp(X.ret)
    lo, hi = X.simp(fld(r, 0, 0, 2)), X.simp(fld(r, 1, 0, 2))
    if d and z is not None:
        a, b = bounds_of(C, X, z)
        n = sub(b, a)
        X.require("size hint: packed iteration knows its length", eq(lo, n), "C20")
        if X.require("size hint: packed iteration knows its length", eq(discr(hi), Int(1)), "C20"):
            X.require("size hint: packed iteration knows its length", eq(fld(hi, 0, 1), n), "C20")
    else:
        X.require("size hint: no items are promised by filtered iteration", eq(lo, Int(0)), "C20")
        if X.is_variant(hi, 1):
            u = X.simp(fld(hi, 0, 1))
            ok = any(X.holds(le(C.Q.cnt(n), u)) for n in lists_of(C, d)) or not C.lists
            X.emit("size hint: the upper bound covers the visited list", ok, "C20", show(u))


def position(C, X, v, d, z, e):
    """(list, number of entities in front) for a visited entity, or None."""
    if e.op != "sel":
        return None
    for n in lists_of(C, d):
        if e.args[0] is Sym("ents_" + n):
            return n, X.simp(sub(e.args[1], C.Q.off(n)))
    return None


def loops_of(X):
    return [e for e in X.st.ev if e.kind == "loop"]


def used_list(C, X, v, d):
    """The list an iterator visits, from its own value."""
    subs = set(subterms(v))
    out = [n for n in lists_of(C, d) if any(s.op == "ref" and s.args[0] == ("O", C.Q.root(n)) for s in subs) or C.Q.root(n) in subs or Sym("ents_" + n) in subs]
    return out[0] if len(out) == 1 else None


def loop_value(v):
    """Whether a value was left behind by a loop."""
    return any(s.op == "sym" and s.args[0].startswith("h") and "." in s.args[0] for s in subterms(v))


def step(C, X, v, p, d, z):
    """One step of an iterator."""
    r = X.simp(X.ret)
    some = X.is_variant(r, 1)
    n = used_list(C, X, v, d)
    if n is None:
        if loop_value(v):
            return X.undecided("step", "the visited list is chosen in a loop", "C11 C14")
        if C.lists:
            X.require("iteration visits the entities of a required part", False, "C11 C14", "visits %s" % show(v))
            return
        X.require("without required parts nothing is visited", not some, "C11 C14")
        return
    if d and z is not None:
        lo, hi = bounds_of(C, X, z)
    else:
        lo, hi = Int(0), C.Q.cnt(n)
    ls = loops_of(X)
    done = Int(0)
    if len(ls) > 1:
        return X.undecided("step", "several loops", ITP)
    if ls:
        rec = ls[0].rec
        cells = loop_cells(X, rec)
        done = trip_count(X, rec, cells)
        if done is None:
            return X.undecided("step", "loop without counter", ITP)
        for b in rec.backs:
            B = step_exit(X, b)
            h = trip_count_head(rec, cells)

            def skipped(B):
                if d:
                    B.require("packed iteration skips nothing", False, "C12 C13 C20 C11")
                else:
                    check_match(B, C, ent_at(C, B, n, add(lo, h)), False, "next")

            C.cx.each([B], skipped)
    at = add(lo, done)
    if not some:
        X.require("next: iteration ends only after the last entity", le(hi, at), "C11 C12 C14 C20" if d else "C11 C14 C20")
        return
    if not X.require("next: an item belongs to an entity of the list", lt(at, hi), "C11 C12 C07 C13"):
        return
    e = ent_at(C, X, n, at)
    it = X.simp(fld(r, 0, 1))
    if d:
        X.same("next: packed items are those of the entities in order", it, X.simp(T("app", "qy_get_dense_raw", "G", C.ddG, at, e)), "C11 C12 C13 C14")
    else:
        got = check_match(X, C, e, True, "next")
        X.same("next: an item is the one of the visited entity", it, X.simp(fld(got, 0, 1)), "C11 C14 C22")
    # the rest of the iterator
    after = X.simp(X.I.read(X.st, ("O", p), ()))
    if d:
        r = fld(z.ret, 0, 1)
        a, b = fld(r, 0, 0, 2), fld(r, 1, 0, 2)
        m = {a: add(a, Int(1)), X.simp(a): add(a, Int(1))}
    else:
        k = add(done, Int(1))
        m = {C.Q.off(n): add(C.Q.off(n), k), C.Q.cnt(n): sub(C.Q.cnt(n), k)}
    bad = []
    after_step(X, v, after, m, bad)
    X.emit("next: iteration goes on behind the visited entity", not bad, "C11 C12 C14 C20", None if not bad else "%s, expected %s" % tuple(map(show, bad[0])))


def after_step(X, v, w, m, bad):
    """w is v with the terms in m replaced."""
    v, w = X.simp(v), X.simp(w)
    if v.op in ("agg", "slice") and v.op == w.op and len(v.args) == len(w.args):
        if v.op == "agg" and v.args[0] != w.args[0]:
            bad.append((w, v))
        for a, b in zip(v.args, w.args):
            if isinstance(a, Term):
                after_step(X, a, b, m, bad)
    elif w.op != "agg" and any(k.op == "fld" and k.args[0] is v for k in m):
        for k in m:
            if k.op == "fld" and k.args[0] is v:
                after_step(X, k, X.simp(fld(w, *k.args[1:])), m, bad)
    elif w.op == "agg":
        for i, b in enumerate(w.args[1:]):
            after_step(X, fld(v, i, w.args[0], len(w.args) - 1), b, m, bad)
    else:
        t = subst(v, m)
        if not X.holds(eq(w, t)):
            bad.append((w, t))


def folded(C, X, v, d, z, acc=True):
    """All steps at once; acc: the function takes and gives an accumulator."""
    if acc:
        n = used_list(C, X, v, d)
    else:
        n = used_list(C, X, agg(0, *[a for l in loops_of(X) for b in l.rec.backs for e in b.ev if e.kind == "call" for a in e.args[1:]]), d)
        if n is None and C.lists and not loops_of(X):
            n = [m for m in lists_of(C, d) if X.holds(le(C.Q.cnt(m), Int(0)))] if not d else lists_of(C, d)
            if not n:
                X.require("for_each: the whole list is visited", False, "C11 C14 C20", "no loop over the entities")
                return
            n = n[0]
    init, f = Sym("init"), Sym("f")
    calls = [e for e in X.st.ev if e.kind == "call"]
    ls = loops_of(X)
    if n is None:
        if loop_value(v) if acc else any(loop_value(X.simp(X.I.read(l.rec.init, *c))) for l in ls for c in l.rec.cells):
            return X.undecided("fold", "the visited list is chosen in a loop", "C11 C14")
        X.require("without required parts nothing is visited", not calls and not any(e.kind == "call" for l in ls for b in l.rec.backs for e in b.ev), "C11 C14")
        return
    if d and z is not None:
        lo, hi = bounds_of(C, X, z)
    else:
        lo, hi = Int(0), C.Q.cnt(n)
    if calls or any(e.kind == "call" for l in ls for e in l.d.get("last", ())):
        return X.undecided("fold", "calls outside of the loop", "C11 C14")
    if not ls:
        X.require("fold: the whole list is visited", le(hi, lo), "C11 C12 C14 C20")
        if acc:
            X.same("fold: the result is that of the last call", X.simp(X.ret), init, "C14 C11 C20")
        return
    if len(ls) > 1:
        return X.undecided("fold", "several loops", "C11 C14")
    rec = ls[0].rec
    # the cells that hold the position
    base = C.Q.off(n) if not d else Int(0)
    ok = False
    for cell, s in rec.cells.items():
        iv = X.I.read(rec.init, *cell)
        if iv.op in ("agg", "ref", "slice", "store") or step_exit(X, rec.init).simp(sub(iv, base)) is not lo:
            continue
        trial = X.cx.pending
        X.cx.pending = []
        accs = visited(C, X, n, rec, ls[0], cell, base, d, hi, acc)
        good = all(o.status == "ok" for o in X.cx.pending)
        obs, X.cx.pending = X.cx.pending, trial
        if good or not ok:
            best, res = obs, accs
        ok = ok or good
        if good:
            break
    else:
        if not ok and "best" not in locals():
            return X.undecided("fold", "loop without position", "C11 C14")
    X.cx.pending.extend(best)
    accs = res
    for a, _ in accs:
        cell = [c for c, s in rec.cells.items() if s is a]
        if len(cell) != 1:
            X.undecided("fold", "accumulator %s" % show(a), "C14 C11")
            continue
        c = cell[0]
        X.same("fold: the first call has the initial value", X.simp(X.I.read(rec.init, *c)), init, "C14 C11 C20")
        for b in rec.backs:
            B = step_exit(X, b)
            cs = [z_ for z_ in B.st.ev if z_.kind == "call"]
            B.same("fold: each call has the result of the previous one", B.simp(X.I.read(b, *c)), cs[-1].ret if cs else a, "C14 C11 C20")
        X.same("fold: the result is that of the last call", X.simp(X.ret), a, "C14 C11 C20")


def visited(C, X, n, rec, ev, cell, base, d, hi, acc):
    """The steps of a loop over a list with its position in the given cell."""
    accs = set()
    s = rec.cells[cell]

    def front(st, evs, at, skips):
        """Position after skipping entities in an inner loop."""
        Z = step_exit(X, st)
        inner = [e for e in evs if e.kind == "loop"]
        if not inner:
            return at
        if len(inner) > 1:
            Z.undecided("fold", "several inner loops", "C11 C14")
            return None
        r = inner[0].rec
        for c2, s2 in r.cells.items():
            iv = X.I.read(r.init, *c2)
            if iv.op in ("agg", "ref", "slice", "store") or not Z.holds(eq(sub(iv, base), at)):
                continue
            bs = [X.I.read(b, *c2) for b in r.backs]
            if not all(sub(b, s2) is Int(1) for b in bs):
                continue
            if any(e.kind == "call" for b in r.backs for e in b.ev):
                Z.undecided("fold", "calls in an inner loop", "C11 C14")
            if skips:
                for b in r.backs:
                    def skipped(B):
                        if d:
                            B.require("fold: packed iteration calls the function once for every entity", False, "C11 C12 C13 C14 C20")
                        else:
                            check_match(B, C, ent_at(C, B, n, sub(s2, base)), False, "fold")
                    C.cx.each([step_exit(X, b)], skipped)
            return sub(Z.simp(s2), base)
        Z.undecided("fold", "inner loop without position", "C11 C14")
        return None

    at = front(X.st, ev.d.get("last", ()), sub(s, base), False)
    if at is None:
        return accs
    X.require("fold: the whole list is visited", le(hi, at), "C11 C12 C14 C20")
    for b in rec.backs:
        def one(B):
            at = front(B.st, B.st.ev, sub(s, base), True)
            if at is None:
                return
            e = ent_at(C, B, n, at)
            cs = [c for c in B.st.ev if c.kind == "call"]
            B.require("fold: one entity after the other is visited", eq(sub(X.I.read(B.st, *cell), base), add(at, Int(1))), "C11 C12 C14 C20")
            if d:
                B.require("fold: packed iteration calls the function once for every entity", len(cs) == 1, "C11 C12 C13 C14 C20", "%d calls" % len(cs))
                want = T("app", "qy_get_dense_raw", "G", C.ddG, at, e)
            else:
                got = check_match(B, C, e, bool(cs), "fold")
                B.require("fold: the function is called once for a matching entity", len(cs) <= 1, "C11 C14 C20", "%d calls" % len(cs))
                want = fld(got, 0, 1)
            if len(cs) != 1:
                return
            ar = [B.simp(a) for a in cs[0].args[1:]]
            while len(ar) == 1 and ar[0].op == "agg":
                ar = [B.simp(a) for a in ar[0].args[1:]]
            if len(ar) != (2 if acc else 1):
                return B.undecided("fold", "arguments of the call: %s" % list(map(show, ar)), "C11 C14")
            B.same("fold: the function is called with the item of the entity", ar[-1], B.simp(want), "C11 C12 C13 C14 C22 C20")
            if acc:
                accs.add((ar[0], cs[0].ret))

        C.cx.each([step_exit(X, b)], one)
    return accs
