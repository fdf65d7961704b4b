"""Comparing, ordering and hashing entities, versions and component descriptions."""
from .terms import *
from .adt import *
from .core import rule, Skip
from .models import three_way, Some
from .wvoc import *

EN = "sparsey::entity::Entity"
VE = "sparsey::entity::Version"
LESS, EQUAL, GREATER = 0, 1, 2
OT = "core::cmp::"


def tid_parts(c):
    return c.read(c.deref(0)), c.read(c.deref(1))


def tid_cmp(c):
    return three_way(c)


def hashed(c):
    v = c.I.simp(c.st, c.read(c.deref(0)))
    c.event("call", name="hash", targs=(), args=[c.args[1], v], ret=None)
    return agg(0)


def name_of(tid):
    def f(c):
        p = c.I.simp(c.st, c.args[0])
        return T("app", "type_name", tid.get(p, p))
    return f


def str_cmp(c):
    a, b = c.I.simp(c.st, c.args[0]), c.I.simp(c.st, c.args[1])
    if a.op == "ref":
        a, b = c.read(c.deref(0)), c.read(c.deref(1))
    if c.ask(eq(a, b)):
        return T("agg", EQUAL)
    return T("agg", LESS) if c.ask(T("app", "strlt", a, b)) else T("agg", GREATER)


def str_eq(c):
    a, b = c.I.simp(c.st, c.args[0]), c.I.simp(c.st, c.args[1])
    if a.op == "ref":
        a, b = c.read(c.deref(0)), c.read(c.deref(1))
    return eq(a, b)


class Kind:
    """A type with the total order that its comparisons have to follow.
    order(X, a, b): asks until the order of a and b is known; None when any total order may be used."""

    def __init__(self, cx, key, a, b, order, bounds=None):
        self.cx = cx
        self.key = key
        self.a, self.b = a, b
        self.order = order
        self.bounds = bounds or {}
        self.dirs = {}

    def name(self, tr, m):
        return "<%s as core::%s>::%s" % (self.key, tr, m)

    def run(self, tr, m, post, must=True):
        k = self.name(tr, m)
        if not self.cx.has(k):
            if must:
                self.cx.record("comparison exists", False, k, "", "%s is missing" % k)
            return
        p, q = Sym("lhs"), Sym("rhs")
        ex = self.cx.run(k, [p, q], {p: self.a, q: self.b}, bounds=self.bounds)

        def f(X):
            if X.kind != "return":
                X.emit("comparing never panics", False, None, "ends with %s: %s" % (X.kind, X.st.msg))
                return
            post(X, X.simp(X.ret))

        self.cx.each(ex, f)

    def variant(self, X, v):
        for k in (LESS, EQUAL):
            if X.is_variant(v, k, 3):
                return k
        return GREATER

    def ordering(self, X, r, m):
        w = self.order(X, self.a, self.b)
        g = self.variant(X, r)
        names = ("Less", "Equal", "Greater")
        if w == EQUAL or g == EQUAL:
            X.emit("%s is Equal exactly for equal values" % m, w == g, None, "returns %s for %s values" % (names[g], "equal" if w == EQUAL else "different"))
        elif self.dirs is not None and self.free:
            self.dirs.setdefault(w == g, X.key)
            X.emit("%s orders all values the same way" % m, len(self.dirs) == 1, None, "the order of two values depends on more than their comparison")
        else:
            X.emit("%s follows the order of the type" % m, w == g, None, "returns %s where %s is due" % (names[g], names[w]))

    free = False

    def truth(self, X, r):
        return X.ask(r) if r.op != "int" else bool(r.args[0])

    def check(self):
        self.run("cmp::PartialEq", "eq", lambda X, r: self.rel(X, r, "eq", (EQUAL,)))
        self.run("cmp::PartialEq", "ne", lambda X, r: self.rel(X, r, "ne", (LESS, GREATER)), False)
        self.run("cmp::Ord", "cmp", lambda X, r: self.ordering(X, r, "cmp"))

        def pcmp(X, r):
            if not X.is_variant(r, 1, 2):
                X.emit("partial_cmp always finds an order", False, None, "returns None")
                return
            self.ordering(X, X.fld(r, 0, 1, 1), "partial_cmp")

        self.run("cmp::PartialOrd", "partial_cmp", pcmp)
        flip = self.free and False in self.dirs
        L, G = (GREATER, LESS) if flip else (LESS, GREATER)
        for m, s in (("lt", (L,)), ("le", (L, EQUAL)), ("gt", (G,)), ("ge", (G, EQUAL))):
            self.run("cmp::PartialOrd", m, lambda X, r, m=m, s=s: self.rel(X, r, m, s), False)
        for m, s in (("min", L), ("max", G)):
            def f(X, r, m=m, s=s):
                w = self.order(X, self.a, self.b)
                want = (self.a, self.b) if w == EQUAL else (self.a,) if w == s else (self.b,)
                X.emit("%s returns the right value" % m, any(X.holds(eq(r, x)) for x in want), None, "returns %s" % show(r))
            k = self.name("cmp::Ord", m)
            if self.cx.has(k):
                ex = self.cx.run(k, [self.a, self.b], {}, bounds=self.bounds)
                self.cx.each(ex, lambda X: f(X, X.simp(X.ret)) if X.kind == "return" else X.emit("comparing never panics", False))

    def rel(self, X, r, m, s):
        w = self.order(X, self.a, self.b)
        X.emit("%s agrees with the order of the type" % m, self.truth(X, r) == (w in s), None, "returns the wrong answer for %s values" % ("smaller", "equal", "greater")[w])


def hash_check(cx, key, a, b, bounds=None, assume=()):
    """Equal values feed the same data to every hasher."""
    k = "<%s as core::hash::Hash>::hash" % key
    if not cx.has(k):
        cx.record("comparison exists", False, k, "", "%s is missing" % k)
        return
    p, q, h = Sym("lhs"), Sym("rhs"), Sym("state")
    ends = []
    for ptr in (p, q):
        ex = cx.run(k, [ptr, h], {p: a, q: b}, bounds=bounds, assume=assume)
        ends.append([x for x in ex if x.kind == "return"])
        if len(ex) != 1 or len(ends[-1]) != 1:
            cx.note("undecided", k, "hashing takes several paths")
            return
    X, Y = ends[0][0], ends[1][0]

    def data(Z):
        out = []
        for e in Z.st.ev:
            if e.kind == "call" and (e.name == "hash" or "hash::Hash" in e.name):
                out.append((e.name,) + tuple(Z.simp(v) for v in e.args))
        return out

    ex_, ey = data(X), data(Y)

    def f(X):
        ok = len(ex_) == len(ey) and all(len(u) == len(v) and u[0] == v[0] and all(X.holds(eq(s, t)) for s, t in zip(u[1:], v[1:])) for u, v in zip(ex_, ey))
        X.emit("equal values have equal hashes", ok, None, "two equal values hash %s and %s" % ([show(t) for u in ex_ for t in u[2:]], [show(t) for u in ey for t in u[2:]]))

    cx.each([X], f)


@rule("comparisons", "C23")
def r_cmp(cx):
    """Equality, order and hashing of entities, versions and component descriptions agree."""

    def by(*terms):
        def order(X, a, b):
            for t in terms:
                x, y = X.simp(t(a)), X.simp(t(b))
                if X.ask(eq(x, y)):
                    continue
                return LESS if X.ask(lt(x, y)) else GREATER
            return EQUAL
        return order

    def ver(n):
        return agg(0, Sym(n))

    def ent(n):
        return agg(0, Sym(n + ".index"), ver(n + ".version"))

    # declaration order of the fields does not matter: fields are found by name
    def fields(key):
        for i in cx.P.items:
            if i["k"] == "adt" and i["key"] == key:
                return [f[1] for f in i["fields"]]
        return None

    fe = fields(EN)
    if not fe or sorted(fe) != ["index", "version"]:
        cx.record("public fields of entities exist", False, EN, "", "Entity has fields %s" % fe)
        return
    ii, vi = fe.index("index"), fe.index("version")

    def ent(n):
        v = [None, None]
        v[ii], v[vi] = Sym(n + ".index"), ver(n + ".version")
        return agg(0, *v)

    num = lambda v: v.args[1]
    Kind(cx, VE, ver("a"), ver("b"), by(num)).check()
    hash_check(cx, VE, ver("a"), ver("a"))
    Kind(cx, EN, ent("a"), ent("b"), by(lambda e: num(e.args[1 + vi]), lambda e: e.args[1 + ii])).check()
    hash_check(cx, EN, ent("a"), ent("a"))

    # component descriptions: any total order of types will do
    oa, ob, ta, tb = Sym("obj_a"), Sym("obj_b"), Sym("type_a"), Sym("type_b")

    def bounds(tid):
        def tyid(c):
            p = c.I.simp(c.st, c.args[0])
            return tid.get(p, T("app", "tidof", p))
        return {"sparsey::component::component_data::AbstractComponentData::type_id": tyid,
                "sparsey::component::component_data::AbstractComponentData::type_name": name_of(tid),
                "<core::any::TypeId as core::cmp::Ord>::cmp": tid_cmp,
                "<core::any::TypeId as core::cmp::PartialOrd>::partial_cmp": lambda c: Some(tid_cmp(c)),
                "<core::any::TypeId as core::hash::Hash>::hash": hashed,
                "core::str::traits::<impl core::cmp::Ord for str>::cmp": str_cmp,
                "<str as core::cmp::Ord>::cmp": str_cmp,
                "<str as core::cmp::PartialEq>::eq": str_eq}

    K = Kind(cx, CD, agg(0, oa), agg(0, ob), lambda X, a, b: EQUAL if X.ask(eq(ta, tb)) else LESS if X.ask(lt(ta, tb)) else GREATER, bounds({oa: ta, ob: tb}))
    K.free = True
    K.check()
    hash_check(cx, CD, agg(0, oa), agg(0, ob), bounds({oa: ta, ob: ta}))


@rule("version-next", "C23 C01")
def r_next(cx):
    """The version after a version is strictly greater."""
    k = VE + "::next"
    if not cx.has(k):
        cx.record("public operation exists", False, k, "", "%s is missing" % k)
        return
    s, n = Sym("self"), Sym("number")
    ex = cx.run(k, [s], {s: agg(0, n)}, assume=[le(Int(1), n), le(n, Int((1 << 32) - 1))])

    def f(X):
        if X.kind != "return":
            X.emit("next never panics", False, None, "ends with %s" % X.kind)
            return
        if X.is_variant(X.ret, 1, 2):
            v = X.fld(X.fld(X.simp(X.ret), 0, 1, 1), 0)
            X.require("the next version is strictly greater", lt(n, X.simp(v)))
            X.require("the next version is a valid number", le(X.simp(v), Int((1 << 32) - 1)))

    cx.each(ex, f)

    # handles made by hand
    i, u = Sym("index"), Sym("version")

    def parts(index, version, what):
        def g(X):
            if not X.require("%s always succeeds" % what, Bool(X.kind == "return"), "C23", "ends with %s" % X.kind):
                return
            r = X.simp(X.ret)
            X.same("%s gives a handle with this index" % what, cx.get(r, EN, "index"), index, "C23")
            w = X.simp(cx.get(r, EN, "version"))
            X.same("%s gives a handle with this version" % what, X.simp(fld(w, 0, 0, 1)) if version.op == "int" else w, version, "C23")
        return g

    U32 = [le(Int(0), i), le(i, Int((1 << 32) - 1))]
    for k, args, g in ((EN + "::new", [i, u], parts(i, u, "new")), (EN + "::with_index", [i], parts(i, Int(1), "with_index"))):
        if not cx.has(k):
            cx.record("public operation exists", False, k, "", "%s is missing" % k)
            continue
        cx.each(cx.run(k, args, {}, assume=U32), g)
    k = EN + "::sparse"
    if cx.has(k):
        e = Sym("self")

        def sp(X):
            X.same("sparse is the index of the handle", X.ret, i, "C23") if X.kind == "return" else X.fail("sparse always succeeds", "ends with %s" % X.kind, "C23")

        cx.each(cx.run(k, [e], {e: cx.mk(EN, index=i, version=u)}, assume=U32), sp)
    k = "<%s as core::default::Default>::default" % VE
    if cx.has(k):
        def df(X):
            X.same("the default version is the first", X.simp(fld(X.simp(X.ret), 0, 0, 1)), Int(1), "C23") if X.kind == "return" else X.fail("default always succeeds", "ends with %s" % X.kind, "C23")

        cx.each(cx.run(k, []), df)
