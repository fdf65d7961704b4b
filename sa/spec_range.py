"""Rules for group information and packed ranges."""
from .terms import *
from .adt import *
from .core import rule, Skip, Infeasible
from .wvoc import mask_leaves
from .spec_sparse import wrap, MEMP
from .spec_query import absent

RP = "C11 C12 C13 C14"


class Info:
    """Group information as values."""

    def __init__(self, cx):
        self.cx = cx
        n = cx.P.variants(QGI)
        if sorted(n) != ["Empty", "Many", "One"]:
            raise Skip("variants of %s" % QGI)
        self.var = {x: n.index(x) for x in n}

    def kind(self, X, q):
        for n, i in self.var.items():
            if X.is_variant(q, i, 3):
                return n
        raise Infeasible()

    def many(self, g):
        return agg(self.var["Many"], g)

    def one(self, v):
        return agg(self.var["One"], v)

    def group(self, X, q):
        """The group info of a query's info, None if it has none."""
        k = self.kind(X, q)
        if k == "Empty":
            return None
        p = X.simp(fld(X.simp(q), 0, self.var[k]))
        if k == "Many":
            return p
        i = X.simp(self.cx.get(p, VGI, "info"))
        return X.simp(fld(i, 0, 1)) if X.is_variant(i, 1) else None

    def start(self, X, g):
        return X.simp(self.cx.get(g, GI, "group_start"))

    def end(self, X, g):
        return X.simp(self.cx.get(g, GI, "group_end"))

    def mask(self, X, g):
        return mask_leaves(X, self.cx.get(g, GI, "storage_mask"))


def merged(X, I, label, g, a, b, props):
    """g is the union of a and b."""
    X.same(label + ": belongs to the same family", I.start(X, g), I.start(X, a), props)
    e, ea, eb = I.end(X, g), I.end(X, a), I.end(X, b)
    X.require(label + ": reaches the last group of both", conj(le(ea, e), le(eb, e)), "C09 C24 " + props)
    X.require(label + ": reaches no further than both", disj(eq(e, ea), eq(e, eb)), "C09 C24 " + props)
    have, want = I.mask(X, g), I.mask(X, a) | I.mask(X, b)
    X.emit(label + ": names the storages of both", have == want, props, None if have == want else
           "%s, expected %s" % (sorted(map(show, have)), sorted(map(show, want))))


@rule("group-info", RP + " C09 C24 C07")
def r_info(cx):
    """Merged group information describes exactly the merged parts, and exists exactly if they are in one family."""
    I = Info(cx)
    a, b = Sym("a"), Sym("b")
    pa, pb = Sym("pa"), Sym("pb")
    mem = {pa: a, pb: b}

    def small(X):
        pass

    def add_group(X):
        same = X.ask(eq(I.start(X, a), I.start(X, b)))
        some = X.is_variant(X.ret, 1)
        if not same:
            X.require("groups of different families are not merged", not some, RP + " C07")
            return
        if X.require("groups of one family are merged", some, "C09 C24"):
            merged(X, I, "merged group info", X.simp(fld(X.simp(X.ret), 0, 1)), a, b, RP)

    key = GI + "::add_group"
    body = cx.P.body(cx.root(key)["inst"])
    refs = cx.P.types[body.locals[1]]["k"] == "ref"
    cx.each(cx.run(key, [pa, pb] if refs else [a, b], mem), lambda X: wrap(cx, X, add_group, None, "C12", "C07"))

    def result(X, label, r, A, B):
        """r is the information of two parts together; A, B: their group info (None if there is none)."""
        some = X.is_variant(r, 1)
        if A is not None and B is not None:
            same = X.ask(eq(I.start(X, A), I.start(X, B)))
        else:
            same = False
        if not same:
            X.require(label + ": parts without a common family have no group", not some, RP)
            return
        if not X.require(label + ": parts of one family have a group", some, "C09 C24"):
            return
        q = X.simp(fld(X.simp(r), 0, 1))
        if X.require(label + ": several parts are described as such", I.kind(X, q) == "Many", RP):
            merged(X, I, label, X.simp(fld(q, 0, I.var["Many"])), A, B, RP)

    def whole(X, label, r, q):
        """r is q alone."""
        if X.require(label + ": a single part keeps its information", X.is_variant(r, 1), "C09 C24"):
            same_info(X, I, label + ": a single part keeps its information", X.simp(fld(X.simp(r), 0, 1)), q)

    def add_view(X):
        k = I.kind(X, a)
        if k == "Empty":
            return whole(X, "query and view", X.ret, I.one(b))
        A = I.group(X, a)
        v = X.simp(cx.get(b, VGI, "info"))
        B = X.simp(fld(v, 0, 1)) if X.is_variant(v, 1) else None
        result(X, "query and view", X.ret, A, B)

    def add_query(X):
        ka, kb = I.kind(X, a), I.kind(X, b)
        if ka == "Empty":
            return whole(X, "two queries", X.ret, b)
        if kb == "Empty":
            return whole(X, "two queries", X.ret, a)
        result(X, "two queries", X.ret, I.group(X, a), I.group(X, b))

    cx.each(cx.run(QGI + "::add_view", [pa, pb], mem), lambda X: wrap(cx, X, add_view, None, "C12", "C07"))
    cx.each(cx.run(QGI + "::add_query", [pa, pb], mem), lambda X: wrap(cx, X, add_query, None, "C12", "C07"))


def same_info(X, I, label, x, y):
    """Equal group infos of queries."""
    kx, ky = I.kind(X, x), I.kind(X, y)
    if not X.require(label, kx == ky, RP):
        return
    if kx == "Empty":
        return
    px, py = X.simp(fld(X.simp(x), 0, I.var[kx])), X.simp(fld(X.simp(y), 0, I.var[ky]))
    if px is py:
        return X.emit(label, True, RP)
    if kx == "Many":
        return same_group(X, I, label, px, py)
    ix, iy = X.simp(I.cx.get(px, VGI, "info")), X.simp(I.cx.get(py, VGI, "info"))
    X.same(label, X.simp(I.cx.get(px, VGI, "len")), X.simp(I.cx.get(py, VGI, "len")), RP)
    if ix is not iy:
        sx, sy = X.is_variant(ix, 1), X.is_variant(iy, 1)
        if X.require(label, sx == sy, RP) and sx:
            same_group(X, I, label, X.simp(fld(ix, 0, 1)), X.simp(fld(iy, 0, 1)))


def same_group(X, I, label, x, y):
    X.same(label, I.start(X, x), I.start(X, y), RP)
    X.same(label, I.end(X, x), I.end(X, y), RP)
    X.emit(label, I.mask(X, x) == I.mask(X, y), RP)


# ---------------------------------------------------------------- packed ranges

class Families:
    """The groups of a storage, as the layout sets them up."""

    def __init__(self, cx, I):
        self.cx, self.I = cx, I
        self.G, self.gn = Sym("groups"), Sym("gn")
        self.cst = cx.mk(CST, groups=agg(0, self.gn, self.G))
        self.infos = []

    def field(self, g, name, part):
        cx = self.cx
        i, n = cx.fi(GROUP, "metadata")
        m = fld(g, i, 0, n)
        i, n = cx.fi(GMETA, name)
        q = fld(m, i, 0, n)
        i, n = cx.fi(QM, part)
        return fld(q, i, 0, n)

    def length(self, g):
        i, n = self.cx.fi(GROUP, "len")
        return fld(g, i, 0, n)

    def axiom(self, f, t):
        """Group infos name groups of their family and at least one storage; later groups of a family
        are smaller; the first group of a family is not the rest of another one."""
        if t.op == "fld" and len(t.args) == 3 and t.args[1] == 0:
            i, n = self.cx.fi(GI, "group_end")
            if t.args[2] == i and struct_n.get(t.args[0]) == n and self.is_info(t.args[0]):
                g = t.args[0]
                f.add_axiom(TRUE, lambda: self.valid(g))
        if t.op == "sel" and t.args[0] is self.G:
            for g in self.known_infos(f):
                j, n = self.cx.fi(GI, "group_start")
                s = fld(g, j, 0, n)
                m = fld(self.field(t, "exclude_mask", "include"), 0, 0, 1)
                f.add_axiom(eq(t.args[1], s), lambda m=m: [eq(m, Int(0))])

    def known_infos(self, f):
        i, n = self.cx.fi(GI, "group_end")
        return [t.args[0] for t in list(f.known) if t.op == "fld" and t.args[1] == 0 and t.args[2] == i and self.is_info(t.args[0])]

    def is_info(self, t):
        """t is the group info of the included or excluded components."""
        while t.op == "fld":
            t = t.args[0]
        return t.op == "sym" and t.args[0] in ("include", "exclude")

    def valid(self, g):
        s, e = [fld(g, *(lambda p: (p[0], 0, p[1]))(self.cx.fi(GI, n))) for n in ("group_start", "group_end")]
        i, n = self.cx.fi(GI, "storage_mask")
        m = fld(fld(g, i, 0, n), 0, 0, 1)
        return [lt(s, e), le(e, self.gn), neg(eq(m, Int(0)))]


@rule("group-range", RP + " C07 C09 C24")
def r_range(cx):
    """A packed range is given only if the groups describe exactly the required, included and excluded components."""
    I = Info(cx)
    F = Families(cx, I)
    w, inc, exc = Sym("storage"), Sym("include"), Sym("exclude")
    pi, pe = Sym("pi"), Sym("pe")
    mem = {w: F.cst, pi: inc, pe: exc}
    key = CST + "::group_range"
    ex = cx.run(key, [w, pi, pe], mem, axioms=[F.axiom], assume=[le(F.gn, Int(64))])

    def leaf(X, v):
        return mask_leaves(X, v)

    def group_of(X, t):
        """k if t is the length of groups[k]."""
        t = X.simp(t)
        i, n = cx.fi(GROUP, "len")
        if t.op == "fld" and t.args[1:] == (0, i) and t.args[0].op == "sel" and t.args[0].args[0] is F.G:
            return t.args[0].args[1], t.args[0]
        return None

    def post(X):
        some = X.is_variant(X.ret, 1)
        ki, ke = I.kind(X, inc), I.kind(X, exc)
        A, B = I.group(X, inc), I.group(X, exc)
        if some:
            r = X.simp(fld(X.simp(X.ret), 0, 1))
            lo, hi = X.simp(fld(r, 0, 0, 2)), X.simp(fld(r, 1, 0, 2))
        if ki == "Empty":
            X.require("queries without required components have no packed range", not some, RP)
            return
        if ke == "Empty":
            if not some:
                if ki == "One":
                    return X.require("a single component is always packed", False, "C09 C24 C13")
                k = sub(I.end(X, A), Int(1))
                ok = why_not(X, A, None, k)
                return X.emit("a query for exactly the components of a group is packed", ok, "C09 C24", "no range although the group matches")
            X.same("a packed range without exclusions starts at the first position", lo, Int(0), RP)
            if ki == "One":
                n = X.simp(cx.get(X.simp(fld(X.simp(inc), 0, I.var["One"])), VGI, "len"))
                if X.holds(eq(hi, n)):
                    return X.emit("the packed range of a single component is all of it", True, RP)
                if A is None:
                    return X.same("the packed range of a single component is all of it", hi, n, RP)
            q = group_of(X, hi)
            if not X.require("the packed range ends at the length of a group", q is not None, RP, "ends at %s" % show(hi)):
                return
            k, g = q
            in_family(X, A, k)
            ok = leaf(X, F.field(g, "include_mask", "include")) == I.mask(X, A)
            X.emit("the group has exactly the required components", ok, RP, "include mask of group %s not compared with the query's" % show(k))
            return
        # exclusions
        if not some:
            if A is None or B is None or ke == "Many":
                return X.emit("a query for exactly the components between two groups is packed", True, "C09 C24")
            e1, e2 = I.end(X, A), I.end(X, B)
            k = sub(e2, Int(1)) if X.ask(le(e1, e2)) else sub(e1, Int(1))
            ok = X.holds(neg(eq(I.start(X, A), I.start(X, B)))) or why_not(X, A, B, k)
            return X.emit("a query for exactly the components between two groups is packed", ok, "C09 C24", "no range although the groups match")
        if not X.require("an exclusion uses groups only if all components are grouped", A is not None and B is not None, RP):
            return
        X.same("required and excluded components are of one family", I.start(X, A), I.start(X, B), RP)
        c, p = group_of(X, lo), group_of(X, hi)
        if not X.require("a packed range with exclusions lies between two groups", c is not None and p is not None, RP, "%s..%s" % (show(lo), show(hi))):
            return
        in_family(X, A, c[0])
        X.require("a packed range with exclusions lies between consecutive groups", eq(sub(c[0], Int(1)), p[0]), RP)
        X.require("a packed range with exclusions stays within its family", lt(I.start(X, A), c[0]), RP + " C07")
        ok = leaf(X, F.field(c[1], "exclude_mask", "include")) == I.mask(X, A)
        X.emit("the outer group has exactly the required components", ok, RP, "not compared")
        ok = leaf(X, F.field(c[1], "exclude_mask", "exclude")) == I.mask(X, B)
        X.emit("the inner group adds exactly the excluded components", ok, RP, "not compared")
        one = ke == "One" or single_bit(X, cx.get(B, GI, "storage_mask"))
        X.emit("exclusion of several components leaves out entities with any of them", one, "C12 C13 C11 C14",
               None if one else "the range groups[k].len..groups[k-1].len keeps entities that have some but not all of several excluded components")

    def in_family(X, A, k):
        X.require("the group is one of the family of the query", conj(le(I.start(X, A), k), lt(k, I.end(X, A))) if True else TRUE, RP + " C07") \
            if X.holds(lt(k, I.end(X, A))) else X.require("the group is one of the family of the query", Bool(end_of_other(X, k)), RP + " C07")

    def end_of_other(X, k):
        B = I.group(X, exc)
        return B is not None and X.holds(eq(I.start(X, B), I.start(X, I.group(X, inc)))) and X.holds(conj(le(I.start(X, B), k), lt(k, I.end(X, B))))

    def why_not(X, A, B, k):
        """The masks of group k differ from those of the query."""
        g = X.sel(F.G, k)
        m = lambda v: X.simp(fld(X.simp(v), 0, 0, 1))
        a = fld(cx.get(A, GI, "storage_mask"), 0, 0, 1)
        if B is None:
            return X.holds(neg(eq(m(F.field(g, "include_mask", "include")), a))) or X.holds(neg(eq(m(F.field(g, "include_mask", "exclude")), Int(0))))
        b = fld(cx.get(B, GI, "storage_mask"), 0, 0, 1)
        return X.holds(neg(eq(m(F.field(g, "exclude_mask", "include")), a))) or X.holds(neg(eq(m(F.field(g, "exclude_mask", "exclude")), b)))

    cx.each(ex, lambda X: wrap(cx, X, post, None, "C12", MEMP))


def single_bit(X, mask):
    """The mask is known to have one bit."""
    m = X.simp(fld(X.simp(mask), 0, 0, 1))
    f = X.st.facts
    r = f.find(m)
    for t in list(f.known):
        if t.op == "app" and str(t.args[0]) in ("popcount", "ctpop") and f.find(t.args[-1]) is r and X.holds(le(t, Int(1))):
            return True
        if t.op == "app" and t.args[0] == "op" and t.args[1] == "BitAnd" and X.holds(eq(t, Int(0))):
            for x, y in ((t.args[3], t.args[4]), (t.args[4], t.args[3])):
                if f.find(x) is r and sub(y, x) is Int(-1):
                    return True
        if t.op == "app" and t.args[0] == "op" and t.args[1] == "Shl" and t.args[3] is Int(1) and f.find(t) is r:
            return True
    return False
