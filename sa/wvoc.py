"""World vocabulary: the parts of a world as abstract values, and their operations as events.

Each operation listed here is verified on its own against the meaning it is given here."""
from .terms import *
from .adt import *
from .core import Skip
from .seq import segments, count, flat, in_steps, Seg, Unrecognised, has as has_ev

GROUPMOD = "sparsey::component::group::"


class Bounds(dict):
    """Operations of the parts of a world. Unknown operations of a part leave the value unknown."""

    def __init__(self, prefixes, d=()):
        super().__init__(d)
        self.prefixes = prefixes

    def get(self, k, default=None):
        v = super().get(k)
        if v is None and k.startswith(self.prefixes):
            return unknown_op
        return v

    def __or__(self, o):
        b = Bounds(self.prefixes, self)
        b.update(o)
        return b


def unknown_op(c):
    c.st.taint = c.st.taint + (c.key,)
    return c.I.opaque_call(c, False)


def or_leaves(X, t):
    """The operands of a nested bit-or, up to the equalities of the path."""
    while t.op == "agg" and len(t.args) == 2:
        t = t.args[1]
    if t.op == "app" and t.args[0] == "op" and t.args[1] == "BitOr":
        return or_leaves(X, t.args[3]) | or_leaves(X, t.args[4])
    t = X.st.facts.find(t)
    if t is Int(0):
        return frozenset()
    return frozenset([t])


def mask_leaves(X, v):
    """or_leaves of a mask struct."""
    return or_leaves(X, fld(X.simp(v), 0, 0, 1))


class Wld:
    def __init__(self, cx):
        self.cx = cx
        self.world = Sym("world")
        self.ES0, self.n0 = Sym("ES0"), Sym("es_len0")
        self.es = self.mkes(self.n0, self.ES0)
        self.G, self.gn, self.M, self.Cb, self.cn = Sym("groups"), Sym("gn"), Sym("M"), Sym("comps"), Sym("cn")
        self.cst = cx.mk(CST, groups=agg(0, self.gn, self.G), metadata=self.M, components=agg(0, self.cn, self.Cb))
        self.val = cx.mk(WORLD, entities=self.es, components=self.cst)
        self.mem = {self.world: self.val}
        self.assume = [le(self.gn, Int(64)), le(self.cn, Int(1 << 40)), le(self.n0, Int(1 << 32))]
        self.si = cx.fi(META, "storage_index")
        self.pe = (("f",) + cx.fi(WORLD, "entities"),)
        self.pc = (("f",) + cx.fi(WORLD, "components"),)
        self.pcomp = (("f",) + cx.fi(CST, "components"), ("f", 1, 2))
        self.pgrp = (("f",) + cx.fi(CST, "groups"), ("f", 1, 2))
        self.croot = self.world, self.pc

    # ---- terms
    def mkes(self, n, b):
        return agg(0, n, b)

    def tid(self, name):
        return T("app", "tid", name)

    def meta(self, k, M=None):
        return T("app", "mapget", M or self.M, k)

    def sidx(self, k):
        return fld(self.meta(k), self.si[0], 0, self.si[1])

    def mask(self, k, f):
        i, n = self.cx.fi(META, f)
        return fld(fld(self.meta(k), i, 0, n), 0, 0, 1)

    def has(self, k, M=None):
        return T("app", "has", M or self.M, k)

    def axiom(self, f, t):
        """Storage indexes in the registry are in range and belong to one type each."""
        if t.op == "app" and t.args[0] == "tid":
            o = [u for u in f.known if u.op == "app" and u.args[0] == "tid" and u is not t]
            f.add_axiom(TRUE, lambda: [neg(eq(t, u)) for u in o])
        if t.op == "fld" and t.args[2 if len(t.args) > 2 else 1] == self.si[0]:
            m = t.args[0]
            if m.op == "app" and m.args[0] == "mapget" and m.args[1] is self.M:
                o = [u for u in f.known if u.op == "fld" and u is not t and u.args[1:] == t.args[1:] and u.args[0].op == "app"
                     and u.args[0].args[:2] == m.args[:2] and u.args[0].args[2] is not m.args[2]]
                f.upper[t] = (1 << 40)
                f.add_axiom(self.has(m.args[2]), lambda: [lt(t, self.cn)] + [neg(eq(t, u)) for u in o])

    # ---- locations
    def cell(self, X, place):
        """Storage index of the component cell at place, or None."""
        root, path = place
        want = self.croot[1] + self.pcomp
        if root != ("O", self.croot[0]) and not (root[0] == "O" and X.holds(eq(root[1], self.croot[0]))):
            return None
        if path[: len(want)] != want or len(path) != len(want) + 2 or path[len(want)][0] != "i":
            return None
        return path[len(want)][1]

    def cell_is(self, X, place, k):
        """place is the component cell of the type with id k."""
        c = self.cell(X, place)
        if c is None:
            return False
        f = X.st.facts
        s = self.sidx(k)
        f.add_term(s)
        f.add_term(c)
        return f.find(X.simp(c)) is f.find(s)

    def is_whole(self, X, t, sub_, n):
        """t is the slice of all components / groups."""
        t = X.simp(t)
        if t.op != "slice" or t.args[0].op != "ref":
            return False
        r, p = t.args[0].args
        return r == ("O", self.croot[0]) and p == self.croot[1] + sub_ and X.holds(conj(eq(t.args[1], Int(0)), eq(t.args[2], n)))

    # ---- boundaries
    def css_ops(self):
        P = self.cx.P

        def op(name):
            def f(c):
                pl = c.deref(0)
                s = c.read(pl)
                ts = c.cal.get("targs") or ()
                args = list(c.args[1:])
                ret = T("app", "css_%s_ret" % name, s, *args)
                c.event("css", op=name, place=pl, s=s, args=args, targs=[P.types[x]["s"] for x in ts], ret=ret)
                c.write(pl, T("app", "css_" + name, s, *args))
                return ret if name in ("insert", "remove") else UNIT
            return f

        out = {}
        for n in ("insert", "remove", "delete", "delete_dyn", "clear", "swap"):
            out[CSS + "::" + n] = op(n)

        def new(c):
            v = T("app", "css_new", P.types[c.targ(0)]["s"])
            c.event("css_new", t=P.types[c.targ(0)]["s"], v=v)
            return v

        out[CSS + "::new"] = new

        def pure(n, ty):
            def f(c):
                pl = c.deref(0)
                v = c.I.simp(c.st, c.read(pl))
                if ty == "slice":
                    r = ("O", T("app", "css_" + n, v))
                    return T("slice", ref(r, ()), Int(0), T("app", "css_len", v))
                if n == "is_empty":
                    return eq(T("app", "css_len", v), Int(0))
                return T("app", "css_" + n, v, *[a for a in c.args[1:]])
            return f

        for n, ty in (("len", "n"), ("is_empty", "b"), ("contains", "b"), ("entities", "slice"), ("sparse", "slice")):
            out[CSS + "::" + n] = pure(n, ty)
        return out

    def es_ops(self):
        def parts(c):
            pl = c.deref(0)
            v = c.I.simp(c.st, c.read(pl))
            if v.op == "agg":
                return pl, v, v.args[1], v.args[2]
            return pl, v, T("app", "es_len", v), T("app", "es_list", v)

        def create(c):
            pl, v, n, b = parts(c)
            e = T("app", "created", n)
            c.event("es", op="create", place=pl, args=[], ret=e)
            c.write(pl, self.mkes(add(n, Int(1)), T("store", b, n, e)))
            return e

        def create_atomic(c):
            pl, v, n, b = parts(c)
            e = fresh("atomic_entity")
            c.event("es", op="create_atomic", place=pl, args=[], ret=e)
            return e

        def contains(c):
            pl, v, n, b = parts(c)
            if b.op == "store" and c.I.holds(c.st, eq(b.args[2], c.args[1])):
                # the entity that was created last
                return TRUE
            return T("app", "alive", v, c.args[1])

        def remove(c):
            pl, v, n, b = parts(c)
            c.event("es", op="remove", place=pl, args=list(c.args[1:]), ret=None)
            c.write(pl, T("app", "es_removed", v, c.args[1]))
            return T("app", "alive", v, c.args[1])

        def eff(name):
            def f(c):
                pl, v, n, b = parts(c)
                c.event("es", op=name, place=pl, args=[], ret=None)
                c.write(pl, T("app", "es_" + name, v))
                return UNIT
            return f

        def length(c):
            return parts(c)[2]

        def empty(c):
            return eq(parts(c)[2], Int(0))

        def as_slice(c):
            pl, v, n, b = parts(c)
            r = ("O", T("app", "es_slice", v))
            c.I.set_root(c.st, r, b)
            return T("slice", ref(r, ()), Int(0), n)

        def default(c):
            return self.mkes(Int(0), T("app", "nobuf"))

        d = {"create": create, "create_atomic": create_atomic, "contains": contains, "remove": remove, "maintain": eff("maintain"),
             "clear": eff("clear"), "reset": eff("reset"), "len": length, "is_empty": empty, "as_slice": as_slice}
        out = {ES + "::" + k: v for k, v in d.items()}
        out["<%s as core::default::Default>::default" % ES] = default
        return out

    def group_ops(self):
        def op(name):
            def f(c):
                c.event("gr", op=name, args=list(c.args))
                return UNIT
            return f

        return {GROUPMOD + n: op(n) for n in ("group", "ungroup", "ungroup_all")}

    def bounds(self):
        return Bounds((ES + "::", CSS + "::", EA + "::", ESS + "::", SV + "::"), {**self.css_ops(), **self.es_ops(), **self.group_ops()})

    # ---- state of an exit
    def state(self, X):
        w = X.simp(X.deref(self.world))
        e = X.simp(self.cx.get(w, WORLD, "entities"))
        return e, X.simp(self.cx.get(w, WORLD, "components"))

    def es_parts(self, X, e):
        if e.op == "agg":
            return e.args[1], e.args[2]
        return None, None
