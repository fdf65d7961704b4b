"""Rules for the operations on component tuples (ComponentSet)."""
from .terms import *
from .adt import *
from .core import rule, Skip, Infeasible, Exit
from .wvoc import *
from .spec_sparse import wrap

CSET = "sparsey::component::component_set::ComponentSet"


def set_keys(cx, fn):
    """(key, element type names) of the implementations for tuples."""
    out = []
    for k, rs in cx.P.by_key.items():
        if k.startswith("<(") and k.endswith(" as %s>::%s" % (CSET, fn)):
            for n, r in enumerate(rs):
                t = r["impl_ty"].strip()[1:-1]
                names = [x.strip() for x in t.split(",") if x.strip()]
                out.append((k, n, names))
    out.sort(key=lambda x: len(x[2]))
    return out


def all_events(X, kinds):
    return [e for e in list(flat(X.st.ev)) + list(in_steps(X.st.ev)) if e.kind in kinds]


def back_exit(X, b):
    return Exit(X.cx, X.I, b, X.key, X.span)


def effects(X):
    return [e for e in all_events(X, ("css", "es", "gr", "borrow", "mapput", "mapdel", "mapclear", "into_iter"))
            if not (e.kind == "es" and e.op in ("len", "as_slice"))]


def unregistered(cx, W, X, names):
    return any(X.holds(neg(W.has(W.tid(n)))) for n in names)


def panic_ok(cx, W, names):
    """A panic is the right answer exactly for an unregistered type, and before anything is touched."""

    def f(X):
        if not unregistered(cx, W, X, names):
            return False
        ev = [e for e in effects(X) if e.kind in ("css", "es", "gr", "mapput", "mapdel", "mapclear")]
        X.emit("an unregistered type panics before anything is changed", not ev, "C21", "%s before the panic" % [(e.kind, e.d.get("op")) for e in ev[:4]])
        return True

    return f


def registered(cx, W, X, names):
    for n in names:
        X.require("types that are used are registered", W.has(W.tid(n)), "C21", "%s is not looked up on this path" % n)


def dropped(X, v, evs):
    """How often the value v (an Option) is dropped by the events."""
    n = 0
    for e in evs:
        if e.kind == "drop" and (e.v is v or (e.v.op == "fld" and e.v.args[0] is v)):
            n += 1
    return n


def group_calls(X, W, evs=None):
    return [e for e in (flat(X.st.ev) if evs is None else evs) if e.kind == "gr"]


def check_gr_args(X, W, e, what, props):
    ok = W.is_whole(X, e.args[0], W.pcomp, W.cn) and W.is_whole(X, e.args[1], W.pgrp, W.gn)
    X.emit(what + " works on all storages and groups of the world", ok, props, "called with %s, %s" % (show(e.args[0]), show(e.args[1])))


def masks(X, W, names, field):
    return {n: X.st.facts.find(X.simp(W.mask(W.tid(n), field))) for n in names}


def zero_masks(X, ms):
    """Types whose mask is known to be empty."""
    if X.st.facts.decide(eq(Int(0), Int(0))) is None:
        return set()
    return {n for n, m in ms.items() if X.holds(eq(m, Int(0)))}


def mask_covers(X, leaves, want):
    return all(w in leaves or w is Int(0) for w in want)


def empty_union(X, want):
    """The path knows that the union of the masks is empty."""
    if not want or all(X.holds(eq(w, Int(0))) for w in want):
        return True
    for t in list(X.st.facts.known):
        if t.op == "app" and t.args[0] == "op" and t.args[1] == "BitOr" and want <= or_leaves(X, t):
            if X.holds(eq(t, Int(0))):
                return True
    return False


OPS = ("extend", "insert", "remove", "delete")
SPLIT = ((16,), (15,), (13, 14), (11, 12), tuple(range(0, 11)) + tuple(range(17, 64)))


@rule("component-tuples", "C02 C03 C04 C05 C06 C08 C16 C18 C21 C26 C07", parts=[(o, a) for a in SPLIT for o in OPS])
def r_sets(cx, part):
    fn, ar = part
    f = {"insert": insert, "remove": remove, "delete": delete, "extend": extend}[fn]
    ks = set_keys(cx, fn)
    if len(ks) < 2:
        raise Skip("implementations of ComponentSet::%s not found" % fn)
    for key, n, names in ks:
        if len(names) in ar:
            f(cx, key, n, names)


def run(cx, W, key, n, args):
    return cx.run(key, args, W.mem, axioms=[W.axiom], assume=W.assume, bounds=W.bounds(), idx=n)


def insert(cx, key, n, names):
    W = Wld(cx)
    e, c = Sym("entity"), Sym("components")
    ex = run(cx, W, key, n, [W.world, e, c])

    def f(X):
        registered(cx, W, X, names)
        evs = list(flat(X.st.ev))
        if all_events(X, ("css",)) != [z for z in evs if z.kind == "css"]:
            X.undecided("insert stores each value once", "insertion in a loop")
            return
        css = [z for z in evs if z.kind == "css"]
        last = -1
        for i, t in enumerate(names):
            mine = [z for z in css if z.op == "insert" and W.cell_is(X, z.place, W.tid(t))]
            if X.require("insert stores each value once in the storage of its type", len(mine) == 1, "C04 C16 C26 C06", "%d insertions for %s" % (len(mine), t)):
                z = mine[0]
                X.require("insert stores the value under the given entity", eq(z.args[0], e), "C04 C03 C26")
                X.same("insert stores the value of its position", z.args[1], X.simp(fld(c, i, 0, len(names))), "C04 C16 C26 C06")
                X.require("insert uses the storage with its own type", z.targs == [t], "C16", "inserts %s as %s" % (t, z.targs))
                drops(X, z.ret, evs, "insert drops the replaced value once", "C06")
        X.require("insert touches no other storage", len(css) == len(names), "C04 C26", "%d operations" % len(css))
        es = [z for z in evs if z.kind == "es"]
        X.require("insert changes no entities", not es, "C02")
        grouping(X, W, names, evs, e, css)

    cx.each(ex, lambda X: wrap(cx, X, f, panic_ok(cx, W, names), "C21", "C07"))


def drops(X, ret, evs, label, props):
    k = dropped(X, ret, evs)
    if k == 0:
        d = T("discr", ret)
        if X.holds(eq(d, Int(0))):
            k = 1
    X.emit(label, k == 1, props, "dropped %d times" % k)


def grouping(X, W, names, evs, e, css):
    ms = masks(X, W, names, "insert_mask")
    want = frozenset(ms.values()) - {Int(0)}
    gs = [z for z in evs if z.kind == "gr"]
    X.require("insert only adds to groups", all(z.op == "group" for z in gs), "C08", "calls %s" % [z.op for z in gs])
    got = frozenset()
    lastcss = max([evs.index(z) for z in css] or [-1])
    for z in gs:
        if z.op != "group":
            continue
        check_gr_args(X, W, z, "insert", "C08 C26")
        X.require("insert groups the given entity", eq(z.args[3], e), "C08 C26")
        if evs.index(z) > lastcss:
            got |= mask_leaves(X, z.args[2])
        else:
            X.fail("insert groups the entity after its components are stored", "groups before a component is stored", "C08")
    if gs:
        X.require("insert updates every group the components belong to", mask_covers(X, got, want), "C08 C26",
                  "groups %s, needs %s" % ([show(g) for g in got], [show(w) for w in want]))
        X.require("insert updates no other group", got <= want, "C08 C26", "groups %s" % [show(g) for g in got])
    else:
        X.require("insert leaves the groups alone only if no group has the components", empty_union(X, want), "C08 C26")


def removal(cx, X, W, names, evs, e, label, ops):
    registered(cx, W, X, names)
    css = [z for z in evs if z.kind == "css"]
    ms = masks(X, W, names, "delete_mask")
    want = frozenset(ms.values()) - {Int(0)}
    gs = [z for z in evs if z.kind == "gr"]
    X.require(label + " only removes from groups", all(z.op == "ungroup" for z in gs), "C08", "calls %s" % [z.op for z in gs])
    got = frozenset()
    for z in gs:
        check_gr_args(X, W, z, label, "C08 C26")
        X.require(label + " ungroups the given entity", eq(z.args[3], e), "C08 C26 C03")
        got |= mask_leaves(X, z.args[2])
    if gs:
        X.require(label + " updates no other group", got <= want, "C08 C26", "ungroups %s" % [show(g) for g in got])
    none = empty_union(X, want)
    found = {}
    for i, t in enumerate(names):
        mine = [z for z in css if z.op in ops and W.cell_is(X, z.place, W.tid(t))]
        if not X.require(label + " takes each component once out of the storage of its type", len(mine) == 1, "C04 C16 C26 C06", "%d removals for %s" % (len(mine), t)):
            continue
        z = mine[0]
        found[i] = z
        X.require(label + " uses the given entity", eq(z.args[0], e), "C03 C04 C26")
        X.require(label + " uses the storage with its own type", z.targs == [t], "C16", "removes %s as %s" % (t, z.targs))
        before = frozenset()
        for g in gs:
            if evs.index(g) < evs.index(z):
                before |= mask_leaves(X, g.args[2])
        X.require(label + " takes the entity out of the groups of a component before the component",
                  none or ms[t] in before or X.holds(eq(ms[t], Int(0))), "C08 C26 C04")
    X.require(label + " touches no other storage", len(css) == len(names), "C04 C26", "%d operations" % len(css))
    X.require(label + " changes no entities", not [z for z in evs if z.kind == "es"], "C02")
    return found


def straight(X, label):
    evs = list(flat(X.st.ev))
    if len(all_events(X, ("css", "gr", "es"))) != len([z for z in evs if z.kind in ("css", "gr", "es")]):
        X.undecided(label, "operations in a loop")
        return None
    return evs


def remove(cx, key, n, names):
    W = Wld(cx)
    e = Sym("entity")
    ex = run(cx, W, key, n, [W.world, e])

    def f(X):
        evs = straight(X, "remove")
        if evs is None:
            return
        found = removal(cx, X, W, names, evs, e, "remove", ("remove",))
        r = X.simp(X.ret)
        for i, z in found.items():
            X.same("remove returns the components in the order of the types", X.simp(fld(r, i, 0, len(names))), z.ret, "C04 C06 C26")
            X.require("remove drops nothing it returns", dropped(X, z.ret, evs) == 0, "C06")

    cx.each(ex, lambda X: wrap(cx, X, f, panic_ok(cx, W, names), "C21", "C07"))


def delete(cx, key, n, names):
    W = Wld(cx)
    e = Sym("entity")
    ex = run(cx, W, key, n, [W.world, e])

    def f(X):
        evs = straight(X, "delete")
        if evs is None:
            return
        found = removal(cx, X, W, names, evs, e, "delete", ("remove", "delete", "delete_dyn"))
        for z in found.values():
            if z.op == "remove":
                drops(X, z.ret, evs, "delete drops the component once", "C06")

    def g(X):
        # delete_dyn carries no type of its own
        for z in X.st.ev:
            if z.kind == "css" and z.op == "delete_dyn" and not z.targs:
                z.d["targs"] = next(([t] for t in names if W.cell_is(X, z.place, W.tid(t))), [])
        f(X)

    cx.each(ex, lambda X: wrap(cx, X, g, panic_ok(cx, W, names), "C21", "C07"))


def extend(cx, key, n, names):
    W = Wld(cx)
    c = Sym("components")
    ex = run(cx, W, key, n, [W.world, c])
    cnt = T("app", "icount", c)
    items = T("app", "items", c)
    N = len(names)

    def f(X):
        registered(cx, W, X, names)
        ii = all_events(X, ("into_iter",))
        X.require("extend iterates its argument once", len(ii) == 1 and ii[0].v is c, "C18", "%d iterations" % len(ii))
        e, comp = W.state(X)
        ln, buf = W.es_parts(X, e)
        if ln is None:
            X.undecided("extend creates entities", "entities are %s" % show(e))
            return
        X.same("extend creates one entity per item", ln, add(W.n0, cnt), "C18 C26")
        other = [z for z in all_events(X, ("es",)) if z.op not in ("create",)]
        X.require("extend only creates entities", not other, "C18 C02", "calls %s" % [z.op for z in other])
        k = Sym("k")
        if X.ask(lt(k, cnt)):
            X.same("extend keeps the new entities in creation order", X.sel(buf, add(W.n0, k)), T("app", "created", add(W.n0, k)), "C18 C26")
        r = X.simp(X.ret)
        ok = r.op == "slice" and r.args[0].op == "ref" and r.args[0].args[0][0] == "O"
        if ok:
            b = X.I.root_val(X.st, r.args[0].args[0])
            ok = X.holds(conj(eq(r.args[1], W.n0), eq(r.args[2], cnt))) and not r.args[0].args[1]
            if ok and X.ask(lt(k, cnt)):
                ok = X.holds(eq(X.sel(b, add(W.n0, k)), T("app", "created", add(W.n0, k))))
        X.emit("extend returns exactly the new entities", bool(ok), "C18 C26", "returns %s" % show(r))
        try:
            j = Sym("j")
            if not X.ask(lt(j, cnt)):
                return
            new = T("app", "created", add(W.n0, j))
            for i, t in enumerate(names):
                segs = segments(X, lambda z: z.kind == "css" and W.cell_is(X, z.place, W.tid(t)))
                ok = len(segs) == 1 and X.holds(eq(segs[0].n, cnt)) and segs[0].ev.op == "insert"
                if X.require("extend stores one value per item in the storage of each type", ok, "C18 C26 C04 C16",
                             "%s insertions for %s" % ([show(s.n) for s in segs], t)):
                    s = segs[0]
                    X.same("extend stores the value of its position", X.simp(s.at(s.ev.args[1], j)), fld(T("sel", items, j), i, 0, N), "C18 C26 C06")
                    X.require("extend stores the value under the new entity", eq(X.simp(s.at(s.ev.args[0], j)), new), "C18 C26 C04")
                    X.require("extend uses the storage with its own type", s.ev.targs == [t], "C16", "inserts %s as %s" % (t, s.ev.targs))
                    drops(X, s.ev.ret, list(flat(s.back.ev)) if s.back is not None else list(flat(X.st.ev)), "extend drops what an insertion returns", "C06")
            nc = count(X.st.ev, lambda z: z.kind == "css")
            X.require("extend touches no other storage", nc == N, "C18 C26 C04", "%d operations" % nc)
            # groups
            ms = masks(X, W, names, "insert_mask")
            want = frozenset(ms.values()) - {Int(0)}
            gs = all_events(X, ("gr",))
            X.require("extend only adds to groups", all(z.op == "group" for z in gs), "C08 C18", "calls %s" % [z.op for z in gs])
            if gs:
                segs = segments(X, lambda z: z.kind == "gr", skip_ok=lambda b: empty_union(back_exit(X, b), want))
                got = frozenset()
                for s in segs:
                    check_gr_args(X, W, s.ev, "extend", "C08 C18 C26")
                    m = mask_leaves(X, s.ev.args[2])
                    X.require("extend updates no other group", m <= want, "C08 C18 C26", "groups %s" % [show(g) for g in m])
                    X.require("extend groups one entity per item", eq(s.n, cnt), "C08 C18 C26")
                    rev = sub(sub(s.n, Int(1)), j)
                    ok = any(X.holds(eq(X.simp(s.at(s.ev.args[3], i)), new)) for i in (j, rev))
                    X.emit("extend groups the new entities", ok, "C08 C18 C26", "step j groups %s" % show(X.simp(s.at(s.ev.args[3], j))))
                    got |= m
                    if s.back is not None:
                        seq = [z.kind for z in flat(s.back.ev)]
                        if "css" in seq[seq.index("gr"):]:
                            X.fail("extend groups an entity after its components are stored", "groups before a component is stored", "C08 C18")
                order(X)
                X.require("extend updates every group the components belong to", mask_covers(X, got, want), "C08 C18 C26",
                          "groups %s, needs %s" % ([show(g) for g in got], [show(w) for w in want]))
            else:
                X.require("extend leaves the groups alone only if no group has the components", empty_union(X, want), "C08 C18 C26")
        except Unrecognised as u:
            X.undecided("extend equals creating the entities one by one", "unrecognised iteration: %s" % u, "C18")

    def order(X):
        """No component is stored in a later loop than the grouping."""
        seen = False
        for z in X.st.ev:
            g = has_ev(z, lambda y: y.kind == "gr")
            s = has_ev(z, lambda y: y.kind == "css")
            if s and seen:
                X.fail("extend groups an entity after its components are stored", "components are stored after grouping", "C08 C18")
            seen = seen or g

    cx.each(ex, lambda X: wrap(cx, X, f, panic_ok(cx, W, names), "C21", "C07"))
