"""Rules for the entity allocator and the entity storage.

Abstract state of the allocator: R[0, len-a) may be issued again, R[len-a, len) together with
(m..n, first version) were issued atomically and wait for maintenance, n is the first index never
issued.
"""
from .terms import *
from .adt import *
from .core import rule, Skip, Infeasible
from .sets import *
from .seq import segments, flat, in_steps, Unrecognised
from .spec_sparse import wrap

N32 = 1 << 32


class Alloc:
    def __init__(self, cx):
        self.cx = cx
        self.v = Voc(cx)
        self.R, self.rl, self.a, self.n, self.m = Sym("R"), Sym("rl"), Sym("a"), Sym("n"), Sym("m")
        self.val = cx.mk(EA, next_index_to_allocate=agg(0, self.n), last_maintained_index=self.m,
                         recycled=agg(0, self.rl, self.R), recycled_since_maintain=agg(0, self.a))
        self.assume = [le(self.a, self.rl), le(self.m, self.n), le(self.n, Int(N32)), le(self.rl, Int((1 << 62)))]
        self.first = self.first_version()
        R, n, m = self.R, self.n, self.m

        def ax(f, t):
            # queued handles have been issued: their index is below the last maintained index
            if t.op == "sel" and t.args[0] is R:
                f.upper[self.v.idx(t)] = U32
                f.upper[self.v.ver(t)] = U32
                f.add_axiom(lt(t.args[1], self.rl), lambda: [lt(self.v.idx(t), m), lt(Int(0), self.v.ver(t))])

        self.axiom = ax

    def first_version(self):
        for i in self.cx.P.items:
            if i["k"] == "const" and i["key"] == VER + "::FIRST":
                v = i["value"]
                while isinstance(v, dict) and "adt" in v:
                    v = v["adt"][0][1]
                if isinstance(v, dict) and "int" in v:
                    return Int(int(v["int"]))
        raise Skip("first version")

    def parts(self, X, v):
        g = lambda f: X.simp(self.cx.get(v, EA, f))
        r = g("recycled")
        return {"R": fld(r, 1, 0, 2), "rl": fld(r, 0, 0, 2), "a": fld(g("recycled_since_maintain"), 0, 0, 1),
                "n": fld(g("next_index_to_allocate"), 0, 0, 1), "m": g("last_maintained_index")}

    def consistent(self, X, d, props):
        X.require("the pending part is inside the queue", le(d["a"], d["rl"]), props)
        X.require("maintained indexes were issued", le(d["m"], d["n"]), props)
        X.require("index counter stays in range", le(d["n"], Int(N32)), props)

    def keeps_free(self, X, d, props, what):
        """The reusable part of the queue is unchanged."""
        X.same(what + " keeps the reusable handles", sub(d["rl"], d["a"]), sub(self.rl, self.a), props)
        k = Sym("k")
        if X.ask(lt(k, sub(self.rl, self.a))):
            X.require(what + " keeps every reusable handle", self.v.ent_eq(X.sel(d["R"], k), T("sel", self.R, k)), props)

    def pending_same(self, X, d, props, what, extra=0):
        """Pending handles: the same set as before (positions may move)."""
        V = self.v
        new = sub(d["n"], d["m"])
        X.same(what + " keeps the number of pending handles", add(d["a"], new), add(self.a, sub(self.n, self.m)), props)

    def pending_queued(self, X, d, props, what):
        k = Sym("k")
        V = self.v
        base = sub(d["rl"], d["a"])
        if not X.ask(lt(k, self.a)):
            return
        old = T("sel", self.R, add(sub(self.rl, self.a), k))
        ok = False
        for p in (k, add(k, sub(d["a"], self.a))):
            if X.st.facts.decide(lt(p, d["a"])) is True and X.holds(V.ent_eq(X.sel(d["R"], add(base, p)), old)):
                ok = True
                break
        X.emit(what + " keeps every pending reused handle", ok, props, "%s is not pending afterwards" % show(old))

    def pending_new(self, X, d, props, what):
        i = Sym("i")
        V = self.v
        if not (X.ask(le(self.m, i)) and X.ask(lt(i, self.n))):
            return
        base = sub(d["rl"], d["a"])
        if X.ask(le(d["m"], i)):
            X.require(what + " keeps every pending new index", lt(i, d["n"]), props)
            return
        ok = False
        for p in (add(self.a, sub(i, self.m)), sub(i, self.m)):
            if X.holds(lt(p, d["a"])):
                e = X.sel(d["R"], add(base, p))
                if X.holds(conj(eq(V.idx(e), i), eq(V.ver(e), self.first))):
                    ok = True
                    break
        X.emit(what + " keeps every pending new index", ok, props, "index %s is not pending afterwards" % show(i))


def alloc_spec(cx, A, ex, p, getv, label, panics=None):
    """allocate: takes one reusable or fresh handle; pending handles stay pending."""
    P1 = "C01 C02 C25"
    V = A.v

    def exhausted(X):
        return X.holds(conj(le(A.rl, A.a), le(Int(N32), A.n)))

    def common(X):
        d = A.parts(X, getv(X))
        r = X.simp(X.ret)
        return d, r

    def issued(X, r):
        """The issued handle (Option or plain)."""
        return r if panics else fld(r, 0, 1)

    def is_some(X, r):
        return True if panics else X.is_variant(r, 1)

    def f1(X):
        d, r = common(X)
        A.consistent(X, d, P1)
        if not is_some(X, r):
            X.emit(label + " fails only when no handle is left", exhausted(X), "C01 C02", "fails with handles left")
            return
        e = issued(X, r)
        fresh_ = X.holds(le(A.n, V.idx(e)))
        if fresh_:
            X.same(label + " gives a fresh index its first version", V.ver(e), A.first, "C01")
            X.require(label + " moves the index counter past a fresh index", lt(V.idx(e), d["n"]), P1)
            A.keeps_free(X, d, P1, label)
            A.pending_same(X, d, P1, label)
            # cardinality plus inclusion below: the fresh index itself is not pending
        else:
            j = reused(X, e)
            if j is None:
                X.fail(label + " returns a fresh or a reusable handle", "returns " + show(e), P1)
                return
            X.require(label + " only reuses handles that are not pending", lt(j, sub(A.rl, A.a)), P1)
            X.require(label + " only reuses queued handles", le(Int(0), j), P1)
            X.same(label + " removes the handle from the queue", sub(d["rl"], d["a"]), sub(sub(A.rl, A.a), Int(1)), P1)
            A.pending_same(X, d, P1, label)
            X.require(label + " keeps the index counter", conj(eq(d["n"], A.n), eq(d["m"], A.m)), P1)

    def reused(X, e):
        e = X.simp(e)
        if e.op == "sel" and e.args[0] is A.R:
            return e.args[1]
        for t in list(X.st.facts.known):
            if t.op == "sel" and t.args[0] is A.R and X.st.facts.find(t) is X.st.facts.find(e):
                return t.args[1]
        return None

    def f2(X):
        d, r = common(X)
        if not is_some(X, r):
            return
        e = issued(X, r)
        if X.holds(le(A.n, V.idx(e))):
            return
        j = reused(X, e)
        if j is None:
            return
        k = Sym("k")
        X.assume(lt(k, sub(sub(A.rl, A.a), Int(1))))
        got = X.sel(d["R"], k)
        want = k if X.ask(lt(k, j)) else add(k, Int(1))
        ok = X.holds(V.ent_eq(got, T("sel", A.R, want)))
        if not ok:
            w2 = sub(sub(A.rl, A.a), Int(1)) if X.ask(eq(k, j)) else k
            ok = X.holds(V.ent_eq(got, T("sel", A.R, w2)))
        X.emit(label + " keeps the other reusable handles", ok, P1, "position %s holds %s" % (show(k), show(got)))

    def f3(X):
        d, r = common(X)
        A.pending_queued(X, d, P1, label)

    def f4(X):
        d, r = common(X)
        A.pending_new(X, d, P1, label)

    for f in (f1, f2, f3, f4):
        cx.each(ex, lambda X: wrap(cx, X, f, (lambda Y: exhausted(Y)) if panics else None, "C01 C02"))


def atomic_spec(cx, A, ex, p, prefix, label, panics=None):
    """Every issued handle is claimed by exactly one successful atomic update of a counter, and is
    the handle that the old value of the counter stands for."""
    V = A.v
    ri = prefix + (("f",) + cx.fi(EA, "recycled_since_maintain"),)
    ni = prefix + (("f",) + cx.fi(EA, "next_index_to_allocate"),)

    def where(pl):
        path = pl[1]
        if path == ri or path[:-1] == ri and path[-1][0] == "f":
            return "queue"
        if path == ni or path[:-1] == ni and path[-1][0] == "f":
            return "index"
        return None

    def retries(X, evs):
        """A failed exchange has seen the counter: what the next round expects must come from this
        round, or the rounds never end (or run past handles that are left)."""
        for l in evs:
            if l.kind != "loop":
                continue
            for b in l.rec.backs:
                retries(X, b.ev)
                failed = [e for e in flat(b.ev) if e.kind == "acas" and not e.ok]
                seen = {e.v if e.kind == "aload" else e.seen for e in flat(b.ev) if e.kind == "aload" or e in failed}
                for e in failed:
                    nxt = subst(e.old, {s: X.I.read(b, c[0], c[1]) for c, s in l.rec.cells.items()})
                    X.emit(label + " retries with the counter it has seen", bool(seen & (set(subterms(nxt)) | set(subterms(e.old)))), "C25 C01",
                           "after a failed update the next one expects %s, which was not read since" % show(nxt))
            retries(X, l.d.get("last", ()))

    def f(X):
        retries(X, X.st.ev)
        rmw = [e for e in flat(X.st.ev) if e.kind == "armw" or e.kind == "acas" and e.ok]
        stores = [e for e in flat(X.st.ev) if e.kind == "astore"] + [e for e in in_steps(X.st.ev) if e.kind == "astore"]
        X.emit(label + " never overwrites a counter", not stores, "C25 C01", "plain store at %s" % [e.line for e in stores])
        back = [e for e in in_steps(X.st.ev) if e.kind == "armw" or e.kind == "acas" and e.ok]
        r = X.simp(X.ret)
        if panics is None and not X.is_variant(r, 1):
            X.emit(label + " claims nothing when it fails", not rmw and not back, "C25 C01", "updates a counter and issues nothing")
            X.emit(label + " fails only when no handle is left", any(X.holds(le(Int(N32), t)) for t in list(X.st.facts.known) if t.op in ("sym", "fresh")), "C25 C01 C02",
                   "gives up without having seen the index counter at its end")
            return
        e = r if panics else fld(r, 0, 1)
        X.emit(label + " claims exactly one handle", len(rmw) == 1 and not back, "C25 C01", "%d updates of the counters on this path" % (len(rmw) + len(back)))
        if len(rmw) != 1:
            return
        u = rmw[0]
        w = where(u.place)
        X.require(label + " advances the counter by one", eq(u.new, add(u.old, Int(1))), "C25 C01", "new value %s" % show(u.new))
        if w == "queue":
            X.require(label + " only claims queued handles", lt(u.old, A.rl), "C25 C01 C02")
            X.require(label + " issues the handle its claim stands for", V.ent_eq(e, X.sel(A.R, sub(sub(A.rl, u.old), Int(1)))), "C25 C01 C02",
                      "issues %s" % show(e))
        elif w == "index":
            X.require(label + " only claims indexes that exist", lt(u.old, Int(N32)), "C25 C01 C02")
            X.require(label + " issues the index its claim stands for", conj(eq(V.idx(e), u.old), eq(V.ver(e), A.first)), "C25 C01 C02", "issues %s" % show(e))
        else:
            X.fail(label + " claims a handle", "updates %s" % (u.place,), "C25 C01")

    def allow(X):
        return panics and not any(e.kind in ("armw",) or e.kind == "acas" and e.ok for e in flat(X.st.ev))

    cx.each(ex, lambda X: wrap(cx, X, f, allow, "C25 C01 C02"))


def recycle_spec(cx, A, X, d, e, label):
    """A destroyed handle's index is queued with a strictly greater version, or never again."""
    P = "C01 C02 C25"
    V = A.v
    A.consistent(X, d, P)
    if X.ask(eq(V.ver(e), Int(U32))):
        X.require(label + " never reuses an index without versions left", eq(d["rl"], A.rl), "C01")
        X.require(label + " leaves the pending part alone", eq(d["a"], A.a), P)
        grown = False
    else:
        X.require(label + " leaves the pending part alone", eq(d["a"], A.a), P)
        # queuing is optional for this property, but at most one entry may appear
        grown = not X.ask(eq(d["rl"], A.rl))
        if grown:
            X.same(label + " queues the index once", d["rl"], add(A.rl, Int(1)), P)
    X.require(label + " keeps the index counters", conj(eq(d["n"], A.n), eq(d["m"], A.m)), P)
    return grown


def recycle_entry(cx, A, X, d, e, label):
    """Position and value of the new entry."""
    P = "C01 C02 C25"
    V = A.v
    if X.ask(eq(d["rl"], A.rl)):
        k = Sym("k")
        X.assume(lt(k, A.rl))
        X.require(label + " keeps the queue", V.ent_eq(X.sel(d["R"], k), T("sel", A.R, k)), P)
        return
    for pos in (Int(0), sub(A.rl, A.a)):
        w = X.sel(d["R"], pos)
        if X.holds(eq(V.idx(w), V.idx(e))):
            X.require(label + " reissues an index only with a greater version", lt(V.ver(e), V.ver(w)), "C01 C02 C03", "queued version %s" % show(V.ver(w)))
            X.require(label + " queues a valid version", le(V.ver(w), Int(U32)), "C01")
            k = Sym("k")
            X.assume(lt(k, A.rl))
            at = k if X.ask(lt(k, pos)) else add(k, Int(1))
            X.require(label + " keeps the other queued handles", V.ent_eq(X.sel(d["R"], at), T("sel", A.R, k)), P)
            return
    X.fail(label + " queues the destroyed index among the reusable handles", "no entry for it in the reusable part", P)


def yield_spec(cx, A, X, label, want, arg):
    """The handles added by maintenance are exactly the pending ones."""
    P = "C02 C25"
    V = A.v
    try:
        segs = segments(X, want)
        total = Int(0)
        for s in segs:
            total = add(total, s.n)
        X.same(label + " makes as many entities alive as are pending", total, add(A.a, sub(A.n, A.m)), P)
        k, i = Sym("k"), Sym("i")

        def covered(old, cands):
            for s in segs:
                for j in cands:
                    if X.holds(conj(le(Int(0), j), lt(j, s.n))) and X.holds(V.ent_eq(X.simp(s.at(arg(s.ev), j)), old)):
                        return True
            return False

        if X.ask(lt(k, A.a)):
            old = T("sel", A.R, add(sub(A.rl, A.a), k))
            ok = covered(old, [k, sub(sub(A.a, k), Int(1))])
            X.emit(label + " makes every pending reused handle alive", ok, P, "%s is not made alive" % show(old))
        if X.ask(le(A.m, i)) and X.ask(lt(i, A.n)):
            old = V.mkent(i, A.first)
            ok = covered(old, [sub(i, A.m), sub(sub(A.n, i), Int(1))])
            X.emit(label + " makes every pending new index alive", ok, P, "index %s is not made alive" % show(i))
    except Unrecognised as e:
        X.undecided(label + " makes exactly the pending handles alive", "unrecognised iteration: %s" % e, P)


def drained(cx, A, X, d, label):
    P = "C02 C25 C01"
    A.consistent(X, d, P)
    X.same(label + " leaves no pending reused handle", d["a"], Int(0), P)
    X.same(label + " leaves no pending index", d["m"], d["n"], P)
    X.same(label + " keeps the index counter", d["n"], A.n, "C01 C25 C02")
    X.same(label + " takes the pending handles out of the queue", d["rl"], sub(A.rl, A.a), "C01 C02 C25")
    k = Sym("k")
    X.assume(lt(k, sub(A.rl, A.a)))
    X.require(label + " keeps the reusable handles", A.v.ent_eq(X.sel(d["R"], k), T("sel", A.R, k)), "C01")


@rule("entity-allocator", "C01 C02 C03 C25")
def r_alloc(cx):
    A = Alloc(cx)
    V = A.v
    p, e = Sym("self"), Sym("entity")
    mem = {p: A.val}
    val = lambda X: X.simp(X.deref(p))
    K = lambda n: EA + "::" + n
    if cx.has(K("allocate")):
        ex = cx.run(K("allocate"), [p], mem, axioms=[A.axiom], assume=A.assume)
        alloc_spec(cx, A, ex, p, val, "allocate")
    if cx.has(K("allocate_atomic")):
        ex = cx.run(K("allocate_atomic"), [p], mem, axioms=[A.axiom], assume=A.assume)
        atomic_spec(cx, A, ex, p, (), "allocate_atomic")
    if cx.has(K("recycle")):
        ex = cx.run(K("recycle"), [p, e], mem, axioms=[A.axiom], assume=A.assume + [lt(V.idx(e), A.m), lt(Int(0), V.ver(e)), le(V.ver(e), Int(U32))])
        cx.each(ex, lambda X: wrap(cx, X, lambda Y: recycle_spec(cx, A, Y, A.parts(Y, val(Y)), e, "recycle")))
        cx.each(ex, lambda X: wrap(cx, X, lambda Y: recycle_entry(cx, A, Y, A.parts(Y, val(Y)), e, "recycle")))
    if cx.has(K("maintain")):
        ex = cx.run(K("maintain"), [p], mem, axioms=[A.axiom], assume=A.assume)
        cx.each(ex, lambda X: wrap(cx, X, lambda Y: drained(cx, A, Y, A.parts(Y, val(Y)), "maintain")))
    if cx.has(K("reset")):
        ex = cx.run(K("reset"), [p], mem, axioms=[A.axiom], assume=A.assume)
        cx.each(ex, lambda X: wrap(cx, X, lambda Y: reset_spec(cx, A, Y, A.parts(Y, val(Y)), "reset")))


def reset_spec(cx, A, X, d, label):
    P = "C01 C02 C25"
    X.same(label + " leaves no pending reused handle", d["a"], Int(0), P)
    X.same(label + " leaves no pending index", d["m"], d["n"], P)
    X.require(label + " forgets the queued handles with the index counter", disj(eq(d["rl"], Int(0)), eq(d["n"], A.n)), P)
    X.require(label + " keeps the counter in range", le(d["n"], Int(N32)), P)


def ess_bounds(cx, ptr_ok=None):
    """Entity set operations as terms over the abstract set; they are verified on their own."""

    def op(name):
        def f(c):
            pl = c.deref(0)
            s = c.I.simp(c.st, c.read(pl))
            args = list(c.args[1:])
            c.event("ess", op=name, s=s, args=args, place=pl)
            c.write(pl, T("app", "ess_" + name, s, *args))
            if name == "remove":
                return T("app", "ess_had", s, *args)
            return UNIT

        return f

    out = {}
    for n in ("insert", "remove", "clear"):
        k = ESS + "::" + n
        if not cx.has(k):
            raise Skip("anchor %s not found" % k)
        out[k] = op(n)
    return out


@rule("entity-storage", "C01 C02 C03 C05 C25")
def r_es(cx):
    A = Alloc(cx)
    V = A.v
    S0 = Sym("entities")
    p, e = Sym("self"), Sym("entity")
    mem = {p: cx.mk(ES, allocator=A.val, entities=S0)}
    B = ess_bounds(cx)
    K = lambda n: ES + "::" + n
    sub_ = lambda X: X.simp(cx.get(X.simp(X.deref(p)), ES, "allocator"))
    ents = lambda X: X.simp(cx.get(X.simp(X.deref(p)), ES, "entities"))
    pre = (("f",) + cx.fi(ES, "allocator"),)
    # create
    if cx.has(K("create")):
        ex = cx.run(K("create"), [p], mem, axioms=[A.axiom], assume=A.assume, bounds=B)
        alloc_spec(cx, A, ex, p, sub_, "create", panics=True)

        def f(X):
            X.same("create makes exactly the returned handle alive", ents(X), T("app", "ess_insert", S0, X.simp(X.ret)), "C01 C02 C18")

        cx.each(ex, lambda X: wrap(cx, X, f, lambda Y: True))
    if cx.has(K("create_atomic")):
        ex = cx.run(K("create_atomic"), [p], mem, axioms=[A.axiom], assume=A.assume, bounds=B)
        atomic_spec(cx, A, ex, p, pre, "create_atomic", panics=True)
        cx.each(ex, lambda X: wrap(cx, X, lambda Y: Y.same("create_atomic makes nothing alive yet", ents(Y), S0, "C02 C25"), lambda Y: True))
    if cx.has(K("maintain")):
        ex = cx.run(K("maintain"), [p], mem, axioms=[A.axiom], assume=A.assume, bounds=B)

        def g(X):
            yield_spec(cx, A, X, "maintain", lambda ev: ev.kind == "ess" and ev.op == "insert", lambda ev: ev.args[0])
            bad = [ev for ev in list(flat(X.st.ev)) + list(in_steps(X.st.ev)) if ev.kind == "ess" and ev.op != "insert"]
            X.emit("maintain removes no entity", not bad, "C02 C25", "calls %s" % [b.op for b in bad])

        cx.each(ex, lambda X: wrap(cx, X, g))
        cx.each(ex, lambda X: wrap(cx, X, lambda Y: drained(cx, A, Y, A.parts(Y, sub_(Y)), "maintain")))
    if cx.has(K("remove")):
        ex = cx.run(K("remove"), [p, e], mem, axioms=[A.axiom], assume=A.assume + [lt(V.idx(e), A.m), lt(Int(0), V.ver(e)), le(V.ver(e), Int(U32))], bounds=B)
        had = T("app", "ess_had", S0, e)

        def h(X):
            ok = X.ask(T("eq", had, TRUE) if False else eq(had, TRUE))
            X.require("destroying reports whether the entity was alive", eqt(X, X.ret, ok), "C02 C03")
            d = A.parts(X, sub_(X))
            X.same("destroying removes exactly the given handle", ents(X), T("app", "ess_remove", S0, e), "C02 C03")
            if ok:
                recycle_spec(cx, A, X, d, e, "destroying")
            else:
                X.require("destroying a handle that is not alive changes nothing",
                          conj(eq(d["R"], A.R), eq(d["rl"], A.rl), eq(d["a"], A.a), eq(d["n"], A.n), eq(d["m"], A.m)), "C01 C02 C03")

        def h2(X):
            if X.ask(eq(had, TRUE)):
                recycle_entry(cx, A, X, A.parts(X, sub_(X)), e, "destroying")

        cx.each(ex, lambda X: wrap(cx, X, h))
        cx.each(ex, lambda X: wrap(cx, X, h2))
    if cx.has(K("clear")):
        ex = cx.run(K("clear"), [p], mem, axioms=[A.axiom], assume=A.assume, bounds=B)

        def k(X):
            X.require("clear removes all entities", cleared(X, ents(X), S0), "C02 C05")
            d = A.parts(X, sub_(X))
            drained(cx, A, X, d, "clear")

        cx.each(ex, lambda X: wrap(cx, X, k))
    if cx.has(K("reset")):
        ex = cx.run(K("reset"), [p], mem, axioms=[A.axiom], assume=A.assume, bounds=B)

        def l(X):
            X.require("reset removes all entities", cleared(X, ents(X), S0), "C02 C05 C01")
            reset_spec(cx, A, X, A.parts(X, sub_(X)), "reset")

        cx.each(ex, lambda X: wrap(cx, X, l))
    # reads
    E = Ess(cx)
    mem2 = {p: cx.mk(ES, allocator=A.val, entities=E.val)}
    q = Sym("q")

    def contains(X):
        X.same("contains tells whether the entity is alive", X.ret, Bool(V.contains(X, E.S, E.n, q)), "C02 C03")

    def length(X):
        X.same("len is the number of entities", X.ret, E.L, "C02 C18")

    def empty(X):
        X.require("is_empty means no entities", eqt(X, X.ret, X.ask(eq(E.L, Int(0)))), "C02")

    def as_slice(X):
        r = X.simp(X.ret)
        ok = r.op == "slice" and X.holds(conj(eq(r.args[1], Int(0)), eq(r.args[2], E.L)))
        if ok:
            rr, pp = r.args[0].args
            ok = X.I.get_path(X.st, X.I.root_val(X.st, rr), pp) is E.E
        X.emit("the entity list is exactly the alive entities", bool(ok), "C02 C10 C11 C18", "returns " + show(r))

    for name, f, args in (("contains", contains, [p, q]), ("len", length, [p]), ("is_empty", empty, [p]), ("as_slice", as_slice, [p])):
        if cx.has(K(name)):
            cx.each(cx.run(K(name), args, mem2, axioms=[E.axiom, A.axiom], assume=E.assume + A.assume), lambda X: wrap(cx, X, f))


def eqt(X, r, b):
    """The boolean result r equals the python bool b."""
    r = X.simp(r)
    if r.op == "int":
        return Bool(bool(r.args[0]) == b)
    if is_cond(r):
        return Bool(X.ask(r) == b)
    return eq(r, Bool(b))


def cleared(X, v, S0):
    """v is the entity set after a clear, possibly preceded by other operations."""
    v = X.simp(v)
    if v.op == "agg":
        # a new set
        n = X.cx.get(v, ESS, "entities")
        slots = X.cx.get(X.simp(X.cx.get(v, ESS, "sparse")), SV, "slots")
        return conj(eq(fld(X.simp(n), 0, 0, 2), Int(0)), eq(fld(X.simp(slots), 0, 0, 2), Int(0)))
    return Bool(v.op == "app" and v.args[0] == "ess_clear")
