"""Group layouts: which collections of groups are accepted, and how they are stored."""
from .terms import *
from .core import rule, Skip, Exit
from .interp import Fork, ForkVal, PathEnd
from .adt import *
from .seq import loop_cells
from .spec_sparse import wrap
from .spec_group import step_exit, unchecked

FP = "C09"


def proves(f, c):
    return f.decide(c) is True or f.trial(neg(c))


def cases(f, *alts):
    """Copies of the facts for each alternative that is possible."""
    out = []
    for a in alts:
        g = f.copy()
        if g.assume(a, True):
            out.append(g)
    return out


class Member:
    """for all j in lo..hi: contains(set, base[j]) is pol"""

    def __init__(self, base, lo, hi, pol, sbase, slen):
        self.base, self.lo, self.hi, self.pol, self.sbase, self.slen = base, lo, hi, pol, sbase, slen


def atoms(f):
    """Known (base, index, polarity, set, length) facts."""
    for t in list(f.known):
        if t.op == "app" and t.args[0] == "contains":
            x = t.args[3]
            for y in [x] + [y for y in f.known if y.op == "sel" and y is not x and f.find(y) is f.find(x)]:
                if y.op == "sel":
                    r = f.decide(t)
                    if r is not None:
                        yield y.args[0], y.args[1], r, t.args[1], t.args[2]


class Fam:
    def __init__(self, cx):
        self.cx = cx
        self.C, self.m, self.A, self.na = Sym("C"), Sym("m"), Sym("A"), Sym("na")
        self.K, self.n = Sym("K"), Sym("n")
        self.val = cx.mk(GF, components=agg(0, self.m, self.C), arities=agg(0, self.na, self.A))
        self.assume = [le(Int(1), self.na), le(Int(2), self.n), le(self.n, Int(16)), le(Int(2), self.m), le(self.m, Int(16)), le(self.na, Int(15))]

    def axiom(self, f, t):
        """Arities increase strictly, from at least 2 to the number of components."""
        if t.op == "sel" and t.args[0] is self.A:
            i = t.args[1]
            f.add_axiom(lt(i, self.na), lambda: [le(Int(2), t), le(t, self.m)])
            f.add_axiom(eq(i, sub(self.na, Int(1))), lambda: [eq(t, self.m)])
            f.add_axiom(lt(i, sub(self.na, Int(1))), lambda: [lt(t, self.m)])
            for u in [u for u in f.known if u.op == "sel" and u is not t and u.args[0] is self.A]:
                f.add_axiom(lt(i, u.args[1]), lambda u=u: [lt(t, u)])
                f.add_axiom(lt(u.args[1], i), lambda u=u: [lt(u, t)])

    def previous(self, X, f, evs):
        """A cell that takes the arity of every step holds the previous arity."""
        for e in evs:
            if e.kind != "loop":
                continue
            rec = e.rec
            for s, (iv, d) in loop_cells(X, rec).items():
                if d != 1 or iv is not Int(0):
                    continue
                cur, last = T("sel", self.A, s), T("sel", self.A, sub(s, Int(1)))
                for cell, q in rec.cells.items():
                    if q is s:
                        continue
                    try:
                        i0 = X.I.read(rec.init, *cell)
                        bs = [X.I.read(b, *cell) for b in rec.backs]
                    except (Fork, ForkVal, PathEnd):
                        continue
                    if i0 is Int(0) and bs and all(v is cur or b.facts.decide(eq(v, cur)) is True for v, b in zip(bs, rec.backs) if v.op not in ("agg", "ref", "slice", "store")) \
                            and all(v.op not in ("agg", "ref", "slice", "store") for v in bs):
                        f.add_axiom(eq(s, Int(0)), lambda q=q: [eq(q, Int(0))])
                        f.add_axiom(le(Int(1), s), lambda q=q, last=last: [eq(q, last)])
                        f.add_term(last)
            self.previous(X, f, e.d.get("last", ()))

    # -- facts about all iterations of a loop
    def members(self, X, evs):
        """Member facts that hold after the events."""
        out = []
        for e in evs:
            if e.kind != "loop":
                continue
            # the step that left the loop
            out += self.members(X, e.d.get("last") or ())
            if not e.rec.backs:
                continue
            rec = e.rec
            cells = {s: iv for s, (iv, d) in loop_cells(X, rec).items() if d == 1}
            per = None
            for b in rec.backs:
                got = {}
                for base, i, pol, sb, sl in atoms(b.facts):
                    for s, iv in cells.items():
                        k = sub(i, s)
                        if k.op == "int":
                            got[(base, s, k.args[0], pol, sb, sl)] = iv
                per = got if per is None else {k: v for k, v in per.items() if k in got}
            for (base, s, k, pol, sb, sl), iv in (per or {}).items():
                if any(x in rec.cells.values() for x in subterms(base)) or any(x in rec.cells.values() for x in subterms(sb)):
                    continue
                out.append(Member(base, add(iv, Int(k)), add(s, Int(k)), pol, sb, sl))
            out += self.levels(X, e, cells)
        return out

    def levels(self, X, e_, cells):
        """Loop over the arities: every step covers the components between the previous arity and its own."""
        out = []
        rec = e_.rec
        for s, iv in cells.items():
            if iv is not Int(0):
                continue
            ok = small = True
            for b in rec.backs:
                ms = self.members(X, b.ev)
                self.previous(X, b.facts, [e_])
                b.facts.add_term(T("sel", self.A, s))
                small = small and proves(b.facts, lt(T("sel", self.A, s), self.n))
                for f in cases(b.facts, eq(s, Int(0)), le(Int(1), s)):
                    prev = Int(0) if proves(f, eq(s, Int(0))) else T("sel", self.A, sub(s, Int(1)))
                    f.add_term(prev)
                    if not any(q.base is self.C and q.pol and q.sbase is self.K and proves(f, conj(le(q.lo, prev), le(T("sel", self.A, s), q.hi))) for q in ms):
                        ok = False
            f = X.st.facts
            if s not in f.known and not any(x is s for t in f.known for x in (t,)):
                continue
            last = T("sel", self.A, sub(s, Int(1)))
            if X.ask(le(Int(1), s)):
                f.add_term(last)
                if small:
                    X.assume(lt(last, self.n))
                if ok:
                    out.append(Member(self.C, Int(0), last, True, self.K, self.n))
        return out

    def covers(self, X, ms, base, to, pol, sbase, slen):
        """for all j < to: contains(sbase[..slen], base[j]) is pol. slen: predicate on the length."""
        qs = [q for q in ms if q.base is base and q.pol == pol and q.sbase is sbase and slen(q.slen)]

        def reach(pos, qs):
            if X.holds(le(to, pos)):
                return True
            return any(reach(q.hi, [r for r in qs if r is not q]) for q in qs if X.holds(conj(le(q.lo, pos), lt(pos, q.hi))))

        return reach(Int(0), qs)

    def indexes(self, X):
        """Known positions of arities."""
        return [t for t in list(X.st.facts.known) if t.op == "sel" and t.args[0] is self.A and X.holds(conj(le(Int(0), t.args[1]), lt(t.args[1], self.na)))]


@rule("group-family", FP)
def r_family(cx):
    """A family takes exactly the groups nested with its own, and stores every group as a prefix of its components."""
    F = Fam(cx)
    fam, pk = Sym("fam"), Sym("pk")
    R = ("O", fam)
    pc = (("f",) + cx.fi(GF, "components"),)
    pa = (("f",) + cx.fi(GF, "arities"),)
    key = GF + "::try_add_group"
    ex = cx.run(key, [fam, T("slice", ref(("O", pk), ()), Int(0), F.n)], {fam: F.val, pk: F.K}, axioms=[F.axiom], assume=F.assume)

    def state(X, st, p):
        v = X.I.read(st, R, p)
        return X.simp(fld(v, 0, 0, 2)), X.simp(fld(v, 1, 0, 2))

    def panics(X):
        """Only groups that are neither disjoint from nor nested with the groups of the family are rejected."""
        f = X.st.facts
        F.previous(X, f, X.st.ev)
        at = list(atoms(f))
        common = any(pol and ((b is F.C and sb is F.K) or (b is F.K and sb is F.C)) for b, i, pol, sb, sl in at)
        if not common:
            return False
        for b, i, pol, sb, sl in at:
            if pol:
                continue
            for t in F.indexes(X):
                if b is F.C and sb is F.K and X.holds(conj(lt(i, t), le(t, F.n))):
                    return True
                if b is F.K and sb is F.C and X.holds(conj(le(F.n, t), le(t, sl))):
                    return True
        return False

    def post(X):
        unchecked(X, "C07")
        F.previous(X, X.st.facts, X.st.ev)
        ms = F.members(X, X.st.ev)
        yes = X.ask(X.simp(X.ret))
        (m1, c1), (n1, a1) = state(X, X.st, pc), state(X, X.st, pa)
        kept = a1 is F.A and n1 is F.na
        same = c1 is F.C and m1 is F.m
        if not yes:
            X.require("a group left to another family changes nothing", kept and same, FP)
            dis = F.covers(X, ms, F.C, F.m, False, F.K, lambda l: X.holds(le(F.n, l))) or F.covers(X, ms, F.K, F.n, False, F.C, lambda l: X.holds(le(F.m, l)))
            return X.emit("a family takes every group it has a type in common with", dis, FP, None if dis else "declined although a common type is possible")
        if kept:
            X.require("a group that exists already changes nothing", same, FP)
            ok = any(X.holds(eq(t, F.n)) and (F.covers(X, ms, F.C, t, True, F.K, lambda l: True) or F.covers(X, ms, F.K, F.n, True, F.C, lambda l: X.holds(le(l, t))))
                     for t in F.indexes(X))
            return X.emit("a group is only considered present if it is", ok, FP, None if ok else "taken for an existing group without comparing all types")
        ins = [e for e in X.st.ev if e.kind == "push" and e.place == (R, pa)]
        if len(ins) != 1 or not X.holds(eq(n1, add(F.na, Int(1)))):
            return X.fail("an accepted group adds one arity", "%d insertions" % len(ins), FP)
        X.same("the new arity is the size of the group", ins[0].v, F.n, FP)
        idx = ins[0].i
        prev = T("sel", F.A, sub(idx, Int(1)))
        first = X.ask(le(idx, Int(0)))
        if not first:
            X.st.facts.add_term(prev)
            X.require("a group is stored behind the smaller ones", lt(prev, F.n), FP)
            ok = F.covers(X, ms, F.C, prev, True, F.K, lambda l: X.holds(le(F.n, l)))
            X.emit("a group contains all smaller groups of its family", ok, FP, None if ok else "types of the smaller groups are not compared")
        if X.ask(le(F.na, idx)):
            # the largest group so far
            return append(X)
        cur = T("sel", F.A, idx)
        X.st.facts.add_term(cur)
        X.require("a group is stored before the larger ones", lt(F.n, cur), FP)
        ok = F.covers(X, ms, F.K, F.n, True, F.C, lambda l: X.holds(le(l, cur)))
        X.emit("a group is contained in all larger groups of its family", ok, FP, None if ok else "types of the group are not looked up in the next larger group")
        sorts = [e for e in X.st.ev if e.kind == "sortkey" and e.place == (R, pc + (("f", 1, 2),))]
        if len(sorts) != 1:
            if sorts or not same:
                return X.undecided("components of a family", "components are rearranged in an unrecognised way", FP)
            return X.fail("the types of a group are moved to the front", "the components of the family are not rearranged", FP)
        s = sorts[0]
        if not (c1.op == "app" and c1.args[0] == "keysorted" and c1.args[1] is F.C):
            return X.undecided("components of a family", "components are %s" % show(c1), FP)
        X.same("no component of the family is lost", m1, F.m, FP)
        X.require("rearranging starts within the smaller groups", le(s.lo, Int(0) if first else prev), FP)
        end = add(s.lo, s.n)
        X.require("rearranging covers the next larger group", conj(le(cur, end), le(end, F.m)), FP)
        k = s.key
        inside = T("app", "contains", F.K, F.n, s.elem)
        want = neg(inside)
        if k is not want and k is not inside:
            return X.undecided("components of a family", "sort key %s" % show(k), FP)
        X.require("the types of a group are moved to the front", k is want, FP)
        X.require("rearranging keeps the prefixes of other groups", s.stable or (first and X.holds(le(end, cur))), FP)

    def append(X):
        m1, c1 = state(X, X.st, pc)
        loops = [e.rec for e in X.st.ev if e.kind == "loop" and any(v.kind == "push" and v.place == (R, pc) for b in e.rec.backs for v in b.ev)]
        tops = [e for e in X.st.ev if e.kind == "push" and e.place == (R, pc)]
        if len(loops) != 1 or tops:
            if not loops and not tops and c1 is F.C:
                return X.fail("the new types of a group are added to the family", "no component is added", FP)
            return X.undecided("components of a family", "components are added in an unrecognised way", FP)
        rec = loops[0]
        cells = loop_cells(X, rec)
        s = next((s for s, (iv, d) in cells.items() if d == 1 and iv is Int(0) and X.holds(eq(s, F.n))), None)
        if s is None:
            if any(e.kind == "loop" for b in rec.backs for e in b.ev):
                return X.undecided("components of a family", "the types are picked by a loop of their own", FP)
            return X.fail("all types of a group are considered for addition", "the loop over the types does not treat all of them", FP)
        m0, c0 = state(X, rec.init, pc)
        X.require("types are added behind those of the family", c0 is F.C and m0 is F.m, FP)
        hv = X.I.read(rec.head, R, pc)
        hm, hc = fld(hv, 0, 0, 2), fld(hv, 1, 0, 2)

        def step(Y):
            ps = [e for e in Y.st.ev if e.kind == "push"]
            x = T("sel", F.K, s)
            known = [pol for b, i, pol, sb, sl in atoms(Y.st.facts) if b is F.K and Y.holds(eq(i, s)) and sb is hc and sl is hm]
            old = [pol for b, i, pol, sb, sl in atoms(Y.st.facts) if b is F.K and Y.holds(eq(i, s)) and sb is F.C and sl is F.m]
            if not ps:
                return Y.emit("a type of the group is left out only if the family has it", True in known or True in old, FP,
                              None if True in known or True in old else "left out without looking it up")
            if len(ps) != 1 or ps[0].place != (R, pc):
                return Y.fail("a type is added once", "%d additions" % len(ps), FP)
            Y.same("the added type is the missing one", ps[0].v, x, FP)
            Y.emit("a type is added only if the family lacks it", False in known or False in old, FP,
                   None if False in known or False in old else "added without looking it up")

        for b in rec.backs:
            cx.each([step_exit(X, b)], step)

    cx.each(cx.returns(ex, allow_panic=panics, panic_props=FP, unreachable_props="C07"), lambda X: post(X))


GHOST = ("O", Sym("families_taken"))


@rule("group-layout", FP + " C24")
def r_layout(cx):
    """Every group goes to the single family that takes it, to a new family if there is none; two takers and excessive sizes panic."""
    lay, pk = Sym("layout"), Sym("pk")
    Fs, nf, Ks, n = Sym("fams"), Sym("nf"), Sym("Ks"), Sym("n")
    val = cx.mk(GL, families=agg(0, nf, Fs))
    R = ("O", lay)
    pf = (("f",) + cx.fi(GL, "families"),)

    def take(c):
        """Boundary: a family either takes the group or not; the number of takers is counted."""
        r = T("app", "took", c.args[0])
        c.st.facts.add_term(r)
        pl = c.deref(0)
        c.event("try", place=pl, comps=c.I.simp(c.st, c.args[1]), value=arg_value(c, 1))
        v = c.ask(eq(r, Int(1)))
        c.I.write(c.st, GHOST, (), add(c.I.read(c.st, GHOST, ()), Int(1 if v else 0)))
        return TRUE if v else FALSE

    def arg_value(c, i):
        """(length, buffer, start) of a slice argument."""
        v = c.I.simp(c.st, c.args[i])
        if v.op != "slice":
            return None
        p = v.args[0]
        b = c.I.read(c.st, *p.args) if p.op == "ref" else c.I.root_val(c.st, ("O", p))
        return v.args[2], b, v.args[1]

    ex = cx.run(GL + "::add_group_dyn", [lay, T("slice", ref(("O", pk), ()), Int(0), n)], {lay: val, pk: Ks, GHOST[1]: Int(0)},
                assume=[le(nf, Int(64))], bounds={GF + "::try_add_group": take})
    srt = T("app", "sorted", Ks, n)
    un, ub = T("app", "deduplen", srt, n), T("app", "dedup", srt, n)

    def taken(X):
        return X.simp(X.I.read(X.st, GHOST, ()))

    def panics(X):
        return X.holds(lt(Int(16), un)) or X.holds(le(Int(2), taken(X)))

    def state(X, st):
        v = X.I.read(st, R, pf)
        return X.simp(fld(v, 0, 0, 2)), X.simp(fld(v, 1, 0, 2))

    def tries(evs):
        return [e for e in evs if e.kind == "try"]

    def distinct(b, l):
        return b is ub and l is un

    def post(X):
        unchecked(X, "C07")
        X.st.facts.add_term(un)
        k, fs = state(X, X.st)
        news = [e for e in X.st.ev if e.kind == "push" and e.place == (R, pf)]
        loops = [e.rec for e in X.st.ev if e.kind == "loop" and any(tries(b.ev) for b in e.rec.backs)]
        if X.ask(le(un, Int(1))):
            X.require("groups of fewer than two types change nothing", k is nf and fs is Fs and not loops and not tries(X.st.ev), FP)
            return
        X.require("groups of too many types are rejected", le(un, Int(16)), FP)
        if len(loops) != 1 or tries(X.st.ev):
            if not loops and not tries(X.st.ev):
                X.require("every family is asked", eq(nf, Int(0)), FP, "no family is asked")
            else:
                return X.undecided("families", "families are not asked in one loop")
        for rec in loops:
            cells = loop_cells(X, rec)
            s = next((s for s, (iv, d) in cells.items() if d == 1 and iv is Int(0) and X.holds(eq(s, nf))), None)
            if not X.require("every family is asked", s is not None, FP, "not all families are asked"):
                return

            def step(Y):
                ts = tries(Y.st.ev)
                if not Y.require("a family is asked once", len(ts) == 1, FP, "asked %d times" % len(ts)):
                    return
                p = ts[0].place
                ok = p[0] == R and p[1][-1][0] == "i" and p[1][: len(pf)] == pf and Y.holds(eq(p[1][-1][1], s))
                Y.emit("every family is asked in turn", ok, FP, None if ok else "asked %s" % show(ref(*p)))
                v = ts[0].value
                if v is None:
                    return Y.undecided("families", "types given to a family")
                Y.emit("families are asked for the distinct types of the group", distinct(v[1], v[0]) and v[2] is Int(0), FP, "asked for %s types of %s" % (show(v[0]), show(v[1])))

            for b in rec.backs:
                cx.each([step_exit(X, b)], step)
        g = taken(X)
        X.require("families never share types", lt(g, Int(2)), FP, "a group taken by several families is accepted")
        if X.ask(eq(g, Int(0))):
            if not X.require("a group taken by no family forms a new one", len(news) == 1, FP, "%d new families" % len(news)):
                return
            v = X.simp(news[0].v)
            comps, ars = cx.get(v, GF, "components"), cx.get(v, GF, "arities")
            X.emit("a new family consists of the types of its group", distinct(X.simp(fld(comps, 1, 0, 2)), X.simp(fld(comps, 0, 0, 2))), FP, "%s" % show(comps))
            X.same("a new family has one group", fld(ars, 0, 0, 2), Int(1), FP)
            X.same("the group of a new family has all of its types", X.sel(X.simp(fld(ars, 1, 0, 2)), Int(0)), un, FP)
            X.same("a new family is added to the others", k, add(nf, Int(1)), FP)
        else:
            X.require("a group taken by a family forms no new one", not news and X.holds(eq(k, nf)), FP, "%d new families" % len(news))

    cx.each(cx.returns(ex, allow_panic=panics, panic_props=FP, unreachable_props="C07"), post)
