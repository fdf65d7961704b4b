"""Path facts: congruence classes of terms plus difference/linear bounds.

The domain answers True / False / None for a condition. It never searches: equality comes from
the congruence closure of assumed equalities, order from combining at most a few assumed linear
bounds.
"""
import itertools
from .terms import *

SIGNED = set()
VERSIONS = itertools.count(1)


class Contradiction(Exception):
    pass


class Facts:
    def __init__(self):
        self.parent = {}
        self.members = {}
        self.uses = {}      # rep -> list of application terms using it
        self.sig = {}       # signature -> term
        self.diseq = set()  # frozenset of two reps (terms, re-canonicalised lazily)
        self.lins = []      # list of (const, ((atom, coef), ...)) meaning <= 0
        self.linset = set()
        self.lits = {}      # condition term (non eq/le) -> bool
        self.disj = []      # pending disjunctions
        self.cond_axioms = []  # (guard, [conclusions])
        self.arrdef = {}    # array unknown of a finished loop -> its definition
        self.axioms = []    # callables(facts, term) invoked for new sel terms
        self.known = set()
        self.upper = {}     # atom -> upper bound (int)
        self.log = []       # assumed conditions, in order (for reports)
        self.bad = False
        self.satur = 0
        self.shallow = 0
        self.ver = 0
        self.gver = -1
        self.satver = None
        self.adj = None
        self.hard = None
        self.dists = None

    def copy(self):
        f = Facts.__new__(Facts)
        f.parent = dict(self.parent)
        f.members = {k: list(v) for k, v in self.members.items()}
        f.uses = {k: list(v) for k, v in self.uses.items()}
        f.sig = dict(self.sig)
        f.diseq = set(self.diseq)
        f.lins = list(self.lins)
        f.linset = set(self.linset)
        f.lits = dict(self.lits)
        f.disj = list(self.disj)
        f.cond_axioms = list(self.cond_axioms)
        f.axioms = self.axioms
        f.arrdef = self.arrdef
        f.known = set(self.known)
        f.upper = dict(self.upper)
        f.log = list(self.log)
        f.bad = self.bad
        f.satur = 0
        f.shallow = 0
        f.ver = self.ver
        f.gver = self.gver
        f.satver = self.satver
        f.adj = self.adj
        f.hard = self.hard
        f.dists = self.dists
        return f

    # ---- congruence closure ----
    def find(self, t):
        p = self.parent
        while True:
            q = p.get(t, t)
            if q is t:
                return t
            t = q

    def sigof(self, t):
        if t.op in ("sel", "fld", "app", "discr", "store", "ref", "slice", "op", "len"):
            return (t.op,) + tuple(self._canon_arg(a) for a in t.args)
        if t.op == "agg" and len(t.args) > 1:
            return (t.op,) + tuple(self._canon_arg(a) for a in t.args)
        return None

    def _canon_arg(self, a):
        if isinstance(a, Term):
            return self.find(a)
        if isinstance(a, tuple):
            return tuple(self._canon_arg(x) for x in a)
        return a

    def add_term(self, t):
        if t in self.known:
            return
        self.known.add(t)
        for a in t.args:
            self._add_sub(a)
        s = self.sigof(t)
        if s is not None:
            for a in s[1:]:
                self._use(a, t)
            o = self.sig.get(s)
            if o is not None:
                self.merge(t, o)
            else:
                self.sig[s] = t
        if t.op in ("sel", "app", "fld"):
            for ax in self.axioms:
                ax(self, t)

    def _add_sub(self, a):
        if isinstance(a, Term):
            self.add_term(a)
        elif isinstance(a, tuple):
            for x in a:
                self._add_sub(x)

    def _use(self, a, t):
        if isinstance(a, Term):
            self.uses.setdefault(a, []).append(t)
        elif isinstance(a, tuple):
            for x in a:
                self._use(x, t)

    def merge(self, a, b):
        work = [(a, b)]
        while work:
            a, b = work.pop()
            ra, rb = self.find(a), self.find(b)
            if ra is rb:
                continue
            # constants and aggregates become representatives
            rank = {"int": 0, "agg": 1}
            ka, kb = rank.get(ra.op, 2), rank.get(rb.op, 2)
            if ka == 0 and kb == 0:
                self.bad = True
                return
            if ka == 1 and kb == 1:
                if ra.args[0] != rb.args[0] or len(ra.args) != len(rb.args):
                    self.bad = True
                    return
                for x, y in zip(ra.args[1:], rb.args[1:]):
                    work.append((x, y))
            if {ra.op, rb.op} == {"int", "agg"}:
                self.bad = True
                return
            if ka < kb or (ka == kb and ra.id < rb.id):
                ra, rb = rb, ra
            # rb is the new representative
            self.parent[ra] = rb
            self.ver = next(VERSIONS)
            ms = self.members.pop(ra, None) or [ra]
            self.members.setdefault(rb, [rb]).extend(ms)
            # integer equality
            if self._inty(ra) and self._inty(rb):
                d = sub(ra, rb)
                self._add_lin(d)
                self._add_lin(mulc(d, -1))
            # constructor knowledge: fields and discriminant of the unknown
            if rb.op == "agg":
                for t in list(self.uses.get(ra, [])):
                    if t.op == "discr":
                        work.append((t, Int(rb.args[0])))
                    elif t.op == "fld" and t.args[1] == rb.args[0] and t.args[2] + 1 < len(rb.args):
                        work.append((t, rb.args[1 + t.args[2]]))
            us = self.uses.pop(ra, [])
            for t in us:
                s = self.sigof(t)
                if s is None:
                    continue
                o = self.sig.get(s)
                if o is not None and self.find(o) is not self.find(t):
                    work.append((t, o))
                self.sig[s] = t
            if us:
                self.uses.setdefault(rb, []).extend(us)
        for d in self.diseq:
            x, y = tuple(d)
            if self.find(x) is self.find(y):
                self.bad = True
                return

    def _inty(self, t):
        return t.op not in ("agg", "ref", "slice", "store", "arr")

    # ---- linear bounds ----
    def _add_lin(self, t):
        """t <= 0"""
        c, d = lin_parts(t)
        k = (c, tuple(sorted(d.items(), key=lambda x: x[0].id)))
        if k in self.linset:
            return
        self.linset.add(k)
        self.lins.append(k)
        self.ver = next(VERSIONS)

    def _canon_lin(self, t):
        c, d = lin_parts(t)
        out = {}
        for a, k in d.items():
            r = self.find(a)
            if r.op == "int":
                c += k * r.args[0]
            else:
                if r.op == "lin":
                    c2, d2 = lin_parts(r)
                    c += k * c2
                    for x, y in d2.items():
                        out[x] = out.get(x, 0) + k * y
                else:
                    out[r] = out.get(r, 0) + k
        return c, {a: k for a, k in out.items() if k}

    def _graph(self):
        """Difference-bound edges (y -> x weight w: x - y <= w) and the remaining bounds."""
        if self.gver == self.ver:
            return
        self.gver = self.ver
        adj = {}
        hard = []
        seen = set()
        for fc, fd in self.lins:
            c, d = self._canon_lin(mk_lin(fc, dict(fd)))
            if not d:
                continue
            k = (c, tuple(sorted(((a.id, k) for a, k in d.items()))))
            if k in seen:
                continue
            seen.add(k)
            it = list(d.items())
            if len(it) == 1 and abs(it[0][1]) == 1:
                a, k = it[0]
                if k == 1:
                    adj.setdefault(None, []).append((a, -c))
                else:
                    adj.setdefault(a, []).append((None, -c))
            elif len(it) == 2 and {it[0][1], it[1][1]} == {1, -1}:
                x = it[0][0] if it[0][1] == 1 else it[1][0]
                y = it[1][0] if it[0][1] == 1 else it[0][0]
                adj.setdefault(y, []).append((x, -c))
            else:
                hard.append((c, d))
        self.adj = adj
        self.hard = hard
        self.dists = {}
        # integers known to differ: a <= b becomes a < b
        for _ in range(2):
            more = False
            for p in self.diseq:
                x, y = tuple(p)
                if not (self._inty(x) and self._inty(y)):
                    continue
                df = sub(x, y)
                if df.op == "int":
                    continue
                for t in (df, mulc(df, -1)):
                    c, d = self._canon_lin(t)
                    if not d or self._prove(c + 1, d, 1) or not self._prove(c, d, 1):
                        continue
                    it = list(d.items())
                    c += 1
                    if len(it) == 1 and abs(it[0][1]) == 1:
                        a, k = it[0]
                        if k == 1:
                            adj.setdefault(None, []).append((a, -c))
                        else:
                            adj.setdefault(a, []).append((None, -c))
                    elif len(it) == 2 and {it[0][1], it[1][1]} == {1, -1}:
                        a = it[0][0] if it[0][1] == 1 else it[1][0]
                        b = it[1][0] if it[0][1] == 1 else it[0][0]
                        adj.setdefault(b, []).append((a, -c))
                    else:
                        hard.append((c, d))
                    self.dists = {}
                    more = True
            if not more:
                break

    def _dist(self, src):
        r = self.dists.get(src)
        if r is not None:
            return r
        INF = None
        d = {src: 0}
        work = [src]
        adj = self.adj
        n = 0
        while work:
            n += 1
            if n > 4000:
                break
            u = work.pop(0)
            du = d[u]
            es = adj.get(u, ())
            for v, w in es:
                nv = du + w
                o = d.get(v)
                if o is None or nv < o:
                    d[v] = nv
                    work.append(v)
            # unsigned: 0 - u <= 0
            if u is not None and u not in SIGNED:
                o = d.get(None)
                if o is None or du < o:
                    d[None] = du
                    work.append(None)
        self.dists[src] = d
        return d

    def _ub(self, a):
        """Best known constant upper bound of an atom."""
        r = self._dist(None).get(a)
        u = self.bound(a)
        if u is not None and (r is None or u < r):
            r = u
        return r

    def prove_le0(self, t):
        """True if t <= 0 follows from the known bounds."""
        c, d = self._canon_lin(t)
        if not d:
            return c <= 0
        self._graph()
        return self._prove(c, d, 3)

    def _prove(self, c, d, depth):
        pos = [(a, k) for a, k in d.items() if k > 0]
        negs = [(a, k) for a, k in d.items() if k < 0]
        if not pos and not negs:
            return c <= 0
        # pair positive with negative atoms greedily by difference bounds
        if len(d) <= 4 and sum(k for _, k in pos) <= 4 and sum(-k for _, k in negs) <= 4:
            P = [a for a, k in pos for _ in range(k)]
            N = [a for a, k in negs for _ in range(-k)]
            if self._pair(c, P, N):
                return True
        if depth == 0:
            return False
        for fc, fd in self.hard:
            use = False
            for a, k in fd.items():
                g = d.get(a, 0)
                if g and (g > 0) == (k > 0):
                    use = True
                    break
            if not use:
                continue
            nd = dict(d)
            for a, k in fd.items():
                nd[a] = nd.get(a, 0) - k
                if nd[a] == 0:
                    del nd[a]
            if len(nd) > len(d) + 1:
                continue
            if self._prove(c - fc, nd, depth - 1):
                return True
        return False

    def _pair(self, c, P, N):
        if not P:
            # remaining negative atoms: use lower bounds
            for b in N:
                w = self._dist(b).get(None)
                if w is None:
                    if b in SIGNED:
                        return False
                    w = 0
                c += w
            return c <= 0
        a = P[0]
        rest = P[1:]
        done = set()
        for i, b in enumerate(N):
            if b in done:
                continue
            done.add(b)
            w = self._dist(b).get(a)
            u = self.bound(a)
            if u is not None:
                lo = self._dist(b).get(None)
                if lo is None and b not in SIGNED:
                    lo = 0
                if lo is not None and (w is None or u + lo < w):
                    w = u + lo
            if w is not None and self._pair(c + w, rest, N[:i] + N[i + 1:]):
                return True
        u = self._ub(a)
        if u is not None:
            return self._pair(c + u, rest, N)
        return False

    def bound(self, a):
        u = self.upper.get(a)
        if u is not None:
            return u
        for m in self.members.get(self.find(a), ()):
            u = self.upper.get(m)
            if u is not None:
                return u
        if a.op == "fld" or a.op == "sel":
            return None
        return None

    # ---- queries ----
    def decide(self, c):
        if c.op == "int":
            return c.args[0] != 0
        if c.op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == "and":
            res = True
            for x in c.args:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            return self._known(c) if res is None else res
        if c.op == "or":
            res = False
            for x in c.args:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    res = None
            return self._known(c) if res is None else res
        if c.op == "le":
            self.add_term(c.args[0])
            if c.args[0].op == "lin":
                for a, _ in c.args[0].args[1]:
                    self.add_term(a)
            self.saturate()
            if self.prove_le0(c.args[0]):
                return True
            if self.prove_le0(sub(Int(1), c.args[0])):
                return False
            return None
        if c.op == "eq":
            return self.decide_eq(c.args[0], c.args[1])
        # opaque boolean value
        self.add_term(c)
        r = self.find(c)
        if r.op == "int":
            return r.args[0] != 0
        return None

    def decide_eq(self, a, b, deep=3):
        if a is b:
            return True
        self.add_term(a)
        self.add_term(b)
        self.saturate()
        ra, rb = self.find(a), self.find(b)
        if ra is rb:
            return True
        if ra.op == "int" and rb.op == "int":
            return False
        if ra.op == "agg" and rb.op == "agg":
            if ra.args[0] != rb.args[0]:
                return False
            if len(ra.args) == len(rb.args):
                res = True
                for x, y in zip(ra.args[1:], rb.args[1:]):
                    r = self.decide_eq(x, y, deep)
                    if r is False:
                        return False
                    if r is None:
                        res = None
                return res
        for d in self.diseq:
            x, y = tuple(d)
            x, y = self.find(x), self.find(y)
            if (x is ra and y is rb) or (x is rb and y is ra):
                return False
        for x, y in ((ra, b), (rb, a)):
            if x.op == "agg":
                # discriminant of the other side
                r = self.find(T("discr", y)) if T("discr", y) in self.known else None
                if r is not None and r.op == "int" and r.args[0] != x.args[0]:
                    return False
                # field-wise
                if r is not None and r.op == "int" and r.args[0] == x.args[0] or struct_n.get(y):
                    res = True
                    for i, fv in enumerate(x.args[1:]):
                        q = self.decide_eq(T("fld", self.find(y) if self.find(y).op != "agg" else y, x.args[0], i), fv, deep - 1) if deep > 0 else None
                        if q is not True:
                            res = q if q is False else (None if res is not False else False)
                            if q is False:
                                return False
                    if res is True:
                        return True
        if self._inty(ra) and self._inty(rb) and ra.op not in ("store",):
            d = sub(a, b)
            if d.op != "int":
                le0 = self.prove_le0(d)
                ge0 = self.prove_le0(mulc(d, -1))
                if le0 and ge0:
                    return True
                if self.prove_le0(add(d, Int(1))) or self.prove_le0(add(mulc(d, -1), Int(1))):
                    return False
            else:
                return d.args[0] == 0
        # structural congruence modulo provable index equality
        if deep > 0 and a.op == b.op and a.op in ("sel", "fld", "app", "ref", "slice", "discr") and len(a.args) == len(b.args):
            if all(self._deq_arg(x, y, deep - 1) for x, y in zip(a.args, b.args)):
                self.merge(a, b)
                return True
        # injectivity by trial
        if deep >= 3 and not self.shallow:
            if self.trial(T("eq", a, b) if a.id < b.id else T("eq", b, a)):
                return False
        return None

    def trial(self, c):
        """True if assuming c is contradictory."""
        g = self.copy()
        g.satur = 1
        g.shallow = 1
        try:
            g._assume(c, True)
            g.saturate(force=True)
            if g.bad:
                return True
            return g.inconsistent()
        except Contradiction:
            return True

    def inconsistent(self):
        for c, d in self.lins:
            t = mk_lin(c, dict(d))
            cc, dd = self._canon_lin(t)
            if not dd:
                if cc > 0:
                    return True
                continue
            if self.prove_le0(sub(Int(1), t)):
                return True
        for d in self.diseq:
            x, y = tuple(d)
            if self.find(x) is self.find(y):
                return True
            if self._inty(x) and self._inty(y) and x.op != "agg" and y.op != "agg":
                df = sub(x, y)
                if df.op != "int" and self.prove_le0(df) and self.prove_le0(mulc(df, -1)):
                    return True
        return False

    def _deq_arg(self, x, y, deep):
        if isinstance(x, Term) and isinstance(y, Term):
            return self.decide_eq(x, y, min(deep, 2)) is True
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self._deq_arg(p, q, deep) for p, q in zip(x, y))
        return x == y

    # ---- assumptions ----
    def _known(self, c):
        for d, val in self.disj:
            if d is c:
                return val
        return None

    def assume(self, c, val=True):
        """Adds a fact; returns False if it contradicts the known facts."""
        r = self.decide(c)
        if r is not None:
            return r == val
        self.log.append(c if val else neg(c))
        try:
            self._assume(c, val)
            self.saturate(force=True)
        except Contradiction:
            return False
        if self.bad:
            return False
        return True

    def _assume(self, c, val):
        if c.op == "int":
            if (c.args[0] != 0) != val:
                raise Contradiction()
            return
        if c.op == "not":
            return self._assume(c.args[0], not val)
        if c.op in ("and", "or"):
            if (c.op == "and") == val:
                for x in c.args:
                    self._assume(x, val)
            else:
                self.disj.append((c, val))
            return
        if c.op == "le":
            self.add_term(c.args[0])
            for a in lin_parts(c.args[0])[1]:
                self.add_term(a)
            t = c.args[0] if val else sub(Int(1), c.args[0])
            self._add_lin(t)
            if self.prove_le0(mulc(t, -1)):
                # both bounds: an equality
                k, d = lin_parts(t)
                for a, q in d.items():
                    if abs(q) == 1:
                        rest = mk_lin(k, {x: y for x, y in d.items() if x is not a})
                        o = rest if q == -1 else mulc(rest, -1)
                        if not any(y < 0 for y in lin_parts(o)[1].values()) or o.op == "int":
                            self.add_term(o)
                            self.merge(a, o)
            return
        if c.op == "eq":
            a, b = c.args
            self.add_term(a)
            self.add_term(b)
            if val:
                self.merge(a, b)
                if self._inty(a) and self._inty(b):
                    d = sub(a, b)
                    if d.op != "int":
                        self._add_lin(d)
                        self._add_lin(mulc(d, -1))
                    elif d.args[0] != 0:
                        raise Contradiction()
            else:
                ra, rb = self.find(a), self.find(b)
                if ra is rb:
                    raise Contradiction()
                self.diseq.add(frozenset((a, b)))
                self.ver = next(VERSIONS)
            return
        self.add_term(c)
        self.merge(c, Bool(val))

    def saturate(self, force=False):
        if self.satur == 2:
            return
        if not self.cond_axioms and not self.disj:
            return
        sv = (self.ver, len(self.cond_axioms), len(self.disj), len(self.diseq))
        if sv == self.satver:
            return
        old = self.satur
        self.satur = 2
        self.shallow += 1
        try:
            changed = True
            n = 0
            while changed and n < 20 and not self.bad:
                changed = False
                n += 1
                cur = self.cond_axioms
                self.cond_axioms = []
                rest = []
                for g, concl in cur:
                    r = self.decide(g) if g is not TRUE else True
                    if r is True:
                        for x in concl() if callable(concl) else concl:
                            self._assume(x, True)
                        changed = True
                    elif r is None:
                        rest.append((g, concl))
                self.cond_axioms = rest + self.cond_axioms
                keep = []
                pend, self.disj = self.disj, []
                for c, val in pend:
                    r = self.decide(c)
                    if r is None:
                        # unit propagation
                        want = val  # and-False: some arg false; or-True: some arg true
                        un = []
                        sat = False
                        for x in c.args:
                            q = self.decide(x)
                            if q is None:
                                un.append(x)
                            elif (c.op == "and" and q is False) or (c.op == "or" and q is True):
                                sat = True
                        if sat:
                            changed = True
                            continue
                        if len(un) == 1:
                            self._assume(un[0], c.op == "or")
                            changed = True
                            continue
                        keep.append((c, val))
                    elif r != val:
                        raise Contradiction()
                    else:
                        changed = True
                self.disj = keep + self.disj
            self.satver = (self.ver, len(self.cond_axioms), len(self.disj), len(self.diseq))
        finally:
            self.satur = old
            self.shallow -= 1

    def add_universals(self, us):
        """us: [(array, range of BOUND, conclusion about element BOUND)]"""
        def ax(f, t):
            if t.op == "sel":
                for a, rng, body in us:
                    if t.args[0] is a:
                        m = {BOUND: t.args[1]}
                        f.add_axiom(subst(rng, m), lambda m=m, body=body: [subst(body, m)])

        self.axioms = list(self.axioms) + [ax]
        for t in list(self.known):
            if t.op == "sel":
                ax(self, t)

    def add_axiom(self, guard, concl):
        self.cond_axioms.append((guard, concl))
