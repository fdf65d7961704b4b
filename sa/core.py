"""Rules, obligations and reports."""
import json
import os
import time
import traceback
from .terms import *
from . import terms
from .facts import Facts, Contradiction
from .interp import Interp, Fork, ForkVal, PathEnd, Unsupported, TooBig, Call, Clock
from .models import MODELS
from .prog import norm_sig
from . import models_par

RULES = []
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "signatures.json")) as _f:
    SIGNATURES = json.load(_f)
RULE_LIMIT = 300.0  # seconds for a rule or a part of one
TOTAL_END = float("inf")  # set by check.py


class Rule:
    def __init__(self, rid, props, fn, tier="quick", part=None):
        self.rid = rid
        self.props = props
        self.fn = fn
        self.tier = tier
        self.part = part

    def weight(self):
        return 0 if self.part is None else 1


def rule(rid, props, tier="quick", parts=None):
    """Registers a rule. props: the properties whose obligations the rule can produce.
    parts: values of a second argument of the rule, analysed independently."""

    def deco(fn):
        for p in parts or (None,):
            f = fn if p is None else (lambda cx, p=p: fn(cx, p))
            RULES.append(Rule(rid, tuple(props.split()), f, tier, p))
        return fn

    return deco


class Skip(Exception):
    """The rule does not apply to this tree (anchor missing); recorded as undecided."""


class Infeasible(Exception):
    pass


class Ob:
    __slots__ = ("rule", "label", "props", "status", "detail", "fn", "where", "guards")

    def key(self):
        return "%s/%s@%s" % (self.rule, self.label, self.fn)


ALLOC_FAIL = ("handle_alloc_error",)


class Exit:
    """A terminal state of an analysed function, seen from a rule."""

    def __init__(self, cx, I, st, key, span):
        self.cx = cx
        self.I = I
        self.st = st
        self.key = key
        self.span = span
        self.props = cx.props

    @property
    def ret(self):
        return self.st.ret

    @property
    def kind(self):
        return self.st.kind

    def clone(self):
        return Exit(self.cx, self.I, self.st.copy(), self.key, self.span)

    # ---- values
    def simp(self, v):
        return self.I.simp(self.st, v)

    def deref(self, p):
        """Value the pointer p points to, in the final memory."""
        r, path = self.I.deref_root(self.st, self.simp(p), None)
        if path and path[-1][0] == "s":
            path = path[:-1]
        return self.I.read(self.st, r, path)

    def buf(self, p):
        """Whole buffer behind a raw pointer to its first element."""
        return self.I.root_val(self.st, ("O", self.simp(p)))

    def sel(self, arr, i):
        return self.I.select(self.st, arr, i)

    def fld(self, v, i, var=0, n=0):
        v = self.simp(v)
        while v.op == "ite":
            v = self.I.pick(self.st, v)
        return fld(v, i, var, n)

    def is_variant(self, v, k, n=2):
        """Forks on the variant of an enum value (returns bool)."""
        v = self.simp(v)
        while v.op == "ite":
            v = self.I.pick(self.st, v)
        if v.op == "agg":
            return v.args[0] == k
        d = T("discr", v)
        self.st.facts.upper[d] = n - 1
        return self.ask(eq(d, Int(k)))

    def ask(self, c):
        return self.I.ask(self.st, c)

    def assume(self, c, val=True):
        if not self.st.facts.assume(c, val):
            raise Infeasible()

    # ---- decisions
    def holds(self, c):
        r = self.st.facts.decide(c)
        if r is True:
            return True
        if c.op == "and":
            return all(self.holds(x) for x in c.args)
        if r is False and self.st.facts.inconsistent():
            return True
        if self.st.facts.trial(neg(c)):
            return True
        return self._split(c, 3)

    def _split(self, c, depth):
        if depth == 0:
            return False
        for d, val in self.st.facts.disj:
            alts = [(x, d.op == "or") for x in d.args]
            ok = True
            for x, want in alts:
                g = self.st.facts.copy()
                if not g.assume(x, want):
                    continue
                if g.decide(c) is True or g.trial(neg(c)):
                    continue
                ok = False
                break
            if ok:
                return True
        return False

    def require(self, label, c, props=None, detail=None):
        ok = self.holds(c) if isinstance(c, Term) else bool(c)
        self.emit(label, ok, props, None if ok else (detail or ("not established: " + show(c) if isinstance(c, Term) else "does not hold")))
        return ok

    def same(self, label, a, b, props=None):
        """a and b are the same value."""
        ok = self.holds(eq(a, b))
        self.emit(label, ok, props, None if ok else "%s differs from %s" % (show(a), show(b)))
        return ok

    def emit(self, label, ok, props=None, detail=None):
        o = Ob()
        o.rule = self.cx.rid
        o.label = label
        o.props = tuple(props.split()) if props else self.props
        o.status = "ok" if ok else ("undecided" if self.st.taint or self.cx.soft else "violation")
        o.detail = detail
        if self.st.taint and not ok:
            o.detail = (detail or "") + " (unmodelled: %s)" % ", ".join(map(str, self.st.taint[:3]))
        o.fn = self.key
        o.where = self.st.where[-1][1] if self.st.where else self.span
        o.guards = self.st.guards() if not ok else None
        self.cx.pending.append(o)

    def undecided(self, label, detail, props=None):
        self.emit(label, False, props, detail)
        self.cx.pending[-1].status = "undecided"

    def fail(self, label, detail, props=None):
        self.emit(label, False, props, detail)


class Cx:
    """Context of one rule run."""

    def __init__(self, P, run, r):
        self.P = P
        self.runner = run
        self.rid = r.rid
        self.props = r.props
        self.pending = []
        self.soft = False

    # ---- program access
    def has(self, key):
        return key in self.P.by_key

    def check_signatures(self, keys):
        """Contracts of private functions only mean something for the signature they were written for."""
        for k in keys:
            want = SIGNATURES.get(k)
            rs = self.P.by_key.get(k) if want else None
            if rs and norm_sig(rs[0]["sig"]) != want:
                raise Skip("signature of %s is %s, contract written for %s" % (k, norm_sig(rs[0]["sig"]), want))

    def root(self, key, idx=0):
        rs = self.P.by_key.get(key)
        if not rs or idx >= len(rs):
            raise Skip("anchor %s not found" % key)
        return rs[idx]

    def fields(self, adt):
        a = self.P.adts.get(adt)
        if a is None:
            raise Skip("type %s not found" % adt)
        return a["fields"]

    def fi(self, adt, name, ty=None):
        """(index, count) of a field by name, falling back to its type."""
        fs = self.fields(adt)
        for i, f in enumerate(fs):
            if f[1] == name:
                return i, len(fs)
        if ty is not None:
            c = [i for i, f in enumerate(fs) if f[2].replace(" ", "") == ty.replace(" ", "")]
            if len(c) == 1:
                return c[0], len(fs)
        raise Skip("field %s of %s not found" % (name, adt))

    def get(self, v, adt, name, ty=None):
        i, n = self.fi(adt, name, ty)
        return fld(v, i, 0, n)

    def mk(self, adt, **kw):
        fs = self.fields(adt)
        vals = [None] * len(fs)
        for k, v in kw.items():
            i, n = self.fi(adt, k)
            vals[i] = v
        for i, f in enumerate(fs):
            if vals[i] is None:
                vals[i] = Sym("%s.%s" % (adt.split("::")[-1], f[1]))
        return agg(0, *vals)

    # ---- running
    def run(self, key, args=None, mem=None, bounds=None, axioms=(), assume=(), setup=None, idx=0, watch=None,
            inst=None, hints=None, span=None, prep=None, limit=None):
        if inst is None:
            r = self.root(key, idx)
            inst, span = r["inst"], r["span"]
            self.check_signatures([key] + list(bounds or ()))
        I = Interp(self.P, MODELS, boundaries=bounds or {})
        if limit:
            I.max_states = limit
        I.axioms = list(axioms)
        I.watch = watch
        I.loop_hints = hints
        body = self.P.body(inst)
        if args is None:
            args = [Sym(body.names.get(i + 1, "arg%d" % (i + 1))) for i in range(body.argc)]
        if len(args) != body.argc:
            raise Skip("%s takes %d arguments" % (key, body.argc))
        st = I.start(inst, args, mem={("O", k) if isinstance(k, Term) else k: v for k, v in (mem or {}).items()})
        for i, a in enumerate(args):
            I.note_bounds(st, a, body.locals[i + 1])
        if prep:
            prep(I, st)
        for c in assume:
            if not st.facts.assume(c):
                raise Skip("inconsistent assumptions")
        st.facts.log = []
        t = time.time()
        try:
            fin = I.run(st)
        except TooBig as e:
            self.note("undecided", key, "analysis too large: %s" % e)
            raise Skip("analysis of %s too large: %s" % (key, e))
        self.runner.stat(key, I, len(fin), time.time() - t)
        out = []
        for s in fin:
            if s.kind == "unsupported":
                self.note("undecided", key, "unsupported: %s at %s" % (s.msg, s.where[-1]))
                continue
            x = Exit(self, I, s, key, span)
            out.append(x)
        self.I = I
        return out

    def note(self, status, key, msg):
        o = Ob()
        o.rule = self.rid
        o.label = "analysis"
        o.props = self.props
        o.status = status
        o.detail = msg
        o.fn = key
        o.where = ""
        o.guards = None
        self.pending.append(o)

    def record(self, label, ok, key, where="", detail=None, props=None):
        o = Ob()
        o.rule = self.rid
        o.label = label
        o.props = tuple(props.split()) if props else self.props
        o.status = "ok" if ok else ("undecided" if self.soft else "violation")
        o.detail = None if ok else detail
        o.fn = key
        o.where = where
        o.guards = None
        self.pending.append(o)

    def each(self, exits, f):
        """Runs f on every exit, splitting cases as f needs them."""
        for x in exits:
            if Clock.late():
                self.note("undecided", x.key, "time limit")
                break
            work = [x]
            n = 0
            while work:
                y = work.pop()
                base = y.clone()
                mark = len(self.pending)
                n += 1
                if n > 600:
                    self.note("undecided", x.key, "too many cases")
                    break
                try:
                    f(y)
                except Infeasible:
                    del self.pending[mark:]
                except Contradiction:
                    del self.pending[mark:]
                except Fork as e:
                    del self.pending[mark:]
                    for v in (False, True):
                        z = base.clone()
                        if z.st.facts.assume(e.cond, v):
                            work.append(z)
                except ForkVal as e:
                    del self.pending[mark:]
                    for c in e.conds:
                        z = base.clone()
                        if z.st.facts.assume(c, True):
                            work.append(z)
                except PathEnd as e:
                    del self.pending[mark:]
                    if e.kind != "infeasible":
                        self.note("undecided", x.key, "path end in rule: %s" % e.kind)
                except Unsupported as e:
                    del self.pending[mark:]
                    self.note("undecided", x.key, "unsupported in rule: %s" % e)

    def returns(self, exits, allow_panic=None, panic_props=None, unreachable_props=None):
        """The normal exits; every other exit must be infeasible or allowed."""
        out = []
        for x in exits:
            if x.kind == "return":
                out.append(x)
                for e in x.st.ev:
                    if e.kind == "unchecked":
                        x.emit("unchecked access in bounds", e.ok, unreachable_props,
                               None if e.ok else "unchecked access at %s in %s: %s not established" % (e.line, e.fn, show(e.cond)))
            elif x.kind == "panic":
                if any(a in x.st.msg for a in ALLOC_FAIL):
                    continue
                if allow_panic is not None and allow_panic(x):
                    continue
                ok = x.st.facts.bad or x.st.facts.inconsistent()
                x.emit("no panic", ok, panic_props, None if ok else "path panics (%s)" % x.st.msg)
            elif x.kind == "unreachable":
                ok = x.st.facts.bad or x.st.facts.inconsistent()
                x.emit("unreachable code is not reached", ok, unreachable_props, None if ok else "path reaches code assumed unreachable")
        return out


class Runner:
    def __init__(self, P, prop=None, tier="quick"):
        self.P = P
        self.prop = prop
        self.tier = tier
        self.obs = []
        self.funcs = {}
        self.rules_run = []
        self.errors = []
        self.steps = 0
        self.paths = 0
        self.blocks = {}
        self.loops = 0

    def stat(self, key, I, nexits, dt):
        f = self.funcs.setdefault(key, {"runs": 0, "exits": 0, "t": 0.0})
        f["runs"] += 1
        f["exits"] += nexits
        f["t"] += dt
        self.steps += I.steps
        self.paths += nexits
        self.loops += len(I.loops)
        for k, bs in I.visited.items():
            self.blocks.setdefault(k, set()).update(bs)

    def selected(self, only=None):
        out = []
        for r in RULES:
            if self.prop is not None and self.prop not in r.props:
                continue
            if only and r.rid not in only:
                continue
            if r.tier == "thorough" and self.tier != "thorough":
                continue
            out.append(r)
        return out

    def run_rule(self, r):
        cx = Cx(self.P, self, r)
        t = time.time()
        Clock.deadline = min(t + RULE_LIMIT, TOTAL_END)
        reset_fresh()
        try:
            r.fn(cx)
        except Skip as e:
            cx.note("undecided", r.rid, str(e))
        except RecursionError:
            cx.note("undecided", r.rid, "recursion limit")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            cx.note("undecided", r.rid, "internal: %s: %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
        for o in cx.pending:
            if o.guards is not None:
                o.guards = [str(g) for g in o.guards]
        self.rules_run.append((r.rid, len(cx.pending), time.time() - t))
        self.obs.extend(o for o in cx.pending if self.prop is None or self.prop in o.props)

    def run(self, only=None, jobs=1):
        rules = self.selected(only)
        if jobs <= 1 or len(rules) < 2:
            for r in rules:
                self.run_rule(r)
            return
        import multiprocessing as mp
        # the longest parts first
        order = sorted(range(len(rules)), key=lambda i: -rules[i].weight())
        global _WORK
        _WORK = (self.P, self.prop, self.tier, rules)
        with mp.get_context("fork").Pool(min(jobs, len(rules))) as pool:
            res = dict(pool.imap_unordered(_work, order, chunksize=1))
        for i in range(len(rules)):
            sub = res[i]
            self.obs.extend(sub["obs"])
            self.rules_run.extend(sub["rules_run"])
            self.steps += sub["steps"]
            self.paths += sub["paths"]
            self.loops += sub["loops"]
            for k, v in sub["funcs"].items():
                f = self.funcs.setdefault(k, {"runs": 0, "exits": 0, "t": 0.0})
                for x in f:
                    f[x] += v[x]
            for k, v in sub["blocks"].items():
                self.blocks.setdefault(k, set()).update(v)


_WORK = None


def _work(i):
    P, prop, tier, rules = _WORK
    R = Runner(P, prop, tier)
    R.run_rule(rules[i])
    return i, {k: getattr(R, k) for k in ("obs", "rules_run", "steps", "paths", "loops", "funcs", "blocks")}
