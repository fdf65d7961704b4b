"""Parallel iterators: a sequence (slice or range) with steps applied to every element.

Driving such a sequence evaluates the steps for one arbitrary element and records what it yields.
The parallel runtime is assumed to treat every element exactly once."""
from .terms import *
from .facts import *
from .interp import Inline, Unsupported, PathEnd
from .models import model, MODELS, synth, L, closure_local_call, NONE, Some
from .terms import fresh

PI = "rayon::iter::ParallelIterator::"
IPI = "rayon::iter::IndexedParallelIterator::"


def mkpar(kind, buf, lo, hi, steps=(), indexed=True):
    return T("app", "par", kind, buf, lo, hi, steps, indexed)


def par(c, v):
    v = c.I.simp(c.st, v)
    return v if v.op == "app" and v.args[0] == "par" else None


def source(c, v):
    v = c.I.simp(c.st, v)
    if par(c, v) is not None:
        return v
    t = c.I.P.types[c.argtys[0]] if c.argtys[0] is not None else None
    if v.op == "slice":
        return mkpar("slice", v.args[0], v.args[1], add(v.args[1], v.args[2]))
    if t is not None and t["s"].endswith("ops::Range<usize>"):
        lo, hi = fld(v, 0, 0, 2), fld(v, 1, 0, 2)
        return mkpar("range", Int(0), lo, hi)
    return NotImplemented


@model("rayon::iter::IntoParallelIterator::into_par_iter", "rayon::iter::IntoParallelRefIterator::par_iter")
def par_source(c):
    return source(c, c.args[0])


def step(kind, fpos=1):
    def f(c):
        p = par(c, c.args[0])
        if p is None:
            return NotImplemented
        _, k, buf, lo, hi, steps, ix = p.args
        if fpos is None:
            return mkpar(k, buf, lo, hi, steps + ((kind, UNIT, -1),), ix)
        return mkpar(k, buf, lo, hi, steps + ((kind, c.args[fpos], c.argtys[fpos]),), ix and kind in ("map", "inspect"))
    return f


for _k in ("map", "filter", "filter_map", "flat_map", "flat_map_iter", "inspect"):
    MODELS[PI + _k] = step(_k)
for _k in ("copied", "cloned"):
    MODELS[PI + _k] = step("copied", None)


def identity(c):
    return par(c, c.args[0]) or NotImplemented


for _k in ("with_min_len", "with_max_len"):
    MODELS[IPI + _k] = identity


def cut(c, which):
    p = par(c, c.args[0])
    if p is None:
        return NotImplemented
    _, k, buf, lo, hi, steps, ix = p.args
    m = add(lo, c.args[1])
    if c.ask(lt(hi, m)):
        m = hi
    return mkpar(k, buf, m, hi, steps, ix) if which == "skip" else mkpar(k, buf, lo, m, steps, ix)


MODELS[IPI + "skip"] = lambda c: cut(c, "skip")
MODELS[IPI + "take"] = lambda c: cut(c, "take")


def _drive_body(steps, op):
    """local 1: sequence, 2: consumer; 3: element, 4: number of the element, 5: result of a step."""
    n = len(steps)
    END = 3 * n + 2

    def start(I, st, fr):
        p = I.simp(st, st.mem[L(fr, 1)])
        _, kind, buf, lo, hi, _, _ = p.args
        k = fresh("par_elem")
        st.facts.upper[k] = 1 << 62
        st.mem = dict(st.mem)
        st.mem[L(fr, 4)] = k
        if not st.facts.assume(conj(le(lo, k), lt(k, hi)), True):
            st.mem[L(fr, 4)] = NONE
            return END - 1
        if kind == "range":
            st.mem[L(fr, 3)] = k
        else:
            r, path = I.deref_root(st, buf, None)
            st.mem[L(fr, 3)] = I.mkref(r, path + (("i", k),))
        return 1

    blocks = [["py", start, [1, END - 1]]]
    for i, (kind, fty) in enumerate(steps):
        def call(I, st, fr, i=i, kind=kind, fty=fty):
            p = I.simp(st, st.mem[L(fr, 1)])
            x = st.mem[L(fr, 3)]
            if kind == "copied":
                r, path = I.deref_root(st, x, None)
                v = I.read(st, r, path)
                st.mem = dict(st.mem)
                st.mem[L(fr, 5)] = v
                return 3 * i + 2
            st.mem = dict(st.mem)
            st.mem[L(fr, 6 + i)] = p.args[5][i][1]
            if kind in ("filter", "inspect"):
                x = I.mkref(L(fr, 3), ())
            closure_local_call(I, st, fr, 6 + i, fty, [x], 5, 3 * i + 2)
            return None

        def after(I, st, fr, i=i, kind=kind, fty=fty):
            r = I.simp(st, st.mem[L(fr, 5)])
            nxt = 3 * (i + 1) + 1 if i + 1 < n else END - 1
            if kind == "inspect":
                return nxt
            if kind == "filter":
                ok = I.ask(st, r)
                st.mem = dict(st.mem)
                if not ok:
                    st.mem[L(fr, 3)] = None
                    return END - 1
                return nxt
            if kind in ("map", "copied"):
                st.mem = dict(st.mem)
                st.mem[L(fr, 3)] = r
                return nxt
            t = I.P.types[fty]
            while t["k"] == "ref":
                t = I.P.types[t["to"]]
            if r.op != "agg":
                st.facts.upper[T("discr", r)] = 1
                ok = I.ask(st, eq(T("discr", r), Int(1)))
                v = fld(r, 0, 1)
            else:
                ok = r.args[0] == 1
                v = r.args[1] if ok else None
            if kind in ("flat_map", "flat_map_iter"):
                rt = ret_type(I, t)
                if rt is None or "Option<" not in rt.split("<")[0] + "<":
                    raise Unsupported("parallel flat_map over %s" % rt)
            st.mem = dict(st.mem)
            st.mem[L(fr, 3)] = v if ok else None
            return nxt if ok else END - 1

        blocks.append(["py", call, [3 * i + 2]])
        blocks.append(["py", after, [3 * i + 3, END - 1]])
        blocks.append(["goto", 3 * (i + 1) + 1 if i + 1 < n else END - 1])
    while len(blocks) < END - 1:
        blocks.append(["goto", END - 1])

    def done(I, st, fr):
        p = I.simp(st, st.mem[L(fr, 1)])
        _, kind, buf, lo, hi, _, ix = p.args
        k, x = st.mem[L(fr, 4)], st.mem.get(L(fr, 3))
        ret = fresh("par_result")
        I.event(st, "par", op=op, src=kind, buf=buf, lo=lo, hi=hi, k=k, items=[] if x is None else [x], sink=st.mem[L(fr, 2)], ret=ret, args=[], indexed=ix)
        st.mem = dict(st.mem)
        st.mem[L(fr, 0)] = UNIT if op == "for_each" else ret
        return END

    blocks.append(["py", done, [END]])
    blocks.append(["return"])
    return synth("par:%s:%s" % (op, steps), 8 + n, 2, blocks)


def ret_type(I, t):
    if t["k"] == "closure" and t.get("inst") is not None:
        b = I.P.body(t["inst"])
        r = b.locals[0]
        return I.P.types[r]["s"] if r is not None else None
    return None


def drive(op):
    def f(c):
        p = par(c, c.args[0])
        if p is None:
            if op == "for_each":
                return for_each_local(c)
            return NotImplemented
        steps = tuple((k, ty) for k, _, ty in p.args[5])
        return Inline(_drive_body(steps, op), [p, c.args[1]], tag="par")
    return f


def for_each_local(c):
    """for_each on an iterator of the crate drives it without a known number of items."""
    t = c.I.P.types[c.argtys[0]]
    key = "<%s as rayon::iter::ParallelIterator>::drive_unindexed" % t.get("name", t["s"])
    rs = c.I.P.by_key.get(key)
    if not rs:
        return NotImplemented
    return Inline(c.I.P.body(rs[0]["inst"]), [c.args[0], T("app", "for_each", c.args[1])], tag="pfe")


for _k in ("drive_unindexed", "for_each"):
    MODELS[PI + _k] = drive(_k)
for _k in ("drive", "with_producer"):
    MODELS[IPI + _k] = drive(_k)


@model(PI + "opt_len")
def opt_len(c):
    pl = c.deref(0)
    p = par(c, c.read(pl))
    if p is not None:
        _, kind, buf, lo, hi, _, ix = p.args
        return Some(sub(hi, lo)) if ix else NONE
    # the method provided by the trait
    return NONE if c.key == PI + "opt_len" and not c.cal.get("unresolved") else NotImplemented


@model(IPI + "len")
def par_len(c):
    pl = c.deref(0)
    p = par(c, c.read(pl))
    if p is None:
        return NotImplemented
    return sub(p.args[4], p.args[3])
