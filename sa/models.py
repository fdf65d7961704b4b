"""Models of library functions the driver does not expand (containers, cells, slices, atomics)."""
from .terms import *
from .interp import Inline, PathEnd, Fork, ForkVal, Unsupported, ref_idx, PSEUDO, bitop
from .prog import Body

MODELS = {}

PSEUDO.update({
    "core::slice::iter::Iter": 3,
    "core::slice::iter::IterMut": 3,
    "alloc::vec::into_iter::IntoIter": 3,
    "alloc::vec::drain::Drain": 3,
    "alloc::collections::vec_deque::drain::Drain": 3,
    "alloc::collections::vec_deque::iter::Iter": 3,
    "hashbrown::map::Drain": 3,
    "hashbrown::map::IntoIter": 3,
    "hashbrown::map::Iter": 3,
    "hashbrown::map::HashMap": 1,
    "core::alloc::layout::Layout": 2,
})


def model(*keys):
    def deco(f):
        for k in keys:
            MODELS[k] = f
        return f

    return deco


VEC = "alloc::vec::Vec"
DEQ = "alloc::collections::vec_deque::VecDeque"


def v_len(v):
    return fld(v, 0, 0, 2)


def v_buf(v):
    return fld(v, 1, 0, 2)


def mk_vec(n, b):
    return agg(0, n, b)


def vec_of(c, i=0):
    """place, len, buf of the vec (or deque) argument i points to."""
    pl = c.deref(i)
    v = c.I.simp(c.st, c.read(pl))
    return pl, v_len(v), v_buf(v)


def vec_slice(c, pl, n):
    return T("slice", ref(pl[0], pl[1] + (("f", 1, 2),)), Int(0), n)


def buf_ref(pl):
    return ref(pl[0], pl[1] + (("f", 1, 2),))


NOBUF = T("sym", "nobuf")
EMPTY_VEC = agg(0, Int(0), NOBUF)


@model(VEC + "::new", "<%s as core::default::Default>::default" % VEC, DEQ + "::new",
       "<%s as core::default::Default>::default" % DEQ, VEC + "::with_capacity", DEQ + "::with_capacity")
def vec_new(c):
    return EMPTY_VEC


@model(VEC + "::len", DEQ + "::len")
def vec_len(c):
    return vec_of(c)[1]


@model(VEC + "::is_empty", DEQ + "::is_empty")
def vec_is_empty(c):
    return eq(vec_of(c)[1], Int(0))


@model("<%s as core::ops::deref::Deref>::deref" % VEC, "<%s as core::ops::deref::DerefMut>::deref_mut" % VEC,
       VEC + "::as_slice", VEC + "::as_mut_slice")
def vec_deref(c):
    pl, n, b = vec_of(c)
    return vec_slice(c, pl, n)


@model(VEC + "::as_ptr", VEC + "::as_mut_ptr")
def vec_ptr(c):
    pl, n, b = vec_of(c)
    return ref_idx(buf_ref(pl), Int(0))


@model(VEC + "::push", DEQ + "::push_back")
def vec_push(c):
    pl, n, b = vec_of(c)
    c.event("push", place=pl, i=n, v=c.args[1])
    c.write(pl, mk_vec(add(n, Int(1)), c.I.store(c.st, b, n, c.args[1])))
    return UNIT


@model(DEQ + "::push_front")
def deq_push_front(c):
    pl, n, b = vec_of(c)
    c.event("push", place=pl, i=Int(0), v=c.args[1])
    c.write(pl, mk_vec(add(n, Int(1)), T("store", T("shift", b, Int(-1)), Int(0), c.args[1])))
    return UNIT


@model(VEC + "::pop", DEQ + "::pop_back")
def vec_pop(c):
    pl, n, b = vec_of(c)
    if c.ask(eq(n, Int(0))):
        return NONE
    x = c.I.select(c.st, b, sub(n, Int(1)))
    c.write(pl, mk_vec(sub(n, Int(1)), b))
    return Some(x)


@model(DEQ + "::pop_front")
def deq_pop_front(c):
    pl, n, b = vec_of(c)
    if c.ask(eq(n, Int(0))):
        return NONE
    x = c.I.select(c.st, b, Int(0))
    c.write(pl, mk_vec(sub(n, Int(1)), T("shift", b, Int(1))))
    return Some(x)


@model(DEQ + "::front", DEQ + "::front_mut")
def deq_front(c):
    pl, n, b = vec_of(c)
    if c.ask(eq(n, Int(0))):
        return NONE
    return Some(ref_idx(buf_ref(pl), Int(0)))


@model(DEQ + "::back", DEQ + "::back_mut")
def deq_back(c):
    pl, n, b = vec_of(c)
    if c.ask(eq(n, Int(0))):
        return NONE
    return Some(ref_idx(buf_ref(pl), sub(n, Int(1))))


def removed_buf(b, i, n):
    # elements from i on move down by one
    return T("upto", b, i, sub(n, Int(1)), T("shift", b, Int(1)))


@model(VEC + "::remove")
def vec_remove(c):
    pl, n, b = vec_of(c)
    if not c.ask(lt(c.args[1], n)):
        raise PathEnd("panic", "index out of bounds")
    x = c.I.select(c.st, b, c.args[1])
    c.write(pl, mk_vec(sub(n, Int(1)), removed_buf(b, c.args[1], n)))
    return x


@model(DEQ + "::remove")
def deq_remove(c):
    pl, n, b = vec_of(c)
    i = c.args[1]
    if not c.ask(lt(i, n)):
        return NONE
    x = c.I.select(c.st, b, i)
    c.write(pl, mk_vec(sub(n, Int(1)), removed_buf(b, i, n)))
    return Some(x)


@model(VEC + "::swap_remove")
def vec_swap_remove(c):
    pl, n, b = vec_of(c)
    i = c.args[1]
    if not c.ask(lt(i, n)):
        raise PathEnd("panic", "index out of bounds")
    last = sub(n, Int(1))
    x = c.I.select(c.st, b, i)
    l = c.I.select(c.st, b, last)
    c.write(pl, mk_vec(last, c.I.store(c.st, b, i, l)))
    return x


@model(DEQ + "::swap_remove_back")
def deq_swap_remove_back(c):
    pl, n, b = vec_of(c)
    i = c.args[1]
    if not c.ask(lt(i, n)):
        return NONE
    last = sub(n, Int(1))
    x = c.I.select(c.st, b, i)
    l = c.I.select(c.st, b, last)
    c.write(pl, mk_vec(last, c.I.store(c.st, b, i, l)))
    return Some(x)


@model(VEC + "::insert", DEQ + "::insert")
def vec_insert(c):
    pl, n, b = vec_of(c)
    i = c.args[1]
    if not c.ask(le(i, n)):
        raise PathEnd("panic", "index out of bounds")
    c.event("push", place=pl, i=i, v=c.args[2])
    nb = T("store", T("upto", b, i, add(n, Int(1)), T("shift", b, Int(-1))), i, c.args[2])
    c.write(pl, mk_vec(add(n, Int(1)), nb))
    return UNIT


@model(VEC + "::clear", DEQ + "::clear")
def vec_clear(c):
    pl, n, b = vec_of(c)
    c.event("clear", place=pl, n=n, b=b)
    c.write(pl, mk_vec(Int(0), b))
    return UNIT


@model(VEC + "::truncate", DEQ + "::truncate")
def vec_truncate(c):
    pl, n, b = vec_of(c)
    if c.ask(le(n, c.args[1])):
        return UNIT
    c.write(pl, mk_vec(c.args[1], b))
    return UNIT


@model(VEC + "::resize")
def vec_resize(c):
    pl, n, b = vec_of(c)
    m = c.args[1]
    if c.ask(le(m, n)):
        c.write(pl, mk_vec(m, b))
    else:
        c.write(pl, mk_vec(m, T("upto", b, n, m, T("const", c.args[2]))))
    return UNIT


@model(VEC + "::resize_with")
def vec_resize_with(c):
    pl, n, b = vec_of(c)
    m = c.args[1]
    if c.ask(le(m, n)):
        c.write(pl, mk_vec(m, b))
        return UNIT
    r = c.I.call_closure(c.st, c.args[2], c.argtys[2], [])
    if r is None:
        return NotImplemented

    def done(I, st, v):
        # the same value for all elements, if the closure yields a constant
        if any(x.op in ("sym", "fresh") for x in subterms(v)):
            v = fresh("elem")
            st.taint = st.taint + ("alloc::vec::Vec::resize_with",)
        I.write(st, pl[0], pl[1], mk_vec(m, T("upto", b, n, m, T("const", v))))
        return UNIT

    return Inline(r[0], r[1], hook=done)


@model(VEC + "::reserve", DEQ + "::reserve", VEC + "::shrink_to_fit", VEC + "::reserve_exact")
def vec_reserve(c):
    return UNIT


@model("<%s as core::ops::index::Index>::index" % VEC, "<%s as core::ops::index::IndexMut>::index_mut" % VEC)
def vec_index(c):
    pl, n, b = vec_of(c)
    return slice_index(c, vec_slice(c, pl, n), c.args[1], c.argtys[1], "panic")


@model("<%s as core::ops::index::Index>::index" % DEQ, "<%s as core::ops::index::IndexMut>::index_mut" % DEQ)
def deq_index(c):
    pl, n, b = vec_of(c)
    return slice_index(c, vec_slice(c, pl, n), c.args[1], c.argtys[1], "panic")


@model(DEQ + "::get", DEQ + "::get_mut")
def deq_get(c):
    pl, n, b = vec_of(c)
    return slice_index(c, vec_slice(c, pl, n), c.args[1], c.argtys[1], "opt")


@model(DEQ + "::swap")
def deq_swap(c):
    pl, n, b = vec_of(c)
    return do_swap(c, vec_slice(c, pl, n), c.args[1], c.args[2])


@model("<%s as core::clone::Clone>::clone" % VEC, "<%s as core::clone::Clone>::clone" % DEQ)
def vec_clone(c):
    pl = c.deref(0)
    v = c.read(pl)
    return agg(0, v_len(v), T("app", "clonebuf", v_buf(v)))


@model("<%s as core::convert::From>::from" % VEC, "[T]::to_vec", "<[T] as alloc::borrow::ToOwned>::to_owned")
def vec_from(c):
    parts = as_slice(c, c.args[0])
    if parts is None:
        v = c.I.simp(c.st, c.args[0])
        if v.op == "agg":
            return agg(0, Int(len(v.args) - 1), T("agg", 0, *v.args[1:]))
        return NotImplemented
    r, s, n = parts
    root, path = r
    b = c.I.read(c.st, root, path)
    return agg(0, n, b if s is Int(0) else T("shift", b, s))


# ---------------------------------------------------------------- slices

def as_slice(c, v):
    """((root, path) of buffer, start, len)"""
    v = c.I.simp(c.st, v)
    if v.op == "slice":
        r = v.args[0]
        pl = r.args if r.op == "ref" else (("O", r), ())
        return pl, v.args[1], v.args[2]
    if v.op in ("agg", "int", "ref"):
        return None
    return (("O", v), ()), Int(0), T("app", "len", v)


def mkslice(pl, s, n):
    root, path = pl
    if root[0] == "O" and not path and s is Int(0) and n is T("app", "len", root[1]):
        return root[1]
    return T("slice", ref(root, path), s, n)


def range_bounds(c, idx, ty, n):
    """(lo, hi) of a range argument, or None for a plain index."""
    t = c.I.P.types[ty]
    if t["k"] == "prim":
        return None
    name = t.get("name", "")
    if name.endswith("RangeFrom"):
        return fld(idx, 0, 0, 1), n
    if name.endswith("RangeTo"):
        return Int(0), fld(idx, 0, 0, 1)
    if name.endswith("RangeFull"):
        return Int(0), n
    if name.endswith("RangeInclusive"):
        return fld(idx, 0, 0, 3), add(fld(idx, 1, 0, 3), Int(1))
    if name.endswith("RangeToInclusive"):
        return Int(0), add(fld(idx, 0, 0, 1), Int(1))
    if name.endswith("::Range"):
        return fld(idx, 0, 0, 2), fld(idx, 1, 0, 2)
    raise Unsupported("range " + name)


def slice_index(c, sl, idx, ty, mode):
    pl, s, n = as_slice(c, sl)
    idx = c.I.simp(c.st, idx)
    rb = range_bounds(c, idx, ty, n)
    if rb is None:
        if mode != "unchecked":
            if not c.ask(lt(idx, n)):
                if mode == "opt":
                    return NONE
                raise PathEnd("panic", "index out of bounds")
        else:
            c.event("unchecked", cond=lt(idx, n))
        r = ref(pl[0], pl[1] + (("i", add(s, idx)),))
        return Some(r) if mode == "opt" else r
    lo, hi = rb
    if mode != "unchecked":
        if not (c.ask(le(lo, hi)) and c.ask(le(hi, n))):
            if mode == "opt":
                return NONE
            raise PathEnd("panic", "range out of bounds")
    else:
        c.event("unchecked", cond=conj(le(lo, hi), le(hi, n)))
    r = mkslice(pl, add(s, lo), sub(hi, lo))
    return Some(r) if mode == "opt" else r


@model("[T]::get", "[T]::get_mut")
def slice_get(c):
    return slice_index(c, c.args[0], c.args[1], c.argtys[1], "opt")


@model("[T]::get_unchecked", "[T]::get_unchecked_mut")
def slice_get_unchecked(c):
    return slice_index(c, c.args[0], c.args[1], c.argtys[1], "unchecked")


@model("<[T] as core::ops::index::Index>::index", "<[T] as core::ops::index::IndexMut>::index_mut")
def slice_idx(c):
    return slice_index(c, c.args[0], c.args[1], c.argtys[1], "panic")


@model("[T]::len")
def slice_len(c):
    return c.I.slice_len(c.st, c.args[0])


@model("[T]::is_empty")
def slice_is_empty(c):
    return eq(c.I.slice_len(c.st, c.args[0]), Int(0))


@model("[T]::as_ptr", "[T]::as_mut_ptr")
def slice_as_ptr(c):
    pl, s, n = as_slice(c, c.args[0])
    return ref(pl[0], pl[1] + (("i", s),))


@model("[T]::first", "[T]::first_mut")
def slice_first(c):
    pl, s, n = as_slice(c, c.args[0])
    if c.ask(eq(n, Int(0))):
        return NONE
    return Some(ref(pl[0], pl[1] + (("i", s),)))


@model("[T]::last", "[T]::last_mut")
def slice_last(c):
    pl, s, n = as_slice(c, c.args[0])
    if c.ask(eq(n, Int(0))):
        return NONE
    return Some(ref(pl[0], pl[1] + (("i", sub(add(s, n), Int(1))),)))


@model("[T]::split_first_mut", "[T]::split_first")
def slice_split_first(c):
    pl, s, n = as_slice(c, c.args[0])
    if c.ask(eq(n, Int(0))):
        return NONE
    return Some(agg(0, ref(pl[0], pl[1] + (("i", s),)), mkslice(pl, add(s, Int(1)), sub(n, Int(1)))))


@model("[T]::split_last_mut", "[T]::split_last")
def slice_split_last(c):
    pl, s, n = as_slice(c, c.args[0])
    if c.ask(eq(n, Int(0))):
        return NONE
    m = sub(n, Int(1))
    return Some(agg(0, ref(pl[0], pl[1] + (("i", add(s, m)),)), mkslice(pl, s, m)))


@model("[T]::split_at", "[T]::split_at_mut")
def slice_split_at(c):
    pl, s, n = as_slice(c, c.args[0])
    k = c.args[1]
    if not c.ask(le(k, n)):
        raise PathEnd("panic", "mid > len")
    return agg(0, mkslice(pl, s, k), mkslice(pl, add(s, k), sub(n, k)))


@model("[T]::split_at_unchecked", "[T]::split_at_mut_unchecked")
def slice_split_at_u(c):
    pl, s, n = as_slice(c, c.args[0])
    k = c.args[1]
    c.event("unchecked", cond=le(k, n))
    return agg(0, mkslice(pl, s, k), mkslice(pl, add(s, k), sub(n, k)))


def do_swap(c, sl, a, b):
    pl, s, n = as_slice(c, sl)
    if not (c.ask(lt(a, n)) and c.ask(lt(b, n))):
        raise PathEnd("panic", "index out of bounds")
    buf = c.I.read(c.st, pl[0], pl[1])
    x = c.I.select(c.st, buf, add(s, a))
    y = c.I.select(c.st, buf, add(s, b))
    c.I.write(c.st, pl[0], pl[1], c.I.store(c.st, c.I.store(c.st, buf, add(s, a), y), add(s, b), x))
    return UNIT


@model("[T]::swap")
def slice_swap(c):
    return do_swap(c, c.args[0], c.args[1], c.args[2])


@model("[T]::contains")
def slice_contains(c):
    sl = as_slice(c, c.args[0])
    if sl is None:
        return NotImplemented
    pl, s, n = sl
    x = c.read(c.deref(1))
    b = c.I.read(c.st, pl[0], pl[1])
    return T("app", "contains", b if s is Int(0) else T("shift", b, s), n, x)


def _keysort_body(fty, stable):
    def ini(I, st, fr):
        st.mem = dict(st.mem)
        e = Sym("selem%d" % fr.fid)
        st.facts.add_term(e)
        st.mem[L(fr, 3)] = e
        return 1

    def callf(I, st, fr):
        closure_local_call(I, st, fr, 2, fty, [I.mkref(L(fr, 3), ())], 4, 2)
        return None

    def fin(I, st, fr):
        v = I.simp(st, st.mem[L(fr, 1)])
        if v.op != "slice" or v.args[0].op != "ref":
            raise Unsupported("sorting %s" % show(v))
        r, path = v.args[0].args
        b = I.read(st, r, path)
        key = st.mem[L(fr, 4)]
        I.event(st, "sortkey", place=(r, path), lo=v.args[1], n=v.args[2], elem=st.mem[L(fr, 3)], key=key, stable=stable)
        I.write(st, r, path, T("app", "keysorted", b, v.args[1], v.args[2], key))
        st.mem = dict(st.mem)
        st.mem[L(fr, 0)] = UNIT
        return 3

    return synth("sortkey:%s:%s" % (fty, stable), 5, 2, [["py", ini, [1]], ["py", callf, [2]], ["py", fin, [3]], ["return"]])


@model("[T]::sort_by_cached_key", "[T]::sort_by_key", "[T]::sort_unstable_by_key")
def slice_sort_key(c):
    return Inline(_keysort_body(c.argtys[1], "unstable" not in c.key), c.args[:2], tag="sort")


@model("[T]::sort_unstable", "[T]::sort")
def slice_sort(c):
    pl, s, n = as_slice(c, c.args[0])
    b = c.I.read(c.st, pl[0], pl[1])
    c.event("sort", place=pl, old=b)
    c.I.write(c.st, pl[0], pl[1], T("app", "sorted", b, n))
    return UNIT


@model(VEC + "::dedup")
def vec_dedup(c):
    pl, n, b = vec_of(c)
    c.write(pl, mk_vec(T("app", "deduplen", b, n), T("app", "dedup", b, n)))
    return UNIT


@model("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut",
       "core::ptr::slice_from_raw_parts", "core::ptr::slice_from_raw_parts_mut")
def from_raw_parts(c):
    c.event("raw_slice", ptr=c.args[0], n=c.args[1])
    return c.I.slice_from(c.st, c.args[0], c.args[1])


# ---------------------------------------------------------------- iterators

ITERS = ("core::slice::iter::Iter", "core::slice::iter::IterMut")
OWNED = ("alloc::vec::into_iter::IntoIter", "alloc::vec::drain::Drain", "alloc::collections::vec_deque::drain::Drain")


@model("[T]::iter", "[T]::iter_mut", "<&[T] as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&mut [T] as core::iter::traits::collect::IntoIterator>::into_iter")
def slice_iter(c):
    pl, s, n = as_slice(c, c.args[0])
    return agg(0, ref(pl[0], pl[1]), s, add(s, n))


@model("<&alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&mut alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter",
       DEQ + "::iter", DEQ + "::iter_mut")
def vec_iter(c):
    pl, n, b = vec_of(c)
    return agg(0, buf_ref(pl), Int(0), n)


@model("<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter")
def vec_into_iter(c):
    v = c.I.simp(c.st, c.args[0])
    return agg(0, v_buf(v), Int(0), v_len(v))


@model(DEQ + "::drain", VEC + "::drain")
def vec_drain(c):
    pl, n, b = vec_of(c)
    lo, hi = range_bounds(c, c.I.simp(c.st, c.args[1]), c.argtys[1], n)
    if not (c.ask(le(lo, hi)) and c.ask(le(hi, n))):
        raise PathEnd("panic", "range out of bounds")
    c.event("drain", place=pl, lo=lo, hi=hi)
    if c.st.facts.decide(eq(hi, n)) is True:
        c.write(pl, mk_vec(lo, b))
    else:
        d = sub(hi, lo)
        c.write(pl, mk_vec(sub(n, d), T("upto", b, lo, sub(n, d), T("shift", b, d))))
    return agg(0, b, lo, hi)


def it_next(I, st, v, by_ref, back=False):
    """(item or None, new iterator value); may fork"""
    v = I.simp(st, v)
    buf, pos, end = fld(v, 0, 0, 3), fld(v, 1, 0, 3), fld(v, 2, 0, 3)
    if not I.ask(st, lt(pos, end)):
        return None, v
    if back:
        i = sub(end, Int(1))
        nv = agg(0, buf, pos, i)
    else:
        i = pos
        nv = agg(0, buf, add(pos, Int(1)), end)
    if by_ref:
        return ref_idx(I.simp(st, buf), i), nv
    return I.select(st, buf, i), nv


def reg_iter(names, by_ref):
    for n in names:
        def nx(c, back=False):
            pl = c.deref(0)
            x, nv = it_next(c.I, c.st, c.read(pl), by_ref, back)
            if x is None:
                return NONE
            c.write(pl, nv)
            return Some(x)

        IT = "<%s as core::iter::traits::iterator::Iterator>::" % n
        MODELS[IT + "next"] = nx
        MODELS["<%s as core::iter::traits::double_ended::DoubleEndedIterator>::next_back" % n] = lambda c, nx=nx: nx(c, True)

        def hint(c):
            v = c.I.simp(c.st, c.read(c.deref(0)))
            k = sub(fld(v, 2, 0, 3), fld(v, 1, 0, 3))
            return agg(0, k, Some(k))

        MODELS[IT + "size_hint"] = hint
        MODELS["<%s as core::iter::traits::exact_size::ExactSizeIterator>::len" % n] = lambda c, h=hint: fld(h(c), 0)

        def count(c):
            v = c.I.simp(c.st, c.args[0])
            return sub(fld(v, 2, 0, 3), fld(v, 1, 0, 3))

        MODELS[IT + "count"] = count
        for m, f in (("fold", syn_fold), ("for_each", syn_for_each), ("all", syn_all), ("any", syn_any), ("position", syn_position), ("find", syn_find), ("find_map", syn_find_map)):
            MODELS[IT + m] = lambda c, f=f: f(c, by_ref)

        def nth(c):
            pl = c.deref(0)
            v = c.I.simp(c.st, c.read(pl))
            buf, pos, end = fld(v, 0, 0, 3), fld(v, 1, 0, 3), fld(v, 2, 0, 3)
            i = add(pos, c.args[1])
            if not c.ask(lt(i, end)):
                c.write(pl, agg(0, buf, end, end))
                return NONE
            c.write(pl, agg(0, buf, add(i, Int(1)), end))
            return Some(ref_idx(c.I.simp(c.st, buf), i) if by_ref else c.I.select(c.st, buf, i))

        MODELS[IT + "nth"] = nth

        def nth_back(c):
            pl = c.deref(0)
            v = c.I.simp(c.st, c.read(pl))
            buf, pos, end = fld(v, 0, 0, 3), fld(v, 1, 0, 3), fld(v, 2, 0, 3)
            i = sub(sub(end, c.args[1]), Int(1))
            if not c.ask(le(pos, i)):
                c.write(pl, agg(0, buf, pos, pos))
                return NONE
            c.write(pl, agg(0, buf, pos, i))
            return Some(ref_idx(c.I.simp(c.st, buf), i) if by_ref else c.I.select(c.st, buf, i))

        MODELS["<%s as core::iter::traits::double_ended::DoubleEndedIterator>::nth_back" % n] = nth_back

        def advance(c, back):
            pl = c.deref(0)
            v = c.I.simp(c.st, c.read(pl))
            buf, pos, end = fld(v, 0, 0, 3), fld(v, 1, 0, 3), fld(v, 2, 0, 3)
            k = c.args[1]
            if c.ask(le(k, sub(end, pos))):
                c.write(pl, agg(0, buf, pos, sub(end, k)) if back else agg(0, buf, add(pos, k), end))
                return agg(0, UNIT)
            c.write(pl, agg(0, buf, pos, pos) if back else agg(0, buf, end, end))
            return agg(1, T("app", "notadvanced", sub(k, sub(end, pos))))

        MODELS[IT + "advance_by"] = lambda c: advance(c, False)
        MODELS["<%s as core::iter::traits::double_ended::DoubleEndedIterator>::advance_back_by" % n] = lambda c: advance(c, True)


@model("<core::slice::iter::Iter as core::clone::Clone>::clone")
def slice_iter_clone(c):
    return c.read(c.deref(0))


_syn = {}


def synth(name, nloc, argc, blocks):
    """A hand-made body. Blocks: list of terminators; ("py", f, succs)."""
    b = _syn.get(name)
    if b is None:
        j = {
            "key": "<lib>::" + name, "path": name, "locals": [None] * nloc, "argc": argc, "span": "<lib>",
            "blocks": [{"s": [], "t": t} for t in blocks],
        }
        b = Body(j, -1 - len(_syn))
        _syn[name] = b
    return b


def L(fr, n):
    return ("L", fr.fid, n)


def closure_local_call(I, st, fr, loc, fty, args, dest, target):
    """Calls the closure stored in local loc."""
    t = I.P.types[fty]
    f = st.mem[L(fr, loc)]
    while t["k"] == "ref":
        fty = t["to"]
        t = I.P.types[fty]
        root, path = I.deref_root(st, f, None)
        f = I.mkref(root, path)
        return closure_ref_call(I, st, fr, f, fty, args, dest, target)
    return closure_ref_call(I, st, fr, I.mkref(L(fr, loc), ()), fty, args, dest, target)


def closure_ref_call(I, st, fr, fref, fty, args, dest, target):
    t = I.P.types[fty]
    if t["k"] == "ref":
        r, p = I.deref_root(st, fref, None)
        return closure_ref_call(I, st, fr, I.read(st, r, p), t["to"], args, dest, target)
    if t["k"] == "closure" and t.get("inst") is not None:
        b = I.P.body(t["inst"])
        st0 = I.P.types[b.locals[1]]
        if st0["k"] == "ref":
            a0 = fref
        else:
            r, p = I.deref_root(st, fref, None)
            a0 = I.read(st, r, p)
        if b.argc != 1 + len(args):
            raise Unsupported("closure arity " + b.key)
        I.enter(st, fr, b, [a0] + list(args), dest, target, {"method": None})
        return True
    if t["k"] == "fndef":
        I.do_call(st, fr, t["fn"], list(args), [None] * len(args), dest, None, target, None)
        return True
    # type parameter: opaque
    r, p = I.deref_root(st, fref, None)
    f = I.read(st, r, p)
    v = I.nondet(st, fr, "callret") if hasattr(I, "nondet") else fresh("callret")
    I.event(st, "call", name="core::ops::function::FnMut::call_mut", targs=(t["s"],), args=[fref, agg(0, *args)], ret=v, cal={}, pure=False, mem=st.mem)
    if dest is not None:
        st.mem = dict(st.mem)
        st.mem[L(fr, dest)] = v
    I.goto(fr, target)
    return True


def syn_loop(c, name, by_ref, on_item, finish, args, fty_pos=None):
    """A loop over the iterator in local 1; the closure is in local 3."""
    return None


def _fold_body(fty, by_ref):
    def nxt(I, st, fr):
        x, nv = it_next(I, st, st.mem[L(fr, 1)], by_ref)
        if x is None:
            return 3
        st.mem = dict(st.mem)
        st.mem[L(fr, 1)] = nv
        st.mem[L(fr, 4)] = x
        return 2

    def callf(I, st, fr):
        closure_local_call(I, st, fr, 3, fty, [st.mem[L(fr, 2)], st.mem[L(fr, 4)]], 2, 1)
        return None

    def fin(I, st, fr):
        st.mem = dict(st.mem)
        st.mem[L(fr, 0)] = st.mem[L(fr, 2)]
        return 4

    return synth("fold:%s:%s" % (fty, by_ref), 6, 3, [["goto", 1], ["py", nxt, [2, 3]], ["py", callf, [1]], ["py", fin, [4]], ["return"]])


def syn_fold(c, by_ref):
    fty = c.argtys[2]
    return Inline(_fold_body(fty, by_ref), [c.args[0], c.args[1], c.args[2]], tag="fold")


OPT_ITER = "core::option::IntoIter"


def option_fold(c):
    """Over an optional item there is at most one step."""
    t = c.I.P.types[c.argtys[0]]
    if t.get("name") != OPT_ITER:
        return NotImplemented
    v = c.I.simp(c.st, fld(c.I.simp(c.st, fld(c.args[0], 0, 0, 1)), 0, 0, 1))
    if not is_some(c.I, c.st, v):
        return c.args[1]
    fty = c.argtys[2]

    def callf(I, st, fr):
        closure_local_call(I, st, fr, 3, fty, [st.mem[L(fr, 2)], st.mem[L(fr, 1)]], 0, 1)
        return None

    return Inline(synth("foldopt:%s" % fty, 4, 3, [["py", callf, [1]], ["return"]]), [some_val(c.I, c.st, v), c.args[1], c.args[2]], tag="fo")


def _each_body(kind, fty, by_ref, selfref):
    def nxt(I, st, fr):
        if selfref:
            r, p = I.deref_root(st, st.mem[L(fr, 1)], None)
            v = I.read(st, r, p)
        else:
            v = st.mem[L(fr, 1)]
        x, nv = it_next(I, st, v, by_ref)
        if x is None:
            return 4
        if selfref:
            I.write(st, r, p, nv)
            st.mem = dict(st.mem)
        else:
            st.mem = dict(st.mem)
            st.mem[L(fr, 1)] = nv
        st.mem[L(fr, 3)] = x
        return 2

    def callf(I, st, fr):
        x = st.mem[L(fr, 3)]
        if kind == "find":
            x = I.mkref(L(fr, 3), ())
        closure_local_call(I, st, fr, 2, fty, [x], 5, 3)
        return None

    def test(I, st, fr):
        if kind == "for_each":
            return 1
        r = st.mem[L(fr, 5)]
        b = I.ask(st, r) if kind != "find_map" else None
        st.mem = dict(st.mem)
        if kind == "all":
            if b:
                return 1
            st.mem[L(fr, 0)] = FALSE
            return 5
        if kind == "any":
            if not b:
                return 1
            st.mem[L(fr, 0)] = TRUE
            return 5
        if kind == "find_map":
            r = I.simp(st, r)
            if r.op == "agg":
                ok = r.args[0] == 1
            else:
                st.facts.upper[T("discr", r)] = 1
                ok = I.ask(st, eq(T("discr", r), Int(1)))
            st.mem = dict(st.mem)
            if not ok:
                return 1
            st.mem[L(fr, 0)] = r
            return 5
        if kind == "find":
            if not b:
                return 1
            st.mem[L(fr, 0)] = Some(st.mem[L(fr, 3)])
            return 5
        if kind == "position":
            if b:
                st.mem[L(fr, 0)] = Some(st.mem[L(fr, 4)])
                return 5
            st.mem[L(fr, 4)] = add(st.mem[L(fr, 4)], Int(1))
            return 1

    def fin(I, st, fr):
        st.mem = dict(st.mem)
        st.mem[L(fr, 0)] = {"all": TRUE, "any": FALSE, "for_each": UNIT, "find": NONE, "find_map": NONE, "position": NONE}[kind]
        return 5

    def ini(I, st, fr):
        st.mem = dict(st.mem)
        st.mem[L(fr, 4)] = Int(0)
        return 1

    return synth("%s:%s:%s" % (kind, fty, by_ref), 6, 2,
                 [["py", ini, [1]], ["py", nxt, [2, 4]], ["py", callf, [3]], ["py", test, [1, 5]], ["py", fin, [5]], ["return"]])


def syn_for_each(c, by_ref):
    return Inline(_each_body("for_each", c.argtys[1], by_ref, False), c.args[:2], tag="each")


def syn_all(c, by_ref):
    return Inline(_each_body("all", c.argtys[1], by_ref, True), c.args[:2], tag="all")


def syn_any(c, by_ref):
    return Inline(_each_body("any", c.argtys[1], by_ref, True), c.args[:2], tag="any")


def syn_find(c, by_ref):
    return Inline(_each_body("find", c.argtys[1], by_ref, True), c.args[:2], tag="find")


def syn_find_map(c, by_ref):
    return Inline(_each_body("find_map", c.argtys[1], by_ref, True), c.args[:2], tag="find_map")


def syn_position(c, by_ref):
    return Inline(_each_body("position", c.argtys[1], by_ref, True), c.args[:2], tag="position")


reg_iter(ITERS, True)
reg_iter(("alloc::collections::vec_deque::iter::Iter", "alloc::collections::vec_deque::iter_mut::IterMut"), True)
reg_iter(OWNED, False)


# iterators of an unknown type: the sequence items(x) of icount(x) values
IIT = "core::iter::traits::iterator::Iterator::"


def opaque_iter(c, v):
    v = c.I.simp(c.st, v)
    if c.cal.get("unresolved") and v.op == "agg" and len(v.args) == 4 and v.args[1].op == "app" and v.args[1].args[0] == "items":
        return v
    return None


@model("core::iter::traits::collect::IntoIterator::into_iter")
def opaque_into_iter(c):
    if not c.cal.get("unresolved"):
        return NotImplemented
    v = c.I.simp(c.st, c.args[0])
    if opaque_iter(c, v) is not None:
        return v
    c.event("into_iter", v=v)
    n = T("app", "icount", v)
    c.st.facts.upper[n] = (1 << 62)
    return agg(0, T("app", "items", v), Int(0), n)


@model(IIT + "next")
def opaque_next(c):
    pl = c.deref(0)
    v = c.read(pl)
    if opaque_iter(c, v) is None:
        return NotImplemented
    x, nv = it_next(c.I, c.st, v, False)
    if x is None:
        return NONE
    c.write(pl, nv)
    return Some(x)


for _m, _f in (("fold", syn_fold), ("for_each", syn_for_each)):
    def _opaque(c, f=_f):
        if opaque_iter(c, c.args[0]) is None:
            return option_fold(c) if f is syn_fold else NotImplemented
        return f(c, False)

    MODELS[IIT + _m] = _opaque


# collecting from an arbitrary iterator: a loop around its `next`

def next_inst(I, tyid):
    t = I.P.types[tyid]
    return t.get("next")


def call_next(I, st, fr, loc, ity, dest, target):
    t = I.P.types[ity]
    k = "<%s as core::iter::traits::iterator::Iterator>::next" % t.get("name", "?")
    from .interp import Call
    if k in MODELS:
        a = I.mkref(L(fr, loc), ())
        c = Call(I, st, fr, {"key": k}, k, [a], [None], None)
        v = MODELS[k](c)
        st.mem = dict(st.mem)
        st.mem[L(fr, dest)] = v
        I.goto(fr, target)
        return
    inst = t.get("next")
    if inst is None:
        raise Unsupported("next of " + t["s"])
    I.enter(st, fr, I.P.body(inst), [I.mkref(L(fr, loc), ())], dest, target, {"method": None})


def is_some(I, st, v):
    v = I.simp(st, v)
    if v.op == "ite":
        v = I.pick(st, v)
    if v.op == "agg":
        return v.args[0] == 1
    d = T("discr", v)
    st.facts.upper[d] = 1
    return I.ask(st, eq(d, Int(1)))


def some_val(I, st, v):
    return fld(I.simp(st, v), 0, 1)


def collect_body(ity, add_item, tag):
    """local 1: iterator, local 2: accumulator."""

    def callnext(I, st, fr):
        call_next(I, st, fr, 1, ity, 3, 2)
        return None

    def test(I, st, fr):
        v = st.mem[L(fr, 3)]
        if not is_some(I, st, v):
            return 3
        return add_item(I, st, fr, some_val(I, st, v))

    def fin(I, st, fr):
        st.mem = dict(st.mem)
        st.mem[L(fr, 0)] = st.mem.get(L(fr, 2), UNIT)
        return 4

    return synth("collect:%s:%s" % (tag, ity), 6, 2,
                 [["goto", 1], ["py", callnext, [2]], ["py", test, [1, 3]], ["py", fin, [4]], ["return"]])


@model("<%s as core::iter::traits::collect::Extend>::extend" % VEC, "<%s as core::iter::traits::collect::Extend>::extend" % DEQ)
def vec_extend(c):
    pl, n, b = vec_of(c)
    t = c.I.P.types[c.argtys[1]]
    v = c.I.simp(c.st, c.args[1])
    if t["k"] == "adt" and t["name"].endswith("adapters::take::Take"):
        inner = c.I.P.types[t["args"][0]]
        if inner["k"] == "adt" and inner["name"].endswith("repeat::Repeat"):
            k = fld(v, 1, 0, 2)
            x = fld(fld(v, 0, 0, 2), 0, 0, 1)
            c.write(pl, mk_vec(add(n, k), T("upto", b, n, add(n, k), T("const", x))))
            return UNIT
    if t["k"] == "adt" and t["name"].endswith("repeat_n::RepeatN"):
        return NotImplemented

    def add_item(I, st, fr, x):
        r, p = I.deref_root(st, st.mem[L(fr, 2)], None)
        vv = I.simp(st, I.read(st, r, p))
        I.event(st, "push", place=(r, p), i=v_len(vv), v=x)
        I.write(st, r, p, mk_vec(add(v_len(vv), Int(1)), I.store(st, v_buf(vv), v_len(vv), x)))
        return 1

    if next_inst(c.I, c.argtys[1]) is None:
        return NotImplemented
    return Inline(collect_body(c.argtys[1], add_item, "vecext"), [v, c.I.mkref(*pl)], tag="extend")


@model(VEC + "::extend_from_slice")
def vec_extend_slice(c):
    pl, n, b = vec_of(c)
    spl, s, m = as_slice(c, c.args[1])
    sb = c.I.read(c.st, *spl)
    c.write(pl, mk_vec(add(n, m), T("upto", b, n, add(n, m), T("shift", sb, sub(s, n)))))
    return UNIT


@model("<%s as core::iter::traits::collect::FromIterator>::from_iter" % VEC)
def vec_from_iter(c):
    if next_inst(c.I, c.argtys[0]) is None:
        return NotImplemented

    def add_item(I, st, fr, x):
        vv = I.simp(st, st.mem[L(fr, 2)])
        st.mem = dict(st.mem)
        st.mem[L(fr, 2)] = mk_vec(add(v_len(vv), Int(1)), I.store(st, v_buf(vv), v_len(vv), x))
        return 1

    return Inline(collect_body(c.argtys[0], add_item, "vec"), [c.args[0], EMPTY_VEC], tag="collect")


# ---------------------------------------------------------------- hash maps
HM = "hashbrown::map::HashMap"
MEMPTY = T("app", "mempty")


def map_has(I, st, m, k):
    m = I.simp(st, m)
    while True:
        if m.op == "mput":
            if I.ask(st, eq(m.args[1], k)):
                return True
            m = m.args[0]
        elif m.op == "mdel":
            if I.ask(st, eq(m.args[1], k)):
                return False
            m = m.args[0]
        elif m is MEMPTY:
            return False
        else:
            return I.ask(st, T("app", "has", m, k))


def map_get(I, st, m, k):
    while m.op in ("mput", "mdel"):
        if I.ask(st, eq(m.args[1], k)):
            return m.args[2] if m.op == "mput" else T("app", "mapbad")
        m = m.args[0]
    return T("app", "mapget", m, k)


@model("<%s as core::default::Default>::default" % HM, HM + "::new", HM + "::with_hasher", HM + "::with_capacity_and_hasher")
def map_new(c):
    return MEMPTY


def key_arg(c, i):
    return c.read(c.deref(i))


@model(HM + "::get", HM + "::get_mut")
def hm_get(c):
    pl = c.deref(0)
    k = key_arg(c, 1)
    m = c.read(pl)
    c.event("mapget", place=pl, k=k)
    if map_has(c.I, c.st, m, k):
        return Some(ref(pl[0], pl[1] + (("map", k),)))
    return NONE


@model("<%s as core::ops::index::Index>::index" % HM)
def hm_index(c):
    pl = c.deref(0)
    k = key_arg(c, 1)
    m = c.read(pl)
    c.event("mapget", place=pl, k=k)
    if map_has(c.I, c.st, m, k):
        return ref(pl[0], pl[1] + (("map", k),))
    raise PathEnd("panic", "no entry found for key")


@model(HM + "::contains_key")
def hm_contains(c):
    pl = c.deref(0)
    k = key_arg(c, 1)
    m = c.I.simp(c.st, c.read(pl))
    if m.op not in ("mput", "mdel") and m is not MEMPTY:
        return T("app", "has", m, k)
    return Bool(map_has(c.I, c.st, m, k))


@model(HM + "::insert")
def hm_insert(c):
    pl = c.deref(0)
    m = c.read(pl)
    k, v = c.args[1], c.args[2]
    had = map_has(c.I, c.st, m, k)
    old = Some(map_get(c.I, c.st, m, k)) if had else NONE
    c.event("mapput", place=pl, k=k, v=v, had=had)
    c.write(pl, T("mput", m, k, v))
    return old


@model(HM + "::remove")
def hm_remove(c):
    pl = c.deref(0)
    k = key_arg(c, 1)
    m = c.read(pl)
    if map_has(c.I, c.st, m, k):
        old = map_get(c.I, c.st, m, k)
        c.event("mapdel", place=pl, k=k, v=old)
        c.write(pl, T("mdel", m, k))
        return Some(old)
    return NONE


@model(HM + "::clear")
def hm_clear(c):
    pl = c.deref(0)
    c.event("mapclear", place=pl, m=c.read(pl))
    c.write(pl, MEMPTY)
    return UNIT


@model(HM + "::is_empty")
def hm_is_empty(c):
    m = c.read(c.deref(0))
    return eq(T("app", "mlen", m), Int(0))


@model(HM + "::len")
def hm_len(c):
    return T("app", "mlen", c.read(c.deref(0)))


@model(HM + "::entry")
def hm_entry(c):
    pl = c.deref(0)
    k = c.args[1]
    m = c.read(pl)
    r = c.I.mkref(*pl)
    # enum Entry { Occupied, Vacant }
    names = [v["name"] for v in c.I.P.types[c.destty]["variants"]]
    if map_has(c.I, c.st, m, k):
        return T("agg", names.index("Occupied"), T("app", "entry", r, k))
    return T("agg", names.index("Vacant"), T("app", "entry", r, k))


@model("hashbrown::map::VacantEntry::insert", "hashbrown::map::OccupiedEntry::insert")
def hm_vacant_insert(c):
    e = c.I.simp(c.st, c.args[0])
    if e.op != "app" or e.args[0] != "entry":
        return NotImplemented
    root, path = c.I.deref_root(c.st, e.args[1], None)
    m = c.I.read(c.st, root, path)
    c.event("mapput", place=(root, path), k=e.args[2], v=c.args[1], had=False)
    c.I.write(c.st, root, path, T("mput", m, e.args[2], c.args[1]))
    return ref(root, path + (("map", e.args[2]),))


@model(HM + "::drain")
def hm_drain(c):
    pl = c.deref(0)
    m = c.read(pl)
    c.event("mapclear", place=pl, m=m)
    c.write(pl, MEMPTY)
    return agg(0, m, Int(0), T("app", "mlen", m))


@model("<%s as core::iter::traits::collect::IntoIterator>::into_iter" % HM)
def hm_into_iter(c):
    return agg(0, c.args[0], Int(0), T("app", "mlen", c.args[0]))


@model(HM + "::iter", "<&%s as core::iter::traits::collect::IntoIterator>::into_iter" % HM)
def hm_iter(c):
    pl = c.deref(0)
    m = c.read(pl)
    return agg(0, m, Int(0), T("app", "mlen", m))


@model("<hashbrown::map::Drain as core::iter::traits::iterator::Iterator>::next",
       "<hashbrown::map::IntoIter as core::iter::traits::iterator::Iterator>::next")
def hm_next(c):
    pl = c.deref(0)
    v = c.I.simp(c.st, c.read(pl))
    m, pos, end = fld(v, 0, 0, 3), fld(v, 1, 0, 3), fld(v, 2, 0, 3)
    if not c.ask(lt(pos, end)):
        return NONE
    c.write(pl, agg(0, m, add(pos, Int(1)), end))
    return Some(agg(0, T("app", "mkey", m, pos), T("app", "mval", m, pos)))


@model("<%s as core::iter::traits::collect::FromIterator>::from_iter" % HM)
def hm_from_iter(c):
    if next_inst(c.I, c.argtys[0]) is None:
        return NotImplemented

    def add_item(I, st, fr, x):
        m = st.mem[L(fr, 2)]
        I.event(st, "mapput", place=(L(fr, 2), ()), k=fld(x, 0, 0, 2), v=fld(x, 1, 0, 2), had=None)
        st.mem = dict(st.mem)
        st.mem[L(fr, 2)] = T("mput", m, fld(x, 0, 0, 2), fld(x, 1, 0, 2))
        return 1

    return Inline(collect_body(c.argtys[0], add_item, "map"), [c.args[0], MEMPTY], tag="collect")


# ---------------------------------------------------------------- cells, atomics
ARC = "atomic_refcell::AtomicRefCell"


@model(ARC + "::new")
def cell_new(c):
    return agg(0, c.args[0])


@model(ARC + "::into_inner")
def cell_into_inner(c):
    return fld(c.args[0], 0, 0, 1)


@model(ARC + "::get_mut", ARC + "::as_ptr")
def cell_get_mut(c):
    pl = c.deref(0)
    if c.key.endswith("as_ptr"):
        return ref(pl[0], pl[1] + (("f", 0, 1),))
    return c.I.mkref(pl[0], pl[1] + (("f", 0, 1),))


@model(ARC + "::borrow")
def cell_borrow(c):
    pl = c.deref(0)
    c.event("borrow", place=pl, mut=False)
    return agg(0, T("app", "guard", Int(0), ref(pl[0], pl[1] + (("f", 0, 1),))))


@model(ARC + "::borrow_mut")
def cell_borrow_mut(c):
    pl = c.deref(0)
    c.event("borrow", place=pl, mut=True)
    return agg(0, T("app", "guard", Int(1), ref(pl[0], pl[1] + (("f", 0, 1),))))


PSEUDO["atomic_refcell::AtomicRef"] = 1
PSEUDO["atomic_refcell::AtomicRefMut"] = 1


@model("<atomic_refcell::AtomicRef as core::ops::deref::Deref>::deref",
       "<atomic_refcell::AtomicRefMut as core::ops::deref::Deref>::deref",
       "<atomic_refcell::AtomicRefMut as core::ops::deref::DerefMut>::deref_mut")
def guard_deref(c):
    pl = c.deref(0)
    g = c.I.simp(c.st, c.read(pl))
    g = c.I.simp(c.st, fld(g, 0, 0, 1))
    if g.op == "app" and g.args[0] == "guard":
        return g.args[2]
    return T("app", "guardptr", g)


ATOM = "core::sync::atomic::Atomic"


@model("<%s as core::default::Default>::default" % ATOM)
def atomic_default(c):
    return agg(0, Int(0))


@model(ATOM + "::new")
def atomic_new(c):
    return agg(0, c.args[0])


@model(ATOM + "::into_inner")
def atomic_into(c):
    return fld(c.args[0], 0, 0, 1)


@model(ATOM + "::get_mut", ATOM + "::as_ptr")
def atomic_get_mut(c):
    pl = c.deref(0)
    return c.I.mkref(pl[0], pl[1] + (("f", 0, 1),))


def nondet(c, name):
    return Sym("%s@%d.%d.%d" % (name, c.fr.fid, c.fr.bb, len(c.st.ev)))


@model(ATOM + "::load")
def atomic_load(c):
    pl = c.deref(0)
    v = nondet(c, "load")
    c.event("aload", place=pl, v=v)
    return v


@model(ATOM + "::store")
def atomic_store(c):
    pl = c.deref(0)
    c.event("astore", place=pl, v=c.args[1])
    return UNIT


@model(ATOM + "::compare_exchange_weak", ATOM + "::compare_exchange")
def atomic_cas(c):
    pl = c.deref(0)
    ok = nondet(c, "casok")
    if c.ask(eq(ok, Int(1))):
        c.event("acas", place=pl, old=c.args[1], new=c.args[2], ok=True)
        return T("agg", 0, c.args[1])
    v = nondet(c, "casold")
    c.event("acas", place=pl, old=c.args[1], new=c.args[2], ok=False, seen=v)
    return T("agg", 1, v)


@model(ATOM + "::fetch_update", ATOM + "::try_update", ATOM + "::update")
def atomic_fetch_update(c):
    """Load, closure, exchange until it succeeds: the round that ends it."""
    always = c.key.endswith("::update")
    pl = c.deref(0)
    v = nondet(c, "load")
    c.event("aload", place=pl, v=v)
    fty = c.argtys[3]

    def callf(I, st, fr):
        closure_local_call(I, st, fr, 2, fty, [st.mem[L(fr, 1)]], 3, 1)
        return None

    def fin(I, st, fr):
        old, r = st.mem[L(fr, 1)], st.mem[L(fr, 3)]
        ok = always or is_some(I, st, r)
        if ok:
            I.event(st, "acas", place=pl, old=old, new=r if always else some_val(I, st, r), ok=True)
        st.mem = dict(st.mem)
        st.mem[L(fr, 0)] = old if always else T("agg", 0 if ok else 1, old)
        return 2

    return Inline(synth("fetch_update:%s:%s:%r" % (fty, always, pl), 4, 2, [["py", callf, [1]], ["py", fin, [2]], ["return"]]), [v, c.args[3]], tag="fu")


def armw(f):
    def g(c):
        pl = c.deref(0)
        v = nondet(c, "rmw")
        c.event("armw", place=pl, old=v, new=f(c, v))
        return v

    return g


MODELS[ATOM + "::fetch_add"] = armw(lambda c, v: add(v, c.args[1]))
MODELS[ATOM + "::fetch_sub"] = armw(lambda c, v: sub(v, c.args[1]))
MODELS[ATOM + "::swap"] = armw(lambda c, v: c.args[1])
MODELS[ATOM + "::fetch_max"] = armw(lambda c, v: T("app", "max", v, c.args[1]))
MODELS[ATOM + "::fetch_min"] = armw(lambda c, v: T("app", "min", v, c.args[1]))


# ---------------------------------------------------------------- types, memory, panics

@model("core::any::TypeId::of")
def type_id_of(c):
    return T("app", "tid", c.I.P.types[c.targ(0)]["s"])


@model("<core::any::TypeId as core::cmp::PartialEq>::eq")
def type_id_eq(c):
    return eq(c.read(c.deref(0)), c.read(c.deref(1)))


@model("<core::any::TypeId as core::cmp::Ord>::cmp")
def type_id_cmp(c):
    a, b = c.read(c.deref(0)), c.read(c.deref(1))
    return T("app", "tidcmp", a, b)


@model("core::any::type_name")
def type_name(c):
    return T("app", "type_name", c.I.P.types[c.targ(0)]["s"])


@model("alloc::alloc::alloc", "alloc::alloc::alloc_zeroed")
def do_alloc(c):
    p = nondet(c, "alloc")
    c.event("alloc", layout=c.args[0], p=p)
    if c.ask(T("app", "isnull", p)):
        return T("app", "null")
    return p


@model("alloc::alloc::realloc")
def do_realloc(c):
    p = nondet(c, "realloc")
    c.event("realloc", old=c.args[0], layout=c.args[1], n=c.args[2], p=p)
    return p


@model("alloc::alloc::dealloc")
def do_dealloc(c):
    c.event("dealloc", p=c.args[0], layout=c.args[1], mem=c.st.mem)
    return UNIT


@model("alloc::alloc::handle_alloc_error")
def alloc_error(c):
    raise PathEnd("abort", "allocation failure")


@model("core::alloc::layout::Layout::array")
def layout_array(c):
    t = c.I.P.types[c.targ(0)]["s"]
    l = T("app", "layout_array", t, c.args[0])
    return result(c, l, "layout", l)


@model("core::alloc::layout::Layout::extend")
def layout_extend(c):
    a = c.read(c.deref(0))
    b = c.args[1]
    l = T("app", "layout_ext", a, b)
    o = T("app", "layout_off", a, b)
    return result(c, agg(0, l, o), "layout", l)


def result(c, v, what, l):
    ok = T("app", "layout_ok", l)
    if c.ask(ok):
        return T("agg", 0, v)
    return T("agg", 1, T("sym", "LayoutError"))


@model("core::num::imp::int_log10::panic_for_nonpositive_argument", "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed", "core::panicking::panic",
       "core::panicking::panic_fmt", "core::panicking::assert_failed", "core::panicking::panic_nounwind_fmt",
       "core::panicking::panic_display", "core::panicking::unreachable_display", "core::panicking::panic_explicit",
       "core::panicking::panic_bounds_check", "core::panicking::panic_nounwind", "core::panicking::assert_failed_inner",
       "core::panicking::panic_str_2015", "core::slice::index::slice_index_fail")
def panics(c):
    m = c.key
    if c.key == "core::panicking::panic" and c.args and c.args[0].op == "app" and c.args[0].args[0] == "str":
        m += ":" + c.args[0].args[1]
        if c.args[0].args[1].startswith("internal error: entered unreachable"):
            raise PathEnd("panic", "unreachable!")
    raise PathEnd("panic", m)


@model("core::fmt::Arguments::new", "core::fmt::Arguments::from_str", "core::fmt::rt::Argument::new_debug",
       "core::fmt::rt::Argument::new_display", "core::fmt::Arguments::new_const", "core::fmt::Arguments::new_v1")
def fmt_any(c):
    return T("sym", "fmt")


@model("core::hint::unreachable_unchecked::precondition_check", "core::intrinsics::assert_inhabited", "core::intrinsics::cold_path",
       "intrinsic:assert_inhabited", "intrinsic:cold_path", "intrinsic:assert_zero_valid", "intrinsic:assert_mem_uninitialized_valid",
       "core::hint::assert_unchecked::precondition_check")
def nop(c):
    return UNIT


@model("core::hint::unreachable_unchecked")
def unreach(c):
    c.I.finish(c.st, "unreachable", "unreachable_unchecked")
    raise PathEnd("infeasible")


@model("intrinsic:copy", "intrinsic:copy_nonoverlapping")
def intr_copy(c):
    c.I.copy_mem(c.st, c.fr, c.args[0], c.args[1], c.args[2], c.cal.get("intrinsic") == "copy_nonoverlapping")
    return UNIT


@model("intrinsic:typed_swap_nonoverlapping")
def intr_swap(c):
    a, b = c.I.elem_place(c.st, c.args[0]), c.I.elem_place(c.st, c.args[1])
    x, y = c.read(a), c.read(b)
    c.event("memswap", a=c.args[0], b=c.args[1])
    c.write(a, y)
    c.write(b, x)
    return UNIT


@model("core::ptr::swap", "core::ptr::swap_nonoverlapping")
def ptr_swap(c):
    n = c.I.simp(c.st, c.args[2]) if len(c.args) > 2 else Int(1)
    if n is Int(0):
        return UNIT
    return intr_swap(c) if n is Int(1) else NotImplemented


@model("core::mem::swap")
def mem_swap(c):
    a, b = c.deref(0), c.deref(1)
    x, y = c.read(a), c.read(b)
    c.event("memswap", a=c.args[0], b=c.args[1])
    c.write(a, y)
    c.write(b, x)
    return UNIT


@model("core::mem::replace")
def mem_replace(c):
    a = c.deref(0)
    x = c.read(a)
    c.write(a, c.args[1])
    return x


@model("core::mem::needs_drop", "intrinsic:needs_drop")
def needs_drop(c):
    return T("app", "needs_drop", c.I.P.types[c.targ(0)]["s"])


@model("core::mem::size_of", "intrinsic:size_of")
def size_of(c):
    t = c.I.P.types[c.targ(0)]
    s = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "usize": 8}.get(t["s"])
    return Int(s) if s else T("app", "size_of", t["s"])


@model("core::mem::align_of", "intrinsic:align_of")
def align_of(c):
    return T("app", "align_of", c.I.P.types[c.targ(0)]["s"])


@model("core::mem::forget")
def mem_forget(c):
    c.event("forget", v=c.args[0], ty=c.argtys[0], s=c.I.P.types[c.argtys[0]]["s"])
    return UNIT


@model("core::mem::drop")
def mem_drop(c):
    c.I.drop_value(c.st, c.args[0], c.argtys[0])
    return UNIT


@model("core::ptr::read", "core::ptr::non_null::NonNull::read", "*const T::read", "*mut T::read", "core::ptr::read_unaligned", "core::ptr::read_volatile",
       "*const T::read_unaligned", "*mut T::read_unaligned", "core::ptr::non_null::NonNull::read_unaligned")
def ptr_read(c):
    pl = c.I.elem_place(c.st, unnn(c, c.args[0]))
    v = c.read(pl)
    c.event("ptr_read", place=pl, v=v, ty=c.destty, s=c.I.P.types[c.destty]["s"] if c.destty is not None else "?")
    return v


def unnn(c, p):
    """NonNull -> raw pointer."""
    p = c.I.simp(c.st, p)
    if p.op == "agg" and len(p.args) == 2:
        return p.args[1]
    return p


@model("core::ptr::write", "core::ptr::non_null::NonNull::write", "*mut T::write", "core::ptr::write_unaligned", "*mut T::write_unaligned",
       "core::ptr::write_volatile")
def ptr_write(c):
    p = c.args[0]
    if "NonNull" in c.key:
        p = nn_ptr(c, p)
    pl = c.I.elem_place(c.st, p)
    c.event("ptr_write", place=pl, v=c.args[1], ty=c.argtys[1], s=c.I.P.types[c.argtys[1]]["s"])
    c.write(pl, c.args[1])
    return UNIT


def nn_ptr(c, p):
    return fld(c.I.simp(c.st, p), 0, 0, 1)


@model("core::ptr::non_null::NonNull::read", "core::ptr::non_null::NonNull::read_unaligned")
def nn_read(c):
    pl = c.I.elem_place(c.st, nn_ptr(c, c.args[0]))
    v = c.read(pl)
    c.event("ptr_read", place=pl, v=v, ty=c.destty, s=c.I.P.types[c.destty]["s"] if c.destty is not None else "?")
    return v


@model("core::ptr::replace", "*mut T::replace")
def ptr_replace(c):
    pl = c.I.elem_place(c.st, c.args[0])
    v = c.read(pl)
    c.write(pl, c.args[1])
    return v


@model("core::ptr::non_null::NonNull::replace")
def nn_replace(c):
    pl = c.I.elem_place(c.st, nn_ptr(c, c.args[0]))
    v = c.read(pl)
    c.write(pl, c.args[1])
    return v


@model("core::ptr::drop_in_place", "core::ptr::drop_glue")
def drop_in_place(c):
    a = c.I.simp(c.st, c.args[0])
    if a.op == "slice" and a.args[0].op == "ref":
        # a run of elements
        root, path = a.args[0].args
        ty = c.targ(0)
        c.event("drop", v=a, ty=ty, s=c.I.P.types[ty]["s"], place=(root, path + (("s", a.args[1], a.args[2]),)), mem=c.st.mem, raw=True)
        return UNIT
    pl = c.I.elem_place(c.st, c.args[0])
    v = c.read(pl)
    ty = c.targ(0)
    c.event("drop", v=v, ty=ty, s=c.I.P.types[ty]["s"], place=pl, mem=c.st.mem, raw=True)
    return UNIT


@model("*const T::is_null", "*mut T::is_null")
def is_null(c):
    p = c.I.simp(c.st, c.args[0])
    if p.op == "app" and p.args[0] == "null":
        return TRUE
    return FALSE


@model("core::ptr::non_null::NonNull::new")
def nn_new(c):
    p = c.I.simp(c.st, c.args[0])
    if p.op == "app" and p.args[0] == "null":
        return NONE
    return Some(agg(0, p))


@model("core::ptr::non_null::NonNull::dangling")
def nn_dangling(c):
    return agg(0, T("app", "dangling", c.I.P.types[c.targ(0)]["s"]))


@model("core::ptr::dangling", "core::ptr::dangling_mut", "core::ptr::without_provenance", "core::ptr::without_provenance_mut")
def ptr_dangling(c):
    return T("app", "dangling")


@model("*mut T::byte_add", "*const T::byte_add")
def byte_add(c):
    return T("app", "byte_add", c.I.simp(c.st, c.args[0]), c.args[1])


@model("core::ptr::non_null::NonNull::byte_add")
def nn_byte_add(c):
    return agg(0, T("app", "byte_add", nn_ptr(c, c.args[0]), c.args[1]))


@model("core::ptr::non_null::NonNull::add", "core::ptr::non_null::NonNull::offset")
def nn_add(c):
    if c.I.P.types[c.targ(0)]["s"] == "u8":
        return nn_byte_add(c)
    return agg(0, c.I.ptr_add(c.st, nn_ptr(c, c.args[0]), c.args[1]))


@model("*mut T::add", "*const T::add", "*mut T::offset", "*const T::offset", "*mut T::wrapping_add", "*const T::wrapping_add")
def p_add(c):
    if c.I.P.types[c.targ(0)]["s"] == "u8":
        return byte_add(c)
    return c.I.ptr_add(c.st, c.args[0], c.args[1])


@model("*mut T::sub", "*const T::sub")
def p_sub(c):
    return c.I.ptr_add(c.st, c.args[0], mulc(c.args[1], -1))


@model("alloc::boxed::Box::new_uninit")
def box_uninit(c):
    return T("app", "box", nondet(c, "box"))


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(c):
    b = c.I.simp(c.st, c.args[0])
    while b.op == "agg" and len(b.args) == 2:
        b = c.I.simp(c.st, b.args[1])
    root = ("O", b)
    if root not in c.st.mem and ("O", fld(b, 0)) in c.st.mem:
        v = c.I.simp(c.st, c.I.select(c.st, c.I.root_val(c.st, ("O", fld(b, 0))), Int(0)))
        if v.op == "agg" and len(v.args) == 3:
            v = v.args[2]
    else:
        v = c.I.root_val(c.st, root)
    # the content is MaybeUninit<[T; n]>
    for _ in range(6):
        if v.op == "agg" and v.args[0] == 0 and len(v.args) == 2 and v.args[1].op == "agg":
            v = v.args[1]
        else:
            break
    if v.op == "agg":
        return agg(0, Int(len(v.args) - 1), T("agg", 0, *v.args[1:]))
    return agg(0, T("app", "boxlen", b), v)


@model("intrinsic:cttz", "intrinsic:cttz_nonzero", "core::intrinsics::cttz", "core::intrinsics::cttz_nonzero")
def cttz(c):
    return bit_count(c, "ctz")


@model("intrinsic:ctlz", "intrinsic:ctlz_nonzero", "core::intrinsics::ctlz", "core::intrinsics::ctlz_nonzero")
def ctlz(c):
    return bit_count(c, "clz")


def bit_count(c, name):
    w = c.I.width(c.argtys[0])
    m = c.args[0]
    if m.op == "int":
        v = m.args[0] & ((1 << w) - 1)
        n = w - v.bit_length() if name == "clz" else (v & -v).bit_length() - 1 if v else w
        return Int(n)
    t = T("app", name, w, m)
    if c.ask(eq(m, Int(0))):
        return Int(w)
    c.st.facts.upper[t] = w - 1
    return t


for _w in ("u8", "u16", "u32", "u64", "u128", "usize"):
    def _ilog2(c, checked=False):
        """Position of the highest bit set."""
        m = c.I.simp(c.st, c.args[0])
        if c.ask(eq(m, Int(0))):
            if checked:
                return NONE
            raise PathEnd("panic", c.key)
        r = sub(Int(c.I.width(c.argtys[0]) - 1), bit_count(c, "clz"))
        return Some(r) if checked else r

    MODELS[_w + "::ilog2"] = _ilog2
    MODELS[_w + "::checked_ilog2"] = lambda c, f=_ilog2: f(c, True)


@model("intrinsic:saturating_add")
def sat_add(c):
    return add(c.args[0], c.args[1])


@model("usize::saturating_sub", "u32::saturating_sub", "u64::saturating_sub", "intrinsic:saturating_sub", "u8::saturating_sub")
def sat_sub(c):
    if c.ask(le(c.args[1], c.args[0])):
        return sub(c.args[0], c.args[1])
    return Int(0)


@model("usize::saturating_add", "u32::saturating_add", "u64::saturating_add")
def sat_add2(c):
    return add(c.args[0], c.args[1])


@model("usize::wrapping_add", "u32::wrapping_add", "u64::wrapping_add")
def wrap_add(c):
    if c.I.bitsy(c):
        return add(c.args[0], c.args[1])
    m = 1 << wrap_width(c)
    s = add(c.args[0], c.args[1])
    return s if c.ask(lt(s, Int(m))) else add(s, Int(-m))


def wrap_width(c):
    return 32 if "u32::" in c.key else 64


@model("usize::wrapping_sub", "u32::wrapping_sub", "u64::wrapping_sub")
def wrap_sub(c):
    return sub(c.args[0], c.args[1]) if not c.I.bitsy(c) else NotImplemented


@model("usize::checked_sub", "u32::checked_sub", "u64::checked_sub")
def chk_sub(c):
    if c.ask(le(c.args[1], c.args[0])):
        return Some(sub(c.args[0], c.args[1]))
    return NONE


@model("usize::checked_add", "u64::checked_add")
def chk_add(c):
    return Some(add(c.args[0], c.args[1]))


@model("u32::checked_add")
def chk_add32(c):
    s = add(c.args[0], c.args[1])
    if c.ask(le(s, Int((1 << 32) - 1))):
        return Some(s)
    return NONE


@model("core::num::nonzero::NonZero::checked_add")
def nz_checked_add(c):
    t = c.I.P.types[c.argtys[0]]["s"]
    s = add(c.args[0], c.args[1])
    lim = {"u32": 32, "u64": 64, "usize": 64, "u16": 16, "u8": 8}
    for k, b in lim.items():
        if "<%s>" % k in t or t.endswith("NonZero%s" % k.upper()):
            if b == 64:
                return Some(s)
            if c.ask(le(s, Int((1 << b) - 1))):
                return Some(s)
            return NONE
    return NotImplemented


@model("core::num::nonzero::NonZero::get")
def nz_get(c):
    return c.args[0]


@model("core::num::nonzero::NonZero::new_unchecked")
def nz_new_unchecked(c):
    return c.args[0]


@model("core::num::nonzero::NonZero::new")
def nz_new(c):
    if c.ask(eq(c.args[0], Int(0))):
        return NONE
    return Some(c.args[0])


@model("<core::num::nonzero::NonZero as core::cmp::PartialEq>::eq")
def nz_eq(c):
    return eq(c.read(c.deref(0)), c.read(c.deref(1)))


@model("<core::num::nonzero::NonZero as core::cmp::PartialEq>::ne")
def nz_ne(c):
    return neg(eq(c.read(c.deref(0)), c.read(c.deref(1))))


@model("<core::num::nonzero::NonZero as core::clone::Clone>::clone")
def nz_clone(c):
    return c.read(c.deref(0))


@model("<core::num::nonzero::NonZero as core::ops::bit::BitOr>::bitor")
def nz_bitor(c):
    r = c.I.binop(c.st, "BitOr", c.args[0], c.args[1], c.argtys[0])
    c.st.facts.assume(eq(r, Int(0)), False)
    return r


@model("<core::num::nonzero::NonZero as core::ops::bit::BitOrAssign>::bitor_assign")
def nz_bitor_assign(c):
    p = c.deref(0)
    r = c.I.binop(c.st, "BitOr", c.read(p), c.args[1], c.argtys[1])
    c.st.facts.assume(eq(r, Int(0)), False)
    c.write(p, r)
    return UNIT


@model("usize::checked_next_power_of_two", "usize::next_power_of_two")
def next_pow2(c):
    p = T("app", "nextpow2", c.args[0])
    c.st.facts.assume(le(c.args[0], p))
    return Some(p) if "checked" in c.key else p


@model("<u32 as core::convert::TryFrom>::try_from")
def u32_try_from(c):
    if c.ask(le(c.args[0], Int((1 << 32) - 1))):
        return T("agg", 0, c.args[0])
    return T("agg", 1, T("sym", "TryFromIntError"))


@model("<usize as core::cmp::Ord>::max", "core::cmp::max", "core::cmp::Ord::max", "<u8 as core::cmp::Ord>::max", "<u64 as core::cmp::Ord>::max", "<u32 as core::cmp::Ord>::max")
def cmp_max(c):
    if not intlike(c):
        return NotImplemented
    return c.args[1] if c.ask(le(c.args[0], c.args[1])) else c.args[0]


@model("<usize as core::cmp::Ord>::min", "core::cmp::min", "core::cmp::Ord::min", "<u8 as core::cmp::Ord>::min", "<u64 as core::cmp::Ord>::min", "<u32 as core::cmp::Ord>::min")
def cmp_min(c):
    if not intlike(c):
        return NotImplemented
    return c.args[0] if c.ask(le(c.args[0], c.args[1])) else c.args[1]


def intlike(c):
    return c.I.prim(c.argtys[0]) is not None


def three_way(c):
    a, b = c.I.unpack2(c.st, c.read(c.deref(0)), c.read(c.deref(1)))
    for x, y in zip(a, b):
        if c.ask(eq(x, y)):
            continue
        return T("agg", 0) if c.ask(lt(x, y)) else T("agg", 2)
    return T("agg", 1)


for _t in ("u8", "u16", "u32", "u64", "usize"):
    MODELS["<%s as core::cmp::Ord>::cmp" % _t] = three_way
    MODELS["<%s as core::cmp::PartialOrd>::partial_cmp" % _t] = lambda c: Some(three_way(c))


@model("<core::num::nonzero::NonZero as core::cmp::Ord>::cmp")
def nz_cmp(c):
    return three_way(c)


@model("<core::num::nonzero::NonZero as core::cmp::PartialOrd>::partial_cmp")
def nz_pcmp(c):
    return Some(three_way(c))


def nz_rel(f):
    return lambda c: f(c.read(c.deref(0)), c.read(c.deref(1)))


for _n, _f in (("lt", lt), ("le", le), ("gt", lambda a, b: lt(b, a)), ("ge", lambda a, b: le(b, a))):
    MODELS["<core::num::nonzero::NonZero as core::cmp::PartialOrd>::" + _n] = nz_rel(_f)


@model("core::ops::range::Range::len", "<core::ops::range::Range as core::iter::traits::exact_size::ExactSizeIterator>::len")
def range_len(c):
    v = c.I.simp(c.st, c.read(c.deref(0)))
    a, b = fld(v, 0, 0, 2), fld(v, 1, 0, 2)
    if c.ask(le(a, b)):
        return sub(b, a)
    return Int(0)


def range_next(c, back=False):
    pl = c.deref(0)
    v = c.I.simp(c.st, c.read(pl))
    a, b = fld(v, 0, 0, 2), fld(v, 1, 0, 2)
    if not c.ask(lt(a, b)):
        return NONE
    if back:
        c.write(pl, agg(0, a, sub(b, Int(1))))
        return Some(sub(b, Int(1)))
    c.write(pl, agg(0, add(a, Int(1)), b))
    return Some(a)


MODELS["<core::ops::range::Range as core::iter::traits::iterator::Iterator>::next"] = range_next
MODELS["<core::ops::range::Range as core::iter::traits::double_ended::DoubleEndedIterator>::next_back"] = lambda c: range_next(c, True)


def skip_iter(c, v, ty, k, back=False):
    """The iterator without its first (last) k items, or None when its shape is not known."""
    t = c.I.P.types[ty]
    v = c.I.simp(c.st, v)
    if t["k"] != "adt":
        return None
    if t["name"] in ITERS + OWNED:
        buf, pos, end = fld(v, 0, 0, 3), fld(v, 1, 0, 3), fld(v, 2, 0, 3)
        if not c.ask(le(k, sub(end, pos))):
            return agg(0, buf, end, end)
        return agg(0, buf, pos, sub(end, k)) if back else agg(0, buf, add(pos, k), end)
    n = t["name"].rsplit("::", 1)[-1]
    if n in ("Rev", "Copied", "Cloned") and "adapters::" in t["name"]:
        r = skip_iter(c, fld(v, 0, 0, 1), t["args"][0], k, back != (n == "Rev"))
        return None if r is None else agg(0, r)
    if n == "Enumerate" and "adapters::" in t["name"] and not back:
        r = skip_iter(c, fld(v, 0, 0, 2), t["args"][0], k)
        return None if r is None else agg(0, r, add(fld(v, 1, 0, 2), k))
    if n == "Take" and "adapters::" in t["name"] and not back:
        left = fld(v, 1, 0, 2)
        if not c.ask(le(k, left)):
            return agg(0, fld(v, 0, 0, 2), Int(0))
        r = skip_iter(c, fld(v, 0, 0, 2), t["args"][0], k)
        return None if r is None else agg(0, r, sub(left, k))
    return None


@model("core::iter::traits::iterator::Iterator::skip")
def any_skip(c):
    r = skip_iter(c, c.args[0], c.argtys[0], c.args[1])
    return NotImplemented if r is None else agg(0, r, Int(0))
