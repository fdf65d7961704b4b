"""Path-sensitive forward abstract interpretation of the dumped MIR.

A state maps memory roots to value numbers (terms) and carries the branch facts of its path.
Calls to functions whose bodies are known are expanded in place; calls at module boundaries and
calls of type parameters become events. Loops are analysed for one generic iteration starting
from a state where everything the loop modifies is unknown.
"""
import time
from .terms import *
from .facts import Facts, Contradiction

LIM_STEPS = 400000


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class ForkVal(Exception):
    """Case split on alternatives: list of conditions (exhaustive)."""

    def __init__(self, conds):
        self.conds = conds


class PathEnd(Exception):
    def __init__(self, kind, msg=""):
        self.kind = kind
        self.msg = msg


class Unsupported(Exception):
    pass


class TooBig(Exception):
    pass


class Clock:
    """Time limits: an analysis that takes too long is undecided rather than endless."""
    deadline = None
    run_limit = 120.0

    @classmethod
    def late(cls):
        return cls.deadline is not None and time.time() > cls.deadline


class Ev:
    """An event on a path."""

    __slots__ = ("kind", "d", "line", "fn")

    def __init__(self, kind, d, line, fn):
        self.kind = kind
        self.d = d
        self.line = line
        self.fn = fn

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join("%s=%s" % (k, v) for k, v in self.d.items() if k != "mem"))


class Frame:
    __slots__ = ("fid", "body", "bb", "si", "dest", "target", "loops", "line", "hook")

    def __init__(self, fid, body, dest, target):
        self.fid = fid
        self.body = body
        self.bb = 0
        self.si = 0
        self.dest = dest
        self.target = target
        self.loops = ()
        self.line = body.span
        self.hook = None

    def copy(self):
        f = Frame.__new__(Frame)
        for a in Frame.__slots__:
            setattr(f, a, getattr(self, a))
        return f


class State:
    __slots__ = ("mem", "facts", "stack", "ev", "taint", "kind", "ret", "msg", "where", "dead")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.stack = []
        self.ev = ()
        self.taint = ()
        self.kind = None
        self.ret = None
        self.msg = ""
        self.where = None

    def copy(self):
        s = State.__new__(State)
        s.mem = self.mem
        s.facts = self.facts.copy()
        s.stack = [f.copy() for f in self.stack]
        s.ev = self.ev
        s.taint = self.taint
        s.kind = self.kind
        s.ret = self.ret
        s.msg = self.msg
        s.where = self.where
        return s

    # conveniences for specs
    def events(self, *kinds):
        return [e for e in self.ev if not kinds or e.kind in kinds]

    def guards(self):
        return [show(c) for c in self.facts.log]


class LoopRec:
    """Result of a loop: head state after havoc, the states at the back edges."""

    __slots__ = ("fn", "line", "init", "head", "backs", "cells", "exits", "bb", "body")


def havoc_ok(ty):
    return True


_fids = {}


def fid_of(*k):
    v = _fids.get(k)
    if v is None:
        v = len(_fids) + 1
        _fids[k] = v
    return v


SIGNED_PRIMS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
UNSIGNED_PRIMS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "bool": 1, "char": 32}


class Interp:
    def __init__(self, prog, models, boundaries=None, no_inline=None):
        self.P = prog
        self.models = models
        self.bound = boundaries or {}
        self.no_inline = no_inline
        self.axioms = []
        self.invariant = None  # optional callback(state, looprec-ish) adding head assumptions
        self.steps = 0
        self.panics = []
        self.loops = []
        self.visited = {}   # body key -> set of blocks
        self.calls = {}     # callee key -> count
        self.unmodelled = {}
        self.depth_limit = 60
        self.record = True
        self.max_states = 3000
        self.until = min(time.time() + Clock.run_limit, Clock.deadline or float("inf"))
        self.loop_hints = None
        self.watch = None

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.P.types[i]

    def nfields(self, tyid, variant=None):
        t = self.P.types[tyid]
        k = t["k"]
        if k == "adt":
            p = self.pseudo(t)
            if p:
                return p
            if t["enum"]:
                v = t["variants"][variant if variant is not None else 0]
                return len(v["fields"])
            if t["variants"]:
                return len(t["variants"][0]["fields"])
            return 0
        if k == "tuple":
            return len(t["elems"])
        if k == "closure":
            return len(t["upvars"])
        return 0

    def pseudo(self, t):
        n = t["name"]
        return PSEUDO.get(n)

    def prim(self, tyid):
        if tyid is None:
            return None
        t = self.P.types[tyid]
        return t["s"] if t["k"] == "prim" else None

    def note_bounds(self, st, t, tyid):
        """Registers the range of a value of an unsigned integer type."""
        p = self.prim(tyid)
        if p in ("u8", "u16", "u32", "bool", "char") and t.op not in ("int", "lin") and not is_cond(t):
            st.facts.upper[t] = (1 << UNSIGNED_PRIMS[p]) - 1
        elif p in SIGNED_PRIMS and t.op not in ("int", "lin"):
            from . import facts as F
            F.SIGNED.add(t)

    # ------------------------------------------------------------------ memory
    def deref_root(self, st, v, ptrty):
        """Place denoted by dereferencing pointer value v."""
        v = self.simp(st, v)
        if v.op == "ref":
            return v.args[0], v.args[1]
        if v.op == "slice":
            r = v.args[0]
            if r.op == "ref":
                return r.args[0], r.args[1] + (("s", v.args[1], v.args[2]),)
            return ("O", r), (("s", v.args[1], v.args[2]),)
        t = self.P.types[ptrty] if ptrty is not None else None
        to = self.P.types[t["to"]] if t is not None and "to" in t else None
        if to is not None and (to["k"] == "slice" or to["s"] == "str"):
            return ("O", v), (("s", Int(0), T("app", "len", v)),)
        if t is not None and t["k"] == "ptr" and to["k"] not in ("dyn",):
            return ("O", v), (("i", Int(0)),)
        return ("O", v), ()

    def mkref(self, root, path):
        if path and path[-1][0] == "s":
            s = path[-1]
            if root[0] == "O" and len(path) == 1 and s[1] is Int(0) and s[2] is T("app", "len", root[1]):
                return root[1]
            return T("slice", ref(root, path[:-1]), s[1], s[2])
        if root[0] == "O" and not path:
            # pointer to the whole pointee: the reference itself
            return root[1] if root[1].op != "int" else ref(root, path)
        return ref(root, path)

    def simp(self, st, v):
        """Uses known equalities to expose constructors."""
        if v.op in ("int", "agg", "ref", "slice"):
            return v
        if v.op == "ite":
            return v
        r = st.facts.find(v)
        if r.op in ("int", "agg", "ref", "slice"):
            return r
        ms = st.facts.members.get(r)
        if ms:
            for m in ms:
                if m.op in ("ref", "slice"):
                    return m
        return v

    def root_val(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == "O":
            p = root[1]
            if p.op == "app" and p.args[0] == "promoted":
                return p.args[1]
            for r2 in st.mem:
                if r2[0] == "O" and r2[1] is not p and r2[1].op == p.op:
                    if st.facts.find(r2[1]) is st.facts.find(p):
                        return st.mem[r2]
            return T("app", "deref", p)
        return T("sym", "uninit_%s_%s" % (root[1], root[2]))

    def set_root(self, st, root, v):
        m = dict(st.mem)
        if root[0] == "O" and root not in m:
            p = root[1]
            for r2 in st.mem:
                if r2[0] == "O" and r2[1] is not p and r2[1].op == p.op:
                    if st.facts.find(r2[1]) is st.facts.find(p):
                        root = r2
                        break
        m[root] = v
        st.mem = m

    def ask(self, st, c):
        r = st.facts.decide(c)
        if r is None:
            self.split(st, c)
        return r

    def split(self, st, c):
        """Case split on an undecided condition."""
        while c.op in ("and", "or", "not"):
            if c.op == "not":
                c = c.args[0]
                continue
            for x in c.args:
                if st.facts.decide(x) is None:
                    c = x
                    break
            else:
                break
        raise Fork(c)

    def holds(self, st, c):
        """True if c follows from the facts of the path so far."""
        if st.facts.decide(c) is True:
            return True
        if c.op == "and":
            return all(self.holds(st, x) for x in c.args)
        return st.facts.trial(neg(c))

    def select(self, st, arr, i):
        while True:
            if arr.op == "store":
                a, k, v = arr.args
                r = st.facts.decide_eq(k, i)
                if r is True:
                    return v
                if r is False:
                    arr = a
                    continue
                raise Fork(eq(k, i))
            if arr.op == "agg":
                i2 = self.simp(st, i)
                if i2.op == "int":
                    return fld(arr, i2.args[0])
                n = len(arr.args) - 1
                if n == 0:
                    return T("sel", arr, i)
                raise ForkVal([eq(i, Int(j)) for j in range(n)])
            if arr.op == "const":
                return arr.args[0]
            if arr.op == "shift":  # shift(arr, d): element i is arr[i + d]
                i = add(i, arr.args[1])
                arr = arr.args[0]
                continue
            if arr.op == "cat":    # cat(a, n, b): first n elements of a, then b
                a, n, b = arr.args
                if self.ask(st, lt(i, n)):
                    arr = a
                else:
                    arr = b
                    i = sub(i, n)
                continue
            if arr.op == "upto":   # upto(a, lo, hi, b): b on [lo,hi), a elsewhere
                a, lo, hi, b = arr.args
                if self.ask(st, le(lo, i)) and self.ask(st, lt(i, hi)):
                    arr = b
                else:
                    arr = a
                continue
            if arr.op == "gen":    # element i is the expression with its index replaced
                m = {BOUND: i}
                if len(arr.args) > 1:
                    m[PREV] = self.select(st, arr.args[1], i)
                g = subst(arr.args[0], m)
                if g.op == "alt":
                    for x in g.args[:-1]:
                        if self.ask(st, x.args[1]):
                            return self.simp(st, x.args[2])
                    return self.simp(st, g.args[-1].args[2])
                return self.simp(st, g)
            d = st.facts.arrdef.get(arr)
            if d is not None:
                arr = d
                continue
            a2 = st.facts.find(arr)
            if a2.op in ("agg",) and a2 is not arr:
                arr = a2
                continue
            return T("sel", arr, i)

    def get_path(self, st, v, path):
        var = 0
        for e in path:
            k = e[0]
            if k == "f":
                v = self.simp(st, v) if v.op not in ("agg",) else v
                if v.op == "ite":
                    v = self.pick(st, v)
                if v.op == "agg" and v.args[0] != var:
                    raise PathEnd("infeasible")
                if v.op == "agg" and len(v.args) <= e[1] + 1:
                    raise Unsupported("field %s of %s" % (e, show(v)))
                v = fld(v, e[1], var, e[2] if var == 0 else 0)
                var = 0
            elif k == "v":
                var = e[1]
            elif k == "i":
                v = self.select(st, v, e[1])
            elif k == "s":
                pass
            elif k == "map":
                v = T("app", "mapget", v, e[1])
            else:
                raise Unsupported("path " + k)
        return v

    def pick(self, st, v):
        while v.op == "ite":
            v = v.args[1] if self.ask(st, v.args[0]) else v.args[2]
        return v

    def read(self, st, root, path):
        path = norm_path(path)
        if self.watch is not None and path and root[0] == "O" and path[0][0] == "i":
            self.watch(self, st, root, path[0][1], False)
        return self.get_path(st, self.root_val(st, root), path)

    def set_path(self, st, v, path, new, var=0):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if k == "f":
            n = e[2]
            v = self.simp(st, v) if v.op != "agg" else v
            if v.op == "ite":
                v = self.pick(st, v)
            if v.op == "agg" and v.args[0] == var and len(v.args) == n + 1:
                fs = list(v.args[1:])
            elif v.op == "agg" and v.args[0] != var and len(v.args) > 1:
                # writing into another variant (unreachable)
                raise PathEnd("infeasible")
            else:
                fs = [fld(v, i, var, n if var == 0 else 0) for i in range(n)]
            if e[1] >= len(fs):
                raise Unsupported("field write %s of %s" % (e, show(v)))
            fs[e[1]] = self.set_path(st, fs[e[1]], path[1:], new)
            return agg(var, *fs)
        if k == "v":
            if len(path) == 1:
                return new
            return self.set_path(st, v, path[1:], new, e[1])
        if k == "s":
            return self.set_path(st, v, path[1:], new, var)
        if k == "i":
            i = e[1]
            if v.op == "agg" and self.simp(st, i).op == "int":
                fs = list(v.args[1:])
                j = self.simp(st, i).args[0]
                if j >= len(fs):
                    raise Unsupported("array write")
                fs[j] = self.set_path(st, fs[j], path[1:], new)
                return T("agg", 0, *fs)
            old = None
            if len(path) > 1:
                old = self.select(st, v, i)
                nv = self.set_path(st, old, path[1:], new)
            else:
                nv = new
            return self.store(st, v, i, nv)
        raise Unsupported("write path " + k)

    def store(self, st, a, i, v):
        if v.op == "sel" and v.args[0] is a and v.args[1] is i:
            return a
        if a.op == "store":
            if a.args[1] is i or st.facts.decide_eq(a.args[1], i) is True:
                return self.store(st, a.args[0], i, v)
        return T("store", a, i, v)

    def write(self, st, root, path, v):
        path = norm_path(path)
        if self.watch is not None and path and root[0] == "O" and path[0][0] == "i":
            self.watch(self, st, root, path[0][1], True)
        if not path:
            self.set_root(st, root, v)
        else:
            self.set_root(st, root, self.set_path(st, self.root_val(st, root), path, v))

    # ------------------------------------------------------------------ places
    def place(self, st, fr, p):
        """-> root, path, tyid"""
        if isinstance(p, int):
            return ("L", fr.fid, p), (), fr.body.locals[p]
        loc, proj = p
        root, path, ty = ("L", fr.fid, loc), (), fr.body.locals[loc]
        var = None
        for e in proj:
            if e == "*" or e == "*box":
                v = self.read(st, root, path)
                t = self.P.types[ty]
                if e == "*box":
                    # Box: the pointer is the value itself
                    v = self.simp(st, v)
                    if v.op == "agg":
                        while v.op == "agg" and len(v.args) > 1:
                            v = v.args[1]
                    root, path = self.deref_root(st, v, None)
                    ty = t["args"][0] if t["k"] == "adt" else t["to"]
                else:
                    root, path = self.deref_root(st, v, ty)
                    ty = t["to"]
                var = None
            elif e == "~":
                pass
            elif e[0] == "f":
                n = self.nfields(ty, var)
                t = self.P.types[ty]
                if t["k"] == "adt" and self.pseudo(t) is None and not t["variants"]:
                    n = max(n, e[1] + 1)
                if t["k"] == "adt" and t["enum"] and var is not None:
                    path = path + (("v", var), ("f", e[1], n))
                else:
                    path = path + (("f", e[1], n),)
                ty = e[2]
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                i = self.read(st, ("L", fr.fid, e[1]), ())
                path = idx_path(path, i)
                ty = self.P.types[ty].get("to", ty)
            elif e[0] == "ci":
                if e[3]:
                    n = self.len_of_place(st, root, path, ty)
                    i = sub(n, Int(e[1]))
                else:
                    i = Int(e[1])
                path = idx_path(path, i)
                ty = self.P.types[ty].get("to", ty)
            elif e[0] == "ss":
                n = self.len_of_place(st, root, path, ty)
                end = sub(n, Int(e[2])) if e[3] else Int(e[2])
                if path and path[-1][0] == "s":
                    s0 = path[-1][1]
                    path = path[:-1]
                else:
                    s0 = Int(0)
                path = path + (("s", add(s0, Int(e[1])), sub(end, Int(e[1]))),)
            else:
                raise Unsupported("proj %s" % (e,))
        if var is not None:
            path = path + (("v", var),)
        return root, path, ty

    def len_of_place(self, st, root, path, ty):
        if path and path[-1][0] == "s":
            return path[-1][2]
        t = self.P.types[ty]
        if t["k"] == "array":
            try:
                return Int(int(t["n"].split("_")[0]))
            except ValueError:
                return Sym("N:" + t["n"])
        raise Unsupported("length of " + t["s"])

    # ------------------------------------------------------------------ operands
    def const(self, st, tyid, c):
        t = self.P.types[tyid]
        if "int" in c:
            v = int(c["int"])
            p = t["s"]
            b = SIGNED_PRIMS.get(p)
            if b and v >= 1 << (b - 1):
                v -= 1 << b
            if t["k"] in ("ptr", "ref", "fnptr"):
                return T("app", "addr", Int(v))
            if t["k"] == "adt":
                return self.wrap_int(tyid, v)
            return Int(v)
        if "adt" in c and t["k"] == "adt" and t["name"].endswith("NonZero"):
            while "adt" in c and len(c["adt"]) == 1:
                c = c["adt"][0][1]
            return Int(int(c["int"])) if "int" in c else fresh("const")
        if "adt" in c or "tuple" in c or "array" in c:
            fs = c.get("adt", c.get("tuple", c.get("array")))
            var = c.get("variant") or 0
            n = t["k"] == "adt" and self.pseudo(t)
            if n:
                return self.const_pseudo(t, fs)
            if t["k"] == "adt" and not t["enum"]:
                var = 0
            return T("agg", var, *[self.const(st, a, b) for a, b in fs]) if not fs else agg(var, *[self.const(st, a, b) for a, b in fs])
        if "fn" in c:
            return T("app", "fn", c["fn"]["def"], tuple(c["fn"].get("targs", ())))
        if "ref" in c:
            a, b = c["ref"]
            v = self.const(st, a, b)
            root = ("O", T("app", "promoted", v))
            if root not in st.mem:
                self.set_root(st, root, v)
            to = self.P.types[t["to"]] if "to" in t else None
            if to is not None and to["k"] == "slice" and v.op == "agg":
                return T("slice", ref(root, ()), Int(0), Int(len(v.args) - 1))
            return self.mkref(root, ())
        if "str" in c:
            return T("app", "str", c["str"])
        if "zst" in c:
            if t["k"] == "adt" and self.pseudo(t):
                return T("sym", "zst:" + t["s"])
            return UNIT
        if "uneval" in c:
            return T("app", "const", c["uneval"], tuple(c.get("args") or ()), c.get("promoted"), c.get("body"))
        if "param" in c:
            return T("app", "constparam", c["param"])
        return fresh("const")

    def wrap_int(self, tyid, v):
        # scalar constant of a wrapper type, e.g. NonZero(u32)
        t = self.P.types[tyid]
        if t["enum"]:
            for i, vv in enumerate(t["variants"]):
                d = vv["discr"]
                if d is not None and int(d) == v:
                    return T("agg", i)
            return fresh("enumconst")
        if t["name"].endswith("NonZero") or t["name"].endswith("NonZeroInner"):
            return Int(v)
        if t["variants"]:
            fs = []
            for n, ft in t["variants"][0]["fields"]:
                ft_t = self.P.types[ft]
                if ft_t["k"] == "adt":
                    fs.append(self.wrap_int(ft, v))
                else:
                    fs.append(Int(v))
            return agg(0, *fs)
        return Int(v)

    def const_pseudo(self, t, fs):
        n = t["name"]
        if n.endswith("Vec") or n.endswith("VecDeque"):
            return agg(0, Int(0), T("sym", "nobuf"))
        return fresh("const:" + n)

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            root, path, ty = self.place(st, fr, o[1])
            v = self.read(st, root, path)
            self.note_bounds(st, v, ty)
            return v
        if k == "k":
            return self.const(st, o[1][0], o[1][1])
        if k == "rtc":
            return FALSE
        raise Unsupported("operand %s" % k)

    def operand_ty(self, fr, o):
        if o[0] in ("c", "m"):
            p = o[1]
            if isinstance(p, int):
                return fr.body.locals[p]
            # type of projected place
            ty = fr.body.locals[p[0]]
            for e in p[1]:
                if e in ("*",):
                    ty = self.P.types[ty]["to"]
                elif e == "*box":
                    t = self.P.types[ty]
                    ty = t["args"][0] if t["k"] == "adt" else t["to"]
                elif e[0] == "f":
                    ty = e[2]
                elif e[0] in ("i", "ci"):
                    ty = self.P.types[ty].get("to", ty)
            return ty
        if o[0] == "k":
            return o[1][0]
        return None

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "addr":
            root, path, ty = self.place(st, fr, r[2])
            if k == "addr" and root[0] == "O" and not path:
                return ref(root, ())
            return self.mkref(root, path)
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            a = self.operand(st, fr, r[2])
            return self.unop(st, r[1], a, r[3])
        if k == "discr":
            root, path, ty = self.place(st, fr, r[1])
            v = self.read(st, root, path)
            return self.discr_val(st, v, r[2])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            kind = r[1]
            if kind[0] == "adt":
                t = self.P.types[kind[1]]
                if t["name"].endswith("NonZero"):
                    return ops[0]
                if not ops and not t["enum"]:
                    return UNIT
                return agg(kind[2] if t["enum"] else 0, *ops)
            if kind[0] == "rawptr":
                # fat pointer from (data, len)
                p, n = ops
                return self.slice_from(st, p, n)
            if not ops:
                return UNIT
            if kind[0] == "array":
                return T("agg", 0, *ops)
            return agg(0, *ops)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            return T("const", v)
        if k == "tls":
            return fresh("tls")
        raise Unsupported("rvalue " + k)

    def slice_from(self, st, p, n):
        p = self.simp(st, p)
        if p.op == "ref":
            root, path = p.args
            if path and path[-1][0] == "i":
                return T("slice", ref(root, path[:-1]), path[-1][1], n)
            return T("slice", p, Int(0), n)
        return T("slice", ref(("O", p), ()), Int(0), n)

    def discr_val(self, st, v, tyid):
        v = self.simp(st, v)
        if v.op == "ite":
            v = self.pick(st, v)
        t = self.P.types[tyid]
        if t["k"] != "adt" or not t["enum"]:
            return Int(0)
        vs = t["variants"]
        if v.op == "agg":
            d = vs[v.args[0]]["discr"]
            if d is not None and t["name"] == "core::cmp::Ordering":
                d = self.sw_val(int(d), "i8")
            return Int(int(d) if d is not None else v.args[0])
        if v.op == "int":
            # scalar enum constant
            return v
        ds = [int(x["discr"]) if x["discr"] is not None else i for i, x in enumerate(vs)]
        if t["name"] == "core::cmp::Ordering":
            ds = [self.sw_val(x, "i8") for x in ds]
        d = T("discr", v)
        if ds == list(range(len(ds))):
            if len(vs) == 1:
                return Int(0)
            st.facts.upper[d] = len(vs) - 1
            return d
        r = st.facts.find(d)
        if r.op == "int":
            return Int(ds[r.args[0]])
        raise ForkVal([eq(d, Int(i)) for i in range(len(ds))])

    def cast(self, st, fr, r):
        kind, op, frm, to = r[1], r[2], r[3], r[4]
        v = self.operand(st, fr, op)
        if "IntToInt" in kind:
            pf, pt = self.prim(frm), self.prim(to)
            if is_cond(v):
                return v
            if pt in UNSIGNED_PRIMS and pf in UNSIGNED_PRIMS:
                if UNSIGNED_PRIMS[pt] >= UNSIGNED_PRIMS[pf]:
                    return v
                if v.op == "int":
                    return Int(v.args[0] & ((1 << UNSIGNED_PRIMS[pt]) - 1))
                return self.narrow(st, v, UNSIGNED_PRIMS[pt])
            if v.op == "int":
                x = v.args[0]
                if pt in UNSIGNED_PRIMS:
                    return Int(x & ((1 << UNSIGNED_PRIMS[pt]) - 1))
                b = SIGNED_PRIMS.get(pt)
                if b:
                    x &= (1 << b) - 1
                    if x >= 1 << (b - 1):
                        x -= 1 << b
                    return Int(x)
            if pf is None and self.P.types[frm]["k"] == "adt":
                return self.discr_val(st, v, frm)
            return v
        if "PointerCoercion" in kind:
            if "Reify" in kind or "ClosureFn" in kind:
                c = r[5] if len(r) > 5 else None
                if c is not None:
                    return T("app", "fnptr", c["def"], c.get("inst"))
                tt = self.P.types[frm]
                if tt["k"] == "fndef":
                    return T("app", "fnptr", tt["fn"]["def"], tt["fn"].get("inst"))
                return v
            if "Unsize" in kind:
                ft = self.P.types[frm]
                if "to" in ft and self.P.types[ft["to"]]["k"] == "array":
                    n = self.P.types[ft["to"]]["n"]
                    try:
                        n = Int(int(n.split("_")[0]))
                    except ValueError:
                        n = Sym("N:" + n)
                    v = self.simp(st, v)
                    if v.op == "ref":
                        return T("slice", v, Int(0), n)
                    return T("slice", ref(("O", v), ()), Int(0), n)
                return v
            return v
        if "Transmute" in kind or "PtrToPtr" in kind or "Subtype" in kind or "FnPtr" in kind or "Expose" in kind or "Provenance" in kind:
            ft, tt = self.P.types[frm], self.P.types[to]
            if "Transmute" in kind and v.op == "int" and tt["k"] == "adt" and not tt["enum"]:
                return self.wrap_int(to, v.args[0])
            if ft["k"] == "ref" and tt["k"] == "ptr" and v.op not in ("ref", "slice"):
                return ref(("O", v), ())
            if "Transmute" in kind:
                # wrapper <-> content with a single pointer-sized field
                a = self.transmute(st, v, frm, to)
                if a is not None:
                    return a
            if "to" in ft and "to" in tt and v.op == "slice" and self.P.types[tt["to"]]["k"] not in ("slice",):
                # *[T] -> *T
                return ref_idx(v.args[0], v.args[1])
            if "to" in ft and "to" in tt and self.P.types[ft["to"]]["k"] == "slice" and self.P.types[tt["to"]]["k"] != "slice" and v.op != "ref":
                return ref(("O", v), (("i", Int(0)),))
            if "to" in tt:
                w = self.simp(st, v)
                if w.op == "app" and w.args[0] == "byte_add":
                    i = self.elem_offset(self.simp(st, w.args[2]), self.P.types[tt["to"]]["s"])
                    if i is not None:
                        return self.ptr_add(st, w.args[1], i)
            return v
        return v

    def elem_offset(self, off, ty):
        """k when the byte offset is k * size_of(ty), as written."""
        sz = T("app", "size_of", ty)
        if off is sz:
            return Int(1)
        if off.op == "int" and off.args[0] == 0:
            return off
        if off.op == "app" and off.args[0] == "mul" and sz in off.args[1:]:
            a, b = off.args[1:]
            return b if a is sz else a
        if off.op == "mul" and sz in off.args:
            a, b = off.args
            return b if a is sz else a
        return None

    def transmute(self, st, v, frm, to):
        a, b = self.strip_ty(frm), self.strip_ty(to)
        if a[1] == b[1] == 0:
            return v
        for _ in range(a[1]):
            v = fld(self.simp(st, v), 0, 0, 1)
        for _ in range(b[1]):
            v = agg(0, v)
        return v

    def strip_ty(self, tyid):
        n = 0
        while True:
            t = self.P.types[tyid]
            if t["k"] == "adt" and not t["enum"] and self.pseudo(t) is None and t["variants"] and not t["name"].endswith("NonZero"):
                fs = [f for f in t["variants"][0]["fields"] if not self.is_zst(f[1])]
                if len(fs) == 1 and len(t["variants"][0]["fields"]) == 1:
                    tyid = fs[0][1]
                    n += 1
                    continue
            return tyid, n

    def is_zst(self, tyid):
        t = self.P.types[tyid]
        return t["k"] == "tuple" and not t["elems"] or t["k"] == "adt" and t["name"].endswith("PhantomData") or t["k"] == "fndef"

    def narrow(self, st, v, bits):
        """Truncation; identity when the value is known or assumed to fit."""
        lim = (1 << bits) - 1
        if st.facts.decide(le(v, Int(lim))) is True:
            return v
        if self.assume_fits(v):
            return v
        return T("app", "trunc%d" % bits, v)

    def assume_fits(self, v):
        return False

    def binop(self, st, op, a, b, tyid):
        chk = op.endswith("WithOverflow")
        if chk:
            op = op[: -len("WithOverflow")]
        unchecked = op.endswith("Unchecked")
        if unchecked:
            op = op[: -len("Unchecked")]
        a0, b0 = a, b
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = self.simpint(st, a), self.simpint(st, b)
            if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] == "op":
                xs, ys = self.unpack2(st, a, b)
                if len(xs) > 1:
                    return self.packed_cmp(op, list(zip(xs, ys)))
            if op == "Eq":
                return eq(a, b)
            if op == "Ne":
                return neg(eq(a, b))
            p = self.prim(tyid)
            if op == "Lt":
                return lt(a, b)
            if op == "Le":
                return le(a, b)
            if op == "Gt":
                return lt(b, a)
            return le(b, a)
        if op == "Add":
            v = self.wrapadd(st, a, b, tyid, 1, chk or unchecked)
        elif op == "Sub":
            v = self.wrapadd(st, a, b, tyid, -1, chk or unchecked)
        elif op == "Mul":
            if a.op == "int":
                v = mulc(b, a.args[0])
            elif b.op == "int":
                v = mulc(a, b.args[0])
            else:
                v = T("app", "mul", *sorted((a, b)))
        elif op == "Offset":
            return self.ptr_add(st, a, b)
        elif op == "Cmp":
            raise ForkVal3(a, b)
        elif op in ("BitAnd", "BitOr", "BitXor") and self.prim(tyid) == "bool":
            a, b = self.tocond(a), self.tocond(b)
            if op == "BitAnd":
                v = conj(a, b)
            elif op == "BitOr":
                v = disj(a, b)
            else:
                v = neg(eq(a, b))
        else:
            v = bitop(op, a, b, self.width(tyid))
        if chk:
            return agg(0, v, FALSE)
        return v

    def width(self, tyid):
        p = self.prim(tyid)
        return UNSIGNED_PRIMS.get(p) or SIGNED_PRIMS.get(p) or 64

    def unpack(self, st, t):
        """(high, k, low) if t is high << k | low without overlap."""
        if t.op == "app" and t.args[0] == "op" and t.args[1] == "BitOr":
            w = t.args[2]
            for h, l in ((t.args[3], t.args[4]), (t.args[4], t.args[3])):
                if h.op == "app" and h.args[0] == "op" and h.args[1] == "Shl" and h.args[4].op == "int":
                    k = h.args[4].args[0]
                    if 0 < k < w and self.holds(st, le(l, Int((1 << k) - 1))) and self.holds(st, le(h.args[3], Int((1 << (w - k)) - 1))):
                        return h.args[3], k, l
        return None

    def unpack2(self, st, a, b):
        """Comparable parts of two values, most significant first."""
        p, q = self.unpack(st, a), self.unpack(st, b)
        if p and q and p[1] == q[1]:
            return [p[0], p[2]], [q[0], q[2]]
        return [a], [b]

    def packed_cmp(self, op, parts):
        (x, y), (u, v) = parts
        if op in ("Gt", "Ge"):
            op = {"Gt": "Lt", "Ge": "Le"}[op]
            x, y, u, v = y, x, v, u
        if op in ("Eq", "Ne"):
            e = conj(eq(x, y), eq(u, v))
            return e if op == "Eq" else neg(e)
        return disj(lt(x, y), conj(eq(x, y), lt(u, v) if op == "Lt" else le(u, v)))

    def simpint(self, st, a):
        if a.op in ("int", "lin") or is_cond(a):
            return a
        r = st.facts.find(a)
        return r if r.op == "int" else a

    def tocond(self, a):
        return a

    def wrapadd(self, st, a, b, tyid, sgn, checked):
        if is_bits(a) or is_bits(b):
            r = bit_add(a, b, sgn)
            if r is not None:
                return r
        return add(a, b) if sgn > 0 else sub(a, b)

    def unop(self, st, op, a, tyid):
        if op == "Not":
            if self.prim(tyid) == "bool":
                if a.op == "int" or is_cond(a):
                    return neg(a)
                return neg(a) if a.op == "app" and a.args[0] == "cond" else T("not", a)
            if a.op == "int" and self.prim(tyid) in UNSIGNED_PRIMS:
                return Int(a.args[0] ^ ((1 << UNSIGNED_PRIMS[self.prim(tyid)]) - 1))
            return bitop("Not", a, None, self.width(tyid))
        if op == "Neg":
            return mulc(a, -1)
        if op == "PtrMetadata":
            return self.slice_len(st, a)
        raise Unsupported("unop " + op)

    def slice_len(self, st, a):
        a = self.simp(st, a)
        if a.op == "slice":
            return a.args[2]
        if a.op == "app" and a.args[0] == "str":
            return Int(len(a.args[1]))
        return T("app", "len", a)

    def ptr_add(self, st, p, n):
        p = self.simp(st, p)
        if p.op == "ref":
            root, path = p.args
            if path and path[-1][0] == "i":
                return ref(root, path[:-1] + (("i", add(path[-1][1], n)),))
            return ref(root, path + (("i", n),))
        if p.op == "slice":
            return ref_idx(p.args[0], add(p.args[1], n))
        return ref(("O", p), (("i", n),))

    # ------------------------------------------------------------------ running
    def start(self, inst, args, facts=None, mem=None):
        body = self.P.body(inst)
        st = State()
        if facts is not None:
            st.facts = facts
        st.facts.axioms = self.axioms
        if mem:
            st.mem = dict(mem)
        fr = Frame(fid_of("root", inst), body, None, None)
        st.stack = [fr]
        m = dict(st.mem)
        for i, a in enumerate(args):
            m[("L", fr.fid, i + 1)] = a
        st.mem = m
        return st

    def run(self, st):
        """All terminal states (return / panic)."""
        self.final = []
        self._explore([st], None)
        return self.final

    def _explore(self, work, loop):
        """loop: None or a LoopCtx; states leaving the loop are appended to loop.out."""
        while work:
            st = work.pop()
            if len(work) > self.max_states:
                raise TooBig("too many states in %s" % st.stack[0].body.key)
            self.drive(st, work, loop)

    def finish(self, st, kind, msg="", ret=None):
        st.kind = kind
        st.msg = msg
        st.ret = ret
        fr = st.stack[-1] if st.stack else None
        st.where = [(f.body.key, f.line) for f in st.stack]
        if self.record:
            self.final.append(st)

    def drive(self, st, work, loop):
        """Runs one state until it forks, ends, or leaves the current loop."""
        while True:
            self.steps += 1
            if self.steps > LIM_STEPS:
                raise TooBig("step limit")
            if not self.steps & 63 and time.time() > self.until:
                raise TooBig("time limit")
            fr = st.stack[-1]
            body = fr.body
            # block entry: loop handling
            if fr.si == 0:
                b = fr.bb
                body.analyse()
                self.visited.setdefault(body.key, set()).add(b)
                if loop is not None and fr.fid == loop.fid:
                    if b == loop.bb and fr.loops and fr.loops[-1] == (loop.bb, loop.n):
                        loop.backs.append(st)
                        return
                    if b not in loop.blocks:
                        fr.loops = fr.loops[:-1]
                        loop.outs.append(st)
                        return
                if b in body.heads and not (fr.loops and fr.loops[-1][0] == b and fr.loops[-1][2:] == ("in",)):
                    self.loop(st, fr, b, work)
                    return
            blk = body.blocks[fr.bb]
            stm = blk["s"]
            try:
                while fr.si < len(stm):
                    s = stm[fr.si]
                    mem0, ev0 = st.mem, st.ev
                    self.stmt(st, fr, s)
                    fr.si += 1
                mem0, ev0 = st.mem, st.ev
                res = self.term(st, fr, blk["t"], work)
                if res is False:
                    return
                continue
            except Fork as e:
                st.mem, st.ev = mem0, ev0
                self.fork(st, [(e.cond, True), (e.cond, False)], work)
                return
            except ForkVal as e:
                st.mem, st.ev = mem0, ev0
                self.fork(st, [(c, True) for c in e.conds], work)
                return
            except PathEnd as e:
                if e.kind == "infeasible":
                    return
                self.finish(st, e.kind, e.msg)
                return
            except Contradiction:
                return
            except Unsupported as e:
                self.finish(st, "unsupported", str(e))
                return

    def fork(self, st, alts, work):
        out = []
        for i, (c, v) in enumerate(alts):
            s = st.copy() if i + 1 < len(alts) else st
            if s.facts.assume(c, v):
                out.append(s)
        work.extend(reversed(out))

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            fr.line = s[3]
            root, path, ty = self.place(st, fr, s[1])
            v = self.rvalue(st, fr, s[2], ty)
            self.note_bounds(st, v, ty)
            self.write(st, root, path, v)
        elif k == "setdiscr":
            fr.line = s[3]
            root, path, ty = self.place(st, fr, s[1])
            v = self.read(st, root, path)
            if v.op == "agg" and v.args[0] == s[2]:
                return
            t = self.P.types[ty]
            n = len(t["variants"][s[2]]["fields"])
            self.write(st, root, path, T("agg", s[2], *[fld(v, i, s[2]) if v.op != "agg" else fresh("f") for i in range(n)]))
        elif k == "copy":
            fr.line = s[4]
            a = self.operand(st, fr, s[1])
            d = self.operand(st, fr, s[2])
            n = self.operand(st, fr, s[3])
            self.copy_mem(st, fr, a, d, n, True)
        elif k in ("nop",):
            pass
        else:
            raise Unsupported("stmt " + k)

    def elem_place(self, st, p):
        """Place of the element a raw pointer points to."""
        p = self.simp(st, p)
        if p.op == "ref":
            return p.args
        return ("O", p), (("i", Int(0)),)

    def copy_mem(self, st, fr, src, dst, n, nonoverlap):
        n = self.simpint(st, n)
        self.event(st, "copy", src=src, dst=dst, n=n, nonoverlap=nonoverlap)
        if n is Int(1) or n is TRUE:
            r, p = self.elem_place(st, src)
            v = self.read(st, r, p)
            r, p = self.elem_place(st, dst)
            self.write(st, r, p, v)
            return
        sr, sp = self.elem_place(st, src)
        dr, dp = self.elem_place(st, dst)
        if not (sp and sp[-1][0] == "i"):
            sp = sp + (("i", Int(0)),)
        if not (dp and dp[-1][0] == "i"):
            dp = dp + (("i", Int(0)),)
        si, di = sp[-1][1], dp[-1][1]
        sa = self.read(st, sr, sp[:-1])
        da = self.read(st, dr, dp[:-1])
        b = sa if sub(si, di) is Int(0) else T("shift", sa, sub(si, di))
        if di is Int(0) and da.op == "app" and da.args[0] == "deref":
            nv = T("upto", da, di, add(di, n), b)
        else:
            nv = T("upto", da, di, add(di, n), b)
        self.write(st, dr, dp[:-1], nv)

    def event(self, st, kind, **d):
        fr = st.stack[-1]
        if kind == "unchecked":
            d["ok"] = self.holds(st, d["cond"])
        st.ev = st.ev + (Ev(kind, d, fr.line, fr.body.key),)

    # ------------------------------------------------------------------ terminators
    def goto(self, fr, b):
        fr.bb = b
        fr.si = 0

    def term(self, st, fr, t, work):
        k = t[0]
        if k == "goto":
            self.goto(fr, t[1])
            return
        if k == "switch":
            fr.line = t[5] if len(t) > 5 else fr.line
            v = self.operand(st, fr, t[1])
            v = self.simpint(st, v)
            ty = t[4]
            if v.op == "ite":
                v = self.pick(st, v)
            if v.op == "int":
                x = v.args[0]
                pb = self.prim(ty)
                for val, b in t[2]:
                    if self.sw_val(val, pb) == x:
                        self.goto(fr, b)
                        return
                self.goto(fr, t[3])
                return
            boolean = self.prim(ty) == "bool"
            if boolean:
                # [[0, bbFalse]], otherwise
                c = v
                r = st.facts.decide(c)
                bf = t[2][0][1] if self.sw_val(t[2][0][0], "bool") == 0 else None
                if bf is None:
                    bt = t[2][0][1]
                    bf = t[3]
                else:
                    bt = t[3]
                if r is None:
                    self.split(st, c)
                self.goto(fr, bt if r else bf)
                return
            # multiway
            alts = []
            hi = st.facts.bound(v)
            rest = []
            vals = [self.sw_val(x, self.prim(ty)) for x, _ in t[2]]
            for val, (_, b) in zip(vals, t[2]):
                r = st.facts.decide(eq(v, Int(val)))
                if r is True:
                    self.goto(fr, b)
                    return
                if r is None:
                    alts.append((eq(v, Int(val)), b))
            other = True
            if v.op == "discr" and hi is not None and set(range(hi + 1)) <= set(vals):
                other = False
            if other and fr.body.blocks[t[3]]["t"][0] == "unreachable":
                other = False
            n = 0
            outs = []
            for c, b in alts:
                s = st.copy()
                if s.facts.assume(c, True):
                    self.goto(s.stack[-1], b)
                    outs.append(s)
            if other:
                s = st.copy()
                ok = True
                for c, b in alts:
                    if not s.facts.assume(c, False):
                        ok = False
                        break
                if ok:
                    self.goto(s.stack[-1], t[3])
                    outs.append(s)
            work.extend(reversed(outs))
            return False
        if k == "return":
            return self.ret(st, fr, work)
        if k == "unreachable":
            fr.line = t[-1] if isinstance(t[-1], str) else fr.line
            self.finish(st, "unreachable", "unreachable code")
            return False
        if k == "drop":
            fr.line = t[-1] if isinstance(t[-1], str) else fr.line
            if t[3]:
                root, path, ty = self.place(st, fr, t[1])
                self.drop_place(st, fr, root, path, t[2])
            self.goto(fr, t[4])
            return
        if k == "assert":
            fr.line = t[-1] if isinstance(t[-1], str) else fr.line
            msg = t[3]
            if msg[0] in ("overflow", "pointer"):
                self.goto(fr, t[4])
                return
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = neg(c) if c.op == "int" or is_cond(c) else T("not", c)
            r = st.facts.decide(c)
            if r is None:
                self.split(st, c)
            if r:
                self.goto(fr, t[4])
                return
            raise PathEnd("panic", "assert:" + (msg[0] if isinstance(msg, list) else str(msg)))
        if k == "call":
            fr.line = t[-1] if isinstance(t[-1], str) else fr.line
            return self.call(st, fr, t, work)
        if k == "py":
            b = t[1](self, st, fr)
            if b is not None:
                self.goto(fr, b)
            return
        raise Unsupported("terminator " + k)

    def sw_val(self, v, p):
        v = int(v)
        b = SIGNED_PRIMS.get(p)
        if b and v >= 1 << (b - 1):
            v -= 1 << b
        return v

    def ret(self, st, fr, work):
        v = st.mem.get(("L", fr.fid, 0), UNIT)
        st.stack.pop()
        if not st.stack:
            st.stack.append(fr)
            self.finish(st, "return", ret=v)
            return False
        m = {k: x for k, x in st.mem.items() if not (k[0] == "L" and k[1] == fr.fid)}
        st.mem = m
        if fr.hook is not None:
            v = fr.hook(self, st, v)
        caller = st.stack[-1]
        if fr.dest is not None:
            self.write(st, fr.dest[0], fr.dest[1], v)
        self.goto(caller, fr.target)
        return

    def drop_place(self, st, fr, root, path, tyid):
        v = self.read(st, root, path)
        self.drop_value(st, v, tyid, (root, path))

    def drop_value(self, st, v, tyid, place=None):
        t = self.P.types[tyid]
        self.event(st, "drop", v=v, ty=tyid, s=t["s"], place=place, mem=st.mem)

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, t, work):
        func, args, dest, target = t[1], t[2], t[3], t[4]
        argtys, destty = t[6], t[7]
        av = [self.operand(st, fr, a) for a in args]
        cal = None
        if func[0] == "k":
            c = func[1][1]
            if "fn" in c:
                cal = c["fn"]
            else:
                ft = self.P.types[func[1][0]]
                if ft["k"] == "fndef":
                    cal = ft["fn"]
        if cal is None:
            fv = self.simp(st, self.operand(st, fr, func))
            if fv.op == "app" and fv.args[0] == "fnptr":
                cal = {"def": fv.args[1], "key": fv.args[1], "inst": fv.args[2]}
            else:
                fty = self.operand_ty(fr, func)
                if fty is not None and self.P.types[fty]["k"] == "fndef":
                    cal = self.P.types[fty]["fn"]
                else:
                    cal = {"def": "<fnptr>", "key": "<fnptr>", "fv": fv}
        return self.do_call(st, fr, cal, av, argtys, dest, destty, target, work)

    def do_call(self, st, fr, cal, av, argtys, dest, destty, target, work):
        key = cal.get("rkey") or cal["key"]
        self.calls[key] = self.calls.get(key, 0) + 1
        c = Call(self, st, fr, cal, key, av, argtys, destty)
        v = NotImplemented
        h = self.bound.get(key) or self.bound.get(cal["key"])
        if h is not None:
            v = h(c)
        if v is NotImplemented:
            h = self.models.get(key) or self.models.get(cal["key"])
            if h is None and "intrinsic" in cal:
                h = self.models.get("intrinsic:" + cal["intrinsic"])
            if h is not None:
                v = h(c)
        if v is NotImplemented and "ctor" in cal:
            ot, var = cal["ctor"]
            tt = self.P.types[ot]
            v = agg(var if tt["enum"] else 0, *av)
        if v is NotImplemented and cal.get("inst") is not None and len(st.stack) < self.depth_limit:
            inst = cal["inst"]
            try:
                b = self.P.body(inst)
            except KeyError:
                b = None
            if b is not None:
                return self.enter(st, fr, b, av, dest, target, cal)
        if v is NotImplemented:
            v = self.unknown(c)
        if isinstance(v, Inline):
            return self.enter(st, fr, v.body, v.args, dest, target, cal, v.hook, v.tag)
        if target is None:
            raise PathEnd("panic", key)
        if v is None:
            v = UNIT
        if dest is not None:
            root, path, ty = self.place(st, fr, dest)
            self.note_bounds(st, v, ty)
            self.write(st, root, path, v)
        self.goto(fr, target)

    def bitsy(self, c):
        return False

    def enter(self, st, fr, b, av, dest, target, cal, hook=None, tag=None):
        b.analyse()
        nf = Frame(fid_of(fr.fid, fr.bb, b.id, tag), b, None, target)
        nf.hook = hook
        for f in st.stack:
            if f.fid == nf.fid:
                raise Unsupported("recursion in " + b.key)
        if dest is not None:
            root, path, ty = self.place(st, fr, dest)
            nf.dest = (root, path)
        else:
            nf.dest = None
        args = list(av)
        if b.spread is not None:
            # the last argument of the body is a tuple of the remaining arguments
            n = b.spread
            if len(args) >= n and len(args) != b.argc:
                args = args[: n - 1] + [agg(0, *args[n - 1 :]) if args[n - 1 :] else UNIT]
        elif len(args) == 2 and b.argc != 2 or (len(args) == 2 and b.key.endswith("{closure}") and cal.get("method") in ("call", "call_mut", "call_once")):
            tupv = self.simp(st, args[1])
            n = b.argc - 1
            args = [args[0]] + [fld(tupv, i, 0, n) for i in range(n)]
        if len(args) != b.argc:
            raise Unsupported("argument count of %s: %d/%d" % (b.key, len(args), b.argc))
        m = dict(st.mem)
        for i, a in enumerate(args):
            m[("L", nf.fid, i + 1)] = a
        st.mem = m
        if target is None:
            nf.target = -1
        st.stack.append(nf)
        return

    def call_closure(self, st, f, fty, args):
        """Inline object for calling closure / fn-item value f of type fty with args."""
        t = self.P.types[fty]
        byref = 0
        while t["k"] == "ref":
            byref += 1
            fty = t["to"]
            t = self.P.types[fty]
        if t["k"] == "closure" and t.get("inst") is not None:
            b = self.P.body(t["inst"])
            # self argument kind
            st0 = self.P.types[b.locals[1]] if b.argc else None
            self_ref = st0 is not None and st0["k"] == "ref"
            if byref and not self_ref:
                r, p = self.deref_root(st, f, None)
                f = self.read(st, r, p)
            elif not byref and self_ref:
                # give the closure value an address
                root = ("O", T("app", "closure", f))
                self.set_root(st, root, f)
                f = self.mkref(root, ())
            return b, [f] + list(args)
        if t["k"] == "fndef":
            c = t["fn"]
            return c, list(args)
        return None, None

    def unknown(self, c):
        """Call with no body and no model."""
        pure = True
        for a, ty in zip(c.args, c.argtys):
            if self.has_mut(ty):
                pure = False
        cal = c.cal
        if cal.get("unresolved") or "virtual" in cal or c.key == "<fnptr>":
            return self.opaque_call(c, pure)
        self.unmodelled[c.key] = self.unmodelled.get(c.key, 0) + 1
        c.st.taint = c.st.taint + (c.key,)
        return self.opaque_call(c, pure)

    def has_mut(self, ty):
        t = self.P.types[ty]
        if t["k"] == "ref":
            return t["mut"]
        if t["k"] in ("tuple",):
            return any(self.has_mut(x) for x in t["elems"])
        if t["k"] == "closure":
            return any(self.has_mut(x) for x in t["upvars"])
        return False

    def opaque_call(self, c, pure):
        st = c.st
        targs = tuple(self.P.types[x]["s"] for x in (c.cal.get("targs") or ()))
        name = c.cal["key"] if "key" in c.cal else c.key
        if pure:
            v = T("app", "call", name, targs, *c.args)
            self.event(st, "call", name=name, targs=targs, args=list(c.args), ret=v, cal=c.cal, pure=True)
            return v
        v = fresh("ret:" + name.split("::")[-1])
        self.event(st, "call", name=name, targs=targs, args=list(c.args), ret=v, cal=c.cal, pure=False, mem=st.mem)
        for a, ty in zip(c.args, c.argtys):
            self.havoc_arg(st, a, ty)
        return v

    def havoc_arg(self, st, a, ty):
        t = self.P.types[ty]
        if t["k"] == "ref" and t["mut"]:
            r, p = self.deref_root(st, a, ty)
            try:
                self.write(st, r, p, fresh("havoc"))
            except Unsupported:
                pass
        elif t["k"] == "tuple":
            for i, x in enumerate(t["elems"]):
                self.havoc_arg(st, fld(a, i, 0, len(t["elems"])), x)

    # ------------------------------------------------------------------ loops
    def loop(self, st, fr, b, work):
        body = fr.body
        blocks = body.loopof[b]
        cells = {}
        cands = None
        base = st
        n = 0
        while True:
            n += 1
            if n > 12:
                raise Unsupported("loop does not stabilise in " + body.key)
            head = base.copy()
            hfr = head.stack[-1]
            syms = {}
            for (root, path), info in cells.items():
                s = Sym("h%d.%d.%s" % (fr.fid, b, info))
                # distinct per round is not needed: facts of a round are dropped
                syms[(root, path)] = s
                try:
                    old = self.read(base, root, path)
                except (Fork, ForkVal, PathEnd):
                    old = None
                self.copy_type_info(old, s, base, head)
                self.write(head, root, path, s)
            head.ev = ()
            if cands:
                for c in cands:
                    cc = c(syms)
                    if cc is not None and not head.facts.assume(cc):
                        pass
            if self.loop_hints is not None:
                self.loop_hints(self, body, b, base, head, syms)
            head0 = head.copy()
            ctx = LoopCtx()
            ctx.fid = fr.fid
            ctx.bb = b
            ctx.n = (fr.fid, b)
            ctx.blocks = blocks
            ctx.backs = []
            ctx.outs = []
            hfr.loops = hfr.loops + ((b, ctx.n),)
            # mark as entered: the first block is executed without loop check
            rec, fin = self.record, self.final
            self.final = []
            self.record = True
            self.first_block(head, ctx)
            newfinal = self.final
            self.final = fin
            self.record = rec
            # modified cells
            new = {}
            for bs in ctx.backs:
                for root, hv in head0.mem.items():
                    bv = bs.mem.get(root)
                    if bv is None or bv is hv:
                        continue
                    self.diff(bs, hv, bv, root, (), new)
                for root, bv in bs.mem.items():
                    if root[0] == "O" and root not in head0.mem:
                        hv = self.root_val(head0, root)
                        if hv is not bv:
                            self.diff(bs, hv, bv, root, (), new)
            grow = [c for c in new if not self.covered(c, cells)]
            if grow:
                for c in grow:
                    # drop finer cells
                    for o in list(cells):
                        if o[0] == c[0] and o[1][: len(c[1])] == c[1]:
                            del cells[o]
                    cells[c] = cellname(c, fr)
                cands = None
                continue
            # candidate linear invariants
            if cands is None:
                cands = self.candidates(base, head0, ctx.backs, syms)
                if cands:
                    cands = [c for c in cands if self.holds_init(c, base, cells)]
                if cands:
                    continue
                cands = []
            bad = False
            keep = []
            for c in cands:
                ok = True
                for bs in ctx.backs:
                    vals = {}
                    for cell in cells:
                        try:
                            vals[cell] = self.read(bs, cell[0], cell[1])
                        except (Fork, ForkVal):
                            vals[cell] = fresh("?")
                    cc = c(vals)
                    if cc is None or bs.facts.decide(cc) is not True:
                        ok = False
                        break
                if ok:
                    keep.append(c)
                else:
                    bad = True
            if bad:
                cands = keep
                continue
            break
        defs = self.recurrences(base, head0, syms, ctx.backs)
        if defs:
            for s in ctx.outs + newfinal:
                s.facts.arrdef = dict(s.facts.arrdef)
                s.facts.arrdef.update(defs)
        ax = self.universals(base, head0, syms, ctx.backs)
        if ax:
            for s in ctx.outs + newfinal:
                s.facts.add_universals(ax)
        rec = LoopRec()
        rec.fn = body.key
        rec.line = fr.line
        rec.init = base
        rec.head = head0
        rec.backs = ctx.backs
        rec.cells = syms
        rec.exits = ctx.outs
        rec.bb = b
        rec.body = body
        if self.record:
            self.loops.append(rec)
        for s in newfinal:
            s.ev = base.ev + (Ev("loop", {"rec": rec, "partial": True}, fr.line, body.key),) + s.ev
            if self.record:
                self.final.append(s)
        for s in ctx.outs:
            s.ev = base.ev + (Ev("loop", {"rec": rec, "last": s.ev}, fr.line, body.key),)
            for bs in ctx.backs:
                s.taint = s.taint + tuple(x for x in bs.taint if x not in s.taint)
            # may leave an enclosing loop of the same frame as well
            work.append(s)

    def first_block(self, head, ctx):
        work = [head]
        st = work.pop()
        fr = st.stack[-1]
        # execute the head block without the loop-entry test
        self.drive_from(st, work, ctx)
        self._explore(work, ctx)

    def drive_from(self, st, work, ctx):
        fr = st.stack[-1]
        body = fr.body
        blk = body.blocks[fr.bb]
        self.visited.setdefault(body.key, set()).add(fr.bb)
        pend = [st]
        while pend:
            s = pend.pop()
            f = s.stack[-1]
            try:
                while f.si < len(blk["s"]):
                    mem0, ev0 = s.mem, s.ev
                    self.stmt(s, f, blk["s"][f.si])
                    f.si += 1
                mem0, ev0 = s.mem, s.ev
                w = []
                res = self.term(s, f, blk["t"], w)
                if res is not False:
                    w.append(s)
                for x in w:
                    work.append(x)
            except Fork as e:
                s.mem, s.ev = mem0, ev0
                w = []
                self.fork(s, [(e.cond, True), (e.cond, False)], w)
                pend.extend(w)
            except ForkVal as e:
                s.mem, s.ev = mem0, ev0
                w = []
                self.fork(s, [(c, True) for c in e.conds], w)
                pend.extend(w)
            except PathEnd as e:
                if e.kind != "infeasible":
                    self.finish(s, e.kind, e.msg)
            except Contradiction:
                pass
            except Unsupported as e:
                self.finish(s, "unsupported", str(e))

    def copy_type_info(self, old, s, base, head):
        from . import facts as F
        if old is None:
            return
        if old in F.SIGNED:
            F.SIGNED.add(s)
        if old in struct_n:
            struct_n[s] = struct_n[old]
        if old.op == "agg" and old.args[0] == 0 and len(old.args) > 2:
            pass
        u = base.facts.upper.get(old)
        if u is not None:
            head.facts.upper[s] = u

    def covered(self, c, cells):
        for o in cells:
            if o[0] == c[0] and c[1][: len(o[1])] == o[1]:
                return True
        return False

    def diff(self, st, a, b, root, path, out):
        if a is b:
            return
        if st.facts.find(a) is st.facts.find(b) and a.op not in ("store",):
            return
        if b.op == "agg" and b.args[0] == 0 and len(b.args) > 1:
            n = len(b.args) - 1
            if a.op == "agg" and a.args[0] == 0 and len(a.args) == n + 1:
                for i in range(n):
                    self.diff(st, a.args[1 + i], b.args[1 + i], root, path + (("f", i, n),), out)
                return
            if a.op != "agg" and struct_n.get(a) == n:
                for i in range(n):
                    self.diff(st, fld(a, i, 0, n), b.args[1 + i], root, path + (("f", i, n),), out)
                return
        if b.op == "agg" and a.op == "agg" and b.args[0] == a.args[0] and len(a.args) == len(b.args) > 1:
            # the same variant of an enum
            n = len(b.args) - 1
            for i in range(n):
                self.diff(st, a.args[1 + i], b.args[1 + i], root, path + (("v", b.args[0]), ("f", i, n)), out)
            return
        out[(root, path)] = True

    def candidates(self, base, head, backs, syms):
        """Linear loop invariants suggested by the branch conditions of the loop."""
        inv = {}
        symset = {s: c for c, s in syms.items()}
        seen = set()
        out = []

        def cand(lin, sub1):
            # lin over syms, possibly nested; replaced by the cell values
            nested = {s for a in lin_parts(lin)[1] if a not in symset for s in subterms(a) if s in symset}

            def f(vals):
                c, d = lin_parts(lin)
                r = Int(c)
                m = None
                for a, k in d.items():
                    if a in symset:
                        v = vals.get(symset[a])
                        if v is None:
                            return None
                        r = add(r, mulc(v, k))
                    elif nested:
                        if m is None:
                            m = {s: vals[symset[s]] for s in nested if vals.get(symset[s]) is not None}
                        r = add(r, mulc(resel(subst(a, m)), k))
                    else:
                        r = add(r, mulc(a, k))
                return T("le", r) if r.op != "int" else Bool(r.args[0] <= 0)

            return f

        def emit(lin):
            if lin.op == "int" or lin in seen:
                return
            seen.add(lin)
            out.append(cand(lin, 0))

        for bs in backs:
            new = bs.facts.log[len(head.facts.log):]
            for g in new:
                for l in conj_lits(g):
                    if l.op == "le":
                        d = l.args[0]
                        if any(a in symset for a in lin_parts(d)[1]):
                            emit(d)
                            emit(sub(d, Int(1)))
                            if len(lin_parts(d)[1]) > 1:
                                emit(add(d, Int(1)))
                    elif l.op == "not" and l.args[0].op == "eq":
                        x, y = l.args[0].args
                        d = sub(x, y)
                        if d.op != "int" and any(a in symset for a in lin_parts(d)[1]):
                            emit(d)
                            emit(mulc(d, -1))
        # monotone cells
        for cell, s in syms.items():
            try:
                iv = self.read(base, cell[0], cell[1])
            except (Fork, ForkVal, PathEnd):
                continue
            if iv.op in ("agg", "ref", "slice", "store") or is_cond(iv):
                continue
            up = down = True
            for bs in backs:
                try:
                    bv = self.read(bs, cell[0], cell[1])
                except (Fork, ForkVal, PathEnd):
                    up = down = False
                    break
                d = sub(bv, s)
                if d.op == "int":
                    if d.args[0] < 0:
                        up = False
                    if d.args[0] > 0:
                        down = False
                else:
                    up = down = False
            if up:
                emit(sub(iv, s))
            if down:
                emit(sub(s, iv))
        # flags and the cells that change with them
        flags, consts = [], []
        for cell, s in syms.items():
            try:
                iv = self.read(base, cell[0], cell[1])
                bvs = [self.read(bs, cell[0], cell[1]) for bs in backs]
            except (Fork, ForkVal, PathEnd):
                continue
            if iv.op != "int":
                continue
            if iv.args[0] in (0, 1) and all(b is s or b is Int(0) or b is Int(1) for b in bvs):
                flags.append((s, iv.args[0]))
                emit(mulc(s, -1))
                emit(sub(s, Int(1)))
            consts.append((s, iv.args[0]))

        def flag_cand(s, v, t, rel):
            def f(vals):
                a, b = vals.get(symset[s]), vals.get(symset[t])
                if a is None or b is None:
                    return None
                r = rel(b)
                x = self.simpint(base, a)
                if x.op == "int":
                    return TRUE if x.args[0] == v else r
                if r.op == "int":
                    return TRUE if r.args[0] else eq(a, Int(v))
                return disj(eq(a, Int(v)), r)

            return f

        for s, v in flags[:4]:
            for t, w in consts[:8]:
                if t is s:
                    continue
                # unchanged while the flag is, at the other side of its initial value afterwards
                for k, rel in ((1 - v, lambda b, w=w: le(b, Int(w))), (1 - v, lambda b, w=w: le(Int(w), b)),
                               (v, lambda b, w=w: le(Int(w + 1), b)), (v, lambda b, w=w: le(b, Int(w + 1)))):
                    out.append(flag_cand(s, k, t, rel))
        # cells that follow the element an array had at the previous position
        runs = self.runs(base, head, backs, syms) if len(syms) <= 24 else []
        for s, iv, arr, idx, i0, used in runs:
            def run(vals, s=s, iv=iv, arr=arr, idx=idx, i0=i0, used=used, first=False):
                m = {u: vals.get(symset[u]) for u in used}
                v = vals.get(symset[s])
                if v is None or any(x is None for x in m.values()):
                    return None
                i = subst(idx, m)
                at0 = eq(i, i0)
                if first:
                    return disj(neg(at0), eq(v, iv))
                return disj(at0, eq(v, add(iv, T("sel", arr, sub(i, Int(1))))))

            out.append(run)
            out.append(lambda vals, run=run: run(vals, first=True))
        # pairs moving together
        items, odd = [], []
        for cell, s in syms.items():
            try:
                iv = self.read(base, cell[0], cell[1])
                bvs = [self.read(bs, cell[0], cell[1]) for bs in backs]
            except (Fork, ForkVal, PathEnd):
                continue
            if iv.op in ("agg", "ref", "slice", "store") or is_cond(iv):
                continue
            ds = [sub(bv, s) for bv in bvs]
            if ds and all(d.op == "int" for d in ds):
                items.append((s, iv, [d.args[0] for d in ds]))
            elif ds and all(d.op in ("int", "lin") for d in ds):
                odd.append((s, iv, ds))
        for i in range(min(len(odd), 8)):
            for j in range(i):
                s1, i1, d1 = odd[i]
                s2, i2, d2 = odd[j]
                if all(bs.facts.decide(eq(x, y)) is True or (bs.facts.decide(le(x, y)) is True and bs.facts.decide(le(y, x)) is True)
                       for bs, x, y in zip(backs, d1, d2)):
                    l = sub(sub(s1, i1), sub(s2, i2))
                    emit(l)
                    emit(mulc(l, -1))
        for i in range(len(items)):
            for j in range(i):
                s1, i1, d1 = items[i]
                s2, i2, d2 = items[j]
                if d1 == d2:
                    l = sub(sub(s1, i1), sub(s2, i2))
                    emit(l)
                    emit(mulc(l, -1))
                elif d1 == [-x for x in d2]:
                    l = sub(add(s1, s2), add(i1, i2))
                    emit(l)
                    emit(mulc(l, -1))
        return out

    def runs(self, base, head, backs, syms):
        """Cells and the arrays whose elements are visited in order: (cell, start, array, index, first index, cells of the index)."""
        hs = set(syms.values())
        step, ints = {}, []
        for cell, s in syms.items():
            try:
                iv = self.read(base, cell[0], cell[1])
                bvs = [self.read(bs, cell[0], cell[1]) for bs in backs]
            except (Fork, ForkVal, PathEnd):
                continue
            if iv.op in ("agg", "ref", "slice", "store") or is_cond(iv):
                continue
            ds = {sub(b, s) for b in bvs}
            if len(ds) == 1 and next(iter(ds)).op == "int":
                step[s] = (iv, next(iter(ds)).args[0])
            else:
                ints.append((s, iv))
        if not step or not ints:
            return []
        reads = {}
        for bs in backs:
            for g in bs.facts.log[len(head.facts.log):]:
                for t in subterms(g):
                    if t.op != "sel" or t in reads:
                        continue
                    used = [x for x in subterms(t.args[1]) if x in hs]
                    if not used or any(u not in step for u in used) or any(x in hs for x in subterms(t.args[0])):
                        continue
                    d = sum(k * step[a][1] for a, k in lin_parts(t.args[1])[1].items() if a in step)
                    if d == 1:
                        reads[t] = used
        out = []
        for t, used in list(reads.items())[:4]:
            i0 = subst(t.args[1], {u: step[u][0] for u in used})
            for s, iv in ints[:6]:
                out.append((s, iv, t.args[0], t.args[1], i0, used))
        return out

    def recurrences(self, base, head, syms, backs):
        """Definitions of the arrays that the loop fills, or changes under a condition, one element per step."""
        if not backs:
            return {}
        info = []
        for cell, s in syms.items():
            try:
                iv = self.read(base, cell[0], cell[1])
                bvs = [self.read(bs, cell[0], cell[1]) for bs in backs]
            except (Fork, ForkVal, PathEnd):
                return {}
            info.append((s, iv, bvs))
        step = {}
        for s, iv, bvs in info:
            if all(b is bvs[0] for b in bvs):
                d = sub(bvs[0], s)
                if d.op == "int" and iv.op not in ("agg", "ref", "slice", "store"):
                    step[s] = (iv, d.args[0])
        hs = set(syms.values())
        known = None
        out = {}
        for s, iv, bvs in info:
            b = next((x for x in bvs if x is not s), s)
            if b.op != "store" or b.args[0] is not s:
                continue
            i, v = b.args[1], b.args[2]
            if not all(x is b for x in bvs):
                # some steps leave the element alone, or change it in another way
                if not all(x is s or (x.op == "store" and x.args[0] is s and x.args[1] is i) for x in bvs):
                    continue
                v = self.alternatives(head, backs, [T("sel", s, i) if x is s else x.args[2] for x in bvs])
                if v is None:
                    continue
            c, parts = lin_parts(i)
            i0, di = Int(c), 0
            ok = True
            for a, k in parts.items():
                if a in step:
                    i0 = add(i0, mulc(step[a][0], k))
                    di += k * step[a][1]
                elif any(x in hs for x in subterms(a)):
                    ok = False
                else:
                    i0 = add(i0, mulc(a, k))
            if not ok or di not in (1, -1):
                continue
            prev = False
            if any(x is s for x in subterms(v)):
                # the element's own old value
                v = subst(v, {T("sel", s, i): PREV})
                prev = True
            used = [x for x in subterms(v) if x in hs]
            if any(x not in step for x in used):
                continue
            if known is None:
                known = set()
                for r, w in base.mem.items():
                    if r[0] == "O":
                        known.update(subterms(r[1]))
                    known.update(subterms(w))
            if any(x.op == "sym" and x not in hs and x not in known and x is not PREV for x in subterms(v)):
                continue
            at = mulc(sub(BOUND, i0), di)
            g = subst(v, {x: add(step[x][0], mulc(at, step[x][1])) for x in used})
            lo, hi = (i0, i) if di == 1 else (add(i, Int(1)), add(i0, Int(1)))
            out[s] = T("upto", iv, lo, hi, T("gen", g, iv) if prev else T("gen", g))
        return out

    def universals(self, base, head, syms, backs):
        """What every completed step found out about the element it looked at."""
        if not backs:
            return []
        lits = None
        for bs in backs:
            ls = [l for g in bs.facts.log[len(head.facts.log):] for l in conj_lits(g)]
            lits = ls if lits is None else [l for l in lits if l in ls]
        hs = set(syms.values())
        lits = [l for l in dict.fromkeys(lits) if any(x in hs for x in subterms(l))]
        if not lits:
            return []
        step = {}
        try:
            for cell, s in syms.items():
                iv = self.read(base, cell[0], cell[1])
                bvs = [self.read(bs, cell[0], cell[1]) for bs in backs]
                d = sub(bvs[0], s)
                if all(b is bvs[0] for b in bvs) and d.op == "int" and d.args[0] in (1, -1) and iv.op not in ("agg", "ref", "slice", "store"):
                    step[s] = (iv, d.args[0])
        except (Fork, ForkVal, PathEnd):
            return []
        known = set()
        for r, w in base.mem.items():
            if r[0] == "O":
                known.update(subterms(r[1]))
            known.update(subterms(w))
        out = []
        for l in lits:
            used = [x for x in subterms(l) if x in hs]
            if any(x not in step for x in used):
                continue
            if any(x.op == "sym" and x not in hs and x not in known for x in subterms(l)):
                continue
            for t in subterms(l):
                if t.op != "sel" or any(x in hs for x in subterms(t.args[0])):
                    continue
                c, parts = lin_parts(t.args[1])
                cs = [(a, k) for a, k in parts.items() if a in step]
                if len(cs) != 1 or cs[0][1] not in (1, -1) or any(x in hs for a in parts for x in subterms(a) if a not in step):
                    continue
                s, k = cs[0]
                iv, d = step[s]
                # the value of the counter when the element was looked at
                at = mulc(sub(BOUND, sub(t.args[1], mulc(s, k))), k)
                n = mulc(sub(at, iv), d)
                body = subst(l, {x: add(step[x][0], mulc(n, step[x][1])) for x in set(used)})
                out.append((t.args[0], conj(le(Int(0), n), lt(n, mulc(sub(s, iv), d))), body))
                break
        return out

    def alternatives(self, head, backs, vals):
        """The value of a step as a choice by the conditions of its paths."""
        conds = [[l for g in bs.facts.log[len(head.facts.log):] for l in conj_lits(g)] for bs in backs]
        conds = [[l for l in c if not all(l in d for d in conds)] for c in conds]
        if any(not c for c in conds):
            return None
        out = []
        for c, v in zip(conds, vals):
            out.append(agg(0, conj(*c), v))
        return T("alt", *out)

    def holds_init(self, c, base, cells):
        vals = {}
        for cell in cells:
            try:
                vals[cell] = self.read(base, cell[0], cell[1])
            except (Fork, ForkVal, PathEnd):
                return False
        cc = c(vals)
        return cc is not None and base.facts.decide(cc) is True


def conj_lits(g):
    if g.op == "and":
        for x in g.args:
            yield from conj_lits(x)
    else:
        yield g


def resel(t):
    """t with reads of written array elements resolved where the indexes are the same term."""
    if t.op == "fld":
        return fld(resel(t.args[0]), t.args[2], t.args[1], struct_n.get(t.args[0], 0) if t.args[1] == 0 else 0)
    if t.op == "sel":
        a = t.args[0]
        while a.op == "store":
            d = sub(a.args[1], t.args[1])
            if d is Int(0):
                return a.args[2]
            if d.op != "int":
                break
            a = a.args[0]
        return T("sel", a, t.args[1])
    return t


def cellname(c, fr):
    root, path = c
    if root[0] == "L":
        s = "L%s_%s" % (root[1], root[2])
    else:
        s = "O(%s)" % show(root[1])
    return s + show_path(path)


class LoopCtx:
    pass


class Inline:
    def __init__(self, body, args, hook=None, tag=None):
        self.body = body
        self.args = args
        self.hook = hook
        self.tag = tag


class Call:
    """A call being modelled."""

    __slots__ = ("I", "st", "fr", "cal", "key", "args", "argtys", "destty")

    def __init__(self, I, st, fr, cal, key, args, argtys, destty):
        self.I = I
        self.st = st
        self.fr = fr
        self.cal = cal
        self.key = key
        self.args = args
        self.argtys = argtys
        self.destty = destty

    def ask(self, c):
        return self.I.ask(self.st, c)

    def deref(self, i):
        return self.I.deref_root(self.st, self.args[i], self.argtys[i])

    def read(self, place):
        return self.I.read(self.st, place[0], place[1])

    def write(self, place, v):
        self.I.write(self.st, place[0], place[1], v)

    def event(self, kind, **d):
        self.I.event(self.st, kind, **d)

    def targ(self, i):
        ts = self.cal.get("rtargs") or self.cal.get("targs")
        return ts[i]


class ForkVal3(Exception):
    def __init__(self, a, b):
        self.a = a
        self.b = b


def norm_path(path):
    if any(e[0] == "s" for e in path):
        out = []
        off = None
        for e in path:
            if e[0] == "s":
                off = e[1]
            elif e[0] == "i" and off is not None:
                out.append(("i", add(e[1], off)))
                off = None
            else:
                out.append(e)
        return tuple(out)
    return path


def idx_path(path, i):
    if path and path[-1][0] == "s":
        return path[:-1] + (("i", add(path[-1][1], i)),)
    return path + (("i", i),)


def ref_idx(r, i):
    """&r[i] where r is a reference to a buffer."""
    if r.op == "ref":
        return ref(r.args[0], r.args[1] + (("i", i),))
    return ref(("O", r), (("i", i),))


PSEUDO = {
    "alloc::vec::Vec": 2,
    "alloc::collections::vec_deque::VecDeque": 2,
    "atomic_refcell::AtomicRefCell": 1,
    "core::sync::atomic::Atomic": 1,
    "core::sync::atomic::AtomicUsize": 1,
    "core::sync::atomic::AtomicU64": 1,
}


# ---------------------------------------------------------------- bit vectors
# A mask is the term bits(w, ((lo, hi), ...)) - ones in [lo, hi) - where possible.

def is_bits(t):
    return t.op == "app" and t.args[0] in ("ones", "pow2")


def bitop(op, a, b, w):
    full = (1 << w) - 1
    if op == "BitAnd" and (a.op in ("ref", "slice") or b.op in ("ref", "slice")):
        return Int(0)
    if b is not None and a.op == "int" and b.op == "int":
        x, y = a.args[0] & full, b.args[0]
        if op == "BitAnd":
            return Int(x & y)
        if op == "BitOr":
            return Int(x | y)
        if op == "BitXor":
            return Int(x ^ y)
        if op == "Shl":
            return Int((x << (y % w)) & full)
        if op == "Shr":
            return Int(x >> (y % w))
        if op == "Div":
            return Int(x // y) if y else fresh("div0")
        if op == "Rem":
            return Int(x % y) if y else fresh("rem0")
    if op == "BitAnd":
        if a is Int(0) or b is Int(0):
            return Int(0)
        if a.op == "int" and a.args[0] == full:
            return b
        if b.op == "int" and b.args[0] == full:
            return a
        if a is b:
            return a
    if op == "BitOr":
        if a is Int(0):
            return b
        if b is Int(0):
            return a
        if a is b:
            return a
    if op in ("Shl", "Shr") and b is Int(0):
        return a
    if op == "Not":
        return T("app", "op", "Not", w, a)
    if op in ("BitAnd", "BitOr", "BitXor") and b.id < a.id:
        a, b = b, a
    return T("app", "op", op, w, a, b)


def bit_add(a, b, sgn):
    return None
