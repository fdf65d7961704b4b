"""Hash-consed terms: the value-number domain of the analysis.

Operators
  int n                      integer constant (bools are 0/1)
  lin c ((atom,coef),...)    linear combination of integer atoms
  sym name                   an unknown input value
  agg variant f0 f1 ...      struct / tuple (variant 0) or enum value
  fld t v i                  field i of variant v of an unknown value t
  discr t                    variant index of an unknown value
  sel arr i                  element i of an array-like buffer
  store arr i v              buffer with element i replaced
  ref root path              address of a place
  slice ref start len        fat pointer into a buffer
  app name args...           uninterpreted pure function
  eq/lt/le/not/and/or        conditions
"""


class Term:
    __slots__ = ("op", "args", "id", "_s")
    table = {}
    count = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def T(op, *args):
    k = (op, args)
    t = Term.table.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        Term.count += 1
        t.id = Term.count
        t._s = None
        Term.table[k] = t
    return t


_fresh = [0]


def fresh(name):
    _fresh[0] += 1
    return T("sym", "%s#%d" % (name, _fresh[0]))


def reset_fresh():
    _fresh[0] = 0


def Sym(name):
    return T("sym", name)


def Int(n):
    return T("int", n)


TRUE = Int(1)
FALSE = Int(0)
UNIT = T("agg", 0)


def Bool(b):
    return TRUE if b else FALSE


def is_int(t):
    return t.op == "int"


# ---- linear arithmetic -------------------------------------------------------

def lin_parts(t):
    """(const, {atom: coef})"""
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mk_lin(c, d):
    items = [(a, k) for a, k in d.items() if k]
    if not items:
        return Int(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return T("lin", c, tuple(items))


def add(a, b):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return mk_lin(ca + cb, da)


def mulc(a, n):
    c, d = lin_parts(a)
    return mk_lin(c * n, {k: v * n for k, v in d.items()})


def sub(a, b):
    return add(a, mulc(b, -1))


# ---- aggregates ---------------------------------------------------------------

# Number of fields of the unknown values that are structs or tuples.
struct_n = {}


def agg(variant, *fields):
    # eta: agg of all fields of one term, in order, is the term itself
    if variant == 0 and fields and fields[0].op == "fld" and fields[0].args[2] == 0:
        t = fields[0].args[0]
        if struct_n.get(t) == len(fields) and all(
            f.op == "fld" and f.args[0] is t and f.args[1] == 0 and f.args[2] == i
            for i, f in enumerate(fields)
        ):
            return t
    return T("agg", variant, *fields)


def tup(*fields):
    return agg(0, *fields)


NONE = T("agg", 0)


def Some(x):
    return T("agg", 1, x)


def fld(t, i, v=0, n=0):
    """n: number of fields, if the type is a struct or tuple."""
    if t.op == "agg":
        if t.args[0] != v or i + 1 >= len(t.args):
            return T("bad", t, v, i)
        return t.args[1 + i]
    if t.op == "ite":
        return ite(t.args[0], fld(t.args[1], i, v, n), fld(t.args[2], i, v, n))
    if n:
        struct_n[t] = n
    return T("fld", t, v, i)


def pay(t):
    """Payload of Some."""
    return fld(t, 0, 1)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return T("ite", c, a, b)


# ---- conditions ----------------------------------------------------------------

def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return Bool(a.args[0] == b.args[0])
    if a.op == "agg" and b.op == "agg":
        if a.args[0] != b.args[0]:
            return FALSE
        if len(a.args) == len(b.args):
            return conj(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if (a.op == "int" and b.op in ("ref", "slice")) or (b.op == "int" and a.op in ("ref", "slice")):
        return FALSE
    # boolean conditions compared with constants
    if b.op == "int" and is_cond(a):
        return a if b.args[0] == 1 else neg(a)
    if a.op == "int" and is_cond(b):
        return b if a.args[0] == 1 else neg(b)
    if a.id > b.id:
        a, b = b, a
    if a.op in ("lin", "int") or b.op in ("lin", "int"):
        d = sub(a, b)
        if d.op == "int":
            return Bool(d.args[0] == 0)
    return T("eq", a, b)


def lt(a, b):
    d = sub(a, b)
    if d.op == "int":
        return Bool(d.args[0] < 0)
    return T("le", add(d, Int(1)))


def le(a, b):
    d = sub(a, b)
    if d.op == "int":
        return Bool(d.args[0] <= 0)
    return T("le", d)


CONDS = ("eq", "le", "not", "and", "or")


def is_cond(t):
    return t.op in CONDS


def neg(c):
    if c.op == "int":
        return Bool(c.args[0] == 0)
    if c.op == "not":
        return c.args[0]
    if c.op == "le":  # not (d <= 0)  <=>  d >= 1  <=>  1 - d <= 0
        return T("le", sub(Int(1), c.args[0]))
    if c.op == "and":
        return disj(*[neg(x) for x in c.args])
    if c.op == "or":
        return conj(*[neg(x) for x in c.args])
    return T("not", c)


def conj(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *out)


def disj(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("or", *out)


# ---- references -----------------------------------------------------------------

def ref(root, path=()):
    return T("ref", root, path)


def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t)
    if t._s is not None:
        return t._s
    if depth > 12:
        return "..."
    o, a = t.op, t.args
    if o == "int":
        s = str(a[0])
    elif o == "sym":
        s = a[0]
    elif o == "lin":
        s = " + ".join(
            ([str(a[0])] if a[0] else [])
            + [("%s" if k == 1 else "-%s" if k == -1 else str(k) + "*%s") % show(x, depth + 1) for x, k in a[1]]
        )
        s = "(" + s.replace("+ -", "- ") + ")"
    elif o == "agg":
        s = ("v%d" % a[0] if a[0] else "") + "{" + ", ".join(show(x, depth + 1) for x in a[1:]) + "}"
    elif o == "fld":
        s = show(a[0], depth + 1) + "." + ("v%d." % a[1] if a[1] else "") + str(a[2])
    elif o == "sel":
        s = "%s[%s]" % (show(a[0], depth + 1), show(a[1], depth + 1))
    elif o == "ref":
        s = "&" + show_root(a[0], depth) + show_path(a[1], depth)
    elif o == "le":
        s = show(a[0], depth + 1) + " <= 0"
    else:
        s = o + "(" + ", ".join(show(x, depth + 1) for x in a) + ")"
    if depth == 0 and len(s) < 2000:
        t._s = s
    return s


def show_root(r, depth=0):
    if r[0] == "L":
        return "local%s_%s" % (r[1], r[2])
    return "*" + show(r[1], depth + 1) if isinstance(r[1], Term) else str(r)


def show_path(p, depth=0):
    s = ""
    for e in p:
        if e[0] == "f":
            s += "." + str(e[1])
        elif e[0] == "i":
            s += "[" + show(e[1], depth + 1) + "]"
        elif e[0] == "v":
            s += "@" + str(e[1])
        else:
            s += "!" + ",".join(show(x, depth + 1) if isinstance(x, Term) else str(x) for x in e)
    return s


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def subst(t, m, memo=None):
    """t with the terms in m replaced; linear terms are renormalised."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("sym", "int", "fresh"):
        r = t
    elif t.op == "lin":
        r = Int(t.args[0])
        for a, k in t.args[1]:
            r = add(r, mulc(subst(a, m, memo), k))
    else:
        def go(a):
            if isinstance(a, Term):
                return subst(a, m, memo)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a

        args = tuple(go(a) for a in t.args)
        if args == t.args:
            r = t
        elif t.op == "fld":
            r = fld(args[0], args[2], args[1], struct_n.get(t.args[0], 0) if args[1] == 0 else 0)
        elif t.op == "eq":
            r = eq(*args)
        elif t.op == "le":
            r = le(args[0], Int(0))
        elif t.op == "not":
            r = neg(args[0])
        elif t.op == "and":
            r = conj(*args)
        elif t.op == "or":
            r = disj(*args)
        elif t.op == "ite":
            r = ite(*args)
        else:
            r = T(t.op, *args)
    memo[t] = r
    return r


BOUND = Sym("bound")
PREV = Sym("prev")
