"""Bit masks, decided one generic bit at a time: a mask term is a predicate on bit positions."""
from .terms import *
from .core import Skip


class NoBits(Exception):
    """The term is not recognised as a mask."""


def power(X, t):
    """k if t is 2^k."""
    if t.op == "int":
        n = t.args[0]
        return Int(n.bit_length() - 1) if n > 0 and n & (n - 1) == 0 else None
    if t.op == "app" and t.args[0] == "op" and t.args[1] == "Shl":
        w, a, s = t.args[2:]
        b = power(X, a)
        if b is not None and X.holds(lt(add(b, s), Int(w))):
            return add(b, s)
    return None


def bit(X, t, j, w=64):
    """Is bit j of t set? Splits cases as needed."""
    t = X.simp(t)
    while t.op == "ite":
        t = X.I.pick(X.st, t)
    r = X.st.facts.find(t)
    if r.op == "int":
        t = r
    if t.op == "int":
        n = t.args[0] & ((1 << w) - 1)
        lo = None
        for k in range(w + 1):
            on = k < w and (n >> k) & 1
            if on and lo is None:
                lo = k
            if not on and lo is not None:
                if X.ask(conj(le(Int(lo), j))) and X.ask(lt(j, Int(k))):
                    return True
                lo = None
        return False
    if t.op == "app" and t.args[0] == "op":
        op, tw = t.args[1], t.args[2]
        if op == "Not":
            return not bit(X, t.args[3], j, tw)
        a, b = t.args[3], t.args[4]
        if op == "BitAnd":
            for x, y in ((a, b), (b, a)):
                # x & (x - 1): without the lowest bit
                if sub(y, x) is Int(-1) or sub(X.simp(y), X.simp(x)) is Int(-1):
                    return bit(X, x, j, tw) and not X.ask(eq(j, T("app", "ctz", tw, x)))
            return bit(X, a, j, tw) and bit(X, b, j, tw)
        if op == "BitOr":
            return bit(X, a, j, tw) or bit(X, b, j, tw)
        if op == "BitXor":
            return bit(X, a, j, tw) != bit(X, b, j, tw)
        if op == "Shl":
            if not X.ask(le(b, j)):
                return False
            if not X.ask(lt(j, Int(tw))):
                return False
            return bit(X, a, sub(j, b), tw)
        if op == "Shr":
            if not X.ask(lt(add(j, b), Int(tw))):
                return False
            return bit(X, a, add(j, b), tw)
    if t.op == "app" and isinstance(t.args[0], str) and t.args[0].startswith("trunc"):
        n = int(t.args[0][5:])
        return bit(X, t.args[1], j, n) if X.ask(lt(j, Int(n))) else False
    if t.op == "lin":
        # 2^b - 2^a: bits a..b
        c, d = lin_parts(t)
        parts = [(a, k) for a, k in d.items()] + ([(Int(abs(c)), 1 if c > 0 else -1)] if c else [])
        if len(parts) == 2 and sorted(k for _, k in parts) == [-1, 1]:
            hi = next(a for a, k in parts if k == 1)
            lo = next(a for a, k in parts if k == -1)
            b, a = power(X, hi), power(X, lo)
            if a is not None and b is not None:
                if not X.ask(le(a, b)):
                    raise NoBits(show(t))
                return X.ask(le(a, j)) and X.ask(lt(j, b))
            if a is not None and b is None and X.holds(eq(a, T("app", "ctz", w, hi))):
                return bit(X, hi, j, w) and not X.ask(eq(j, a))
        raise NoBits(show(t))
    if t.op in ("sym", "fld", "sel", "app"):
        f = X.st.facts
        r = f.find(t)
        if X.holds(neg(eq(r, Int(0)))):
            for u in list(f.known):
                if u.op == "app" and u.args[0] in ("ctz", "clz") and f.find(u.args[2]) is r:
                    p = u if u.args[0] == "ctz" else sub(Int(u.args[1] - 1), u)
                    if X.ask(eq(j, p)):
                        return True
                    if X.ask(lt(j, p) if u.args[0] == "ctz" else lt(p, j)):
                        return False
        return X.ask(T("app", "bit", r, j))
    raise NoBits(show(t))


def shl_axiom(f, t):
    """2^k is not zero."""
    if t.op == "app" and t.args[0] == "op" and t.args[1] == "Shl" and t.args[3] is Int(1):
        f.add_axiom(lt(t.args[4], Int(t.args[2])), lambda: [neg(eq(t, Int(0)))])
    o = ones(t)
    if o is not None:
        # a run of d bits is empty only if d is 0
        f.add_axiom(conj(eq(t, Int(0)), o[1]), lambda: [eq(o[0], Int(0))])


def ones(t):
    """(d, condition) if t, under the condition, has its lowest d bits or a shift of these."""
    if t.op == "app" and isinstance(t.args[0], str) and t.args[0].startswith("trunc"):
        return ones(t.args[1])
    if t.op == "lin":
        c, d = lin_parts(t)
        if c == -1 and len(d) == 1:
            a, k = next(iter(d.items()))
            if k == 1 and a.op == "app" and a.args[:2] == ("op", "Shl") and a.args[3] is Int(1):
                return a.args[4], lt(a.args[4], Int(a.args[2]))
    return None
