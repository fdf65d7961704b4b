"""Sequences of events, with loops summarised as a number of steps and an expression of the step."""
from .terms import *
from .interp import Fork, ForkVal, PathEnd


class Unrecognised(Exception):
    pass


def loop_cells(X, rec):
    """Cells that advance by a constant in every step: {sym: (initial value, step)}."""
    out = {}
    for cell, s in rec.cells.items():
        try:
            iv = X.I.read(rec.init, cell[0], cell[1])
            bvs = [X.I.read(b, cell[0], cell[1]) for b in rec.backs]
        except (Fork, ForkVal, PathEnd):
            continue
        if iv.op in ("agg", "ref", "slice", "store"):
            continue
        ds = [sub(b, s) for b in bvs]
        if ds and all(d.op == "int" for d in ds) and len({d.args[0] for d in ds}) == 1:
            out[s] = (iv, ds[0].args[0])
    return out


def trip_count(X, rec, cells):
    """Number of completed steps, as seen after the loop."""
    for s, (iv, d) in cells.items():
        if d == 1:
            return sub(s, iv)
        if d == -1:
            return sub(iv, s)
    return None


class Seg:
    """n times the event ev; the arguments of step j are those of ev with the cells replaced."""

    def __init__(self, n, ev, cells, rec, back=None):
        self.n, self.ev, self.cells, self.rec, self.back = n, ev, cells, rec, back

    def at(self, t, j):
        """t (an argument of the event) in step j."""
        if self.rec is None:
            return t
        m = {}
        for s in self.rec.cells.values():
            if s in self.cells:
                iv, d = self.cells[s]
                m[s] = add(iv, mulc(j, d))
        for s in self.rec.cells.values():
            if s not in m and any(x is s for x in subterms(t)):
                raise Unrecognised("loop carried value %s" % show(s))
        return subst(t, m)


def has(ev, want):
    if ev.kind == "loop":
        rec = ev.rec
        return any(has(e, want) for b in rec.backs for e in b.ev) or any(has(e, want) for e in ev.d.get("last", ()))
    return want(ev)


def count(evs, want):
    """Number of wanted program points along a path; a loop counts as its fullest step."""
    n = 0
    for e in evs:
        if e.kind == "loop":
            n += max([count(b.ev, want) for b in e.rec.backs] or [0])
            n += count(e.d.get("last", ()), want) if not e.rec.backs else 0
        elif want(e):
            n += 1
    return n


def segments(X, want, evs=None, skip_ok=None):
    """The wanted events of the path in order, as Seg objects. skip_ok(state): a step that ends in
    this state may have no wanted event."""
    out = []
    for ev in X.st.ev if evs is None else evs:
        if ev.kind != "loop":
            if want(ev):
                out.append(Seg(Int(1), ev, {}, None))
            continue
        rec = ev.rec
        inner = [[e for e in b.ev if has(e, want)] for b in rec.backs]
        if any(inner) and skip_ok is not None and not all(inner):
            sts = [b for b, l in zip(rec.backs, inner) if not l]
            if all(skip_ok(b) for b in sts):
                inner = [l for l in inner if l]
        if any(inner):
            if any(e.kind == "loop" for l in inner for e in l):
                raise Unrecognised("nested loops")
            if any(len(l) != len(inner[0]) for l in inner):
                raise Unrecognised("steps differ")
            for l in inner[1:]:
                for a, b in zip(l, inner[0]):
                    if a.d.get("args") != b.d.get("args") or a.kind != b.kind:
                        raise Unrecognised("steps differ")
            cells = loop_cells(X, rec)
            n = trip_count(X, rec, cells)
            if n is None:
                raise Unrecognised("loop without counter")
            if len(inner[0]) != 1:
                raise Unrecognised("several events per step")
            out.append(Seg(n, inner[0][0], cells, rec, next(b for b in rec.backs if any(has(e, want) for e in b.ev))))
        for e in ev.d.get("last", ()):
            if has(e, want):
                out.extend(segments(X, want, [e], skip_ok))
    return out


def flat(evs):
    """All events of a path, including those of the final partial step of its loops; loop events
    are kept in front of them."""
    for e in evs:
        yield e
        if e.kind == "loop":
            yield from flat(e.d.get("last", ()))


def in_steps(evs):
    """Events of the completed steps of the loops of a path."""
    for e in evs:
        if e.kind == "loop":
            for b in e.rec.backs:
                for x in b.ev:
                    yield x
                yield from in_steps(b.ev)
            yield from in_steps(e.d.get("last", ()))
