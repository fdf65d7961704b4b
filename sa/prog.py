"""The dumped program: types, resolved MIR bodies, items."""
import json
import re


class Body:
    __slots__ = ("j", "id", "key", "path", "locals", "blocks", "argc", "local", "rpo", "heads", "loopof", "names", "spread", "span")

    def __init__(self, j, i):
        self.j = j
        self.id = i
        self.key = j["key"]
        self.path = j["path"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.argc = j["argc"]
        self.local = j.get("local", False)
        self.names = {l: n for l, n in j.get("names", [])}
        self.spread = j.get("spread")
        self.span = j.get("span", "?")
        self.rpo = None
        self.heads = None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[4]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        if k == "py":
            return list(t[2])
        return []

    def analyse(self):
        if self.rpo is not None:
            return
        order = []
        seen = {0}
        st = [(0, iter(self.succs(0)))]
        onst = {0}
        heads = set()
        back = []
        while st:
            b, it = st[-1]
            for s in it:
                if s in onst:
                    heads.add(s)
                    back.append((b, s))
                elif s not in seen:
                    seen.add(s)
                    onst.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                onst.discard(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.heads = heads
        # natural loop bodies
        preds = {}
        for b in seen:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(preds.get(x, []))
        self.loopof = loops
        # order blocks so that loop bodies come before loop exits
        self._loop_order(order, loops)

    def _loop_order(self, order, loops):
        # stable: process RPO but delay blocks outside an open loop until the loop is finished
        if not loops:
            return
        pos = {b: i for i, b in enumerate(order)}

        def emit(blocks, within):
            out = []
            done = set()
            for b in blocks:
                if b in done:
                    continue
                if b in loops and b is not within and set(loops[b]) <= set(blocks):
                    inner = [x for x in blocks if x in loops[b]]
                    sub = [b] + emit([x for x in inner if x != b], b)
                    out.extend(sub)
                    done.update(sub)
                else:
                    out.append(b)
                    done.add(b)
            return out

        o2 = emit(order, None)
        if len(o2) == len(order):
            self.rpo = {b: i for i, b in enumerate(o2)}


def norm_sig(s):
    """A signature without lifetimes, mutability and safety, which the contracts do not depend on."""
    s = re.sub(r"for<[^>]*> ", "", s)
    s = re.sub(r"'\w+ ?,? ?", "", s)
    s = s.replace("<>", "").replace(" + ,", ",").replace("unsafe ", "").replace("mut ", "")
    return s


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.j = d
        self.types = d["types"]
        self.raw = d["bodies"]
        self._bodies = {}
        self.roots = d["roots"]
        self.items = d["items"]
        self.args = d.get("args") or []
        self.features = d["features"]
        self.by_key = {}
        for r in self.roots:
            self.by_key.setdefault(r["key"], []).append(r)
        self.adts = {i["key"]: i for i in self.items if i["k"] == "adt"}

    def body(self, i):
        b = self._bodies.get(i)
        if b is None:
            j = self.raw[i]
            if j is None or "error" in j:
                raise KeyError("no body %s" % i)
            b = Body(j, i)
            self._bodies[i] = b
        return b

    def variants(self, key):
        """Names of the variants of an enum."""
        return [v["name"] for v in self.types[self.adts[key]["ty"]]["variants"]]

    def ty(self, i):
        return self.types[i]

    def ts(self, i):
        return self.types[i]["s"]
