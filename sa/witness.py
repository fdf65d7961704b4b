"""Compile-fail witnesses: small programs against the public interface, each with a compiling twin.

The compiler is the decision procedure: a program that must be rejected has to be rejected with one of the expected
kinds of errors, and its twin, which differs only in the misuse, has to be accepted. Nothing is linked or run.
"""
import json
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

PRE = """#![allow(warnings)]
#![allow(unused)]
#![crate_type = "lib"]
"""

COMMON = """    use sparsey::component::*;
    use sparsey::entity::*;
    use sparsey::query::*;
    use sparsey::world::*;
    use core::cell::*;
    use std::rc::Rc;
    use std::sync::*;
    use std::hash::Hash;
    use std::iter::FusedIterator;
    use super::rayon::prelude::*;
    pub struct A(pub u32);
    pub struct B(pub u32);
    fn need_send<T: Send>() {}
    fn need_sync<T: Sync>() {}
    fn need_static<T: 'static>() {}
    fn need_component<T: Component>() {}
    fn need_set<T: ComponentSet>() {}
    fn need_query<T: Query>() {}
    fn need_group<T: GroupDescriptor>() {}
    fn need_clone<T: Clone>() {}
    fn need_copy<T: Copy>() {}
    fn need_eq<T: Eq>() {}
    fn need_ord<T: Ord>() {}
    fn need_hash<T: Hash>() {}
    fn need_exact<T: ExactSizeIterator>() {}
    fn need_indexed<T: super::rayon::iter::IndexedParallelIterator>() {}
    fn need_iter<T: Iterator>() {}
"""

# names or signatures that changed: no verdict about behaviour
SHAPE = {"E0432", "E0433", "E0425", "E0412", "E0405", "E0599", "E0061", "E0107", "E0603", "E0609", "E0616", "E0624", "E0407", "E0191", "E0282", "E0283", "E0308"}


class Witness:
    def __init__(self, label, code, reject=None, props="C15", about="sparsey", codes=None):
        """reject: the rejected variant of code (None: the program has only to be accepted)."""
        self.label, self.code, self.reject, self.props, self.about, self.codes = label, code, reject, props, about, codes


class Compiler:
    def __init__(self, args):
        self.externs = []
        out = extra = None
        i = 0
        self.edition = "--edition=2021"
        while i < len(args):
            a = args[i]
            if a == "--extern":
                self.externs += [a, args[i + 1], "-L", "dependency=" + os.path.dirname(args[i + 1].split("=", 1)[-1])]
                i += 1
            elif a == "-L":
                self.externs += [a, args[i + 1]]
                i += 1
            elif a == "--out-dir":
                out = args[i + 1]
                i += 1
            elif a.startswith("--edition"):
                self.edition = a
            elif a.startswith("extra-filename="):
                extra = a.split("=", 1)[1]
            i += 1
        self.lib = os.path.join(out or "", "libsparsey%s.rmeta" % (extra or ""))
        self.ok = bool(out) and os.path.exists(self.lib)
        if self.ok:
            self.externs += ["--extern", "sparsey=" + self.lib]

    def errors(self, src):
        """[(line, code, message)] of the errors in a source text."""
        d = tempfile.mkdtemp(prefix="sparsey-wit-")
        try:
            f = os.path.join(d, "w.rs")
            with open(f, "w") as h:
                h.write(src)
            r = subprocess.run(["rustc", "+nightly", self.edition, "-Znext-solver=coherence", "--error-format=json", "--emit=metadata", "-o", os.path.join(d, "w.rmeta"), f]
                               + self.externs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            out = []
            for line in r.stderr.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("level") != "error":
                    continue
                sp = [s for s in m.get("spans", ()) if s.get("is_primary")] or m.get("spans", ())
                ln = None
                for s in sp:
                    while s is not None and not s["file_name"].endswith("w.rs") and s.get("expansion"):
                        s = s["expansion"]["span"]
                    if s is not None and s["file_name"].endswith("w.rs"):
                        ln = s["line_start"]
                        break
                if m.get("message", "").startswith("aborting due to") or m.get("message", "").startswith("could not compile"):
                    continue
                out.append((ln, (m.get("code") or {}).get("code"), m.get("message", "")))
            if r.returncode and not out:
                out.append((None, "?", r.stderr[-300:]))
            return out
        finally:
            for x in os.listdir(d):
                os.unlink(os.path.join(d, x))
            os.rmdir(d)

    def file(self, progs):
        """One source text of several programs; returns (text, line ranges)."""
        text = PRE + "extern crate rayon;\n"
        spans = []
        for i, p in enumerate(progs):
            a = text.count("\n") + 1
            text += "mod p%d {\n%s%s\n}\n" % (i, COMMON, "\n".join("    " + l for l in p.strip("\n").split("\n")))
            spans.append((a, text.count("\n") + 1))
        return text, spans

    def results(self, progs):
        """List of error lists, one per program."""
        text, spans = self.file(progs)
        errs = self.errors(text)
        out = [[] for _ in progs]
        stray = False
        for ln, code, msg in errs:
            k = next((i for i, (a, b) in enumerate(spans) if ln is not None and a <= ln < b), None)
            if k is None:
                stray = True
            else:
                out[k].append((code, msg))
        return out, stray

    def alone(self, prog):
        text, _ = self.file([prog])
        return [(c, m) for _, c, m in self.errors(text)]


def decide(args, ws):
    """[(witness, ok | None, detail)]"""
    C = Compiler(args)
    if not C.ok:
        return None
    with ThreadPoolExecutor(4) as ex:
        fg = ex.submit(C.results, [w.code for w in ws])
        rej = [w for w in ws if w.reject is not None]
        # errors found by type checking hide those found by borrow checking
        ty = [w for w in rej if w.codes and "E0277" in w.codes]
        bo = [w for w in rej if w not in ty]
        ft, fb = ex.submit(C.results, [w.reject for w in ty]), ex.submit(C.results, [w.reject for w in bo])
        good = dict(zip(ws, fg.result()[0]))
        stray = fg.result()[1]
        bad = dict(zip(ty, ft.result()[0]))
        bad.update(zip(bo, fb.result()[0]))

        def one(w):
            g = good[w]
            if g or stray:
                g = C.alone(w.code)
            if g:
                if any(c in SHAPE or c == "?" for c, m in g):
                    return w, None, "the program it is about is not accepted any more: %s" % g[0][1][:200]
                if w.reject is None:
                    return w, False, g[0][1][:300]
                return w, None, "the correct program is not accepted: %s" % g[0][1][:200]
            if w.reject is None:
                return w, True, None
            b = bad[w]
            if not b or not any(c in w.codes for c, m in b):
                b = C.alone(w.reject)
            if not b:
                return w, False, "this program is accepted: %s" % re.sub(r"\s+", " ", w.reject.strip())
            if any(c in w.codes for c, m in b):
                return w, True, None
            return w, None, "rejected for another reason: %s" % b[0][1][:200]

        return list(ex.map(one, ws))
