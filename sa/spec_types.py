"""What the type system lets callers do: thread safety of components, lifetimes of borrowed items, implemented traits."""
from .core import rule
from .witness import Witness, decide

BOUND = ("E0277",)
LIFE = ("E0597", "E0499", "E0502", "E0505", "E0506", "E0503", "E0716", "E0515", "E0521", "E0310", "E0309", "E0700", "E0594", "E0596", "E0491", "E0478", None)


def run(cx, ws):
    res = decide(cx.P.args, ws)
    if res is None:
        return cx.note("undecided", "sparsey", "the compiled interface of the crate is not available")
    for w, ok, detail in res:
        if ok is None:
            cx.note("undecided", w.about, "%s: %s" % (w.label, detail))
        else:
            cx.record(w.label, ok, w.about, "", detail, w.props)


# ---------------------------------------------------------------- thread safety

NOT_COMPONENTS = (("a type that cannot be shared between threads", "Cell<u8>"),
                  ("a type that cannot be sent to other threads", "MutexGuard<'static, u8>"),
                  ("a type that can neither be shared nor sent", "Rc<u8>"))

USES = (("as component", "Component", "need_component::<{X}>();"),
        ("in a component description", "ComponentData::new", "let d = ComponentData::new::<{X}>();"),
        ("to register it", "World::register", "World::default().register::<{X}>();"),
        ("to configure it", "WorldBuilder::register", "World_builder().register::<{X}>();"),
        ("in a component set", "ComponentSet", "need_set::<({X},)>();"),
        ("as last member of a component set", "ComponentSet", "need_set::<(A, B, {X})>();"),
        ("to create an entity", "World::create", "fn f(w: &mut World, x: {X}) { w.create((x,)); }"),
        ("to create entities", "World::extend", "fn f(w: &mut World, x: Vec<({X},)>) { w.extend(x); }"),
        ("to insert it", "World::insert", "fn f(w: &mut World, e: Entity, x: {X}) { w.insert(e, (A(0), x)); }"),
        ("in a group", "GroupLayout::add_group", "GroupLayout::default().add_group::<(A, {X})>();"),
        ("in a query", "Query", "need_query::<&{X}>();"),
        ("in an exclusive query", "Query", "need_query::<&mut {X}>();"),
        ("in a query over several parts", "Query", "need_query::<(Entity, &A, Option<&{X}>)>();"))


def fn(body):
    if body.startswith("fn "):
        return body
    return "fn t() { %s }" % body.replace("World_builder()", "World::builder()")


@rule("thread-safety", "C17 C16")
def r_threads(cx):
    """Only types that are Send, Sync and 'static can be stored; worlds and everything handed to other threads can be sent."""
    ws = []
    for what, x in NOT_COMPONENTS:
        for use, about, body in USES:
            ws.append(Witness("%s is rejected %s" % (what, use), fn(body.replace("{X}", "u8")), fn(body.replace("{X}", x)), "C17", "sparsey::" + about, BOUND))
    for use, about, body in USES:
        g = "fn t<'a>() { need_component::<&'static u8>(); %s }"
        if body.startswith("fn "):
            good, bad = body.replace("{X}", "&'static u8"), body.replace("{X}", "&'a u8").replace("fn f(", "fn f<'a>(")
        else:
            body = body.replace("World_builder()", "World::builder()")
            good, bad = "fn t() { %s }" % body.replace("{X}", "&'static u8"), "fn t<'a>() { %s }" % body.replace("{X}", "&'a u8")
        ws.append(Witness("borrowed data is rejected %s" % use, good, bad, "C17", "sparsey::" + about, LIFE))
    ws.append(Witness("components can be sent, shared and kept", "fn t<T: Component>() { need_send::<T>(); need_sync::<T>(); need_static::<T>(); }", None, "C17", "sparsey::Component"))
    for t in ("World", "WorldBuilder", "GroupLayout", "ComponentData", "Entity", "Version"):
        ws.append(Witness("%s can be sent and shared between threads" % t, "fn t() { need_send::<%s>(); need_sync::<%s>(); }" % (t, t), None, "C17", "sparsey::" + t))
    for q in ("Entity", "&'static T", "&'static mut T", "Option<&'static T>", "Option<&'static mut T>", "(Entity, &'static T, Option<&'static mut U>)"):
        ws.append(Witness("items of queries can be sent to other threads", "fn t<T: Component, U: Component>() { need_send::<<%s as Query>::Item<'static>>(); }" % q, None, "C17", "sparsey::Query"))
    for q in ("Entity", "&'static T", "&'static mut T", "Option<&'static T>", "(Entity, &'static T, Option<&'static mut U>)"):
        ws.append(Witness("parallel iterators over components can be sent to other threads",
                          "fn t<T: Component, U: Component>() { need_send::<ParIter<'static, %s, &'static U, &'static U>>(); }" % q, None, "C17", "sparsey::ParIter"))
    for name, call in (("World::par_for_each", "w.par_for_each::<&A>"), ("QueryAll::par_for_each", "w.query_all::<&A>().par_for_each")):
        ws.append(Witness("parallel iteration rejects closures that cannot be shared", "fn t(w: &World, c: Arc<u8>) { %s(|a| { let d = c.clone(); }); }" % call,
                          "fn t(w: &World, c: Rc<u8>) { %s(|a| { let d = c.clone(); }); }" % call, "C17", "sparsey::" + name, BOUND))
        ws.append(Witness("parallel iteration rejects closures that mutate what they capture", "fn t(w: &World, c: &mut Vec<u32>) { %s(|a| { let d = c.len(); }); }" % call,
                          "fn t(w: &World, c: &mut Vec<u32>) { %s(|a| { c.push(a.0); }); }" % call, "C17 C15", "sparsey::" + name, LIFE))
    run(cx, ws)


@rule("thread-claims", "C17")
def r_claims(cx):
    """Types declared thread-safe by hand contain nothing that may only be used by one thread."""
    local = {i["key"]: i for i in cx.P.items if i["k"] == "adt"}
    names = {k.split("::", 1)[1]: k for k in local}
    bad = ("std::cell::Cell<", "std::cell::RefCell<", "std::cell::UnsafeCell<", "std::cell::OnceCell<", "core::cell::", "std::rc::", "alloc::rc::", "std::cell::LazyCell<",
           "MutexGuard<", "RwLockReadGuard<", "RwLockWriteGuard<")

    def blame(key, seen):
        for f in local[key]["fields"]:
            t = f[2]
            for b in bad:
                if b in t:
                    yield "%s.%s: %s" % (key, f[1], t)
            for n, k in names.items():
                if n in t and k not in seen:
                    seen.add(k)
                    yield from blame(k, seen)

    for i in cx.P.items:
        if i["k"] == "impl" and i.get("trait_key") in ("core::marker::Send", "core::marker::Sync") and i.get("polarity", "Positive") == "Positive":
            head = i["self"].split("<")[0]
            k = names.get(head)
            tr = i["trait_key"].rsplit("::", 1)[-1]
            if k is None:
                cx.note("undecided", head, "hand-written implementation of %s" % tr)
                continue
            b = list(blame(k, {k}))
            cx.record("a type declared %s by hand contains no single-threaded state" % tr, not b, k, i["span"], "; ".join(b)[:300])


# ---------------------------------------------------------------- lifetimes

@rule("lifetimes", "C15")
def r_lifetimes(cx):
    """References to components cannot outlive the guard they come from, nor overlap with another use of it."""
    ws = []

    def w(label, about, good, bad, codes=LIFE, props="C15"):
        ws.append(Witness(label, good, bad, props, "sparsey::" + about, codes))

    E = "fn t(w: &mut World, e: Entity) { "
    # views
    for n, m in (("get", "v.get(e)"), ("index", "&v[e]"), ("as_slice", "v.as_slice()"), ("entities", "v.entities()")):
        for k, b in (("View", "w.borrow::<A>()"), ("ViewMut", "w.borrow_mut::<A>()")):
            w("what %s of a view returns cannot outlive the view" % n, "%s::%s" % (k, n), E + "let v = %s; let r = %s; drop(r); drop(v); }" % (b, m), E + "let v = %s; let r = %s; drop(v); drop(r); }" % (b, m))
    for n, m, t in (("get", "v.get(e)", "Option<&'x A>"), ("as_slice", "v.as_slice()", "&'x [A]"), ("entities", "v.entities()", "&'x [Entity]")):
        for k in ("View", "ViewMut"):
            w("what %s of a view returns is tied to the borrow of the view" % n, "%s::%s" % (k, n),
              "fn t<'x>(v: &'x %s<'static, A>, e: Entity) -> %s { %s }" % (k, t, m), "fn t<'x, 'y>(v: &'y %s<'x, A>, e: Entity) -> %s { %s }" % (k, t, m))
    for n, m in (("get_mut", "v.get_mut(e)"), ("index_mut", "&mut v[e]"), ("as_mut_slice", "v.as_mut_slice()")):
        w("what %s of a view returns cannot outlive the view" % n, "ViewMut::" + n, E + "let mut v = w.borrow_mut::<A>(); let r = %s; drop(r); drop(v); }" % m,
          E + "let mut v = w.borrow_mut::<A>(); let r = %s; drop(v); drop(r); }" % m)
        for o, x in (("get", "v.get(e)"), ("as_slice", "v.as_slice()"), ("get_mut", "v.get_mut(e)"), ("as_mut_slice", "v.as_mut_slice()"), ("index", "&v[e]"), ("entities", "v.entities()")):
            if o == "entities" and n != "as_mut_slice":
                continue
            if o == "entities":
                continue
            w("an exclusive reference from %s excludes %s" % (n, o), "ViewMut::" + n, E + "let mut v = w.borrow_mut::<A>(); let r = %s; drop(r); let s = %s; drop(s); }" % (m, x),
              E + "let mut v = w.borrow_mut::<A>(); let r = %s; let s = %s; drop(r); drop(s); }" % (m, x))
    for n, m, t in (("get_mut", "v.get_mut(e)", "Option<&'x mut A>"), ("as_mut_slice", "v.as_mut_slice()", "&'x mut [A]")):
        w("what %s of a view returns is tied to the borrow of the view" % n, "ViewMut::" + n,
          "fn t<'x>(v: &'x mut ViewMut<'static, A>, e: Entity) -> %s { %s }" % (t, m), "fn t<'x, 'y>(v: &'y mut ViewMut<'x, A>, e: Entity) -> %s { %s }" % (t, m))
        w("an exclusive reference from %s needs an exclusive view" % n, "ViewMut::" + n, "fn t(v: &mut ViewMut<'_, A>, e: Entity) { %s; }" % m, "fn t(v: &ViewMut<'_, A>, e: Entity) { %s; }" % m)
    # guards and the world
    guards = (("World::borrow", "w.borrow::<A>()"), ("World::borrow_mut", "w.borrow_mut::<A>()"), ("World::borrow_with_group_info", "w.borrow_with_group_info::<A>()"),
              ("World::borrow_with_group_info_mut", "w.borrow_with_group_info_mut::<A>()"), ("World::query_all", "w.query_all::<&A>()"), ("World::query_one", "w.query_one::<&A>()"),
              ("World::entities", "w.entities()"))
    for n, g in guards:
        w("what %s returns cannot outlive the world" % n.split("::")[1], n, "fn t() { let w = World::default(); let v = %s; drop(v); drop(w); }" % g,
          "fn t() { let w = World::default(); let v = %s; drop(w); drop(v); }" % g)
        for m in ("w.destroy(e)", "w.clear()", "w.reset()", "w.insert(e, (A(1),))", "w.create((A(1),))", "w.remove::<(A,)>(e)", "w.delete::<(A,)>(e)", "w.extend([(A(1),)])",
                  "w.set_layout(&GroupLayout::default())", "w.maintain()", "w.register::<B>()"):
            w("the world cannot be changed by %s while %s is in use" % (m.split("(")[0].split("::")[0][2:], n.split("::")[1]), n, E + "let v = %s; drop(v); %s; }" % (g, m), E + "let v = %s; %s; drop(v); }" % (g, m))
    w("entities returned by extend exclude changes of the world", "World::extend", E + "let v = w.extend([(A(1),)]); let n = v.len(); w.clear(); }", E + "let v = w.extend([(A(1),)]); w.clear(); let n = v.len(); }")
    # queries
    for q, ex in (("&mut A", True), ("(Entity, &mut A)", True), ("Option<&mut A>", True), ("(Entity, &A)", False)):
        Q = "fn t(w: &World, e: Entity) { let mut q = w.query_all::<%s>().include::<&B>().exclude::<Option<&B>>(); " % q
        for n, m in (("iter", "q.iter()"), ("par_iter", "q.par_iter()"), ("slice", "q.slice()"), ("into_iter", "(&mut q).into_iter()")):
            if n == "slice" and "Option" in q:
                continue
            w("what %s of a query returns cannot outlive the query" % n, "QueryAll::" + n, Q + "let r = %s; drop(r); drop(q); }" % m, Q + "let r = %s; drop(q); drop(r); }" % m)
            if ex:
                for o, x in (("iter", "q.iter()"), ("par_iter", "q.par_iter()"), ("slice", "q.slice()"), ("for_each", "q.for_each(|_| ())")):
                    if o == "slice" and "Option" in q:
                        continue
                    w("exclusive items from %s exclude %s" % (n, o), "QueryAll::" + n, Q + "let r = %s; drop(r); let s = %s; drop(s); }" % (m, x), Q + "let r = %s; let s = %s; drop(r); drop(s); }" % (m, x))
        w("items of a query cannot outlive it", "QueryAll::iter", Q + "let r = q.iter().next(); drop(r); drop(q); }", Q + "let r = q.iter().next(); drop(q); drop(r); }")
        if ex:
            w("items of a query exclude further iterations", "QueryAll::iter", Q + "let r = q.iter().next(); drop(r); let s = q.iter().next(); drop(s); }",
              Q + "let r = q.iter().next(); let s = q.iter().next(); drop(r); drop(s); }")
        for n, m in (("for_each", "q.for_each"), ("par_for_each", "q.par_for_each")):
            if n == "for_each":
                w("items cannot leave the closure of for_each", "QueryAll::for_each", Q + "let mut k = Vec::new(); q.for_each(|x| { k.push(1); drop(x); }); }", Q + "let mut k = Vec::new(); q.for_each(|x| k.push(x)); drop(q); drop(k); }")
            else:
                w("items cannot leave the closure of par_for_each", "QueryAll::par_for_each", Q + "let k = Mutex::new(Vec::new()); q.par_for_each(|x| { k.lock().unwrap().push(1); drop(x); }); }",
                  Q + "let k = Mutex::new(Vec::new()); q.par_for_each(|x| k.lock().unwrap().push(x)); drop(q); drop(k); }")
        w("items cannot leave the closure of for_each", "World::for_each", "fn t(w: &World) { let mut k = Vec::new(); w.for_each::<%s>(|x| { k.push(1); drop(x); }); }" % q,
          "fn t(w: &World) { let mut k = Vec::new(); w.for_each::<%s>(|x| k.push(x)); drop(k); }" % q)
        w("items cannot leave the closure of par_for_each", "World::par_for_each", "fn t(w: &World) { let k = Mutex::new(Vec::new()); w.par_for_each::<%s>(|x| { k.lock().unwrap().push(1); drop(x); }); }" % q,
          "fn t(w: &World) { let k = Mutex::new(Vec::new()); w.par_for_each::<%s>(|x| k.lock().unwrap().push(x)); drop(k); }" % q)
        O = "fn t(w: &World, e: Entity) { let mut q = w.query_one::<%s>().include::<&B>().exclude::<Option<&B>>(); " % q
        w("the item of a lookup cannot outlive the query", "QueryOne::get", O + "let r = q.get(e); drop(r); drop(q); }", O + "let r = q.get(e); drop(q); drop(r); }")
        if ex:
            w("the item of a lookup excludes further lookups", "QueryOne::get", O + "let r = q.get(e); drop(r); let s = q.get(e); drop(s); }", O + "let r = q.get(e); let s = q.get(e); drop(r); drop(s); }")
            w("the item of a lookup excludes other uses of the query", "QueryOne::get", O + "let r = q.get(e); drop(r); let s = q.contains(e); }", O + "let r = q.get(e); let s = q.contains(e); drop(r); }")
        w("the item of a lookup cannot leave the closure of map", "QueryOne::map", O + "let r = q.map(e, |x| 1); }", O + "let r = q.map(e, |x| x); }")
    for n, sig, m in (("iter", "Iter<'x, &'x mut A, (), ()>", "q.iter()"), ("slice", "Option<<&'x mut A as Query>::Slice<'x>>", "q.slice()")):
        w("what %s of a query returns is tied to the borrow of the query" % n, "QueryAll::" + n, "fn t<'x>(q: &'x mut QueryAll<'static, &'x mut A, (), ()>) -> %s { %s }" % (sig, m),
          "fn t<'x, 'y>(q: &'y mut QueryAll<'x, &'x mut A, (), ()>) -> %s { %s }" % (sig, m))
    w("the item of a lookup is tied to the borrow of the query", "QueryOne::get", "fn t<'x>(q: &'x mut QueryOne<'static, &'x mut A, (), ()>, e: Entity) -> Option<&'x mut A> { q.get(e) }",
      "fn t<'x, 'y>(q: &'y mut QueryOne<'x, &'x mut A, (), ()>, e: Entity) -> Option<&'x mut A> { q.get(e) }")
    run(cx, ws)


@rule("unique-handles", "C15")
def r_unique(cx):
    """What gives exclusive access cannot be duplicated."""
    ws = []
    for t in ("ViewMut<'static, A>", "Iter<'static, &'static mut A, (), ()>", "Iter<'static, (Entity, &'static mut A), &'static B, ()>", "ParIter<'static, &'static mut A, (), ()>",
              "DenseIter<'static, &'static mut A>", "SparseIter<'static, &'static mut A, (), ()>", "DenseParIter<'static, &'static mut A>", "SparseParIter<'static, (Entity, &'static mut A), (), &'static B>",
              "QueryAll<'static, &'static mut A, (), ()>", "QueryOne<'static, &'static mut A, (), ()>", "<&'static mut A as Query>::View<'static>", "<&'static mut A as Query>::Item<'static>",
              "<Option<&'static mut A> as Query>::Item<'static>", "<&'static mut A as Query>::Slice<'static>"):
        n = t.split("<")[0] or t
        ws.append(Witness("what gives exclusive access cannot be cloned", "fn t() { let x = core::mem::size_of::<%s>(); }" % t, "fn t() { need_clone::<%s>(); }" % t, "C15", "sparsey::" + (n or "Query"), BOUND))
    run(cx, ws)


# ---------------------------------------------------------------- implemented traits

T16 = "ABCDEFGHIJKLMNOP"


@rule("traits", "C20 C23 C26 C14")
def r_traits(cx):
    """Traits that promise something about a type are implemented for the right types."""
    ws = []
    for t in ("Entity", "Version", "ComponentData"):
        ws.append(Witness("%s can be compared, ordered and hashed" % t, "fn t() { need_eq::<%s>(); need_ord::<%s>(); need_hash::<%s>(); }" % (t, t, t), None, "C23", "sparsey::" + t))
    ws.append(Witness("the first version is one", "const _: () = assert!(Version::FIRST.0.get() == 1);", None, "C23", "sparsey::Version::FIRST"))
    ws.append(Witness("no version follows the last one", "const _: () = assert!(Version::LAST.0.get() == u32::MAX && Version::LAST.next().is_none());", None, "C23", "sparsey::Version::LAST"))
    ws.append(Witness("iterators over filtered entities promise no exact length", "fn t() { need_iter::<Iter<'static, &'static A, (), ()>>(); }",
                      "fn t() { need_exact::<Iter<'static, &'static A, (), ()>>(); }", "C20", "sparsey::Iter", BOUND))
    ws.append(Witness("iterators over filtered entities promise no exact length", "fn t() { need_iter::<SparseIter<'static, &'static A, (), ()>>(); }",
                      "fn t() { need_exact::<SparseIter<'static, &'static A, (), ()>>(); }", "C20", "sparsey::SparseIter", BOUND))
    for p in ("ParIter", "SparseParIter"):
        ws.append(Witness("parallel iterators over filtered entities promise no exact length", "fn t() { need_send::<%s<'static, &'static A, (), ()>>(); }" % p,
                          "fn t() { need_indexed::<%s<'static, &'static A, (), ()>>(); }" % p, "C20 C14", "sparsey::" + p, BOUND))
    for n in range(1, 17):
        vs = list(T16[:n])
        tup = lambda f: "(%s,)" % ", ".join(f(i, v) for i, v in enumerate(vs))
        decl = "struct X<const N: usize>(u8);"
        g = [("X<%d>" % i) for i in range(n)]
        ws.append(Witness("tuples of %d components are component sets" % n, decl + "fn t() { need_set::<(%s,)>(); }" % ", ".join(g), None, "C26", "sparsey::ComponentSet"))
        ws.append(Witness("tuples of %d parts are queries" % n, decl + "fn t() { need_query::<(%s,)>(); }" % ", ".join("&'static " + x for x in g), None, "C26", "sparsey::Query"))
        if n >= 2:
            ws.append(Witness("tuples of %d components are groups" % n, decl + "fn t() { need_group::<(%s,)>(); }" % ", ".join(g), None, "C26 C09", "sparsey::GroupDescriptor"))
    run(cx, ws)
