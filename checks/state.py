"""C15, C16: the process-wide tables, and the switch of the lexical conversions."""
from __future__ import annotations
from sa.rules import *
from sa.engine import *
from sa.values import *
from sa.values import _counter
from sa.spec import iri
from .effects import CLASSES, all_effects, session, HOOKS
from .axioms import label

PYMAP = "rdflib._toPythonMapping"
XSDMAP = Ext("rdflib.XSDToPython")
LOC = ("owlrl/__init__.py", 0, "DeductiveClosure.expand")


def table_engine(root, names=()):
    """An engine that follows rdflib's conversion table, and the module-level objects of these names, by their contents."""
    eng = Engine(root)
    i = next(_counter)
    eng.init_state = eng.init_state.put(i, HTable(PYMAP, ("initial", PYMAP)))
    eng.ext_objects[PYMAP] = Ref(i)
    eng.global_ids[i] = PYMAP
    eng.load()
    tables = {PYMAP: i}
    for j, n in eng.global_ids.items():
        if n in names and isinstance(eng.init_state.heap.get(j), HColl):
            tables[n] = j
    return eng, tables


def mutated_globals(root):
    """What process-wide objects do the closures change while they are built and run? -> {name: location}"""
    out = {}
    for cls, rdfs in CLASSES:
        eng = Engine(root)
        i = next(_counter)
        eng.init_state = eng.init_state.put(i, HTable(PYMAP, ("initial", PYMAP)))
        eng.ext_objects[PYMAP] = Ref(i)
        eng.load()
        eng.table_event = lambda name, old, new, node, st: out.setdefault(name, eng.loc(node) if node is not None else LOC)
        eng.gmut = []
        c = open_closure(eng, cls, **({} if rdfs is None else {"rdfs": Const(rdfs)}))
        all_effects(c)
        for name, what, loc, guards in eng.gmut:
            out.setdefault(name, loc)
    return out


def call(eng, f, args, st, kw=None):
    eng.sink, eng.loops, eng.try_stack = [], [], []
    m = f.fn.module if isinstance(f, Bound) else f.module
    eng.stack = [("<analysis>", eng.modules[m])]
    return eng.call(f, list(args), kw or {}, st, any_node())


def facade(eng, name="DeductiveClosure"):
    m = eng.modules["owlrl"]
    v = eng.init_state.heap[m.env].vars.get(name)
    return v if isinstance(v, (Cls, Fn)) else None


EXITS = ("ValueError", "KeyboardInterrupt", "Exception")


def opaque_closure(eng, tables, events):
    """The closure may do anything with the tables, when it is built and when it runs, and may be interrupted."""
    n = [0]

    def havoc(st):
        n[0] += 1
        for name, i in tables.items():
            st = st.put(i, HTable(name, ("changed by the closure", n[0])))
        return st

    def new(en, c, args, kw, st, node):
        events.append(("new", st, list(args), dict(kw), en.loc(node)))
        y = havoc(st)
        i = next(_counter)
        z = y.put(i, HInst(c, {}))
        return [(z, Ref(i))] + [(havoc(st), en.Exit(x)) for x in EXITS]

    def run(en, fn, args, kw, st, node):
        events.append(("closure", st, list(args), dict(kw), en.loc(node)))
        y = havoc(st)
        return [(y, NONE)] + [(havoc(st), en.Exit(x)) for x in EXITS]

    eng.overrides["new:RDFS_Semantics"] = new
    eng.overrides["fn:closure"] = run


def options(eng, closure, improved, generic, st):
    """-> the state and the DeductiveClosure object"""
    D = facade(eng)
    C = eng.lookup("RDFS_Semantics", eng.init_state, eng.modules["owlrl"].env) if closure else NONE
    out = []
    eng.sink, eng.loops, eng.try_stack = [], [], []
    eng.stack = [("<analysis>", eng.modules["owlrl"])]
    saved = dict(eng.overrides)
    res = eng.instantiate(D, [C], {"improved_datatypes": Const(improved)}, st, any_node())
    eng.overrides = saved
    for x, v in res:
        if isinstance(v, Ref):
            if generic is not None:
                x = eng.setvar(x, D.env, "improved_datatype_generic", Const(generic))
            out.append((x, v))
    return out


def restored(rep, root, tier):
    rep.rule("effect analysis: the process-wide objects that the constructors, hooks and rules of the closure classes mutate; "
             "typestate of each such table through DeductiveClosure.expand (initial, changed by the closure, copy, cleared, updated): it has its initial contents "
             "at every exit, normal or exceptional")
    muts = mutated_globals(root)
    rep.counts["process-wide objects changed by the closures"] = sorted(muts)
    names = set(muts) | {"owlrl.DatatypeHandling.AltXSDToPYTHON", "owlrl.XsdDatatypes.OWL_RL_Datatypes", "owlrl.XsdDatatypes.OWL_Datatype_Subsumptions"}
    eng, tables = table_engine(root, names)
    for name, loc in muts.items():
        if name not in tables:
            rep.violation("state/%s" % name, "the closures change %s, which outlives the expansion" % name, loc)
    rep.check(facade(eng) is not None, "facade", "no class DeductiveClosure", LOC)
    st = eng.init_state
    for name, i in tables.items():
        st = st.put(i, HTable(name, ("initial", name)))
    paths = 0
    for closure in (True, False):
        for improved in (True, False):
            for generic in (True, False):
                cfg = "%s closure, improved_datatypes=%s, generic=%s" % ("a" if closure else "no", improved, generic)
                events = []
                opaque_closure(eng, tables, events)
                eng.gmut = []
                for x, ref in options(eng, closure, improved, generic, st):
                    D = x.heap[ref.id].cls
                    expand = eng.class_attr(D, "expand", x)
                    if expand is None:
                        rep.violation("expand", "DeductiveClosure has no method expand", LOC)
                        return
                    before = x.heap[ref.id].attrs
                    eng.gmut = []
                    eng.tables_log = []
                    for dest in (NONE, GraphV("D")):
                        for y, v in call(eng, Bound(expand, ref), [GraphV("G")], x, {"destination": dest}):
                            paths += 1
                            how = "an exception (%s)" % v.val.args[0].v if isinstance(v, Exit) and isinstance(v.val, App) and v.val.args and isinstance(v.val.args[0], Const) else "the end"
                            for name, i in sorted(tables.items()):
                                c = y.heap[i].content
                                key = "restored/%s/%s" % (name.split(".")[-1], "exception" if isinstance(v, Exit) else "return")
                                if c == ("initial", name):
                                    rep.ok({"table": name, "configuration": cfg, "exit": how})
                                elif unknown(c):
                                    rep.undecide("%s (%s): %r" % (key, cfg, c))
                                else:
                                    rep.violation(key, "%s is not as before after %s of expand (%s): %s" % (name, how, cfg, show(c)), LOC)
                            h = y.heap[ref.id]
                            rep.check(h.attrs == before, "instance", "expand changes the DeductiveClosure object: %s" % sorted(
                                a for a in set(h.attrs) | set(before) if h.attrs.get(a) != before.get(a)), LOC)
                            if generic is not None:
                                g = eng.class_attr(D, "improved_datatype_generic", y)
                                rep.check(g == Const(generic), "generic", "expand changes improved_datatype_generic", LOC)
                    for name, what, loc, guards in eng.gmut:
                        if name not in tables and not name.endswith("improved_datatype_generic"):
                            rep.violation("expand/%s" % name, "expand %s %s" % (what, name), loc)
                n = sum(e[0] == "closure" for e in events)
                if closure:
                    rep.check(n > 0, "runs/%s" % cfg, "the closure is not run", LOC)
                for e in (e for e in eng.sink if e.kind in PROBLEM):
                    rep.undecide("%s %r" % (e.kind, e.payload))
    rep.counts["paths through expand"] = paths


def unknown(c):
    if isinstance(c, tuple):
        return c[:1] == ("unknown",) or any(unknown(x) for x in c)
    return False


def show(c):
    return repr(c)[:200]


# ------------------------------------------------------------------------------------------------------------- conversions

K1, K2 = Sym(900001, "datatype"), Sym(900002, "datatype")


def steps(c):
    """contents -> list of operations from the initial contents; None: unknown"""
    out = []
    while True:
        if c == ("initial", PYMAP):
            return out[::-1]
        if c == ("empty",):
            return (out + [("clear",)])[::-1]
        if isinstance(c, tuple) and len(c) == 3 and c[0] == "mod":
            out.append(c[2])
            c = c[1]
            continue
        if isinstance(c, tuple) and c[:1] in (("coll",), ("unknown",)):
            return (out + [("update", c), ("clear",)])[::-1]
        return None


def conversion(eng, st, content, key, alt):
    """The conversion of the datatype `key` after the operations: 'initial' | 'absent' | 'rdflib' | 'improved' | None (unknown)"""
    ops = steps(content)
    if ops is None:
        return None
    known = known_to_rdflib(eng, st, key)
    cur = "initial"
    for op in ops:
        if op[0] == "clear":
            cur = "absent"
        elif op[0] in ("pop", "del"):
            same = same_key(eng, st, op[1], key)
            if same is None:
                return None
            if same:
                cur = "absent"
        elif op[0] == "setdefault":
            same = same_key(eng, st, op[1], key)
            if same is None or same and cur == "initial" and known is not True:
                return None
            if same and cur == "absent":
                cur = "improved" if len(op) > 2 and value_of(eng, st, op[2], key, alt) else None
        elif op[0] == "set":
            same = same_key(eng, st, op[1], key)
            if same is None:
                return None
            if same:
                cur = "improved" if value_of(eng, st, op[2], key, alt) else "rdflib" if op[2] == App("getitem", (XSDMAP, key)) else None
        elif op[0] == "update":
            c = op[1]
            if c == alt:
                cur = "improved"
            elif c == ("unknown", XSDMAP):
                if known is None:
                    return None
                if known:
                    cur = "rdflib"
            else:
                return None
        else:
            return None
        if cur is None:
            return None
    if cur == "initial" and any(not p and l[0] == "opq" and l[1][:1] == ("in",) and len(l[1]) == 3 and l[1][1] == eng.ext_objects[PYMAP] and
                                same_key(eng, st, l[1][2], key) for p, l in st.guards):
        return "absent"
    return cur


def known_to_rdflib(eng, st, key):
    """Is the datatype one that rdflib itself converts, on this path?"""
    for p, l in st.guards:
        if l == ("opq", ("in", XSDMAP, key)):
            return p
    return None


def same_key(eng, st, a, b):
    a, b = rename(a, st.subst), rename(b, st.subst)
    if a == b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return False
    return None


def value_of(eng, st, v, key, alt):
    return isinstance(v, Const) and v.v == ("improved", key)


def conversions(rep, root, tier):
    rep.rule("typestate: for an arbitrary datatype of the improved table (known to RDFLib or not), the conversion that rdflib's table holds for it after each operation, "
             "at the construction and the run of the closure in expand, and after the two switches")
    eng, tables = table_engine(root)
    altname = "owlrl.DatatypeHandling.AltXSDToPYTHON"
    ai = next((i for i, n in eng.global_ids.items() if n == altname), None)
    if ai is None or not isinstance(eng.init_state.heap[ai], HColl):
        rep.violation("table", "no module-level table of improved conversions", ("owlrl/DatatypeHandling.py", 0, "AltXSDToPYTHON"))
        return
    # two arbitrary datatypes stand for those of the table
    items = tuple((k, Const(("improved", k))) for k in (K1, K2))
    old = eng.init_state.heap[ai]
    base = eng.init_state.put(ai, HColl("dict", True, items, old.scope, (), ()))
    alt = ("coll", items)
    pm = tables[PYMAP]
    loc = ("owlrl/DatatypeHandling.py", 0, "")

    def starts():
        for k in ((True, True), (True, False), (False, True), (False, False)):
            st = eng.add(base, False, ("eq", K1, K2))
            for key, p in zip((K1, K2), k):
                st = eng.add(st, p, ("opq", ("in", XSDMAP, key)))
            yield k, st

    def judge(name, st, want, loc, gen=None):
        for key in (K1, K2):
            got = conversion(eng, st, st.heap[pm].content, key, alt)
            w = want(known_to_rdflib(eng, st, key))
            if got is None:
                rep.undecide("%s: %s" % (name, show(st.heap[pm].content)))
            elif got == w:
                rep.ok({"situation": name, "conversion": got})
            else:
                rep.violation(name, "a datatype %s to RDFLib has the %s conversion instead of %s" % (
                    "known" if known_to_rdflib(eng, st, key) else "unknown", got, w), loc)

    D = facade(eng)
    for k, st in starts():
        # the switches
        for meth, want, gen in (("use_improved_datatypes_conversions", lambda known: "improved", True),
                                ("use_rdflib_datatypes_conversions", lambda known: "rdflib" if known else "absent", False)):
            f = eng.class_attr(D, meth, st)
            if f is None:
                rep.violation(meth, "DeductiveClosure has no %s" % meth, LOC)
                continue
            for before in (True, False):
                x = eng.setvar(st, D.env, "improved_datatype_generic", Const(before))
                for y, v in call(eng, f, [], x):
                    if isinstance(v, Exit):
                        rep.violation(meth, "%s raises an exception" % meth, LOC)
                        continue
                    judge(meth, y, want, LOC)
                    g = eng.class_attr(D, "improved_datatype_generic", y)
                    rep.check(g == Const(gen), meth + "/flag", "improved_datatype_generic is %r after %s" % (g, meth), LOC)
        # the expansion
        for improved in (True, False):
            for generic in (True, False):
                cfg = "improved_datatypes=%s, switched on generally: %s" % (improved, generic)
                events = []
                opaque_closure(eng, tables, events)
                for x, ref in options(eng, True, improved, generic, st):
                    expand = eng.class_attr(x.heap[ref.id].cls, "expand", x)
                    call(eng, Bound(expand, ref), [GraphV("G")], x)
                rep.check(any(e[0] == "new" for e in events), "expand/%s" % cfg, "no closure is built", LOC)
                for kind, y, args, kw, l in events:
                    if kind == "new":
                        judge("expand/%s" % cfg, y, lambda known: "improved" if improved and not generic else "initial", l)
    # what 'initial' is: rdflib's own conversions, unless the improved ones are switched on generally
    g = eng.class_attr(D, "improved_datatype_generic", eng.init_state)
    rep.check(g == FALSE, "default", "the improved conversions are not off by default: improved_datatype_generic = %r" % (g,), LOC)
    rep.check(eng.init_state.heap[pm].content == ("initial", PYMAP), "import", "importing the package changes rdflib's conversions", LOC)
