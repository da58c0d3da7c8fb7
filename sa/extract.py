"""Extraction of the effects of a closure class: the rules, the axioms and the one time rules."""
from __future__ import annotations
from .engine import *
from .values import *
from .values import _counter as en_counter

MOD = {"RDFS_Semantics": "RDFSClosure", "OWLRL_Semantics": "OWLRL", "RDFS_OWLRL_Semantics": "CombinedClosure",
       "OWLRL_Extension": "OWLRLExtras", "OWLRL_Extension_Trimming": "OWLRLExtras", "Core": "Closure"}


def find_class(eng, name):
    st = eng.init_state
    order = ([eng.package + "." + MOD[name]] if name in MOD else []) + sorted(eng.modules)
    for m in order:
        mod = eng.modules.get(m)
        if mod is None or mod.env is None:
            continue
        v = st.heap[mod.env].vars.get(name)
        if isinstance(v, Cls):
            return v
    raise Broken("no class %s in the package" % name)


class Ctx:
    """A closure object ready to be analysed."""


def any_node(line=0):
    n = ast.Pass()
    n.lineno, n.col_offset = line, 0
    return n


def some_restrictions(en, fn, args, kw, st, node):
    """The restricted datatypes that are declared in the graph: a collection of unknown objects."""
    i = next(en_counter)
    x = fresh("rt")
    return [en.new_coll(st, "list", (Entry(App("restriction", (x,)), ((True, ("elem", ("restrictions",), x)),)),), exact=False, scope=i)]


def open_closure(eng, clsname, axioms=TRUE, daxioms=TRUE, rdfs=NONE, destination=NONE, graph=None, override=True):
    # RDFLib's own conversion table plays no role for the rules (C16 is about it)
    eng.overrides = {"fn:extract_faceted_datatypes": some_restrictions,
                     "fn:use_Alt_lexical_conversions": lambda en, fn, args, kw, st, node: [(st, NONE)]}
    eng.special, eng.buffer_attrs = {}, {}
    c = Ctx()
    c.eng, c.clsname = eng, clsname
    c.cls = find_class(eng, clsname)
    eng.stack = [("<analysis>", eng.modules[c.cls.module])]
    st = eng.init_state
    g = graph or GraphV("G")
    node = any_node()
    kw = {"destination": destination}
    args = [g, axioms, daxioms]
    if rdfs is not NONE:
        kw["rdfs"] = rdfs
    eng.sink = []
    # the state that does not depend on the graph: the constructor is followed to its normal end
    res = [(x, v) for x, v in eng.instantiate(c.cls, args, kw, st, node) if not isinstance(v, Exit)]
    if not res:
        raise Broken("the constructor of %s does not complete" % clsname)
    c.init_effects = eng.sink
    eng.sink = []
    c.paths = res
    x, ref = res[0]
    c.st = State((), {}, x.heap, ())
    c.ref = ref
    h = dict(c.st.heap)
    o = h[ref.id]
    h[ref.id] = HInst(o.cls, o.attrs, "closure")
    c.st = State((), {}, h, ())
    find_roles(c)
    if override:
        rule_overrides(c)
    return c


def find_roles(c):
    """Which attributes hold the buffer of the new triples and the error messages?"""
    eng = c.eng
    o = c.st.heap[c.ref.id]
    c.buffer = c.errors = None
    for role, meth, arg in (("buffer", "store_triple", Tup((fresh("s"), fresh("p"), fresh("o")))), ("errors", "add_error", Const("m"))):
        m = eng.class_attr(c.cls, meth, c.st)
        if m is None:
            raise Broken("no method %s in %s" % (meth, c.clsname))
        saved = eng.sink
        eng.sink = []
        res = eng.call(Bound(m, c.ref), [arg], {}, c.st, any_node())
        eng.sink = saved
        for y, v in res:
            for a, w in o.attrs.items():
                if isinstance(w, Ref) and isinstance(y.heap.get(w.id), HColl) and y.heap[w.id] != c.st.heap.get(w.id):
                    eng.special[w.id] = role
                    eng.buffer_attrs[a] = role
                    setattr(c, role, (a, w.id))
        if getattr(c, role) is None:
            raise Broken("%s of %s fills no attribute" % (meth, c.clsname))


def rule_overrides(c):
    eng = c.eng

    def store(en, fn, args, kw, st, node):
        return [(en.emit("store", (args[1] if len(args) > 1 else next(iter(kw.values())),), st, node), NONE)]

    def error(en, fn, args, kw, st, node):
        return [(en.emit("error", (args[1] if len(args) > 1 else next(iter(kw.values())),), st, node), NONE)]

    eng.overrides["fn:store_triple"] = store
    eng.overrides["fn:add_error"] = error


def run_method(c, name, args=(), st=None):
    """-> (effects, outcomes)"""
    eng = c.eng
    st = st or c.st
    m = eng.class_attr(c.cls, name, st)
    if m is None:
        return [], []
    eng.sink = []
    eng.try_stack, eng.loops = [], []
    eng.stack = [("<analysis>", eng.modules[c.cls.module])]
    res = eng.call(Bound(m, c.ref), list(args), {}, st, any_node())
    out = eng.sink
    eng.sink = []
    return out, res


def run_rules(c, cycle):
    """The effects of `rules` for a generic triple of the graph."""
    t = Tup((fresh("s"), fresh("p"), fresh("o")))
    st = c.eng.add(c.st, True, ("in", "G", t.items))
    eff, res = run_method(c, "rules", [t, cycle], st)
    return t, eff, res


def havoc_state(c, cycle):
    """What `rules` itself changes on the object has arbitrary contents when it is called in the middle of a run."""
    eng = c.eng
    for _ in range(3):
        t, eff, res = run_rules(c, cycle)
        o = c.st.heap[c.ref.id]
        h = dict(c.st.heap)
        changed = False
        for x, v in res:
            o2 = x.heap.get(c.ref.id)
            attrs = dict(h[c.ref.id].attrs)
            for a, w in o2.attrs.items():
                if w != o.attrs.get(a) and attrs.get(a) != App("prior:" + a):
                    attrs[a] = App("prior:" + a)
                    changed = True
            h[c.ref.id] = HInst(o.cls, attrs, o.tag)
            for i, p in c.st.heap.items():
                q = x.heap.get(i)
                if isinstance(p, HColl) and q is not p and q != p and i not in eng.special:
                    key = ("prior", i)
                    if key not in h[i].opaque:
                        p2 = eng.inexact(h[i])
                        h[i] = HColl(p2.kind, False, p2.items, p2.scope, p2.base, p2.opaque + (key,), p2.dflt, p2.tag)
                        changed = True
        if not changed:
            return t, eff, res
        c.st = State((), {}, h, ())
    return run_rules(c, cycle)
