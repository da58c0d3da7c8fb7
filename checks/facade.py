"""C27, C28, C29, C31: the entry points: selection of the closure, plumbing of the options, formats, imports, bad arguments."""
from __future__ import annotations
import itertools
from sa.rules import *
from sa.engine import *
from sa.values import *
from sa.values import _counter
from sa.spec import iri
from .state import call, facade, LOC

CLOSURES = ("RDFS_Semantics", "OWLRL_Semantics", "RDFS_OWLRL_Semantics", "OWLRL_Extension", "OWLRL_Extension_Trimming")
INIT = ("owlrl/__init__.py", 0, "")


def spec_class(owl, rdfs, extras, trimming):
    if owl:
        if extras:
            return "OWLRL_Extension_Trimming" if trimming else "OWLRL_Extension"
        return "RDFS_OWLRL_Semantics" if rdfs else "OWLRL_Semantics"
    return "RDFS_Semantics" if rdfs else None


PARAMS = ("graph", "axioms", "daxioms", "rdfs", "destination")
DEFAULTS = {"rdfs": FALSE, "destination": NONE}


def recorder(eng, extra=()):
    """The closures are opaque: their construction and their run are recorded in the trace of the path."""
    eng.tracing = True

    def new(en, c, args, kw, st, node):
        init = en.class_attr(c, "__init__", st)
        vals = {}
        if isinstance(init, Fn):
            i = next(_counter)
            b = en.bind_args(init, [Ref(i)] + list(args), kw, st, node)
            if b is None:
                return [(st, en.Exit("TypeError"))]
            names = [a.arg for a in init.node.args.posonlyargs + init.node.args.args][1:] + [a.arg for a in init.node.args.kwonlyargs]
            for n, p in zip(names, PARAMS):
                vals[p] = b[1].get(n)
        i = next(_counter)
        st = en.emit("new", (Const(c.name), Tup(tuple(vals.get(p) if isinstance(vals.get(p), Val) else DEFAULTS.get(p, NONE) for p in PARAMS)), Ref(i)), st, node)
        return [(st.put(i, HInst(c, {})), Ref(i))]

    def run(en, fn, args, kw, st, node):
        return [(en.emit("run", (args[0] if args else NONE,), st, node), NONE)]

    for c in CLOSURES + tuple(extra):
        eng.overrides["new:" + c] = new
    eng.overrides["fn:closure"] = run


def instance(st, attrs):
    i = next(_counter)
    return st.put(i, HInst(None, attrs)), Ref(i)


def lst(st, items):
    i = next(_counter)
    return st.put(i, HColl("list", True, tuple(items))), Ref(i)


def flat(trace):
    """The events of a trace, those inside loops too."""
    for e in trace:
        if e[0] == "loop":
            for t, g in e[1]:
                yield from flat(t)
        else:
            yield e


def israise(v):
    return isinstance(v, Exit)


def exc_name(v):
    x = v.val
    if isinstance(x, App) and x.fn == "exc" and x.args and isinstance(x.args[0], Const):
        return x.args[0].v
    return None


def problems(rep, eng, where, ignore=("attr",)):
    for e in eng.sink:
        if e.kind in PROBLEM and e.kind not in ignore and not (e.kind == "unresolved" and str(e.payload[0].v).startswith("attribute of an instance of None")):
            rep.undecide("%s: %s %r" % (where, e.kind, e.payload))
            return True
    return False


def function(eng, name, module="owlrl"):
    v = eng.lookup(name, eng.init_state, eng.modules[module].env)
    return v if isinstance(v, (Fn, Cls)) else None


# -------------------------------------------------------------------------------------------------- C27: the closure asked for

def selection(rep, root, tier):
    rep.rule("abstract interpretation with constants of return_closure_class, DeductiveClosure.__init__ and expand: the class selected, and on every path the one construction "
             "(class, graph, flags, destination) and the one run of the closure")
    eng = Engine(root)
    eng.load()
    recorder(eng)
    sel = function(eng, "return_closure_class")
    D = facade(eng)
    if sel is None or D is None:
        rep.violation("entry", "return_closure_class or DeductiveClosure is missing", INIT)
        return
    st = eng.init_state
    for owl, rdfs, extras, trim in itertools.product((True, False), repeat=4):
        want = spec_class(owl, rdfs, extras, trim)
        for y, v in call(eng, sel, [Const(owl), Const(rdfs), Const(extras)], st, {"trimming": Const(trim)}):
            got = v.name if isinstance(v, Cls) else None if v == NONE else "?" if not israise(v) else "an exception"
            key = "select/owl=%s,rdfs=%s,extras=%s,trimming=%s" % (owl, rdfs, extras, trim)
            if got == "?":
                rep.undecide(key)
            else:
                rep.check(got == want, key, "return_closure_class selects %s instead of %s" % (got, want), INIT)
        if not trim:
            for y, v in call(eng, sel, [Const(owl), Const(rdfs), Const(extras)], st):
                rep.check(isinstance(v, Cls) and v.name == want or v == NONE and want is None, "select/default",
                          "the default of return_closure_class with owl=%s, rdfs=%s, extras=%s is not %s" % (owl, rdfs, extras, want), INIT)
    problems(rep, eng, "return_closure_class")
    # the classes
    for name in CLOSURES:
        c = function(eng, name)
        rep.check(isinstance(c, Cls) and any(isinstance(k, Cls) and k.name == "Core" for k in eng.mro(c)), "class/" + name, "%s is not a closure class" % name, INIT)
    # the expansion
    flags = [(a, d, r, i) for a in (TRUE, FALSE) for d in (TRUE, FALSE) for r in (TRUE, FALSE) for i in (TRUE, FALSE)]
    dests = (NONE, GraphV("D"), IRI("http://example.org/destination"))
    n = 0
    for name in CLOSURES + (None,):
        C = function(eng, name) if name else NONE
        for a, d, r, i in flags:
            eng.sink, eng.loops, eng.try_stack = [], [], []
            eng.stack = [("<analysis>", eng.modules["owlrl"])]
            ov = eng.overrides
            eng.overrides = {}
            res = eng.instantiate(D, [C], {"improved_datatypes": i, "rdfs_closure": r, "axiomatic_triples": a, "datatype_axioms": d}, st, any_node())
            eng.overrides = ov
            for x, ref in res:
                if not isinstance(ref, Ref):
                    rep.violation("construct", "DeductiveClosure(%s) fails" % name, LOC)
                    continue
                expand = eng.class_attr(D, "expand", x)
                for dest in dests:
                    for y, v in call(eng, Bound(expand, ref), [GraphV("G")], x, {"destination": dest}):
                        n += 1
                        one_run(rep, "expand", y.trace[len(x.trace):], name, dict(graph=GraphV("G"), axioms=a, daxioms=d, rdfs=r, destination=dest), v)
                        if dest == NONE and i == TRUE:
                            break
    # the defaults of the constructor
    for x, ref in construct(eng, D, [function(eng, "OWLRL_Semantics")], {}, st):
        if isinstance(ref, Ref):
            for y, v in call(eng, Bound(eng.class_attr(D, "expand", x), ref), [GraphV("G")], x):
                one_run(rep, "defaults", y.trace[len(x.trace):], "OWLRL_Semantics", dict(graph=GraphV("G"), axioms=FALSE, daxioms=FALSE, rdfs=FALSE, destination=NONE), v)
    problems(rep, eng, "expand")
    rep.counts["paths through expand"] = n


def construct(eng, D, args, kw, st, overrides=None):
    eng.sink, eng.loops, eng.try_stack = [], [], []
    eng.stack = [("<analysis>", eng.modules["owlrl"])]
    ov, eng.overrides = eng.overrides, overrides or {}
    try:
        return eng.instantiate(D, args, kw, st, any_node())
    finally:
        eng.overrides = ov


def one_run(rep, key, trace, name, want, v):
    ev = list(flat(trace))
    news = [e for e in ev if e[0] == "new"]
    runs = [e for e in ev if e[0] == "run"]
    looped = any(e[0] == "loop" and any(x[0] in ("new", "run") for x in flat([e])) for e in trace)
    if israise(v):
        rep.violation(key + "/exception", "the expansion with %s ends with an exception" % name, LOC)
        return
    if name is None:
        rep.check(not news and not runs, key + "/none", "a closure is run although none was asked for", LOC)
        return
    loc = news[0][2] if news else LOC
    if not rep.check(len(news) == 1 and not looped, key + "/once", "%d closures are built by one expansion" % len(news), loc):
        return
    c, vals, ref = news[0][1]
    rep.check(c.v == name, key + "/class", "the closure built is %s instead of %s" % (c.v, name), loc)
    got = dict(zip(PARAMS, vals.items))
    for p in PARAMS:
        if p not in want:
            continue
        g = got[p]
        if isinstance(g, Const) and isinstance(want[p], Const) and isinstance(want[p].v, bool):
            same = bool(g.v) == want[p].v
        else:
            same = g == want[p] or (p == "graph" and want[p] is None)
        if not same and isinstance(g, (Sym, App)):
            rep.undecide("%s/%s: %r" % (key, p, g))
        else:
            rep.check(same, "%s/%s" % (key, p), "the argument %s of the closure %s is %r instead of %r" % (p, name, g, want[p]), loc)
    rep.check(len(runs) == 1 and runs[0][1][0] == ref, key + "/run", "closure() is called %d times instead of once on the closure built" % len(runs), loc)


# ------------------------------------------------------------------------------------------------ C28: convert_graph and formats

YES, NO = (TRUE, Const("yes"), Const("Yes"), Const("True"), Const("true")), (FALSE, Const("no"), NONE)
ALIAS = {"turtle": {"turtle", "ttl", "text/turtle"}, "xml": {"xml", "application/rdf+xml"}, "json-ld": {"json-ld", "application/ld+json"},
         "rdfa": {"rdfa1.1", "rdfa", "html"}, "n3": {"n3", "turtle", "ttl", "text/turtle", "text/n3"}, "out-xml": {"xml", "pretty-xml", "application/rdf+xml"}}
AUTO = [("a.ttl", "turtle"), ("a.n3", "turtle"), ("a.json", "json-ld"), ("a.jsonld", "json-ld"), ("a.html", "rdfa"), ("a.rdf", "xml"), ("a.owl", "xml"), ("b.rdf", "xml"), ("noext", "xml"),
        ("http://example.org/a.ttl", "turtle"), ("http://example.org/a.ttl/x", "xml"), ("-", "turtle")]
EXPLICIT = [("turtle", "turtle"), ("rdfa", "rdfa"), ("xml", "xml"), ("json", "json-ld")]
OUTPUT = [("rdfxml", "out-xml"), ("xml", "out-xml"), ("json", "json-ld"), ("turtle", "turtle")]


def opts(**kw):
    o = dict(owlClosure=Const("no"), rdfsClosure=Const("no"), owlExtras=Const("no"), trimming=Const("no"), axioms=Const("no"), daxioms=Const("no"),
             format=Const("turtle"), iformat=Const("auto"), text=NONE, sources=("a.ttl",))
    o.update(kw)
    return {k: v for k, v in o.items() if v is not Ellipsis}


def kwargs(pay):
    pos, kw = [], {}
    for a in pay:
        if isinstance(a, Tup) and len(a.items) == 2 and isinstance(a.items[0], Const) and isinstance(a.items[0].v, str) and not kw_done(a):
            kw[a.items[0].v] = a.items[1]
        else:
            pos.append(a)
    return pos, kw


def kw_done(a):
    return False


def parses(ev):
    """-> [(graph, source, data, format, loc)]"""
    out = []
    for e in ev:
        if e[0] == "gparse":
            pos, kw = kwargs(e[1][1:])
            names = ("source", "publicID", "format", "location", "file", "data")
            d = dict(zip(names, pos))
            d.update(kw)
            src = next((d[k] for k in ("source", "location", "file") if k in d and d[k] != NONE), None)
            out.append((e[1][0], src, d.get("data"), d.get("format"), e[2]))
    return out


def fmt(v):
    return v.v if isinstance(v, Const) else None


class Conversion:
    """One abstract run of convert_graph."""

    def __init__(self, eng, f, o, kw=None):
        st, src = lst(eng.init_state, [Const(s) for s in o["sources"]])
        st, ref = instance(st, {**{k: v for k, v in o.items() if k != "sources"}, "sources": src})
        self.eng = eng
        self.runs = call(eng, f, [ref], st, kw)
        self.sink = list(eng.sink)


def conversion(rep, root, tier):
    rep.rule("abstract interpretation of convert_graph for each combination of the options, each way to say yes and no, each format and file suffix: the parse, import, "
             "expansion and serialization events of every path, their arguments and their order")
    eng = Engine(root)
    eng.load()
    recorder(eng, ("MyClosure",))
    f = function(eng, "convert_graph")
    if f is None:
        rep.violation("entry", "convert_graph is missing", INIT)
        return
    imports_seen = [0]

    def imports(en, fn, args, kw, st, node):
        imports_seen[0] += 1
        b = en.bind_args(fn, list(args), kw, st, node)
        g = NONE
        if b is not None:
            g = next((v for v in b[1].values() if isinstance(v, GraphV)), NONE)
        return [(en.emit("imports", (g,) + tuple(v for v in (b[1].values() if b else ()) if isinstance(v, Const)), st, node), NONE)]
    eng.overrides["fn:interpret_owl_imports"] = imports
    n = 0

    def run(what, o, want=None, closureClass=None, kw=None):
        nonlocal n
        c = Conversion(eng, f, o, kw)
        on = lambda k: o.get(k) in YES
        w = want if want is not None else spec_class(on("owlClosure"), on("rdfsClosure"), on("owlExtras"), on("trimming"))
        for y, v in c.runs:
            n += 1
            if problems(rep, eng, what):
                return
            if y.guards:
                rep.undecide("%s: depends on %r" % (what, y.guards[-1]))
                continue
            if israise(v):
                rep.violation("convert/exception", "convert_graph ends with %s for %s" % (exc_name(v) or "an exception", what), LOC_CG)
                continue
            ev = list(flat(y.trace))
            one_run(rep, "convert", y.trace, w, dict(axioms=Const(on("axioms")), daxioms=Const(on("daxioms")), rdfs=Const(on("rdfsClosure")), destination=NONE), v)
            news = [e for e in ev if e[0] == "new"]
            ps = parses(ev)
            gs = {p[0] for p in ps} | {e[1][1].items[0] for e in news}
            rep.check(len(gs) == 1, "convert/one-graph", "the graph that is expanded is not the one that is parsed (%s): %r" % (what, gs), LOC_CG)
            imp = [i for i, e in enumerate(ev) if e[0] == "imports"]
            rep.check(bool(imp) == bool(on("owlClosure")), "convert/imports", "owl:imports are %sinterpreted for %s" % ("" if imp else "not ", what), LOC_CG)
            for i in imp:
                rep.check(Const(o["iformat"].v if "iformat" in o else "auto") in ev[i][1][1:], "convert/imports-format", "imported vocabularies are not read in the input format (%s): %r" % (what, ev[i][1][1:]), LOC_CG)
                rep.check(ev[i][1][0] in gs, "convert/imports-graph", "the imports of another graph are interpreted (%s)" % what, LOC_CG)
            pi = [i for i, e in enumerate(ev) if e[0] == "gparse"]
            ni = [i for i, e in enumerate(ev) if e[0] in ("new", "run")]
            si = [i for i, e in enumerate(ev) if e[0] == "gserialize"]
            ordered = all(a < b for a in pi for b in imp + ni + si) and all(a < b for a in imp for b in ni) and all(a < b for a in ni for b in si)
            rep.check(ordered, "convert/order", "parsing, imports, expansion and serialization are not in this order for %s" % what, LOC_CG)
            # what is parsed
            want_src = sorted(set(o["sources"]) | ({o["source"].v} if isinstance(o.get("source"), Const) and o["source"].v is not None else set()))
            got = sorted(str(stdin(p[1])) if stdin(p[1]) == "stdin" else repr(p[1]) for p in ps if p[2] in (None, NONE))
            rep.check(got == sorted(repr(Const(s)) if s != "-" else "stdin" for s in want_src), "convert/sources",
                      "the sources parsed are %s instead of %s (%s)" % (got, want_src, what), LOC_CG)
            data = [p for p in ps if p[2] not in (None, NONE)]
            text = o.get("text")
            rep.check([p[2] for p in data] == ([text] if text != NONE else []), "convert/text", "the text parsed is %s for %s" % ([p[2] for p in data], what), LOC_CG)
            for p in data:
                rep.check(fmt(p[3]) in ALIAS["n3"], "convert/text-format", "the text is parsed as %r (%s)" % (p[3], what), p[4])
            iform = o["iformat"].v if "iformat" in o else "auto"
            for p in ps:
                if p[2] in (None, NONE):
                    s = "-" if stdin(p[1]) == "stdin" else p[1].v if isinstance(p[1], Const) else None
                    w2 = dict(EXPLICIT).get(iform) or dict(AUTO).get(s)
                    rep.check(fmt(p[3]) in ALIAS[w2], "convert/iformat/%s/%s" % (iform, s if iform == "auto" else ""),
                              "%s is parsed as %r instead of %s (input format %s)" % (s, p[3], w2, iform), p[4])
            # the result
            w3 = dict(OUTPUT).get(fmt(o["format"]), "turtle")
            sers = [e for e in ev if e[0] == "gserialize"]
            if rep.check(len(sers) == 1 and isinstance(v, App) and v.fn == "gserialize", "convert/result", "the result is not the serialization of the graph: %r" % (v,), LOC_CG):
                pos, k2 = kwargs(sers[0][1][1:])
                d = dict(zip(("destination", "format"), pos))
                d.update(k2)
                rep.check(fmt(d.get("format", Const("turtle"))) in ALIAS[w3], "convert/format/%s" % fmt(o["format"]),
                          "the output format %s gives the serialization %r" % (fmt(o["format"]), d.get("format")), sers[0][2])
                rep.check(d.get("destination", NONE) == NONE, "convert/destination", "the serialization is not returned", sers[0][2])
                rep.check(sers[0][1][0] in gs, "convert/serialized", "the graph that is serialized is not the one that is expanded", sers[0][2])

    names = ("owlClosure", "rdfsClosure", "owlExtras", "trimming", "axioms", "daxioms")
    for combo in itertools.product((True, False), repeat=6):
        run("options " + ", ".join(k for k, b in zip(names, combo) if b), opts(**{k: Const("yes" if b else "no") for k, b in zip(names, combo)}))
    for k in names:
        for y in YES + NO:
            base = {"owlClosure": Const("yes")} if k in ("owlExtras", "trimming") else {}
            if k == "trimming":
                base["owlExtras"] = Const("yes")
            run("%s=%r" % (k, y), opts(**{**base, k: y}))
    for s, _ in AUTO:
        run("the source %s" % s, opts(sources=(s,)))
    for i, _ in EXPLICIT:
        for s in ("a.ttl", "a.rdf", "-"):
            run("the source %s, input format %s" % (s, i), opts(sources=(s,), iformat=Const(i)))
    for o, _ in OUTPUT:
        run("output format %s" % o, opts(format=Const(o)))
    run("two sources", opts(sources=("a.ttl", "b.rdf")))
    run("a source given twice", opts(sources=("a.ttl", "b.rdf", "a.ttl")))
    run("a text and no source", opts(sources=(), text=Const("<a:a> <a:b> <a:c> .")))
    run("a text and a source", opts(text=Const("<a:a> <a:b> <a:c> .")))
    run("the option source", opts(source=Const("b.rdf")))
    run("the option source, given also as one of the sources", opts(source=Const("a.ttl")))
    run("source=None", opts(source=NONE))
    run("no option iformat", opts(iformat=...))
    run("no option trimming", opts(trimming=..., owlClosure=TRUE, owlExtras=TRUE))
    # all combinations of what concerns the input and the output
    CLOSURES = ((), ("owlClosure",), ("rdfsClosure",), ("owlClosure", "owlExtras", "trimming")) if tier == "thorough" else ((), ("owlClosure",))
    for srcs, text, i, src, form, cl in itertools.product(
            (("a.ttl",), ("a.rdf",), ("-",), ("a.html", "a.json")) + ((("noext", "a.ttl", "a.n3"), ()) if tier == "thorough" else ((),)),
            (NONE, Const(""), Const("<a:a> <a:b> <a:c> .")), (...,) + tuple(Const(x) for x in ["auto"] + [e[0] for e in EXPLICIT]), (..., NONE, Const("b.rdf")),
            (Const("turtle"), Const("xml"), Const("json")), CLOSURES):
        if not srcs and text != Const("<a:a> <a:b> <a:c> ."):
            continue
        run("sources %s, text %s, input format %s, source %s, output format %s, %s" % (list(srcs), text, i, src, form, " ".join(cl) or "no closure"),
            opts(sources=srcs, text=text, iformat=i, source=src, format=form, **{c: Const("yes") for c in cl}))
    C = function(eng, "RDFS_OWLRL_Semantics")
    for owl in (Const("yes"), Const("no")):
        run("an explicit closure class", opts(owlClosure=owl), want="RDFS_OWLRL_Semantics", kw={"closureClass": C})
    for text in (NONE, Const(""), Const("  \n ")):
        c = Conversion(eng, f, opts(sources=(), text=text))
        for y, v in c.runs:
            n += 1
            rep.check(israise(v), "convert/no-input", "convert_graph accepts a call without any input (text=%r)" % (text,), LOC_CG)
    c = Conversion(eng, f, opts(iformat=Const("no such format")))
    for y, v in c.runs:
        rep.check(israise(v), "convert/bad-iformat", "convert_graph accepts an unknown input format", LOC_CG)
    rep.counts["paths through convert_graph"] = n


LOC_CG = ("owlrl/__init__.py", 0, "convert_graph")


def stdin(v):
    if isinstance(v, Ext) and v.path in ("sys.stdin", "sys.stdin.buffer"):
        return "stdin"
    if isinstance(v, App) and v.fn.startswith("attr:") and v.args and v.args[0] == Ext("sys.stdin"):
        return "stdin"
    return v


# ----------------------------------------------------------------------------------------------------------- C29: owl:imports

IMPORTS = iri("owl:imports")


def excludes(neg, o, guards):
    """Does the guard "there is no import statement such that ..." exclude one, handled before, of the same term o?"""
    for v in syms_of(neg[1]):
        m = {v: o}
        fine = True
        for p, l in neg[1]:
            l = rename(l, m)
            if l[0] == "in":
                fine = p and l[2][1] == IMPORTS and l[2][2] == o
            elif l[0] == "eq" and l[1] == l[2]:
                fine = p
            elif l[0] == "eq":
                fine = (p, l) in guards or (p, (l[0], l[2], l[1])) in guards
            else:
                fine = (p, l) in guards
            if not fine:
                break
        if fine and any(l[0] == "in" for p, l in neg[1]):
            return True
    return False


def imports(rep, root, tier):
    rep.rule("abstract interpretation of interpret_owl_imports (three rounds): the guards of every parse and removal. Every import statement is parsed into the graph unless the same "
             "term was imported before, is removed from the graph, nothing else is removed; at the return the graph has no import statement")
    eng = Engine(root)
    eng.load()
    eng.tracing = True
    f = function(eng, "interpret_owl_imports")
    if f is None:
        rep.violation("entry", "interpret_owl_imports is missing", INIT)
        return
    G = GraphV("G")
    runs = call(eng, f, [Const("turtle"), G], eng.init_state)
    if problems(rep, eng, "interpret_owl_imports", ignore=("attr", "loopcut")):
        return
    loc = ("owlrl/__init__.py", 0, "interpret_owl_imports")
    s1, o1 = fresh("s"), fresh("o")
    for y, v in runs:
        if israise(v):
            rep.violation("imports/exception", "interpret_owl_imports ends with an exception of its own", loc)
            continue
        left = eng.add(y, True, ("in", "G", (s1, IMPORTS, o1)))
        rep.check(left is None, "imports/left", "interpret_owl_imports returns although import statements remain in the graph", loc)
    rep.check(bool(runs), "imports/returns", "interpret_owl_imports never returns", loc)
    parse = [e for e in eng.sink if e.kind == "gparse"]
    rem = [e for e in eng.sink if e.kind == "gremove"]
    first = {}
    again = 0
    for e in parse:
        ps = parses([(e.kind, e.payload, e.loc)])[0]
        rep.check(ps[0] == G, "imports/target", "an imported vocabulary is parsed into another graph", e.loc)
        src = ps[1]
        o = src.args[0] if isinstance(src, App) and src.fn == "str" else src
        if stdin(src) == "stdin":
            continue
        own = [l[2] for p, l in e.guards if p and l[0] == "in" and l[1] == "G" and l[2][1] == IMPORTS and l[2][2] == o]
        if not isinstance(o, Sym):
            rep.undecide("imports/source: %r" % (src,))
            continue
        rep.check(bool(own), "imports/source", "what is parsed is not the object of an import statement", e.loc)
        rep.check(fmt(ps[3]) in ALIAS["turtle"], "imports/format", "the input format is not used for an imported vocabulary: %r" % (ps[3],), e.loc)
        outer = [l for p, l in e.guards if p and l[0] == "in" and l[1] == "G" and l[2][1] == IMPORTS and l[2][2] != o]
        rest = [(p, l) for p, l in e.guards if not (l[0] == "in" or l[0] == "isa" and l[1] == o or not p and l[0] == "eq" and isinstance(l[2], Const))]
        if not rest:
            t = next((p for p, l in e.guards if l[0] == "isa" and l[1] == o), None)
            first[t] = e
        # in a later round, or after another iteration: not the same term again
        if len({l[2] for l in outer}) >= 2:
            again += 1
            ok = any(p and l[0] == "neg" and excludes(l, o, e.guards) for p, l in e.guards)
            rep.check(ok, "imports/again", "a vocabulary that was imported before can be imported again, without end", e.loc)
    rep.check(None in first or True in first and False in first, "imports/all", "an import statement found in the graph is not always followed", loc)
    if not again:
        rep.undecide("no second round")
    for e in rem:
        t = e.payload[1]
        fine = e.payload[0] == G and isinstance(t, Tup) and (t.items[1] == IMPORTS or any(
            p and l[0] == "in" and l[2] == t.items and l[2][1] == IMPORTS for p, l in e.guards))
        rep.check(fine, "imports/remove", "a triple that is no import statement is removed: %r" % (t,), e.loc)
    rep.check(bool(rem), "imports/removed", "import statements are not removed", loc)
    for e in eng.sink:
        if e.kind in ("gadd", "gaddall", "gremove_graph"):
            rep.violation("imports/add", "interpret_owl_imports changes the graph otherwise: %s" % e.kind, e.loc)
    rep.counts["parse calls"] = len(parse)
    rep.counts["parse calls in later rounds"] = again
    rep.assume("the loop is unrolled three times; later rounds differ only in what is known to be imported")


# -------------------------------------------------------------------------------------------------------- C31: invalid arguments

def arguments(rep, root, tier):
    rep.rule("abstract interpretation of the constructors with each kind of invalid argument: every path ends with a ValueError (an exception for convert_graph) and has changed no graph before")
    eng = Engine(root)
    eng.load()
    D = facade(eng)
    st = eng.init_state
    n = 0

    def unchanged(key, loc):
        bad = [e for e in eng.sink if e.kind in ("gadd", "gremove", "gaddall", "gparse", "gbind")]
        rep.check(not bad, key + "/changed", "a graph is changed although the argument is refused", bad[0].loc if bad else loc)

    # a closure that is no class
    core = function(eng, "RDFS_Semantics")
    st2, obj = instance(st, {})
    for name, v, x in (("a string", Const("RDFS_Semantics"), st), ("a number", Const(1), st), ("an object", obj, st2), ("a function", function(eng, "return_closure_class"), st)):
        for y, r in construct(eng, D, [v], {}, x):
            n += 1
            if not israise(r) and problems(rep, eng, "DeductiveClosure"):
                continue
            rep.check(israise(r) and exc_name(r) in ("ValueError", "TypeError"), "closure/" + name, "DeductiveClosure accepts %s as closure class" % name, LOC)
    for name, v in (("a class", core), ("None", NONE)):
        for y, r in construct(eng, D, [v], {}, st):
            n += 1
            rep.check(not israise(r), "closure/" + name, "DeductiveClosure refuses %s" % name, LOC)
    # destinations
    G, GD = GraphV("G"), GraphV("G", "dataset")
    OTHER = GraphV("D")
    loc = ("owlrl/Closure.py", 0, "Core.__init__")
    for cname in CLOSURES:
        C = function(eng, cname)
        if not isinstance(C, Cls):
            continue
        for g, dname, dest, want in ((G, "the name of a graph, for a plain graph", IRI("http://example.org/d"), True), (G, "the name of a graph as a string, for a plain graph", Const("http://example.org/d"), True),
                                     (GD, "the name of a graph, for a dataset", IRI("http://example.org/d"), False), (G, "a graph", OTHER, None), (GD, "a graph, for a dataset", OTHER, None),
                                     (G, "nothing", NONE, False), (GD, "nothing, for a dataset", NONE, False)):
            for y, r in construct(eng, C, [g, FALSE, FALSE, FALSE], {"destination": dest}, st, {
                    "fn:extract_faceted_datatypes": lambda en, fn, args, kw, st, node: [en.new_coll(st, "list", [])],
                    "fn:use_Alt_lexical_conversions": lambda en, fn, args, kw, st, node: [(st, NONE)]}):
                n += 1
                key = "destination/%s/%s" % (cname, dname)
                if problems(rep, eng, key):
                    break
                w = want
                if w is None:
                    w = same_store(y, g, OTHER)
                    if w is None:
                        if not israise(r):
                            rep.violation(key + "/store", "%s accepts a destination that has another store than the graph" % cname, loc)
                        else:
                            rep.undecide(key)
                        continue
                    w = not w
                if w:
                    rep.check(israise(r) and exc_name(r) == "ValueError", key, "%s accepts as destination %s%s" % (cname, dname, " of another store" if want is None else ""), loc)
                    if israise(r) and want:
                        unchanged(key, loc)
                else:
                    rep.check(not israise(r), key + "/accepted", "%s refuses as destination %s" % (cname, dname), loc)
    rep.counts["paths"] = n


def same_store(st, a, b):
    sa, sb = App("store", (a,)), App("store", (b,))
    r = None
    for p, l in st.guards:
        args = l[1:] if l[0] == "eq" else l[1][1:] if l[0] == "opq" and l[1][:1] == ("identical",) else ()
        if set(args) == {sa, sb}:
            if not p:
                return False
            r = True
    return r
