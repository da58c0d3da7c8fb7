"""C33: the CGI script."""
from __future__ import annotations
import ast, os
from sa.rules import *
from sa.engine import *
from sa.values import *
from sa.values import _counter
from .state import call
from .facade import lst, instance, flat, israise, exc_name, function

NAME = "scripts_service"
LOC = ("scripts/RDFConvertService", 0, "")
FIELDS = "source_1 source_2 text format iformat fullClosure owlClosure rdfsClosure owlExtras axioms daxioms uri source".split()
ESCAPERS = ("html.escape", "cgi.escape", "xml.sax.saxutils.escape", "markupsafe.escape")
FORMATS = {"turtle": "text/turtle", "xml": "application/rdf+xml", "rdfxml": "application/rdf+xml", "json": "application/ld+json"}


def wrap(tree):
    """The statements of the script become the body of a function."""
    top, body, names = [], [], set()
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            top.append(s)
        else:
            body.append(s)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
    f = ast.FunctionDef(name="verif_main", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=([ast.Global(names=sorted(names))] if names else []) + (body or [ast.Pass()]),
                        decorator_list=[], returns=None, type_params=[])
    init = [ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=ast.Constant(value=None)) for n in sorted(names)]
    m = ast.Module(body=top + init + [f], type_ignores=[])
    for n in init + [f]:
        ast.copy_location(n, tree.body[0])
    return ast.fix_missing_locations(m)


def tainted(v, escaped=False):
    """Does this text contain something of the request, or of an exception, that has not been escaped?"""
    if isinstance(v, Sym):
        return v.hint.startswith("form-") or v.hint == "exception"
    if isinstance(v, App):
        if v.fn in ESCAPERS or v.fn.startswith("call:") and v.fn[5:] in ESCAPERS or v.fn.split(".")[-1] in ("quoteattr",):
            return False
        if v.fn == "verif.exc":
            return True
        return any(tainted(a) for a in v.args)
    if isinstance(v, Tup):
        return any(tainted(a) for a in v.items)
    return False


def service(rep, root, tier):
    rep.rule("abstract interpretation of scripts/RDFConvertService with symbolic form fields and a conversion that succeeds or raises: information flow from the fields and the exception into "
             "the printed page (only through html.escape), and the printed content type for each output format")
    p = os.path.join(root, "scripts", "RDFConvertService")
    if not os.path.exists(p):
        rep.undecide("scripts/RDFConvertService is not there")
        return
    eng = Engine(root, extra_files=((NAME, p),))
    m = eng.modules[NAME]
    m.tree = wrap(m.tree)
    eng.load()
    main = function(eng, "verif_main", NAME)
    eng.tracing = True
    cur = {}

    def form(en, fn, args, kw, st, node):
        items = []
        for k in FIELDS:
            if k in cur["fields"]:
                st, o = instance(st, {"value": cur["fields"][k]})
                items.append((Const(k), o))
        i = next(_counter)
        return [(st.put(i, HColl("dict", True, tuple(items))), Ref(i))]
    eng.overrides["ext:cgi.FieldStorage"] = form
    eng.overrides["ext:cgitb.enable"] = lambda en, fn, args, kw, st, node: [(st, NONE)]
    for n in ("os.path.abspath", "os.path.dirname", "os.path.join", "sys.path.remove", "sys.path.append", "os.listdir"):
        eng.overrides["ext:" + n] = lambda en, fn, args, kw, st, node: [(st, Const("."))]
    exc = App("verif.exc", ())

    def conv(en, fn, args, kw, st, node):
        o = st.heap.get(args[0].id) if args and isinstance(args[0], Ref) else None
        vals = Tup(tuple(Tup((Const(k), en.reify(v, st))) for k, v in sorted(o.attrs.items()))) if isinstance(o, HInst) else NONE
        st = en.emit("convert", (vals,), st, node)
        return [(st, en.Exit("Exception"))] if cur["raise"] else [(st, App("result", ()))]
    eng.overrides["fn:convert_graph"] = conv
    eng.overrides["ext:sys.exc_info"] = lambda en, fn, args, kw, st, node: [(st, Tup((App("verif.exctype", ()), exc, App("verif.tb", ()))))]

    def fields(**kw):
        f = {k: Sym(next(_counter), "form-" + k) for k in FIELDS}
        f.update({k: Const(v) if isinstance(v, str) else v for k, v in kw.items()})
        return {k: v for k, v in f.items() if v is not None}
    scen = [("all fields", fields(fullClosure="no", iformat="auto"), None), ("full closure", fields(fullClosure="yes", iformat="xml"), None), ("no field", {}, "turtle"),
            ("text only", {"text": Sym(next(_counter), "form-text")}, "turtle")]
    scen += [("one source", {"source": Sym(next(_counter), "form-source")}, "turtle")]
    for fmt in FORMATS:
        scen.append(("format " + fmt, {"format": Const(fmt), "source_1": Const("x.ttl")}, fmt))
    for name, f, fmt in scen:
        for raises in (False, True):
            cur["fields"], cur["raise"] = f, raises
            if not raises and fmt is None:
                continue
            rep.count("requests")
            run(rep, eng, main, name, f, fmt, raises)


def text(v):
    return v.v if isinstance(v, Const) and isinstance(v.v, str) else None


def run(rep, eng, main, name, f, fmt, raises):
    res = call(eng, main, [], eng.init_state)
    bad = [e for e in eng.sink if e.kind in PROBLEM and e.kind not in ("attr", "mayraise")]
    if bad or not res:
        rep.undecide("%s: %s" % (name, [(e.kind, e.payload) for e in bad][:2]))
        return
    for y, v in res:
        evs = [e for e in flat(y.trace) if e[0] in ("convert", "print")]
        if israise(v):
            rep.check(exc_name(v) in ("SystemExit",) or None, "escapes/" + name, "a request (%s) ends with %s" % (name, exc_name(v)), LOC)
            continue
        n = sum(1 for e in evs if e[0] == "convert")
        rep.check(n == 1, "conversions/" + name, "a request (%s) makes %d conversions" % (name, n), LOC)
        if n == 1:
            options(rep, name, f, next(e for e in evs if e[0] == "convert")[1][0])
        prints = [e for e in evs if e[0] == "print"]
        out = [x for e in prints for x in e[1]]
        head = []
        for e in prints:
            if not e[1]:
                break
            head += [text(x) or "" for x in e[1]]
        head = "\n".join(head)
        if raises:
            for e in prints:
                for x in e[1]:
                    rep.check(not tainted(x), "escape:%s" % key(x), "the error page contains %r as it comes" % (x,), e[2] if len(e) > 2 else LOC)
            rep.check("text/html" in head.lower() and "400" in head, "status", "the error page does not have the status 400 and the type text/html", LOC)
        else:
            rep.check(FORMATS[fmt] in head.lower(), "type:" + fmt, "a result in %s is sent with the header %r" % (fmt, head), LOC)
            rep.check(sum(1 for k in set(FORMATS.values()) if k in head.lower()) == 1, "onetype:" + fmt, "a result in %s is sent with the header %r" % (fmt, head), LOC)
            rep.check(any(x == App("result", ()) for x in out) or (None if any(contains(x, App("result", ())) for x in out) else False), "result:" + fmt, "the result of the conversion is not sent", LOC)


def options(rep, name, f, vals):
    if not isinstance(vals, Tup):
        rep.undecide("%s: options" % name)
        return
    got = {t.items[0].v: t.items[1] for t in vals.items}
    full = f.get("fullClosure") == Const("yes")
    want = {"text": f.get("text", NONE), "format": f.get("format", Const("turtle")), "sources": Tup(tuple(f[k] for k in ("source_1", "source_2", "uri", "source") if k in f)),
            "iformat": f["iformat"] if f.get("iformat") in (Const("xml"), Const("turtle")) else Const("auto")}
    for k in ("owlClosure", "rdfsClosure", "owlExtras", "axioms", "daxioms"):
        want[k] = Const("yes" if k in ("owlClosure", "rdfsClosure") else "no") if full else f.get(k, Const("no"))
    for k, w in want.items():
        g = got.get(k, NONE)
        if g == w:
            rep.ok()
        elif isinstance(g, Ref) or isinstance(g, Tup) and isinstance(w, Tup) and sorted(map(repr, g.items)) == sorted(map(repr, w.items)):
            rep.check(None if isinstance(g, Ref) else True, "option %s/%s" % (k, name), "")
        elif isinstance(g, (Const, Tup)) or isinstance(g, Sym):
            rep.violation("option:%s/%s" % (k, name), "a request (%s): the option %s of the conversion is %r instead of %r" % (name, k, g, w), LOC)
        else:
            rep.undecide("%s: option %s is %r" % (name, k, g))


def contains(x, t):
    return x == t or isinstance(x, App) and any(contains(a, t) for a in x.args) or isinstance(x, Tup) and any(contains(a, t) for a in x.items)


def key(x):
    s = sorted({y.hint for y in subs(x) if isinstance(y, Sym)} | {"exception" for y in subs(x) if isinstance(y, App) and y.fn == "verif.exc"})
    return ",".join(s) or "constant"


def subs(x):
    yield x
    for a in getattr(x, "args", ()) if isinstance(x, App) else getattr(x, "items", ()) if isinstance(x, Tup) else ():
        yield from subs(a)
