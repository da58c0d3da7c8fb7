"""C30: the command line."""
from __future__ import annotations
import itertools, os
from sa.rules import *
from sa.engine import *
from sa.values import *
from sa.values import _counter
from .state import call
from .facade import lst, instance, flat, israise, exc_name, function

LOC = ("scripts/owlrl", 0, "main")
YES, NO = "yes", "no"
BASE = {"format": "turtle", "owlClosure": NO, "rdfsClosure": NO, "owlExtras": NO, "axioms": NO, "daxioms": NO, "iformat": "auto", "trimming": NO, "text": None}
MAX = {"trimming": YES, "owlClosure": YES, "rdfsClosure": YES, "owlExtras": YES}


class Undecided(Exception):
    pass


def py(eng, st, v):
    """A value of the program, as a Python value."""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Tup):
        return tuple(py(eng, st, x) for x in v.items)
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, HColl) and o.exact:
            if o.kind == "dict":
                return {py(eng, st, k): py(eng, st, x) for k, x in o.items}
            return [py(eng, st, x) for x in o.items]
        if isinstance(o, HInst) and "verif_options" in o.attrs:
            return ("group", py(eng, st, o.attrs["verif_options"]))
    if isinstance(v, App) and v.fn in ("kwdict", "dict"):
        return {k.items[0].v: py(eng, st, k.items[1]) for k in v.args}
    if isinstance(v, (Ext, Fn, Cls)):
        return v
    raise Undecided("value %r" % (v,))


class Exits(Exception):
    """the parser ends the process"""


def optparse(opts, defaults, mode, argv):
    """The semantics of optparse, for the declared options. -> (values, positional arguments)"""
    decl = []
    for args, kw in opts:
        names = [a for a in args if isinstance(a, str)]
        if not names or any(not n.startswith("-") for n in names):
            raise Undecided("declaration %r" % (args,))
        unknown = set(kw) - {"action", "dest", "type", "choices", "const", "default", "help", "metavar"}
        if unknown:
            raise Undecided("keywords %r" % (unknown,))
        action = kw.get("action", "store")
        if action not in ("store", "store_const", "store_true", "store_false", "append"):
            raise Undecided("action %r" % (action,))
        longs = [n for n in names if n.startswith("--")]
        dest = kw.get("dest") or (longs or names)[0].lstrip("-").replace("-", "_")
        decl.append((names, action, dest, kw))
    values = {}
    for names, action, dest, kw in decl:
        values.setdefault(dest, None)
        if "default" in kw:
            values[dest] = kw["default"]
    for k, v in defaults.items():
        values[k] = v
    # (defaults given with an option and by set_defaults: the later call wins; both are the same store)
    rest = list(argv)
    out = []
    longnames = [n for d in decl for n in d[0] if n.startswith("--")] + ["--help"]

    def use(d, name, val, rest):
        names, action, dest, kw = d
        if action == "store_const":
            values[dest] = kw.get("const")
        elif action in ("store_true", "store_false"):
            values[dest] = action == "store_true"
        else:
            if val is None:
                if not rest:
                    raise Exits()
                val = rest.pop(0)
            ch = kw.get("choices")
            if ch is not None and val not in list(ch):
                raise Exits()
            if kw.get("type") not in (None, "string", "str", "choice") and kw.get("type") is not str:
                if not (isinstance(kw.get("type"), Ext) and kw["type"].path.endswith("str")):
                    raise Undecided("type %r" % (kw.get("type"),))
            values[dest] = (values.get(dest) or []) + [val] if action == "append" else val
    while rest:
        a = rest.pop(0)
        if a == "--":
            out += rest
            break
        if a.startswith("--"):
            n, eq, v = a.partition("=")
            if n not in longnames:
                c = [x for x in longnames if x.startswith(n)]
                if len(c) != 1:
                    raise Exits()
                n = c[0]
            d = next((d for d in decl if n in d[0]), None)
            if d is None or (eq and d[1] not in ("store", "append")):
                raise Exits()
            use(d, n, v if eq else None, rest)
        elif a.startswith("-") and len(a) > 1:
            k = 1
            while k < len(a):
                d = next((d for d in decl if "-" + a[k] in d[0]), None)
                k += 1
                if d is None:
                    raise Exits()
                if d[1] in ("store", "append"):
                    use(d, a, a[k:] or None, rest)
                    break
                use(d, a, None, rest)
        else:
            out.append(a)
            if mode and not mode[-1]:
                out += rest
                break
    return values, out


OPTIONS = []  # (arguments, effect)
for long, short, dest in (("--owlrl", "-w", "owlClosure"), ("--rdfs", "-r", "rdfsClosure"), ("--extras", "-e", "owlExtras"), ("--axioms", "-a", "axioms"), ("--daxioms", "-d", "daxioms"),
                          ("--trimming", "-t", "trimming")):
    OPTIONS += [([long + "=yes"], {dest: YES}), ([long, "no"], {dest: NO}), ([short], {dest: YES})]
for n in ("-o", "-s", "--serialization", "--syntax"):
    OPTIONS += [([n, v], {"format": v}) for v in ("turtle", "json", "xml")]
for n in ("-i", "--input_syntax"):
    OPTIONS += [([n, v], {"iformat": v}) for v in ("auto", "turtle", "json", "xml", "rdfa")]
OPTIONS += [([n], MAX) for n in ("-m", "--maximal")]
OPTIONS += [([n, v], {"sources": [v]}) for n in ("-f", "--file") for v in ("a.ttl", "-")]
BAD = [["--owlrl", "maybe"], ["--rdfs=true"], ["--extras", "1"], ["--axioms", "on"], ["--daxioms", "y"], ["--trimming", "YES"], ["-o", "rdfa"], ["-s", "auto"], ["-i", "n3"], ["--no-such-option"],
       ["-f"], ["-x"], ["-o"]]


def expected(opts, files):
    want = dict(BASE)
    late = {}
    src = []
    for argv, eff in opts:
        for k, v in eff.items():
            if eff is MAX:
                late[k] = v
            elif k == "sources":
                src = list(v)
            else:
                want[k] = v
    want.update(late)
    want["sources"] = src + list(files) or ["-"]
    return want


def commandline(rep, root, tier):
    rep.rule("abstract interpretation of main() of scripts/owlrl: the options that it declares are read off, evaluated on every documented option and every pair of them by the semantics of "
             "optparse, and the attributes that convert_graph receives, and what is printed, are compared with the documentation")
    p = os.path.join(root, "scripts", "owlrl")
    if not os.path.exists(p):
        rep.undecide("scripts/owlrl is not there")
        return
    stub = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stub_optparse.py")
    eng = Engine(root, extra_files=(("verif_optparse", stub), ("scripts_owlrl", p)))
    eng.load()
    main = function(eng, "main", "scripts_owlrl")
    if main is None:
        rep.undecide("no function main in scripts/owlrl")
        return
    eng.tracing = True

    def make(name):
        c = eng.lookup(name, eng.init_state, eng.modules["verif_optparse"].env)
        return lambda en, fn, args, kw, st, node: en.call(c, args, kw, st, node)
    for n in ("OptionParser", "OptionGroup"):
        eng.overrides["ext:optparse." + n] = make(n)
    cur = {}

    def parse(en, fn, args, kw, st, node):
        opts = py(en, st, args[0])
        groups = py(en, st, args[2])
        for g in groups:
            opts = opts + g[1]
        try:
            vals, pos = optparse(opts, py(en, st, args[1]), py(en, st, args[3]), cur["argv"])
        except Exits:
            return [(st, en.Exit("SystemExit"))]
        attrs = {}
        for k, v in vals.items():
            if isinstance(v, list):
                st, attrs[k] = lst(st, [Const(x) for x in v])
            else:
                attrs[k] = v if isinstance(v, Val) else Const(v)
        st, o = instance(st, attrs)
        st, l = lst(st, [Const(x) for x in pos])
        return [(st, Tup((o, l)))]
    eng.overrides["fn:verif_parse"] = parse
    eng.overrides["ext:verif_parse"] = parse
    m = eng.modules["verif_optparse"]
    eng.init_state = eng.setvar(eng.init_state, m.env, "verif_parse", Ext("verif_parse"))

    def conv(en, fn, args, kw, st, node):
        i = next(_counter)
        o = st.heap.get(args[0].id) if args and isinstance(args[0], Ref) else None
        vals = None
        if isinstance(o, HInst):
            vals = Tup(tuple(Tup((Const(k), en.reify(v, st))) for k, v in sorted(o.attrs.items())))
        r = App("converted", (Const(i),))
        return [(en.emit("convert", (vals or NONE, r), st, node), r)]
    eng.overrides["fn:convert_graph"] = conv
    runs = [((), f) for f in ((), ("x.ttl",), ("x.ttl", "y.rdf"), ("-",))]
    runs += [((o,), f) for o in OPTIONS for f in ((), ("x.ttl",), ("x.ttl", "-w"))]
    pairs = list(itertools.product(OPTIONS, OPTIONS))
    if tier != "thorough":
        # one spelling of each effect is enough for the pairs
        few, seen = [], set()
        for o in OPTIONS:
            k = repr(sorted(o[1].items()))
            if k not in seen:
                seen.add(k)
                few.append(o)
        pairs = list(itertools.product(few, few))
    runs += [(pr, ("x.ttl",)) for pr in pairs]
    try:
        for opts, files in runs:
            argv = [a for o in opts for a in o[0]] + list(files)
            cur["argv"] = argv
            rep.count("command lines")
            one(rep, eng, main, argv, expected(opts, files), "+".join(o[0][0].split("=")[0] for o in opts) or "none")
        for b in BAD:
            cur["argv"] = b + ["x.ttl"] if len(b) > 1 or b[0] not in ("-f", "-o") else b
            rep.count("command lines")
            one(rep, eng, main, cur["argv"], None, "bad " + b[0])
    except Undecided as u:
        rep.undecide("the declaration of the options cannot be followed: %s" % u)


def one(rep, eng, main, argv, want, key):
    res = call(eng, main, [], eng.init_state)
    line = " ".join(argv)
    bad = [e for e in eng.sink if e.kind in PROBLEM and e.kind != "attr"]
    if bad or not res:
        rep.undecide("owlrl %s: %s" % (line, [(e.kind, e.payload) for e in bad][:2]))
        return
    for y, v in res:
        evs = [e for e in flat(y.trace) if e[0] in ("convert", "print")]
        if want is None:
            rep.check(israise(v) and not evs, "accepted:" + key, "owlrl %s is accepted" % line, LOC)
            continue
        if israise(v):
            rep.violation("refused:" + key, "owlrl %s ends with %s" % (line, exc_name(v)), LOC)
            continue
        cs = [e for e in evs if e[0] == "convert"]
        if len(cs) != 1 or cs[0][1][0] == NONE:
            rep.check(None if cs and cs[0][1][0] == NONE else False, "conversions:" + key, "owlrl %s: %d conversions" % (line, len(cs)), LOC)
            continue
        got = {}
        for t in cs[0][1][0].items:
            x = t.items[1]
            got[t.items[0].v] = [z.v if isinstance(z, Const) else z for z in x.items] if isinstance(x, Tup) else x.v if isinstance(x, Const) else x
        for k, w in want.items():
            if k not in got:
                rep.check(k in ("text",) and False, "%s:%s" % (k, key), "owlrl %s: convert_graph gets no option %s" % (line, k), LOC)
                continue
            g = got[k]
            if isinstance(g, Val):
                rep.undecide("owlrl %s: option %s is %r" % (line, k, g))
                continue
            if k in BASE and w in (YES, NO):
                # convert_graph takes booleans as well
                ok = g == w or g is (w == YES)
            else:
                ok = g == w
            rep.check(ok, "%s:%s" % (k, key), "owlrl %s: the option %s of the conversion is %r instead of %r" % (line, k, g, w), LOC)
        pr = [e for e in evs if e[0] == "print"]
        ok = len(pr) == 1 and cs[0][1][1] in pr[0][1] or None
        if not pr:
            ok = None if any(e.kind in ("methodcall", "extcall", "callunknown") for e in eng.sink) else False
        rep.check(ok, "printed:" + key, "owlrl %s: the result of the conversion is not printed" % line, LOC)
