"""C22, C23: restricted datatypes: the facets, and their extraction from the graph."""
from __future__ import annotations
import itertools
from sa.rules import *
from sa.engine import *
from sa.values import *
from sa.values import _counter
from sa.spec import iri
from .state import call
from .facade import construct, function, flat, israise, exc_name, instance, lst

MOD = "owlrl.RestrictedDatatype"
LOC = ("owlrl/RestrictedDatatype.py", 0, "")
MINMAX, LENGTH, LENPAT, LENPATLANG = "min/max", "length", "length and pattern", "length, pattern and language"
XSD = "decimal integer nonNegativeInteger nonPositiveInteger positiveInteger negativeInteger long int short byte unsignedLong unsignedInt unsignedShort unsignedByte double float dateTime dateTimeStamp time date"
BASES = {**{"xsd:" + n: MINMAX for n in XSD.split()}, "xsd:hexBinary": LENGTH, "xsd:base64Binary": LENGTH,
         **{"xsd:" + n: LENPAT for n in "anyURI string token NMTOKEN Name NCName language normalizedString".split()}, "rdf:PlainLiteral": LENPATLANG}
MM = ("xsd:minInclusive", "xsd:minExclusive", "xsd:maxInclusive", "xsd:maxExclusive")
LN = ("xsd:length", "xsd:minLength", "xsd:maxLength")
FACETS = {MINMAX: MM, LENGTH: LN, LENPAT: LN + ("xsd:pattern",), LENPATLANG: LN + ("xsd:pattern", "rdf:langRange")}
W = App("val", (Const("w"),))


def V(i):
    return App("val", (Const("v%d" % i),))


def holds(facet, i, m):
    """Does the value satisfy the i-th facet (by the specification), in the model m?"""
    v = m.get(("num", V(i)))
    w, n = m.get("w"), m.get("len")
    return {"xsd:minInclusive": lambda: v <= w, "xsd:minExclusive": lambda: v < w, "xsd:maxInclusive": lambda: w <= v, "xsd:maxExclusive": lambda: w < v,
            "xsd:length": lambda: n == v, "xsd:minLength": lambda: v <= n, "xsd:maxLength": lambda: n <= v,
            "xsd:pattern": lambda: m[("re", i)] == 3, "rdf:langRange": lambda: m["literal"] and m["lang"] and m[("range", i)]}[facet]()


class Unknown(Exception):
    pass


def number(t, m):
    if isinstance(t, Const) and isinstance(t.v, (int, float)) and not isinstance(t.v, bool):
        return t.v
    if ("num", t) in m:
        return m[("num", t)]
    if t == W and "w" in m:
        return m["w"]
    if isinstance(t, App) and t.fn in ("len", "call:len", "call:builtins.len") and text(t.args[0]):
        return m["len"]
    if isinstance(t, App) and t.fn in ("max", "min", "call:max", "call:min", "call:builtins.max", "call:builtins.min"):
        xs = t.args[0].items if len(t.args) == 1 and isinstance(t.args[0], Tup) else t.args
        return (max if "max" in t.fn else min)(number(x, m) for x in xs)
    if isinstance(t, App) and t.fn in ("+", "-") and len(t.args) == 2:
        a, b = (number(x, m) for x in t.args)
        return a + b if t.fn == "+" else a - b
    raise Unknown(t)


def text(t):
    return t == W or isinstance(t, App) and t.fn == "str" and t.args == (W,)


def matched(m, v, subj, how):
    how = how.v if isinstance(how, Const) else how
    if how not in ("fullmatch", "match", "search"):
        raise Unknown(how)
    for i in range(1, 4):
        if v == V(i) or isinstance(v, App) and v.fn in ("re.compile", "call:re.compile") and v.args and v.args[0] == V(i):
            if text(subj):
                return m[("re", i)] >= {"fullmatch": 3, "match": 2, "search": 1}[how]
    raise Unknown(("match", v, subj, how))


def truth(l, m):
    """The truth value of a literal in the model."""
    k = l[0]
    if k == "opq":
        l = l[1]
        k = l[0]
    if k == "lt":
        return number(l[1], m) < number(l[2], m)
    if k in ("eq", "identical"):
        a, b = l[1], l[2]
        for x, y in ((a, b), (b, a)):
            if y == NONE:
                if isinstance(x, App) and x.fn == "re":
                    return not matched(m, x.args[0], x.args[1], m.get(("how", x.args[0]), "fullmatch"))
                if isinstance(x, App) and x.fn == "attr:language" and x.args == (W,):
                    return not m["lang"]
                if isinstance(x, (App, Const)):
                    return x == NONE
        return number(a, m) == number(b, m)
    if k == "isa" and l[1] == W:
        names = list(l[2].v) if isinstance(l[2], Const) and isinstance(l[2].v, tuple) else [l[2].v] if isinstance(l[2], Const) else [x.v if isinstance(x, Const) else x for x in (l[2].items if isinstance(l[2], Tup) else l[2])] if isinstance(l[2], (tuple, frozenset, Tup)) else []
        names = [str(n).split(".")[-1] for n in names]
        if not names or not all(n in ("Literal", "URIRef", "BNode") for n in names):
            raise Unknown(l)
        return m["literal"] and "Literal" in names
    if k == "matched":
        return matched(m, l[1], l[2], l[3])
    if k == "langmatch":
        for i in range(1, 4):
            if l[1] == V(i) and isinstance(l[2], App) and l[2].fn == "attr:language" and l[2].args == (W,):
                return m[("range", i)]
        raise Unknown(l)
    if k == "truthy":
        x = l[1]
        if isinstance(x, App) and x.fn == "re":
            return matched(m, x.args[0], x.args[1], m.get(("how", x.args[0]), "fullmatch"))
        if isinstance(x, App) and x.fn == "attr:language":
            return m["lang"]
        if x in (W,) or ("num", x) in m:
            return number(x, m) != 0
    raise Unknown(l)


def models(facets, literal):
    """The order types of the facets' values and of the value or its length, what matches what."""
    nums = [i for i, f in enumerate(facets, 1) if f in MM + LN]
    mm = any(f in MM for f in facets)
    axes = [[((("num", V(i))), x) for x in range(-1 if mm else 0, 3)] for i in nums]
    axes += [[(("re", i), x) for x in range(4)] for i, f in enumerate(facets, 1) if f == "xsd:pattern"]
    axes += [[(("range", i), x) for x in (True, False)] for i, f in enumerate(facets, 1) if f == "rdf:langRange"]
    axes.append([("w" if mm else "len", x) for x in range(-1 if mm else 0, 3)])
    for c in itertools.product(*axes):
        for lang in ((True, False) if literal else (False,)):
            m = dict(c)
            m["literal"], m["lang"] = literal, lang
            yield m


def path_how(guards):
    return {l[1][1]: l[1][3] for p, l in guards if l[0] == "opq" and l[1][0] == "matched"}


def picks(paths, m):
    """The paths that the model takes."""
    out = []
    for y, v in paths:
        mm = dict(m)
        for a, h in path_how(y.guards).items():
            mm[("how", a)] = h
        if all(truth(l, mm) == p for p, l in y.guards):
            out.append((y, v, mm))
    return out


def short(f):
    return f.split(":")[1]


def facets(rep, root, tier):
    rep.rule("abstract interpretation of RestrictedDatatype with symbolic facet values and a symbolic value: on every order type of these (predicate abstraction) the verdict of checkValue "
             "equals the conjunction of the facets of the specification; toPython raises ValueError exactly when the value fails")
    eng = Engine(root)
    eng.load()
    C = function(eng, "RestrictedDatatype", MOD)
    if not isinstance(C, Cls):
        rep.violation("class", "RestrictedDatatype is missing", LOC)
        return

    def lang(en, f, args, kw, st, node):
        return [(st, lit("opq", ("langmatch", args[0], args[1])))]
    eng.overrides["fn:_lang_range_check"] = lang
    combos = []
    for base, cat in BASES.items():
        combos += [(base, (f,)) for f in FACETS[cat]] + [(base, ())]
    for base in ("xsd:integer", "xsd:hexBinary", "xsd:string", "rdf:PlainLiteral"):
        fs = FACETS[BASES[base]]
        combos += [(base, c) for c in itertools.product(fs, repeat=2)]
        if tier == "thorough":
            combos += [(base, c) for c in itertools.product(fs, repeat=3)]
    for base, fs in combos:
        rep.count("combinations of base type and facets")
        key = "%s with %s" % (base, ", ".join(map(short, fs)) or "no facet")
        one_combo(rep, eng, C, base, fs, key)
    conversion(rep, eng, C)


def one_combo(rep, eng, C, base, fs, key):
    st, r = lst(eng.init_state, [Tup((iri(f), V(i))) for i, f in enumerate(fs, 1)])
    built = construct(eng, C, [IRI("http://example.org/restricted"), iri(base), r], {}, st)
    paths = []
    for y, ref in built:
        if israise(ref):
            paths.append((y, ref))
            continue
        if not isinstance(ref, Ref):
            rep.undecide(key)
            return
        m = eng.class_attr(C, "checkValue", y)
        if not isinstance(m, Fn):
            rep.undecide(key)
            return
        paths += call(eng, Bound(m, ref), [W], y)
    literal = base == "rdf:PlainLiteral"
    n = 0
    try:
        for m in models(fs, literal):
            want = all(holds(f, i, m) for i, f in enumerate(fs, 1))
            got = picks(paths, m)
            if not got:
                rep.undecide(key + ": no path for a case")
                return
            for y, v, mm in got:
                n += 1
                if israise(v):
                    rep.violation("facets/" + key, "the datatype %s cannot be built or checked: %s" % (key, exc_name(v)), LOC)
                    return
                v = verdict(v, mm)
                if v != want:
                    rep.violation("facets/" + ("/".join(sorted(set(map(short, fs)))) + "/" + ("repeated" if len(set(fs)) < len(fs) else "%d" % len(fs)) + "/" + base),
                                  "%s: a value is %s although the facets %s it, when %s" % (key, "accepted" if v else "rejected", "allow" if want else "exclude", show_model(m, fs)), LOC)
                    return
    except Unknown as e:
        rep.undecide("%s: %s" % (key, str(e)[:120]))
        return
    rep.ok({"case": key, "models": n} if len(fs) == 2 else None)


def verdict(v, m):
    if isinstance(v, Const):
        return bool(v.v)
    if isinstance(v, BF):
        if v.op == "lit":
            return truth(v.args[0], m)
        r = [verdict(a, m) for a in v.args]
        return not r[0] if v.op == "not" else all(r) if v.op == "and" else any(r)
    raise Unknown(v)


def show_model(m, fs):
    out = []
    for i, f in enumerate(fs, 1):
        if ("num", V(i)) in m:
            out.append("%s=%d" % (short(f), m[("num", V(i))]))
        elif ("re", i) in m:
            out.append("pattern %d %s" % (i, ("does not occur", "occurs inside only", "matches a prefix only", "matches")[m[("re", i)]]))
        else:
            out.append("language range %d %s" % (i, "matches" if m[("range", i)] else "does not match"))
    if "w" in m:
        out.append("value=%d" % m["w"])
    if "len" in m:
        out.append("length of the value=%d" % m["len"])
    return ", ".join(out)


def conversion(rep, eng, C):
    """toPython: the conversion of the base type, and ValueError for every value that fails."""
    mode = {}

    def convert(en, f, args, kw, st, node):
        if mode["convert"] is None:
            return [(st, App("converted", tuple(args)))]
        return [(st, en.Exit(mode["convert"]))]

    def check(en, f, args, kw, st, node):
        if mode["check"] in (True, False):
            mode["asked"].append(args[-1])
            return [(st, Const(mode["check"]))]
        return [(st, en.Exit(mode["check"]))]
    eng.overrides["ext:verif.converter"] = convert
    eng.overrides["fn:checkValue"] = check
    for base in BASES:
        st, r = lst(eng.init_state, [])
        for y, ref in construct(eng, C, [IRI("http://example.org/restricted"), iri(base), r], {}, st):
            if not isinstance(ref, Ref) or not isinstance(y.heap.get(ref.id), HInst):
                rep.undecide("conversion/" + base)
                continue
            o = y.heap[ref.id]
            y = y.put(ref.id, HInst(o.cls, {**o.attrs, "converter": Ext("verif.converter")}))
            f = y.heap[ref.id].attrs.get("toPython") or eng.class_attr(o.cls, "toPython", y)
            if isinstance(f, Fn) and "toPython" not in y.heap[ref.id].attrs:
                f = Bound(f, ref)
            if not isinstance(f, (Fn, Bound)):
                rep.undecide("conversion/%s: toPython" % base)
                continue
            for conv, chk, want in ((None, True, "value"), (None, False, "ValueError"), (None, "TypeError", "ValueError"), (None, "InvalidOperation", "ValueError"),
                                    ("ValueError", True, "ValueError")):
                mode.update(convert=conv, check=chk, asked=[])
                res = call(eng, f, [App("lexical", ())], y)
                key = "conversion/%s/%s,%s" % (base, conv or "converted", chk)
                if not res:
                    rep.undecide(key)
                for z, v in res:
                    if any(isinstance(x, App) and x.fn == "call" for x in (v,)):
                        rep.undecide(key)
                    elif want == "value":
                        rep.check(v == App("converted", (App("lexical", ()),)) and all(a == v for a in mode["asked"]), key, "toPython of a restriction of %s does not check and return the converted value: %r" % (base, v), LOC)
                    elif israise(v) and exc_name(v) is None:
                        rep.undecide(key)
                    else:
                        rep.check(israise(v) and exc_name(v) == want, key, "toPython of a restriction of %s gives %r instead of ValueError when %s" % (
                            base, v, "the lexical form is wrong" if conv else "the facets exclude the value" if chk is False else "value and facets cannot be compared"), LOC)


# -------------------------------------------------------------------------------------------------- C23

def E(n):
    return IRI("http://example.org/" + n)


TYPE, DT, ON, WITH = iri("rdf:type"), iri("rdfs:Datatype"), iri("owl:onDatatype"), iri("owl:withRestrictions")


class Shape:
    """One datatype definition of the graph, and what must become of it."""
    def __init__(self, name, triples, lists, want, errors, lits=()):
        self.name, self.triples, self.lists, self.want, self.errors, self.lits = name, triples, lists, want, errors, lits


def shapes(d, tag):
    """Definitions of the datatype d."""
    h, h2 = E("list-" + tag), E("list2-" + tag)
    b = [E("facet%d-%s" % (i, tag)) for i in range(3)]
    n = [0]

    def L(kind):
        n[0] += 1
        return Sym(900000 + hash_(tag) * 100 + n[0], "lit-" + kind)
    base = [(d, TYPE, DT)]
    out = []

    def add(name, triples, lists, want, errors=0):
        out.append(Shape(name, base + triples, lists, want, errors))
    on = [(d, ON, iri("xsd:integer"))]
    i1, i2, i3 = L("integer"), L("integer"), L("integer")
    conv = lambda l: App("conv", (iri("xsd:integer"), App("str", (l,))))
    add("one facet", on + [(d, WITH, h), (b[0], iri("xsd:minInclusive"), i1)], {h: (b[0],)}, (iri("xsd:integer"), [(iri("xsd:minInclusive"), conv(i1))]))
    add("two facets", on + [(d, WITH, h), (b[0], iri("xsd:minInclusive"), i1), (b[1], iri("xsd:maxExclusive"), i2)], {h: (b[0], b[1])},
        (iri("xsd:integer"), [(iri("xsd:minInclusive"), conv(i1)), (iri("xsd:maxExclusive"), conv(i2))]))
    add("two facets in one node", on + [(d, WITH, h), (b[0], iri("xsd:minInclusive"), i1), (b[0], iri("xsd:maxExclusive"), i2)], {h: (b[0],)},
        (iri("xsd:integer"), [(iri("xsd:minInclusive"), conv(i1)), (iri("xsd:maxExclusive"), conv(i2))]))
    add("three facets", on + [(d, WITH, h)] + [(b[k], iri("xsd:maxInclusive"), x) for k, x in enumerate((i1, i2, i3))], {h: tuple(b)},
        (iri("xsd:integer"), [(iri("xsd:maxInclusive"), conv(x)) for x in (i1, i2, i3)]))
    s = L("string")
    add("a pattern given as xsd:string", [(d, ON, iri("xsd:string")), (d, WITH, h), (b[0], iri("xsd:pattern"), s)], {h: (b[0],)},
        (iri("xsd:string"), [(iri("xsd:pattern"), App("str", (s,)))]))
    s = L("plain")
    add("a pattern given as plain literal", [(d, ON, iri("xsd:string")), (d, WITH, h), (b[0], iri("xsd:pattern"), s)], {h: (b[0],)},
        (iri("xsd:string"), [(iri("xsd:pattern"), App("str", (s,)))]))
    bad, unk = L("bad"), L("unknown")
    add("an ill-typed facet value", on + [(d, WITH, h), (b[0], iri("xsd:minInclusive"), bad), (b[1], iri("xsd:maxExclusive"), i2)], {h: (b[0], b[1])},
        (iri("xsd:integer"), [(iri("xsd:maxExclusive"), conv(i2))]), 1)
    add("an ill-typed facet value in the node of another", on + [(d, WITH, h), (b[0], iri("xsd:minInclusive"), bad), (b[0], iri("xsd:maxExclusive"), i2)], {h: (b[0],)},
        (iri("xsd:integer"), [(iri("xsd:maxExclusive"), conv(i2))]), 1)
    add("a facet value of an unknown datatype", on + [(d, WITH, h), (b[0], iri("xsd:minInclusive"), i1), (b[1], iri("xsd:maxExclusive"), unk)], {h: (b[0], b[1])},
        (iri("xsd:integer"), [(iri("xsd:minInclusive"), conv(i1))]), 1)
    add("no base type", [(d, WITH, h), (b[0], iri("xsd:minInclusive"), i1)], {h: (b[0],)}, None)
    add("two base types", on + [(d, ON, iri("xsd:string")), (d, WITH, h), (b[0], iri("xsd:minInclusive"), i1)], {h: (b[0],)}, None, 1)
    add("two lists", on + [(d, WITH, h), (d, WITH, h2), (b[0], iri("xsd:minInclusive"), i1), (b[1], iri("xsd:minInclusive"), i2)], {h: (b[0],), h2: (b[1],)}, None, 1)
    add("a base type without facets", [(d, ON, iri("xsd:gYear")), (d, WITH, h), (b[0], iri("xsd:minInclusive"), i1)], {h: (b[0],)}, None)
    add("an unknown base type", [(d, ON, E("unknown")), (d, WITH, h), (b[0], iri("xsd:minInclusive"), i1)], {h: (b[0],)}, None)
    add("a failing constructor", [(d, ON, iri("xsd:byte")), (d, WITH, h), (b[0], iri("xsd:minInclusive"), i1)], {h: (b[0],)}, None, 1)
    if tag == "c":
        out = []
        for bt in BASES:
            if bt != "xsd:byte":
                add("one facet of " + bt, [(d, ON, iri(bt)), (d, WITH, h), (b[0], iri(FACETS[BASES[bt]][0]), i1)], {h: (b[0],)},
                    (iri(bt), [(iri(FACETS[BASES[bt]][0]), conv(i1))]))
    return out


def hash_(tag):
    return sum(map(ord, tag))


DATATYPE = {"lit-integer": iri("xsd:integer"), "lit-string": iri("xsd:string"), "lit-plain": NONE, "lit-bad": iri("xsd:integer"), "lit-unknown": E("no-such-datatype")}


def extraction(rep, root, tier):
    rep.rule("abstract interpretation of extract_faceted_datatypes on graphs of two datatype definitions, of every pair of shapes (values symbolic): every well-formed definition becomes one "
             "RestrictedDatatype with its base type and all its facets, each malformed one is reported, and neither affects the other")
    eng = Engine(root)
    eng.load()
    f = function(eng, "extract_faceted_datatypes", MOD)
    C = function(eng, "Core", "owlrl.Closure")
    m = eng.modules.get(MOD)
    t = eng.lookup("AltXSDToPYTHON", eng.init_state, m.env) if m else None
    if not isinstance(f, Fn) or not isinstance(t, Ref) or not isinstance(eng.init_state.heap.get(t.id), HColl):
        rep.undecide("extract_faceted_datatypes or the conversion table is not found")
        return
    eng.tracing = True
    o = eng.init_state.heap[t.id]
    rep.check({k for k, v in o.items} >= {iri(b) for b in BASES}, "converters", "there is no conversion for %s" % ", ".join(b for b in BASES if iri(b) not in {k for k, v in o.items}), LOC)
    eng.init_state = eng.init_state.put(t.id, HColl("dict", True, tuple((k, Partial(Ext("verif.converter"), (k,))) for k, v in o.items)))

    def conv(en, fn, args, kw, st, node):
        x = args[1] if len(args) > 1 else NONE
        if any(s.hint == "lit-bad" for s in syms_of(x)):
            return [(st, en.Exit("ValueError"))]
        return [(st, App("conv", tuple(args)))]

    def new(en, c, args, kw, st, node):
        if len(args) > 1 and args[1] == iri("xsd:byte"):
            return [(st, en.Exit("Exception"))]
        i = next(_counter)
        st = en.emit("new", tuple(en.reify(a, st) for a in args) + (Ref(i),), st, node)
        return [(st.put(i, HInst(c, {})), Ref(i))]

    def err(en, fn, args, kw, st, node):
        return [(en.emit("err", tuple(args[1:]), st, node), NONE)]
    eng.overrides.update({"ext:verif.converter": conv, "new:RestrictedDatatype": new, "fn:add_error": err})
    d1, d2 = E("d1"), E("d2")
    A, B = shapes(d1, "a"), shapes(d2, "b")
    for a, b in list(itertools.product(A, B)) + [(a, B[1]) for a in shapes(E("d1"), "c")]:
        rep.count("graphs")
        key = "%s, then %s" % (a.name, b.name)
        st, core = instance(eng.init_state, {})
        st = st.put(core.id, HInst(C, {}))
        eng.attr_hooks = {}
        for s in syms_of(Tup(tuple(x for t in a.triples + b.triples for x in t))):
            if s.hint.startswith("lit-"):
                st = eng.add(st, True, ("isa", s, frozenset({"Literal"})))
                eng.attr_hooks[(s, "datatype")] = DATATYPE[s.hint]
        eng.concrete["G"] = (tuple(a.triples + b.triples), {**a.lists, **b.lists})
        res = call(eng, f, [core, GraphV("G")], st)
        if not res:
            rep.undecide(key)
        for y, v in res:
            if any(e.kind in PROBLEM and e.kind not in ("attr",) for e in eng.sink):
                rep.undecide("%s: %s" % (key, [e.kind for e in eng.sink if e.kind in PROBLEM][:2]))
                continue
            if israise(v):
                rep.violation("raises/" + key, "extract_faceted_datatypes raises %s on a graph with %s" % (exc_name(v), key), LOC)
                continue
            got = y.heap.get(v.id) if isinstance(v, Ref) else None
            if not isinstance(got, HColl) or not got.exact:
                rep.undecide(key)
                continue
            made = {}
            for e in flat(y.trace):
                if e[0] == "new":
                    made[e[1][-1]] = e[1]
            insts = [made.get(x) for x in got.items]
            errs = sum(1 for e in flat(y.trace) if e[0] == "err")
            for d, sh in ((d1, a), (d2, b)):
                mine = [p for p in insts if p and p[0] == d]
                if sh.want is None:
                    rep.check(not mine, "extra/" + sh.name, "a datatype definition with %s becomes a restricted datatype" % sh.name, LOC)
                    continue
                other = b if sh is a else a
                if len(mine) != 1:
                    rep.violation("lost/%s/%s" % (sh.name, other.name), "a definition with %s becomes %d restricted datatypes (beside one with %s)" % (sh.name, len(mine), other.name), LOC)
                    continue
                fac = mine[0][2]
                items = [tuple(x.items) for x in fac.items] if isinstance(fac, Tup) and all(isinstance(x, Tup) for x in fac.items) else None
                if items is None:
                    rep.undecide(key)
                    continue
                rep.check(mine[0][1] == sh.want[0] and sorted(map(repr, items)) == sorted(map(repr, sh.want[1])), "facets/%s/%s" % (sh.name, other.name),
                          "a definition with %s (beside one with %s) gets base type %r and facets %r instead of %r" % (sh.name, other.name, mine[0][1], items, sh.want[1]), LOC)
            rep.check(None not in insts or None, "instances/" + key, "")
            rep.check(errs >= a.errors + b.errors, "errors/" + key, "a graph with %s: %d errors are reported instead of %d" % (key, errs, a.errors + b.errors), LOC)
            rep.check(errs <= a.errors + b.errors, "errors/" + key, "a graph with %s: %d errors are reported instead of %d" % (key, errs, a.errors + b.errors), LOC)
