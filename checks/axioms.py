"""C18: the axiomatic triples. C17: those of the container membership properties that the graph uses."""
from __future__ import annotations
import itertools, re
from sa.rules import *
from sa.logic import Clause
from sa import spec_axioms as ax, regexlang
from sa.spec import NS, iri
from sa.spec_data import DISJOINT
from .rulecheck import extraction, clause_key
from .onetime import crule, literal, datatype, A

OWL_D = ax.OWL_D | ax.RDFS_D
# (class, rdfs flag, axioms, datatype axioms, are literals typed)
CONFIGS = [
    ("RDFS_Semantics", None, ax.RDFS, ax.RDFS_D, True),
    ("OWLRL_Semantics", None, ax.OWL, OWL_D, False),
    ("RDFS_OWLRL_Semantics", True, ax.OWL | ax.RDFS, OWL_D, True),
    ("OWLRL_Extension", False, ax.OWL | ax.EXT, OWL_D, False),
    ("OWLRL_Extension", True, ax.OWL | ax.RDFS | ax.EXT, OWL_D, True),
]


def label(cls, rdfs):
    return cls if rdfs is None else "%s(rdfs=%s)" % (cls, rdfs)


def axioms(rep, root, tier):
    rep.rule("completeness: each axiomatic triple of the reference tables is added by add_axioms/add_d_axioms (abstract interpretation), into the destination "
             "or the store buffer, under no condition but that it is not there yet")
    rep.rule("soundness: each triple added by these methods is in the reference tables (or types a literal with its datatype, or belongs to the container axioms)")
    for (cls, rdfs, axs, daxs, typed), (axioms, daxioms) in itertools.product(CONFIGS, ((True, False), (False, True), (True, True))):
        X = extraction(root, cls, rdfs, axioms, daxioms)
        for m, tab in (("add_axioms", axs), ("add_d_axioms", daxs)):
            if not (axioms if m == "add_axioms" else daxioms):
                continue
            name = "%s.%s" % (label(cls, rdfs), m)
            X.method(m)
            P = Program(X.progs[m])
            probs = [p for w, p in X.problems if w == m]
            rep.counts["clauses of " + name] = len(P.clauses)
            req = [crule(" ".join(map(repr, t)), t, ()) for t in sorted(tab, key=repr)]
            ref = list(req)
            if m == "add_d_axioms":
                for a, b in DISJOINT:
                    t = (a, iri("owl:disjointWith"), b)
                    u = (b, iri("owl:disjointWith"), a)
                    rs = crule("disjoint", t, ()), crule("disjoint", u, ())
                    ref += rs
                    if cls != "RDFS_Semantics":
                        vs = [complete(r, P, budget=60)[0] for r in rs]
                        decide(rep, "complete/%s/%s" % (name, " ".join(map(repr, t))), True if True in vs else None if None in vs else False,
                               "%r and %r are not stated to be disjoint by %s" % (a, b, name), probs, P, m)
                if typed:
                    v = fresh("lt")
                    r = crule("typed literals", (v, A, datatype(v)), literal(v), [("eq", datatype(v), NONE)])
                    ref.append(r)
                    decide(rep, "complete/%s/typed literals" % name, complete(r, P, budget=100)[0], "%s does not type every literal with its datatype" % name, probs, P, m)
            for r in req:
                decide(rep, "complete/%s/%s" % (name, r.label), complete(r, P, budget=60)[0], "the axiom %s is not added by %s" % (r.label, name), probs, P, m)
            R = Program([r.clause for r in ref])
            for c in P.clauses:
                if container(c):
                    continue
                key = "sound/%s/%s" % (name, clause_key(c))
                bad = sound(c, R)
                if not bad:
                    rep.ok()
                elif any(v is None for v, k in bad):
                    rep.undecide(key)
                else:
                    rep.violation(key, "not an axiom of the reference tables: %r" % (bad[0][1],), c.loc)


def decide(rep, key, v, text, probs, P, m):
    if v:
        rep.ok({"axiom": key.split("/", 1)[1]})
    elif v is None or probs:
        rep.undecide(key + "; ".join(probs[:2]))
    else:
        rep.violation(key, text, next((c.loc for c in P.clauses), ("owlrl", 0, m)))


def container(c):
    return c.head != ERR and any(l[0] == "range" for l in c.pos) and not isinstance(c.head[0], (IRI, Sym))


# ------------------------------------------------------------------------------------------------------------------ containers

def linear(v, base=None):
    """v as {term: coefficient} and a constant; None if it is not linear."""
    if isinstance(v, Const) and isinstance(v.v, int) and not isinstance(v.v, bool):
        return {}, v.v
    if isinstance(v, App) and v.fn in ("Add", "Sub") and len(v.args) == 2:
        a, b = linear(v.args[0]), linear(v.args[1])
        if a is None or b is None:
            return None
        s = 1 if v.fn == "Add" else -1
        d = dict(a[0])
        for k, n in b[0].items():
            d[k] = d.get(k, 0) + s * n
        return {k: n for k, n in d.items() if n}, a[1] + s * b[1]
    if isinstance(v, (Sym, App)):
        return {v: 1}, 0
    return None


def text_of(v):
    """A string expression as a list of constant strings and terms; None if it is not known."""
    if isinstance(v, Const) and isinstance(v.v, str):
        return [v.v]
    if isinstance(v, IRI):
        return [str(v.s if hasattr(v, "s") else v.v)]
    if isinstance(v, Ext) and v.path.startswith("ns:") and v.path[3:].lower() in NS:
        return [NS[v.path[3:].lower()]]
    if isinstance(v, (Sym,)):
        return [v]
    if isinstance(v, App):
        if v.fn in ("str", "URIRef", "iri") and len(v.args) == 1:
            return text_of(v.args[0])
        if v.fn in ("Add", "iri", "concat") and len(v.args) == 2:
            a, b = text_of(v.args[0]), text_of(v.args[1])
            if v.fn == "Add" and not (a and b and (isinstance(a[0], str) or isinstance(b[0], str))):
                return [v] if linear(v) else None
            return None if a is None or b is None else a + b
        if v.fn == "fmt" and isinstance(v.args[0], Const):
            parts = re.split(r"(%d|%s|%i|\{\}|\{\d\}|%%)", v.args[0].v)
            out, args, n = [], list(v.args[1:]), 0
            if len(args) == 1 and isinstance(args[0], Tup):
                args = list(args[0].items)
            for p in parts:
                if p == "%%":
                    out.append("%")
                elif re.fullmatch(r"%[dsi]|\{\d?\}", p):
                    k = int(p[1]) if re.fullmatch(r"\{\d\}", p) else n
                    n += 1
                    if k >= len(args):
                        return None
                    t = text_of(args[k])
                    if t is None:
                        return None
                    out += t
                elif "%" in p or "{" in p:
                    return [BAD] if padded(v.args[0].v) else None
                else:
                    out.append(p)
            return out
        return [v]
    return None


BAD = "\0"   # a text that cannot be right


def padded(tmpl):
    """Does the template write numbers differently from str()?"""
    try:
        return [tmpl % n if "%" in tmpl else tmpl.format(n) for n in (1, 7, 12, 345, 123456)] != [re.sub(r"%[^a-z]*[a-z]|\{[^}]*\}", str(n), tmpl) for n in (1, 7, 12, 345, 123456)]
    except Exception:
        return False


def merge(t):
    out = []
    for x in t or ():
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


MAX = App("maxidx")


class Wrong(Exception):
    pass


def indices(c):
    """The indices of a container clause: low, (high as a linear form over the largest index; excluded); None if unknown, Wrong if they are not 1..n."""
    t = merge(text_of(c.head[0]))
    if t and isinstance(t[0], str) and (BAD in t[0] or not (t[0] == NS["rdf"] + "_" or (NS["rdf"] + "_").startswith(t[0]) and len(t) > 1)):
        raise Wrong("the property is %r" % (c.head[0],))
    if len(t) != 2 or t[0] != NS["rdf"] + "_":
        return None
    f = linear(t[1])
    rs = [l for l in c.pos if l[0] == "range"]
    rest = [l for l in c.pos if l[0] != "range" and not (l[0] == "lt" and l[1:] == (Const(0), MAX))]
    if f is None or len(rs) != 1:
        return None
    if len(rs[0][1]) > 1 and isinstance(rs[0][1][1], Const) and isinstance(rs[0][1][1].v, int):
        raise Wrong("the indices end before %r" % (rs[0][1][1].v,))
    for p, l in [(True, l) for l in rest] + [(False, l) for l in c.neg]:
        if l[0] == "lt" and (l[1:] if p else l[:0:-1])[0] == MAX and isinstance((l[2] if p else l[1]), Const):
            raise Wrong("only for graphs without large indices")
    if rest or c.neg:
        return None
    (args, x) = rs[0][1], rs[0][2]
    args = tuple(args)
    if len(args) == 1:
        args = (Const(0), args[0])
    if len(args) == 3 and args[2] in (NONE, Const(1)):
        args = args[:2]
    if len(args) == 3 and isinstance(args[2], Const) and args[2].v not in (1, -1):
        raise Wrong("the indices go by steps of %r" % (args[2].v,))
    if len(args) != 2 or args[1] == NONE:
        return None
    co, k = f
    if co != {x: 1}:
        return None
    lo, hi = linear(args[0]), linear(args[1])
    if lo is None or hi is None:
        return None
    if lo[0]:
        raise Wrong("the indices start at %r" % (args[0],))
    if hi[0] not in ({}, {MAX: 1}):
        if any(a == MAX or isinstance(a, App) and a.fn in ("min", "max") and MAX in a.args for a in hi[0]):
            raise Wrong("the indices end before %r" % (args[1],))
        return None
    return lo[1] + k, (hi[0], hi[1] + k)


def unranged(c):
    return [(True, l) for l in c.pos if l[0] != "range"] + [(False, l) for l in c.neg]


def conditional(cs):
    """Do the clauses for one axiom cover, together, every index of their common range? (True, False, None: unknown)"""
    if len({repr([l[1] for l in c.pos if l[0] == "range"]) for c in cs}) != 1 or any(sum(l[0] == "range" for l in c.pos) != 1 for c in cs):
        return None
    def opaque(ls):
        return [("opq", l) if l[0] == "range" else l for l in ls]
    r = crule("container", cs[0].head, opaque(l for l in cs[0].pos if l[0] == "range"))
    v, pr = complete(r, Program([Clause(c.head, opaque(c.pos), c.neg, c.loc, c.name) for c in cs]))
    return v


def containers(rep, root, tier):
    rep.rule("the indices of the container axioms, as linear forms over the largest index of the graph, are 1..n exactly, and for each the four axioms are added")
    rep.rule("the largest index is the maximum over all predicates of the graph that match rdf:_n; the language of the regular expression is compared with "
             "that of the container membership properties (automata)")
    for cls, rdfs, *_ in CONFIGS:
        if cls == "OWLRL_Semantics" or rdfs is False:
            continue
        name = label(cls, rdfs)
        X = Extraction(root, cls, rdfs)
        c = X.ctx
        o = c.st.heap[c.ref.id]
        if "IMaxNum" not in o.attrs:
            rep.undecide("%s: no attribute IMaxNum" % name)
            continue
        h = dict(c.st.heap)
        h[c.ref.id] = HInst(o.cls, dict(o.attrs, IMaxNum=MAX), o.tag)
        c.st = State((), {}, h, ())
        cl = X.method("add_axioms")
        probs = [p for w, p in X.problems if w == "add_axioms"]
        wrong = set()
        cs = [x for x in cl if not all(isinstance(y, IRI) for y in x.head)]
        for p, q in ax.CONTAINER:
            mine = [x for x in cs if x.head[1:] == (iri(p), iri(q))]
            key = "container/%s/%s %s" % (name, p, q)
            ix = []
            for x in mine:
                try:
                    ix.append(indices(x))
                except Wrong as w:
                    wrong.add(str(w))
            loc = mine[0].loc if mine else (cl[0].loc if cl else ("owlrl", 0, "add_axioms"))
            if any(i == (1, ({MAX: 1}, 1)) for i in ix):
                rep.ok({"axiom": key})
            elif None in ix and not probs and conditional(mine) is False:
                rep.violation(key, "the triple rdf:_i %s %s is only added under a condition: %s" % (p, q, [sorted(map(repr, unranged(x))) for x in mine][:3]), loc)
            elif None in ix or probs:
                rep.undecide(key + "; ".join(probs[:2]))
            else:
                rep.violation(key, "the triple rdf:_i %s %s is not added for every i from 1 to the largest index in use (indices: %s)"
                              % (p, q, sorted(show(i) for i in ix) or sorted(wrong) or "none"), loc)
        for x in cs:
            key = "container-sound/%s/%s" % (name, clause_key(x))
            try:
                i = indices(x)
            except Wrong as w:
                if not any(v[0].startswith("container/") for v in rep.violations):
                    rep.undecide(key + ": %s" % w)
                continue
            if i is None:
                rep.undecide(key)
            elif i[0] >= 1 and i[1][0] in ({}, {MAX: 1}) and (i[1][0] and i[1][1] <= 1) and tuple(map(repr, x.head[1:])) in ax.CONTAINER:
                rep.ok()
            else:
                rep.violation(key, "a container axiom that the specification does not have (indices %s): %r" % (show(i), x.head), x.loc)
    for cls, rdfs, *_ in CONFIGS:
        if cls == "OWLRL_Semantics" or rdfs is False:
            continue
        c = extraction(root, cls, rdfs).ctx
        if cls == "RDFS_Semantics":
            largest(rep, c, cls)
            continue
        # the other closures call that constructor (perhaps twice): nothing else may set the index
        for x, v in c.paths:
            val = x.heap[v.id].attrs.get("IMaxNum")
            f = linear(val) if val is not None else None
            rep.check(None if val is None else not (f and f[1] and not f[0]), "largest/%s" % label(cls, rdfs), "the largest index is set to %r" % (val,))


def show(i):
    hi = i[1]
    s = "+".join("%s%r" % ("" if n == 1 else "%d*" % n, k) for k, n in hi[0].items())
    return "%d..%s%+d" % (i[0], s, hi[1] - 1)


REFERENCE = r"http://www\.w3\.org/1999/02/22\-rdf\-syntax\-ns\#_([1-9][0-9]*)"


def plain(v):
    while isinstance(v, App) and v.fn == "str" and len(v.args) == 1:
        v = v.args[0]
    return v


def index_of(v):
    """int(group(regex, p, k)) -> (regex, p)"""
    if isinstance(v, App) and v.fn == "int" and len(v.args) == 1:
        g = v.args[0]
        if isinstance(g, App) and g.fn == "str" and g.args:
            g = g.args[0]
        if isinstance(g, App) and g.fn == "group" and isinstance(g.args[0], Const):
            return g.args[0].v, plain(g.args[1]), g.args[2] if len(g.args) > 2 else Const(0)
    return None


def analyse(guards):
    """The facts of a path: matches {subject: (regex, mode)}, positions {symbol: set of positions}, comparisons, other negated conjunctions."""
    m, pos, lt, negs = {}, {}, [], []
    for p, l in guards:
        if p and l[0] == "eq" and l[2] == NONE and isinstance(l[1], App) and l[1].fn == "re":
            return None   # matched, and not: the path is impossible
        if l[0] == "in" and p:
            for i, x in enumerate(l[2]):
                pos.setdefault(x, set()).add((l[1], i))
        elif l[0] == "opq" and l[1][0] == "matched" and p:
            rx, how = l[1][1], l[1][3]
            m[plain(l[1][2])] = (rx.v if isinstance(rx, Const) else rx, how.v if isinstance(how, Const) else how)
        elif l[0] == "lt":
            lt.append((p, l[1], l[2]))
        elif l[0] == "neg":
            negs.append((p, l[1]))
    return m, pos, lt, negs


def largest(rep, c, name):
    eng = c.eng
    loc = (c.cls.module if hasattr(c.cls, "module") else "owlrl", 0, "__init__")
    cm = eng.class_attr(find_class(eng, "Core"), "__init__", c.st)
    node = getattr(cm, "node", None)
    loc = (getattr(cm, "module", loc[0]), getattr(node, "lineno", 0), "Core.__init__")
    for e in c.init_effects:
        if e.kind == "mayraise" and e.payload and e.payload[0] == Const("ValueError") and len(e.payload) > 1:
            x = e.payload[1]
            if any(p and l[0] == "opq" and l[1][0] == "mtrue" and x in l[1] for p, l in e.guards):
                rep.undecide("the conversion of %r" % (x,))
            elif isinstance(x, App) and x.fn in ("slice", "group", "replace", "getitem", "str"):
                rep.violation("largest/%s/conversion" % name, "the number is taken from %r, which need not be one: the closure of such a graph fails with a ValueError" % (x,), e.loc)
    seen = set()
    kinds = set()
    for x, v in c.paths:
        o = x.heap[v.id]
        val = o.attrs.get("IMaxNum")
        facts = analyse(x.guards)
        if facts is None:
            continue
        m, pos, lt, negs = facts
        key = "largest/%s/%s" % (name, "zero" if val == Const(0) else "index")
        for s, (rx, how) in m.items():
            if (rx, how) in seen:
                continue
            seen.add((rx, how))
            try:
                w = regexlang.difference(rx, REFERENCE, how, "fullmatch")
            except regexlang.Unsupported as e:
                rep.undecide("largest/%s/regex: %s" % (name, e))
                continue
            if w is None:
                rep.ok({"regex": rx, "mode": how})
            else:
                rep.violation("largest/%s/regex" % name, "the pattern %r (%s) does not recognise exactly the container membership properties: it differs on %r" % (rx, how, w), loc)
        if val == Const(0):
            if m:
                rep.violation(key, "the largest index can be 0 though a predicate of the graph is a container membership property", loc)
            elif not any(p and covers(conj) for p, conj in negs):
                if any(p and covers(conj) is None for p, conj in negs) or not negs:
                    rep.undecide(key)
                else:
                    rep.violation(key, "the largest index is 0 for some graphs that use container membership properties as predicates", loc)
            else:
                rep.ok()
            continue
        ix = index_of(val)
        f = linear(val)
        if f and f[1] and (not f[0] or len(f[0]) == 1 and index_of(next(iter(f[0])))):
            rep.violation(key, "the largest index is taken to be %r" % (val,), loc)
            continue
        if ix is None:
            rep.undecide("%s: %r" % (key, val))
            continue
        rx, s, g = ix
        if s not in m or g not in (Const(1), Const("1")):
            rep.undecide("%s: %r" % (key, val))
            continue
        if ("G", 1) not in pos.get(s, ()):
            rep.violation(key, "the index is not that of a predicate of the graph", loc)
            continue
        if any(l[0] == "in" and p and l[2][1] == s and not generic(l[2]) for p, l in x.guards):
            rep.violation(key, "only some of the triples of the graph are considered", loc)
            continue
        others = [q for q in m if q != s]
        down = set()
        for p, a, b in lt:
            small, big = (a, b) if p else (b, a)
            if index_of(big) and index_of(big)[1] == s:
                down.add(index_of(small)[1] if index_of(small) else small)
        if all(w in down for w in others) and down:
            kinds.add("compared" if others else "single")
            rep.ok()
        elif any(not isinstance(k, (Const, App)) for p, a, b in lt for k in (a, b)):
            rep.undecide(key)
        else:
            rep.violation(key, "the index used is not the largest one: with the indices %r, it is %r" % (others, val), loc)
    if kinds == {"single"} and not rep.violations:
        rep.violation("largest/%s/index" % name, "the index is never compared with that of another predicate: it is not the largest one", loc)


def generic(t):
    return all(isinstance(k, Sym) for k in t) and len(set(t)) == 3


def covers(conj):
    """Is the conjunction true whenever a predicate of the graph is a membership property? (True/False/None: unknown)"""
    ok = False
    for p, l in conj:
        if l[0] == "in":
            if not generic(l[2]):
                return False
            ok = ok or l[1] == "G"
        elif l[0] == "opq" and l[1][0] == "matched" and p:
            s = plain(l[1][2])
            if not any(k[0] == "in" and q and k[1] == "G" and k[2][1] == s for q, k in conj):
                return False if any(k[0] == "in" and q and s in k[2] for q, k in conj) else None
        elif l[0] == "eq" and not p and l[2] == NONE:
            pass
        elif l[0] == "lt" and p and l[1] == Const(0) and index_of(l[2]):
            pass
        elif l[0] == "lt" and not p and l[2] == Const(0) and index_of(l[1]):
            pass
        elif l[0] == "lt" and index_of(l[1]) and l[2] == Const(0) and p:
            return False
        else:
            return None
    return ok or None
