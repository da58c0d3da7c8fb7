"""C07: the rules that are run once: vocabulary facts, literals and their datatypes."""
from __future__ import annotations
import time
from sa.rules import *
from sa import spec
from sa.spec import iri, Rule
from sa.spec_data import *
from .rulecheck import extraction, clause_key, unknown_value

A, DT = iri("rdf:type"), iri("rdfs:Datatype")
LIT = frozenset(("Literal",))


def datatype(x):
    return App("attr:datatype", (x,))


def crule(name, head, pos, neg=()):
    r = Rule.__new__(Rule)
    r.name = r.label = name
    r.clause = Clause(head, tuple(pos), tuple(neg), name=name)
    r.body, r.head = [repr(x) for x in pos], None if head == ERR else "%r" % (head,)
    return r


def literal(v, dt=None):
    """v is a literal of the graph (of the datatype dt)"""
    s, p = fresh("s"), fresh("p")
    pos = [("in", "G", (s, p, v)), ("isa", v, LIT)]
    if dt is not None:
        pos.append(("eq", datatype(v), dt))
    return pos


def facts():
    return [r for r in spec.owl_rl(2) if not r.body]


def required():
    R = facts()
    for d in DATATYPES:
        R.append(crule("dt-type1/%r" % d, (d, A, DT), ()))
        v = fresh("lt")
        R.append(crule("dt-type2/%r" % d, (v, A, d), literal(v, d)))
    for d, s in SUBSUMPTION:
        v = fresh("lt")
        R.append(crule("subsumption/literal/%r/%r" % (d, s), (v, A, s), literal(v, d)))
        x = fresh("x")
        R.append(crule("subsumption/typed/%r/%r" % (d, s), (x, A, s), [("in", "G", (x, A, d))], [("isa", x, LIT)]))
    return R


def disjointness():
    """-> [(name, the two heads, body)]"""
    out = []
    sub = {}
    for d, s in SUBSUMPTION:
        sub.setdefault(s, []).append(d)
    for a, b in DISJOINT:
        uses = [(a, b)] + [(k, b) for k in sub.get(a, ())] + [(a, k) for k in sub.get(b, ())]
        for x, y in uses:
            u, v = fresh("lt"), fresh("lt")
            out.append(("dt-disjoint/literals/%r/%r/%r/%r" % (a, b, x, y), a, b, literal(u, x) + literal(v, y), ()))
        u, v = fresh("x"), fresh("y")
        out.append(("dt-disjoint/typed/%r/%r" % (a, b), a, b, [("in", "G", (u, A, a)), ("in", "G", (v, A, b))], ()))
        for x, y in uses[1:]:
            u, v = fresh("x"), fresh("y")
            out.append(("dt-disjoint/typed/%r/%r/%r/%r" % (a, b, x, y), a, b, [("in", "G", (u, A, x)), ("in", "G", (v, A, y))], (("isa", u, LIT), ("isa", v, LIT))))
        for x, y in ((a, b), (b, a)):
            u, v = fresh("x"), fresh("lt")
            out.append(("dt-disjoint/mixed/%r/%r" % (x, y), a, b, [("in", "G", (u, A, x))] + literal(v, y), ()))
    return out


def table_ref(eng, module, name):
    m = eng.modules.get(eng.package + "." + module)
    v = eng.init_state.heap[m.env].vars.get(name) if m else None
    return v if isinstance(v, Ref) else None


def ill_typed(eng):
    """dt-not-type: the conversion of the datatype rejects the lexical form."""
    conv = table_ref(eng, "DatatypeHandling", "AltXSDToPYTHON")
    if conv is None:
        raise Broken("no table AltXSDToPYTHON")
    v = fresh("lt")
    pos = literal(v) + [("memb", datatype(v), frozenset(DATATYPES)),
                        ("opq", ("raises", "ValueError", "call", App("lookup", (conv, datatype(v))), App("str", (v,))))]
    return pos, conv


def check(rep, root, tier):
    rep.rule("completeness: every fact and datatype rule (dt-type1, dt-type2, subsumption, disjointness of used datatypes, dt-not-type), for each "
             "datatype, is derivable from what abstract interpretation extracts from one_time_rules")
    rep.rule("soundness: every clause extracted from one_time_rules follows from these rules")
    for cls in ("OWLRL_Semantics", "RDFS_OWLRL_Semantics"):
        X = extraction(root, cls)
        P = Program(X.method("one_time_rules"))
        probs = problems(X)
        rep.counts["clauses of one_time_rules (%s)" % cls] = len(P.clauses)
        R = required()
        if cls != "OWLRL_Semantics":
            for t in BINDING:
                R.append(crule("binding/%s" % " ".join(t), tuple(iri(x) for x in t), ()))
        pos, conv = ill_typed(X.eng)
        for d in DATATYPES:
            if repr(d) not in ANY_FORM:
                v = fresh("lt")
                body = literal(v, d) + [("opq", ("raises", "ValueError", "call", App("lookup", (conv, datatype(v))), App("str", (v,))))]
                R.append(crule("dt-not-type/%r" % d, ERR, body))
        for r in R:
            if enough(rep):
                break
            verdict(rep, "complete/%s/%s" % (cls, r.label), *complete(r, P, budget=200), r.label, probs, X, P)
        for name, a, b, body, neg in disjointness():
            if enough(rep):
                break
            v, pr = complete(crule(name, (a, iri("owl:disjointWith"), b), body, neg), P)
            if v is not True:
                w, pr2 = complete(crule(name, (b, iri("owl:disjointWith"), a), body, neg), P)
                v = True if w else (None if v is None or w is None else False)
            verdict(rep, "complete/%s/%s" % (cls, name), v, pr, name, probs, X, P)
        ref = list(spec.owl_rl(2)) + required() + [crule("dt-not-type", ERR, pos)]
        if cls != "OWLRL_Semantics":
            ref += spec.rdfs() + [crule("binding", tuple(iri(x) for x in t), ()) for t in BINDING]
        for d in DATATYPES:
            v = fresh("lt")
            ref.append(crule("sub", (v, A, datatype(v)), literal(v) + [("memb", datatype(v), frozenset(DATATYPES))]))
        x, v = fresh("dt"), fresh("lt")
        ref.append(crule("dt", (x, A, DT), [("memb", x, frozenset(DATATYPES))]))
        ref.append(crule("dt", (datatype(v), A, DT), [("memb", datatype(v), frozenset(DATATYPES))]))
        for d, s in SUBSUMPTION:
            x = fresh("x")
            ref.append(crule("sub", (x, A, s), [("in", "G", (x, A, d))]))
        pairs = frozenset(Tup(x) for x in SUBSUMPTION)
        x, v, d, s = fresh("x"), fresh("lt"), fresh("d"), fresh("s")
        ref.append(crule("sub", (x, A, s), [("in", "G", (x, A, d)), ("memb", Tup((d, s)), pairs)]))
        ref.append(crule("sub", (v, A, s), literal(v) + [("memb", Tup((datatype(v), s)), pairs)]))
        for a, b in DISJOINT:
            for h in ((a, iri("owl:disjointWith"), b), (b, iri("owl:disjointWith"), a)):
                ref.append(crule("disj", h, ()))
        if not enough(rep):
            soundness(rep, X, Program([r.clause for r in ref]), "one_time_rules")
    if not enough(rep):
        equal_literals(rep, root)


def enough(rep):
    """A few reports suffice: what follows is more of the same."""
    return len(rep.violations) >= 4 or (rep.violations and time.time() - rep.t0 > 200)


# the datatypes that accept every lexical form (or that RDF leaves undefined)
ANY_FORM = {"rdfs:Literal", "rdf:langString", "xsd:string", "rdf:HTML"}


def problems(X):
    out = []
    for w, p in X.problems:
        if w == "one_time_rules" and not p.startswith("callunknown (lookup("):
            out.append(p)
    return out


def verdict(rep, key, v, pr, label, probs, X, P):
    if v:
        rep.ok({"rule": label, "class": X.clsname})
    elif v is None or probs:
        rep.undecide(key + ": " + "; ".join(list(getattr(pr, "undecided", []))[:2] + probs[:2]))
    else:
        loc = P.clauses[0].loc if P.clauses else ("owlrl", 0, X.clsname)
        for c in P.clauses:
            if c.loc and "datatype" in str(c.loc[2]).lower():
                loc = c.loc
                break
        rep.violation(key, "the rule %s does not follow from one_time_rules" % label, loc)


def soundness(rep, X, ref, name):
    for c in X.method(name):
        bad = sound(c, ref)
        key = "sound/%s/%s/%s" % (X.clsname, name, clause_key(c))
        real = [k for v, k in bad if v is not None]
        if not bad:
            rep.ok()
        elif not real or any(unknown_value(x) for x in (real[0].head if real[0].head != ERR else ())):
            rep.undecide(key)
        else:
            rep.violation(key, "not entailed by the specification: %r" % (real[0],), c.loc)


def equal_literals(rep, root):
    """The RDFS closure: literals with the same value stand for each other as objects."""
    X = extraction(root, "RDFS_Semantics")
    P = Program(X.method("one_time_rules"))
    probs = problems(X)
    s, p, a, b = fresh("s"), fresh("p"), fresh("lt"), fresh("lt")
    body = [("in", "G", (s, p, a)), ("isa", a, LIT)] + literal(b) + [("eq", App("attr:value", (a,)), App("attr:value", (b,)))]
    neg = [("eq", App("attr:value", (a,)), NONE), ("eq", App("attr:value", (b,)), NONE)]
    r = crule("equal-literals", (s, p, b), body, neg)
    verdict(rep, "complete/RDFS_Semantics/equal-literals", *complete(r, P), "equal-literals", probs, X, P)
    soundness(rep, X, Program([r.clause]), "one_time_rules")
