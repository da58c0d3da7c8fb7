"""C12, C13, C26: what the closures write into, and remove from, which graph."""
from __future__ import annotations
import copy
from sa.rules import *
from sa.extract import find_roles
from sa.engine import *
from sa.values import *
from sa.values import _counter
from sa.spec import iri
from .onetime import crule, enough, A, DT
from .axioms import label

MUTATORS = ("gadd", "gremove", "gaddall", "gbind", "gparse", "gremove_graph", "gadd_graph", "gupdate")
HOOKS = ("pre_process", "add_axioms", "add_d_axioms", "one_time_rules", "post_process", "flush_stored_triples")
BN = frozenset(("BNode",))


def session(root, cls, rdfs=None, destination=NONE, graph=None):
    eng = Engine(root)
    eng.load()
    return open_closure(eng, cls, destination=destination, graph=graph, **({} if rdfs is None else {"rdfs": Const(rdfs)}))


def flag(v):
    return isinstance(v, GraphV) or isinstance(v, Const) and isinstance(v.v, (bool, type(None)))


def signature(c, x, ref):
    x0, ref0 = c.paths[0]
    names = {a for a, v in x0.heap[ref0.id].attrs.items() if flag(v)}
    return tuple(sorted((a, repr(v)) for a, v in x.heap[ref.id].attrs.items() if a in names or flag(v)))


def variants(c):
    """The constructor may end in several ways that differ in the graphs and flags it sets: one session for each."""
    seen = set()
    for x, ref in c.paths:
        k = signature(c, x, ref)
        if k in seen:
            continue
        seen.add(k)
        if len(seen) == 1:
            yield c
            continue
        d = copy.copy(c)
        h = dict(x.heap)
        o = h[ref.id]
        h[ref.id] = HInst(o.cls, o.attrs, "closure")
        d.st, d.ref = State((), {}, h, ()), ref
        d.eng.special, d.eng.buffer_attrs = {}, {}
        find_roles(d)
        yield d


def collected(c):
    """Run the rules once, on a generic triple, in the first cycle; what they collect on the object is there, generically, afterwards."""
    eng = c.eng
    scope = next(_counter)
    t, eff, res = run_rules(c, Const(1))
    add, attrs = {}, {}
    for x, v in res:
        if isinstance(v, Exit):
            continue
        for i, p in c.st.heap.items():
            q = x.heap.get(i)
            if isinstance(p, HColl) and isinstance(q, HColl) and q != p and i not in eng.special:
                for e in q.items:
                    if not isinstance(e, Entry):
                        e = Entry(rename(e, x.subst), x.guards)
                    else:
                        e = Entry(e.value, x.guards + e.guards)
                    if e not in add.setdefault(i, []):
                        add[i].append(e)
    h = dict(c.st.heap)
    for i, es in add.items():
        p = h[i]
        h[i] = HColl(p.kind, False, tuple(es), scope, p.base, p.opaque, p.dflt, p.tag)
    st = State(c.st.guards, c.st.subst, h, ())
    return eff, st


def all_effects(c):
    """-> [(method, effect)] of everything that runs during a closure, but the loop itself"""
    out = [("__init__", e) for e in c.init_effects]
    eff, st = collected(c)
    out += [("rules", e) for e in eff]
    for m in HOOKS:
        if m == "one_time_rules" and c.clsname.startswith("OWLRL_Ext"):
            continue
        e, res = run_method(c, m, st=st if m == "post_process" else None)
        out += [(m, x) for x in e]
    saved = dict(c.eng.overrides)
    for m in ("rules",) + HOOKS[:-1]:
        c.eng.overrides["fn:" + m] = lambda en, fn, args, kw, st, node: [(st, NONE)]
    try:
        e, res = run_method(c, "closure")
        out += [("closure", x) for x in e]
    finally:
        c.eng.overrides = saved
    return out


CLASSES = [("RDFS_Semantics", None), ("OWLRL_Semantics", None), ("RDFS_OWLRL_Semantics", None), ("OWLRL_Extension", True), ("OWLRL_Extension_Trimming", True)]
NAME = IRI("http://example.org/destination")
# (description, graph, destination argument, roles that may be written)
CONFIGS = [
    ("in place", GraphV("G"), NONE, ("G",)),
    ("dataset in place", GraphV("G", "dataset"), NONE, ("G.default",)),
    ("destination graph", GraphV("G"), GraphV("D"), ("D",)),
    ("dataset with a destination graph", GraphV("G", "dataset"), GraphV("D"), ("D",)),
    ("dataset with the name of a destination", GraphV("G", "dataset"), NAME, ("G.ctx:%r" % NAME,)),
    ("dataset with the name of a destination as a string", GraphV("G", "dataset"), Const(NAME.v), ("G.ctx:%r" % Const(NAME.v),)),
]


def destinations(rep, root, tier):
    rep.rule("destination isolation: for each closure class and each kind of destination, every effect on a graph (add, remove, bind, parse) that abstract "
             "interpretation finds in the constructor, the hooks, the rules and the closure loop has the chosen destination as its target; "
             "an expansion in place may also remove from the source")
    for cls, rdfs in CLASSES:
        for desc, g, d, roles in CONFIGS:
            if desc != "destination graph" and cls not in ("RDFS_Semantics", "OWLRL_Semantics") and tier != "thorough" and desc != "dataset in place":
                continue
            name = "%s, %s" % (label(cls, rdfs), desc)
            try:
                c = session(root, cls, rdfs, d, g)
            except Broken as b:
                rep.violation("constructor/%s" % name, "the constructor does not accept this configuration: %s" % b, ("owlrl/Closure.py", 0, "__init__"))
                continue
            for c in variants(c):
                effs = all_effects(c)
                adds = 0
                seen = set()
                for m, e in effs:
                    if e.kind == "gmethod":
                        rep.undecide("%s: graph method %r in %s" % (name, e.payload[1], m))
                        continue
                    if e.kind in PROBLEM and m in ("closure", "post_process", "flush_stored_triples", "__init__") and e.kind not in ("loopcut",):
                        rep.undecide("%s: %s %r" % (name, e.kind, e.payload))
                    if e.kind not in MUTATORS:
                        continue
                    tgt = e.payload[0]
                    key = (m, e.kind, tgt, e.loc)
                    if key in seen:
                        continue
                    seen.add(key)
                    k = "target/%s/%s/%s" % (name, m, e.kind)
                    if not isinstance(tgt, GraphV):
                        rep.undecide(k + ": target %r" % (tgt,))
                        continue
                    adds += e.kind in ("gadd", "gaddall")
                    ok = tgt.role in roles
                    if e.kind == "gremove" and d is NONE and tgt.role.startswith("G"):
                        ok = True
                    rep.check(ok, k, "%s on %s instead of %s" % (e.kind[1:], describe(tgt.role), " or ".join(map(describe, roles))), e.loc,
                              {"class": cls, "destination": desc, "effect": "%s on %s" % (e.kind, tgt.role)})
                rep.counts["effects on graphs (%s)" % name] = len(seen)
                rep.check(adds > 0, "adds/%s" % name, "nothing is written to the destination", ("owlrl/Closure.py", 0, "Core"))


def describe(role):
    return {"G": "the source graph", "D": "the destination graph", "G.default": "the default graph of the dataset"}.get(role, "the graph " + role)


# ------------------------------------------------------------------------------------------------------------------ removals

REM = IRI("analysis:removed")


def removed(s, p, o):
    return (Tup((s, p, o)), REM, NONE)


def removals(c, method="post_process"):
    """The removals of a method as clauses: removed(s, p, o) <- conditions. -> (clauses, problems)"""
    eff, st = collected(c)
    e2, res = run_method(c, method, st=st)
    out, probs = [], []
    for e in list(eff) + list(c.init_effects) + e2:
        if e.kind in PROBLEM and e in e2:
            probs.append("%s %r at %s" % (e.kind, e.payload, e.loc))
        if e.kind != "gremove":
            continue
        t = e.payload[1]
        if not (isinstance(t, Tup) and len(t.items) == 3):
            out.append((e, None))
            continue
        items = tuple(fresh("x") if x == NONE else x for x in t.items)
        guards = e.guards + (((True, ("in", "G", items)),) if NONE in t.items else ())
        try:
            cl = make_clause(removed(*items), guards, e.loc, None, e)
        except BadEffect as b:
            probs.append(str(b))
            out.append((e, None))
            continue
        if cl is not None:
            out.append((e, cl))
    return out, probs


def additive(rep, root, tier):
    rep.rule("additivity: every removal that abstract interpretation finds (for what the rules have collected about a generic triple) concerns a triple whose "
             "predicate is a blank node: the condition is entailed by the path to it")
    rep.rule("valid output: each triple of the closure whose predicate is a blank node of the graph is removed at the end (OWL closures), from the destination "
             "and, in place, from the graph: entailed by the extracted removals")
    for cls, rdfs in CLASSES:
        trims = cls == "OWLRL_Extension_Trimming"   # what this one removes besides is C26
        for d in (NONE, GraphV("D")):
            name = "%s%s" % (label(cls, rdfs), "" if d is NONE else ", destination graph")
            c = session(root, cls, rdfs, d)
            rem, probs = removals(c)
            x, b, y = fresh("s"), fresh("b"), fresh("o")
            ref = Program([Clause(removed(x, b, y), [("isa", b, BN)], [], name="blank predicate")])
            rep.counts["removals (%s)" % name] = len(rem)
            for m, e in () if trims else other_removals(c):
                rep.violation("removal/%s/%s" % (name, m), "%r is removed from %s by %s" % (e.payload[1], describe(getattr(e.payload[0], "role", "?")), m), e.loc)
            for e, cl in () if trims else rem:
                key = "removal/%s/%s" % (name, e.loc[2].split(":")[-1])
                if cl is None:
                    rep.undecide(key)
                    continue
                bad = sound(cl, ref)
                if not bad:
                    rep.ok({"class": cls, "removal": repr(cl)[:200]})
                elif any(v is None for v, k in bad):
                    rep.undecide(key)
                else:
                    rep.violation(key, "a triple whose predicate need not be a blank node is removed: %r" % (bad[0][1],), e.loc)
            if cls == "RDFS_Semantics":
                continue
            for role in (["G"] if d is NONE else ["D"]):
                P = Program([cl for e, cl in rem if cl is not None and isinstance(e.payload[0], GraphV) and e.payload[0].role == role])
                for pos in ("subject", "object"):
                    s, b, o, u, v = (fresh(k) for k in "sbouv")
                    r = crule("blank predicate", removed(s, b, o), [("in", "G", (s, b, o)), ("isa", b, BN), ("in", "G", (b, u, v) if pos == "subject" else (u, v, b))])
                    val, pr = complete(r, P)
                    key = "kept/%s/%s" % (name, pos)
                    if val:
                        rep.ok()
                    elif val is None or probs:
                        rep.undecide(key + ": " + "; ".join(probs[:2]))
                    else:
                        rep.violation(key, "a triple whose predicate is a blank node (used as %s in the graph) stays in the result" % pos, ("owlrl/OWLRL.py", 0, "post_process"))


def other_removals(c):
    """Removals outside of post_process."""
    for m, e in all_effects(c):
        if e.kind in ("gremove", "gremove_graph") and m != "post_process":
            yield m, e


# ------------------------------------------------------------------------------------------------------------------ trimming

TRIM_GROUND = """owl:Nothing rdf:type owl:Class|owl:Nothing rdf:type rdfs:Class|owl:Thing rdf:type owl:Class|owl:Thing rdf:type rdfs:Class
|owl:Thing owl:equivalentClass rdfs:Resource|rdfs:Resource owl:equivalentClass owl:Thing|owl:Class owl:equivalentClass rdfs:Class
|owl:Class rdfs:subClassOf rdfs:Class|rdfs:Class owl:equivalentClass owl:Class|rdfs:Class rdfs:subClassOf owl:Class
|rdfs:Datatype rdfs:subClassOf owl:DataRange|rdfs:Datatype owl:equivalentClass owl:DataRange
|owl:DataRange rdfs:subClassOf owl:DatatypeProperty|owl:DataRange owl:equivalentClass owl:DatatypeProperty""".replace("\n", "")


def annotation_properties():
    from sa import spec
    return [r.clause.head[0] for r in spec.owl_rl(2) if not r.body and r.clause.head != ERR and r.clause.head[2] == iri("owl:AnnotationProperty")]


def trim_rules(datatypes):
    R = []
    for p in ("owl:sameAs", "owl:equivalentClass", "rdfs:subClassOf", "rdfs:subPropertyOf"):
        x = fresh("x")
        R.append(crule("?x %s ?x" % p, removed(x, iri(p), x), [("in", "G", (x, iri(p), x))]))
    for p, o in (("rdfs:subClassOf", "owl:Thing"), ("rdfs:subClassOf", "rdfs:Resource"), ("rdf:type", "rdfs:Resource")):
        x = fresh("x")
        R.append(crule("?x %s %s" % (p, o), removed(x, iri(p), iri(o)), [("in", "G", (x, iri(p), iri(o)))]))
    x = fresh("x")
    R.append(crule("owl:Nothing rdfs:subClassOf ?x", removed(iri("owl:Nothing"), iri("rdfs:subClassOf"), x), [("in", "G", (iri("owl:Nothing"), iri("rdfs:subClassOf"), x))]))
    for an in annotation_properties():
        R.append(crule("%r a owl:AnnotationProperty" % an, removed(an, A, iri("owl:AnnotationProperty")), ()))
    for t in TRIM_GROUND.split("|"):
        R.append(crule(t, removed(*map(iri, t.split())), ()))
    for d in datatypes:
        s = fresh("s")
        unused = [("neg", ((True, ("in", "G", (s, A, d))),), "cond", frozenset((s,)))]
        for o in (DT, iri("owl:DataRange")):
            R.append(crule("unused %r a %r" % (d, o), removed(d, A, o), [], unused))
        x, y = fresh("x"), fresh("y")
        R.append(crule("unused %r disjoint" % d, removed(d, iri("owl:disjointWith"), x), [("in", "G", (d, iri("owl:disjointWith"), x))], unused))
        R.append(crule("disjoint unused %r" % d, removed(y, iri("owl:disjointWith"), d), [("in", "G", (y, iri("owl:disjointWith"), d))], unused))
    return R


def trimming(rep, root, tier):
    from sa.spec_data import DATATYPES
    rep.rule("completeness: each pattern of the documentation is removed by post_process: entailed by the removals extracted from it")
    rep.rule("soundness: each extracted removal is an instance of a documented pattern (or concerns a blank node as predicate)")
    for d in (NONE, GraphV("D")):
        name = "in place" if d is NONE else "destination graph"
        c = session(root, "OWLRL_Extension_Trimming", True, d)
        rem, probs = removals(c)
        role = "G" if d is NONE else "D"
        P = Program([cl for e, cl in rem if cl is not None and isinstance(e.payload[0], GraphV) and e.payload[0].role == role])
        known = list(DATATYPES) + [iri("owl:rational")]
        R = trim_rules(known)
        rep.counts["removals (%s)" % name] = len(rem)
        x, b, y, z = fresh("s"), fresh("b"), fresh("o"), fresh("d")
        # the faceted datatypes of the graph are registered with the others, under a term that depends on the path
        registered = {t for e, cl in rem if cl is not None for t in cl.head[0].items if isinstance(t, App) and t not in known}
        ref = [r.clause for r in R + trim_rules(sorted(registered, key=repr))] + [Clause(removed(x, b, y), [("isa", b, BN)], [], name="blank predicate")]
        for e, cl in rem:
            if enough(rep):
                return
            key = "sound/%s/%s" % (name, e.loc[2].split(":")[-1])
            if cl is None:
                rep.undecide(key)
                continue
            bad = sound(cl, Program(ref))
            if not bad:
                rep.ok()
            elif any(v is None for v, k in bad):
                rep.undecide(key + repr(bad[0][1])[:200])
            else:
                rep.violation(key, "not a documented pattern: %r" % (bad[0][1],), e.loc)
        for r in R:
            if enough(rep):
                return
            v, pr = complete(r, P)
            key = "complete/%s/%s" % (name, r.label)
            if v:
                rep.ok({"pattern": r.label})
            elif v is None or probs:
                rep.undecide(key + ": " + "; ".join(probs[:2]))
            else:
                rep.violation(key, "the trimming does not remove %s" % r.label, ("owlrl/OWLRLExtras.py", 0, "OWLRL_Extension_Trimming.post_process"))
