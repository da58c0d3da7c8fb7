"""The reference: the entailment rules of the RDF Semantics (RDFS) and of the OWL 2 RL/RDF profile (Tables 4 to 9).

Written from the W3C documents, as clauses over symbolic variables; a rule with a list is given for each length."""
from __future__ import annotations
from .values import *
from .logic import Clause, ERR

NS = {
    "rdf": "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
    "rdfs": "http://www.w3.org/2000/01/rdf-schema#",
    "owl": "http://www.w3.org/2002/07/owl#",
    "xsd": "http://www.w3.org/2001/XMLSchema#",
}


def iri(s):
    p, n = s.split(":", 1)
    return IRI(NS[p] + n)


class Rule:
    def __init__(self, name, table, body, head, n=None):
        self.name, self.table, self.n = name, table, n
        self.vars = {}
        atoms = [self.atom(a) for a in body]
        pos = [a for a in atoms if a[0] != "ne"]
        neg = [("eq", a[1], a[2]) for a in atoms if a[0] == "ne"]
        if head is None:
            h = ERR
        else:
            h = tuple(self.term(x) for x in head.split())
        self.clause = Clause(h, pos, neg, name=name if n is None else "%s/%d" % (name, n))
        self.label = self.clause.name
        self.body, self.head = body, head

    def term(self, x):
        if x == "a":
            return iri("rdf:type")
        if ":" in x:
            return iri(x)
        if x not in self.vars:
            self.vars[x] = fresh(x)
        return self.vars[x]

    def atom(self, a):
        f = a.split()
        if f[0] == "LIST":
            return ("list", self.term(f[1]), tuple(self.term(x) for x in f[2:]))
        if f[0] == "VALUE":
            return ("eq", App("attr:value", (self.term(f[1]),)), Const(int(f[2])))
        if f[0] == "LITERAL":
            return ("isa", self.term(f[1]), frozenset(("Literal",)))
        if f[0] == "NE":
            return ("ne", self.term(f[1]), self.term(f[2]))
        return ("in", "G", tuple(self.term(x) for x in f))


def xs(p, n):
    return ["%s%d" % (p, i) for i in range(1, n + 1)]


def L(h, items):
    return "LIST %s %s" % (h, " ".join(items))


def owl_rl(maxlen=3):
    R = []

    def r(name, table, body, *heads, n=None):
        for h in heads:
            R.append(Rule(name, table, body, h, n))

    # ---- Table 4: equality
    for v in "spo":
        r("eq-ref", 4, ["s p o"], "%s owl:sameAs %s" % (v, v))
    r("eq-sym", 4, ["x owl:sameAs y"], "y owl:sameAs x")
    r("eq-trans", 4, ["x owl:sameAs y", "y owl:sameAs z"], "x owl:sameAs z")
    r("eq-rep-s", 4, ["s owl:sameAs s2", "s p o"], "s2 p o")
    r("eq-rep-p", 4, ["p owl:sameAs p2", "s p o"], "s p2 o")
    r("eq-rep-o", 4, ["o owl:sameAs o2", "s p o"], "s p o2")
    r("eq-diff1", 4, ["x owl:sameAs y", "x owl:differentFrom y"], None)
    for n in range(2, maxlen + 1):
        z = xs("z", n)
        for nm, p in (("eq-diff2", "owl:members"), ("eq-diff3", "owl:distinctMembers")):
            for i in range(n):
                for j in range(n):
                    if i != j:
                        r(nm, 4, ["x a owl:AllDifferent", "x %s y" % p, L("y", z), "%s owl:sameAs %s" % (z[i], z[j]), "NE %s %s" % (z[i], z[j])], None, n=n)
    # ---- Table 5: properties
    for ap in ANNOTATION:
        r("prp-ap", 5, [], "%s a owl:AnnotationProperty" % ap)
    r("prp-dom", 5, ["p rdfs:domain c", "x p y"], "x a c")
    r("prp-rng", 5, ["p rdfs:range c", "x p y"], "y a c")
    r("prp-fp", 5, ["p a owl:FunctionalProperty", "x p y1", "x p y2"], "y1 owl:sameAs y2")
    r("prp-ifp", 5, ["p a owl:InverseFunctionalProperty", "x1 p y", "x2 p y"], "x1 owl:sameAs x2")
    r("prp-irp", 5, ["p a owl:IrreflexiveProperty", "x p x"], None)
    r("prp-symp", 5, ["p a owl:SymmetricProperty", "x p y"], "y p x")
    r("prp-asyp", 5, ["p a owl:AsymmetricProperty", "x p y", "y p x"], None)
    r("prp-trp", 5, ["p a owl:TransitiveProperty", "x p y", "y p z"], "x p z")
    r("prp-spo1", 5, ["p1 rdfs:subPropertyOf p2", "x p1 y"], "x p2 y")
    for n in range(1, maxlen + 1):
        ps = xs("p", n)
        r("prp-spo2", 5, ["p owl:propertyChainAxiom x", L("x", ps)] + ["u%d %s u%d" % (i, ps[i - 1], i + 1) for i in range(1, n + 1)],
          "u1 p u%d" % (n + 1), n=n)
    r("prp-eqp1", 5, ["p1 owl:equivalentProperty p2", "x p1 y"], "x p2 y")
    r("prp-eqp2", 5, ["p1 owl:equivalentProperty p2", "x p2 y"], "x p1 y")
    r("prp-pdw", 5, ["p1 owl:propertyDisjointWith p2", "x p1 y", "x p2 y"], None)
    for n in range(2, maxlen + 1):
        ps = xs("p", n)
        for i in range(n):
            for j in range(i + 1, n):
                r("prp-adp", 5, ["x a owl:AllDisjointProperties", "x owl:members y", L("y", ps), "u %s v" % ps[i], "u %s v" % ps[j]], None, n=n)
    r("prp-inv1", 5, ["p1 owl:inverseOf p2", "x p1 y"], "y p2 x")
    r("prp-inv2", 5, ["p1 owl:inverseOf p2", "x p2 y"], "y p1 x")
    for n in range(1, maxlen + 1):
        ps = xs("p", n)
        r("prp-key", 5, ["c owl:hasKey u", L("u", ps), "x a c", "y a c"] + ["x %s z%d" % (p, i) for i, p in enumerate(ps)]
          + ["y %s z%d" % (p, i) for i, p in enumerate(ps)], "x owl:sameAs y", n=n)
    r("prp-npa1", 5, ["x owl:sourceIndividual i1", "x owl:assertionProperty p", "x owl:targetIndividual i2", "i1 p i2"], None)
    r("prp-npa2", 5, ["x owl:sourceIndividual i", "x owl:assertionProperty p", "x owl:targetValue lt", "i p lt"], None)
    # ---- Table 6: classes
    r("cls-thing", 6, [], "owl:Thing a owl:Class")
    r("cls-nothing1", 6, [], "owl:Nothing a owl:Class")
    r("cls-nothing2", 6, ["x a owl:Nothing"], None)
    for n in range(1, maxlen + 1):
        cs = xs("c", n)
        r("cls-int1", 6, ["c owl:intersectionOf x", L("x", cs)] + ["y a %s" % k for k in cs], "y a c", n=n)
        for k in cs:
            r("cls-int2", 6, ["c owl:intersectionOf x", L("x", cs), "y a c"], "y a %s" % k, n=n)
            r("cls-uni", 6, ["c owl:unionOf x", L("x", cs), "y a %s" % k], "y a c", n=n)
            r("cls-oo", 6, ["c owl:oneOf x", L("x", cs)], "%s a c" % k, n=n)
    r("cls-com", 6, ["c1 owl:complementOf c2", "x a c1", "x a c2"], None)
    r("cls-svf1", 6, ["x owl:someValuesFrom y", "x owl:onProperty p", "u p v", "v a y"], "u a x")
    r("cls-svf2", 6, ["x owl:someValuesFrom owl:Thing", "x owl:onProperty p", "u p v"], "u a x")
    r("cls-avf", 6, ["x owl:allValuesFrom y", "x owl:onProperty p", "u a x", "u p v"], "v a y")
    r("cls-hv1", 6, ["x owl:hasValue y", "x owl:onProperty p", "u a x"], "u p y")
    r("cls-hv2", 6, ["x owl:hasValue y", "x owl:onProperty p", "u p y"], "u a x")
    r("cls-maxc1", 6, ["x owl:maxCardinality k", "LITERAL k", "VALUE k 0", "x owl:onProperty p", "u a x", "u p y"], None)
    r("cls-maxc2", 6, ["x owl:maxCardinality k", "LITERAL k", "VALUE k 1", "x owl:onProperty p", "u a x", "u p y1", "u p y2"], "y1 owl:sameAs y2")
    r("cls-maxqc1", 6, ["x owl:maxQualifiedCardinality k", "LITERAL k", "VALUE k 0", "x owl:onProperty p", "x owl:onClass c", "u a x", "u p y", "y a c"], None)
    r("cls-maxqc2", 6, ["x owl:maxQualifiedCardinality k", "LITERAL k", "VALUE k 0", "x owl:onProperty p", "x owl:onClass owl:Thing", "u a x", "u p y"], None)
    r("cls-maxqc3", 6, ["x owl:maxQualifiedCardinality k", "LITERAL k", "VALUE k 1", "x owl:onProperty p", "x owl:onClass c", "u a x", "u p y1", "y1 a c",
                        "u p y2", "y2 a c"], "y1 owl:sameAs y2")
    r("cls-maxqc4", 6, ["x owl:maxQualifiedCardinality k", "LITERAL k", "VALUE k 1", "x owl:onProperty p", "x owl:onClass owl:Thing", "u a x", "u p y1", "u p y2"],
      "y1 owl:sameAs y2")
    # ---- Table 7: class axioms
    r("cax-sco", 7, ["c1 rdfs:subClassOf c2", "x a c1"], "x a c2")
    r("cax-eqc1", 7, ["c1 owl:equivalentClass c2", "x a c1"], "x a c2")
    r("cax-eqc2", 7, ["c1 owl:equivalentClass c2", "x a c2"], "x a c1")
    r("cax-dw", 7, ["c1 owl:disjointWith c2", "x a c1", "x a c2"], None)
    for n in range(2, maxlen + 1):
        cs = xs("c", n)
        for i in range(n):
            for j in range(i + 1, n):
                r("cax-adc", 7, ["x a owl:AllDisjointClasses", "x owl:members y", L("y", cs), "z a %s" % cs[i], "z a %s" % cs[j]], None, n=n)
    # ---- Table 9: schema vocabulary
    r("scm-cls", 9, ["c a owl:Class"], "c rdfs:subClassOf c", "c owl:equivalentClass c", "c rdfs:subClassOf owl:Thing", "owl:Nothing rdfs:subClassOf c")
    r("scm-sco", 9, ["c1 rdfs:subClassOf c2", "c2 rdfs:subClassOf c3"], "c1 rdfs:subClassOf c3")
    r("scm-eqc1", 9, ["c1 owl:equivalentClass c2"], "c1 rdfs:subClassOf c2", "c2 rdfs:subClassOf c1")
    r("scm-eqc2", 9, ["c1 rdfs:subClassOf c2", "c2 rdfs:subClassOf c1"], "c1 owl:equivalentClass c2")
    r("scm-op", 9, ["p a owl:ObjectProperty"], "p rdfs:subPropertyOf p", "p owl:equivalentProperty p")
    # not in the table: the same for rdf:Property (a documented addition)
    r("scm-rp", 9, ["p a rdf:Property"], "p rdfs:subPropertyOf p", "p owl:equivalentProperty p")
    r("scm-dp", 9, ["p a owl:DatatypeProperty"], "p rdfs:subPropertyOf p", "p owl:equivalentProperty p")
    r("scm-spo", 9, ["p1 rdfs:subPropertyOf p2", "p2 rdfs:subPropertyOf p3"], "p1 rdfs:subPropertyOf p3")
    r("scm-eqp1", 9, ["p1 owl:equivalentProperty p2"], "p1 rdfs:subPropertyOf p2", "p2 rdfs:subPropertyOf p1")
    r("scm-eqp2", 9, ["p1 rdfs:subPropertyOf p2", "p2 rdfs:subPropertyOf p1"], "p1 owl:equivalentProperty p2")
    r("scm-dom1", 9, ["p rdfs:domain c1", "c1 rdfs:subClassOf c2"], "p rdfs:domain c2")
    r("scm-dom2", 9, ["p2 rdfs:domain c", "p1 rdfs:subPropertyOf p2"], "p1 rdfs:domain c")
    r("scm-rng1", 9, ["p rdfs:range c1", "c1 rdfs:subClassOf c2"], "p rdfs:range c2")
    r("scm-rng2", 9, ["p2 rdfs:range c", "p1 rdfs:subPropertyOf p2"], "p1 rdfs:range c")
    r("scm-hv", 9, ["c1 owl:hasValue i", "c1 owl:onProperty p1", "c2 owl:hasValue i", "c2 owl:onProperty p2", "p1 rdfs:subPropertyOf p2"], "c1 rdfs:subClassOf c2")
    r("scm-svf1", 9, ["c1 owl:someValuesFrom y1", "c1 owl:onProperty p", "c2 owl:someValuesFrom y2", "c2 owl:onProperty p", "y1 rdfs:subClassOf y2"],
      "c1 rdfs:subClassOf c2")
    r("scm-svf2", 9, ["c1 owl:someValuesFrom y", "c1 owl:onProperty p1", "c2 owl:someValuesFrom y", "c2 owl:onProperty p2", "p1 rdfs:subPropertyOf p2"],
      "c1 rdfs:subClassOf c2")
    r("scm-avf1", 9, ["c1 owl:allValuesFrom y1", "c1 owl:onProperty p", "c2 owl:allValuesFrom y2", "c2 owl:onProperty p", "y1 rdfs:subClassOf y2"],
      "c1 rdfs:subClassOf c2")
    r("scm-avf2", 9, ["c1 owl:allValuesFrom y", "c1 owl:onProperty p1", "c2 owl:allValuesFrom y", "c2 owl:onProperty p2", "p1 rdfs:subPropertyOf p2"],
      "c2 rdfs:subClassOf c1")
    for n in range(1, maxlen + 1):
        cs = xs("c", n)
        for k in cs:
            r("scm-int", 9, ["c owl:intersectionOf x", L("x", cs)], "c rdfs:subClassOf %s" % k, n=n)
            r("scm-uni", 9, ["c owl:unionOf x", L("x", cs)], "%s rdfs:subClassOf c" % k, n=n)
    return R


ANNOTATION = ["rdfs:label", "rdfs:comment", "rdfs:seeAlso", "rdfs:isDefinedBy", "owl:deprecated", "owl:versionInfo", "owl:priorVersion",
              "owl:backwardCompatibleWith", "owl:incompatibleWith"]


def rdfs():
    R = []

    def r(name, body, *heads):
        for h in heads:
            R.append(Rule(name, 0, body, h))

    r("rdf1", ["x p y"], "p a rdf:Property")
    r("rdfs2", ["p rdfs:domain c", "x p y"], "x a c")
    r("rdfs3", ["p rdfs:range c", "x p y"], "y a c")
    r("rdfs4a", ["x p y"], "x a rdfs:Resource")
    r("rdfs4b", ["x p y"], "y a rdfs:Resource")
    r("rdfs5", ["p rdfs:subPropertyOf q", "q rdfs:subPropertyOf r"], "p rdfs:subPropertyOf r")
    r("rdfs6", ["p a rdf:Property"], "p rdfs:subPropertyOf p")
    r("rdfs7", ["p rdfs:subPropertyOf q", "x p y"], "x q y")
    r("rdfs8", ["c a rdfs:Class"], "c rdfs:subClassOf rdfs:Resource")
    r("rdfs9", ["c rdfs:subClassOf d", "x a c"], "x a d")
    r("rdfs10", ["c a rdfs:Class"], "c rdfs:subClassOf c")
    r("rdfs11", ["c rdfs:subClassOf d", "d rdfs:subClassOf e"], "c rdfs:subClassOf e")
    r("rdfs12", ["p a rdfs:ContainerMembershipProperty"], "p rdfs:subPropertyOf rdfs:member")
    r("rdfs13", ["d a rdfs:Datatype"], "d rdfs:subClassOf rdfs:Literal")
    return R


def extension():
    """Rules of the extended closure, beyond OWL 2 RL."""
    R = []

    def r(name, body, *heads):
        for h in heads:
            R.append(Rule(name, 10, body, h))

    r("ext-prop", ["p a rdf:Property"], "p rdfs:subPropertyOf p", "p owl:equivalentProperty p")
    # the values required to be in a restricted datatype are checked
    f = Rule("avf-facet", 10, ["x owl:allValuesFrom y", "x owl:onProperty p", "u a x", "u p v", "LITERAL v"], None)
    rt = fresh("rt")
    f.vars["rt"] = rt
    R_ = App("restriction", (rt,))
    V = f.vars["v"]
    dt = App("attr:datatype", (R_,))
    pos = tuple(rename(l, {f.vars["y"]: dt}) for l in f.clause.pos) + (("elem", ("restrictions",), rt),)
    bad = ("opq", ("truthy", App("m:checkValue", (R_, App("m:converter", (R_, App("str", (V,))))))))
    exc = [("opq", ("raises", "ValueError", "converter", R_, App("str", (V,)))),
           ("opq", ("raises", "TypeError", "checkValue", R_, App("m:converter", (R_, App("str", (V,))))))]
    f.clause = Clause(ERR, pos, (bad,), name="avf-facet")
    f.strict = Clause(ERR, pos, (bad,) + tuple(exc), name="avf-facet")
    R.append(f)
    r("hasSelf1", ["z owl:hasSelf w", "z owl:onProperty p", "x a z"], "x p x")
    r("hasSelf2", ["z owl:hasSelf w", "z owl:onProperty p", "x p x"], "x a z")
    return R
