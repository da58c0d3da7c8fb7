"""Reference data: the axiomatic triples.

RDF/RDFS: RDF Semantics, the RDF and RDFS axiomatic triples. OWL: OWL 2 RDF-Based Semantics (vocabulary classes and properties, Tables 5.2 and 5.3),
restricted to the vocabulary of OWL 2 RL. Datatypes: XML Schema part 2 and the OWL 2 datatype map."""
from .spec import iri


def _t(text):
    out = set()
    lines = []
    for l in text.strip().splitlines():
        if l.startswith("    "):
            lines[-1] += " " + l.strip()
        else:
            lines.append(l)
    for l in lines:
        po, ss = l.split(" : ")
        p, o = po.split()
        for s in ss.split():
            out.add((iri(s), iri(p), iri(o)))
    return frozenset(out)


RDFS = _t("""
rdf:type rdf:Property : rdf:type rdf:subject rdf:predicate rdf:object rdf:first rdf:rest rdf:value rdfs:domain rdfs:range rdfs:subPropertyOf
    rdfs:subClassOf rdfs:member rdfs:seeAlso rdfs:isDefinedBy rdfs:comment rdfs:label
rdf:type rdf:List : rdf:nil
rdfs:domain rdfs:Resource : rdf:type rdfs:member rdfs:seeAlso rdfs:isDefinedBy rdfs:comment rdfs:label rdf:value
rdfs:domain rdf:Property : rdfs:domain rdfs:range rdfs:subPropertyOf
rdfs:domain rdfs:Class : rdfs:subClassOf
rdfs:domain rdf:Statement : rdf:subject rdf:predicate rdf:object
rdfs:domain rdf:List : rdf:first rdf:rest
rdf:type rdfs:Class : rdf:Property rdfs:Resource rdfs:Class rdfs:Literal rdf:XMLLiteral rdfs:Datatype rdf:Seq rdf:Bag rdf:Alt rdfs:Container rdf:List
    rdfs:ContainerMembershipProperty rdf:Statement
rdfs:range rdfs:Class : rdf:type rdfs:domain rdfs:range rdfs:subClassOf
rdfs:range rdf:Property : rdfs:subPropertyOf
rdfs:range rdfs:Resource : rdf:subject rdf:predicate rdf:object rdfs:member rdf:first rdfs:seeAlso rdfs:isDefinedBy rdf:value
rdfs:range rdf:List : rdf:rest
rdfs:range rdfs:Literal : rdfs:comment rdfs:label
rdfs:subClassOf rdfs:Container : rdf:Alt rdf:Bag rdf:Seq
rdfs:subClassOf rdf:Property : rdfs:ContainerMembershipProperty
rdfs:subPropertyOf rdfs:seeAlso : rdfs:isDefinedBy
rdf:type rdfs:Datatype : rdf:XMLLiteral
rdfs:subClassOf rdfs:Literal : rdf:XMLLiteral
rdfs:subClassOf rdfs:Class : rdfs:Datatype
""")

RDFS_D = _t("""
rdf:type rdfs:Datatype : xsd:integer xsd:decimal xsd:nonNegativeInteger xsd:nonPositiveInteger xsd:positiveInteger xsd:negativeInteger xsd:long
    xsd:int xsd:short xsd:byte xsd:unsignedLong xsd:unsignedInt xsd:unsignedShort xsd:unsignedByte xsd:float xsd:double xsd:string xsd:normalizedString
    xsd:token xsd:language xsd:Name xsd:NCName xsd:NMTOKEN xsd:boolean xsd:hexBinary xsd:base64Binary xsd:anyURI xsd:dateTimeStamp xsd:dateTime
    rdfs:Literal rdf:XMLLiteral
rdfs:subClassOf rdfs:Literal : xsd:decimal
rdfs:subClassOf xsd:decimal : xsd:integer
rdfs:subClassOf xsd:integer : xsd:long xsd:nonNegativeInteger xsd:nonPositiveInteger
rdfs:subClassOf xsd:long : xsd:int
rdfs:subClassOf xsd:int : xsd:short
rdfs:subClassOf xsd:short : xsd:byte
rdfs:subClassOf xsd:nonNegativeInteger : xsd:positiveInteger xsd:unsignedLong
rdfs:subClassOf xsd:unsignedLong : xsd:unsignedInt
rdfs:subClassOf xsd:unsignedInt : xsd:unsignedShort
rdfs:subClassOf xsd:unsignedShort : xsd:unsignedByte
rdfs:subClassOf xsd:nonPositiveInteger : xsd:negativeInteger
rdfs:subClassOf xsd:string : xsd:normalizedString
rdfs:subClassOf xsd:normalizedString : xsd:token
rdfs:subClassOf xsd:token : xsd:language xsd:Name xsd:NMTOKEN
rdfs:subClassOf xsd:Name : xsd:NCName
rdfs:subClassOf xsd:dateTime : xsd:dateTimeStamp
""")

OWL = _t("""
rdf:type rdfs:Class : owl:AllDifferent owl:AllDisjointClasses owl:AllDisjointProperties owl:Annotation owl:AnnotationProperty owl:AsymmetricProperty
    owl:Class rdfs:Datatype owl:DatatypeProperty owl:DeprecatedClass owl:DeprecatedProperty owl:FunctionalProperty owl:InverseFunctionalProperty
    owl:IrreflexiveProperty owl:NegativePropertyAssertion owl:Nothing owl:ObjectProperty owl:Ontology owl:OntologyProperty rdf:Property
    owl:ReflexiveProperty owl:Restriction owl:SymmetricProperty owl:Thing owl:TransitiveProperty
rdfs:subClassOf rdfs:Resource : owl:AllDifferent owl:AllDisjointClasses owl:AllDisjointProperties owl:Annotation owl:NegativePropertyAssertion
    owl:Ontology owl:Thing
rdfs:subClassOf rdf:Property : owl:AnnotationProperty owl:AsymmetricProperty owl:DatatypeProperty owl:DeprecatedProperty owl:FunctionalProperty
    owl:InverseFunctionalProperty owl:IrreflexiveProperty owl:OntologyProperty owl:ReflexiveProperty owl:SymmetricProperty owl:TransitiveProperty
owl:equivalentClass rdfs:Class : owl:Class
rdfs:subClassOf rdfs:Class : owl:DeprecatedClass owl:Restriction
rdf:type rdfs:Datatype : rdfs:Literal
rdfs:subClassOf owl:Thing : owl:Nothing
owl:equivalentClass rdf:Property : owl:ObjectProperty
rdf:type owl:Class : owl:AllDisjointProperties owl:AllDisjointClasses owl:Annotation owl:AsymmetricProperty owl:Axiom owl:DataRange rdfs:Datatype
    owl:DatatypeProperty owl:DeprecatedClass owl:DeprecatedProperty owl:FunctionalProperty owl:InverseFunctionalProperty owl:IrreflexiveProperty
    owl:NamedIndividual owl:NegativePropertyAssertion owl:Nothing owl:ObjectProperty owl:Ontology owl:OntologyProperty rdf:Property owl:ReflexiveProperty
    owl:Restriction owl:SymmetricProperty owl:Thing owl:TransitiveProperty
rdfs:subClassOf owl:Class : owl:DeprecatedClass owl:Restriction
rdf:type rdf:Property : owl:allValuesFrom owl:assertionProperty owl:complementOf owl:differentFrom owl:disjointWith owl:distinctMembers
    owl:equivalentClass owl:equivalentProperty owl:hasKey owl:hasValue owl:intersectionOf owl:inverseOf owl:maxCardinality owl:maxQualifiedCardinality
    owl:members owl:onClass owl:onDatatype owl:oneOf owl:onProperty owl:propertyChainAxiom owl:sameAs owl:someValuesFrom owl:sourceIndividual
    owl:targetIndividual owl:targetValue owl:unionOf owl:withRestrictions
rdfs:domain owl:Restriction : owl:allValuesFrom owl:hasValue owl:maxCardinality owl:maxQualifiedCardinality owl:onClass owl:onProperty
    owl:someValuesFrom
rdfs:range rdfs:Class : owl:allValuesFrom owl:complementOf owl:disjointWith owl:equivalentClass owl:onClass owl:someValuesFrom
rdfs:domain owl:NegativePropertyAssertion : owl:assertionProperty owl:sourceIndividual owl:targetIndividual owl:targetValue
rdfs:range rdf:Property : owl:assertionProperty owl:equivalentProperty owl:inverseOf owl:onProperty
rdf:type owl:OntologyProperty : owl:backwardCompatibleWith owl:imports owl:incompatibleWith owl:priorVersion
rdf:type owl:AnnotationProperty : owl:backwardCompatibleWith rdfs:comment owl:deprecated owl:incompatibleWith rdfs:isDefinedBy rdfs:label
    owl:priorVersion rdfs:seeAlso owl:versionInfo owl:versionIRI
rdfs:domain owl:Ontology : owl:backwardCompatibleWith owl:imports owl:incompatibleWith owl:priorVersion
rdfs:range owl:Ontology : owl:backwardCompatibleWith owl:imports owl:incompatibleWith owl:priorVersion
rdfs:domain rdfs:Resource : rdfs:comment owl:deprecated owl:differentFrom rdfs:isDefinedBy rdfs:label owl:members owl:sameAs rdfs:seeAlso
    owl:versionInfo owl:versionIRI
rdfs:range rdfs:Literal : rdfs:comment rdfs:label owl:targetValue
rdfs:domain rdfs:Class : owl:complementOf owl:disjointWith owl:equivalentClass owl:hasKey owl:intersectionOf owl:oneOf owl:unionOf
rdfs:range rdfs:Resource : owl:deprecated owl:differentFrom owl:hasValue rdfs:isDefinedBy owl:sameAs rdfs:seeAlso owl:sourceIndividual
    owl:targetIndividual owl:versionInfo owl:versionIRI
rdfs:domain owl:AllDifferent : owl:distinctMembers
rdfs:range rdf:List : owl:distinctMembers owl:hasKey owl:intersectionOf owl:members owl:oneOf owl:propertyChainAxiom owl:unionOf owl:withRestrictions
rdfs:domain rdf:Property : owl:equivalentProperty owl:inverseOf owl:propertyChainAxiom
rdfs:range xsd:nonNegativeInteger : owl:maxCardinality owl:maxQualifiedCardinality
rdfs:domain rdfs:Datatype : owl:onDatatype owl:withRestrictions
rdfs:range rdfs:Datatype : owl:onDatatype
rdfs:range owl:Class : owl:allValuesFrom owl:complementOf owl:disjointWith owl:equivalentClass owl:onClass owl:someValuesFrom
rdfs:domain owl:Class : owl:complementOf owl:disjointUnionOf owl:disjointWith owl:equivalentClass owl:hasKey owl:intersectionOf owl:oneOf owl:unionOf
rdfs:domain owl:DataRange : owl:onDatatype
rdfs:range owl:DataRange : owl:onDatatype
""")

OWL_D = _t("""
rdf:type rdfs:Datatype : rdf:PlainLiteral
rdfs:subClassOf rdf:PlainLiteral : xsd:string xsd:normalizedString xsd:token xsd:Name xsd:NCName xsd:NMTOKEN
""")

# of the self restrictions
EXT = _t("""
rdf:type rdf:Property : owl:hasSelf
rdfs:domain owl:Restriction : owl:hasSelf
""")

CONTAINER = [("rdf:type", "rdf:Property"), ("rdfs:domain", "rdfs:Resource"), ("rdfs:range", "rdfs:Resource"), ("rdf:type", "rdfs:ContainerMembershipProperty")]
