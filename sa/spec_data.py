"""Reference data, written from the W3C documents: the datatypes of OWL 2 RL, their hierarchy, the disjoint primitive datatypes."""
from .spec import iri

DATATYPES = [iri(x) for x in (
    "xsd:integer xsd:decimal xsd:nonNegativeInteger xsd:nonPositiveInteger xsd:negativeInteger xsd:positiveInteger xsd:long xsd:int xsd:short xsd:byte "
    "xsd:unsignedLong xsd:unsignedInt xsd:unsignedShort xsd:unsignedByte xsd:float xsd:double xsd:string xsd:normalizedString xsd:token xsd:language "
    "xsd:Name xsd:NCName xsd:NMTOKEN xsd:boolean xsd:hexBinary xsd:base64Binary xsd:anyURI xsd:dateTimeStamp xsd:dateTime xsd:time xsd:date "
    "rdfs:Literal rdf:XMLLiteral rdf:HTML rdf:langString rdf:PlainLiteral").split()]

# immediate supertypes (XML Schema 1.1 part 2, section 3)
_PARENT = {
    "dateTimeStamp": "dateTime", "integer": "decimal", "long": "integer", "int": "long", "short": "int", "byte": "short",
    "nonNegativeInteger": "integer", "positiveInteger": "nonNegativeInteger", "unsignedLong": "nonNegativeInteger", "unsignedInt": "unsignedLong",
    "unsignedShort": "unsignedInt", "unsignedByte": "unsignedShort", "nonPositiveInteger": "integer", "negativeInteger": "nonPositiveInteger",
    "normalizedString": "string", "token": "normalizedString", "language": "token", "Name": "token", "NCName": "Name", "NMTOKEN": "token",
}
PARENT = {iri("xsd:" + k): iri("xsd:" + v) for k, v in _PARENT.items()}


def supertypes(d):
    out = []
    while d in PARENT:
        d = PARENT[d]
        out.append(d)
    return out


SUBSUMPTION = [(d, s) for d in PARENT for s in supertypes(d)]

_PRIMITIVE = [iri(x) for x in (
    "xsd:anyURI xsd:base64Binary xsd:boolean xsd:dateTime xsd:decimal xsd:double xsd:float xsd:hexBinary xsd:string rdf:PlainLiteral rdf:XMLLiteral").split()]
# every string is a plain literal
DISJOINT = [(a, b) for i, a in enumerate(_PRIMITIVE) for b in _PRIMITIVE[i + 1:] if {repr(a), repr(b)} != {"xsd:string", "rdf:PlainLiteral"}]
BINDING = [("owl:Thing", "owl:equivalentClass", "rdfs:Resource"), ("rdfs:Class", "owl:equivalentClass", "owl:Class"),
           ("owl:DataRange", "owl:equivalentClass", "rdfs:Datatype")]
