"""Reference models of the closures: W3C OWL 2 RL/RDF rules, RDFS entailment rules, and this package's documented
combination and extension of them.  Written from the W3C documents; shares no code or table with owlrl.

    Model(kind, rdfs=..., axioms=..., daxioms=...).expected(triples) -> Expected
"""
import functools
import re

from rdflib import BNode, Literal, URIRef

from . import lexical
from .axioms import AXIOMS
from .engine import Engine, LimitExceeded
from .terms import RDFN, U, short

# ------------------------------------------------------------------------------------------------ rules
OWL_RULES = """
eq-ref: ?s ?p ?o -> ?s owl:sameAs ?s . ?p owl:sameAs ?p . ?o owl:sameAs ?o
eq-sym: ?x owl:sameAs ?y -> ?y owl:sameAs ?x
eq-trans: ?x owl:sameAs ?y . ?y owl:sameAs ?z -> ?x owl:sameAs ?z
eq-rep-s: ?s owl:sameAs ?t . ?s ?p ?o -> ?t ?p ?o ; ne ?s ?t
eq-rep-p: ?p owl:sameAs ?q . ?s ?p ?o -> ?s ?q ?o ; ne ?p ?q
eq-rep-o: ?o owl:sameAs ?t . ?s ?p ?o -> ?s ?p ?t ; ne ?o ?t
prp-dom: ?p rdfs:domain ?c . ?x ?p ?y -> ?x rdf:type ?c
prp-rng: ?p rdfs:range ?c . ?x ?p ?y -> ?y rdf:type ?c
prp-fp: ?p rdf:type owl:FunctionalProperty . ?x ?p ?y . ?x ?p ?z -> ?y owl:sameAs ?z
prp-ifp: ?p rdf:type owl:InverseFunctionalProperty . ?x ?p ?y . ?z ?p ?y -> ?x owl:sameAs ?z
prp-symp: ?p rdf:type owl:SymmetricProperty . ?x ?p ?y -> ?y ?p ?x
prp-trp: ?p rdf:type owl:TransitiveProperty . ?x ?p ?y . ?y ?p ?z -> ?x ?p ?z
prp-spo1: ?p rdfs:subPropertyOf ?q . ?x ?p ?y -> ?x ?q ?y
prp-eqp1: ?p owl:equivalentProperty ?q . ?x ?p ?y -> ?x ?q ?y
prp-eqp2: ?p owl:equivalentProperty ?q . ?x ?q ?y -> ?x ?p ?y
prp-inv1: ?p owl:inverseOf ?q . ?x ?p ?y -> ?y ?q ?x
prp-inv2: ?p owl:inverseOf ?q . ?x ?q ?y -> ?y ?p ?x
cls-svf1: ?c owl:someValuesFrom ?d . ?c owl:onProperty ?p . ?u ?p ?v . ?v rdf:type ?d -> ?u rdf:type ?c
cls-svf2: ?c owl:someValuesFrom owl:Thing . ?c owl:onProperty ?p . ?u ?p ?v -> ?u rdf:type ?c
cls-avf: ?c owl:allValuesFrom ?d . ?c owl:onProperty ?p . ?u rdf:type ?c . ?u ?p ?v -> ?v rdf:type ?d ; ok ?v ?d
cls-hv1: ?c owl:hasValue ?v . ?c owl:onProperty ?p . ?u rdf:type ?c -> ?u ?p ?v
cls-hv2: ?c owl:hasValue ?v . ?c owl:onProperty ?p . ?u ?p ?v -> ?u rdf:type ?c
cax-sco: ?c rdfs:subClassOf ?d . ?x rdf:type ?c -> ?x rdf:type ?d
cax-eqc1: ?c owl:equivalentClass ?d . ?x rdf:type ?c -> ?x rdf:type ?d
cax-eqc2: ?c owl:equivalentClass ?d . ?x rdf:type ?d -> ?x rdf:type ?c
scm-cls: ?c rdf:type owl:Class -> ?c rdfs:subClassOf ?c . ?c owl:equivalentClass ?c . ?c rdfs:subClassOf owl:Thing . owl:Nothing rdfs:subClassOf ?c
scm-sco: ?c rdfs:subClassOf ?d . ?d rdfs:subClassOf ?e -> ?c rdfs:subClassOf ?e
scm-eqc1: ?c owl:equivalentClass ?d -> ?c rdfs:subClassOf ?d . ?d rdfs:subClassOf ?c
scm-eqc2: ?c rdfs:subClassOf ?d . ?d rdfs:subClassOf ?c -> ?c owl:equivalentClass ?d
scm-op: ?p rdf:type owl:ObjectProperty -> ?p rdfs:subPropertyOf ?p . ?p owl:equivalentProperty ?p
scm-dp: ?p rdf:type owl:DatatypeProperty -> ?p rdfs:subPropertyOf ?p . ?p owl:equivalentProperty ?p
scm-prop: ?p rdf:type rdf:Property -> ?p rdfs:subPropertyOf ?p . ?p owl:equivalentProperty ?p
scm-spo: ?p rdfs:subPropertyOf ?q . ?q rdfs:subPropertyOf ?r -> ?p rdfs:subPropertyOf ?r
scm-eqp1: ?p owl:equivalentProperty ?q -> ?p rdfs:subPropertyOf ?q . ?q rdfs:subPropertyOf ?p
scm-eqp2: ?p rdfs:subPropertyOf ?q . ?q rdfs:subPropertyOf ?p -> ?p owl:equivalentProperty ?q
scm-dom1: ?p rdfs:domain ?c . ?c rdfs:subClassOf ?d -> ?p rdfs:domain ?d
scm-dom2: ?q rdfs:domain ?c . ?p rdfs:subPropertyOf ?q -> ?p rdfs:domain ?c
scm-rng1: ?p rdfs:range ?c . ?c rdfs:subClassOf ?d -> ?p rdfs:range ?d
scm-rng2: ?q rdfs:range ?c . ?p rdfs:subPropertyOf ?q -> ?p rdfs:range ?c
scm-hv: ?c owl:hasValue ?i . ?c owl:onProperty ?p . ?d owl:hasValue ?i . ?d owl:onProperty ?q . ?p rdfs:subPropertyOf ?q -> ?c rdfs:subClassOf ?d
scm-svf1: ?c owl:someValuesFrom ?y . ?c owl:onProperty ?p . ?d owl:someValuesFrom ?z . ?d owl:onProperty ?p . ?y rdfs:subClassOf ?z -> ?c rdfs:subClassOf ?d
scm-svf2: ?c owl:someValuesFrom ?y . ?c owl:onProperty ?p . ?d owl:someValuesFrom ?y . ?d owl:onProperty ?q . ?p rdfs:subPropertyOf ?q -> ?c rdfs:subClassOf ?d
scm-avf1: ?c owl:allValuesFrom ?y . ?c owl:onProperty ?p . ?d owl:allValuesFrom ?z . ?d owl:onProperty ?p . ?y rdfs:subClassOf ?z -> ?c rdfs:subClassOf ?d
scm-avf2: ?c owl:allValuesFrom ?y . ?c owl:onProperty ?p . ?d owl:allValuesFrom ?y . ?d owl:onProperty ?q . ?p rdfs:subPropertyOf ?q -> ?d rdfs:subClassOf ?c
"""

RDFS_RULES = """
rdf1: ?s ?p ?o -> ?p rdf:type rdf:Property
rdfs2: ?p rdfs:domain ?c . ?x ?p ?y -> ?x rdf:type ?c
rdfs3: ?p rdfs:range ?c . ?x ?p ?y -> ?y rdf:type ?c
rdfs4: ?s ?p ?o -> ?s rdf:type rdfs:Resource . ?o rdf:type rdfs:Resource
rdfs5: ?p rdfs:subPropertyOf ?q . ?q rdfs:subPropertyOf ?r -> ?p rdfs:subPropertyOf ?r
rdfs6: ?p rdf:type rdf:Property -> ?p rdfs:subPropertyOf ?p
rdfs7: ?p rdfs:subPropertyOf ?q . ?x ?p ?y -> ?x ?q ?y
rdfs8: ?c rdf:type rdfs:Class -> ?c rdfs:subClassOf rdfs:Resource
rdfs9: ?c rdfs:subClassOf ?d . ?x rdf:type ?c -> ?x rdf:type ?d
rdfs10: ?c rdf:type rdfs:Class -> ?c rdfs:subClassOf ?c
rdfs11: ?c rdfs:subClassOf ?d . ?d rdfs:subClassOf ?e -> ?c rdfs:subClassOf ?e
rdfs12: ?p rdf:type rdfs:ContainerMembershipProperty -> ?p rdfs:subPropertyOf rdfs:member
rdfs13: ?d rdf:type rdfs:Datatype -> ?d rdfs:subClassOf rdfs:Literal
"""

SELF_RULES = """
self1: ?c owl:hasSelf ?b . ?c owl:onProperty ?p . ?x rdf:type ?c -> ?x ?p ?x
self2: ?c owl:hasSelf ?b . ?c owl:onProperty ?p . ?x ?p ?x -> ?x rdf:type ?c
"""


def _lines(t):
    return [l for l in t.strip().split("\n") if l]


# ------------------------------------------------------------------------------------------------ rules over lists
def _heads(F, pred):
    return list(F.P.get(F.c(pred), ()))


def lr_chain(F):
    for p, x in _heads(F, "owl:propertyChainAxiom"):
        for seq in F.sequences(x):
            if not seq:
                continue
            rel = set(F.P.get(seq[0], ()))
            for q in seq[1:]:
                rel = {(a, c) for a, b in rel for c in F.objects(b, q)}
            for a, b in rel:
                F.add(a, p, b, "prp-spo2")


def lr_key(F):
    ty, same = F.c("rdf:type"), F.c("owl:sameAs")
    for c, u in _heads(F, "owl:hasKey"):
        inst = list(F.subjects(ty, c))
        for seq in F.sequences(u):
            if not seq:
                continue
            for i, x in enumerate(inst):
                for y in inst[i + 1:]:
                    if (x, same, y) not in F.T and all(set(F.objects(x, k)) & set(F.objects(y, k)) for k in seq):
                        F.add(x, same, y, "prp-key")


def lr_int(F):
    ty, sco = F.c("rdf:type"), F.c("rdfs:subClassOf")
    for c, x in _heads(F, "owl:intersectionOf"):
        for seq in F.sequences(x):
            if seq:
                for y in list(F.subjects(ty, seq[0])):
                    if all((y, ty, k) in F.T for k in seq[1:]):
                        F.add(y, ty, c, "cls-int1")
            for k in seq:
                for y in list(F.subjects(ty, c)):
                    F.add(y, ty, k, "cls-int2")
                F.add(c, sco, k, "scm-int")


def lr_uni(F):
    ty, sco = F.c("rdf:type"), F.c("rdfs:subClassOf")
    for c, x in _heads(F, "owl:unionOf"):
        for seq in F.sequences(x):
            for k in seq:
                for y in list(F.subjects(ty, k)):
                    F.add(y, ty, c, "cls-uni")
                F.add(k, sco, c, "scm-uni")


def lr_oo(F):
    ty = F.c("rdf:type")
    for c, x in _heads(F, "owl:oneOf"):
        for seq in F.sequences(x):
            for k in seq:
                F.add(k, ty, c, "cls-oo")


class UnclaimedCardinality(LimitExceeded):
    """A maximal cardinality that is not an integer, or not a valid one, but looks like 0 or 1."""


def cardinality(term):
    """0, 1 or None (no rule applies)."""
    if isinstance(term, Literal) and term.datatype is not None:
        v = lexical.value(str(term), term.datatype)
        d = short(term.datatype)
        if v and v[0] == "decimal" and v[1] in (0, 1) and d != "owl:rational":
            return int(v[1])
        if (d in NUMERIC or d not in SUPPORTED) and re.fullmatch(r"\s*[+-]?0*[01]?\.?0*([eE][+-]?[0-9]+)?\s*|.*/.*", str(term)):
            raise UnclaimedCardinality()
    return None


def lr_maxc(F):
    ty, same, onp, onc, thing = (F.c(x) for x in ("rdf:type", "owl:sameAs", "owl:onProperty", "owl:onClass", "owl:Thing"))
    for c, n in _heads(F, "owl:maxCardinality"):
        if cardinality(F.terms[n]) == 1:
            for p in F.objects(c, onp):
                for u in list(F.subjects(ty, c)):
                    ys = list(F.objects(u, p))
                    for y in ys:
                        for z in ys:
                            F.add(y, same, z, "cls-maxc2")
    for c, n in _heads(F, "owl:maxQualifiedCardinality"):
        if cardinality(F.terms[n]) == 1:
            for p in F.objects(c, onp):
                for d in F.objects(c, onc):
                    for u in list(F.subjects(ty, c)):
                        ys = [y for y in F.objects(u, p) if d == thing or (y, ty, d) in F.T]
                        for y in ys:
                            for z in ys:
                                F.add(y, same, z, "cls-maxqc4" if d == thing else "cls-maxqc3")


LIST_RULES = [lr_chain, lr_key, lr_int, lr_uni, lr_oo, lr_maxc]

# ------------------------------------------------------------------------------------------------ datatypes
PARENT = {
    k.strip(): v.strip()
    for k, v in (
        l.split("<")
        for l in """
xsd:dateTimeStamp < xsd:dateTime
xsd:integer < xsd:decimal
xsd:long < xsd:integer
xsd:int < xsd:long
xsd:short < xsd:int
xsd:byte < xsd:short
xsd:nonNegativeInteger < xsd:integer
xsd:positiveInteger < xsd:nonNegativeInteger
xsd:unsignedLong < xsd:nonNegativeInteger
xsd:unsignedInt < xsd:unsignedLong
xsd:unsignedShort < xsd:unsignedInt
xsd:unsignedByte < xsd:unsignedShort
xsd:nonPositiveInteger < xsd:integer
xsd:negativeInteger < xsd:nonPositiveInteger
xsd:normalizedString < xsd:string
xsd:token < xsd:normalizedString
xsd:language < xsd:token
xsd:Name < xsd:token
xsd:NCName < xsd:Name
xsd:NMTOKEN < xsd:token
""".strip().split("\n")
    )
}
NUMERIC = {"xsd:decimal", "xsd:double", "xsd:float"} | {k for k in PARENT if k in lexical.INT_RANGE}
SUPPORTED = set(PARENT) | {
    "xsd:decimal", "xsd:float", "xsd:double", "xsd:string", "xsd:boolean", "xsd:hexBinary", "xsd:base64Binary",
    "xsd:anyURI", "xsd:dateTime", "xsd:time", "xsd:date", "rdfs:Literal", "rdf:XMLLiteral", "rdf:HTML",
    "rdf:langString", "rdf:PlainLiteral",
}
_TOP = ["xsd:anyURI", "xsd:base64Binary", "xsd:boolean", "xsd:dateTime", "xsd:decimal", "xsd:double", "xsd:float",
        "xsd:hexBinary", "xsd:string", "rdf:PlainLiteral", "rdf:XMLLiteral"]
DISJOINT = [(a, b) for i, a in enumerate(_TOP) for b in _TOP[i + 1:]
            if not (b == "rdf:PlainLiteral" and a == "xsd:string") and (a, b) != ("rdf:PlainLiteral", "rdf:XMLLiteral")]
ANNOTATION = ["rdfs:label", "rdfs:comment", "rdfs:seeAlso", "rdfs:isDefinedBy", "owl:deprecated", "owl:versionInfo",
              "owl:priorVersion", "owl:backwardCompatibleWith", "owl:incompatibleWith"]
BINDING = [("owl:Thing", "owl:equivalentClass", "rdfs:Resource"), ("rdfs:Class", "owl:equivalentClass", "owl:Class"),
           ("owl:DataRange", "owl:equivalentClass", "rdfs:Datatype")]


def ancestors(d, extension=False):
    out = []
    while True:
        d = PARENT.get(d) or ("owl:rational" if extension and d == "xsd:decimal" else None)
        if d is None:
            return out
        out.append(d)


def _native_datatypes(extension):
    sup = set(SUPPORTED) | ({"owl:rational"} if extension else set())
    up = {U(d): [U(a) for a in ancestors(d, extension)] for d in sup}
    dis = [(U(a), U(b)) for a, b in DISJOINT]
    tops = {x for p in dis for x in p}
    tyi, dtti, disi = None, None, None

    def fire(F, s, p, o):
        cache = F.__dict__.setdefault("dtcache", {})
        if o in cache:
            sups = cache[o]
        else:
            extra = getattr(F, "extra_up", {}).get(F.terms[o])
            t = F.terms[o]
            if t in up:
                sups = [F.tid(x) for x in up[t]]
            elif extra:
                sups = [F.tid(x) for x in extra]
            else:
                sups = None
            cache[o] = sups
            if sups is not None:
                used = F.__dict__.setdefault("dtused", set())
                for x in [t] + [F.terms[i] for i in sups]:
                    if x in tops and x not in used:
                        used.add(x)
                        for a, b in dis:
                            if a in used and b in used and x in (a, b):
                                F.add(F.tid(a), F.c("owl:disjointWith"), F.tid(b), "dt-disjoint")
        if sups is not None:
            for x in sups:
                F.add(s, p, x, "dt-subsumption")
        fac = getattr(F, "facets", None)
        if fac and F.lit[s]:
            for rt in fac.get(F.terms[o], ()):
                if F.fits(F.terms[s], rt):
                    F.add(s, p, F.tid(rt), "facets")

    return ("rdf:type", fire)


# ------------------------------------------------------------------------------------------------ engines
@functools.lru_cache(8)
def engine(kind, rdfs, more=()):
    """more: further rules (of user-defined closure classes)"""
    if kind == "rdfs":
        return Engine(_lines(RDFS_RULES) + list(more))
    rules = _lines(OWL_RULES) + list(more)
    if kind == "combined" or (kind == "extension" and rdfs):
        rules += _lines(RDFS_RULES)
    if kind == "extension":
        rules += _lines(SELF_RULES)
    return Engine(rules, LIST_RULES, [_native_datatypes(kind == "extension")])


# ------------------------------------------------------------------------------------------------ inconsistencies
class Clash:
    """One way a 'false' rule fires: group of rules sharing one report, and the names that have to be in the text."""

    __slots__ = ("group", "names", "listed")

    def __init__(self, group, names, listed=()):
        self.group, self.names, self.listed = group, tuple(names), frozenset(listed)

    def key(self):
        return (self.group, self.names)


def clashes(F):
    """All ways the OWL 2 RL 'false' rules fire on the closed facts (term ids resolved)."""
    c = F.c
    ty, same = c("rdf:type"), c("owl:sameAs")
    onp, onc, thing = c("owl:onProperty"), c("owl:onClass"), c("owl:Thing")
    out = []
    seen = set()
    T = F.terms

    def add(group, rule, names, listed=()):
        k = (group, tuple(names))
        if k in seen:
            return
        seen.add(k)
        F.fired[rule] += 1
        out.append(Clash(group, [T[n] for n in names], listed))

    for a, b in F.P.get(same, ()):
        if F.has(a, c("owl:differentFrom"), b) or F.has(b, c("owl:differentFrom"), a):
            add("eq-diff1", "eq-diff1", (a, b))
    for x in F.subjects(ty, c("owl:AllDifferent")):
        for pr, rule in (("owl:members", "eq-diff2"), ("owl:distinctMembers", "eq-diff3")):
            for l in F.objects(x, c(pr)):
                for seq in F.sequences(l):
                    for i, a in enumerate(seq):
                        for b in seq[i + 1:]:
                            if F.has(a, same, b):
                                add("eq-diff2", rule, (a, b), (0, 1))
    for p in F.subjects(ty, c("owl:IrreflexiveProperty")):
        for x, y in F.P.get(p, ()):
            if x == y:
                add("prp-irp", "prp-irp", (x, p))
    for p in F.subjects(ty, c("owl:AsymmetricProperty")):
        for x, y in F.P.get(p, ()):
            if F.has(y, p, x):
                add("prp-asyp", "prp-asyp", (p, x, y))
    for p, q in F.P.get(c("owl:propertyDisjointWith"), ()):
        for x, y in F.P.get(p, ()):
            if F.has(x, q, y):
                add("prp-pdw", "prp-pdw", (p, q, x, y))
    for x in F.subjects(ty, c("owl:AllDisjointProperties")):
        for l in F.objects(x, c("owl:members")):
            for seq in F.sequences(l):
                for i, p in enumerate(seq):
                    for q in seq[i + 1:]:
                        for u, v in F.P.get(p, ()):
                            if F.has(u, q, v):
                                add("prp-adp", "prp-adp", (p, q, u, v), (0, 1))
    for pr, rule in (("owl:targetIndividual", "prp-npa1"), ("owl:targetValue", "prp-npa2")):
        for x, i2 in F.P.get(c(pr), ()):
            for i1 in F.objects(x, c("owl:sourceIndividual")):
                for p in F.objects(x, c("owl:assertionProperty")):
                    if F.has(i1, p, i2):
                        add(rule, rule, (i1, p, i2))
    for x in F.subjects(ty, c("owl:Nothing")):
        add("cls-nothing2", "cls-nothing2", (x,))
    for a, b in F.P.get(c("owl:complementOf"), ()):
        for x in F.subjects(ty, a):
            if F.has(x, ty, b):
                add("cls-com", "cls-com", (a, b, x))
    for r, n in F.P.get(c("owl:maxCardinality"), ()):
        if cardinality(T[n]) == 0:
            for p in F.objects(r, onp):
                for u in F.subjects(ty, r):
                    for y in F.objects(u, p):
                        add("cls-maxc1", "cls-maxc1", (r, y))
    for r, n in F.P.get(c("owl:maxQualifiedCardinality"), ()):
        if cardinality(T[n]) == 0:
            for p in F.objects(r, onp):
                for d in F.objects(r, onc):
                    for u in F.subjects(ty, r):
                        for y in F.objects(u, p):
                            if d == thing or F.has(y, ty, d):
                                add("cls-maxqc", "cls-maxqc2" if d == thing else "cls-maxqc1", (r, d, y))
    for a, b in F.P.get(c("owl:disjointWith"), ()):
        for x in F.subjects(ty, a):
            if F.has(x, ty, b):
                add("cax-dw", "cax-dw", (a, b, x))
    for x in F.subjects(ty, c("owl:AllDisjointClasses")):
        for l in F.objects(x, c("owl:members")):
            for seq in F.sequences(l):
                for i, a in enumerate(seq):
                    for b in seq[i + 1:]:
                        for z in F.subjects(ty, a):
                            if F.has(z, ty, b):
                                add("cax-dw", "cax-adc", (a, b, z), (0, 1))
    return out


# ------------------------------------------------------------------------------------------------ the model
class Expected:
    def __init__(self, model, facts, kept, clash):
        self.model, self.facts, self.triples, self.clashes = model, facts, kept, clash
        self.fired = facts.fired

    def why(self, t):
        return self.facts.why(t)


class Model:
    """kind: rdfs | owl | combined | extension.  `facet_rule` (extension only): callable adding facet knowledge."""

    def __init__(self, kind, rdfs=False, axioms=False, daxioms=False, facets=None, more=()):
        """facets: restricted datatype -> (base datatype, function(literal) -> whether its value fits)"""
        self.facets = facets or {}
        self.more = tuple(more)
        self.kind = kind
        self.rdfs = kind == "combined" or rdfs and kind not in ("rdfs", "owl")
        self.axioms, self.daxioms = axioms, daxioms

    def axiom_triples(self, triples):
        out = []
        with_rdfs = self.kind == "rdfs" or self.rdfs
        if self.axioms:
            if with_rdfs:
                out += AXIOMS["rdfs"]
                for p in {t[1] for t in triples}:
                    if isinstance(p, URIRef) and re.fullmatch(re.escape(RDFN) + "_[1-9][0-9]*", str(p)):
                        out += [(p, U("rdf:type"), U("rdf:Property")), (p, U("rdfs:domain"), U("rdfs:Resource")),
                                (p, U("rdfs:range"), U("rdfs:Resource")),
                                (p, U("rdf:type"), U("rdfs:ContainerMembershipProperty"))]
            if self.kind != "rdfs":
                out += AXIOMS["owl"]
            if self.kind == "extension":
                out += AXIOMS["extension"]
        if self.daxioms:
            if with_rdfs:
                out += AXIOMS["rdfs-d"]
                out += [(o, U("rdf:type"), URIRef(o.datatype)) for _, _, o in triples
                        if isinstance(o, Literal) and o.datatype is not None]
            if self.kind != "rdfs":
                out += AXIOMS["owl-d"]
        return out

    def onetime(self, triples):
        """Unconditional conclusions of the OWL closures."""
        out = [(U("owl:Thing"), U("rdf:type"), U("owl:Class")), (U("owl:Nothing"), U("rdf:type"), U("owl:Class"))]
        out += [(U(a), U("rdf:type"), U("owl:AnnotationProperty")) for a in ANNOTATION]
        sup = set(SUPPORTED)
        if self.kind == "extension":
            sup.add("owl:rational")
        out += [(U(d), U("rdf:type"), U("rdfs:Datatype")) for d in sup]
        sup = {U(d) for d in sup}
        for _, _, o in triples:
            if isinstance(o, Literal) and o.datatype in sup:
                out.append((o, U("rdf:type"), URIRef(o.datatype)))
        if self.kind in ("combined", "extension"):
            out += [tuple(U(x) for x in t) for t in BINDING]
        return out

    def _setup(self, F):
        by_base, up = {}, {}
        for rt, (base, fits) in self.facets.items():
            by_base.setdefault(base, []).append(rt)
            b = short(base)
            up[rt] = [base] + [U(a) for a in ancestors(b, True)]
        F.facets, F.extra_up, F.unfit = by_base, up, set()
        F.fits = lambda lit, rt: self.facets[rt][1](lit)

        def guard(v, d):
            rt = F.terms[d]
            if rt in self.facets and F.lit[v] and not F.fits(F.terms[v], rt):
                F.unfit.add((F.terms[v], rt))
                return False
            return True

        F.guard = guard

    def expected(self, triples, extra=(), limit=400000):
        """extra: further conclusions known to hold (facets)."""
        triples = list(triples)
        seeds = triples + self.axiom_triples(triples) + list(extra)
        if self.kind == "rdfs":
            seeds = lexical.exchange(seeds)
            F = engine("rdfs", True, self.more).run(seeds, limit)
            return Expected(self, F, F.triples(), [])
        seeds = seeds + self.onetime(seeds)
        F = engine(self.kind, self.rdfs, self.more).run(seeds, limit, self._setup if self.facets else None)
        cl = clashes(F)
        for v, d in getattr(F, "unfit", ()):
            cl.append(Clash("facets", (v, d)))
            F.fired["avf-facets"] += 1
        sup = {U(d) for d in SUPPORTED} | ({U("owl:rational")} if self.kind == "extension" else set())
        for lt in {o for _, _, o in seeds if isinstance(o, Literal)}:
            if lt.datatype in sup and lexical.valid(str(lt), URIRef(lt.datatype)) is False:
                cl.append(Clash("dt-not-type", (lt, URIRef(lt.datatype))))
                F.fired["dt-not-type"] += 1
        kept = {t for t in F.triples() if not isinstance(t[1], BNode)}
        return Expected(self, F, kept, cl)
