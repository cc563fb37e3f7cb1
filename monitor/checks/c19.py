import sys

from rdflib import BNode, Graph, Literal, URIRef

from monitor.common import *
from monitor import facets as FA, gen as G, mixed
from monitor.real import Timeout, closure_class, expand
from monitor.store import DoesNotStop, MonitoredStore
from monitor.terms import *

RULE = ("hostile graphs: random triples over user terms and the whole vocabulary in every position, and broken uses of every construct (cyclic, open, forked, shared and "
        "self-containing lists, literals and vocabulary where classes, properties, lists or numbers belong, malformed cardinalities, restricted datatypes with "
        "missing, unknown, cyclic or several bases and malformed facets, redefined vocabulary, ill-typed and extreme literals, long lists), all closure classes and options; "
        "no exception may come out and every cycle but the last has to add a triple (sizes recorded at the first rule call of each cycle); "
        "non-trivial: at least 2 cycles; distinct by graph, class, options")
BUDGET = {"quick": 1100, "thorough": 20000}
HOSTILE = ["soup", "list", "restriction", "datatype", "literals", "vocabulary", "containers", "long", "negative", "mixed"]
MIN = {"quick": dict({"shape " + h: 40 for h in HOSTILE}, **{"expansions": 700, "cycles monitored": 2500, "rdfs": 100, "owl": 250, "combined": 50, "extension": 80, "trimming": 40})}
MIN["thorough"] = MIN["quick"]
RDFV = ["type", "Property", "Statement", "subject", "predicate", "object", "first", "rest", "nil", "List", "value", "Bag", "Seq", "Alt", "_1", "_2", "XMLLiteral", "HTML",
        "langString", "PlainLiteral", "JSON", "CompoundLiteral", "langRange"]
RDFSV = ["Class", "Resource", "Literal", "Datatype", "subClassOf", "subPropertyOf", "domain", "range", "label", "comment", "seeAlso", "isDefinedBy", "member", "Container",
         "ContainerMembershipProperty"]
OWLV = ("AllDifferent AllDisjointClasses AllDisjointProperties Annotation AnnotationProperty AsymmetricProperty Axiom Class DataRange DatatypeProperty DeprecatedClass "
        "FunctionalProperty InverseFunctionalProperty IrreflexiveProperty NamedIndividual NegativePropertyAssertion Nothing ObjectProperty Ontology OntologyProperty "
        "ReflexiveProperty Restriction SymmetricProperty Thing TransitiveProperty allValuesFrom annotatedProperty assertionProperty backwardCompatibleWith "
        "bottomDataProperty bottomObjectProperty cardinality complementOf datatypeComplementOf deprecated differentFrom disjointUnionOf disjointWith distinctMembers "
        "equivalentClass equivalentProperty hasKey hasSelf hasValue imports incompatibleWith intersectionOf inverseOf maxCardinality maxQualifiedCardinality members "
        "minCardinality minQualifiedCardinality onClass onDataRange onDatatype onProperties onProperty oneOf priorVersion propertyChainAxiom propertyDisjointWith "
        "qualifiedCardinality sameAs someValuesFrom sourceIndividual targetIndividual targetValue topDataProperty topObjectProperty unionOf versionIRI versionInfo "
        "withRestrictions rational real").split()
VOC = ["rdf:" + x for x in RDFV] + ["rdfs:" + x for x in RDFSV] + ["owl:" + x for x in OWLV]
FACETS = ["xsd:minInclusive", "xsd:maxInclusive", "xsd:minExclusive", "xsd:maxExclusive", "xsd:length", "xsd:minLength", "xsd:maxLength", "xsd:pattern", "rdf:langRange",
          "xsd:totalDigits", "xsd:whiteSpace", "ex:facet"]
LISTED = ["owl:unionOf", "owl:intersectionOf", "owl:oneOf", "owl:propertyChainAxiom", "owl:hasKey", "owl:members", "owl:distinctMembers", "owl:withRestrictions",
          "owl:disjointUnionOf"]
ODD = [("1e999999", "xsd:double"), ("-1e-999999", "xsd:double"), ("1e999", "xsd:float"), ("NaN", "xsd:double"), ("INF", "xsd:float"), ("sNaN", "xsd:decimal"), ("NaN", "xsd:decimal"),
       ("1E+2", "xsd:decimal"), ("9" * 400, "xsd:integer"), ("9" * 5000, "xsd:integer"), ("9" * 5000, "xsd:byte"), ("9" * 5000, "xsd:decimal"), ("\u0661", "xsd:integer"),
       ("24:00:00", "xsd:time"), ("2020-01-01T24:00:00", "xsd:dateTime"), ("-0044-03-15", "xsd:date"), ("12020-01-01T00:00:00Z", "xsd:dateTime"), ("0000-01-01", "xsd:date"),
       ("0001-01-01T00:00:00+14:00", "xsd:dateTime"), ("9999-12-31T23:59:59-14:00", "xsd:dateTime"), ("", "xsd:date"), ("", "xsd:dateTime"), ("", "xsd:time"), ("", "xsd:boolean"),
       ("", "xsd:integer"), ("", "xsd:double"), ("", "rdf:XMLLiteral"), ("", "rdf:PlainLiteral"), ("<a", "rdf:XMLLiteral"), ("<!DOCTYPE a [<!ENTITY b 'c'>]><a>&b;</a>", "rdf:XMLLiteral"),
       ("<b", "rdf:HTML"), ("P1", "xsd:duration"), ("-P1Y", "xsd:duration"), ("P1Y", "xsd:dayTimeDuration"), ("x", "xsd:duration"), ("{", "rdf:JSON"), ("a", "rdf:langString"),
       ("\ud800", "xsd:string"), ("\x00", "xsd:string"), ("\x00", "xsd:hexBinary"), ("a" * 3000, "xsd:base64Binary"), ("x", "rdfs:Literal"), ("x", "rdfs:Resource"), ("x", "owl:Thing"),
       ("1/0", "owl:rational"), ("1/2", "owl:rational"), ("x", "owl:real"), ("--02-30", "xsd:gMonthDay"), ("-1", "xsd:gYear"), ("99999", "xsd:gYear"), ("---99", "xsd:gDay"),
       ("http://[", "xsd:anyURI"), ("http://[::1", "xsd:anyURI"), ("//", "xsd:anyURI"), ("a b", "xsd:anyURI"), ("http://ex.org:port/", "xsd:anyURI"), ("%", "xsd:anyURI"),
       ("x", "ex:dt0"), ("5", "ex:dt0"), ("x", "ex:dt1"), ("(", "xsd:string"), ("1" * 200000, "xsd:hexBinary")]
PATTERNS = ["(", "[", "*", "a{2", "(?P<", "\\", "a{99999999999}", "\\p{L}", "[a-z", "(?i)a", "", "a|b", "\\i\\c*", "[^", "+", "(a*)*b"]


class Gr:
    def __init__(self, rng):
        self.rng = rng
        self.T = []
        self.n = 0
        self.ind = [EX("i%d" % k) for k in range(3)] + [B("b%d" % k) for k in range(2)]
        self.cls = [EX("c%d" % k) for k in range(3)] + [B("r%d" % k) for k in range(2)]
        self.prop = [EX("p%d" % k) for k in range(3)]

    def odd(self):
        lex, dt = self.rng.choice(ODD)
        return L(lex, dt)

    def lit(self):
        r = self.rng.random()
        return self.odd() if r < 0.4 else mixed.literal(self.rng, 0.3)

    def voc(self):
        return U(self.rng.choice(VOC if self.rng.random() < 0.85 else ["xsd:" + x for x in ("integer", "string", "byte", "dateTime", "decimal", "anyType", "ID")]))

    def any(self, lit=0.15, voc=0.3):
        r = self.rng.random()
        if r < lit:
            return self.lit()
        if r < lit + voc:
            return self.voc()
        return self.rng.choice(self.ind + self.cls + self.prop)

    def subj(self, voc=0.15):
        return self.any(0, voc)

    def pred(self, voc=0.5):
        if self.rng.random() < voc:
            return self.voc()
        return self.rng.choice(self.prop) if self.rng.random() < 0.92 else self.rng.choice([B("b0"), EX("i0"), EX("c0")])

    def add(self, s, p, o):
        if isinstance(s, Literal) or isinstance(p, Literal):
            return
        self.T.append((s, p, o))

    def fresh(self):
        self.n += 1
        return B("l%d" % self.n)

    def hostile_list(self, members):
        """head of a list broken in some way"""
        rng = self.rng
        how = rng.choice(["ok", "cycle", "cycle", "self", "open", "norest", "nofirst", "twofirst", "tworest", "literal rest", "nil first", "iri", "contains itself", "nil rest", "shared", "rho"])
        if how == "iri":
            return rng.choice([self.any(), U("rdf:nil"), self.lit(), EX("nolist")])
        cells = [self.fresh() if rng.random() < 0.9 else EX("cell%d" % k) for k in range(max(1, len(members)))]
        F, R, NIL = U("rdf:first"), U("rdf:rest"), U("rdf:nil")
        for k, c in enumerate(cells):
            m = members[k] if k < len(members) else self.any()
            if not (how == "nofirst" and rng.random() < 0.5):
                self.add(c, F, m)
            if how == "twofirst" and rng.random() < 0.6:
                self.add(c, F, self.any())
            if k + 1 < len(cells):
                if not (how == "norest" and rng.random() < 0.5):
                    self.add(c, R, cells[k + 1])
                if how == "tworest" and rng.random() < 0.6:
                    self.add(c, R, rng.choice([cells[0], NIL, self.fresh(), c]))
        last = cells[-1]
        if how == "cycle":
            self.add(last, R, cells[0])
        elif how == "self":
            self.add(last, R, last)
        elif how == "rho":
            self.add(last, R, rng.choice(cells))
        elif how == "literal rest":
            self.add(last, R, self.lit())
        elif how in ("open", "norest"):
            pass
        elif how == "nil rest":
            self.add(last, R, NIL)
            self.add(NIL, R, rng.choice([NIL, cells[0]]))
            self.add(NIL, F, self.any())
        else:
            self.add(last, R, NIL)
        if how == "nil first":
            self.add(NIL, F, self.any())
        if how == "contains itself":
            self.add(last, F, cells[0])
        if how == "shared":
            self.add(self.subj(), U(rng.choice(LISTED)), rng.choice(cells))
        return cells[0]

    def member(self, what):
        rng = self.rng
        if rng.random() < 0.2:
            return self.any()
        return rng.choice({"c": self.cls, "p": self.prop, "i": self.ind}[what])

    def facts(self, n):
        for _ in range(n):
            r = self.rng.random()
            if r < 0.5:
                self.add(self.rng.choice(self.ind), self.rng.choice(self.prop), self.rng.choice(self.ind) if self.rng.random() < 0.7 else self.lit())
            else:
                self.add(self.rng.choice(self.ind), U("rdf:type"), self.rng.choice(self.cls))


def soup(g, n):
    for _ in range(n):
        g.add(g.subj(0.25), g.pred(0.6), g.any())


def lists(g, n):
    rng = g.rng
    for _ in range(rng.randint(1, 3)):
        p = rng.choice(LISTED)
        k = {"owl:propertyChainAxiom": "p", "owl:hasKey": "p", "owl:oneOf": "i", "owl:distinctMembers": "i", "owl:members": rng.choice("cpi")}.get(p, "c")
        m = rng.choice([0, 1, 1, 2, 3])
        if p == "owl:propertyChainAxiom":
            # long chains over big relations are finite but too expensive
            m = min(m, 2)
        h = g.hostile_list([g.member(k) for _ in range(m)])
        s = {"owl:propertyChainAxiom": rng.choice(g.prop), "owl:withRestrictions": EX("dt0")}.get(p) or rng.choice(g.cls + g.ind)
        g.add(s if rng.random() < 0.9 else g.subj(), U(p), h)
        if p in ("owl:members", "owl:distinctMembers"):
            g.add(s, U("rdf:type"), U("owl:" + rng.choice(["AllDifferent", "AllDisjointClasses", "AllDisjointProperties"])))
        if rng.random() < 0.15:
            g.add(h if not isinstance(h, Literal) else s, U("owl:sameAs"), g.subj())
    g.facts(n // 2)


def restriction(g, n):
    rng = g.rng
    for _ in range(rng.randint(1, 3)):
        c = rng.choice(g.cls)
        kind = rng.choice(["someValuesFrom", "allValuesFrom", "hasValue", "maxCardinality", "maxQualifiedCardinality", "hasSelf", "cardinality", "complementOf"])
        v = rng.choice([L("1", "xsd:nonNegativeInteger"), L("0", "xsd:nonNegativeInteger"), L("1", "xsd:integer"), L("-1", "xsd:nonNegativeInteger"), L("x", "xsd:integer"), L("1"),
                        L("1", lang="en"), L("1.0", "xsd:decimal"), L("9" * 5000, "xsd:integer"), L("NaN", "xsd:double"), L("", "xsd:nonNegativeInteger"), g.any(), g.any(), g.lit()])
        if kind in ("someValuesFrom", "allValuesFrom", "complementOf") and rng.random() < 0.6:
            v = g.member("c")
        g.add(c, U("owl:" + kind), v)
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            g.add(c, U("owl:onProperty"), g.member("p"))
        if kind == "maxQualifiedCardinality" and rng.random() < 0.8:
            g.add(c, U(rng.choice(["owl:onClass", "owl:onClass", "owl:onDataRange"])), g.member("c"))
    g.facts(n)


def incomparable(g):
    """A well-formed restriction whose bounds cannot be compared with all the values (time zones, NaN, other kinds of values)."""
    rng = g.rng
    b = rng.choice(["xsd:dateTime", "xsd:dateTime", "xsd:time", "xsd:date", "xsd:double", "xsd:float", rng.choice(list(mixed.VALID))])
    values = [L(v, b) for v in mixed.VALID[b]] + [L("NaN", b)] * (b in ("xsd:double", "xsd:float"))
    dt, c, q, x = EX("dt0"), rng.choice(g.cls), rng.choice(g.prop), rng.choice(g.ind)
    g.add(dt, U("rdf:type"), U("rdfs:Datatype"))
    g.add(dt, U("owl:onDatatype"), U(b))
    h = U("rdf:nil")
    for _ in range(rng.choice([1, 1, 2])):
        f, l = g.fresh(), g.fresh()
        g.add(f, U(rng.choice(FACETS[:4])), rng.choice(values) if rng.random() < 0.85 else L(rng.choice(mixed.VALID["xsd:integer"]), "xsd:integer"))
        g.add(l, U("rdf:first"), f)
        g.add(l, U("rdf:rest"), h)
        h = l
    g.add(dt, U("owl:withRestrictions"), h)
    g.add(c, U("owl:allValuesFrom") if rng.random() < 0.8 else U("owl:someValuesFrom"), dt)
    g.add(c, U("owl:onProperty"), q)
    g.add(x, U("rdf:type"), c)
    for _ in range(3):
        v = rng.choice(values)
        g.add(x, q, v if rng.random() < 0.75 else L(str(v), dt))
    if rng.random() < 0.3:
        g.facts(1)


def datatype(g, n):
    rng = g.rng
    if rng.random() < 0.15:
        return incomparable(g)
    for k in range(rng.randint(1, 2)):
        dt = rng.choice([EX("dt%d" % k), B("dt%d" % k), U("xsd:integer"), U("owl:rational")]) if rng.random() < 0.25 else EX("dt%d" % k)
        base = rng.choice([U(rng.choice(FA.ALL if hasattr(FA, "ALL") else ["xsd:integer"])), U(rng.choice(["xsd:integer", "xsd:string", "rdf:PlainLiteral", "xsd:dateTime"])), EX("dt0"), EX("dt1"), dt, U("xsd:gYear"),
                           U("xsd:duration"), EX("unknown"), g.any()])
        if rng.random() < 0.9:
            g.add(dt, U("rdf:type"), U("rdfs:Datatype"))
        if rng.random() < 0.92:
            g.add(dt, U("owl:onDatatype"), base)
        if rng.random() < 0.12:
            g.add(dt, U("owl:onDatatype"), g.any())
        nodes = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            x = g.fresh()
            f = rng.choice(FACETS)
            v = rng.choice([L("5", "xsd:integer"), L("5", "xsd:nonNegativeInteger"), L("-5", "xsd:integer"), L("x", "xsd:integer"), L("5"), L(rng.choice(PATTERNS)), L(rng.choice(PATTERNS), "xsd:string"),
                            L("en"), L("*"), g.lit(), g.any(), L("9" * 4000, "xsd:integer")])
            g.add(x, U(f), v)
            if rng.random() < 0.15:
                g.add(x, U(rng.choice(FACETS)), g.lit())
            nodes.append(x if rng.random() < 0.93 else g.any())
        if rng.random() < 0.6:
            h = U("rdf:nil")
            for x in reversed(nodes):
                c = g.fresh()
                g.add(c, U("rdf:first"), x)
                g.add(c, U("rdf:rest"), h)
                h = c
        else:
            h = g.hostile_list(nodes)
        if rng.random() < 0.95:
            g.add(dt, U("owl:withRestrictions"), h)
        used = []
        if rng.random() < 0.6:
            c, q, x = rng.choice(g.cls), rng.choice(g.prop), rng.choice(g.ind)
            g.add(c, U(rng.choice(["owl:allValuesFrom", "owl:allValuesFrom", "owl:someValuesFrom"])), dt)
            g.add(c, U("owl:onProperty"), q)
            g.add(x, U("rdf:type"), c)
            used = [(x, q)]
        for _ in range(2):
            b = short(base) if isinstance(base, URIRef) else ""
            v = L(rng.choice(mixed.VALID[b] + mixed.INVALID.get(b, [])), b) if b in mixed.VALID and rng.random() < 0.6 else g.lit()
            g.add(*rng.choice(used + [(rng.choice(g.ind), rng.choice(g.prop))]), v)
        if isinstance(dt, URIRef) and rng.random() < 0.3:
            v = rng.choice(["5", "a", "a@en", "0a"] + mixed.VALID.get(b, []))
            g.add(rng.choice(g.ind), rng.choice(g.prop), L(v, dt))
    g.facts(2)


def literals(g, n):
    for _ in range(n):
        g.add(g.rng.choice(g.ind), g.pred(0.1), g.odd() if g.rng.random() < 0.7 else g.lit())
    if g.rng.random() < 0.5:
        g.add(g.rng.choice(g.prop), U("rdfs:range"), g.voc())
        g.add(g.rng.choice(g.prop), U("rdf:type"), U(g.rng.choice(["owl:FunctionalProperty", "owl:InverseFunctionalProperty", "owl:SymmetricProperty"])))


def vocabulary(g, n):
    rng = g.rng
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.3:
            g.add(g.voc(), U(rng.choice(["owl:sameAs", "owl:equivalentClass", "owl:equivalentProperty", "owl:inverseOf", "rdfs:subClassOf", "rdfs:subPropertyOf", "owl:differentFrom",
                                         "owl:disjointWith", "owl:propertyDisjointWith"])), rng.choice([g.voc(), rng.choice(g.ind + g.cls + g.prop)]))
        elif r < 0.5:
            g.add(rng.choice(g.ind + g.cls + g.prop), U(rng.choice(["rdfs:subPropertyOf", "owl:equivalentProperty", "owl:sameAs", "rdfs:subClassOf"])), g.voc())
        elif r < 0.7:
            g.add(g.voc(), U("rdf:type"), U(rng.choice(["owl:FunctionalProperty", "owl:InverseFunctionalProperty", "owl:SymmetricProperty", "owl:TransitiveProperty",
                                                        "owl:IrreflexiveProperty", "owl:AsymmetricProperty", "owl:Class", "rdf:Property", "rdfs:Datatype"])))
        else:
            g.add(g.voc(), U(rng.choice(["rdfs:domain", "rdfs:range"])), g.any(0.1))
    g.facts(n // 2)


def containers(g, n):
    rng = g.rng
    for _ in range(rng.randint(1, 4)):
        m = URIRef(RDFN + rng.choice(["_1", "_2", "_10", "_0", "_", "_-1", "_01", "_1a", "_99999999999999999999", "_1\u0661", "_1_000", "_\u0661", "_1 ", "_1\n"]))
        if rng.random() < 0.8:
            g.add(rng.choice(g.ind), m, g.any())
        else:
            g.add(m, g.pred(), g.any())
    for u in rng.sample(["", "a", "http://ex.org/ x", "http://ex.org/<", "urn:", "\u00e9", "http://ex.org/'\"", "http://ex.org/%zz", "(", "["], 2):
        g.add(URIRef(u), rng.choice(g.prop), URIRef(u))
        g.add(rng.choice(g.ind), URIRef(u), URIRef(u))
    g.facts(2)


def long(g, n):
    rng = g.rng
    k = rng.choice([60, 150, 400, 1100])
    p = rng.choice(["owl:oneOf", "owl:hasKey", "owl:propertyChainAxiom", "owl:members", "owl:distinctMembers", "owl:withRestrictions", "owl:unionOf", "owl:intersectionOf", "rdf:value"])
    if p in ("owl:members", "owl:distinctMembers"):
        k = min(k, 60)
    cells = [B("l%d" % j) for j in range(k)]
    for j, c in enumerate(cells):
        g.add(c, U("rdf:first"), EX("m%d" % (j % rng.choice([k, 7]))))
        g.add(c, U("rdf:rest"), cells[j + 1] if j + 1 < k else U("rdf:nil"))
    s = rng.choice(g.cls + g.prop)
    g.add(s, U(p), cells[0])
    if p in ("owl:members", "owl:distinctMembers"):
        g.add(s, U("rdf:type"), U(rng.choice(["owl:AllDifferent", "owl:AllDisjointClasses", "owl:AllDisjointProperties"])))
    if p == "owl:withRestrictions":
        g.add(s, U("rdf:type"), U("rdfs:Datatype"))
        g.add(s, U("owl:onDatatype"), U("xsd:integer"))
    if p == "owl:propertyChainAxiom":  # a path through the whole chain
        for j in range(k):
            g.add(EX("n%d" % j), EX("m%d" % j), EX("n%d" % (j + 1)))
    g.add(EX("i0"), U("rdf:type"), s)


def negative(g, n):
    rng = g.rng
    for _ in range(rng.randint(1, 3)):
        x = g.subj(0)
        g.add(x, U("rdf:type"), U("owl:NegativePropertyAssertion"))
        for p in ("sourceIndividual", "assertionProperty", "targetIndividual", "targetValue"):
            if rng.random() < 0.8:
                g.add(x, U("owl:" + p), g.any() if rng.random() < 0.3 else g.member("p" if p[0] == "a" else "i"))
    for _ in range(2):
        g.add(g.subj(), U(rng.choice(["owl:disjointWith", "owl:complementOf", "owl:propertyDisjointWith", "owl:differentFrom"])), g.any())
    g.facts(n)


def gen(rng, i, tier):
    shape = HOSTILE[i % len(HOSTILE)]
    kind = rng.choices(["rdfs", "owl", "combined", "extension", "trimming"], [2, 6, 1, 3, 1])[0]
    if shape == "datatype" and rng.random() < 0.8:
        kind = rng.choice(["extension", "extension", "trimming"])
    if shape == "mixed":
        T = mixed.graph(rng, "owl" if kind == "rdfs" else kind, size=0.4, clash=0.5, invalid=0.4, punning=0.5, bnode_preds=0.3)
        g = Gr(rng)
        g.ind += [t[0] for t in T if isinstance(t[0], (URIRef, BNode))][:8]
        soup(g, rng.randint(1, 4))
        if rng.random() < 0.4:
            lists(g, 1)
        T = T + g.T
    else:
        g = Gr(rng)
        {"soup": soup, "list": lists, "restriction": restriction, "datatype": datatype, "literals": literals, "vocabulary": vocabulary, "containers": containers,
         "long": long, "negative": negative}[shape](g, rng.choice([2, 4, 8]))
        if rng.random() < 0.3 and shape not in ("long", "soup"):
            soup(g, rng.randint(1, 3))
        T = g.T
    opts = mixed.options(rng, kind, axioms=0.15)
    if shape == "long":
        opts.update(axioms=False, daxioms=False)
        kind = "owl" if kind in ("combined", "trimming") else kind
        opts.pop("rdfs", None)
    return case_of(list(dict.fromkeys(T)), kind=kind, opts=opts, shape=shape, improved=rng.random() < 0.85, shuffle=rng.choice([None, rng.randrange(1000)]))


LIST_READS = 200000
SIZE = 5000
READS = 4 * 10**6
TURNS = 20 * 10**6
ACTIVE = None
FIRST, REST = U("rdf:first"), U("rdf:rest")


class Expensive(BaseException):
    pass


class Store(MonitoredStore):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.cells = {}
        self.turns = 0

    def add(self, triple, context, quoted=False):
        if self.watching and len(self) > SIZE:
            raise Expensive("closure too large")
        MonitoredStore.add(self, triple, context, quoted)

    def triples(self, pattern, context=None):
        self.turns = 0
        if self.watching:
            s, p, o = pattern
            if p == REST and s is not None or p == FIRST and s is not None:
                n = self.cells[s] = self.cells.get(s, 0) + 1
                if n > LIST_READS:
                    raise DoesNotStop("the list cell %s is read again and again (%d times while one rule is applied)" % (s, n))
            if self.reads > READS:
                raise Expensive("too many reads")
        return MonitoredStore.triples(self, pattern, context)


def monitored(kind, log):
    base = closure_class(kind)

    class C(base):
        def rules(self, t, cycle_num):
            self.graph.store.cells.clear()
            if not log or log[-1][0] != cycle_num:
                log.append((cycle_num, len(self.graph)))
            base.rules(self, t, cycle_num)

        def post_process(self):
            log.append(("post", len(self.graph)))
            base.post_process(self)

    C.__name__ = base.__name__
    return C


def run(case, T, log):
    store = Store(shuffle=case.get("shuffle"))
    g = Graph(store=store)
    for t in T:
        g.add(t)
    expand(g, None, cls=monitored(case["kind"], log), improved=case["improved"], cpu=60, **case["opts"])
    return g


def stuck(case, T):
    """After the CPU watchdog fired: does some loop turn without ever looking at the store?"""
    mon = sys.monitoring
    store = []
    real = Store.__init__

    def init(self, **kw):
        real(self, **kw)
        store.append(self)

    def jump(code, a, b):
        if store:
            store[-1].turns += 1
            if store[-1].turns > TURNS:
                raise DoesNotStop("a loop in %s turns more than %d times without reading the store" % (code.co_qualname, TURNS))

    Store.__init__ = init
    mon.use_tool_id(4, "c19")
    mon.register_callback(4, mon.events.JUMP, jump)
    mon.set_events(4, mon.events.JUMP)
    try:
        run(case, T, [])
    finally:
        mon.set_events(4, 0)
        mon.register_callback(4, mon.events.JUMP, None)
        mon.free_tool_id(4)
        Store.__init__ = real


def judge(case, st):
    T = dec_graph(case["triples"])
    log = []
    try:
        try:
            run(case, T, log)
        except Timeout:
            stuck(case, T)
            raise Skip("CPU limit, not stuck")
    except Expensive as e:
        st.count("skipped: %s" % e)
        raise Skip(str(e))
    except Timeout:
        raise Skip("CPU limit")
    st.count("expansions")
    st.count("shape " + case["shape"])
    st.count(case["kind"])
    out = []
    cycles = [(n, k) for n, k in log if n != "post"]
    st.count("cycles monitored", len(cycles))
    st.peak("cycles", len(cycles))
    if len(cycles) >= 2:
        st.nontrivial((sorted(map(repr, T)), case["kind"], sorted(case["opts"].items())))
    for (n1, k1), (n2, k2) in zip(cycles, cycles[1:]):
        if k2 <= k1:
            out.append("%s: cycle %s added nothing (%d, then %d triples), but another cycle followed" % (case["kind"], n1, k1, k2))
    post = [k for n, k in log if n == "post"]
    if cycles and post and post[0] != cycles[-1][1]:
        out.append("%s: the last cycle (%s) added %d triples" % (case["kind"], cycles[-1][0], post[0] - cycles[-1][1]))
    if cycles and [n for n, _ in cycles] != list(range(1, len(cycles) + 1)):
        out.append("cycles numbered %s" % [n for n, _ in cycles])
    return out
