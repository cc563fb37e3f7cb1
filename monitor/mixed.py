"""Graphs mixing all constructs (for the checks about relations between expansions), and pools of literals."""
from rdflib import BNode, Literal, URIRef

from . import gen as G
from .terms import EX, L, U

VALID = {
    "xsd:decimal": ["1", "1.0", "-2.50", "+.5", "10."], "xsd:integer": ["1", "01", "-7", "+3", "0", "123456789012345678901"],
    "xsd:long": ["1", "-9223372036854775808"], "xsd:int": ["1", "2147483647"], "xsd:short": ["1", "-32768"], "xsd:byte": ["1", "-128", "127"],
    "xsd:nonNegativeInteger": ["1", "0", "007"], "xsd:positiveInteger": ["1", "99"], "xsd:nonPositiveInteger": ["0", "-1"],
    "xsd:negativeInteger": ["-1", "-0001"], "xsd:unsignedLong": ["1", "18446744073709551615"], "xsd:unsignedInt": ["1", "4294967295"],
    "xsd:unsignedShort": ["1", "65535"], "xsd:unsignedByte": ["1", "255"], "xsd:double": ["1", "1.0E0", "INF", "-1.5e3"],
    "xsd:float": ["1", "1.0E0", "-INF", "2.5"], "xsd:boolean": ["true", "1", "false", "0"], "xsd:string": ["a", "b c", ""],
    "xsd:normalizedString": ["a", "b  c"], "xsd:token": ["a", "b c"], "xsd:language": ["en", "fr-CA"], "xsd:Name": ["a", "x:y"],
    "xsd:NCName": ["a", "x-y"], "xsd:NMTOKEN": ["a", "1x"], "xsd:hexBinary": ["0a1B", "0A1b", ""], "xsd:base64Binary": ["YWJj", "YQ==", ""],
    "xsd:anyURI": ["http://ex.org/a", "a/b"], "xsd:dateTime": ["2020-01-01T00:00:00", "2020-01-01T00:00:00Z", "2020-01-01T01:00:00+01:00",
                                                             "2019-12-31T19:00:00.000-05:00"],
    "xsd:dateTimeStamp": ["2020-01-01T00:00:00Z", "2020-01-01T05:30:00+05:30"], "xsd:time": ["10:00:00", "10:00:00Z", "12:00:00.50"],
    "xsd:date": ["2020-02-29", "1999-12-31"], "rdfs:Literal": ["a"], "rdf:XMLLiteral": ["<a/>", "<a>b</a>"], "rdf:HTML": ["<b>x</b>"],
    "rdf:PlainLiteral": ["a@en", "a@"],
}
INVALID = {
    "xsd:decimal": ["1e5", "a", "", "1.2.3"], "xsd:integer": ["1.0", "a", "", "1_000"], "xsd:long": ["9223372036854775808"],
    "xsd:int": ["2147483648"], "xsd:short": ["32768"], "xsd:byte": ["128", "x"], "xsd:nonNegativeInteger": ["-1"],
    "xsd:positiveInteger": ["0"], "xsd:nonPositiveInteger": ["1"], "xsd:negativeInteger": ["0"], "xsd:unsignedLong": ["-1"],
    "xsd:unsignedInt": ["4294967296"], "xsd:unsignedShort": ["65536"], "xsd:unsignedByte": ["256"], "xsd:double": ["x", "1e", "inf"],
    "xsd:float": ["x", "nan"], "xsd:boolean": ["yes", "TRUE", "2"], "xsd:normalizedString": ["a\tb", "a\nb"], "xsd:token": [" a", "a  b"],
    "xsd:language": ["1", "toolonglanguage"], "xsd:Name": ["1a", "a b"], "xsd:NCName": ["a:b", ""], "xsd:NMTOKEN": ["a b", ""],
    "xsd:hexBinary": ["a", "xy"], "xsd:base64Binary": ["a", "YQ=", "Y#=="], "xsd:dateTime": ["2020-01-01", "2020-13-01T00:00:00"],
    "xsd:dateTimeStamp": ["2020-01-01T00:00:00"], "xsd:time": ["25:00:00", "10:00"], "xsd:date": ["2021-02-29", "2020-1-1"],
    "rdf:XMLLiteral": ["<a>", "a"], "rdf:PlainLiteral": ["a", "a@1"],
}
OTHER = [("xsd:duration", "P1D"), ("xsd:gYear", "2020"), ("xsd:gMonthDay", "--02-29"), ("ex:dt", "x"), ("xsd:QName", "a:b"),
         ("xsd:ENTITY", "e"), ("xsd:yearMonthDuration", "P1Y"), ("owl:real", "1")]
SUPPORTED = list(VALID)


def literal(rng, invalid=0.0, other=0.08, plain=0.12, dts=None):
    r = rng.random()
    if r < plain:
        return rng.choice([L("a"), L(""), L("a", lang="en"), L("a", lang="fr"), L("1"), L("b c")])
    if r < plain + other:
        dt, lex = rng.choice(OTHER)
        return L(lex, dt)
    dt = rng.choice(dts or SUPPORTED)
    if dt in INVALID and rng.random() < invalid:
        return L(rng.choice(INVALID[dt]), dt)
    return L(rng.choice(VALID[dt]), dt)


KINDS = {"fact": 4, "type": 3, "same": 1, "sco": 1.2, "eqc": 0.4, "spo": 1.2, "eqp": 0.3, "dom": 0.6, "rng": 0.6, "samep": 0.2, "samec": 0.2,
         "littype": 0.3}
RKINDS = {"fact": 4, "type": 4, "sco": 2, "spo": 2, "dom": 0.7, "rng": 0.7}
OWLW = G.mix((1, G.PRP), (0.5, G.EQ), (1, G.CAX), (1, G.CLS), (0.7, G.SCM))
WEIGHTS = {
    "rdfs": G.RDFS,
    "owl": OWLW,
    "combined": G.mix((1, OWLW), (2, G.RDFS)),
    "extension": G.mix((1, OWLW), (3, G.SELF), (1, G.RDFS)),
}
WEIGHTS["trimming"] = WEIGHTS["extension"]


def builder(rng, kind, size=1.0, clash=0.15, invalid=0.1, containers=0.2, bnode_preds=0.1, punning=0.1, weird=0.15, dense=0.2):
    lits = [literal(rng, invalid if rng.random() < 0.3 else 0) for _ in range(5)]
    if rng.random() < 0.1:
        lits = list(rng.choice(G.TWINS))
    if kind == "rdfs":  # which values ill-typed literals have is up to rdflib
        lits = [literal(rng) for _ in range(5)]
        lits = [l for l in lits if str(l.datatype) != str(U("xsd:boolean"))] or [L("a")]
    lits = list(dict.fromkeys(lits))
    g = G.Gen(rng, WEIGHTS[kind], n=rng.randint(2, 5), nc=rng.randint(2, 5), np=rng.randint(2, 4), literals=lits,
              literal_rate=rng.choice([0.1, 0.3, 0.5]), bnode_preds=0.4 if rng.random() < bnode_preds else 0,
              punning=0.08 if rng.random() < punning else 0, vocabulary=rng.choice([0, 0, 0.1]) if kind != "rdfs" else 0.15)
    if rng.random() < dense:
        g.inds, g.classes, g.props = g.inds[:3], g.classes[:2], g.props[:2]
        if kind != "rdfs":
            g.spice(rng.randint(1, 5 if kind == "owl" else 3))
    goals = max(1, int(round(rng.randint(1, 3) * size)))
    g.build(RKINDS if kind == "rdfs" else KINDS, goals=goals, depths=(0, 1, 1, 2, 2, 3, 5), noise=3, drop=0.1)
    if rng.random() < containers:
        for n in rng.sample([1, 2, 3, 7, 12, 100], rng.choice([1, 1, 2])):
            g.emit(g.ind(), U("rdf:_%d" % n), g.val())
    if kind != "rdfs" and rng.random() < clash:
        for t in g.clash(rng.choice(G.Gen.CLASHES), rng.random() < 0.8):
            if isinstance(t[0], Literal):
                g.derive(t, 1)
            else:
                g.emit(*t)
    if rng.random() < 0.1:
        g.special(rng.randint(1, 2), kind == "rdfs")
    if kind != "rdfs" and rng.random() < 0.25:
        g.emit(g.ind(), G.TYPE, U(rng.choice(SUPPORTED)))
    if kind in ("combined", "extension", "trimming") and rng.random() < 0.3:
        g.emit(g.cls(), G.TYPE, rng.choice([U("rdfs:Class"), U("owl:DataRange"), U("rdfs:Datatype"), U("owl:Class")]))
    if rng.random() < weird:
        g.emit(*rng.choice([
            (g.cls(), G.TYPE, U("rdfs:Datatype")), (g.prop(), G.TYPE, U("rdfs:ContainerMembershipProperty")),
            (g.prop(), G.SPO, U("rdfs:label")), (U("rdfs:label"), G.DOM, g.cls()), (g.ind(), G.TYPE, U("rdfs:Class")),
            (g.cls(), G.SCO, U("rdfs:Literal")), (g.prop(), U("owl:versionInfo"), g.val()), (g.prop(), G.RNG, U(rng.choice(SUPPORTED))),
            (U("rdf:_3"), U("rdfs:label"), g.val()), (g.ind(), U("rdfs:seeAlso"), U("rdf:_2")),
        ]))
    return g


def graph(rng, kind, **kw):
    return builder(rng, kind, **kw).result()


def options(rng, kind, axioms=0.2):
    o = {"axioms": rng.random() < axioms, "daxioms": rng.random() < axioms}
    if kind in ("extension", "trimming") or rng.random() < 0.15:  # the other classes do not depend on it
        o["rdfs"] = rng.random() < 0.4 or kind not in ("extension", "trimming")
    return o
