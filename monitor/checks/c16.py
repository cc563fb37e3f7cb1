from rdflib import Dataset, URIRef

from monitor.common import *
from monitor import facets as FA, gen as G, mixed
from monitor.model import ANNOTATION, SUPPORTED
from monitor.real import expand, split_errors
from monitor.store import MonitoredStore
from monitor.terms import *

RULE = ("mixed graphs (with asserted reflexive triples, memberships in Thing/Resource, typed resources and literals, restricted datatypes, "
        "disjointness of datatypes, annotation declarations, near misses of every trimmed pattern) expanded by the extension and by the "
        "trimming closure with the same options, in place or into a destination graph of a dataset; the difference is compared with the "
        "documented list; non-trivial: a graph with a near miss or an asserted by-product; distinct by graph, options and destination")
BUDGET = {"quick": 440, "thorough": 6000}
MIN = {"quick": {"pairs": 150, "into a destination": 40, "kept near misses": 100, "trimmed triples": 3000, "typed datatypes kept": 60,
                 "with axioms": 20, "with rdfs": 40}}
MIN["thorough"] = MIN["quick"]
DEST = URIRef("http://ex.org/destination")
LISTED = {(U(a), U(b), U(c)) for a, b, c in (l.split() for l in """
owl:Nothing rdf:type owl:Class
owl:Nothing rdf:type rdfs:Class
owl:Thing rdf:type owl:Class
owl:Thing rdf:type rdfs:Class
owl:Thing owl:equivalentClass rdfs:Resource
rdfs:Resource owl:equivalentClass owl:Thing
owl:Class owl:equivalentClass rdfs:Class
owl:Class rdfs:subClassOf rdfs:Class
rdfs:Class owl:equivalentClass owl:Class
rdfs:Class rdfs:subClassOf owl:Class
rdfs:Datatype rdfs:subClassOf owl:DataRange
rdfs:Datatype owl:equivalentClass owl:DataRange
""".strip().split("\n"))}
OPTIONAL = {(U("owl:DataRange"), U(p), U(o)) for p in ("rdfs:subClassOf", "owl:equivalentClass") for o in ("owl:DatatypeProperty", "rdfs:Datatype")}
REFL = {U(x) for x in ("owl:sameAs", "rdfs:subClassOf", "rdfs:subPropertyOf", "owl:equivalentClass")}
TYPE, SCO, DIS = U("rdf:type"), U("rdfs:subClassOf"), U("owl:disjointWith")


def byproduct(t, unused):
    s, p, o = t
    if s == o and p in REFL:
        return "reflexive"
    if p == SCO and o in (U("owl:Thing"), U("rdfs:Resource")):
        return "superclass Thing/Resource"
    if p == TYPE and o == U("rdfs:Resource"):
        return "type Resource"
    if p == SCO and s == U("owl:Nothing"):
        return "Nothing"
    if p == TYPE and s in unused and o in (U("rdfs:Datatype"), U("owl:DataRange")):
        return "unused datatype"
    if p == DIS and (s in unused or o in unused):
        return "disjointness of unused datatype"
    if p == TYPE and o == U("owl:AnnotationProperty") and short(s) in ANNOTATION:
        return "annotation property"
    if t in LISTED:
        return "listed"
    return None


def gen(rng, i, tier):
    g = mixed.builder(rng, "extension", size=rng.choice([0.3, 0.5]), punning=0.1)
    rts = []
    if rng.random() < 0.25:
        r = FA.Restriction(rng, EX("rt"), None)
        r.triples(g)
        rts.append(enc(r.uri))
        for _ in range(2):
            g.emit(g.ind(), g.prop(), r.literal(rng))
        if rng.random() < 0.4:
            g.emit(g.ind(), TYPE, r.uri)
    dts = [U(rng.choice(mixed.SUPPORTED + ["owl:rational"])) for _ in range(3)]
    near = []
    for _ in range(rng.randint(1, 5)):
        x, y, c, d, p, q = g.ind(), g.ind(), g.cls(), g.cls(), g.prop(), g.prop()
        t = rng.choice([
            (x, U("owl:sameAs"), x), (c, SCO, c), (p, U("rdfs:subPropertyOf"), p), (c, U("owl:equivalentClass"), c),
            (p, U("owl:equivalentProperty"), p), (x, p, x), (x, U("owl:differentFrom"), y), (x, TYPE, x), (x, U("rdfs:seeAlso"), x),
            (x, TYPE, U("owl:Thing")), (x, TYPE, U("rdfs:Resource")), (c, SCO, U("owl:Nothing")), (U("owl:Thing"), SCO, c),
            (U("rdfs:Resource"), SCO, c), (c, SCO, U("owl:Thing")), (c, SCO, U("rdfs:Resource")), (U("owl:Nothing"), U("owl:equivalentClass"), c),
            (c, U("owl:equivalentClass"), U("owl:Thing")), (c, U("owl:equivalentClass"), U("rdfs:Resource")), (U("owl:Nothing"), SCO, c),
            (x, TYPE, dts[0]), (x, p, L("1", "xsd:byte")), (dts[0], DIS, dts[1]), (c, DIS, dts[0]), (dts[1], DIS, c), (c, DIS, d),
            (dts[0], TYPE, U("rdfs:Datatype")), (dts[0], TYPE, c), (dts[0], TYPE, U("owl:DataRange")), (dts[1], U("rdfs:label"), L("x")),
            (dts[0], SCO, dts[1]), (p, U("rdfs:range"), dts[0]), (p, TYPE, U("owl:AnnotationProperty")),
            (U("rdfs:label"), TYPE, U("owl:AnnotationProperty")), (U("rdfs:label"), TYPE, U("owl:DatatypeProperty")),
            (U("owl:versionInfo"), TYPE, U("rdf:Property")), (U("owl:Class"), TYPE, U("rdfs:Class")), (U("rdfs:Class"), SCO, U("rdfs:Resource")),
            (U("rdfs:Datatype"), SCO, U("rdfs:Class")), (U("owl:Thing"), TYPE, c), (U("owl:Nothing"), TYPE, c), (U("owl:Class"), SCO, c),
            (x, U("owl:sameAs"), y), (c, SCO, d), (U("owl:Thing"), U("rdfs:label"), L("top")), (U("rdfs:Datatype"), U("rdfs:comment"), L("a")),
        ])
        if rng.random() < 0.35:  # anything about the terms the documented list is about
            sp = [U(x) for x in ("owl:Thing", "owl:Nothing", "owl:Class", "rdfs:Class", "rdfs:Datatype", "owl:DataRange", "rdfs:Resource", "owl:AnnotationProperty",
                                 "owl:DatatypeProperty", "rdfs:label", "owl:versionInfo", "owl:sameAs", "rdfs:subClassOf", "owl:equivalentClass")]
            t = (rng.choice(sp[:5] + sp), rng.choice([TYPE, SCO, SCO, DIS, DIS, U("owl:equivalentClass"), U("owl:complementOf"), U("rdfs:subPropertyOf"), U("rdfs:seeAlso"),
                                             U("owl:unionOf"), U("owl:differentFrom"), U("rdfs:domain"), p]), rng.choice(sp + [c, c, d, x, dts[0]]))
            if rng.random() < 0.5 and t[1] not in (U("owl:unionOf"),):
                t = (t[2], t[1], t[0])
        g.emit(*t)
        near.append(enc_graph([t])[0])
    return case_of(g.result(), near=near, rts=rts, opts=mixed.options(rng, "trimming", axioms=0.15), dest=rng.random() < 0.35,
                   shuffle=rng.choice([None, rng.randrange(1000)]))


def run(T, kind, case):
    """(all triples after, source triples after, destination triples after, messages)"""
    if not case.get("dest"):
        res = closure(T, kind, shuffle=case.get("shuffle"), **case["opts"])
        return res.triples, None, res.triples, sorted(res.messages)
    ds = Dataset(store=MonitoredStore())
    src = ds.default_context
    for t in T:
        src.add(t)
    dest = ds.graph(DEST)
    expand(ds, kind, destination=DEST if case.get("shuffle") is None else dest, **case["opts"])
    d, texts, _ = split_errors(set(dest))
    s = set(src)
    return s | d, s, d, sorted(texts)


def judge(case, st):
    T = dec_graph(case["triples"])
    model_of(T, "extension", limit=1500, **case["opts"])
    ext, s1, d1, m1 = run(T, "extension", case)
    tri, s2, d2, m2 = run(T, "trimming", case)
    st.count("pairs")
    st.count("into a destination", s1 is not None)
    st.count("with axioms", case["opts"]["axioms"])
    st.count("with rdfs", case["opts"]["rdfs"])
    types = {o for _, p, o in ext if p == TYPE}
    dts = [U(d) for d in SUPPORTED] + [U("owl:rational")]
    for u in case["rts"]:
        dts.append(dec(u))
    unused = {d for d in dts if d not in types}
    st.count("typed datatypes kept", len(dts) - len(unused))
    kinds = {t: byproduct(t, unused) for t in d1}
    for t, k in kinds.items():
        if k:
            st.count("trimmed " + k)
            st.count("trimmed triples")
    want = {t for t, k in kinds.items() if not k}
    near = dec_graph(case["near"])
    st.count("kept near misses", sum(t in want or (s1 is not None and t in s1) for t in near))
    st.nontrivial((sorted(map(repr, T)), sorted(case["opts"].items()), case.get("dest")))
    out = []
    for t in sorted(want - d2 - OPTIONAL, key=repr)[:4]:
        out.append("trimming loses  %s" % show(t))
    for t in sorted(d2 - want - OPTIONAL, key=repr)[:4]:
        out.append("trimming leaves or adds  %s   (%s)" % (show(t), kinds.get(t, "not in the extension closure")))
    if s1 is not None and s1 != s2:
        out.append("trimming changed the source: %s" % [show(t) for t in list(s1 ^ s2)[:4]])
    if m1 != m2:
        out.append("different error reports: %s / %s" % (m1[:2], m2[:2]))
    return out
