from monitor.common import *
from monitor import gen as G, mixed, lexical
from monitor.terms import *

RULE = ("graphs derived backwards through rdfs2-rdfs12, with containers, vocabulary used as data, blank node predicates and literals with "
        "equal and nearly equal values over all datatypes; RDFS closure (improved conversions on or off) compared triple for triple with an "
        "independent evaluation of rdf1, rdfs2-rdfs13 and value equality; non-trivial: anything beyond rdf1/rdfs4/rdfs6 is concluded or "
        "literals are exchanged; distinct by graph")
BUDGET = {"quick": 10000, "thorough": 200000}
R = ["rdf1", "rdfs2", "rdfs3", "rdfs4", "rdfs5", "rdfs6", "rdfs7", "rdfs8", "rdfs9", "rdfs10", "rdfs11", "rdfs12", "rdfs13"]
MIN = {"quick": dict({"fired " + r: 20 for r in R}, **{"graphs with exchanged literals": 60, "expansions": 500})}
MIN["thorough"] = MIN["quick"]
EQUAL = [
    [("1", "xsd:integer"), ("01", "xsd:integer"), ("1.0", "xsd:decimal"), ("1", "xsd:byte"), ("+1", "xsd:long"), ("1", "xsd:double"),
     ("1.0", "xsd:double"), ("1E0", "xsd:double"), ("1", "xsd:float"), ("1.0", "xsd:float"), ("1", None), ("1", "xsd:string"),
     ("1", "xsd:unsignedByte"), ("1.00", "xsd:decimal"), ("2", "xsd:integer"), ("1", "xsd:nonNegativeInteger")],
    [("true", "xsd:boolean"), ("1", "xsd:boolean"), ("1", "xsd:integer"), ("true", "xsd:string"), ("0", "xsd:boolean"), ("false", "xsd:boolean"),
     ("0", "xsd:integer"), ("0.0", "xsd:decimal"), ("-0", "xsd:integer")],
    [("a", None), ("a", "xsd:string"), ("a", "xsd:token"), ("a", "xsd:normalizedString"), ("a", "@en"), ("a", "@fr"), ("a", "xsd:anyURI"),
     ("a", "ex:dt"), ("b", None), ("a", "xsd:language"), ("A", "xsd:string"), ("a", "@en-gb")],
    [("2020-01-01T00:00:00Z", "xsd:dateTime"), ("2020-01-01T01:00:00+01:00", "xsd:dateTime"), ("2019-12-31T19:00:00-05:00", "xsd:dateTime"),
     ("2020-01-01T00:00:00", "xsd:dateTime"), ("2020-01-01", "xsd:date"), ("2020-01-01T00:00:00.0Z", "xsd:dateTime"),
     ("2020-01-01T00:00:00.5Z", "xsd:dateTime"), ("2020-01-01", "xsd:string"), ("2020-01-01T00:00:00.50Z", "xsd:dateTime")],
    [("0a", "xsd:hexBinary"), ("0A", "xsd:hexBinary"), ("Cg==", "xsd:base64Binary"), ("0a", "xsd:string"), ("0b", "xsd:hexBinary"),
     ("Cg = =", "xsd:base64Binary")],
    [("10:00:00", "xsd:time"), ("10:00:00.0", "xsd:time"), ("10:00:00Z", "xsd:time"), ("11:00:00+01:00", "xsd:time"), ("10:00:01", "xsd:time")],
    [("P1D", "xsd:duration"), ("x", "ex:dt"), ("y", "ex:dt"), ("x", "ex:dt2"), ("2020", "xsd:gYear")],
]


def gen(rng, i, tier):
    vals = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        pool = rng.choice(EQUAL)
        for lex, dt in rng.sample(pool, min(len(pool), rng.randint(2, 5))):
            vals.append(L(lex, lang=dt[1:]) if dt and dt[0] == "@" else L(lex, dt))
    vals += [mixed.literal(rng, dts=[d for d in mixed.SUPPORTED if d != "rdf:XMLLiteral" and d != "rdf:HTML"]) for _ in range(rng.choice([0, 1, 2]))]
    vals = list(dict.fromkeys(vals))
    g = G.Gen(rng, G.RDFS, n=rng.randint(2, 6), nc=rng.randint(2, 6), np=rng.randint(2, 6), literals=[],
              bnode_preds=rng.choice([0, 0, 0.3]), punning=rng.choice([0, 0, 0.1]), vocabulary=rng.choice([0, 0.1, 0.25]))
    g.lits, g.lrate = vals, (0.4 if vals else 0)
    g.build(mixed.RKINDS, goals=rng.randint(0, 5), depths=(0, 1, 1, 2, 3, 5, 9), noise=4)
    for v in vals:
        if rng.random() < 0.9:
            g.emit(rng.choice(g.inds + g.props), rng.choice(g.props + [U("rdfs:label"), U("rdf:value")]), v)
    for _ in range(rng.choice([0, 0, 1, 2])):
        x = rng.random()
        m = U("rdf:_%d" % rng.choice([1, 2, 3, 15]))
        if x < 0.3:
            g.emit(m, G.TYPE, U("rdfs:ContainerMembershipProperty"))
            g.emit(g.ind(), m, g.val())
        elif x < 0.5:
            g.emit(g.ind(), m, g.val())
        elif x < 0.6:
            g.derive((g.prop(), G.TYPE, U("rdfs:ContainerMembershipProperty")), rng.choice([0, 1]))
        elif x < 0.75:
            g.derive((g.cls(), G.TYPE, rng.choice([U("rdfs:Class"), U("rdfs:Datatype"), U("rdf:Property")])), rng.choice([0, 1, 2]))
        elif x < 0.85:
            g.derive((rng.choice([U("rdfs:member"), U("rdf:type"), U("rdfs:label"), g.prop()]), rng.choice([G.SPO, G.DOM, G.RNG]),
                      rng.choice([g.cls(), g.prop()])), rng.choice([0, 1]))
        elif x < 0.9:
            g.emit(g.ind(), U("rdfs:member"), g.val())
        else:
            g.emit(rng.choice([U("rdfs:Resource"), U("rdfs:Class"), U("rdfs:Datatype")]), G.SCO, g.cls())
    if rng.random() < 0.15:
        g.special(rng.randint(1, 3), True)
    return case_of(g.result(), improved=rng.random() < 0.5, shuffle=rng.choice([None, rng.randrange(1000)]))


def judge(case, st):
    T = dec_graph(case["triples"])
    exp = model_of(T, "rdfs", limit=2500)
    res = closure(T, "rdfs", shuffle=case.get("shuffle"), improved=case["improved"])
    st.count("expansions")
    st.peak("closure size", len(res.triples))
    st.peak("cycles (full scans)", len(res.scans))
    count_fired(st, exp)
    if len(set(lexical.exchange(T))) > len(set(T)):
        st.count("graphs with exchanged literals")
        st.nontrivial(sorted(map(repr, T)))
    elif any(exp.fired.get(r) for r in R if r not in ("rdf1", "rdfs4", "rdfs6")):
        st.nontrivial(sorted(map(repr, T)))
    out = diff(exp.triples, res.triples, exp=exp, what="rdfs closure")
    if res.messages:
        out.append("error reported: %s" % res.messages[0])
    return out
