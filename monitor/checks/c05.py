from monitor.common import *
from monitor import gen as G
from monitor.terms import *

RULE = ("graphs containing the premises of one to three 'false' rules (complete, or lacking/altering one premise), lists up to 9 members "
        "with the clashing pair anywhere, premises asserted or derived up to 4 rule steps deep, and ill-typed literals; every clash of the "
        "independently computed closure must be named by an error report and every report explained by a clash; non-trivial: a complete "
        "or near-miss clash was planted; distinct by graph")
BUDGET = {"quick": 1700, "thorough": 30000}
FR = G.Gen.CLASHES + ["dt-not-type"]
MIN = {"quick": dict({"fired " + r: 8 for r in FR}, **{"consistent graphs": 60, "near misses": 60})}
MIN["thorough"] = MIN["quick"]
W = G.mix((1, G.PRP), (0.4, G.EQ), (1, G.CAX), (0.6, G.CLS), (0.2, G.SCM))
KINDS = {"type": 2, "fact": 3, "same": 1}
BAD = [("a", "xsd:integer"), ("300", "xsd:byte"), ("-1", "xsd:nonNegativeInteger"), ("2020-13-01", "xsd:date"), ("x y", "xsd:NCName"),
       ("abc", "xsd:hexBinary"), ("maybe", "xsd:boolean"), ("1.2.3", "xsd:decimal"), ("25:00:00", "xsd:time"), ("0", "xsd:positiveInteger")]


def gen(rng, i, tier):
    g = G.Gen(rng, W, n=rng.randint(4, 7), nc=rng.randint(4, 8), np=rng.randint(3, 6), literal_rate=rng.choice([0, 0.15, 0.3]),
              bnode_preds=rng.choice([0, 0, 0.25]), long_lists=rng.choice([0.15, 0.5]), dense=rng.random() < 0.25)
    planted = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        name = rng.choice(G.Gen.CLASHES)
        complete = rng.random() < 0.65
        planted.append(name if complete else "near " + name)
        for t in g.clash(name, complete):
            if isinstance(t[0], Literal):
                g.derive(t, 1)
            elif t[1] in G.LISTY:
                g.emit(*t)
            else:
                g.derive(t, rng.choice([0, 0, 0, 1, 1, 2, 4]))
    if rng.random() < 0.12:
        lex, dt = rng.choice(BAD)
        g.emit(g.ind(), g.prop(), L(lex, dt))
        planted.append("dt-not-type")
    if rng.random() < 0.35:
        g.double(rng.randint(1, 3))
    g.build(KINDS, goals=rng.randint(0, 2), depths=(0, 1, 2), noise=3, drop=0.05)
    return case_of(g.result(), shuffle=rng.choice([None, rng.randrange(1000)]), planted=planted)


def judge(case, st):
    T = dec_graph(case["triples"])
    out, exp, res = judge_closure(T, "owl", st, shuffle=case.get("shuffle"), clashes=True)
    st.nontrivial(sorted(map(repr, T)))
    st.count("reports", len(res.messages))
    if not exp.clashes:
        st.count("consistent graphs")
        st.count("near misses", any(p.startswith("near") for p in case.get("planted", [])))
    return out
