from monitor.common import *
from monitor import gen as G
from monitor.terms import *

RULE = ("graphs of assertions and sameAs statements (clusters as chains, stars, cycles, trees over individuals, blank nodes, "
        "literals, classes, properties, vocabulary), expanded and compared triple for triple with an independent evaluation of the "
        "eq-* rules; non-trivial: eq-trans or eq-rep fires; distinct by graph")
BUDGET = {"quick": 1100, "thorough": 22000}
MIN = {"quick": {"expansions": 200, "fired eq-rep-s": 100, "fired eq-rep-p": 50, "fired eq-rep-o": 100, "fired eq-trans": 100}}
MIN["thorough"] = MIN["quick"]


def gen(rng, i, tier):
    g = G.Gen(rng, G.EQ, n=rng.randint(3, 7), nc=3, np=rng.randint(2, 4), literal_rate=rng.choice([0, 0.15, 0.4]),
              bnode_preds=rng.choice([0, 0, 0.4]), punning=rng.choice([0, 0, 0.1]), dense=rng.random() < 0.2)
    for _ in range(rng.choice([0, 1, 1, 2])):
        pool = rng.choice([g.inds, g.inds, g.inds + g.lits, g.props, g.classes, g.inds + g.props])
        k = min(len(pool), rng.choice([2, 2, 3, 3, 4, 5, 7]))
        m = rng.sample(pool, k)
        shape = rng.choice(["chain", "rchain", "mixed", "cycle", "star", "in-star", "tree"])
        e = []
        for j in range(1, k):
            a = m[j - 1] if shape in ("chain", "rchain", "mixed", "cycle") else m[0] if shape in ("star", "in-star") else m[rng.randrange(j)]
            flip = shape in ("rchain", "in-star") or shape in ("mixed", "tree") and rng.random() < 0.5
            e.append((m[j], a) if flip else (a, m[j]))
        if shape == "cycle":
            e.append((m[-1], m[0]))
        for a, b in e:
            if isinstance(a, Literal):
                a, b = b, a
            g.emit(a, G.SAME, b)
    if rng.random() < 0.06:
        g.emit(rng.choice(g.inds + g.props), G.SAME, rng.choice([U("rdf:type"), U("rdfs:label"), U("owl:Class"), U("owl:Thing"), U("rdfs:Datatype"), U("xsd:string")]))
    if rng.random() < 0.04:
        g.emit(rng.choice(g.props), G.SAME, G.SAME)
    for _ in range(rng.randint(1, 7)):
        g.emit(*g.noise())
    g.build({"same": 3, "fact": 4, "type": 2, "samep": 0.7, "samec": 0.5}, goals=rng.randint(0, 3), noise=4,
            depths=(0, 1, 2, 2, 3, 4))
    T = g.result()
    return case_of(T, shuffle=rng.choice([None, rng.randrange(1000)]))


def judge(case, st):
    T = dec_graph(case["triples"])
    out, exp, res = judge_closure(T, "owl", st, shuffle=case.get("shuffle"))
    if exp.fired.get("eq-trans") or exp.fired.get("eq-rep-s") or exp.fired.get("eq-rep-o") or exp.fired.get("eq-rep-p"):
        st.nontrivial(sorted(map(repr, T)))
    return out
