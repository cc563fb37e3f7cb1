from monitor.common import *
from monitor import gen as G
from monitor.terms import *

RULE = ("graphs derived backwards from memberships, facts and equalities through cls-* rules (nested expressions, lists up to 9 members, "
        "IRI, blank node and literal values, cascades up to 20 steps), with noise and near misses; OWL 2 RL closure compared triple for "
        "triple with an independent evaluation of the rules; non-trivial: a cls-* rule concludes something new; distinct by graph")
BUDGET = {"quick": 1100, "thorough": 26000}
CR = ["cls-int1", "cls-int2", "cls-uni", "cls-svf1", "cls-svf2", "cls-avf", "cls-hv1", "cls-hv2", "cls-oo", "cls-maxc2", "cls-maxqc3",
      "cls-maxqc4"]
MIN = {"quick": dict({"fired " + r: 10 for r in CR}, expansions=250)}
MIN["thorough"] = MIN["quick"]
W = G.mix((1, G.CLS), (0.25, G.EQ), (0.25, G.CAX), (0.15, G.PRP), (0.15, G.SCM))
KINDS = {"type": 6, "same": 2.5, "fact": 1.5, "littype": 0.7, "loop": 0.2}


def gen(rng, i, tier):
    g = G.Gen(rng, W, n=rng.randint(3, 6), nc=rng.randint(3, 8), np=rng.randint(2, 4), literal_rate=rng.choice([0, 0.15, 0.4]),
              bnode_preds=rng.choice([0, 0, 0.3]), punning=rng.choice([0, 0, 0, 0.06]), long_lists=rng.choice([0.1, 0.5]), dense=rng.random() < 0.25)
    if rng.random() < 0.15:  # one restriction, many candidates: the right ones only
        c, q, d, u = g.cls(), g.prop(), g.cls(), g.ind()
        k = rng.choice(["maxc", "maxq", "maxqt"])
        g.emit(c, G.MAXC if k == "maxc" else G.MAXQ, rng.choice([g.card(1), g.card(1), g.card(1), L("2", "xsd:nonNegativeInteger")]))
        g.emit(c, G.ONP, q)
        if k != "maxc":
            g.emit(c, G.ONC, G.THING if k == "maxqt" else d)
        for u in g.inds[:2]:
            if rng.random() < 0.8:
                g.derive((u, G.TYPE, c), rng.choice([0, 1]))
            for y in g.inds[1:]:
                if rng.random() < 0.6:
                    g.emit(u, q, y)
        for y in g.inds[1:]:
            if rng.random() < 0.6:
                g.derive((y, G.TYPE, d), rng.choice([0, 0, 1]))
    deep = rng.random() < 0.12
    g.build(KINDS, goals=1 if deep else rng.randint(1, 4), depths=(10, 15, 20) if deep else (1, 1, 2, 2, 3, 5), noise=4)
    return case_of(g.result(), shuffle=rng.choice([None, rng.randrange(1000)]))


def judge(case, st):
    T = dec_graph(case["triples"])
    out, exp, res = judge_closure(T, "owl", st, shuffle=case.get("shuffle"))
    if any(exp.fired.get(r) for r in CR):
        st.nontrivial(sorted(map(repr, T)))
    return out
