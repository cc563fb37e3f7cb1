from monitor.common import *
from monitor import gen as G
from monitor.terms import *

RULE = ("schema graphs derived backwards from hierarchy statements, domains and ranges through cax-*/scm-* rules, plus deep, cyclic and "
        "diamond hierarchies and pairs of restrictions, with noise and near misses; OWL 2 RL closure compared triple for triple with an "
        "independent evaluation of the rules; non-trivial: a cax-*/scm-* rule concludes something new about user terms; distinct by graph")
BUDGET = {"quick": 1300, "thorough": 24000}
SR = ["cax-sco", "cax-eqc1", "cax-eqc2", "scm-cls", "scm-sco", "scm-eqc1", "scm-eqc2", "scm-op", "scm-dp", "scm-spo", "scm-eqp1",
      "scm-eqp2", "scm-dom1", "scm-dom2", "scm-rng1", "scm-rng2", "scm-hv", "scm-svf1", "scm-svf2", "scm-avf1", "scm-avf2", "scm-int",
      "scm-uni"]
MIN = {"quick": dict({"fired " + r: 8 for r in SR}, expansions=250)}
MIN["thorough"] = MIN["quick"]
W = G.mix((1, G.SCM), (0.7, G.CAX), (0.25, G.EQ), (0.15, G.CLS), (0.15, G.PRP))
KINDS = {"sco": 4, "eqc": 1.5, "spo": 2, "eqp": 1.5, "dom": 1.5, "rng": 1.5, "type": 2, "fact": 1}


def gen(rng, i, tier):
    g = G.Gen(rng, W, n=rng.randint(2, 4), nc=rng.randint(3, 7), np=rng.randint(2, 5), literal_rate=0.1,
              bnode_preds=rng.choice([0, 0, 0.2]), punning=rng.choice([0, 0, 0, 0.06]), vocabulary=rng.choice([0, 0, 0.1]), dense=rng.random() < 0.25)
    r = rng.random()
    if r < 0.15:  # deep hierarchy, perhaps closed to a cycle
        k = rng.randint(5, 11)
        nodes = [EX("h%03d" % j) for j in range(k)]
        up = rng.choice([G.SCO, G.SCO, G.SPO])
        for j in range(k - 1):
            g.derive((nodes[j], up, nodes[j + 1]), rng.choice([0, 0, 0, 0, 1]))
        if rng.random() < 0.35:
            g.emit(nodes[rng.randrange(k // 2, k)], up, nodes[rng.randrange(0, k // 2)])
        if up == G.SCO:
            g.emit(g.ind(), G.TYPE, nodes[0])
        else:
            g.emit(g.ind(), nodes[0], g.val())
            g.emit(nodes[-1], rng.choice([G.DOM, G.RNG]), g.cls())
    elif r < 0.35:  # restrictions in pairs, compared along hierarchies
        rs = [EX("r%03d" % j) for j in range(rng.randint(2, 4))]
        vs = g.classes[:2] + g.inds[:1] + g.lits[:1]
        for x in rs:
            g.emit(x, G.ONP, g.prop())
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice([G.SVF, G.AVF, G.HV])
                g.emit(x, k, rng.choice(vs if k == G.HV else g.classes[:3]))
        for _ in range(rng.randint(1, 3)):
            g.derive((g.prop(), G.SPO, g.prop()), rng.choice([0, 1]))
            g.derive((rng.choice(g.classes[:3]), G.SCO, rng.choice(g.classes[:3])), rng.choice([0, 1]))
    for _ in range(rng.choice([0, 1, 2])):
        g.emit(g.cls(), G.TYPE, U("owl:Class"))
    for _ in range(rng.choice([0, 0, 1])):
        g.emit(g.prop(), G.TYPE, rng.choice([U("owl:ObjectProperty"), U("owl:DatatypeProperty")]))
    if rng.random() < 0.2:
        g.derive((g.cls(), rng.choice([G.SCO, G.EQC]), rng.choice([G.NOTHING, G.THING])), rng.choice([0, 1]))
    g.build(KINDS, goals=rng.randint(1, 4), depths=(1, 1, 2, 2, 3, 5), noise=3)
    return case_of(g.result(), shuffle=rng.choice([None, rng.randrange(1000)]))


def judge(case, st):
    T = dec_graph(case["triples"])
    out, exp, res = judge_closure(T, "owl", st, shuffle=case.get("shuffle"))
    if any(exp.fired.get(r) for r in SR if r not in ("scm-cls", "cax-eqc1", "cax-eqc2", "scm-eqc1", "scm-eqc2")):
        st.nontrivial(sorted(map(repr, T)))
    return out
