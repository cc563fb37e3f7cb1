from monitor.common import *
from monitor import gen as G
from monitor.terms import *

RULE = ("graphs derived backwards from facts/equalities through prp-* rules (chains up to 9 properties, keys up to 6, cascades up to 20 "
        "rule steps, axioms themselves only inferred), with noise and near misses; OWL 2 RL closure compared triple for triple with an "
        "independent evaluation of the rules; non-trivial: a prp-* rule concludes something new; distinct by graph")
BUDGET = {"quick": 1500, "thorough": 26000}
PR = ["prp-dom", "prp-rng", "prp-fp", "prp-ifp", "prp-symp", "prp-trp", "prp-spo1", "prp-eqp1", "prp-eqp2", "prp-inv1", "prp-inv2",
      "prp-spo2", "prp-key"]
MIN = {"quick": dict({"fired " + r: 15 for r in PR}, expansions=250)}
MIN["thorough"] = MIN["quick"]
W = G.mix((1, G.PRP), (0.25, G.EQ), (0.3, G.CAX), (0.15, G.CLS), (0.2, G.SCM))
KINDS = {"fact": 6, "same": 2.5, "type": 1, "loop": 0.5, "spo": 0.5, "eqp": 0.3}


def gen(rng, i, tier):
    n = rng.randint(3, 7)
    g = G.Gen(rng, W, n=n, nc=4, np=rng.randint(2, 6), literal_rate=rng.choice([0, 0.1, 0.3]),
              bnode_preds=rng.choice([0, 0, 0.3]), punning=rng.choice([0, 0, 0, 0.06]), vocabulary=rng.choice([0, 0, 0, 0.15]),
              long_lists=rng.choice([0.1, 0.5]), dense=rng.random() < 0.25)
    r = rng.random()
    if r < 0.08:  # long transitive path, sometimes a cycle
        p = g.prop()
        k = rng.randint(6, 14)
        nodes = [EX("n%03d" % j) for j in range(k)]
        g.derive((p, G.TYPE, U("owl:TransitiveProperty")), rng.choice([0, 1]))
        for j in range(k - 1):
            g.emit(nodes[j], p, nodes[j + 1])
        if rng.random() < 0.4:
            g.emit(nodes[-1], p, nodes[0])
    elif r < 0.2:  # several keys/instances sharing some values
        c = g.cls()
        ks = rng.sample(g.props, rng.randint(1, min(4, len(g.props))))
        g.derive((c, G.KEY, g.list(ks)), 0)
        vals = g.inds[:3] + g.lits[:2]
        for x in g.inds[:5]:
            if rng.random() < 0.9:
                g.derive((x, G.TYPE, c), rng.choice([0, 0, 1]))
            for k in ks:
                for v in rng.sample(vals, rng.choice([0, 1, 1, 1, 2])):
                    g.derive((x, k, v), rng.choice([0, 0, 0, 1]))
    elif r < 0.28:  # individuals with several values each of which exactly one is shared, per property
        c = g.cls()
        ks = [EX("k%d" % j) for j in range(rng.randint(2, 4))]
        x, y, z = EX("x"), B("y"), EX("z")
        g.emit(c, G.KEY, g.list(ks))
        few = rng.randint(0, len(ks))
        for j, k in enumerate(ks):
            v = g.val()
            for o in (x, y, z):
                if o is not z and (j != few or rng.random() < 0.7):
                    g.derive((o, k, v), rng.choice([0, 0, 0, 0, 1]))
                for n in range(rng.choice([0, 1, 2, 3] if len(ks) < 4 else [0, 1, 1])):
                    g.emit(o, k, EX("v%s%d%d" % ("xyz"[(x, y, z).index(o)], j, n)))
        for o in (x, y, z):
            g.derive((o, G.TYPE, c), rng.choice([0, 0, 1]))
        g.build(KINDS, goals=rng.choice([0, 0, 1]), depths=(0, 1), noise=2)
        return case_of(g.result(), shuffle=rng.choice([None, rng.randrange(1000)]))
    elif r < 0.34:  # functional and inverse functional properties with (also) literal values that look alike
        g.lits = list(rng.choice(G.TWINS))
        for p in g.props[:2]:
            g.derive((p, G.TYPE, U("owl:" + rng.choice(["FunctionalProperty", "InverseFunctionalProperty"]))), rng.choice([0, 0, 1]))
            for x in g.inds[:3]:
                for v in rng.sample(g.lits + g.inds[:2], rng.choice([0, 1, 2, 3])):
                    g.derive((x, p, v), rng.choice([0, 0, 0, 1]))
    deep = rng.random() < 0.12
    g.build(KINDS, goals=1 if deep else rng.randint(1, 4), depths=(10, 15, 20) if deep else (1, 1, 2, 2, 3, 5), noise=4)
    return case_of(g.result(), shuffle=rng.choice([None, rng.randrange(1000)]))


def judge(case, st):
    T = dec_graph(case["triples"])
    out, exp, res = judge_closure(T, "owl", st, shuffle=case.get("shuffle"))
    if any(exp.fired.get(r) for r in PR):
        st.nontrivial(sorted(map(repr, T)))
    return out
