from monitor.common import *
from monitor import gen as G, mixed
from monitor.terms import *
from monitor.model import SUPPORTED

RULE = ("graphs of literals over all supported and other datatypes (valid and ill-typed), resources typed with datatypes, sameAs between "
        "resources and literals in chains, ranges/subclasses making memberships inferred only; OWL 2 RL (also combined, extension) closure "
        "compared triple for triple with an independent hierarchy and disjointness table; non-trivial: a subsumption or disjointness is "
        "concluded; distinct by graph")
BUDGET = {"quick": 1700, "thorough": 30000}
MIN = {"quick": {"expansions": 300, "fired dt-subsumption": 300, "fired dt-disjoint": 300, "datatypes seen": 30}}
MIN["thorough"] = MIN["quick"]
W = G.mix((1, {k: G.PRP[k] for k in ("prp-rng", "prp-spo1", "prp-fp")}), (0.5, G.EQ), (1, G.CAX), (1, {"cls-avf": 2, "cls-oo": 2}))


def gen(rng, i, tier):
    dts = rng.sample(mixed.SUPPORTED, rng.randint(1, 4))
    lits = list(dict.fromkeys(mixed.literal(rng, rng.choice([0, 0, 0.5]), dts=dts) for _ in range(rng.randint(1, 5))))
    g = G.Gen(rng, W, n=rng.randint(2, 4), nc=2, np=rng.randint(1, 3), literals=lits, literal_rate=0.5)
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        dt = U(rng.choice(dts if rng.random() < 0.6 else mixed.SUPPORTED))
        if r < 0.35:
            g.emit(g.ind(), g.prop(), rng.choice(g.lits))
        elif r < 0.5:
            g.emit(g.ind(), G.TYPE, dt)
        elif r < 0.6:
            g.derive((g.ind(), G.TYPE, dt), rng.choice([1, 2, 3]))
        elif r < 0.7:
            g.derive((rng.choice(g.lits), G.TYPE, dt), 1)
        elif r < 0.85:
            g.derive((g.ind(), G.SAME, rng.choice(g.lits + g.inds)), rng.choice([0, 0, 1, 2]))
        elif r < 0.9:
            g.emit(g.cls(), rng.choice([G.SCO, G.EQC]), dt)
        elif r < 0.94:
            g.emit(g.ind(), G.TYPE, g.cls())
        elif r < 0.97:
            g.emit(g.ind(), rng.choice([G.TYPE, g.prop()]), U(rng.choice(mixed.OTHER)[0]))
        else:
            g.emit(g.ind(), G.SAME, dt)
    kind = rng.choices(["owl", "combined", "extension"], [20, 1, 3])[0]
    opts = {"daxioms": rng.random() < 0.1}
    return case_of(g.result(), kind=kind, opts=opts, shuffle=rng.choice([None, rng.randrange(1000)]))


def judge(case, st):
    T = dec_graph(case["triples"])
    out, exp, res = judge_closure(T, case["kind"], st, case["opts"], shuffle=case.get("shuffle"), clashes=True)
    for o in literal_objects(T):
        st.see("datatypes seen", o.datatype)
    if exp.fired.get("dt-subsumption") or exp.fired.get("dt-disjoint"):
        st.nontrivial(sorted(map(repr, T)))
    return out

