from monitor.common import *
from monitor import gen as G, mixed
from monitor.terms import *

RULE = ("mixed graphs (with rdf:_n properties used as predicates, subjects, objects, with gaps and look-alikes, typed literals, datatypes) "
        "expanded with every combination of axiomatic_triples and datatype_axioms for all closure classes and compared triple for triple "
        "with the model's closure of graph plus independent axiom tables; non-trivial: at least one option on, or container/typed-literal "
        "content with options off; distinct by graph, class and options")
BUDGET = {"quick": 620, "thorough": 12000}
MIN = {"quick": {"expansions": 200, "rdfs +axioms": 30, "owl +axioms": 20, "rdfs +daxioms": 30, "owl +daxioms": 20, "combined": 8, "extension": 8,
                 "graphs with container properties": 50}}
MIN["thorough"] = MIN["quick"]


def gen(rng, i, tier):
    kind = rng.choices(["rdfs", "owl", "combined", "extension"], [12, 7, 1, 1.3])[0]
    small = kind in ("combined", "extension")
    g = mixed.builder(rng, kind, size=0.4 if small else 1, containers=0, punning=0, bnode_preds=0.05)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        n = rng.choice([1, 1, 2, 2, 3, 4, 5, 9, 10, 11, 23, 120])
        m = U("rdf:_%d" % n) if rng.random() < 0.85 else rng.choice([U("rdf:_0"), U("rdf:_01"), U("rdf:_1a"), U("rdf:_"), EX("_1"), U("rdf:_x")])
        k = rng.random()
        if k < 0.75:
            g.emit(g.ind(), m, g.val())
        elif k < 0.88:
            g.emit(m, U("rdfs:label"), g.val())
        else:
            g.emit(g.ind(), g.prop(), m)
    opts = {"axioms": rng.random() < 0.5, "daxioms": rng.random() < 0.4}
    if kind == "extension":
        opts["rdfs"] = rng.random() < 0.4
    return case_of(g.result(), kind=kind, opts=opts, shuffle=rng.choice([None, rng.randrange(1000)]))


def judge(case, st):
    T = dec_graph(case["triples"])
    kind, opts = case["kind"], case["opts"]
    out, exp, res = judge_closure(T, kind, st, opts, shuffle=case.get("shuffle"))
    st.count(kind)
    for o in opts:
        if opts[o]:
            st.count("%s +%s" % (kind, o))
    c = any(str(p).startswith(RDFN + "_") for _, p, _ in T)
    st.count("graphs with container properties", c)
    if any(opts.values()) or c or literal_objects(T):
        st.nontrivial((sorted(map(repr, T)), kind, sorted(opts.items())))
    return out
