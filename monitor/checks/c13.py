import itertools

from monitor.common import *
from monitor import mixed
from monitor.real import closure, closure_class, owlrl
from monitor.terms import *

RULE = ("mixed graphs (OWL and RDFS constructs, classes declared as rdfs:Class/owl:Class/DataRange/Datatype, memberships in Thing/Resource) "
        "expanded by the combined closure and compared triple for triple and error for error with the joint model; for a part of them the OWL 2 RL and the "
        "extension+RDFS closures are computed too and inclusion checked; return_closure_class is called with all combinations of choices; "
        "non-trivial: an RDFS rule and an OWL rule beyond eq-ref both fire; distinct by graph and options")
BUDGET = {"quick": 640, "thorough": 9000}
MIN = {"quick": {"expansions": 200, "inclusion chains": 15, "class choices": 16, "graphs without any class": 1, "with axiomatic triples": 10}}
MIN["thorough"] = MIN["quick"]
CHOICE = {}


def documented(owl, rdfs, extras, trim):
    if owl:
        if extras:
            return "trimming" if trim else "extension"
        return "combined" if rdfs else "owl"
    return "rdfs" if rdfs else None


def gen(rng, i, tier):
    if i == 0:
        return {"choices": True, "triples": []}
    if i == 1:
        return case_of([], opts={}, chain=True)
    g = mixed.builder(rng, "combined", size=rng.choice([0.4, 0.4, 0.7]), punning=0.2)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        g.emit(*rng.choice([
            (g.cls(), G_TYPE, U("rdfs:Class")), (g.cls(), G_TYPE, U("owl:Class")), (g.cls(), G_TYPE, U("owl:DataRange")),
            (g.cls(), G_TYPE, U("rdfs:Datatype")), (g.ind(), G_TYPE, U("owl:Thing")), (g.cls(), U("rdfs:subClassOf"), U("rdfs:Resource")),
            (U("rdfs:Resource"), U("rdfs:subClassOf"), g.cls()), (U("owl:Thing"), U("rdfs:subClassOf"), g.cls()),
            (g.prop(), U("rdfs:domain"), U("rdfs:Class")), (g.prop(), U("rdfs:range"), U("owl:DataRange")),
            (g.prop(), G_TYPE, U("rdfs:ContainerMembershipProperty")), (g.prop(), G_TYPE, U("rdf:Property")),
        ]))
    return case_of(g.result(), opts=mixed.options(rng, "combined", axioms=0.1), chain=rng.random() < 0.1, shuffle=rng.choice([None, rng.randrange(1000)]))


G_TYPE = U("rdf:type")


def judge(case, st):
    if case.get("choices"):
        out = []
        for ch in itertools.product([True, False], repeat=4):
            st.count("class choices")
            want = documented(*ch)
            want = want and closure_class(want)
            got = owlrl.return_closure_class(*ch)
            if got is not want:
                out.append("return_closure_class%s gives %s instead of %s" % (ch, got, want))
            if not ch[3]:
                got = owlrl.return_closure_class(*ch[:3])
                if got is not want:
                    out.append("return_closure_class%s gives %s instead of %s" % (ch[:3], got, want))
        got = owlrl.return_closure_class(trimming=True, owl_extras=True, rdfs_closure=False, owl_closure=True)
        if got is not closure_class("trimming"):
            out.append("return_closure_class by keywords gives %s" % got)
        st.nontrivial("choices")
        return out
    T = dec_graph(case["triples"])
    out, exp, res = judge_closure(T, "combined", st, case["opts"], shuffle=case.get("shuffle"))
    if case["opts"].get("axioms"):
        st.count("with axiomatic triples")
    if not T:
        st.count("graphs without any class")
    owlr = any(exp.fired.get(r) for r in exp.fired if not r.startswith("rdf") and r not in ("input", "eq-ref"))
    if owlr and any(exp.fired.get(r) for r in ("rdfs2", "rdfs5", "rdfs7", "rdfs9", "rdfs10", "rdfs11", "rdfs12", "rdfs13")):
        st.nontrivial((sorted(map(repr, T)), sorted(case["opts"].items())))
    if case.get("chain") and not out:
        o = {k: v for k, v in case["opts"].items() if k != "rdfs"}
        small = closure(T, "owl", **o)
        big = closure(T, "extension", rdfs=True, **o)
        st.count("inclusion chains")
        for t in sorted(small.triples - res.triples, key=repr)[:3]:
            out.append("OWL 2 RL closure has %s, the combined closure not" % show(t))
        for t in sorted(res.triples - big.triples, key=repr)[:3]:
            out.append("combined closure has %s, the extension with RDFS not" % show(t))
    return out
