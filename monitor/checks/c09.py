from rdflib import BNode, URIRef

from monitor.common import *
from monitor import facets as FA, gen as G, mixed
from monitor.real import expand, split_errors
from monitor.store import graph
from monitor.terms import *

RULE = ("mixed graphs G and additions H (assertions, axioms and half-complete premises of clashes and rules; restricted datatypes for the extension) for every "
        "closure class except trimming and every option set: closure(G) keeps the standard triples of G, expanding the expanded graph adds nothing, "
        "closure(G) is contained in closure(G+H), errors of G are still errors of G+H; non-trivial: the addition H has consequences of its own; distinct by "
        "graphs, class and options")
BUDGET = {"quick": 700, "thorough": 9500}
MIN = {"quick": {"rdfs": 100, "owl": 80, "combined": 25, "extension": 40, "additions with consequences": 200, "restricted datatypes": 15}}
MIN["thorough"] = MIN["quick"]
SHRINK = ["more", "triples"]


def gen(rng, i, tier):
    kind = rng.choices(["rdfs", "owl", "combined", "extension"], [5, 5, 1.5, 2])[0]
    small = kind in ("combined", "extension")
    g = mixed.builder(rng, kind, size=0.35 if small else 0.9, clash=0.3, bnode_preds=0.3)
    for _ in range(rng.randint(1, 3)):  # something to be completed by the addition
        g.emit(g.ind(), g.prop(), g.val())
        g.emit(g.ind(), G.TYPE, g.cls())
    qs = [p for p in g.props if isinstance(p, BNode)]
    if qs and rng.random() < 0.7:  # statements about what cannot stay as a predicate
        for _ in range(rng.randint(1, 3)):
            q = rng.choice(qs)
            x = rng.choice(g.classes + g.inds + g.props)
            y = rng.choice(g.classes + g.inds + g.lits)
            if kind != "rdfs":
                g.derive((x, q, y), 1)
            else:
                g.emit(x, g.props[0], y)
                g.emit(g.props[0], G.SPO, q)
            g.emit(q, rng.choice([G.DOM, G.RNG, G.SPO, G.INV, U("rdfs:label"), G.TYPE]), rng.choice([x, y]))
            if rng.random() < 0.3:
                g.emit(x, rng.choice([G.DOM, g.prop()]), q)
    if kind == "extension" and rng.random() < 0.5:
        r = FA.Restriction(rng, EX("rt"), None)
        r.triples(g)
        for _ in range(2):
            g.emit(g.ind(), g.prop(), r.literal(rng))
        if rng.random() < 0.5:
            c = g.cls()
            g.emit(c, rng.choice([G.SVF, G.AVF]), r.uri)
            g.emit(c, G.ONP, g.prop())
    T = g.result()
    n = len(T)
    lists = {U("rdf:first"), U("rdf:rest")}
    first = [t for t in T if t[1] in lists]
    rest = [t for t in T if t[1] not in lists]
    k = int(len(rest) * rng.choice([0.3, 0.5, 0.7, 0.9]))
    if rng.random() < 0.5:
        rng.shuffle(rest)
    decl = {U("owl:onDatatype"), U("owl:withRestrictions")}
    rts = {s for s, p, _ in T if p in decl}
    nodes = {o for _, p, o in first if p == U("rdf:first")}
    keep = [t for t in rest if t[0] in rts or (t[0] in nodes and (str(t[1]).startswith(XSDN) or t[1] == U("rdf:langRange")))]
    kept = set(keep)
    rest = [t for t in rest if t not in kept]
    G1 = first + keep + rest[:k]
    H = rest[k:]
    return case_of(G1, more=enc_graph(H), kind=kind, opts=mixed.options(rng, kind, axioms=0.12), shuffle=rng.choice([None, rng.randrange(1000)]),
                   rt=bool(rts))


def judge(case, st):
    T, H = dec_graph(case["triples"]), dec_graph(case["more"])
    kind, opts = case["kind"], case["opts"]
    exp = model_of(T + H, kind, limit=1300, **opts)
    c1 = closure(T, kind, shuffle=case.get("shuffle"), **opts)
    out = []
    st.count(kind)
    for t in sorted((t for t in set(T) if isinstance(t[1], URIRef) and t not in c1.triples), key=repr)[:3]:
        out.append("%s expansion loses the input triple  %s" % (kind, show(t)))
    g2 = graph(sorted(c1.triples, key=repr))
    expand(g2, kind, **opts)
    r2, m2, _ = split_errors(set(g2))
    for t in sorted(r2 - c1.triples, key=repr)[:3]:
        out.append("second %s expansion adds  %s" % (kind, show(t)))
    for t in sorted(c1.triples - r2, key=repr)[:3]:
        if isinstance(t[1], URIRef):
            out.append("second %s expansion loses  %s" % (kind, show(t)))
    # what a blank node as predicate says is used for inference but removed at the end
    F = exp.facts
    gone = any(isinstance(F.terms[p], BNode) for _, p, _ in F.T)
    if bool(m2) != bool(c1.messages) and not gone:
        out.append("second %s expansion reports %s, the first %s" % (kind, m2[:1], c1.messages[:1]))
    if H and not out:
        c3 = closure(T + H, kind, **opts)
        for t in sorted(c1.triples - c3.triples, key=repr)[:4]:
            if isinstance(t[1], URIRef):
                out.append("%s: conclusion lost when the graph grows:  %s" % (kind, show(t)))
        if c1.messages and not c3.messages:
            out.append("%s: error no longer reported when the graph grows: %s" % (kind, c1.messages[0]))
        if len(c3.triples) > len(c1.triples) + len(H):
            st.count("additions with consequences")
            st.nontrivial((sorted(map(repr, T)), sorted(map(repr, H)), kind, sorted(opts.items())))
    st.count("restricted datatypes", case.get("rt", False))
    return out
