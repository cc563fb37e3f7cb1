import random

from rdflib import BNode, ConjunctiveGraph, Dataset, Graph, Literal, URIRef

from monitor.common import *
from monitor import gen as G, mixed
from monitor.real import expand, split_errors
from monitor.store import MonitoredStore
from monitor.terms import *

RULE = ("mixed graphs spread over the default and named graphs of a Dataset/ConjunctiveGraph and expanded into every kind of destination (none, "
        "IRI or string of a new or a pre-filled graph, graph objects, the default graph, the source itself), all closure classes and options, on a store logging "
        "every addition and removal with its graph; unusable destinations with both stores logged; non-trivial: at least one triple added with data "
        "in several graphs; distinct by data, distribution, destination")
BUDGET = {"quick": 560, "thorough": 8000}
KINDS = ["none", "uri", "uri-filled", "str", "str-filled", "graph", "graph-filled", "default", "fresh-graph", "default-uri"]
MIN = {"quick": dict({"destination " + k: 15 for k in KINDS}, **{"additions logged": 20000, "refusals": 30, "plain graphs": 25})}
MIN["thorough"] = MIN["quick"]
N1, N2, D1 = EX("graph1"), EX("graph2"), EX("dest")


def gen(rng, i, tier):
    if i % 9 == 0:
        g = mixed.builder(rng, "owl", size=0.5)
        return case_of(g.result(), refuse=rng.choice(["other store", "other store context", "uri on graph", "str on graph", "dataset other store"]),
                       kind=rng.choice(["rdfs", "owl", "extension", "trimming"]))
    kind = rng.choices(["rdfs", "owl", "combined", "extension", "trimming"], [4, 5, 1, 1, 1])[0]
    small = kind not in ("rdfs", "owl")
    T = mixed.graph(rng, kind, size=0.4 if small else 0.9, clash=0.3, bnode_preds=0.2)
    rng.shuffle(T)
    if i % 9 == 1:
        return case_of(T, plain=rng.choice(["none", "itself", "same context"]), kind=kind, opts=mixed.options(rng, kind, axioms=0.1))
    return case_of(T, kind=kind, opts=mixed.options(rng, kind, axioms=0.1), salt=rng.randrange(10**6), dest=KINDS[i % len(KINDS)],
                   ds=rng.choice(["Dataset", "Dataset", "DatasetUnion", "ConjunctiveGraph"]))


def content(store, g=None):
    """context -> triples, from the store itself"""
    out = {}
    for t, ctxs in Memory_triples(store):
        for c in ctxs:
            if c is not None:
                out.setdefault(str(getattr(c, "identifier", c)), set()).add(t)
    return out


def Memory_triples(store):
    from rdflib.plugins.stores.memory import Memory

    return [(t, list(c)) for t, c in Memory.triples(store, (None, None, None))]


def refuse(case, st):
    T = dec_graph(case["triples"])
    s1, s2 = MonitoredStore(log=True), MonitoredStore(log=True)
    how = case["refuse"]
    other = Graph(store=s2)
    other.add((EX("a"), EX("p"), EX("b")))
    if how in ("uri on graph", "str on graph"):
        src = Graph(store=s1)
        for t in T:
            src.add(t)
        dest = N1 if how[0] == "u" else str(N1)
    else:
        src = Dataset(store=s1) if how == "dataset other store" else ConjunctiveGraph(store=s1) if how.endswith("context") else Graph(store=s1)
        tgt = src.default_context if hasattr(src, "default_context") else src
        for t in T:
            tgt.add(t)
        dest = Dataset(store=s2).default_context if how.endswith("context") else other
    before = (content(s1), content(s2))
    s1.events.clear()
    s2.events.clear()
    st.count("refusals")
    st.nontrivial((how, case["kind"], sorted(map(repr, T))))
    try:
        expand(src, case["kind"], destination=dest)
    except ValueError:
        if s1.events or s2.events or (content(s1), content(s2)) != before:
            return ["refused destination (%s), but the graphs were changed: %s" % (how, (s1.events + s2.events)[:3])]
        return []
    return ["unusable destination (%s) is not refused with ValueError" % how]


def judge(case, st):
    if "refuse" in case:
        return refuse(case, st)
    T = dec_graph(case["triples"])
    kind, opts = case["kind"], case["opts"]
    model_of(T, "extension" if kind == "trimming" else kind, limit=1500, **opts)
    store = MonitoredStore(log=True)
    if "plain" in case:
        g = Graph(store=store, identifier=EX("me"))
        for t in T:
            g.add(t)
        dest = {"none": None, "itself": g, "same context": Graph(store=store, identifier=EX("me"))}[case["plain"]]
        target = str(EX("me"))
        st.count("plain graphs")
    else:
        rng = random.Random(case["salt"])
        ds = ConjunctiveGraph(store=store) if case["ds"] == "ConjunctiveGraph" else Dataset(store=store, default_union=case["ds"] == "DatasetUnion")
        g = ds
        how = case["dest"]
        dc = ds.default_context
        places = [dc, ds.get_context(N1), ds.get_context(N2)]
        if how.endswith("filled"):
            places.append(ds.get_context(D1))
        share = rng.choice([0, 0, 0.2])
        for t in T:
            rng.choice(places).add(t)
            if rng.random() < share:
                rng.choice(places).add(t)
        dest = {"none": None, "uri": D1, "uri-filled": D1, "str": str(D1), "str-filled": str(D1), "graph": ds.get_context(D1),
                "graph-filled": ds.get_context(D1), "default": dc, "fresh-graph": Graph(store=store, identifier=D1), "default-uri": dc.identifier}[how]
        target = str(dc.identifier) if how in ("none", "default", "default-uri") else str(D1)
        st.count("destination " + how)
    before = content(store)
    store.events.clear()
    expand(g, kind, destination=dest, **opts)
    after = content(store)
    events = store.events
    out = []
    added = 0
    for op, t, ctx, new in events:
        if op == "add":
            st.count("additions logged")
            added += new
            if ctx != target and new:
                out.append("%s written to graph %s instead of %s" % (show(t), ctx, target))
        else:
            st.count("removals logged")
    what = "%s, destination %s" % (kind, case.get("dest", case.get("plain")))
    for c in set(before) | set(after):
        b, a = before.get(c, set()), after.get(c, set())
        if c != target:
            for t in sorted(a - b, key=repr)[:2]:
                out.append("%s: graph %s gains %s" % (what, c, show(t)))
        if c != target or kind != "trimming":
            for t in sorted((t for t in b - a if isinstance(t[1], URIRef)), key=repr)[:2]:
                out.append("%s: graph %s loses %s" % (what, c, show(t)))
    if kind != "trimming":
        union, m1, _ = split_errors(set().union(*after.values())) if after else (set(), [], [])
        ref = closure(T, kind, **opts)
        for t in sorted(ref.triples - union, key=repr)[:3]:
            out.append("%s: source and destination lack %s of the in-place expansion" % (what, show(t)))
        for t in sorted(union - ref.triples, key=repr)[:3]:
            out.append("%s: source and destination have %s, the in-place expansion not" % (what, show(t)))
        if bool(m1) != bool(ref.messages):
            out.append("%s: errors %s instead of %s" % (what, m1[:2], ref.messages[:2]))
    if added and (len(before) > 1 or "plain" in case):
        st.nontrivial((sorted(map(repr, before.items())), kind, what, sorted(opts.items())))
    return out[:8]
