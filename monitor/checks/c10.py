import json
import os
import random
import re
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))

from rdflib import BNode, Dataset, Graph, Literal, URIRef

from monitor.common import *
from monitor import facets as FA, gen as G, mixed
from monitor.real import expand, split_errors
from monitor.store import MonitoredStore
from monitor.terms import *

RULE = ("each graph is expanded in several presentations: another insertion order, stores enumerating in random order, spread over the "
        "named graphs of a dataset, in processes with other hash seeds, and with its blank nodes and user IRIs renamed one-to-one (also swapping "
        "the lexical order, also IRIs of other shape); results have to be equal (equal after renaming back), also whether errors are reported; all closure classes; non-trivial: "
        "at least 3 cycles; distinct by graph, class and options")
BUDGET = {"quick": 420, "thorough": 5000}
MIN = {"quick": {"orders": 350, "datasets": 60, "renamings": 150, "other hash seed": 40, "with errors": 25}}
MIN["thorough"] = MIN["quick"]
HERE = os.path.dirname(os.path.abspath(__file__))


def gen(rng, i, tier):
    kind = rng.choices(["rdfs", "owl", "combined", "extension", "trimming"], [3, 6, 1, 1.5, 1])[0]
    small = kind not in ("rdfs", "owl")
    g = mixed.builder(rng, kind, size=0.4 if small else 1.0, clash=0.35, invalid=0.2)
    if kind in ("extension", "trimming") and rng.random() < 0.4:
        r = FA.Restriction(rng, EX("rt"), None)
        r.triples(g)
        for _ in range(2):
            g.emit(g.ind(), g.prop(), r.literal(rng))
        c = g.cls()
        g.emit(c, rng.choice([G.SVF, G.AVF]), r.uri)
        g.emit(c, G.ONP, g.prop())
    if rng.random() < 0.5:
        g.double(rng.randint(1, 3))
    how = ["order", "order", "order"]
    if rng.random() < 0.3:
        how.append("dataset")
    if rng.random() < 0.6:
        how.append("rename")
    if rng.random() < 0.16:
        how.append("seed")
    return case_of(g.result(), kind=kind, opts=mixed.options(rng, kind, axioms=0.08), how=how, salt=rng.randrange(10**6))


def renaming(T, rng):
    """one-to-one map of the user's terms (blank nodes and ex: IRIs)"""
    terms = sorted({x for t in T for x in t if isinstance(x, BNode) or (isinstance(x, URIRef) and str(x).startswith(EXN))}, key=str)
    terms = [t for t in terms if not str(t).startswith(EXN + "_")]
    names = ["n%d" % k for k in range(len(terms))]
    rng.shuffle(names)
    m = {}
    style = rng.choice(["swap", "urn", "odd"])
    for t, n in zip(terms, names):
        if isinstance(t, BNode):
            m[t] = BNode(rng.choice(["b", "z9", "N"]) + n)
        elif style == "urn":
            m[t] = URIRef("urn:x:" + n)
        elif style == "odd":
            m[t] = URIRef(rng.choice(["http://w.example/a%20b#", "mailto:", "http://www.w3.org/2002/07/owl-x#", "http://ex.org/é/"]) + n)
        else:
            m[t] = URIRef(EXN + n)
    for l in {o for _, _, o in T if isinstance(o, Literal) and o.datatype is not None and o.datatype in m}:
        m[l] = Literal(str(l), datatype=m[l.datatype], normalize=False)
    return m


def apply(m, triples):
    return {tuple(m.get(x, x) for x in t) for t in triples}


def expanded(T, case, shuffle=None, spread=None):
    kind, opts = case["kind"], case["opts"]
    st = MonitoredStore(shuffle=shuffle)
    if spread is None:
        g = Graph(store=st)
        for t in T:
            g.add(t)
    else:
        g = Dataset(store=st)
        gs = [g.default_context, g.graph(EX("g1")), g.graph(EX("g2"))]
        for t in T:
            for x in spread.sample(gs, spread.choice([1, 1, 1, 2])):
                x.add(t)
    expand(g, kind, **opts)
    if spread is None:
        allt = set(g)
    else:
        allt = {(s, p, o) for s, p, o, _ in g.quads((None, None, None, None))}
    rest, msgs, _ = split_errors(allt)
    return rest, bool(msgs), len(st.scans)


def plain(triples):
    """triples the property is about (a triple with a blank node as predicate is not standard RDF)"""
    return {t for t in triples if isinstance(t[1], URIRef)}


def judge(case, st):
    T = dec_graph(case["triples"])
    kind = case["kind"]
    model_of(T, "extension" if kind == "trimming" else kind, limit=1300, **case["opts"])
    rng = random.Random(case["salt"])
    base, err, cycles = expanded(T, case)
    st.count(kind)
    st.count("with errors", err)
    if cycles >= 3:
        st.nontrivial((sorted(map(repr, T)), kind, sorted(case["opts"].items())))
    out = []

    def compare(what, got, e, ref=base):
        st.count("comparisons")
        a, b = plain(ref), plain(got)
        for t in sorted(a - b, key=repr)[:2]:
            out.append("%s closure with %s lacks  %s" % (kind, what, show(t)))
        for t in sorted(b - a, key=repr)[:2]:
            out.append("%s closure with %s has in addition  %s" % (kind, what, show(t)))
        if e != err:
            out.append("%s closure with %s: errors reported: %s, otherwise %s" % (kind, what, e, err))

    for how in case["how"]:
        if out:
            break
        if how == "order":
            P = list(T)
            rng.shuffle(P)
            got, e, _ = expanded(P, case, shuffle=rng.randrange(10**6))
            st.count("orders")
            compare("another order", got, e)
        elif how == "dataset":
            if kind == "trimming":
                continue  # the triples of the other graphs are not trimmed
            got, e, _ = expanded(T, case, shuffle=rng.randrange(10**6), spread=rng)
            st.count("datasets")
            compare("data in several graphs", got, e)
        elif how == "rename":
            m = renaming(T, rng)
            got, e, _ = expanded(sorted(apply(m, T), key=repr), case)
            st.count("renamings")
            compare("renamed terms", got, e, apply(m, base))
        elif how == "seed":
            seed = rng.randrange(1, 2**32 - 1)
            p = subprocess.run([sys.executable, __file__], input=json.dumps(case), env=dict(os.environ, PYTHONHASHSEED=str(seed)), text=True,
                               capture_output=True, timeout=200)
            if p.returncode != 0:
                raise RuntimeError(p.stderr[-800:])
            r = json.loads(p.stdout)
            st.count("other hash seed")
            compare("another hash seed", set(dec_graph(r["triples"])), r["errors"])
    return out


if __name__ == "__main__":
    case = json.load(sys.stdin)
    rest, err, _ = expanded(dec_graph(case["triples"]), case)
    print(json.dumps({"triples": enc_graph(rest), "errors": err}))
