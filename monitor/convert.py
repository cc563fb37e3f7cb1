"""Documents, options and the expected outcome of convert_graph and of the scripts."""
import os
import shutil
import tempfile

from rdflib import BNode, Graph, Literal, URIRef

from run import Skip

from . import gen as G, mixed
from .real import Timeout, closure_class, cpu_limit, expand, split_errors
from .terms import *

FORMATS = {"turtle": "turtle", "xml": "xml", "json": "json-ld"}
SUFFIX = {"turtle": [".ttl", ".n3"], "json": [".json", ".jsonld"], "xml": [".rdf", ".xml", ".owl", "", ".data"]}
YES = [True, "yes", "Yes", "true", "True"]
NO = [False, "no", "No", None, "false", "False", "", "y", "on", "1", 0]
IMPORTS = U("owl:imports")


class Dir:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="verif-docs-")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def write(triples, syntax, path, pretty=False):
    """serializes; Skip when rdflib cannot do that"""
    g = Graph()
    for t in triples:
        g.add(t)
    try:
        text = g.serialize(format="nt" if syntax == "turtle" and not pretty else FORMATS[syntax])
        if syntax == "turtle" and pretty:
            Graph().parse(data=text, format="turtle")
    except Exception:
        raise Skip("not serializable by rdflib as " + syntax)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return text


def document(rng, kind, size=0.3, label="d"):
    """serializable graph; blank nodes get labels of their own per document"""
    T = mixed.graph(rng, kind, size=size, bnode_preds=0)
    T = [t for t in T if isinstance(t[1], URIRef) and not isinstance(t[0], Literal)]
    m = {}

    def ren(x):
        if isinstance(x, BNode):
            return m.setdefault(x, BNode(label + str(x)))
        if isinstance(x, URIRef) and str(x).startswith(EXN + "l"):  # list cells are not shared
            return EX(label + str(x)[len(EXN):])
        return x

    return [tuple(ren(x) for x in t) for t in T]


def flags(rng):
    """what is asked for, with every combination likely"""
    return {"owl": rng.random() < 0.55, "rdfs": rng.random() < 0.5, "extras": rng.random() < 0.4, "trimming": rng.random() < 0.4,
            "axioms": rng.random() < 0.2, "daxioms": rng.random() < 0.2}


def kind_of(f):
    """the documented choice of the closure"""
    if f["owl"]:
        if f["extras"]:
            return "trimming" if f["trimming"] else "extension"
        return "combined" if f["rdfs"] else "owl"
    return "rdfs" if f["rdfs"] else None


def standard(triples):
    return {t for t in triples if isinstance(t[1], URIRef) and not isinstance(t[0], Literal)}


def closure_of(g, f, kind="?", cls=None):
    """standard triples of the requested closure (in place)"""
    k = kind_of(f) if kind == "?" else kind
    if k is not None or cls is not None:
        expand(g, k, rdfs=f["rdfs"], axioms=f["axioms"], daxioms=f["daxioms"], cls=cls)
    return standard(set(g))


def round_trip(triples, fmt):
    """what rdflib makes of serializing and parsing; None if it cannot"""
    g = Graph()
    for t in triples:
        g.add(t)
    form = {"turtle": "turtle", "xml": "xml", "json": "json-ld"}[fmt]
    try:
        text = g.serialize(format=form)
        h = Graph()
        h.parse(data=text, format=FORMATS[fmt])
    except Exception:
        return None
    return set(h)


def _colours(T):
    b = {x for t in T for x in t if isinstance(x, BNode)}
    c = {x: 0 for x in b}
    for _ in range(len(b) + 1):
        n = {}
        for x in b:
            sig = []
            for s, p, o in T:
                if x in (s, p, o):
                    sig.append(tuple(("self" if y == x else ("b", c[y])) if isinstance(y, BNode) else y.n3() for y in (s, p, o)))
            n[x] = hash((c[x], tuple(sorted(map(repr, sig)))))
        if len(set(n.values())) == len(set(c.values())):
            return n
        c = n
    return c


def isomorphic(A, B, limit=20000):
    """None if the search is too long"""
    A, B = set(A), set(B)
    if len(A) != len(B):
        return False
    ga, gb = {t for t in A if not any(isinstance(x, BNode) for x in t)}, {t for t in B if not any(isinstance(x, BNode) for x in t)}
    if ga != gb:
        return False
    ra, rb = A - ga, B - gb
    ca, cb = _colours(ra), _colours(rb)
    if sorted(ca.values()) != sorted(cb.values()):
        return False
    order = sorted(ca, key=lambda x: (sum(1 for y in ca.values() if y == ca[x]), ca[x]))
    steps = [0]

    def go(i, m, used):
        steps[0] += 1
        if steps[0] > limit:
            raise OverflowError
        if i == len(order):
            return all(tuple(m.get(x, x) for x in t) in rb for t in ra)
        x = order[i]
        for y in cb:
            if y not in used and cb[y] == ca[x]:
                m[x] = y
                known = [t for t in ra if x in t and all(z in m for z in t if isinstance(z, BNode))]
                if all(tuple(m.get(z, z) for z in t) in rb for t in known):
                    if go(i + 1, m, used | {y}):
                        return True
                del m[x]
        return False

    try:
        return go(0, {}, frozenset())
    except OverflowError:
        return None


def compare(expected, text, fmt, st, what="output"):
    """texts of violations: `text` has to be the expected triples in that syntax"""
    h = Graph()
    try:
        h.parse(data=text, format=FORMATS[fmt])
    except Exception as e:
        ref = round_trip(expected, fmt)
        if ref is None:
            raise Skip("not serializable by rdflib as " + fmt)
        return ["%s is not in the syntax asked for (%s): %s: %s" % (what, fmt, type(e).__name__, str(e)[:200])]
    got = set(h)
    a, ma, _ = split_errors(expected)
    b, mb, _ = split_errors(got)
    st.count("triples compared", len(b))
    same = isomorphic(a, b)
    if same is None:
        st.count("isomorphism not decided")
    if same is False:
        ref = round_trip(expected, fmt)  # is that rdflib's serialization?
        if ref is None:
            raise Skip("not serializable by rdflib as " + fmt)
        c = split_errors(ref)[0]
        if not isomorphic(c, a):
            if isomorphic(c, b):
                st.count("rdflib itself loses data writing " + fmt)
                same = True
            else:
                raise Skip("rdflib does not serialize that faithfully as " + fmt)
    if same is False:
        ta = {t for t in a if not any(isinstance(x, BNode) for x in t)}
        tb = {t for t in b if not any(isinstance(x, BNode) for x in t)}
        out = ["%s lacks  %s" % (what, show(t)) for t in sorted(ta - tb, key=repr)[:4]]
        out += ["%s has in addition  %s" % (what, show(t)) for t in sorted(tb - ta, key=repr)[:4]]
        return out or ["%s differs in triples with blank nodes: %d expected, %d found" % (what, len(a), len(b))]
    if bool(ma) != bool(mb):
        return ["%s: error reports: %d, expected %d" % (what, len(mb), len(ma))]
    return []
