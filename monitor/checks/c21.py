import os
import random

from rdflib import XSD, BNode, Graph, Literal, URIRef

from monitor.common import *
from monitor import convert as CV
from monitor.real import cpu_limit, owlrl
from monitor.store import DoesNotStop
from monitor.terms import *

RULE = ("import graphs of up to 9 documents (chains, cycles, diamonds, self-imports, unreachable documents; syntaxes by suffix or fixed; import "
        "objects as file: IRIs, path strings or IRI strings; several import statements per document, with any subject) are interpreted; the "
        "graph afterwards is compared with the union of the reachable documents minus import statements, and the reads of every document "
        "are counted; through convert_graph with and without the OWL closure as well; non-trivial: at least two documents reached "
        "transitively; distinct by import graph and contents")
BUDGET = {"quick": 4200, "thorough": 60000}
MIN = {"quick": {"with a cycle": 500, "with a diamond": 500, "with a self-import": 200, "as string": 500, "documents read": 5000, "unreadable": 60,
                 "depth of 3 or more": 300, "convert_graph with OWL": 80, "convert_graph without OWL": 40}}
MIN["thorough"] = MIN["quick"]
SHRINK = ["docs"]
ASSUME = ["rdflib's parsers; only documents on the local file system (there is no network)"]


def document(rng, k):
    """contents without blank nodes, or with blank nodes of this document only"""
    out = []
    bn = rng.random() < 0.35
    for j in range(rng.randint(0, 4)):
        s = EX("i%d" % rng.randrange(4)) if not (bn and rng.random() < 0.4) else BNode("x%dy%d" % (k, rng.randrange(2)))
        o = rng.choice([EX("d%d" % k), L("v%d" % k), L(str(j), "xsd:integer"), EX("c%d" % rng.randrange(3))])
        out.append((s, EX("p%d" % rng.randrange(3)), o))
    r = rng.random()
    if r < 0.3:
        out.append((EX("c0"), U("rdfs:subClassOf"), EX("c1")))
    elif r < 0.5:
        out.append((EX("i0"), U("rdf:type"), EX("c0")))
    elif r < 0.6:  # not an import statement
        out.append((EX("o%d" % k), U(rng.choice(["owl:priorVersion", "owl:versionInfo", "rdfs:seeAlso"])), EX("d0")))
    elif r < 0.65:
        out.append((U("owl:imports"), U("rdf:type"), U("owl:OntologyProperty")))
    return out


def gen(rng, i, tier):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 9])
    iformat = rng.choice(["auto", "auto", "auto", "turtle", "xml", "rdfxml", "json"])
    fixed = {"turtle": "turtle", "xml": "xml", "rdfxml": "xml", "json": "json"}.get(iformat)
    docs = []
    for k in range(n):
        syn = fixed or rng.choice(["turtle", "turtle", "xml", "json"])
        docs.append({"triples": enc_graph(document(rng, k)), "syntax": syn, "suffix": rng.choice(CV.SUFFIX[syn]), "name": "d%d" % k,
                     "as": rng.choice(["iri", "iri", "iri", "path", "string", "uri-typed", "path-typed", "path-string", "path-lang"]), "imports": [], "missing": False})
    shape = rng.choice(["chain", "random", "random", "cycle", "diamond", "star"])
    for k in range(n):
        if shape == "chain":
            tos = [k + 1] if k + 1 < n else []
        elif shape == "cycle":
            tos = [(k + 1) % n]
        elif shape == "diamond":
            tos = [j for j in range(k + 1, min(n, k + 4))]
        elif shape == "star":
            tos = list(range(1, n)) if k == 0 else []
        else:
            tos = [j for j in range(n) if rng.random() < 0.3]
        if rng.random() < 0.1:
            tos = tos + [rng.randrange(n)]
        docs[k]["imports"] = [[rng.choice(["o%d" % k, "o", "i0", "_"]), "d%d" % j] for j in dict.fromkeys(tos)]
    roots = [[rng.choice(["root", "o", "i1", "_"]), "d%d" % j] for j in dict.fromkeys([0] + [j for j in range(n) if rng.random() < 0.15])]
    if rng.random() < 0.05:
        roots = []
    if rng.random() < 0.04:
        rng.choice(docs)["missing"] = True
    return {"docs": docs, "iformat": iformat, "root": enc_graph(document(rng, 99)), "roots": roots, "salt": rng.randrange(10**6),
            "via": rng.choice(["direct"] * 9 + ["convert"])}


class Reads:
    """counts how often each document is parsed"""

    def __init__(self):
        self.log = []

    def __enter__(self):
        self.orig = orig = Graph.parse
        log = self.log

        def parse(g, *a, **kw):
            src = a[0] if a else kw.get("source") or kw.get("location") or kw.get("file") or ""
            log.append(os.path.basename(str(getattr(src, "name", src))))
            if len(log) > 200:
                raise DoesNotStop("more than 200 documents read")
            return orig(g, *a, **kw)

        Graph.parse = parse
        return self

    def __exit__(self, *a):
        Graph.parse = self.orig


class Options:
    pass


def judge(case, st):
    rng = random.Random(case["salt"])
    docs = {d["name"]: d for d in case["docs"]}
    with CV.Dir() as d:
        path = {n: os.path.join(d, n + x["suffix"]) for n, x in docs.items()}

        def ref(n):
            p = path[n]
            return {"iri": URIRef("file://" + p), "path": Literal(p), "string": Literal("file://" + p),
                    "uri-typed": Literal("file://" + p, datatype=XSD.anyURI), "path-typed": Literal(p, datatype=XSD.anyURI),
                    "path-string": Literal(p, datatype=XSD.string), "path-lang": Literal(p, lang="en")}[docs[n]["as"]]

        def subj(s):
            return BNode() if s == "_" else EX(s)

        for n, x in docs.items():
            T = dec_graph(x["triples"]) + [(subj(s), CV.IMPORTS, ref(j)) for s, j in x["imports"] if j in docs]
            if not x["missing"]:
                CV.write(T, x["syntax"], path[n], pretty=rng.random() < 0.5)
        roots = [(s, j) for s, j in case["roots"] if j in docs]
        depth, todo = {}, [(j, 1) for _, j in roots]
        while todo:
            j, k = todo.pop(0)
            if j not in depth:
                depth[j] = k
                if not docs[j]["missing"]:
                    todo += [(m, k + 1) for _, m in docs[j]["imports"] if m in docs]
        root = dec_graph(case["root"]) + [(subj(s), CV.IMPORTS, ref(j)) for s, j in roots]
        g, want = Graph(), Graph()
        for t in root:
            g.add(t)
            want.add(t)
        unreadable = any(docs[j]["missing"] for j in depth)
        if not unreadable:
            for j in depth:
                want.parse(path[j], format=CV.FORMATS[docs[j]["syntax"]])
            want.remove((None, CV.IMPORTS, None))
        st.count("unreadable", unreadable)
        reach = {j: [m for _, m in docs[j]["imports"] if m in depth] for j in depth}
        indeg = {}
        for j in reach:
            for m in reach[j]:
                indeg[m] = indeg.get(m, 0) + 1
        st.count("with a self-import", any(j in reach[j] for j in reach))
        st.count("with a cycle", _cyclic(reach))
        st.count("with a diamond", any(v > 1 for v in indeg.values()))
        st.count("as string", any(docs[j]["as"] != "iri" for j in depth))
        st.count("depth of 3 or more", bool(depth) and max(depth.values()) >= 3)
        st.peak("documents", len(depth))
        st.count("documents read", len(depth))
        if len(depth) >= 2 and any(k > 1 for k in depth.values()):
            st.nontrivial((case["docs"], case["root"], case["roots"]))
        if case["via"] == "convert":
            return through_convert(case, st, d, root, want, unreadable)
        try:
            with Reads() as reads, cpu_limit(60):
                owlrl.interpret_owl_imports(case["iformat"], g)
        except DoesNotStop:
            raise
        except Exception as e:
            if unreadable:
                return []
            raise
        if unreadable:
            return ["an imported document that cannot be read is passed over in silence"]
        out = []
        for j in sorted(docs):
            c = reads.log.count(os.path.basename(path[j]))
            if c != (1 if j in depth else 0):
                out.append("%s document %s is read %d times" % ("reachable" if j in depth else "unreachable", j, c))
        if (None, CV.IMPORTS, None) in g:
            out.append("import statements remain: %s" % [show(t) for t in g.triples((None, CV.IMPORTS, None))][:3])
        same = CV.isomorphic(set(g), set(want))
        st.count("triples compared", len(want))
        if same is False:
            out += diff(set(want), set(g), what="graph after the imports")[:6]
        return out


def _cyclic(reach):
    state = {}

    def go(j):
        state[j] = 1
        for m in reach[j]:
            if state.get(m) == 1 or (m not in state and go(m)):
                return True
        state[j] = 2
        return False

    return any(go(j) for j in reach if j not in state)


def through_convert(case, st, d, root, want, unreadable):
    """convert_graph interprets imports exactly when the OWL closure is requested"""
    rng = random.Random(case["salt"] + 1)
    o = Options()
    o.sources, o.iformat, o.format = [], case["iformat"], "turtle"
    o.text = CV.write(root, "turtle", os.path.join(d, "roottext"))
    if not o.text.strip():
        raise Skip("empty root document")
    f = CV.flags(rng)
    f["axioms"] = f["daxioms"] = False
    for a, k in (("owlClosure", "owl"), ("rdfsClosure", "rdfs"), ("owlExtras", "extras"), ("trimming", "trimming"), ("axioms", "axioms"),
                 ("daxioms", "daxioms")):
        setattr(o, a, f[k])
    st.count("convert_graph with OWL" if f["owl"] else "convert_graph without OWL")
    try:
        with Reads(), cpu_limit(60):
            text = owlrl.convert_graph(o)
    except DoesNotStop:
        raise
    except Exception:
        if unreadable and f["owl"]:
            return []
        raise
    if f["owl"] and unreadable:
        return ["an imported document that cannot be read is passed over in silence"]
    start = Graph()
    for t in (want if f["owl"] else root):
        start.add(t)
    return CV.compare(CV.closure_of(start, f), text, "turtle", st)


def sample(case):
    return {"imports": {x["name"] + x["suffix"]: x["imports"] for x in case["docs"]}, "root imports": case["roots"], "iformat": case["iformat"],
            "contents": {x["name"]: [show(t) for t in dec_graph(x["triples"])] for x in case["docs"]}}
