import os
import random

from rdflib import BNode, Graph, Literal, URIRef

from monitor.common import *
from monitor import convert as CV, gen as G, mixed
from monitor.real import closure_class, cpu_limit, owlrl, expand
from monitor.terms import *

RULE = ("sources (documents written in several syntaxes, named by path or file: IRI, listed once or twice, split of one graph or several), Turtle "
        "text, input and output syntax and closure options (booleans and strings) are passed to convert_graph; the output, parsed back, is "
        "compared with the in-memory closure of the merged documents that the options select, up to blank node names; also imports, explicit "
        "closure classes, options objects lacking the optional attributes, requests without input, unreadable input; non-trivial: something "
        "is to be inferred; distinct by documents and options")
BUDGET = {"quick": 900, "thorough": 14000}
MIN = {"quick": {"requests": 500, "two or more sources": 100, "with text": 150, "imports": 60, "refused": 30, "closure class given": 30,
                 "kind None": 60, "kind owl": 50, "kind rdfs": 40, "kind combined": 30, "kind extension": 30, "kind trimming": 30}}
MIN["thorough"] = MIN["quick"]
SHRINK = ["docs"]
ASSUME = ["rdflib's parsers and serializers (outputs rdflib itself cannot write or read back faithfully are not judged)"]


class Options:
    pass


def gen(rng, i, tier):
    f = CV.flags(rng)
    kind = CV.kind_of(f)
    case = {"flags": f, "yes": {k: rng.choice(range(len(CV.YES))) for k in f}, "no": {k: rng.choice(range(len(CV.NO))) for k in f},
            "format": rng.choice(["turtle", "turtle", "json", "xml", "rdfxml", "n3", "TURTLE"]), "salt": rng.randrange(10**9)}
    if rng.random() < 0.06:
        case.update(docs=[], text=rng.choice([None, "", "  \n\t "]), bad=None, drop=[], imports=[], iformat="auto", source=None, cls=None)
        return case
    iformat = rng.choice(["auto"] * 5 + ["turtle", "xml", "rdfxml", "json", None])
    n = rng.choice([0, 1, 1, 1, 2, 2, 3])
    docs = []
    whole = CV.document(rng, kind or "owl", size=0.4, label="w")
    rng.shuffle(whole)
    for k in range(n):
        T = whole[k::n] if rng.random() < 0.6 else CV.document(rng, kind or "owl", size=0.25, label="d%d" % k)
        if any(isinstance(x, BNode) for t in T for x in t) and T and T[0] in whole:
            T = CV.document(rng, kind or "owl", size=0.3, label="d%d" % k)
        syn = {"turtle": "turtle", "xml": "xml", "rdfxml": "xml", "json": "json"}.get(iformat)
        if syn is None:
            syn = rng.choice(["turtle", "turtle", "xml", "json"])
            suf = rng.choice(CV.SUFFIX[syn])
        else:
            suf = rng.choice([".ttl", ".rdf", ".json", "", ".html"])
        docs.append({"triples": enc_graph(T), "syntax": syn, "suffix": suf, "uri": rng.random() < 0.4, "listed": rng.choice([1, 1, 1, 2, 3])})
    text = None
    if n == 0 or rng.random() < 0.4:
        text = rng.choice(["", "   "]) if n and rng.random() < 0.2 else enc_graph(CV.document(rng, kind or "owl", size=0.3, label="t"))
    imports = []
    if rng.random() < 0.25 and (n or isinstance(text, list)):
        # documents only reachable by owl:imports
        for k in range(rng.randint(1, 2)):
            syn = {"turtle": "turtle", "xml": "xml", "rdfxml": "xml", "json": "json"}.get(iformat) or rng.choice(["turtle", "xml", "json"])
            imports.append({"triples": enc_graph(CV.document(rng, kind or "owl", size=0.25, label="m%d" % k)), "syntax": syn,
                            "suffix": rng.choice(CV.SUFFIX[syn]), "via": rng.choice(["main", "other"]), "literal": rng.random() < 0.3})
    bad = None
    if rng.random() < 0.08 and n:
        bad = rng.choice(["missing", "malformed", "iformat", "text"])
    case.update(docs=docs, text=text, imports=imports, bad=bad, iformat=iformat,
                source=rng.choice(["same", "none", None, None]) if n else None,
                drop=[a for a in ("trimming",) if not f["trimming"] and rng.random() < 0.3],
                cls=rng.choice(["rdfs", "owl", "combined", "extension", "trimming"]) if rng.random() < 0.1 else None)
    return case


def judge(case, st):
    f = case["flags"]
    rng = random.Random(case["salt"])
    with CV.Dir() as d:
        o = Options()
        expected = Graph()
        names = []
        o.sources = []
        imps = case["imports"]
        urls = [os.path.join(d, "imp%d%s" % (k, m["suffix"])) for k, m in enumerate(imps)]

        def statements(via):
            out = []
            for k, m in enumerate(imps):
                if (m["via"] == "main" or k == 0) == (via == "main"):
                    out.append((EX("onto"), CV.IMPORTS, Literal(urls[k]) if m["literal"] else URIRef("file://" + urls[k])))
            return out

        for k, m in enumerate(imps):
            T = dec_graph(m["triples"]) + (statements("other") if k == 0 else [])
            CV.write(T, m["syntax"], urls[k])
        main = statements("main")
        for k, doc in enumerate(case["docs"]):
            path = os.path.join(d, "doc%d%s" % (k, doc["suffix"]))
            CV.write(dec_graph(doc["triples"]) + (main if k == 0 else []), doc["syntax"], path)
            expected.parse(path, format=CV.FORMATS[doc["syntax"]])
            name = "file://" + path if doc["uri"] else path
            names.append(name)
            o.sources += [name] * doc["listed"]
        rng.shuffle(o.sources)
        if isinstance(case["text"], list):
            o.text = CV.write(dec_graph(case["text"]) + ([] if case["docs"] else main), "turtle", os.path.join(d, "text"))
            expected.parse(data=o.text, format="turtle")
        else:
            o.text = case["text"]
        if case["iformat"] is not None:
            o.iformat = case["iformat"]
        if case["source"] == "same":
            o.source = names[0]
        elif case["source"] == "none":
            o.source = None
        for attr, key in (("owlClosure", "owl"), ("rdfsClosure", "rdfs"), ("owlExtras", "extras"), ("trimming", "trimming"),
                          ("axioms", "axioms"), ("daxioms", "daxioms")):
            if attr not in case["drop"]:
                setattr(o, attr, CV.YES[case["yes"][key]] if f[key] else CV.NO[case["no"][key]])
        o.format = case["format"]
        kw = {}
        if case["cls"]:
            kw["closureClass"] = closure_class(case["cls"])
        if case["bad"] == "missing":
            o.sources.append(os.path.join(d, "nowhere.ttl"))
        elif case["bad"] == "malformed":
            p = os.path.join(d, "bad.ttl")
            open(p, "w").write("this is <not RDF at all")
            o.sources.append(p)
        elif case["bad"] == "iformat":
            o.iformat = rng.choice(["pdf", "TTL", "", "ntriples"])
        elif case["bad"] == "text":
            o.text = "<a> <b> "
        nothing = not o.sources and not (o.text or "").strip()
        if nothing or case["bad"]:
            st.count("refused")
            try:
                with cpu_limit(60):
                    text = owlrl.convert_graph(o, **kw)
            except Exception:
                return []
            return ["a request %s is answered with %r" % ("without any input" if nothing else "with %s input" % case["bad"], str(text)[:100])]
        fmt = {"xml": "xml", "rdfxml": "xml", "json": "json"}.get(case["format"], "turtle")
        if f["owl"]:
            for k in range(len(imps)):
                g = Graph()
                g.parse(urls[k], format=CV.FORMATS[imps[k]["syntax"]])
                for t in g:
                    expected.add(t)
            expected.remove((None, CV.IMPORTS, None))
        before = set(expected)
        if len(before) > 120:
            raise Skip("too large")
        k = case["cls"] or CV.kind_of(f)
        if k:
            model_of(sorted(before, key=repr), "extension" if k == "trimming" else k, f["rdfs"], f["axioms"], f["daxioms"], limit=1000)
        want = CV.closure_of(expected, f, kind=case["cls"] or "?")
        if len(want) > 2500 or (fmt == "xml" and len(want) > 1200):
            raise Skip("too large")
        st.count("requests")
        st.count("kind %s" % CV.kind_of(f))
        st.count("two or more sources", len(case["docs"]) > 1)
        st.count("with text", isinstance(case["text"], list))
        st.count("imports", bool(imps))
        st.count("closure class given", bool(case["cls"]))
        st.count("output " + fmt)
        if len(want) > len(CV.standard(before)):
            st.nontrivial((case["docs"], case["text"], sorted(f.items()), case["format"]))
        try:
            with cpu_limit(120):
                text = owlrl.convert_graph(o, **kw)
        except Exception:
            if CV.round_trip(want, fmt) is None:
                raise Skip("not serializable by rdflib as " + fmt)
            raise
        if isinstance(text, bytes):
            text = text.decode("utf-8")
        return CV.compare(want, text, fmt, st)


def sample(case):
    return {"options": case["flags"], "iformat": case["iformat"], "format": case["format"],
            "sources": [[show(t) for t in dec_graph(x["triples"])] + [x["syntax"] + " " + x["suffix"]] for x in case["docs"]],
            "text": [show(t) for t in dec_graph(case["text"])] if isinstance(case["text"], list) else case["text"]}
