"""Terms, vocabularies and the JSON encoding of terms and graphs used in cases and replay files."""
from rdflib import BNode, Literal, URIRef

RDFN = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
RDFSN = "http://www.w3.org/2000/01/rdf-schema#"
OWLN = "http://www.w3.org/2002/07/owl#"
XSDN = "http://www.w3.org/2001/XMLSchema#"
EXN = "http://ex.org/"
ERRN = "http://www.daml.org/2002/03/agents/agent-ont#"

PREFIX = {"rdf": RDFN, "rdfs": RDFSN, "owl": OWLN, "xsd": XSDN, "ex": EXN, "err": ERRN}


def U(curie):
    p, l = curie.split(":", 1)
    return URIRef(PREFIX[p] + l)


def EX(name):
    return URIRef(EXN + name)


def B(name):
    return BNode(name)


def L(lex, dt=None, lang=None):
    """A literal, exactly as written (never normalized)."""
    if isinstance(dt, str) and ":" in dt and not dt.startswith("http"):
        dt = U(dt)
    if lang:
        return Literal(lex, lang=lang)
    if dt is None:
        return Literal(lex)
    return Literal(lex, datatype=URIRef(dt), normalize=False)


def enc(t):
    if isinstance(t, Literal):
        return ["l", str(t), None if t.datatype is None else str(t.datatype), t.language]
    if isinstance(t, BNode):
        return ["b", str(t)]
    return ["u", str(t)]


def dec(e):
    if e[0] == "l":
        return L(e[1], None if e[2] is None else URIRef(e[2]), e[3])
    if e[0] == "b":
        return BNode(e[1])
    return URIRef(e[1])


def enc_graph(triples):
    return [[enc(s), enc(p), enc(o)] for s, p, o in triples]


def dec_graph(rows):
    return [(dec(s), dec(p), dec(o)) for s, p, o in rows]


def short(t):
    if isinstance(t, Literal):
        s = '"%s"' % (str(t) if len(str(t)) < 60 else str(t)[:57] + "...")
        if t.language:
            return s + "@" + t.language
        if t.datatype is not None:
            return s + "^^" + short(URIRef(t.datatype))
        return s
    if isinstance(t, BNode):
        return "_:" + str(t)
    for k, v in PREFIX.items():
        if str(t).startswith(v):
            return k + ":" + str(t)[len(v):]
    return "<%s>" % t


def show(triple):
    return " ".join(short(t) for t in triple)
