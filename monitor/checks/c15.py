from monitor.common import *
from monitor import gen as G, facets as FA
from monitor.terms import *
from monitor.model import Model, ancestors

RULE = ("one to three datatype restrictions over all facetable datatypes (bounds on and next to values, several facets of one kind, lengths in "
        "characters or octets, patterns, language ranges) with literals of the base datatype and those below it near the boundaries, used in "
        "someValuesFrom/allValuesFrom/ranges; the extension closure (RDFS on or off) is compared triple for triple and report for report with "
        "a model that evaluates facets independently; non-trivial: at least one literal fits and one does not; distinct by graph")
BUDGET = {"quick": 1500, "thorough": 26000}
MIN = {"quick": {"expansions": 250, "literals that fit": 150, "literals that do not": 150, "fired avf-facets": 30, "base datatypes": 22}}
MIN["thorough"] = MIN["quick"]
W = {"prp-rng": 1, "prp-spo1": 1, "cax-sco": 1, "prp-dom": 1}


def gen(rng, i, tier):
    g = G.Gen(rng, W, n=3, nc=2, np=rng.randint(1, 3), literals=[])
    rs = []
    base = None
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        uri = EX("t%03d" % k) if rng.random() < 0.7 else B("t%03d" % k)
        r = FA.Restriction(rng, uri, base if base and rng.random() < 0.5 else None)
        base = r.base
        r.triples(g)
        rs.append(r)
    lits = []
    for r in rs:
        for _ in range(rng.randint(1, 4)):
            l = r.literal(rng)
            lits.append(l)
            g.emit(g.ind(), g.prop(), l)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.choice(rs)
        c = rng.choice(g.classes)
        x = rng.random()
        if x < 0.35:
            g.emit(c, G.SVF, r.uri)
            g.emit(c, G.ONP, g.prop())
        elif x < 0.75:
            g.emit(c, G.AVF, r.uri)
            g.emit(c, G.ONP, g.prop())
            g.derive((g.ind(), G.TYPE, c), rng.choice([0, 1]))
        elif x < 0.85:
            g.emit(g.ind(), G.TYPE, r.uri)
        elif x < 0.9:
            g.emit(g.prop(), G.RNG, U(r.base))
        elif x < 0.95:
            g.emit(r.uri, G.SCO, c)
        else:
            g.emit(g.prop(), G.SPO, g.prop())
    return case_of(g.result(), rts=[[enc(r.uri), r.base, [[f, enc(v)] for f, v in r.facets]] for r in rs], rdfs=rng.random() < 0.12)


def judge(case, st):
    T = dec_graph(case["triples"])
    facets = {}
    have = set(T)
    for u, base, fs in case["rts"]:
        u, fs = dec(u), [(f, dec(v)) for f, v in fs]
        facets[u] = (U(base), (lambda l, base=base, fs=fs: FA.fits(l, base, fs)))
        # the definition has to be complete (shrinking)
        if (u, U("owl:onDatatype"), U(base)) not in have or (u, G.TYPE, U("rdfs:Datatype")) not in have:
            raise Skip("incomplete definition")
        vals = {(p, o) for _, p, o in T}
        if any((U(f), v) not in vals for f, v in fs):
            raise Skip("incomplete definition")
    try:
        exp = Model("extension", rdfs=case["rdfs"], facets=facets).expected(T, limit=1500)
        pairs = {(l, str(u)): FA.fits(l, base, [(f, dec(v)) for f, v in fs]) for u, base, fs in case["rts"] for l in literal_objects(T)
                 if (l.datatype is not None and (short(l.datatype) == base or base in ancestors(short(l.datatype))))}
    except FA.Undecided:
        raise Skip("facet value not claimed")
    except LimitExceeded:
        raise Skip("closure too large")
    if G.ill_formed_lists(exp.facts):
        raise Skip("ill-formed or merged lists")
    res = closure(T, "extension", rdfs=case["rdfs"])
    st.count("expansions")
    st.count("literals that fit", sum(pairs.values()))
    st.count("literals that do not", len(pairs) - sum(pairs.values()))
    for _, b, _ in case["rts"]:
        st.see("base datatypes", b)
    count_fired(st, exp)
    if len(set(pairs.values())) == 2:
        st.nontrivial(sorted(map(repr, T)))
    out = diff(exp.triples, res.triples, exp=exp, what="extension closure")
    out += judge_clashes(exp, res, st)
    return out

