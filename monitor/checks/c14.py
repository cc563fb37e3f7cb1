from monitor.common import *
from monitor import gen as G, mixed
from monitor.terms import *

RULE = ("graphs with self restrictions (asserted or inferred, on inferred loops and memberships, on several properties), owl:rational and decimal "
        "literals of every subtype (valid and malformed n/d forms), memberships in owl:rational, and mixed constructs; the extension closure (RDFS on or off, with or without "
        "axioms) is compared triple for triple and report for report with the model; non-trivial: a self rule fires or a rational/decimal "
        "literal is present; distinct by graph and options")
BUDGET = {"quick": 900, "thorough": 13000}
MIN = {"quick": {"expansions": 300, "fired self1": 100, "fired self2": 100, "valid rationals": 60, "malformed rationals": 30, "with rdfs": 30,
                 "without self restriction": 30}}
MIN["thorough"] = MIN["quick"]
GOOD = ["1/2", "-1/2", "+3/4", "0/5", "10/4", "007/03", "-0/1", "123456789012345678901/3", "4/100000000000000000000", "2/4", "5/1", "3", "-5", "+7", "0", "-0", "007", "-1/1", "123456789012345678901"]
BAD = ["1/0", "1/-2", "1/+2", "1.5/2", "a/b", "1/2/3", "/2", "1/", "", "1 /2", "1/ 2", " 1/2", "--1/2", "1//2", "x", "1_0/2", "1/2_0", "0x1/2"]
DEC = ["xsd:decimal", "xsd:integer", "xsd:byte", "xsd:negativeInteger", "xsd:unsignedInt", "xsd:positiveInteger"]
HS = U("owl:hasSelf")


def gen(rng, i, tier):
    g = mixed.builder(rng, "extension", size=rng.choice([0.3, 0.5, 0.8]), punning=0.1, clash=0.1)
    selfs = rng.choice([0, 1, 1, 1, 2, 3])
    for _ in range(selfs):
        c, p = g.cls(), g.prop()
        g.emit(c, HS, rng.choice([L("true", "xsd:boolean"), L("true", "xsd:boolean"), L("1", "xsd:boolean"), U("owl:Thing")]))
        if rng.random() < 0.8:
            g.emit(c, G.ONP, p)
        else:
            g.derive((c, G.ONP, p), 1)
        if rng.random() < 0.2:
            g.emit(c, G.ONP, g.prop())
        for _ in range(rng.randint(1, 3)):
            x = g.ind()
            r = rng.random()
            if r < 0.35:
                g.derive((x, G.TYPE, c), rng.choice([0, 0, 1, 2]))
            elif r < 0.7:
                g.derive((x, p, x), rng.choice([0, 0, 1, 2]))
            elif r < 0.85:
                y = g.ind()  # a loop that appears by equality
                g.emit(x, p, y)
                g.derive((x, G.SAME, y), rng.choice([0, 1]))
            else:
                g.emit(x, p, g.val())
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.45:
            v = L(rng.choice(GOOD), "owl:rational")
        elif r < 0.65:
            v = L(rng.choice(BAD), "owl:rational")
        else:
            dt = rng.choice(DEC)
            v = L(rng.choice(mixed.VALID[dt]), dt)
        g.emit(g.ind(), g.prop(), v)
        if rng.random() < 0.3:
            g.emit(g.ind(), G.TYPE, rng.choice([U("owl:rational"), U("xsd:decimal"), U("xsd:byte")]))
    opts = mixed.options(rng, "extension", axioms=0.12)
    opts["rdfs"] = rng.random() < 0.3
    return case_of(g.result(), opts=opts, shuffle=rng.choice([None, rng.randrange(1000)]))


def judge(case, st):
    T = dec_graph(case["triples"])
    out, exp, res = judge_closure(T, "extension", st, case["opts"], shuffle=case.get("shuffle"), clashes=True)
    rat = [o for o in literal_objects(T) if o.datatype == U("owl:rational")]
    st.count("valid rationals", sum(str(o) in GOOD for o in rat))
    st.count("malformed rationals", sum(str(o) in BAD for o in rat))
    st.count("with rdfs", case["opts"].get("rdfs", False))
    st.count("without self restriction", not any(p == HS for _, p, _ in T))
    if exp.fired.get("self1") or exp.fired.get("self2") or rat:
        st.nontrivial((sorted(map(repr, T)), sorted(case["opts"].items())))
    return out
