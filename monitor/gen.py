"""Generation of graphs.

Graphs are built backwards from conclusions: `derive(goal, depth)` picks one way (a rule of the specification) in which
the goal triple can follow, and emits the premises, one of them derived in turn with the remaining depth.  So every rule is
exercised with premises that are themselves only inferred, in cascades as long as wanted.  A graph is a handful of such
derivations over small shared pools of names (so that they interact), plus noise, minus a few premises (near misses).
What follows from a graph is not known to the generator; the models decide.
"""
from rdflib import BNode, Literal

from .terms import B, EX, L, U

TYPE, SAME, SCO, SPO = U("rdf:type"), U("owl:sameAs"), U("rdfs:subClassOf"), U("rdfs:subPropertyOf")
EQC, EQP, DOM, RNG = U("owl:equivalentClass"), U("owl:equivalentProperty"), U("rdfs:domain"), U("rdfs:range")
THING, NOTHING = U("owl:Thing"), U("owl:Nothing")
ONP, SVF, AVF, HV = U("owl:onProperty"), U("owl:someValuesFrom"), U("owl:allValuesFrom"), U("owl:hasValue")
MAXC, MAXQ, ONC = U("owl:maxCardinality"), U("owl:maxQualifiedCardinality"), U("owl:onClass")
FIRST, REST, NIL = U("rdf:first"), U("rdf:rest"), U("rdf:nil")
INV, CHAIN, KEY = U("owl:inverseOf"), U("owl:propertyChainAxiom"), U("owl:hasKey")
INT, UNI, OO = U("owl:intersectionOf"), U("owl:unionOf"), U("owl:oneOf")
LISTY = {FIRST, REST, CHAIN, KEY, INT, UNI, OO, U("owl:members"), U("owl:distinctMembers")}

LITERALS = [
    L("a"), L("b", lang="en"), L("b", lang="fr"), L("1", "xsd:integer"), L("2", "xsd:integer"), L("x", "xsd:string"),
    L("true", "xsd:boolean"), L("1.5", "xsd:decimal"), L("7", "xsd:byte"), L("2020-01-01", "xsd:date"),
    L("2020-01-01T00:00:00Z", "xsd:dateTime"), L("abc", "xsd:token"), L("z", EX("dt")), L("1.0E0", "xsd:double"),
]
# literals that are easily mistaken for one another: same form and different value, different form and same value
TWINS = [
    [L("1"), L("1", "xsd:integer"), L("1", "xsd:boolean"), L("1.0", "xsd:decimal"), L("true", "xsd:boolean"), L("01", "xsd:byte"), L("1", "xsd:double")],
    [L("a"), L("a", "xsd:token"), L("a", lang="en"), L("a", lang="fr"), L("a", "xsd:anyURI"), L("a", EX("dt"))],
    [L("2020-01-01T00:00:00Z", "xsd:dateTime"), L("2020-01-01T01:00:00+01:00", "xsd:dateTime"), L("2020-01-01T00:00:00", "xsd:dateTime"),
     L("2020-01-01", "xsd:date"), L("2020-01-01")],
    [L("61", "xsd:hexBinary"), L("YQ==", "xsd:base64Binary"), L("61", "xsd:int"), L("61", "xsd:string"), L("http://ex.org/i000"), L("i000")],
]

# productions per family: name -> weight
EQ = {"eq-rep-s": 3, "eq-rep-o": 3, "eq-rep-p": 3, "eq-sym": 2, "eq-trans": 3}
PRP = {"prp-dom": 2, "prp-rng": 2, "prp-fp": 2, "prp-ifp": 2, "prp-symp": 2, "prp-trp": 2, "prp-spo1": 2, "prp-eqp1": 1.5,
       "prp-eqp2": 1.5, "prp-inv1": 1.5, "prp-inv2": 1.5, "prp-spo2": 4, "prp-key": 6}
CLS = {"cls-int1": 2, "cls-int2": 2, "cls-uni": 2, "cls-svf1": 2, "cls-svf2": 1, "cls-avf": 2, "cls-hv1": 2, "cls-hv2": 2,
       "cls-oo": 2, "cls-maxc2": 3, "cls-maxqc3": 3, "cls-maxqc4": 3}
CAX = {"cax-sco": 2, "cax-eqc1": 2, "cax-eqc2": 2}
SCM = {"scm-sco": 2, "scm-eqc1": 2, "scm-eqc2": 2, "scm-spo": 2, "scm-eqp1": 2, "scm-eqp2": 2, "scm-dom1": 2, "scm-dom2": 2,
       "scm-rng1": 2, "scm-rng2": 2, "scm-hv": 2, "scm-svf1": 2, "scm-svf2": 2, "scm-avf1": 2, "scm-avf2": 2, "scm-int": 2,
       "scm-uni": 2}
RDFS = {"rdfs2": 2, "rdfs3": 2, "rdfs5": 2, "rdfs7": 2, "rdfs9": 2, "rdfs11": 2, "rdfs12": 1}
SELF = {"self1": 3, "self2": 3}


def mix(*parts):
    out = {}
    for w, d in parts:
        for k, v in d.items():
            out[k] = out.get(k, 0) + w * v
    return out


class Gen:
    def __init__(self, rng, weights, n=6, nc=6, np=5, literals=LITERALS, literal_rate=0.15, bnode_preds=0.0,
                 vocabulary=0.0, punning=0.0, long_lists=0.15, dense=False):
        self.rng = rng
        self.dense = dense
        self.alias = 0.08 if any(weights.get(k) for k in ("eq-rep-s", "prp-spo1", "prp-eqp1")) and not weights.get("rdfs7") or weights.get("prp-spo2") else 0
        if dense:  # so few names that coincidences are the rule
            n, nc, np = min(n, rng.randint(2, 3)), min(nc, rng.randint(2, 3)), min(np, rng.randint(1, 3))
            long_lists = 0.03
        self.w = weights
        self.T = []
        self.have = set()
        self.nx = 0
        self.inds = [EX("i%03d" % k) if rng.random() < 0.75 else B("b%03d" % k) for k in range(n)]
        self.classes = [EX("c%03d" % k) if rng.random() < 0.75 else B("d%03d" % k) for k in range(nc)]
        self.props = [EX("p%03d" % k) if rng.random() >= bnode_preds else B("q%03d" % k) for k in range(np)]
        self.lits = rng.sample(literals, min(len(literals), 4)) if literals else []
        if literals is LITERALS and rng.random() < 0.25:
            tw = rng.choice(TWINS)
            self.lits = rng.sample(tw, min(len(tw), 4))
        self.lrate = literal_rate if self.lits else 0
        self.vocabulary = vocabulary  # probability of deriving vocabulary triples by property rules
        self.punning = punning
        self.long = long_lists
        self.goals = []

    # ------------------------------------------------------------------ picks
    def ind(self):
        r = self.rng
        if self.punning and r.random() < self.punning:
            return r.choice(self.classes + self.props + [EX("o%03d" % r.randrange(3)), THING, TYPE])
        return r.choice(self.inds)

    def val(self):
        return self.rng.choice(self.lits) if self.rng.random() < self.lrate else self.ind()

    def cls(self):
        r = self.rng
        x = r.random()
        if x < 0.04:
            return THING
        if self.punning and x < 0.04 + self.punning:
            return r.choice(self.inds + self.props)
        return r.choice(self.classes)

    def prop(self):
        r = self.rng
        if self.punning and r.random() < self.punning:
            return r.choice([x for x in self.inds + self.classes if not isinstance(x, BNode)] or self.props)
        return r.choice(self.props)

    def fresh(self, kind="x"):
        self.nx += 1
        n = "%s%03d" % (kind, self.nx)
        return B(n) if self.rng.random() < 0.6 else EX(n)

    # ------------------------------------------------------------------ output
    def emit(self, s, p, o):
        if isinstance(s, Literal) or isinstance(p, Literal):
            return False
        t = (s, p, o)
        if t not in self.have:
            self.have.add(t)
            self.T.append(t)
        return True

    def list(self, members):
        """Emit a list, return its head."""
        members = list(members)
        if not members:
            return NIL
        cells = [self.fresh("l") for _ in members]
        for i, m in enumerate(members):
            self.emit(cells[i], FIRST, m)
            self.emit(cells[i], REST, cells[i + 1] if i + 1 < len(cells) else NIL)
        x = self.rng.random()
        if 0.9 < x < 0.9 + self.alias / 4:  # no list: a part is missing, or it is circular
            c = self.rng.choice(cells)
            k = self.rng.choice([FIRST, REST])
            t = [t for t in self.T if t[0] == c and t[1] == k][0]
            self.T.remove(t)
            self.have.discard(t)
            if k == REST and self.rng.random() < 0.5:
                self.emit(c, REST, self.rng.choice(cells))
        if x < self.alias:  # a list that is known only by inference
            x = self.rng.random()
            if x < 0.6:
                a = self.fresh("a")
                self.emit(*((a, SAME, cells[0]) if self.rng.random() < 0.5 else (cells[0], SAME, a)))
                return a
            i = self.rng.randrange(len(cells))
            link = FIRST if x < 0.8 else REST
            for k, t in enumerate(self.T):
                if t[0] == cells[i] and t[1] == link and not isinstance(t[2], Literal):
                    q = EX("my%s" % ("First" if link == FIRST else "Rest"))
                    del self.T[k]
                    self.have.discard(t)
                    self.emit(cells[i], q, t[2])
                    self.emit(q, self.rng.choice([SPO, EQP]), link)
                    break
        return cells[0]

    def length(self, lo=1, mid=4, hi=9):
        r = self.rng
        return r.randint(5, hi) if r.random() < self.long else r.randint(lo, mid)

    # ------------------------------------------------------------------ derivations
    def derive(self, goal, depth=0, level=0):
        """Make the goal follow; depth = number of derivation steps wanted."""
        s, p, o = goal
        if level > 40:
            return self.emit(s, p, o)
        if isinstance(s, Literal) or isinstance(p, Literal):
            depth = max(depth, 1)
        if p in LISTY and depth >= 0 and self.alias and p not in (FIRST, REST) and self.rng.random() < 0.1:
            q = EX("my" + str(p).rpartition("#")[2])  # the axiom, too, may be inferred
            self.emit(*self.rng.choice([(q, SPO, p), (q, EQP, p), (p, EQP, q), (q, SAME, p)]))
            return self.emit(s, q, o)
        if depth <= 0 or p in LISTY:
            return self.emit(s, p, o)
        opts = self.options(s, p, o)
        if not opts:
            return self.emit(s, p, o)
        names = list(opts)
        name = self.rng.choices(names, [self.w[n] for n in names])[0]
        prem = opts[name]()
        if prem is None:
            return self.emit(s, p, o)
        # one premise carries the remaining depth, the others sometimes one step
        ok = [t for t in prem if t[1] not in LISTY]
        deep = self.rng.choice(ok) if ok else None
        for t in prem:
            if t is deep:
                self.derive(t, depth - 1, level + 1)
            elif isinstance(t[0], Literal) or self.rng.random() < 0.06 or t[1] in LISTY:
                self.derive(t, 1 if depth > 1 else 0, level + 1)
            else:
                self.emit(*t)
        return True

    def around(self, x, pool, n):
        """n members of the pool with x among them at a random position."""
        r = self.rng
        out = [r.choice(pool) for _ in range(n - 1)]
        out.insert(r.randrange(n), x)
        return out

    def options(self, s, p, o):
        r, w = self.rng, self.w
        lit = isinstance(o, Literal)
        out = {}

        def opt(name, fn):
            if w.get(name):
                out[name] = fn

        restr = lambda: r.choice(self.classes) if r.random() < 0.3 else self.fresh("r")

        if p == TYPE:
            opt("prp-dom", lambda: (lambda q: [(s, q, self.val()), (q, DOM, o)])(self.prop()))
            opt("prp-rng", lambda: (lambda q: [(self.ind(), q, s), (q, RNG, o)])(self.prop()))
            opt("rdfs2", lambda: (lambda q: [(s, q, self.val()), (q, DOM, o)])(self.prop()))
            opt("rdfs3", lambda: (lambda q: [(self.ind(), q, s), (q, RNG, o)])(self.prop()))
            for n in ("cax-sco", "rdfs9"):
                opt(n, lambda: (lambda d: [(s, TYPE, d), (d, SCO, o)])(self.cls()))
            opt("cax-eqc1", lambda: (lambda d: [(s, TYPE, d), (d, EQC, o)])(self.cls()))
            opt("cax-eqc2", lambda: (lambda d: [(s, TYPE, d), (o, EQC, d)])(self.cls()))
            opt("cls-oo", lambda: [(o, OO, self.list(self.around(s, self.inds + self.lits[:1], self.length())))])

            def int1():
                ms = [self.cls() for _ in range(self.length())]
                return [(o, INT, self.list(ms))] + [(s, TYPE, m) for m in ms]
            opt("cls-int1", int1)

            def int2():
                d = restr()
                return [(d, INT, self.list(self.around(o, self.classes, self.length()))), (s, TYPE, d)]
            opt("cls-int2", int2)

            def uni():
                d = self.cls()
                return [(o, UNI, self.list(self.around(d, self.classes, self.length()))), (s, TYPE, d)]
            opt("cls-uni", uni)

            def svf1():
                q, v, d = self.prop(), self.val(), self.cls()
                return [(o, SVF, d), (o, ONP, q), (s, q, v), (v, TYPE, d)]
            opt("cls-svf1", svf1)
            opt("cls-svf2", lambda: (lambda q: [(o, SVF, THING), (o, ONP, q), (s, q, self.val())])(self.prop()))

            def avf():
                q, d, u = self.prop(), restr(), self.ind()
                return [(d, AVF, o), (d, ONP, q), (u, TYPE, d), (u, q, s)]
            opt("cls-avf", avf)
            opt("cls-hv2", lambda: (lambda q, v: [(o, HV, v), (o, ONP, q), (s, q, v)])(self.prop(), self.val()))
            opt("self2", lambda: (lambda q: [(o, U("owl:hasSelf"), L("true", "xsd:boolean")), (o, ONP, q), (s, q, s)])(self.prop()))
            if o == U("rdfs:ContainerMembershipProperty") or o == U("rdf:Property"):
                pass
        if p == SAME:
            opt("eq-sym", lambda: [(o, SAME, s)])
            opt("eq-trans", lambda: (lambda m: [(s, SAME, m), (m, SAME, o)])(self.ind()))
            opt("prp-fp", lambda: (lambda q, x: [(q, TYPE, U("owl:FunctionalProperty")), (x, q, s), (x, q, o)])(self.prop(), self.ind()))
            opt("prp-ifp", lambda: (lambda q, y: [(q, TYPE, U("owl:InverseFunctionalProperty")), (s, q, y), (o, q, y)])(self.prop(), self.val()))

            def key():
                c = self.cls()
                ks = [self.prop() for _ in range(self.length(1, 3, 6))]
                vs = [self.val() for _ in ks]
                more = []
                if r.random() < 0.5:  # further values that are not shared
                    for x in (s, o):
                        for k in ks:
                            more += [(x, k, self.val() if r.random() < 0.4 else self.fresh("v")) for _ in range(r.choice([0, 0, 1, 2]))]
                facts = [(s, k, v) for k, v in zip(ks, vs)] + [(o, k, v) for k, v in zip(ks, vs)] + more
                r.shuffle(facts)
                return [(c, KEY, self.list(ks)), (s, TYPE, c), (o, TYPE, c)] + facts
            opt("prp-key", key)

            def maxc():
                c, q, u = restr(), self.prop(), self.ind()
                return [(c, MAXC, self.card(1)), (c, ONP, q), (u, TYPE, c), (u, q, s), (u, q, o)]
            opt("cls-maxc2", maxc)

            def maxq(thing):
                c, q, u, d = restr(), self.prop(), self.ind(), (THING if thing else self.cls())
                x = [(c, MAXQ, self.card(1)), (c, ONP, q), (c, ONC, d), (u, TYPE, c), (u, q, s), (u, q, o)]
                return x if thing else x + [(s, TYPE, d), (o, TYPE, d)]
            opt("cls-maxqc3", lambda: maxq(False))
            opt("cls-maxqc4", lambda: maxq(True))
        if p == SCO:
            for n in ("scm-sco", "rdfs11"):
                opt(n, lambda: (lambda d: [(s, SCO, d), (d, SCO, o)])(self.cls()))
            opt("scm-eqc1", lambda: [(s, EQC, o)] if r.random() < 0.5 else [(o, EQC, s)])

            def hv():
                a, b, v = self.prop(), self.prop(), self.val()
                return [(s, HV, v), (s, ONP, a), (o, HV, v), (o, ONP, b), (a, SPO, b)]
            opt("scm-hv", hv)

            def vf(pred, second):
                a, b, y, z = self.prop(), self.prop(), self.cls(), self.cls()
                if not second:
                    return [(s, pred, y), (s, ONP, a), (o, pred, z), (o, ONP, a), (y, SCO, z)]
                if pred == AVF:
                    return [(s, pred, y), (s, ONP, b), (o, pred, y), (o, ONP, a), (a, SPO, b)]
                return [(s, pred, y), (s, ONP, a), (o, pred, y), (o, ONP, b), (a, SPO, b)]
            opt("scm-svf1", lambda: vf(SVF, False))
            opt("scm-svf2", lambda: vf(SVF, True))
            opt("scm-avf1", lambda: vf(AVF, False))
            opt("scm-avf2", lambda: vf(AVF, True))
            opt("scm-int", lambda: [(s, INT, self.list(self.around(o, self.classes, self.length())))])
            opt("scm-uni", lambda: [(o, UNI, self.list(self.around(s, self.classes, self.length())))])
        if p == EQC:
            opt("scm-eqc2", lambda: [(s, SCO, o), (o, SCO, s)])
        if p == SPO:
            for n in ("scm-spo", "rdfs5"):
                opt(n, lambda: (lambda q: [(s, SPO, q), (q, SPO, o)])(self.prop()))
            opt("scm-eqp1", lambda: [(s, EQP, o)] if r.random() < 0.5 else [(o, EQP, s)])
            if o == U("rdfs:member"):
                opt("rdfs12", lambda: [(s, TYPE, U("rdfs:ContainerMembershipProperty"))])
        if p == EQP:
            opt("scm-eqp2", lambda: [(s, SPO, o), (o, SPO, s)])
        if p == DOM:
            opt("scm-dom1", lambda: (lambda c: [(s, DOM, c), (c, SCO, o)])(self.cls()))
            opt("scm-dom2", lambda: (lambda q: [(q, DOM, o), (s, SPO, q)])(self.prop()))
        if p == RNG:
            opt("scm-rng1", lambda: (lambda c: [(s, RNG, c), (c, SCO, o)])(self.cls()))
            opt("scm-rng2", lambda: (lambda q: [(q, RNG, o), (s, SPO, q)])(self.prop()))
        # any triple
        user = str(p).startswith("http://ex.org/") or isinstance(p, BNode)
        if user or (p != SAME and r.random() < self.vocabulary) or not out:
            if user or r.random() < self.vocabulary:
                for n in ("prp-spo1", "rdfs7"):
                    opt(n, lambda: (lambda q: [(s, q, o), (q, SPO, p)])(self.prop()))
                opt("prp-eqp1", lambda: (lambda q: [(s, q, o), (q, EQP, p)])(self.prop()))
                opt("prp-eqp2", lambda: (lambda q: [(s, q, o), (p, EQP, q)])(self.prop()))
                opt("eq-rep-p", lambda: (lambda q: [(s, q, o), (q, SAME, p)])(self.prop()))
                opt("cls-hv1", lambda: (lambda c: [(c, HV, o), (c, ONP, p), (s, TYPE, c)])(restr()))

                def chain():
                    n = self.length()
                    qs = [self.prop() for _ in range(n)]
                    if n > 4 or r.random() < 0.5:  # (mostly) properties of its own
                        qs = [EX("k%03d" % r.randrange(30)) if r.random() < 0.8 else q for q in qs]
                    mid = [self.ind() for _ in range(n - 1)]
                    path = [s] + mid + [o]
                    return [(p, CHAIN, self.list(qs))] + [(path[i], qs[i], path[i + 1]) for i in range(n)]
                opt("prp-spo2", chain)
                if not lit:
                    opt("prp-symp", lambda: [(p, TYPE, U("owl:SymmetricProperty")), (o, p, s)])
                    opt("prp-inv1", lambda: (lambda q: [(o, q, s), (q, INV, p)])(self.prop()))
                    opt("prp-inv2", lambda: (lambda q: [(o, q, s), (p, INV, q)])(self.prop()))
                if user:
                    opt("prp-trp", lambda: (lambda m: [(p, TYPE, U("owl:TransitiveProperty")), (s, p, m), (m, p, o)])(self.ind()))
                if s == o:
                    opt("self1", lambda: (lambda c: [(c, U("owl:hasSelf"), L("true", "xsd:boolean")), (c, ONP, p), (s, TYPE, c)])(restr()))
        if p != SAME:
            opt("eq-rep-s", lambda: (lambda x: [(x, p, o)] + ([(x, SAME, s)] if r.random() < 0.5 or lit else [(s, SAME, x)]))(self.ind()))
            opt("eq-rep-o", lambda: (lambda x: [(s, p, x), (x, SAME, o)])(self.ind()))
        return out

    CLASHES = ["eq-diff1", "eq-diff2", "eq-diff3", "prp-irp", "prp-asyp", "prp-pdw", "prp-adp", "prp-npa1", "prp-npa2",
               "cls-nothing2", "cls-com", "cls-maxc1", "cls-maxqc1", "cls-maxqc2", "cax-dw", "cax-adc"]

    def clash(self, name, complete=True):
        """Premises of a 'false' rule (the last ones are facts); incomplete: one of them is left out or altered."""
        r = self.rng
        x, y, p, q, c, d = self.ind(), self.ind(), self.prop(), self.prop(), self.cls(), self.cls()
        fact = (x, p, y)

        def pair(a, b, pool, n):
            m = [r.choice(pool) for _ in range(max(0, n - 2))]
            i = r.randrange(len(m) + 1)
            m.insert(i, a)
            m.insert(r.randrange(len(m) + 1), b)
            return self.list(m)

        n = self.length(2, 4, 9)
        new = self.fresh
        if name == "eq-diff1":
            t = [(x, U("owl:differentFrom"), y), (x, SAME, y) if r.random() < 0.5 else (y, SAME, x)]
        elif name in ("eq-diff2", "eq-diff3"):
            a = new()
            t = [(a, TYPE, U("owl:AllDifferent")),
                 (a, U("owl:members" if name == "eq-diff2" else "owl:distinctMembers"), pair(x, y, self.inds, n)), (x, SAME, y)]
        elif name == "prp-irp":
            t = [(p, TYPE, U("owl:IrreflexiveProperty")), (x, p, x)]
        elif name == "prp-asyp":
            t = [(p, TYPE, U("owl:AsymmetricProperty")), (x, p, y), (y, p, x)]
        elif name == "prp-pdw":
            v = self.val()
            t = [(p, U("owl:propertyDisjointWith"), q), (x, p, v), (x, q, v)]
        elif name == "prp-adp":
            a, v = new(), self.val()
            t = [(a, TYPE, U("owl:AllDisjointProperties")), (a, U("owl:members"), pair(p, q, self.props, n)), (x, p, v), (x, q, v)]
        elif name in ("prp-npa1", "prp-npa2"):
            a = new()
            v = y if name == "prp-npa1" else (r.choice(self.lits) if self.lits and r.random() < 0.8 else self.val())
            t = [(a, U("owl:sourceIndividual"), x), (a, U("owl:assertionProperty"), p),
                 (a, U("owl:targetIndividual" if name == "prp-npa1" else "owl:targetValue"), v), (x, p, v)]
            if r.random() < 0.4:
                t.insert(0, (a, TYPE, U("owl:NegativePropertyAssertion")))
        elif name == "cls-nothing2":
            t = [(x, TYPE, NOTHING)]
        elif name == "cls-com":
            t = [(c, U("owl:complementOf"), d), (x, TYPE, c), (x, TYPE, d)]
        elif name == "cls-maxc1":
            a = new("r")
            t = [(a, MAXC, self.card(0)), (a, ONP, p), (x, TYPE, a), (x, p, self.val())]
        elif name in ("cls-maxqc1", "cls-maxqc2"):
            a, v = new("r"), self.val()
            e = c if name == "cls-maxqc1" else THING
            t = [(a, MAXQ, self.card(0)), (a, ONP, p), (a, ONC, e), (x, TYPE, a), (x, p, v)]
            if name == "cls-maxqc1":
                t.append((v, TYPE, c))
        elif name == "cax-dw":
            t = [(c, U("owl:disjointWith"), d), (x, TYPE, c), (x, TYPE, d)]
        elif name == "cax-adc":
            a = new()
            t = [(a, TYPE, U("owl:AllDisjointClasses")), (a, U("owl:members"), pair(c, d, self.classes, n)), (x, TYPE, c), (x, TYPE, d)]
        if not complete:
            i = r.randrange(len(t))
            if r.random() < 0.5:
                del t[i]
            else:
                s_, p_, o_ = t[i]
                if o_ in self.inds:
                    t[i] = (s_, p_, r.choice(self.inds))
                elif o_ in self.classes:
                    t[i] = (s_, p_, r.choice(self.classes))
                else:
                    t[i] = (r.choice(self.inds), p_, o_)
        return t

    def card(self, n):
        return L(str(n), "xsd:nonNegativeInteger" if self.rng.random() < 0.8 else "xsd:integer")

    # ------------------------------------------------------------------ goals and noise
    def goal(self, kinds):
        r = self.rng
        k = r.choices(list(kinds), list(kinds.values()))[0]
        g = {
            "type": lambda: (self.ind(), TYPE, self.cls()),
            "fact": lambda: (self.ind(), self.prop(), self.val()),
            "loop": lambda: (lambda i: (i, self.prop(), i))(self.ind()),
            "same": lambda: (r.choice(self.lits), SAME, r.choice(self.lits + self.inds)) if self.lits and r.random() < 0.1 else (self.ind(), SAME, self.val() if r.random() < 0.3 else self.ind()),
            "samep": lambda: (self.prop(), SAME, self.prop()),
            "samec": lambda: (self.cls(), SAME, self.cls()),
            "sco": lambda: (self.cls(), SCO, self.cls()),
            "eqc": lambda: (self.cls(), EQC, self.cls()),
            "spo": lambda: (self.prop(), SPO, self.prop()),
            "eqp": lambda: (self.prop(), EQP, self.prop()),
            "dom": lambda: (self.prop(), DOM, self.cls()),
            "rng": lambda: (self.prop(), RNG, self.cls()),
            "littype": lambda: (r.choice(self.lits), TYPE, self.cls()),
        }[k]()
        return g

    def build(self, kinds, goals=3, depths=(0, 1, 1, 2, 2, 3, 5), noise=3, drop=0.25):
        r = self.rng
        if self.dense:
            goals, depths = r.randint(3, 6), (0, 1, 1, 1, 2)
            self.spice(r.choice([0, 2, 4, 6]))
        for _ in range(goals):
            g = self.goal(kinds)
            self.goals.append(g)
            self.derive(g, r.choice(depths))
        for _ in range(r.randint(0, noise)):
            self.emit(*self.noise())
        if r.random() < 0.2:
            self.double(r.randint(1, 3))
        if r.random() < 0.04:
            self.special(1, self.w is RDFS)
        if r.random() < drop and len(self.T) > 2:
            for _ in range(r.randint(1, 2)):
                i = r.randrange(len(self.T))
                if self.T[i][1] not in (FIRST, REST):
                    self.have.discard(self.T[i])
                    del self.T[i]
        return self

    def noise(self):
        r = self.rng
        return r.choice([
            lambda: (self.ind(), self.prop(), self.val()), lambda: (self.ind(), self.prop(), self.ind()),
            lambda: (self.ind(), TYPE, self.cls()),
            lambda: (self.ind(), U("rdfs:label"), self.rng.choice(self.lits) if self.lits else self.ind()),
            lambda: (self.cls(), TYPE, r.choice([U("owl:Class"), U("rdfs:Class")])),
            lambda: (self.prop(), TYPE, r.choice([U("owl:ObjectProperty"), U("owl:DatatypeProperty"), U("rdf:Property")])),
        ])()

    def spice(self, n):
        """n statements of the vocabulary about the same few names, whatever they are."""
        r = self.rng
        c = lambda: r.choice(self.classes + self.classes + [THING, NOTHING]) if r.random() < 0.9 else self.ind()
        for _ in range(n):
            k = r.random()
            if k < 0.4:
                t = (c(), r.choice([SCO, SCO, EQC, SAME, U("owl:disjointWith"), U("owl:complementOf"), SVF, AVF, HV, DOM, TYPE, U("rdfs:seeAlso")]), c())
            elif k < 0.7:
                t = (self.prop(), r.choice([SPO, SPO, EQP, INV, SAME, U("owl:propertyDisjointWith"), ONP, U("rdfs:seeAlso")]), self.prop())
            elif k < 0.8:
                t = (self.prop(), r.choice([DOM, RNG]), c())
            elif k < 0.88:
                t = (self.prop(), TYPE, U("owl:" + r.choice(["FunctionalProperty", "InverseFunctionalProperty", "SymmetricProperty", "TransitiveProperty",
                                                            "AsymmetricProperty", "IrreflexiveProperty", "ObjectProperty", "DatatypeProperty"])))
            elif k < 0.94:
                t = (self.ind(), r.choice([SAME, U("owl:differentFrom")]), self.ind())
            else:
                t = (self.ind(), self.prop(), c())
            self.emit(*t)
        return self

    def double(self, n):
        """n times: a second value where there is one already (another property of a restriction, another list of an axiom, ...)."""
        r = self.rng
        heads = {}
        for t in self.T:
            if t[1] == FIRST:
                heads.setdefault(t[0], t[2])
        for _ in range(n):
            vocabulary = [t for t in self.T if t[1] not in (FIRST, REST, TYPE) and not str(t[1]).startswith("http://ex.org/") and not isinstance(t[1], BNode)]
            ok = vocabulary if vocabulary and r.random() < 0.8 else [t for t in self.T if t[1] not in (FIRST, REST)]
            if not ok:
                return self
            s, p, o = r.choice(ok)
            if o in heads:
                m = heads[o]
                pool = self.props if m in self.props or p in (CHAIN, KEY) else self.classes if m in self.classes else self.inds
                o = self.list([r.choice(pool) for _ in range(r.randint(1, 3))])
            elif p in (MAXC, MAXQ):
                o = self.card(r.randint(0, 2))
            elif isinstance(o, Literal):
                o = r.choice(self.lits) if self.lits else o
            else:
                o = r.choice(self.props if o in self.props else self.classes if o in self.classes else self.inds if o in self.inds else [o, self.cls()])
            x = r.random()
            if p in (U("owl:members"), U("owl:distinctMembers")) and x < 0.6:
                p = U("owl:members") if p == U("owl:distinctMembers") else U("owl:distinctMembers")
            elif p in (U("owl:targetIndividual"), U("owl:targetValue")) and x < 0.5:
                p = U("owl:targetValue") if p == U("owl:targetIndividual") else U("owl:targetIndividual")
            elif x < 0.1 and p in (SVF, AVF, HV, MAXC, MAXQ, INT, UNI, OO):  # several kinds of descriptions of the same class
                if p in (INT, UNI, OO):
                    p = r.choice([INT, UNI, OO])
                elif p in (SVF, AVF, HV):
                    p = r.choice([SVF, AVF, HV])
                else:
                    p = r.choice([MAXC, MAXQ])
            elif x < 0.25 and not isinstance(s, Literal):  # the same description for another one
                s = r.choice(self.props if s in self.props else self.classes if s in self.classes else self.inds if s in self.inds else [s])
            self.emit(s, p, o)
        return self

    VOC = ["rdfs:Literal", "rdfs:Resource", "rdfs:Class", "rdfs:Datatype", "rdf:Property", "rdf:List", "rdf:nil", "rdfs:Container", "rdf:Bag",
           "rdfs:ContainerMembershipProperty", "rdfs:member", "rdf:_1", "rdf:value", "rdfs:label", "rdfs:seeAlso", "rdf:Statement", "rdf:type",
           "rdfs:subClassOf", "rdfs:subPropertyOf", "rdfs:domain", "rdfs:range", "xsd:integer", "xsd:string", "rdf:XMLLiteral", "rdf:PlainLiteral"]
    OVOC = ["owl:Class", "owl:Thing", "owl:Nothing", "owl:DataRange", "owl:ObjectProperty", "owl:sameAs", "owl:differentFrom", "owl:equivalentClass",
            "owl:inverseOf", "owl:FunctionalProperty", "owl:SymmetricProperty", "owl:versionInfo", "owl:topObjectProperty", "owl:onProperty",
            "owl:NamedIndividual", "owl:AllDifferent", "owl:disjointWith"]

    def special(self, n, rdfs=False):
        """n statements in which terms of the vocabularies themselves are described or used like others."""
        r = self.rng
        voc = self.VOC if rdfs else self.VOC + self.OVOC
        for _ in range(n):
            v = U(r.choice(voc))
            x = r.random()
            w = U(r.choice(voc)) if x < 0.3 else r.choice(self.classes + self.props + self.inds)
            ps = [TYPE, TYPE, SCO, SPO, DOM, RNG, U("rdfs:label"), U("rdfs:member"), U("rdf:_1")]
            if not rdfs:
                ps += [SAME, EQC, EQP, INV, U("owl:disjointWith"), U("owl:versionInfo")]
            p = r.choice(ps) if r.random() < 0.8 else self.prop()
            if x > 0.85:  # one of the terms that have rules about being the type
                v, p, w = r.choice(self.classes + self.props + [v]), TYPE, U(r.choice(
                    ["rdfs:Class", "rdfs:Datatype", "rdf:Property", "rdfs:ContainerMembershipProperty"] + ([] if rdfs else ["owl:Class", "owl:ObjectProperty", "owl:Nothing"])))
            elif r.random() < 0.4:
                v, w = w, v
            self.emit(v, p, w)
        return self

    def result(self):
        T = [t for t in self.T if not isinstance(t[0], Literal) and not isinstance(t[1], Literal)]
        self.rng.shuffle(T)
        return T


def ill_formed_lists(F):
    """True if a list cell of the closed facts has several rests, or several firsts that are not the same, or rdf:nil is a cell."""
    first, rest, same, nil = F.c("rdf:first"), F.c("rdf:rest"), F.c("owl:sameAs"), F.c("rdf:nil")
    if F.SP.get((nil, first)) or F.SP.get((nil, rest)):
        return True
    seen = {}
    for s, o in F.P.get(rest, ()):
        if seen.setdefault(s, o) != o:
            return True
    seen = {}
    for s, o in F.P.get(first, ()):
        a = seen.setdefault(s, o)
        if a != o and (a, same, o) not in F.T:
            return True
    return False


def chain_paths(F, cap=800):
    """Number of paths through the property chains of the closed facts (a plain evaluation visits each)."""
    total = 0
    for p, x in F.P.get(F.c("owl:propertyChainAxiom"), ()):
        for seq in F.sequences(x):
            n = {}
            for a, b in F.P.get(seq[0], ()):
                n[b] = n.get(b, 0) + 1
            for q in seq[1:]:
                m = {}
                for a, k in n.items():
                    for b in F.objects(a, q):
                        m[b] = m.get(b, 0) + k
                n = m
                total += sum(n.values())
                if total > cap:
                    return total
            total += sum(n.values())
    # likewise the combinations of key values of the instances of a class with a key
    for c, x in F.P.get(F.c("owl:hasKey"), ()):
        for seq in F.sequences(x):
            k = 0
            for y in F.subjects(F.c("rdf:type"), c):
                m = 1
                for q in seq:
                    m *= len(F.objects(y, q))
                k += m
            total += k * k // 20
    return total
