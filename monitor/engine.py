"""Reference forward chainer.

Rules are text, one Horn rule each::

    prp-dom: ?p rdfs:domain ?c . ?x ?p ?y -> ?x rdf:type ?c

Conditions after ';' may be  `ne ?a ?b`  (head wanted only if different) or  `ok ?a ?b`  (Facts.guard).  Every rule is compiled, for each body atom,
into a function that is triggered when a fact matching this atom enters the fact base; facts enter one at a time
(agenda), so every combination of facts is found when its last member enters.  The code shares nothing with owlrl.

Rules over RDF lists need sequences of members; they are evaluated on the complete fact base between agenda runs
(`list_rules`, plain functions), until nothing is new.
"""
from collections import defaultdict

from rdflib import Literal

from .terms import U


class Rule:
    def __init__(self, text):
        name, rest = text.split(": ", 1)
        self.name = name.strip()
        body, head = rest.split("->")
        conds = []
        if ";" in head:
            head, c = head.split(";", 1)
            conds = [x.split() for x in c.split(",")]
        self.body = [tuple(a.split()) for a in body.split(" . ")]
        self.heads = [tuple(a.split()) for a in head.split(" . ")]
        self.conds = conds
        for a in self.body + self.heads:
            assert len(a) == 3, (text, a)


class Engine:
    """One instance per rule set; `run` may be called many times."""

    def __init__(self, rules, list_rules=(), natives=()):
        self.const_ids = {}
        self.const_terms = []
        self.rules = [Rule(r) if isinstance(r, str) else r for r in rules]
        self.list_rules = list(list_rules)
        self.triggers_p = defaultdict(list)  # predicate id -> functions
        self.triggers_any = []
        self._compile()
        # natives: (predicate curie or None, function(F, s, p, o)) triggered like a compiled rule
        for pred, fn in natives:
            if pred is None:
                self.triggers_any.append(fn)
            else:
                self.triggers_p[self.cid(pred)].append(fn)

    def cid(self, curie):
        if curie not in self.const_ids:
            self.const_ids[curie] = len(self.const_terms)
            self.const_terms.append(U(curie))
        return self.const_ids[curie]

    # -------------------------------------------------------------- compilation
    def _compile(self):
        src = []
        todo = []
        for ri, r in enumerate(self.rules):
            for bi in range(len(r.body)):
                fn = "r%d_%d" % (ri, bi)
                src.append(self._codegen(fn, r, bi))
                p = r.body[bi][1]
                todo.append((fn, None if p.startswith("?") else self.cid(p)))
        env = {}
        exec("\n".join(src), env)
        for fn, p in todo:
            if p is None:
                self.triggers_any.append(env[fn])
            else:
                self.triggers_p[p].append(env[fn])
        self.src = src

    def _codegen(self, fn, r, bi):
        out = ["def %s(F, s, p, o):" % fn]
        ind = 1
        bound = {}

        def line(x):
            out.append("    " * ind + x)

        def val(t):
            if t.startswith("?"):
                return bound.get(t)
            return str(self.cid(t))

        line("S=F.S; P=F.P; O=F.O; SP=F.SP; PO=F.PO; SO=F.SO; T=F.T; add=F.add")
        # the triggering atom
        for t, v in zip(r.body[bi], ("s", "p", "o")):
            if val(t) is None:
                nv = "v_" + t[1:]
                bound[t] = nv
                line("%s = %s" % (nv, v))
            else:
                line("if %s != %s: return" % (v, val(t)))
        # join the others, most bound first
        rest = [a for i, a in enumerate(r.body) if i != bi]
        while rest:
            rest.sort(key=lambda a: -sum((val(t) is not None) * w for t, w in zip(a, (3, 2, 3))))
            a = rest.pop(0)
            vs = [val(t) for t in a]
            if all(v is not None for v in vs):
                line("if (%s, %s, %s) not in T: %s" % (vs[0], vs[1], vs[2], "return" if ind == 1 else "continue"))
                continue
            names = []
            checks = []
            for t, v in zip(a, vs):
                if v is None:
                    nv = "v_" + t[1:]
                    if t in bound:  # repeated new variable inside this atom
                        nn = nv + "_2"
                        checks.append((nn, nv))
                        names.append(nn)
                    else:
                        bound[t] = nv
                        names.append(nv)
            mask = tuple(v is not None for v in vs)
            key = {
                (True, True, False): ("SP", "(%s, %s)" % (vs[0], vs[1])),
                (False, True, True): ("PO", "(%s, %s)" % (vs[1], vs[2])),
                (True, False, True): ("SO", "(%s, %s)" % (vs[0], vs[2])),
                (True, False, False): ("S", vs[0]),
                (False, True, False): ("P", vs[1]),
                (False, False, True): ("O", vs[2]),
                (False, False, False): ("ALL", None),
            }[mask]
            it = "F.L" if key[0] == "ALL" else "%s.get(%s, ())" % key
            line("for %s in %s:" % (", ".join(names), it))
            ind += 1
            for x, y in checks:
                line("if %s != %s: continue" % (x, y))
        cond = " and ".join(("%s != %s" if c[0] == "ne" else "F.guard(%s, %s)") % (val(c[1]), val(c[2])) for c in r.conds)
        if cond:
            line("if %s:" % cond)
            ind += 1
        for h in r.heads:
            line("add(%s, %s, %s, %r)" % (val(h[0]), val(h[1]), val(h[2]), r.name))
        return "\n".join(out)

    # -------------------------------------------------------------- execution
    def run(self, triples, limit=400000, setup=None):
        """Least fixpoint. Returns a Facts object."""
        F = Facts(self, limit)
        if setup:
            setup(F)
        for t in triples:
            F.add_terms(t, "input")
        F.saturate()
        return F


class LimitExceeded(Exception):
    pass


class Facts:
    def __init__(self, engine, limit):
        self.e = engine
        self.limit = limit
        self.ids = {t: i for i, t in enumerate(engine.const_terms)}
        self.terms = list(engine.const_terms)
        self.lit = [False] * len(self.terms)
        self.S, self.P, self.O = defaultdict(list), defaultdict(list), defaultdict(list)
        self.SP, self.PO, self.SO = defaultdict(list), defaultdict(list), defaultdict(list)
        self.T = {}  # triple -> name of the rule that produced it first
        self.L = []
        self.agenda = []
        self.pending = set()
        self.fired = defaultdict(int)

    def guard(self, a, b):
        """Condition 'ok ?a ?b' of a rule (replaced by models that need it)."""
        return True

    def tid(self, term):
        i = self.ids.get(term)
        if i is None:
            i = self.ids[term] = len(self.terms)
            self.terms.append(term)
            self.lit.append(isinstance(term, Literal))
        return i

    def c(self, curie):
        return self.tid(U(curie))

    def add(self, s, p, o, rule):
        t = (s, p, o)
        if t in self.T or self.lit[p]:
            return False
        self.T[t] = rule
        self.fired[rule] += 1
        self.agenda.append(t)
        if len(self.T) > self.limit:
            raise LimitExceeded()
        return True

    def add_terms(self, triple, rule):
        return self.add(self.tid(triple[0]), self.tid(triple[1]), self.tid(triple[2]), rule)

    def _drain(self):
        e = self.e
        while self.agenda:
            t = self.agenda.pop()
            s, p, o = t
            # NOTE T already contains t (and everything on the agenda); joins found early through T only are sound
            self.L.append(t)
            self.S[s].append((p, o))
            self.P[p].append((s, o))
            self.O[o].append((s, p))
            self.SP[(s, p)].append(o)
            self.PO[(p, o)].append(s)
            self.SO[(s, o)].append(p)
            for fn in e.triggers_p.get(p, ()):
                fn(self, s, p, o)
            for fn in e.triggers_any:
                fn(self, s, p, o)

    def saturate(self):
        while True:
            self._drain()
            n = len(self.T)
            for lr in self.e.list_rules:
                lr(self)
            if len(self.T) == n:
                break

    # -------------------------------------------------------------- views
    def objects(self, s, p):
        return self.SP.get((s, p), ())

    def subjects(self, p, o):
        return self.PO.get((p, o), ())

    def has(self, s, p, o):
        return (s, p, o) in self.T

    def triples(self):
        t = self.terms
        return {(t[s], t[p], t[o]) for s, p, o in self.T}

    def why(self, triple):
        try:
            k = tuple(self.ids[x] for x in triple)
        except KeyError:
            return None
        return self.T.get(k)

    def sequences(self, head, cap=200):
        """All member sequences readable from a list head (several if cells have several firsts that are not the same)."""
        first, rest, nil, same = self.c("rdf:first"), self.c("rdf:rest"), self.c("rdf:nil"), self.c("owl:sameAs")
        out = []

        def walk(cell, acc, seen):
            if len(out) > cap:
                return
            if cell == nil:
                out.append(tuple(acc))
                return
            if cell in seen:
                return
            reps = []
            for f in self.objects(cell, first):
                if not any((f, same, r) in self.T for r in reps):
                    reps.append(f)
            for f in reps:
                for r in self.objects(cell, rest):
                    walk(r, acc + [f], seen | {cell})

        walk(head, [], frozenset())
        return out
