import random

from rdflib import BNode, ConjunctiveGraph, Dataset, Graph, Literal, URIRef

from monitor.common import *
from monitor import gen as G, mixed
from monitor.model import Model
from monitor.real import closure_class, expand, owlrl, split_errors
from monitor.store import MonitoredStore
from monitor.terms import *

RULE = ("random closure classes written against Closure.Core (rule programs of one- and two-premise rules, counters giving up to 40 cycles, rules bound "
        "to cycle numbers, one-time rules, axioms, pre- and post-processing, repeated errors, hooks left out, spread over a hierarchy and mixed in), and the built-in classes extended "
        "with random rules; an online monitor checks the hook order, the triples offered in every cycle, the visibility of conclusions and the stop, and the final graph is "
        "compared with a simulation of the program (or the model extended with the rules); non-trivial: at least 3 cycles; distinct by program and graph")
BUDGET = {"quick": 2600, "thorough": 45000}
MIN = {"quick": {"hook calls logged": 50000, "cycles monitored": 4000, "programs": 1200, "built-in classes extended": 120, "with errors": 300, "with destination": 200,
                 "with axioms": 200, "max:cycles": 1000, "refused": 3}}
MIN["thorough"] = MIN["quick"]
SHRINK = ["triples", "rules"]
VARS = ["?a", "?b", "?c", "?d"]
HOOKS = ["pre", "axioms", "daxioms", "one", "post"]


# ------------------------------------------------------------------------------------------------ programs
def atom(rng, vs, consts, preds):
    s = rng.choice(vs) if rng.random() < 0.85 else rng.choice(consts)
    p = rng.choice(preds) if rng.random() < 0.85 else rng.choice(vs)
    o = rng.choice(vs) if rng.random() < 0.75 else rng.choice(consts)
    return [s, p, o]


def a_rule(rng, consts, preds):
    n = rng.choice([1, 1, 2, 2])
    body = [atom(rng, VARS[:2], consts, preds)]
    if n == 2:
        body.append(atom(rng, VARS[1:3], consts, preds))
    used = [x for a in body for x in a if x[0] == "?"] or None
    if used is None:
        body[0][0] = "?a"
        used = ["?a"]
    used = sorted(set(used))
    head = [rng.choice(used) if rng.random() < 0.85 else rng.choice(consts), rng.choice(preds) if rng.random() < 0.9 else rng.choice(used),
            rng.choice(used) if rng.random() < 0.8 else rng.choice(consts)]
    return {"body": body, "head": head}


def gen(rng, i, tier):
    if i == 0:
        return {"refuse": True, "triples": [], "rules": []}
    ind = ["ex:i%d" % k for k in range(rng.randint(2, 5))]
    preds = ["ex:p%d" % k for k in range(rng.randint(2, 4))]
    if rng.random() < 0.2:
        preds += ["rdf:_3", "rdf:type"]
    if i % 8 == 7:
        kind = rng.choices(["rdfs", "owl", "combined", "extension"], [5, 4, 0.5, 1])[0]
        g = mixed.builder(rng, kind, size=0.3, clash=0.1, bnode_preds=0, punning=0)
        T = g.result()
        ps = sorted({short(p) for p in g.props if isinstance(p, URIRef)}) + ["rdfs:subClassOf", "rdf:type", "ex:q"]
        cs = sorted({short(x) for x in g.inds + g.classes if isinstance(x, URIRef)}) or ["ex:i0"]
        rules = []
        while len(rules) < 2:
            r = a_rule(rng, cs, ps)
            if all(len(set(a)) == 3 for a in r["body"]):  # the reference engine has no repeated variables within a premise
                rules.append(r)
        return case_of(T, builtin=kind, rules=rules[:rng.randint(1, 2)], opts=mixed.options(rng, kind, axioms=0.05))
    terms = ind + preds[:1]
    T = []
    for _ in range(rng.choice([0, 2, 4, 8, 12])):
        o = rng.choice(ind) if rng.random() < 0.85 else None
        s = rng.choice(ind)
        T.append((U(s) if rng.random() < 0.9 else B("b1"), U(rng.choice(preds)), U(o) if o else rng.choice([L("x"), L("1", "xsd:integer"), B("b1"), L("x", lang="en")])))
    rules = [a_rule(rng, terms, preds) for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.35:
        # a chain of conclusions, one per cycle
        rules.append({"count": [rng.choice(preds), rng.choice([3, 8, 20, 30, 40, 60])]})
        T.append((EX("n0"), U(rules[-1]["count"][0]), EX("n1")))
    if i == 5 or rng.random() < 0.01:
        # a very long one
        T = T[:2]
        rules = [{"count": [preds[0], 1100 if i == 5 else rng.randint(257, 420)]}]
        T.append((EX("n0"), U(preds[0]), EX("n1")))
    for r in rules:
        if rng.random() < 0.08 and "count" not in r:
            r["only"] = rng.choice([1, 1, 2])
        if rng.random() < 0.25:
            r["error"] = rng.choice(["bad", "bad %a", "worse"])

    def some(n):
        return enc_graph([(U(rng.choice(terms)), U(rng.choice(preds)), U(rng.choice(terms))) for _ in range(rng.randint(1, n))])

    spec = {"rules": rules, "hooks": {}}
    for h in HOOKS:
        if rng.random() < 0.5:
            spec["hooks"][h] = some(2)
    if rng.random() < 0.2:
        spec["hooks"].setdefault("one", some(1))
        spec["onerule"] = a_rule(rng, terms, preds)
    spec["style"] = rng.choice(["single", "single", "chain", "mixin"])
    spec["opts"] = {"axioms": rng.random() < 0.4 and "axioms" in spec["hooks"], "daxioms": rng.random() < 0.4 and "daxioms" in spec["hooks"], "rdfs": rng.random() < 0.3}
    spec["literalpred"] = rng.random() < 0.2
    spec["dest"] = rng.choice(["none"] * 5 + ["dataset", "dataset", "uri", "graph", "default"])
    spec["hookerrs"] = {h: rng.choice(["early", "bad", "worse"]) for h in spec["hooks"] if rng.random() < 0.12}
    spec["posterr"] = "post" in spec["hooks"] and rng.random() < 0.3
    spec["shuffle"] = rng.choice([None, rng.randrange(1000)])
    return case_of(T, **spec)


def match(a, t, env):
    out = dict(env)
    for x, y in zip(a, t):
        if x[0] == "?":
            if x in out:
                if out[x] != y:
                    return None
            else:
                out[x] = y
        elif U(x) != y:
            return None
    return out


def subst(a, env):
    return tuple(env[x] if x[0] == "?" else U(x) for x in a)


def pattern(a, env):
    return tuple(env.get(x) if x[0] == "?" else U(x) for x in a)


def conclusions(r, t, lookup, cycle):
    """(triples, errors) rule r yields for triple t (its first premise)"""
    if "only" in r and cycle is not None and r["only"] != cycle:
        return [], []
    if "count" in r:
        p, n = r["count"]
        k = str(t[2])[len(EXN) + 1:] if isinstance(t[2], URIRef) and str(t[2]).startswith(EXN + "n") else ""
        if t[1] == U(p) and k.isdigit() and int(k) < n:
            return [(t[2], t[1], EX("n%d" % (int(k) + 1)))], []
        return [], []
    env = match(r["body"][0], t, {})
    if env is None:
        return [], []
    envs = [env]
    if len(r["body"]) > 1:
        envs = []
        for t2 in lookup(pattern(r["body"][1], env)):
            e = match(r["body"][1], t2, env)
            if e is not None:
                envs.append(e)
    out, errs = [], []
    for e in envs:
        out.append(subst(r["head"], e))
        if "error" in r:
            errs.append(r["error"].replace("%a", str(sorted(map(str, e.values()))[0])))
    return out, errs


def ok(t):
    return not isinstance(t[1], Literal)


class Sim:
    """The documented loop over plain sets."""

    def __init__(self, case, T):
        self.case = case
        self.G = set(T)
        self.errors = set()
        self.snapshots = []
        h, o = case["hooks"], case["opts"]
        for n, e in case.get("hookerrs", {}).items():
            if n not in ("axioms", "daxioms") or o[n]:
                self.errors.add(e)

        def add(x):
            self.G |= {t for t in x if ok(t)}

        add(dec_graph(h.get("pre", [])))
        if o["axioms"]:
            add(dec_graph(h.get("axioms", [])))
        if o["daxioms"]:
            add(dec_graph(h.get("daxioms", [])))
        new = set(dec_graph(h.get("one", [])))
        if "onerule" in case:
            for t in list(self.G):
                new |= set(conclusions(case["onerule"], t, self.lookup, None)[0])
        add(new)
        cycle = 0
        while True:
            cycle += 1
            self.snapshots.append(frozenset(self.G))
            new = set()
            for r in case["rules"]:
                for t in self.G:
                    c, e = conclusions(r, t, self.lookup, cycle)
                    new |= {x for x in c if ok(x)}
                    self.errors |= set(e)
            new -= self.G
            if not new:
                break
            self.G |= new
        self.fix = set(self.G)
        add(dec_graph(h.get("post", [])))
        if case["posterr"]:
            self.errors.add("late")

    def lookup(self, p):
        return [t for t in self.G if all(a is None or a == b for a, b in zip(p, t))]


class Monitor:
    def __init__(self, case, st):
        self.case, self.st, self.texts = case, st, []
        self.log = []
        self.cycle = 0
        self.offered = None
        self.snap = None
        self.snapshots = []
        self.calls = 0

    def fail(self, text):
        if len(self.texts) < 6:
            self.texts.append(text)

    def content(self, core):
        return frozenset(core.graph.triples((None, None, None)))

    def hook(self, name, core):
        self.st.count("hook calls logged")
        self.log.append(name)
        if name == "post":
            self.close(core)
        return self.content(core)

    def close(self, core):
        """end of a cycle"""
        if self.snap is not None:
            if self.offered != self.snap:
                d = list(self.snap - self.offered) or list(self.offered - self.snap)
                self.fail("cycle %d: the rules were offered %d triples of %d; e.g. %s" % (self.cycle, len(self.offered), len(self.snap), show(d[0])))
            self.st.count("cycles monitored")
            self.snap = None

    def rule_call(self, core, t, n):
        self.st.count("hook calls logged")
        self.calls += 1
        if n != self.cycle:
            if n != self.cycle + 1:
                self.fail("cycle number %s after %s" % (n, self.cycle))
            self.close(core)
            self.cycle = n
            self.snap = self.content(core)
            self.snapshots.append(self.snap)
            self.offered = set()
            self.log.append("cycle")
        elif self.calls % max(3, len(self.snap) // 4) == 0 and self.content(core) != self.snap:
            self.fail("the graph changed during cycle %d" % n)
        self.offered.add(tuple(t))


def build(case, mon):
    """The user's closure class of a case."""
    from owlrl.Closure import Core

    h = {k: dec_graph(v) for k, v in case["hooks"].items()}
    lit = (EX("x"), L("no predicate"), EX("y"))

    def store(core, ts):
        for t in ts:
            core.store_triple(t)
        if case["literalpred"]:
            core.store_triple(lit)

    def early(core, n):
        if n in case.get("hookerrs", {}):
            core.add_error(case["hookerrs"][n])

    def rule_method(rules):
        def rules_(self, t, cycle_num):
            for r in rules:
                c, e = conclusions(r, t, lambda p: list(self.graph.triples(p)), cycle_num)
                for x in c:
                    self.store_triple(x)
                for x in e:
                    self.add_error(x)
                    self.add_error(x)
        return rules_

    def initial(self, graph, axioms, daxioms, rdfs=False, destination=None):
        Core.__init__(self, graph, axioms, daxioms, rdfs=rdfs, destination=destination)
        mon.init = (axioms, daxioms, rdfs, getattr(self, "IMaxNum", None))

    def rules(self, t, cycle_num):
        mon.rule_call(self, t, cycle_num)
        rule_method(case["rules"] if case["style"] == "single" else case["rules"][:half])(self, t, cycle_num)
        if case["style"] == "chain":
            rule_method(case["rules"][half:])(self, t, cycle_num)
        elif case["style"] == "mixin":
            super(cls[0], self).rules(t, cycle_num)

    half = len(case["rules"]) // 2
    ns = {"rules": rules}
    if case["dest"] == "none" or True:
        ns["__init__"] = initial

    def pre(self):
        mon.seen_pre = mon.hook("pre", self)
        store(self, h["pre"])
        early(self, "pre")

    def axioms(self):
        mon.hook("axioms", self)
        store(self, h["axioms"])
        early(self, "axioms")

    def daxioms(self):
        mon.hook("daxioms", self)
        store(self, h["daxioms"])
        early(self, "daxioms")

    def one(self):
        seen = mon.hook("one", self)
        want = set(h.get("pre", [])) | (set(h["axioms"]) if case["opts"]["axioms"] else set()) | (set(h["daxioms"]) if case["opts"]["daxioms"] else set())
        for t in want - seen:
            mon.fail("%s of the axioms or the pre-processing is not in the graph when the one-time rules are called" % show(t))
        store(self, h["one"])
        early(self, "one")
        if "onerule" in case:
            for t in list(self.graph.triples((None, None, None))):
                for x in conclusions(case["onerule"], t, lambda p: list(self.graph.triples(p)), None)[0]:
                    self.store_triple(x)

    def post(self):
        mon.at_post = mon.hook("post", self)
        store(self, h["post"])
        early(self, "post")
        if case["posterr"]:
            self.add_error("late")

    def empty(self):
        raise AssertionError("must not be called")

    for name, attr, f in (("pre", "pre_process", pre), ("axioms", "add_axioms", axioms), ("daxioms", "add_d_axioms", daxioms), ("one", "one_time_rules", one),
                          ("post", "post_process", post)):
        if name in h:
            ns[attr] = f
    cls = []
    if case["style"] == "mixin":
        class Mixin:
            def rules(self, t, cycle_num):
                rule_method(case["rules"][half:])(self, t, cycle_num)

        base = type("Base", (Core,), {k: v for k, v in ns.items() if k != "rules"})
        cls.append(type("User", (Mixin, base), {"rules": rules}))
    elif case["style"] == "chain":
        base = type("Base", (Core,), {k: v for k, v in ns.items() if k in ("pre_process", "add_axioms")})
        cls.append(type("User", (base,), ns))
    else:
        cls.append(type("User", (Core,), ns))
    return cls[0]


def builtin(case, st):
    T = dec_graph(case["triples"])
    kind, opts = case["builtin"], case["opts"]
    more = tuple("user%d: %s -> %s" % (k, " . ".join(" ".join(a) for a in r["body"]), " ".join(r["head"])) for k, r in enumerate(case["rules"]))
    try:
        exp = Model(kind, more=more, **opts).expected(T, limit=1500)
    except LimitExceeded:
        raise Skip("closure too large")
    if kind != "rdfs" and (G.ill_formed_lists(exp.facts) or G.chain_paths(exp.facts) > 800):
        raise Skip("ill-formed or merged lists")
    base = closure_class(kind)

    class C(base):
        def rules(self, t, cycle_num):
            base.rules(self, t, cycle_num)
            for r in case["rules"]:
                for x in conclusions(r, t, lambda p: list(self.graph.triples(p)), None)[0]:
                    self.store_triple(x)

    from monitor.store import graph

    g = graph(T)
    expand(g, kind, cls=C, **opts)
    got, msgs, _ = split_errors(set(g))
    st.count("built-in classes extended")
    st.count("fired user rules", sum(n for r, n in exp.fired.items() if r.startswith("user")))
    st.nontrivial((sorted(map(repr, T)), more))
    out = diff(exp.triples, got, exp=exp, what="%s closure extended with %s" % (kind, list(more)))
    if bool(msgs) != bool(exp.clashes):
        out.append("errors %s, expected %s" % (msgs[:2], clash_pretty(exp)[:2]))
    return out


def judge(case, st):
    if case.get("refuse"):
        out = []
        for bad in ("RDFS_Semantics", 3, object(), owlrl.RDFS_Semantics(Graph(), False, False)):
            st.count("refused")
            try:
                owlrl.DeductiveClosure(bad)
                out.append("DeductiveClosure accepts %r as a closure class" % (bad,))
            except ValueError:
                pass
        g = Graph()
        g.add((EX("a"), EX("p"), EX("b")))
        owlrl.DeductiveClosure(None).expand(g)
        if len(g) != 1:
            out.append("DeductiveClosure(None) changes the graph")
        return out
    if "builtin" in case:
        return builtin(case, st)
    T = dec_graph(case["triples"])
    sim = Sim(case, T)
    if len(sim.G) > (400 if len(case["rules"]) > 1 else 1300):
        raise Skip("too many triples")
    mon = Monitor(case, st)
    cls = build(case, mon)
    store = MonitoredStore(shuffle=case["shuffle"])
    dest = None
    if case["dest"] == "none":
        g = Graph(store=store)
        for t in T:
            g.add(t)
    else:
        g = Dataset(store=store, default_union=True)
        gs = [g.default_context, g.get_context(EX("g1"))]
        for k, t in enumerate(T):
            gs[k % 2].add(t)
        dest = {"dataset": None, "uri": EX("dest"), "graph": g.get_context(EX("dest")), "default": g.default_context}[case["dest"]]
        st.count("with destination")
    o = case["opts"]
    expand(g, None, cls=cls, rdfs=o["rdfs"], axioms=o["axioms"], daxioms=o["daxioms"], destination=dest)
    out = mon.texts
    st.count("programs")
    st.peak("cycles", mon.cycle)
    st.count("with axioms", o["axioms"] or o["daxioms"])
    if mon.cycle >= 3:
        st.nontrivial((sorted(map(repr, T)), repr(case["rules"]), repr(case["hooks"])))
    # the order of the hooks
    order = [n for n in mon.log if n != "cycle"]
    want = [n for n in HOOKS if n in case["hooks"] and (n not in ("axioms", "daxioms") or o[n])]
    if order != want:
        out.append("hooks called %s instead of %s" % (order, want))
    first = mon.log.index("cycle") if "cycle" in mon.log else None
    if first is not None and (any(n in mon.log[first:] for n in HOOKS[:4]) or ("post" in mon.log and "cycle" in mon.log[mon.log.index("post"):])):
        out.append("hooks and cycles in the order %s" % mon.log)
    if mon.init[:3] != (o["axioms"], o["daxioms"], o["rdfs"]):
        out.append("the closure class was given axioms, daxioms, rdfs = %s instead of %s" % (mon.init[:3], (o["axioms"], o["daxioms"], o["rdfs"])))
    mx = max([int(str(p)[len(RDFN) + 1:]) for _, p, _ in T if str(p).startswith(RDFN + "_")], default=0)
    if mon.init[3] is not None and mon.init[3] != mx:
        out.append("IMaxNum is %s instead of %s" % (mon.init[3], mx))
    # the cycles
    snaps = [s for s in sim.snapshots if s]
    for k, s in enumerate(snaps):
        if k >= len(mon.snapshots):
            out.append("only %d cycles instead of %d" % (len(mon.snapshots), len(snaps)))
            break
        if mon.snapshots[k] != s:
            a, b = s - mon.snapshots[k], mon.snapshots[k] - s
            out.append("cycle %d starts without %s / with unexpected %s" % (k + 1, [show(t) for t in list(a)[:2]], [show(t) for t in list(b)[:2]]))
            break
    if len(mon.snapshots) > len(snaps):
        out.append("%d cycles instead of %d" % (len(mon.snapshots), len(snaps)))
    if "post" in case["hooks"] and mon.at_post != sim.fix:
        out.append("post-processing does not see the fixpoint: %s" % [show(t) for t in list(mon.at_post ^ sim.fix)[:3]])
    # the result
    allt = set(g) if dest is None and case["dest"] == "none" else {(s, p, o_) for s, p, o_, _ in g.quads((None, None, None, None))}
    got, msgs, nodes = split_errors(allt)
    for t in list(sim.G - got)[:3]:
        out.append("result lacks %s" % show(t))
    for t in list(got - sim.G)[:3]:
        out.append("result has in addition %s" % show(t))
    st.count("with errors", bool(sim.errors))
    if sorted(msgs) != sorted(sim.errors):
        out.append("error reports %s instead of %s" % (sorted(msgs), sorted(sim.errors)))
    if len(nodes) != len(sim.errors) or any(not isinstance(n, BNode) for n in nodes):
        out.append("%d error nodes for %d errors" % (len(nodes), len(sim.errors)))
    return out[:6]


def sample(case):
    return {k: ([show(t) for t in dec_graph(v)] if k == "triples" else v) for k, v in case.items() if k in ("triples", "rules", "style", "opts", "dest", "builtin")}
