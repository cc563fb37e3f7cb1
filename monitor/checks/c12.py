import json
import os
import signal
import subprocess
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))

import rdflib
from rdflib import Graph, Literal, URIRef

from monitor.common import *
from monitor import facets as FA, gen as G, mixed
from monitor import probe
from monitor.probe import PROBE, fname, probes, table
from monitor.real import Timeout, closure_class, cpu_limit, expand, owlrl, split_errors
from monitor.store import MonitoredStore, graph
from monitor.terms import *

RULE = ("histories of up to 7 operations in one process (expansions with any closure class, options, conversions and restricted datatypes; expansions made to fail in "
        "the constructor, the axioms, a rule, the store, the post-processing or by a bad destination, also by KeyboardInterrupt; nested expansions; use_improved/use_rdflib; "
        "binding of conversions and literal construction by the application); before and after every expansion the conversion table, datatype registries "
        "and the values of probe literals are compared, after each switch with a process that did only that, and the result of the last "
        "expansion with that in a fresh process; non-trivial: at least two expansions or switches; distinct by history")
BUDGET = {"quick": 380, "thorough": 6000}
MIN = {"quick": {"operations": 700, "failed expansions": 150, "switches": 150, "snapshots compared": 500, "final results compared": 200,
                 "restricted datatypes": 60, "bindings": 50}}
MIN["thorough"] = MIN["quick"]
SHRINK = ["history", "triples"]
# ------------------------------------------------------------------------------------------------ observation
def registries():
    out = {}
    try:
        from owlrl.DatatypeHandling import AltXSDToPYTHON

        out["AltXSDToPYTHON"] = {str(k): fname(v) for k, v in AltXSDToPYTHON.items()}
    except ImportError:
        pass
    try:
        from owlrl.XsdDatatypes import OWL_Datatype_Subsumptions, OWL_RL_Datatypes

        out["OWL_RL_Datatypes"] = sorted(map(str, OWL_RL_Datatypes))
        out["OWL_Datatype_Subsumptions"] = {str(k): sorted(map(str, v)) for k, v in OWL_Datatype_Subsumptions.items()}
    except ImportError:
        pass
    out["improved_datatype_generic"] = owlrl.DeductiveClosure.improved_datatype_generic
    return out


def state():
    return {"conversion table": table(), "registries": registries(), "probe literals": probes()}


def differ(a, b, skip=()):
    out = []
    for what in a:
        if a[what] != b[what]:
            x, y = a[what], b[what]
            keys = [k for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k) and k not in skip]
            if keys:
                out.append("%s: %s" % (what, ["%s: %s -> %s" % (k, str(x.get(k))[:150], str(y.get(k))[:150]) for k in keys[:2]]))
    return out


# ------------------------------------------------------------------------------------------------ operations
class Boom(Exception):
    pass


class FailingStore(MonitoredStore):
    left = None
    exc = Boom

    def add(self, triple, context, quoted=False):
        if self.left is not None and self.watching:
            self.left -= 1
            if self.left < 0:
                raise self.exc("store")
        super().add(triple, context, quoted)


def failing(kind, where, exc, nth):
    base = closure_class(kind)

    class C(base):
        count = 0

        def __init__(self, *a, **k):
            if where == "before init":
                raise exc("init")
            super().__init__(*a, **k)
            if where == "after init":
                raise exc("init")

        def rules(self, t, cycle_num):
            C.count += 1
            if where == "rules" and C.count > nth:
                raise exc("rules")
            super().rules(t, cycle_num)

        def add_axioms(self):
            super().add_axioms()
            if where == "axioms":
                raise exc("axioms")

        def one_time_rules(self):
            super().one_time_rules()
            if where == "one time":
                raise exc("one time")

        def post_process(self):
            super().post_process()
            if where == "post":
                raise exc("post")

    return C


WHERE = ["before init", "after init", "rules", "axioms", "one time", "post", "store", "destination", "destination2", "none class"]


def small(rng, kind):
    g = mixed.builder(rng, kind, size=0.25, punning=0, bnode_preds=0, weird=0.1)
    for _ in range(3):
        g.emit(g.ind(), g.prop(), mixed.literal(rng, 0.3))
    rt = kind in ("extension", "trimming") and rng.random() < 0.7
    if rt:
        r = FA.Restriction(rng, EX("rt%d" % rng.choice([0, 0, 1])), rng.choice([None, None, "xsd:integer", "xsd:decimal", "xsd:string"]))
        r.triples(g)
        for _ in range(2):
            g.emit(g.ind(), g.prop(), r.literal(rng))
    return g.result(), rt


def gen(rng, i, tier):
    hist = []
    for _ in range(rng.randint(1, 7)):
        x = rng.random()
        if x < 0.17:
            hist.append({"op": rng.choice(["use_improved", "use_rdflib"])})
        elif x < 0.25:
            hist.append({"op": "bind", "dt": rng.choice(["ex:app", "ex:dt", "ex:rt0", "xsd:gYear", "xsd:integer"])})
        elif x < 0.3:
            hist.append({"op": "convert", "kind": rng.choice(["owl", "rdfs", "extension", "none"])})
        else:
            kind = rng.choices(["rdfs", "owl", "combined", "extension", "trimming"], [3, 3, 0.6, 3, 1])[0]
            T, rt = small(rng, kind)
            if x < 0.6:
                op = {"op": "fail", "where": rng.choice(WHERE), "nth": rng.choice([0, 3, 20, 60]), "exc": rng.choice(["Boom", "Boom", "KeyboardInterrupt"])}
            elif x < 0.66:
                op = {"op": "nested", "inner": rng.choice(["extension", "owl", "rdfs"]), "at": rng.choice(["pre", "rule"])}
            else:
                op = {"op": "expand"}
            op.update(kind=kind, triples=enc_graph(T), opts=mixed.options(rng, kind, axioms=0.08), improved=rng.random() < 0.75, rt=rt)
            hist.append(op)
    kind = rng.choices(["rdfs", "owl", "combined", "extension", "trimming"], [3, 4, 0.7, 2, 1])[0]
    T, rt = small(rng, kind)
    if rng.random() < 0.7:  # literals of datatypes that only another expansion knows
        for dt, lex in rng.sample([("ex:rt0", "5"), ("ex:rt1", "abc"), ("owl:rational", "1/2"), ("owl:rational", "x"), ("xsd:decimal", "1.0")], 2):
            T.append((EX("i001"), EX("p001"), L(lex, dt)))
        T.append((EX("i002"), U("rdf:type"), EX("rt0")))
    return {"history": hist, "triples": enc_graph(T), "kind": kind, "opts": mixed.options(rng, kind, axioms=0.08), "improved": rng.random() < 0.7}


def perform(op):
    """run one operation; text of a violation or None"""
    k = op["op"]
    DC = owlrl.DeductiveClosure
    if k == "use_improved":
        DC.use_improved_datatypes_conversions()
    elif k == "use_rdflib":
        DC.use_rdflib_datatypes_conversions()
    elif k == "bind":
        rdflib.term.bind(U(op["dt"]), str, application_conversion)
    elif k == "convert":
        class O:
            sources, text, owlClosure, rdfsClosure, owlExtras = [], '<http://ex.org/a> <http://ex.org/b> "1"^^<http://www.w3.org/2001/XMLSchema#integer> .', False, False, False
            axioms, daxioms, format, iformat, trimming = False, False, "turtle", "turtle", False
        O.owlClosure = op["kind"] in ("owl", "extension")
        O.owlExtras = op["kind"] == "extension"
        O.rdfsClosure = op["kind"] == "rdfs"
        owlrl.convert_graph(O)
    else:
        T = dec_graph(op["triples"])
        kw = dict(op["opts"], improved=op["improved"], cpu=60)
        if k == "expand":
            expand(graph(T), op["kind"], **kw)
        elif k == "nested":
            base = closure_class(op["kind"])
            inner = op["inner"]
            rt = [(EX("rt1"), U("rdf:type"), U("rdfs:Datatype")), (EX("rt1"), U("owl:onDatatype"), U("xsd:integer")),
                  (EX("rt1"), U("owl:withRestrictions"), B("l")), (B("l"), U("rdf:first"), B("f")), (B("l"), U("rdf:rest"), U("rdf:nil")),
                  (B("f"), U("xsd:minInclusive"), L("3", "xsd:integer"))]

            def nested():
                owlrl.DeductiveClosure(closure_class(inner)).expand(graph(rt))

            class C(base):
                did = False

                def pre_process(self):
                    super().pre_process()
                    if op["at"] == "pre":
                        nested()

                def rules(self, t, n):
                    super().rules(t, n)
                    if op["at"] == "rule" and not C.did:
                        C.did = True
                        nested()

            expand(graph(T), op["kind"], cls=C, **kw)
        else:
            exc = {"Boom": Boom, "KeyboardInterrupt": KeyboardInterrupt}[op["exc"]]
            where = op["where"]
            if where == "axioms":
                kw["axioms"] = True
            try:
                if where == "store":
                    st = FailingStore()
                    st.left, st.exc = op["nth"], exc
                    g = Graph(store=st)
                    for t in T:
                        Graph.add(g, t)
                    expand(g, op["kind"], **kw)
                elif where == "destination":
                    expand(graph(T), op["kind"], destination=Graph(), **kw)
                elif where == "destination2":
                    expand(graph(T), op["kind"], destination=EX("d"), **kw)
                elif where == "none class":
                    owlrl.DeductiveClosure(None, improved_datatypes=op["improved"]).expand(graph(T))
                else:
                    expand(graph(T), op["kind"], cls=failing(op["kind"], where, exc, op["nth"]), **kw)
            except (Boom, KeyboardInterrupt, ValueError):
                return "failed"


def application_conversion(s):
    if s == "bad":
        raise ValueError(s)
    return ("app", s)


def final(case):
    T = dec_graph(case["triples"])
    g = graph(T)
    expand(g, case["kind"], improved=case["improved"], **case["opts"])
    rest, msgs, _ = split_errors(set(g))
    return {"triples": sorted(map(repr, enc_graph(rest))), "messages": sorted(msgs)}


def history(case):
    """in a child process"""
    out, n = [], {}

    def count(x):
        n[x] = n.get(x, 0) + 1

    switch = None
    bound = []
    for k, op in enumerate(case["history"]):
        name = "operation %d (%s)" % (k, " ".join(str(op.get(x, "")) for x in ("op", "kind", "where", "exc", "inner", "at")).strip())
        count("operations")
        before = None
        if op["op"] in ("expand", "fail", "nested", "convert"):
            before = state()
        r = perform(op)
        if r == "failed":
            count("failed expansions")
        if op.get("rt"):
            count("restricted datatypes")
        if before is not None:
            count("snapshots compared")
            d = differ(before, state())
            if d:
                out.append("%s leaves changed global state: %s" % (name, "; ".join(d)))
                break
        elif op["op"] == "bind":
            count("bindings")
            bound.append(op["dt"])
        else:
            count("switches")
            switch = op["op"]
            ref = pristine(switch)
            skip = {str(U(b)) for b in bound} | {"%s^^%s" % p for p in PROBE if p[1] in bound}
            d = differ(ref, state(), skip)
            if d:
                out.append("%s: not the conversions of a process that did only that: %s" % (name, "; ".join(d)))
                break
    if not out and not bound:
        got = final(case)
        want = fresh(switch, case)
        count("final results compared")
        for key in ("triples", "messages"):
            a, b = set(want[key]), set(got[key])
            for t in sorted(a - b)[:2]:
                out.append("expansion (%s) after the history lacks %s" % (case["kind"], t))
            for t in sorted(b - a)[:2]:
                out.append("expansion (%s) after the history has in addition %s" % (case["kind"], t))
    return {"out": out, "n": n}


def fresh(switch, case=None):
    """what a process that only switched (and expanded) sees"""
    p = subprocess.run([sys.executable, __file__], input=json.dumps([switch, case]), env=dict(os.environ), text=True, capture_output=True, timeout=200)
    if p.returncode != 0:
        raise RuntimeError(p.stderr[-800:])
    return json.loads(p.stdout)


CACHE = {}


def fork(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = {"ok": f()}
            except Timeout:
                res = {"timeout": 1}
            except BaseException as e:
                from run import in_repo

                res = {"error": traceback.format_exc()[-1500:], "repo": in_repo(e.__traceback__)}
            with os.fdopen(w, "w") as h:
                json.dump(res, h)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as h:
        data = h.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("child died")
    res = json.loads(data)
    if "timeout" in res:
        raise Timeout()
    return res


def pristine(switch):
    """state of a process that only switched; that of RDFLib itself from a process without owlrl"""
    if switch not in CACHE:
        CACHE[switch] = fresh(switch)
        if switch == "use_rdflib":
            p = subprocess.run([sys.executable, probe.__file__], text=True, capture_output=True, timeout=200)
            if p.returncode != 0:
                raise RuntimeError(p.stderr[-800:])
            CACHE[switch].update(json.loads(p.stdout))
    return CACHE[switch]


def judge(case, st):
    for sw in ("use_improved", "use_rdflib"):
        pristine(sw)
    # the graph has to be of bearable size
    model_of(dec_graph(case["triples"]), "extension" if case["kind"] == "trimming" else case["kind"], limit=1500, **case["opts"])
    for op in case["history"]:
        if "triples" in op:
            model_of(dec_graph(op["triples"]), "extension" if op["kind"] == "trimming" else op["kind"], limit=1500, **op["opts"])

    res = fork(lambda: history(case))
    if "error" in res:
        if res["repo"]:
            return ["the code under test raised: %s" % res["error"]]
        raise RuntimeError(res["error"])
    for k, v in res["ok"]["n"].items():
        st.count(k, v)
    if len(case["history"]) >= 2:
        st.nontrivial(json.dumps(case["history"], sort_keys=True))
    return res["ok"]["out"]


def sample(case):
    return {"history": [{k: (len(v) if k == "triples" else v) for k, v in op.items()} for op in case["history"]], "kind": case["kind"],
            "triples": [show(t) for t in dec_graph(case["triples"])][:12]}


if __name__ == "__main__":
    switch, case = json.load(sys.stdin)
    if switch:
        perform({"op": switch})
    print(json.dumps(state() if case is None else final(case)))
