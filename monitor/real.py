"""Running the code under test."""
import signal
import sys
import warnings

sys.dont_write_bytecode = True
REPO = "/repo"
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

import owlrl  # noqa: E402

assert owlrl.__file__ == REPO + "/owlrl/__init__.py", owlrl.__file__

from rdflib import Literal  # noqa: E402

from .store import DoesNotStop, graph  # noqa: E402
from .terms import U  # noqa: E402

import logging  # noqa: E402

logging.getLogger("rdflib.term").setLevel(logging.CRITICAL)

ERR_TYPE, ERR_TEXT, TYPE = U("err:ErrorMessage"), U("err:error"), U("rdf:type")

CLASSES = {
    "rdfs": "RDFS_Semantics", "owl": "OWLRL_Semantics", "combined": "RDFS_OWLRL_Semantics",
    "extension": "OWLRL_Extension", "trimming": "OWLRL_Extension_Trimming",
}


class Timeout(BaseException):
    pass


class Result:
    def __init__(self, triples, messages, scans, error_nodes):
        self.triples, self.messages, self.scans, self.error_nodes = triples, messages, scans, error_nodes


def _alarm(sig, frame):
    raise Timeout()


class cpu_limit:
    """CPU-time watchdog; its firing is inconclusive, never a verdict."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def split_errors(triples):
    """(triples without error reports, messages, report nodes)"""
    nodes = {s for s, p, o in triples if p == TYPE and o == ERR_TYPE}
    texts = [str(o) for s, p, o in triples if s in nodes and p == ERR_TEXT]
    rest = {t for t in triples if not (t[0] in nodes and (t[1], t[2]) == (TYPE, ERR_TYPE)) and not (t[0] in nodes and t[1] == ERR_TEXT)}
    return rest, texts, nodes


def closure_class(kind):
    return getattr(owlrl, CLASSES[kind])


def expand(g, kind, rdfs=False, axioms=False, daxioms=False, destination=None, improved=True, cls=None, cpu=120):
    dc = owlrl.DeductiveClosure(cls or closure_class(kind), improved_datatypes=improved, rdfs_closure=rdfs,
                                axiomatic_triples=axioms, datatype_axioms=daxioms)
    store = g.store
    watch = hasattr(store, "watch")
    if watch:
        store.watch()
    try:
        with cpu_limit(cpu):
            dc.expand(g, destination=destination) if destination is not None else dc.expand(g)
    finally:
        if watch:
            store.watch(False)
    return g


def closure(triples, kind, rdfs=False, axioms=False, daxioms=False, shuffle=None, cpu=120, improved=True):
    g = graph(triples, shuffle=shuffle)
    expand(g, kind, rdfs, axioms, daxioms, cpu=cpu, improved=improved)
    out = set(g)
    rest, texts, nodes = split_errors(out)
    return Result(rest, texts, list(g.store.scans), nodes)
