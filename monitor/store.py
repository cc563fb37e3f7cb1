"""Instrumented rdflib store: the observation point of all checks that run closures.

It is rdflib's own Memory store, plus
 - an event log of additions and removals per context (optional),
 - a count of full scans (one per cycle of the closure loop) and, at every scan, the number of triples, which decides
   termination on logical steps: a scan that finds no triple added since the scan before must be one of the last ones,
 - an enumeration order chosen by a seed (optional).
"""
import random

from rdflib import Graph
from rdflib.plugins.stores.memory import Memory

ALL = (None, None, None)


class DoesNotStop(BaseException):
    """The closure scans again and again although nothing is new, or grows beyond any bound."""


class MonitoredStore(Memory):
    MAX_IDLE_SCANS = 200
    MAX_READS = 10**9

    def __init__(self, shuffle=None, log=False, max_size=200000, configuration=None, identifier=None):
        super().__init__(configuration, identifier)
        self.rng = None if shuffle is None else random.Random(shuffle)
        self.events = [] if log else None
        self.scans = []  # number of triples in the store at each full scan
        self.watching = False
        self.idle = 0
        self.max_size = max_size
        self.reads = 0

    def _ctx(self, context):
        return None if context is None else str(getattr(context, "identifier", context))

    def watch(self, on=True):
        self.watching = on
        self.idle = 0
        self.scans = [] if on else self.scans
        self.reads = 0 if on else self.reads

    def add(self, triple, context, quoted=False):
        new = None
        if self.events is not None:
            new = next(iter(Memory.triples(self, triple, context)), None) is None
            self.events.append(("add", triple, self._ctx(context), new))
        super().add(triple, context, quoted)
        if self.watching and len(self) > self.max_size:
            raise DoesNotStop("more than %d triples" % self.max_size)

    def remove(self, triple_pattern, context=None):
        if self.events is not None:
            for t, _ in list(Memory.triples(self, triple_pattern, context)):
                self.events.append(("remove", t, self._ctx(context), True))
        super().remove(triple_pattern, context)

    def triples(self, triple_pattern, context=None):
        self.reads += 1
        if self.reads > self.MAX_READS and self.watching:
            raise DoesNotStop("more than %d reads of the store" % self.MAX_READS)
        if triple_pattern == ALL and self.watching:
            n = len(self)
            if self.scans and self.scans[-1] == n:
                self.idle += 1
                if self.idle > self.MAX_IDLE_SCANS:
                    raise DoesNotStop("%d scans without any new triple" % self.idle)
            else:
                self.idle = 0
            self.scans.append(n)
        it = Memory.triples(self, triple_pattern, context)
        if self.rng is None:
            return it
        rows = list(it)
        self.rng.shuffle(rows)
        return iter(rows)


def graph(triples=(), **kw):
    g = Graph(store=MonitoredStore(**kw))
    for t in triples:
        g.add(t)
    return g
