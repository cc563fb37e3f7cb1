"""What an application sees of rdflib's literal conversions (run as a script: in a process that never imports owlrl)."""
import json
import os
import sys

sys.dont_write_bytecode = True
if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import logging

import rdflib
from rdflib import Literal

from monitor import mixed
from monitor.terms import U

logging.getLogger("rdflib.term").setLevel(logging.CRITICAL)
PROBE = [(lex, dt) for dt in sorted(mixed.VALID) for lex in mixed.VALID[dt][:2] + mixed.INVALID.get(dt, [])[:2]] + [(l, d) for d, l in mixed.OTHER] + [
    ("1/2", "owl:rational"), ("1", "owl:rational"), ("5", "ex:rt0"), ("5", "ex:rt1"), ("x", "ex:dt"), ("24:00:00", "xsd:time"), ("2020-01", "xsd:gYearMonth"),
    ("---31", "xsd:gDay"), ("--12", "xsd:gMonth"), ("P1Y2M", "xsd:duration"), ("a", "xsd:ID")]


def fname(f):
    code = getattr(f, "__code__", None)
    return "%s.%s:%s" % (getattr(f, "__module__", "?"), getattr(f, "__qualname__", repr(f)), code.co_firstlineno if code else "")


def probes():
    out = {}
    for lex, dt in PROBE:
        l = Literal(lex, datatype=U(dt), normalize=False)
        n = Literal(lex, datatype=U(dt))
        v = l.value
        if hasattr(v, "toxml"):
            v = ("xml", type(v).__name__)
        out["%s^^%s" % (lex, dt)] = [type(v).__name__, str(v) if type(v).__name__ != "DocumentFragment" else "", str(l.ill_typed), str(n)]
    return out


def table():
    return {str(k): fname(v) for k, v in rdflib.term._toPythonMapping.items()}


if __name__ == "__main__":
    out = {"conversion table": table(), "probe literals": probes()}
    assert "owlrl" not in sys.modules
    print(json.dumps(out))
