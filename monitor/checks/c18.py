import datetime
from fractions import Fraction

from rdflib import Literal

from monitor.common import *
from monitor import forms, lexical
from monitor.real import closure_class, expand, owlrl
from monitor.store import graph
from monitor.terms import *

RULE = ("families of valid forms of one datatype (or of several datatypes of one kind of numbers) that spell equal, neighbouring and unrelated values differently (zeros, signs, exponents, time "
        "zones, fractions of a second, hexadecimal case, blanks in base64); every pair is compared for equality and order and every value with the "
        "one an independent evaluation denotes (instant, octets, number), converted directly and by Literal with improved conversions; non-trivial: both an equal and an "
        "unequal pair; distinct by family")
BUDGET = {"quick": 60000, "thorough": 1000000}
MIN = {"quick": {"values": 30000, "equal pairs": 20000, "unequal pairs": 15000, "ordered pairs": 15000, "instants": 2000, "octets": 1500, "rationals": 800, "datatypes": 38}}
MIN["thorough"] = MIN["quick"]
SHRINK = ["forms"]
NUM = sorted(lexical.INT_RANGE) + ["xsd:decimal"]
DTS = [d for d in forms.DTS if d not in ("rdf:XMLLiteral", "rdf:HTML")] + ["owl:rational"]
RATIONAL = []


def rational():
    """The conversion of owl:rational, as in force during an extension expansion."""
    if not RATIONAL:
        from rdflib.namespace import OWL

        from owlrl.DatatypeHandling import AltXSDToPYTHON

        class C(closure_class("extension")):
            def pre_process(self):
                super().pre_process()
                RATIONAL.append(AltXSDToPYTHON[OWL.rational])

        expand(graph(), "extension", cls=C)
    return RATIONAL[0]


def gen(rng, i, tier):
    dt = DTS[i % len(DTS)]
    fs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if dt == "owl:rational":
            n, d = rng.choice([0, 1, -1, 3, 10**20, rng.randint(-50, 50)]), rng.choice([1, 2, 3, 7, 10**18, rng.randint(1, 60)])
            for _ in range(3):
                k = rng.choice([1, 1, 2, 3, 10])
                fs.append([dt, forms.spell_int(rng, n * k) + "/" + "0" * rng.choice([0, 0, 1]) + str(d * k + rng.choice([0, 0, 0, 1]))])
        elif dt in NUM and rng.random() < 0.4:
            v = rng.randint(0, 3)
            for _ in range(4):
                d = rng.choice(NUM)
                s = forms.spell_int(rng, v)
                if lexical.valid(s, U(d)):
                    fs.append([d, s])
            fs += [[dt, s] for s in forms.family(rng, dt, 2)]
        else:
            fs += [[dt, s] for s in forms.family(rng, dt, rng.choice([2, 4, 6]))]
    return {"forms": fs}


def number(v):
    return Fraction(v) if not isinstance(v, bool) else None


def denoted(dt, v, want, st):
    """text if the Python value v is not the denoted value `want`"""
    kind = want[0]
    if kind == "decimal":
        st.count("numbers")
        st.count("rationals", dt == "owl:rational")
        if number(v) != want[1]:
            return "the number %s" % want[1]
    elif kind in ("double", "float"):
        st.count("numbers")
        f = float(v)
        w = float(want[1]) if isinstance(want[1], Fraction) else float(want[1].lower())
        if f != w and not (kind == "float" and abs(f - w) <= abs(w) * 1e-6):
            return "the number %s" % w
    elif kind == "boolean":
        if not isinstance(v, (bool, int)) or bool(v) != want[1]:
            return str(want[1])
    elif kind in ("hexBinary", "base64Binary"):
        st.count("octets")
        if bytes(v) != want[1]:
            return "the octets %r" % want[1]
    elif kind == "dateTime":
        st.count("instants")
        off = v.utcoffset()
        if (off is None) != (want[1] == "local"):
            return "%s time" % want[1]
        naive = v.replace(tzinfo=None)
        t = Fraction(naive.toordinal() * 86400 + naive.hour * 3600 + naive.minute * 60 + naive.second) + Fraction(naive.microsecond, 10**6)
        if off is not None:
            t -= Fraction(off.days * 86400 + off.seconds) + Fraction(off.microseconds, 10**6)
        if t != want[2]:
            return "the instant %s (seconds), not %s" % (want[2], t)
    elif kind == "time" and isinstance(v, datetime.time):
        st.count("instants")
        off = v.utcoffset()
        t = Fraction(v.hour * 3600 + v.minute * 60 + v.second) + Fraction(v.microsecond, 10**6)
        if (off is None) != (want[1] == "local"):
            return "%s time" % want[1]
        if off is not None:
            t -= off.days * 86400 + off.seconds
        if t != want[2]:
            return "%s seconds, not %s" % (want[2], t)
    elif kind == "date":
        d = v.date() if isinstance(v, datetime.datetime) else v
        if d.toordinal() != want[1]:
            return str(datetime.date.fromordinal(want[1]))
    elif kind == "string" or kind == "anyURI":
        if str(v) != want[1]:
            return repr(want[1])
    elif kind == "plain":
        if isinstance(v, Literal) and (str(v) != want[1] or (v.language or "").lower() != want[2]):
            return "%r@%s" % want[1:]
    return None


ORDERED = {"decimal", "double", "float", "dateTime", "time", "date"}


def judge(case, st):
    from owlrl.DatatypeHandling import AltXSDToPYTHON

    vals = []
    out = []
    todo = [(dt, s) for dt, s in case["forms"] if lexical.value(s, U(dt)) is not None]
    lits = {}
    owlrl.DeductiveClosure.use_improved_datatypes_conversions()
    try:
        for dt, s in todo:
            if dt != "owl:rational":
                lits[dt, s] = Literal(s, datatype=U(dt), normalize=False).value
    finally:
        owlrl.DeductiveClosure.use_rdflib_datatypes_conversions()
    for dt, s in todo:
        want = lexical.value(s, U(dt))
        st.see("datatypes", dt)
        f = rational() if dt == "owl:rational" else AltXSDToPYTHON[U(dt)]
        v = f(s)
        st.count("values")
        text = denoted(dt, v, want, st)
        if text:
            out.append("%r^^%s is converted to %r instead of %s" % (s, dt, v, text))
        l = lits.get((dt, s), v)
        if type(l) is not type(v) or l != v:
            out.append("Literal(%r, %s).value is %r, the conversion gives %r" % (s, dt, l, v))
        vals.append((dt, s, want, v))
    eq = ne = False
    for i, (d1, s1, w1, v1) in enumerate(vals):
        for d2, s2, w2, v2 in vals[i + 1:]:
            if w1[0] != w2[0] or ("owl:rational" in (d1, d2) and d1 != d2):
                continue
            if w1 == w2:
                st.count("equal pairs")
                eq = True
                if not (v1 == v2):
                    out.append("%r^^%s and %r^^%s denote the same value but are converted to %r and %r" % (s1, d1, s2, d2, v1, v2))
                continue
            ne = True
            st.count("unequal pairs")
            if v1 == v2:
                out.append("%r^^%s and %r^^%s denote different values but are converted to %r and %r" % (s1, d1, s2, d2, v1, v2))
            elif w1[0] in ORDERED and type(w1[-1]) is type(w2[-1]) and not isinstance(w1[-1], str) and w1[1:-1] == w2[1:-1]:
                st.count("ordered pairs")
                if (v1 < v2) != (w1[-1] < w2[-1]) or (v1 > v2) != (w1[-1] > w2[-1]):
                    out.append("%r^^%s and %r^^%s: the converted values %r and %r are in the wrong order" % (s1, d1, s2, d2, v1, v2))
    if eq and ne:
        st.nontrivial(case["forms"])
    return out[:6]



def sample(case):
    return case
