from rdflib import Literal, URIRef

from monitor.common import *
from monitor import forms, lexical
from monitor.real import closure, owlrl
from monitor.terms import *

RULE = ("strings generated for every datatype with a conversion: several spellings of values, range boundaries, calendar and time zone edges, mutations "
        "(foreign digits, white space, control characters, signs, exponents, truncation), forms of the other datatypes; each is converted directly, through "
        "Literal with the improved conversions on, and (every 4th case) through an OWL 2 RL or extension expansion whose reports have to name exactly the ill-typed "
        "literals; oracle: independent grammars of the lexical spaces; non-trivial: a string whose validity the oracle decides; distinct by datatype and string")
EVALUATIONS = "conversions judged"  # the counter that is the number of evaluations
BUDGET = {"quick": 3600, "thorough": 60000}
MIN = {"quick": {"conversions judged": 40000, "valid": 10000, "invalid": 10000, "expansions": 300, "ill-typed literals expanded": 1000, "datatypes": 38}}
MIN["thorough"] = MIN["quick"]
SHRINK = ["strings"]
IN_OWL = None


def gen(rng, i, tier):
    if i % 4 == 3:
        dts = rng.sample(OWL_DTS, 3)
        return {"strings": [[rng.choice(dts), s] for dt in dts for s in forms.strings(rng, dt, 4)], "expand": rng.choice(["owl", "owl", "owl", "extension"])}
    dt = forms.DTS[i % len(forms.DTS)]
    return {"strings": [[dt, s] for s in forms.strings(rng, dt, 24)]}


OWL_DTS = [d for d in forms.DTS if not d.startswith("xsd:g")]


def conversions():
    from owlrl.DatatypeHandling import AltXSDToPYTHON

    return AltXSDToPYTHON


def judge(case, st):
    out = []
    todo = []
    for dt, s in case["strings"]:
        want = lexical.valid(s, U(dt))
        if want is None:
            st.count("undecided by the oracle")
            continue
        todo.append((dt, s, want))
        st.see("datatypes", dt)
        st.nontrivial((dt, s))
    if "expand" in case:
        return expansion(case, todo, st)
    alt = conversions()
    for dt, s, want in todo:
        st.count("conversions judged")
        st.count("valid" if want else "invalid")
        try:
            alt[U(dt)](s)
            got = True
        except ValueError:
            got = False
        except Exception as e:
            out.append("conversion of %r to %s raises %s instead of %s" % (s, dt, type(e).__name__, "giving a value" if want else "ValueError"))
            continue
        if got != want:
            out.append("conversion of %r to %s %s although the string is %s" % (s, dt, "accepted" if got else "refused", "valid" if want else "invalid"))
    if not out:
        owlrl.DeductiveClosure.use_improved_datatypes_conversions()
        try:
            lits = [(dt, s, want, Literal(s, datatype=U(dt), normalize=False)) for dt, s, want in todo]
        finally:
            owlrl.DeductiveClosure.use_rdflib_datatypes_conversions()
        for dt, s, want, l in lits:
            if dt in ("rdf:HTML", "xsd:string") or str(l) != s:
                continue
            st.count("literals judged")
            if bool(l.ill_typed) == want:
                out.append("with improved conversions Literal(%r, %s).ill_typed is %s" % (s, dt, l.ill_typed))
    return out[:6]


def expansion(case, todo, st):
    T = []
    good, bad = set(), set()
    for k, (dt, s, want) in enumerate(todo):
        if "\x00" in s:
            continue
        l = L(s, dt)
        if str(l) != s:  # rdflib itself collapses white space
            want = lexical.valid(str(l), U(dt))
        T.append((EX("i%03d" % (k % 3)), EX("p%03d" % (k % 2)), l))
        (good if want else bad).add(l)
    if not T:
        return []
    res = closure(T, case["expand"])
    st.count("expansions")
    st.count("ill-typed literals expanded", len(bad))
    out = []
    # a report names the lexical form and the datatype
    for l in sorted(bad, key=repr):
        if not any(str(l) in m and str(l.datatype) in m for m in res.messages):
            out.append("no report on the ill-typed literal %r^^%s; reports: %s" % (str(l), short(l.datatype), res.messages[:3]))
    if not bad and res.messages:
        out.append("report without ill-typed literal: %s" % res.messages[0])
    n = len({(str(l), l.datatype) for l in bad})
    if bad and not out and len(res.messages) > n:
        out.append("%d reports for %d ill-typed literals: %s" % (len(res.messages), n, res.messages[:4]))
    return out



def sample(case):
    return {"strings": case["strings"][:8]}
