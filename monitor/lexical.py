"""Independent lexical and value spaces of the datatypes (XML Schema 1.1 part 2, rdf:PlainLiteral, OWL rational).

valid(lex, dt) -> True | False | None   (None: not decided, the checks make no claim)
value(lex, dt) -> hashable canonical value | None (not decided)
"""
import datetime
import re
import xml.parsers.expat
from fractions import Fraction

from rdflib import Literal

from .terms import short

INT_RANGE = {
    "xsd:integer": (None, None), "xsd:nonNegativeInteger": (0, None), "xsd:positiveInteger": (1, None),
    "xsd:nonPositiveInteger": (None, 0), "xsd:negativeInteger": (None, -1),
    "xsd:long": (-2**63, 2**63 - 1), "xsd:int": (-2**31, 2**31 - 1), "xsd:short": (-2**15, 2**15 - 1),
    "xsd:byte": (-128, 127), "xsd:unsignedLong": (0, 2**64 - 1), "xsd:unsignedInt": (0, 2**32 - 1),
    "xsd:unsignedShort": (0, 2**16 - 1), "xsd:unsignedByte": (0, 255),
}
STRINGS = {"xsd:string", "xsd:normalizedString", "xsd:token", "xsd:language", "xsd:Name", "xsd:NCName", "xsd:NMTOKEN"}
_odd = re.compile("[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]")
_tz = r"(Z|[+-](0[0-9]|1[0-3]):[0-5][0-9]|[+-]14:00)?"
_b64 = re.compile(
    r"((([A-Za-z0-9+/] ?){4})*(([A-Za-z0-9+/] ?){3}[A-Za-z0-9+/]|([A-Za-z0-9+/] ?){2}[AEIMQUYcgkosw048] ?=|"
    r"[A-Za-z0-9+/] ?[AQgw] ?= ?=))?"
)
_num = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)")
_dbl = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|[+-]?INF|NaN")


def _days(y, m):
    return 29 if m == 2 and (y % 4 == 0 and y % 100 != 0 or y % 400 == 0) else (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


def _xml_ok(v):
    a, b = _xml_parses(v, None), _xml_parses(v, " ")
    return a if a == b else None  # well formed, but not namespace well-formed: no claim


def _xml_parses(v, sep):
    depth = [0]
    p = xml.parsers.expat.ParserCreate(namespace_separator=sep)
    top = []

    def start(n, a):
        if depth[0] == 0:
            top.append(n)
        depth[0] += 1

    def end(n):
        depth[0] -= 1

    p.StartElementHandler, p.EndElementHandler = start, end
    try:
        p.Parse("<root>%s</root>" % v, True)
    except xml.parsers.expat.ExpatError:
        return False
    return len(top) == 1


def _date_part(v, kind):
    """(year, month, day) of the date fields, with tz removed; True/False/None validity."""


def valid(lex, dt):
    d = short(dt)
    if d in INT_RANGE:
        if re.fullmatch(r"[+-]?[0-9]+", lex) is None:
            return False
        if len(lex) > 4000:
            return None
        lo, hi = INT_RANGE[d]
        n = int(lex)
        return (lo is None or lo <= n) and (hi is None or n <= hi)
    if d == "xsd:decimal":
        return _num.fullmatch(lex) is not None
    if d in ("xsd:double", "xsd:float"):
        if _dbl.fullmatch(lex) is None:
            return False
        m = re.search("[eE]([+-]?[0-9]+)$", lex)
        if m and abs(int(m.group(1)[:9])) > (30 if d == "xsd:float" else 290):
            return None  # beyond the value space: rounds to 0 or INF; documented range check in the package
        if len(lex) > 25:
            return None
        return True
    if d == "xsd:boolean":
        return lex in ("true", "false", "0", "1")
    if d in ("rdfs:Literal", "rdf:HTML", "xsd:string", "rdf:langString"):
        return True
    if d in STRINGS and _odd.search(lex):
        return None
    if d == "xsd:normalizedString":
        return not re.search("[\t\n\r]", lex)
    if d == "xsd:token":
        return not re.search("[\t\n\r]|^ | $|  ", lex) if "\n" not in lex else False
    if d == "xsd:language":
        return re.fullmatch("[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*", lex) is not None
    if d in ("xsd:Name", "xsd:NCName", "xsd:NMTOKEN"):
        if not lex.isascii():
            return None
        return re.fullmatch({"xsd:Name": "[A-Za-z_:][A-Za-z0-9._:-]*", "xsd:NCName": "[A-Za-z_][A-Za-z0-9._-]*",
                             "xsd:NMTOKEN": "[A-Za-z0-9._:-]+"}[d], lex) is not None
    if d == "xsd:hexBinary":
        return re.fullmatch("([0-9a-fA-F]{2})*", lex) is not None
    if d == "xsd:base64Binary":
        return _b64.fullmatch(lex) is not None
    if d == "xsd:anyURI":
        if re.fullmatch(r"([a-z][a-z0-9+.-]*:[A-Za-z0-9/._~#?&=+-]*|[A-Za-z0-9/._~#?&=+-]*)", lex):
            return True
        return None
    if d in ("xsd:dateTime", "xsd:dateTimeStamp", "xsd:date", "xsd:gYear", "xsd:gYearMonth"):
        yr = r"(-?([1-9][0-9]{3,}|0[0-9]{3}))"
        mo, dy = "(0[1-9]|1[0-2])", "(0[1-9]|[12][0-9]|3[01])"
        tm = r"(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\.[0-9]+)?|24:00:00(\.0+)?)"
        z = _tz if d != "xsd:dateTimeStamp" else _tz[:-1]
        rx = {"xsd:dateTime": yr + "-" + mo + "-" + dy + "T" + tm + z, "xsd:date": yr + "-" + mo + "-" + dy + z,
              "xsd:gYear": yr + z, "xsd:gYearMonth": yr + "-" + mo + z}
        rx["xsd:dateTimeStamp"] = rx["xsd:dateTime"]
        m = re.fullmatch(rx[d], lex)
        if m is None:
            return False
        if "T24:" in lex or lex[0] == "-" or len(m.group(1)) > 4 or m.group(1) == "0000":
            return None
        if d in ("xsd:gYear", "xsd:gYearMonth"):
            return True
        y, mth, day = int(lex[:4]), int(lex[5:7]), int(lex[8:10])
        return day <= _days(y, mth)
    if d == "xsd:time":
        if re.fullmatch(r"24:00:00(\.0+)?" + _tz, lex):
            return None
        return re.fullmatch(r"([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\.[0-9]+)?" + _tz, lex) is not None
    if d == "xsd:gMonthDay":
        m = re.fullmatch("--(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])" + _tz, lex)
        return m is not None and int(m.group(2)) <= _days(2008, int(m.group(1)))
    if d == "xsd:gMonth":
        return re.fullmatch("--(0[1-9]|1[0-2])" + _tz, lex) is not None
    if d == "xsd:gDay":
        return re.fullmatch("---(0[1-9]|[12][0-9]|3[01])" + _tz, lex) is not None
    if d == "rdf:PlainLiteral":
        return re.fullmatch("(.*)@([a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*)?", lex, re.DOTALL) is not None
    if d == "rdf:XMLLiteral":
        if _odd.search(lex):
            return None
        return _xml_ok(lex)
    if d == "owl:rational":
        m = re.fullmatch("([+-]?[0-9]+)(/[0-9]+)?", lex)  # an integer alone is taken for n/1
        return m is not None and int((m.group(2) or "/1")[1:]) > 0
    return None


def _offset(z):
    if not z:
        return None
    if z == "Z":
        return 0
    m = int(z[1:3]) * 60 + int(z[4:6])
    return -m if z[0] == "-" else m


PRIM_STRING = STRINGS


def value(lex, dt):
    """Canonical value (kind, ...); equal iff the same value of the same kind; None if undecided."""
    d = "xsd:string" if dt is None else short(dt)
    if valid(lex, dt) is not True if dt is not None else False:
        return None
    if d in INT_RANGE or d == "xsd:decimal":
        return ("decimal", Fraction(re.sub(r"\.$", "", lex).replace("+", "") if not lex.startswith(("+.", "-.", ".")) else
                                    lex.replace("+", "").replace(".", "0.", 1)))
    if d in ("xsd:double", "xsd:float"):
        k = d[4:]
        if lex in ("INF", "+INF"):
            return (k, "INF")
        if lex == "-INF":
            return (k, "-INF")
        if lex == "NaN":
            return None
        m, _, e = lex.lower().partition("e")
        digits = re.sub("[^0-9]", "", m).strip("0")
        if len(digits) > (6 if k == "float" else 15):
            return None
        f = value(m, _DEC)[1] * Fraction(10) ** int(e or "0")
        if f == 0 and "-" in m:
            return None
        return (k, f)
    if d == "xsd:boolean":
        return ("boolean", lex in ("true", "1"))
    if d in STRINGS:
        return ("string", lex)
    if d == "xsd:hexBinary":
        return ("hexBinary", bytes(int(lex[i:i + 2], 16) for i in range(0, len(lex), 2)))
    if d == "xsd:base64Binary":
        alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
        bits = "".join(format(alpha.index(c), "06b") for c in lex if c in alpha)
        return ("base64Binary", bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) - 7, 8)))
    if d == "xsd:anyURI":
        return ("anyURI", lex)
    if d in ("xsd:dateTime", "xsd:dateTimeStamp", "xsd:time"):
        m = re.fullmatch(r"(?:([0-9]{4})-([0-9]{2})-([0-9]{2})T)?([0-9]{2}):([0-9]{2}):([0-9]{2})(?:\.([0-9]+))?" + _tz, lex)
        y, mo, dy, h, mi, s, fr, z = m.groups()[:8]
        if fr and len(fr.rstrip("0")) > 6:
            return None
        days = datetime.date(int(y), int(mo), int(dy)).toordinal() if y else 0
        t = Fraction(((days * 24 + int(h)) * 60 + int(mi)) * 60 + int(s)) + (Fraction(int(fr), 10 ** len(fr)) if fr else 0)
        off = _offset(z)
        kind = "time" if d == "xsd:time" else "dateTime"
        if off is None:
            return (kind, "local", t)
        return (kind, "utc", t - off * 60)
    if d == "xsd:date":
        if len(lex) > 10:
            return None
        return ("date", datetime.date(int(lex[:4]), int(lex[5:7]), int(lex[8:10])).toordinal())
    if d in ("xsd:gYear", "xsd:gYearMonth", "xsd:gMonthDay", "xsd:gMonth", "xsd:gDay"):
        return (d[4:], lex) if not re.search(r"(Z|[+-][0-9]{2}:[0-9]{2})$", lex) else None
    if d == "rdf:PlainLiteral":
        t, _, l = lex.rpartition("@")
        return ("plain", t, l.lower())
    if d == "owl:rational":
        n, _, q = lex.partition("/")
        return ("decimal", Fraction(int(n), int(q or "1")))
    return None


from .terms import U  # noqa: E402

_DEC = U("xsd:decimal")

# datatypes whose values rdflib itself knows by default: RDFS closures exchange their equal literals
EXCHANGED = {"xsd:" + x for x in (
    "integer decimal long int short byte nonNegativeInteger positiveInteger nonPositiveInteger negativeInteger unsignedLong "
    "unsignedInt unsignedShort unsignedByte double float boolean dateTime date time hexBinary base64Binary string "
    "normalizedString token language anyURI").split()}


def exchange(triples):
    """RDFS: every triple with a literal object also with the other literals of the graph denoting the same value."""
    groups = {}
    for _, _, o in triples:
        if isinstance(o, Literal):
            if o.language:
                k = ("lang", str(o), o.language.lower())
            elif o.datatype is None or short(o.datatype) in EXCHANGED:
                k = value(str(o), o.datatype)
                if k is None:
                    continue
            else:
                continue
            groups.setdefault(k, set()).add(o)
    same = {}
    for g in groups.values():
        if len(g) > 1:
            for x in g:
                same[x] = g
    out = set(triples)
    for s, p, o in triples:
        if o in same:
            for x in same[o]:
                out.add((s, p, x))
    return list(out)
