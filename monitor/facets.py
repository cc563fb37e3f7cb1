"""Datatype restrictions: generation around the boundaries, and the oracle deciding whether a literal's value fits."""
import re
from fractions import Fraction

from rdflib import Literal, URIRef

from . import lexical
from .model import PARENT, ancestors
from .terms import EX, L, U, short

NUM = ["xsd:decimal", "xsd:integer", "xsd:nonNegativeInteger", "xsd:nonPositiveInteger", "xsd:positiveInteger", "xsd:negativeInteger",
       "xsd:long", "xsd:int", "xsd:short", "xsd:byte", "xsd:unsignedLong", "xsd:unsignedInt", "xsd:unsignedShort", "xsd:unsignedByte"]
FLOAT = ["xsd:double", "xsd:float"]
TIME = ["xsd:dateTime", "xsd:dateTimeStamp", "xsd:time", "xsd:date"]
BIN = ["xsd:hexBinary", "xsd:base64Binary"]
STR = ["xsd:string", "xsd:normalizedString", "xsd:token", "xsd:NMTOKEN", "xsd:Name", "xsd:NCName", "xsd:language", "xsd:anyURI"]
ALL = NUM + FLOAT + TIME + BIN + STR + ["rdf:PlainLiteral"]
BOUNDS = ["xsd:minInclusive", "xsd:minExclusive", "xsd:maxInclusive", "xsd:maxExclusive"]
LENGTHS = ["xsd:length", "xsd:minLength", "xsd:maxLength"]
PATTERNS = ["[a-c]+", "a.*", "ab?c*", "(a|b){2}", "[^b]*", "[a-z]{3,}", ".", "a|ab", "[A-Z][a-z]*", "x-.*", "(ab)+", "en(-.*)?", ".*b"]
WORDS = ["a", "b", "ab", "abc", "abcd", "aa", "bb", "c", "x-y", "abab", "Abc", "en", "en-gb", "fr", "abb", "ac", "xab"]
RANGES = ["en", "en-gb", "*", "fr", "en-*", "*-gb", "de-de", "de-*-de", "EN"]
TAGS = ["en", "en-gb", "en-us", "fr", "de-de", "de-latn-de", "de", "", "de-latn-de-1996", "de-x-de"]


def tag(rng):
    return rng.choice(TAGS) if rng.random() < 0.4 else "-".join(["de" if rng.random() < 0.7 else "en"] + [
        rng.choice(["de", "gb", "x", "a", "latn", "1996", "en", "1"]) for _ in range(rng.randint(0, 4))])


def language_range(rng):
    return rng.choice(RANGES) if rng.random() < 0.4 else "-".join([rng.choice(["de", "de", "en", "*"])] + [
        rng.choice(["de", "gb", "*", "x", "a", "latn", "1996", "en", "1", "DE"]) for _ in range(rng.randint(0, 3))])


class Undecided(Exception):
    pass


def _kind(d):
    return "bounds" if d in NUM + FLOAT + TIME else "binary" if d in BIN else "string" if d in STR else "plain"


def _num(v):
    """Comparable number of a ('double'|'float'|'decimal', x) value."""
    return {"INF": float("inf"), "-INF": float("-inf")}.get(v[1], v[1]) if isinstance(v[1], str) else v[1]


def _compare(a, b):
    """-1, 0, 1 for values of one ordered value space."""
    if a is None or b is None or a[0] != b[0]:
        raise Undecided()
    if a[0] in ("dateTime", "time"):
        if a[1] != b[1]:
            raise Undecided()
        x, y = a[2], b[2]
    elif a[0] in ("decimal", "double", "float"):
        x, y = _num(a), _num(b)
    else:
        x, y = a[1], b[1]
    return (x > y) - (x < y)


def _lang_match(rng, tag):
    """RFC 4647 extended filtering."""
    r, t = rng.lower().split("-"), tag.lower().split("-")
    if r[0] != "*" and r[0] != t[0]:
        return False
    i = j = 1
    while i < len(r):
        if r[i] == "*":
            i += 1
        elif j >= len(t):
            return False
        elif r[i] == t[j]:
            i, j = i + 1, j + 1
        elif len(t[j]) == 1:
            return False
        else:
            j += 1
    return True


def fits(lit, base, facets):
    """Whether the value of a literal (of the base datatype or one below it) satisfies all facets; Undecided if no claim is made.

    facets: list of (curie, Literal)."""
    d = short(URIRef(lit.datatype)) if lit.datatype is not None else None
    if d is None or (d != base and base not in ancestors(d)):
        raise Undecided()
    lex = str(lit)
    ok = lexical.valid(lex, U(base))
    if ok is None or not lexical.valid(lex, URIRef(lit.datatype)):
        raise Undecided()
    if not ok:
        raise Undecided()
    k = _kind(base)
    res = True
    v = None
    for f, fl in facets:
        if k == "bounds":
            if f not in BOUNDS:
                continue
            if d in FLOAT and lex == "NaN":
                return False
            v = lexical.value(lex, U(base))
            fd = URIRef(fl.datatype)
            w = lexical.value(str(fl), fd)
            c = _compare(v, w)
            ok = {"xsd:minInclusive": c >= 0, "xsd:minExclusive": c > 0, "xsd:maxInclusive": c <= 0, "xsd:maxExclusive": c < 0}[f]
        elif f in LENGTHS:
            if k == "binary":
                n = len(lexical.value(lex, U(base))[1])
            elif k == "plain":
                n = len(lex.rpartition("@")[0])
            else:
                n = len(lex)
            m = int(str(fl))
            ok = {"xsd:length": n == m, "xsd:minLength": n >= m, "xsd:maxLength": n <= m}[f]
        elif f == "xsd:pattern" and k in ("string", "plain"):
            text = lex.rpartition("@")[0] if k == "plain" else lex
            ok = re.fullmatch(str(fl), text) is not None
        elif f == "rdf:langRange" and k == "plain":
            tag = lex.rpartition("@")[2]
            if not tag:
                raise Undecided()
            ok = _lang_match(str(fl), tag)
        else:
            continue
        res = res and ok
    return res


def _value_lex(rng, d, n=None):
    """A lexical form around small numbers / near instants."""
    n = rng.randint(-3, 6) if n is None else n
    if d in NUM:
        lo, hi = lexical.INT_RANGE.get(d, (None, None))
        if lo is not None:
            n = max(n, lo)
        if hi is not None:
            n = min(n, hi)
        if d == "xsd:decimal" and rng.random() < 0.6:
            return "%d.%s" % (n, rng.choice(["0", "00", "5", "25", "000001", "999999"]))
        return rng.choice(["%d", "%d", "%03d", "%+d"]) % n
    if d in FLOAT:
        return rng.choice(["%d", "%d.0", "%d.5", "%dE0", "%de1", "%d.25E-1", "INF", "-INF"]).replace("%d", str(n))
    if d == "xsd:date":
        return "2020-%02d-%02d" % (rng.choice([2, 2, 3]), rng.choice([1, 28, 29, 2]))
    z = "Z" if d == "xsd:dateTimeStamp" else None
    return z


def _time_lex(rng, d, aware):
    t = "%02d:%02d:%02d%s" % (rng.choice([10, 11, 12]), rng.choice([0, 30]), rng.choice([0, 0, 59]), rng.choice(["", "", ".5", ".50", ".000001"]))
    if d != "xsd:time":
        t = "2020-%02d-%02dT" % (rng.choice([1, 2]), rng.choice([1, 28])) + t
    if aware:
        t += rng.choice(["Z", "+00:00", "+01:00", "-01:00", "+00:30", "-05:30", "+14:00"])
    return t


class Restriction:
    """A generated restriction and literals near its boundaries."""

    def __init__(self, rng, uri, base=None):
        self.uri = uri
        self.base = base or rng.choice(ALL)
        self.aware = rng.random() < 0.6 or self.base == "xsd:dateTimeStamp"
        k = _kind(self.base)
        self.facets = []
        if k == "bounds":
            for f in rng.sample(BOUNDS, rng.choice([0, 1, 1, 2, 2, 3, 4])):
                for _ in range(rng.choice([1, 1, 1, 2])):
                    self.facets.append((f, self.literal(rng, facet=True)))
        elif k == "binary":
            self._lengths(rng)
        else:
            if rng.random() < 0.6:
                self._lengths(rng)
            if rng.random() < 0.6 or not self.facets:
                for p in rng.sample(PATTERNS, rng.choice([1, 1, 1, 2])):
                    self.facets.append(("xsd:pattern", L(p) if rng.random() < 0.5 else L(p, "xsd:string")))
            if k == "plain" and rng.random() < 0.7:
                for p in [language_range(rng) for _ in range(rng.choice([1, 1, 2]))]:
                    self.facets.append(("rdf:langRange", L(p) if rng.random() < 0.5 else L(p, "xsd:string")))
        if rng.random() < 0.1:  # a facet that means nothing for this datatype
            self.facets.append(("xsd:length", L("1", "xsd:integer")) if k == "bounds" else ("xsd:minInclusive", L("1", "xsd:integer"))
                               if k != "bounds" else None)
        rng.shuffle(self.facets)

    def _lengths(self, rng):
        for f in rng.sample(LENGTHS, rng.choice([1, 1, 2])):
            for _ in range(1 if f == "xsd:length" else rng.choice([1, 1, 2])):
                self.facets.append((f, L(str(rng.randint(0, 5)), rng.choice(["xsd:integer", "xsd:nonNegativeInteger", "xsd:byte"]))))

    def datatypes(self):
        return [self.base] + [d for d in PARENT if self.base in ancestors(d)]

    def literal(self, rng, facet=False):
        """A literal of the base datatype or one below."""
        d = self.base
        if rng.random() < 0.35:
            d = rng.choice(self.datatypes())
        if facet and d in NUM and rng.random() < 0.3:
            d = rng.choice(["xsd:integer", "xsd:decimal"])
        for _ in range(30):
            lex = self._lex(rng, d)
            if lexical.valid(lex, U(d)) and (d == self.base or facet or lexical.valid(lex, U(self.base))):
                return L(lex, d)
            d = self.base
        return L({"xsd:negativeInteger": "-1", "xsd:language": "en"}.get(self.base, "1"), self.base)

    def _lex(self, rng, d):
        if d in NUM + FLOAT or d == "xsd:date":
            if d in NUM and self.facets and rng.random() < 0.5:  # on or next to a bound
                v = lexical.value(str(rng.choice(self.facets)[1]), U("xsd:decimal"))
                if v:
                    n = v[1] + rng.choice([0, 0, 1, -1])
                    if n.denominator == 1:
                        return str(int(n))
            return _value_lex(rng, d)
        if d in TIME:
            return _time_lex(rng, d, self.aware if rng.random() < 0.97 else not self.aware)
        if d == "xsd:hexBinary":
            return "".join(rng.choice("0aF9") for _ in range(2 * rng.randint(0, 5)))
        if d == "xsd:base64Binary":
            return rng.choice(["", "YQ==", "YWI=", "YWJj", "YWJjZA==", "YWJjZGU=", "YWJjZGVm", "YWJj ZA=="])
        if d == "rdf:PlainLiteral":
            return rng.choice(WORDS + ["", "a@b"]) + "@" + self._tag(rng)
        if d == "xsd:string":
            return rng.choice(WORDS + ["", "a b", "a\nb", "ab\n", "\u00e9", "abc\n", "\U0001F600"])
        return rng.choice(WORDS)

    def _tag(self, rng):
        rs = [str(v) for f, v in self.facets if f == "rdf:langRange"]
        if not rs or rng.random() < 0.4:
            return tag(rng)
        # the range itself with something put in
        parts = [x if x != "*" else rng.choice(["de", "gb", "x", "latn"]) for x in rng.choice(rs).split("-")]
        if len(parts[0]) == 1:
            parts[0] = "de"
        for _ in range(rng.choice([0, 1, 1, 2])):
            parts.insert(rng.randint(1, len(parts)), rng.choice(["x", "a", "latn", "de", "1996"]))
        return "-".join(parts)

    def triples(self, g):
        """Emit the definition into a builder."""
        rng = g.rng
        g.emit(self.uri, U("rdf:type"), U("rdfs:Datatype"))
        g.emit(self.uri, U("owl:onDatatype"), U(self.base))
        nodes = []
        fs = list(self.facets)
        while fs:
            n = g.fresh("f")
            nodes.append(n)
            used = set()
            while fs:  # several facets may sit on one node
                f, v = fs.pop()
                g.emit(n, U(f), v)
                if rng.random() < 0.7:
                    break
        alias, g.alias = g.alias, 0
        g.emit(self.uri, U("owl:withRestrictions"), g.list(nodes))
        g.alias = alias
