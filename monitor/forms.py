"""Strings for datatypes: valid forms (several spellings of one value), boundaries, mutations, forms of other datatypes."""
import datetime

from . import mixed
from .lexical import INT_RANGE

DTS = sorted(INT_RANGE) + ["xsd:decimal", "xsd:double", "xsd:float", "xsd:boolean", "xsd:string", "xsd:normalizedString", "xsd:token", "xsd:language",
                           "xsd:Name", "xsd:NCName", "xsd:NMTOKEN", "xsd:hexBinary", "xsd:base64Binary", "xsd:anyURI", "xsd:dateTime",
                           "xsd:dateTimeStamp", "xsd:date", "xsd:time", "xsd:gYear", "xsd:gYearMonth", "xsd:gMonthDay", "xsd:gMonth", "xsd:gDay",
                           "rdf:PlainLiteral", "rdf:XMLLiteral", "rdf:HTML"]
HOSTILE = list(" \t\n\r_+-.:eETZz/@#=%0123456789aAfFgGxX,;<>&'\"\\") + ["\u0663", "\u00b2", "\uff11", "\u00a0", "\u2003", "\x0b", "\x1f", "\x00",
                                                                    "\u00e9", "\u4e2d", "INF", "NaN", "nan", "0x", "1e5", "+0", "-0", "00", "true",
                                                                    "\u2028", "\u0085", "\ufeff", "\u212a", "\u017f", "\u0131"]
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def digits(rng, n):
    return "".join(rng.choice("0123456789") for _ in range(n))


def spell_int(rng, n):
    s = str(abs(n))
    z = "0" * rng.choice([0, 0, 0, 1, 2, 7])
    sign = "-" if n < 0 else rng.choice(["", "", "+"]) if n else rng.choice(["", "+", "-"])
    return sign + z + s


def spell_decimal(rng, n, k):
    """n / 10**k"""
    sign = "-" if n < 0 else rng.choice(["", "", "+"]) if n else rng.choice(["", "+", "-"])
    s = str(abs(n)).rjust(k + 1, "0")
    i, f = (s[:-k], s[-k:]) if k else (s, "")
    i = "0" * rng.choice([0, 0, 1, 3]) + i
    if f.strip("0") == "" and rng.random() < 0.6:
        f = ""
    elif rng.random() < 0.3:
        f = f.rstrip("0")
    if f or rng.random() < 0.2:
        f = f + "0" * rng.choice([0, 0, 1, 4])
    if f and i.strip("0") == "" and rng.random() < 0.3:
        i = ""
    return sign + i + ("." + f if f or rng.random() < 0.15 else "")


def spell_tz(rng, off):
    if off is None:
        return ""
    if off == 0:
        return rng.choice(["Z", "Z", "+00:00", "-00:00"])
    return "%s%02d:%02d" % ("-" if off < 0 else "+", abs(off) // 60, abs(off) % 60)


def offset(rng):
    return rng.choice([None, 0, 0, 60, -300, 330, -210, 840, -840, 345, rng.randint(-839, 839)])


def spell_frac(rng, us):
    s = "%06d" % us
    s = s.rstrip("0")
    if not s:
        return rng.choice(["", "", ".0", ".000"])
    return "." + s + "0" * rng.choice([0, 0, 1, 3])


def moment(rng):
    return datetime.datetime(rng.choice([1, 4, 1900, 1999, 2000, 2020, 2024, 9998, rng.randint(2, 9998)]), rng.randint(1, 12), rng.randint(1, 28),
                             rng.choice([0, 23, rng.randint(0, 23)]), rng.randint(0, 59), rng.choice([0, 59, rng.randint(0, 59)]),
                             rng.choice([0, 0, 500000, 1, 999999, rng.randrange(10**6)]))


def spell_datetime(rng, m, off):
    """m (UTC or local) in time zone off"""
    if off is not None:
        try:
            m = m + datetime.timedelta(minutes=off)
        except OverflowError:
            off = 0
    return "%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (m.year, m.month, m.day, m.hour, m.minute, m.second, spell_frac(rng, m.microsecond), spell_tz(rng, off))


def word(rng, first, rest, n=None):
    return rng.choice(first) + "".join(rng.choice(rest) for _ in range(rng.randint(0, 6) if n is None else n))


LOW = "abcxyzABC"


def lang(rng):
    return "-".join([word(rng, LOW, LOW, rng.choice([0, 1, 1, 7]))] + [word(rng, LOW + "09", LOW + "09", rng.choice([0, 3, 7])) for _ in range(rng.choice([0, 0, 1, 2]))])


def family(rng, dt, n=4):
    """Several valid forms, with good chance spelling the same value or neighbours."""
    out = []
    if dt in INT_RANGE:
        lo, hi = INT_RANGE[dt]
        base = rng.choice([0, 1, -1, 7, 10, lo if lo is not None else -10**30, hi if hi is not None else 10**30, rng.randint(-200, 200), 2**53, 2**53 + 1, 2**63])
        for _ in range(n):
            v = base + rng.choice([0, 0, 0, 1, -1])
            v = max(v, lo) if lo is not None else v
            v = min(v, hi) if hi is not None else v
            out.append(spell_int(rng, v))
    elif dt == "xsd:decimal":
        k = rng.choice([0, 0, 1, 2, 5, 20, 35])
        base = rng.choice([0, 1, -1, 10**k, 12, rng.randint(-10**6, 10**6), 10**29 + 1, 10**60 + 7])
        for _ in range(n):
            out.append(spell_decimal(rng, base + rng.choice([0, 0, 0, 1, -1]), k))
    elif dt in ("xsd:double", "xsd:float"):
        d = 5 if dt == "xsd:float" else 14
        base = rng.choice([0, 1, -1, 5, 10, rng.randint(-10**d, 10**d)])
        e = rng.choice([0, 0, 1, 3, -3, 10, -10, 20])
        for _ in range(n):
            v = base + rng.choice([0, 0, 0, 1])
            k = rng.choice([0, 0, 1, 3])
            if v == 0 and rng.random() < 0.9:
                v = 3
            x = e + k
            m = spell_decimal(rng, v, k)
            out.append(m + (rng.choice(["e", "E"]) + rng.choice(["+" if x >= 0 else "", ""]) + rng.choice(["", "0"]).join(["-" if x < 0 else "", str(abs(x))]) if x or rng.random() < 0.3 else ""))
        if rng.random() < 0.3:
            out[0] = rng.choice(["INF", "-INF", "+INF", "NaN"])
    elif dt == "xsd:boolean":
        out = [rng.choice(["true", "false", "0", "1"]) for _ in range(n)]
    elif dt in ("xsd:dateTime", "xsd:dateTimeStamp"):
        m = moment(rng)
        off = offset(rng)
        for _ in range(n):
            o = offset(rng) if off is not None or dt == "xsd:dateTimeStamp" else None
            if o is None and (off is not None or dt == "xsd:dateTimeStamp"):
                o = 0
            mm = m + datetime.timedelta(microseconds=rng.choice([0, 0, 0, 1, 10**6, 60 * 10**6])) if rng.random() < 0.5 else m
            out.append(spell_datetime(rng, mm, o))
        if rng.random() < 0.2 and dt == "xsd:dateTime":
            out.append(spell_datetime(rng, m, None))
    elif dt == "xsd:time":
        m = moment(rng).replace(year=2000, month=6, day=15)
        off = offset(rng)
        for _ in range(n):
            o = None if off is None else rng.choice([0, off, offset(rng) or 0])
            s = spell_datetime(rng, m + datetime.timedelta(microseconds=rng.choice([0, 0, 1, 10**6])), o)
            out.append(s[11:])
    elif dt == "xsd:date":
        m = moment(rng)
        off = rng.choice([None, None, 0, 60])
        for _ in range(n):
            mm = m + datetime.timedelta(days=rng.choice([0, 0, 1, -1, 31]) if 1 < m.year < 9998 else 0)
            out.append("%04d-%02d-%02d%s" % (mm.year, mm.month, mm.day, spell_tz(rng, off)))
        out.append(rng.choice(["2020-02-29", "2000-02-29", "1900-02-28", "2019-02-28", "2021-12-31", "0001-01-01", "9999-12-31", "2021-04-30"]))
    elif dt in ("xsd:gYear", "xsd:gYearMonth", "xsd:gMonthDay", "xsd:gMonth", "xsd:gDay"):
        for _ in range(n):
            y, mo = "%04d" % rng.randint(1, 9999), "%02d" % rng.randint(1, 12)
            d = "%02d" % rng.choice([1, 9, 10, 28, 28, 29, 30, 31])
            if dt == "xsd:gMonthDay" and int(d) > 28:
                d = "%02d" % min(int(d), {"02": 29, "04": 30, "06": 30, "09": 30, "11": 30}.get(mo, 31))
            out.append({"xsd:gYear": y, "xsd:gYearMonth": y + "-" + mo, "xsd:gMonthDay": "--%s-%s" % (mo, d), "xsd:gMonth": "--" + mo,
                        "xsd:gDay": "---" + d}[dt] + spell_tz(rng, rng.choice([None, None, offset(rng)])))
    elif dt == "xsd:hexBinary":
        b = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5])))
        for _ in range(n):
            x = bytes([(b[0] + 1) % 256]) + b[1:] if b and rng.random() < 0.3 else b
            h = x.hex()
            out.append("".join(rng.choice([c, c.upper()]) for c in h))
    elif dt == "xsd:base64Binary":
        import base64

        b = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 10])))
        for _ in range(n):
            x = bytes([(b[0] + 1) % 256]) + b[1:] if b and rng.random() < 0.3 else b
            s = base64.b64encode(x).decode()
            if rng.random() < 0.3 and s:
                s = " ".join(s) if rng.random() < 0.5 else s[:2] + " " + s[2:]
            out.append(s)
    elif dt == "xsd:language":
        out = [lang(rng) for _ in range(n)]
    elif dt in ("xsd:Name", "xsd:NCName", "xsd:NMTOKEN"):
        f = {"xsd:Name": LOW + "_:", "xsd:NCName": LOW + "_", "xsd:NMTOKEN": LOW + "_:.-09"}[dt]
        r = LOW + "_.-09" + ("" if dt == "xsd:NCName" else ":")
        out = [word(rng, f, r) for _ in range(n)]
    elif dt == "rdf:PlainLiteral":
        out = [word(rng, LOW + "@ \n", LOW + "@ ") + "@" + rng.choice(["", lang(rng)]) for _ in range(n)]
        if out and "@" in out[0] and rng.random() < 0.3:
            t, _, l = out[0].rpartition("@")
            out.append(t + "@" + l.upper())
    elif dt == "rdf:XMLLiteral":
        out = [rng.choice(["<a/>", "<a>b</a>", "<a><b c='d'/></a>", "<a>&amp;</a>", "<x:a xmlns:x='u'/>", "<a>\n</a>", " <a/>", "t<a/>"]) for _ in range(n)]
    elif dt == "rdf:HTML":
        out = [rng.choice(["<b>x</b>", "", "a & b", "<br>"]) for _ in range(n)]
    elif dt == "xsd:anyURI":
        out = [rng.choice(["http://ex.org/a?b=c#d", "a/b", "", "urn:x:y", "#f", "../a", "mailto:a", "http://ex.org:80/"]) for _ in range(n)]
    else:
        out = [rng.choice(["", "a", "a b", "x  y", " a", "a\tb", "a\nb", "\u00e9", "1", "a\r"]) for _ in range(n)]
    return out


def mutate(rng, s, other):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        p = rng.randint(0, len(s))
        if r < 0.35:
            s = s[:p] + rng.choice(HOSTILE) + s[p:]
        elif r < 0.55 and s:
            s = s[:p] + s[p + 1:]
        elif r < 0.75 and s:
            p = rng.randrange(len(s))
            s = s[:p] + rng.choice(HOSTILE) + s[p + 1:]
        elif r < 0.82 and s:
            p = rng.randrange(len(s))
            c = s[p]
            s = s[:p] + (chr(ord(c) + rng.choice([-1, 1])) if 33 < ord(c) < 126 else c) + s[p + 1:]
        elif r < 0.87:
            s = rng.choice([" " + s, s + " ", s + "\n", "\n" + s, "\t" + s, s + "\x00"])
        elif r < 0.92:
            s = s + rng.choice([s, other, "Z", "+01:00", "-14:30", "+1:00", ".5", "="])
        elif r < 0.96:
            s = s.swapcase()
        else:
            q = rng.randint(0, len(s))
            a, b = min(p, q), max(p, q)
            s = s[:a] + s[b:]
    return s


SPECIAL = {
    "xsd:dateTime": ["2020-02-30T00:00:00", "2021-02-29T00:00:00Z", "1900-02-29T00:00:00", "2020-01-01T24:00:01", "2020-01-01T23:60:00", "2020-01-01T23:59:60",
                     "2020-01-01T00:00:00+14:01", "2020-01-01T00:00:00+15:00", "2020-01-01T00:00:00-14:00", "2020-01-01T00:00:00.", "2020-01-01 00:00:00",
                     "20200101T000000", "2020-01-01T00:00", "2020-01-01t00:00:00", "2020-01-01T00:00:00z", "2020-01-01T00:00:00+0100", "2020-01-01T00:00:00,5",
                     "2020-1-01T00:00:00", "2020-W01-1T00:00:00", "2020-01-01T00:00:00+01:60", "2020-00-01T00:00:00", "2020-01-00T00:00:00", "2020-04-31T00:00:00"],
    "xsd:time": ["24:00:01", "23:60:00", "23:59:60", "1:00:00", "10:00", "10:00:00.", "10:00:00+14:01", "10:00:00-14:00", "100000", "T10:00:00", "10:00:00.5Z",
                 "10:00:00z", "10:00:00+0100", "10:00:00 Z", "10:0:00"],
    "xsd:date": ["2021-02-29", "1900-02-29", "2000-02-29", "2020-04-31", "2020-13-01", "2020-00-10", "2020-1-1", "20200101", "2020-01-01T00:00:00", "2020-01-01Z",
                 "2020-01-01+14:00", "2020-01-01+14:01", "2020-W01-1", "2020-001", ""],
    "xsd:double": ["", ".", "e5", "1e", "1e+", "1e5.0", "+NaN", "-NaN", "inf", "Infinity", "nan", "+INF", "--INF", "1_0", "0x1p3", "1d", "1.e5", ".5e1", "+.5E-1", "1 e5", "\u0661"],
    "xsd:decimal": ["", ".", "+", "-", "+.", "1e0", "INF", "NaN", "1,0", "1_0", "\u0661", "1.0.0", "sNaN", "Infinity", "0x1"],
    "xsd:boolean": ["TRUE", "True", "FALSE", "False", "t", "f", "yes", "no", "", " true", "00", "01", "2", "-1", "+1", "1.0", "true\n"],
    "xsd:gMonthDay": ["--02-29", "--02-30", "--04-31", "--13-01", "--00-01", "--01-00", "--01-32", "-01-01", "--1-1", "--01-01Z", "01-01"],
    "xsd:gMonth": ["--00", "--13", "--1", "-01", "--01--", "--12Z", "01"],
    "xsd:gDay": ["---00", "---32", "---1", "--01", "---31-05:00", "31"],
    "xsd:gYear": ["20", "202", "2020Z", "2020+14:01", "y2020", "2020-", "+2020", "20200"],
    "xsd:gYearMonth": ["2020-13", "2020-00", "2020-1", "202-01", "2020-12Z", "2020", "2020-12-01"],
    "xsd:hexBinary": ["0", "0g", "0x0a", " 0a", "0a ", "0 a", "abc", "\uff10\uff11", "0a\n"],
    "xsd:base64Binary": ["=", "==", "A", "AA", "AAA", "AA=", "AB==", "AAB=", "A===", "AAAA=", "AAAA====", "AA==AA==", " AAAA", "AAAA ", "AA  AA", "AA\nAA", "A-_A", "AA= =", "A A==", "AA ==", "AA == "],
    "rdf:PlainLiteral": ["", "@", "a", "a@", "@en", "a@1", "a@en-", "a@-en", "a@en@fr", "a@en@", "a@abcdefghi", "a@en fr", "a@en_US", "a\n@en", "a@en\n"],
    "xsd:language": ["", "e", "en-", "-en", "en--fr", "abcdefghi", "en-abcdefghi", "en_US", "1n", "en-1", "en\n", "en fr", "\u00e9n", "i-klingon", "\u212aa"],
    "rdf:XMLLiteral": ["", "a", "<a>", "</a>", "<a></b>", "<a/><b/>", "<a>&nbsp;</a>", "<a", "<a b=c/>", "&lt;a/&gt;", "</rdflibtoplevelelement>", "<a/>]]>"],
}


def strings(rng, dt, n):
    out = []
    while len(out) < n:
        r = rng.random()
        if r < 0.35:
            out += family(rng, dt, 2)
        elif r < 0.75:
            other = rng.choice(DTS)
            s = rng.choice(family(rng, dt, 1) + SPECIAL.get(dt, [])[:0])
            out.append(mutate(rng, s, rng.choice(mixed.VALID.get(other, ["x"]))))
        elif r < 0.85 and dt in SPECIAL:
            out.append(rng.choice(SPECIAL[dt]))
        elif r < 0.92:
            out += family(rng, rng.choice(DTS), 1)
        elif dt in INT_RANGE:
            lo, hi = INT_RANGE[dt]
            b = rng.choice([x for x in (lo, hi, 0) if x is not None])
            out.append(spell_int(rng, b + rng.choice([-2, -1, 0, 1, 2])))
        else:
            out.append("".join(rng.choice("01-+.:eTZ aF=/") for _ in range(rng.randint(0, 6))))
    return out[:n]
