import os
import random
import subprocess
import sys
from html.parser import HTMLParser
from urllib.parse import quote_plus, urlencode

from rdflib import BNode, Graph, Literal, URIRef

from monitor.common import *
from monitor import convert as CV
from monitor.terms import *

RULE = ("scripts/owlrl and scripts/RDFConvertService are run as processes: all flags in short, long, =, grouped, repeated and contradictory forms, "
        "files and standard input; form fields by GET, POST urlencoded and POST multipart, repeated, blank and hostile ones; the output is "
        "parsed back and compared with the in-memory closure asked for; refusals have to have exit status / status 400 and an HTML page in "
        "which the user's text is escaped; non-trivial: something is inferred, or a refusal; distinct by request")
BUDGET = {"quick": 520, "thorough": 7500}
MIN = {"quick": {"cli": 150, "cgi": 150, "cgi refused": 40, "cli refused": 10, "stdin": 40, "hostile text": 30, "post": 50, "maximal": 10,
                 "full closure": 15, "repeated fields": 20, "output turtle": 60, "output xml": 40, "output json": 40}}
MIN["thorough"] = MIN["quick"]
SHRINK = []
ASSUME = ["rdflib's parsers and serializers (outputs rdflib itself cannot write or read back faithfully are not judged)",
          "the scripts run with a UTF-8 locale"]
KEYS = {"owl": ("--owlrl", "-w"), "rdfs": ("--rdfs", "-r"), "extras": ("--extras", "-e"), "axioms": ("--axioms", "-a"), "daxioms": ("--daxioms", "-d"),
        "trimming": ("--trimming", "-t")}
FIELDS = {"owl": "owlClosure", "rdfs": "rdfsClosure", "extras": "owlExtras", "axioms": "axioms", "daxioms": "daxioms"}
HOSTILE = ["<script>alert(1)</script>", "\"><img src=x onerror=alert(1)>", "</pre><b>bold</b>", "a & b <i>", "'<svg/onload=1>'", "]]><p>", "<!-- ", "</html><a href='x'>",
           "é <u>ü</u>", "%3Cscript%3E<s>", "&lt;b&gt;<b>"]
TAGS = {"html", "head", "title", "body", "h1", "pre", "dl", "dt", "dd", "br"}


def gen(rng, i, tier):
    f = CV.flags(rng)
    if f["axioms"] and f["daxioms"]:
        f["daxioms"] = rng.random() < 0.3
    kind = CV.kind_of(f) or "owl"
    case = {"salt": rng.randrange(10**9), "flags": f, "script": rng.choice(["cli", "cgi"])}

    def doc(k, syn, size):
        return {"triples": enc_graph(CV.document(rng, kind, size=size, label="d%d" % k)), "syntax": syn}

    if case["script"] == "cli":
        iformat = rng.choice([None, None, None, "auto", "turtle", "xml", "json"])
        n = rng.choice([0, 1, 1, 1, 2, 3])
        docs = []
        for k in range(n):
            syn = iformat if iformat in ("turtle", "xml", "json") else rng.choice(["turtle", "xml", "json"])
            x = doc(k, syn, 0.3 / n)
            x["name"] = rng.choice(["d%d", "d %d", "sub/d%d", "dé%d", "-d%d" if k and rng.random() < 0.2 else "d%d"]) % k + (
                rng.choice([".dat", ""]) if iformat in ("turtle", "xml", "json") else rng.choice(CV.SUFFIX[syn]))
            x["by"] = rng.choice(["arg", "arg", "abs", "twice"])
            docs.append(x)
        stdin = None
        if n == 0 or rng.random() < 0.15:
            stdin = doc(9, iformat if iformat in ("turtle", "xml", "json") else "turtle", 0.3)
            stdin["by"] = rng.choice(["none", "-", "-f"]) if n == 0 else rng.choice(["-", "-f"])
        dashf = rng.random() < 0.3 and n > 0 and (stdin is None or stdin["by"] != "-f")
        args = []
        for key, (long, short) in KEYS.items():
            if rng.random() < 0.2:  # overridden
                args.append(["set", key, rng.random() < 0.5, rng.choice("lse")])
        rng.shuffle(args)
        last = []
        for key in KEYS:
            if f[key] or rng.random() < 0.3 or any(a[1] == key for a in args):
                last.append(["set", key, f[key], rng.choice("lsseg")])
        rng.shuffle(last)
        args += last
        if rng.random() < 0.12:
            args.insert(rng.randrange(len(args) + 1), ["max", rng.choice(["-m", "--maximal"])])
        fmt = rng.choice([None, "turtle", "xml", "json", "xml", "json"])
        if fmt:
            args.insert(rng.randrange(len(args) + 1), ["opt", rng.choice(["-o", "-s", "--serialization", "--syntax"]), fmt])
        if iformat:
            args.insert(rng.randrange(len(args) + 1), ["opt", rng.choice(["-i", "--input_syntax"]), iformat])
        bad = rng.choice(["value", "missing", "malformed", "format", "flag"]) if rng.random() < 0.1 else None
        case.update(docs=docs, stdin=stdin, dashf=dashf, args=args, format=fmt, bad=bad)
    else:
        n = rng.choice([0, 0, 1, 1, 2, 3])
        iformat = rng.choice([None, None, "xml", "turtle", "auto", "pdf"])
        docs = []
        for k, field in enumerate(rng.sample(["source_1", "source_2", "uri", "source"], n)):
            syn = iformat if iformat in ("xml", "turtle") else rng.choice(["turtle", "xml", "json"])
            x = doc(k, syn, 0.3 / n)
            x.update(name="d%d%s" % (k, ".dat" if iformat in ("turtle", "xml") else rng.choice(CV.SUFFIX[syn])), field=field, url=rng.random() < 0.7)
            docs.append(x)
        text = doc(7, "turtle", 0.3) if n == 0 or rng.random() < 0.3 else None
        full = rng.choice(["yes", "yes", "no", ""]) if rng.random() < 0.2 else None
        fmt = rng.choice([None, "turtle", "xml", "rdfxml", "json", "html", "xml", "json", "rdfxml"])
        bad, hostile = None, None
        if rng.random() < 0.4:
            bad = rng.choice(["nothing", "missing", "malformed", "malformed", "malformed source"])
            if rng.random() < 0.8:
                hostile = rng.choice(HOSTILE)
        case.update(docs=docs, text=text, full=full, format=fmt, iformat=iformat, bad=bad, hostile=hostile,
                    method=rng.choice(["GET", "GET", "POST", "multipart"]), repeat=rng.random() < 0.15, blank=rng.random() < 0.15,
                    odd=rng.choice(list(FIELDS)) if rng.random() < 0.1 else None)
    return case


def run(cmd, st, cwd, env=None, data=b"", seed=0):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": "/repo", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(seed),
         "LC_ALL": "C.UTF-8", "HOME": cwd, "TMPDIR": cwd, "PYTHONUTF8": "1"}
    e.update(env or {})
    st.count("processes")
    p = subprocess.run([sys.executable] + cmd, cwd=cwd, env=e, input=data, capture_output=True, timeout=300)
    return p.returncode, p.stdout, p.stderr.decode("utf-8", "replace")


def judge(case, st):
    with CV.Dir() as d:
        os.mkdir(os.path.join(d, "sub"))
        return (cli if case["script"] == "cli" else cgi)(case, st, d)


def expected(g, f, fmt, st):
    before = set(g)
    if len(before) > 100:
        raise Skip("too large")
    k = CV.kind_of(f)
    if k:
        model_of(sorted(before, key=repr), "extension" if k == "trimming" else k, f["rdfs"], f["axioms"], f["daxioms"], limit=1000)
    if f["owl"]:
        g.remove((None, CV.IMPORTS, None))
    want = CV.closure_of(g, f)
    st.count("kind %s" % k)
    return want, len(want) > len(CV.standard(before))


def cli(case, st, d):
    rng = random.Random(case["salt"])
    bad = case["bad"]
    g = Graph()
    cmd, tail = ["/repo/scripts/owlrl"], []
    order = []
    for x in case["docs"]:
        p = os.path.join(d, x["name"])
        CV.write(dec_graph(x["triples"]), x["syntax"], p, pretty=rng.random() < 0.5)
        g.parse(p, format=CV.FORMATS[x["syntax"]])
        name = p if x["by"] == "abs" else x["name"]
        if name.startswith("-"):
            name = "./" + name
        order += [name] * (2 if x["by"] == "twice" else 1)
    if case["dashf"]:
        cmd += rng.choice([["-f", order[0]], ["--file", order[0]], ["--file=" + order[0]]])
        if rng.random() < 0.7:
            order = order[1:]
    data = b""
    x = case["stdin"]
    if x is not None:
        text = CV.write(dec_graph(x["triples"]), x["syntax"], os.path.join(d, "stdin"))
        g.parse(data=text, format=CV.FORMATS[x["syntax"]])
        data = text.encode("utf-8")
        if x["by"] == "-f":
            cmd += ["-f", "-"]
        elif x["by"] == "-":
            order.append("-")
        st.count("stdin")
    f = {k: False for k in KEYS}
    maximal = False
    group = ""
    for a in case["args"]:
        if group and not (a[0] == "set" and a[2] and a[3] == "g"):
            cmd.append("-" + group)
            group = ""
        if a[0] == "set":
            _, key, val, how = a
            f[key] = val
            long, short = KEYS[key]
            if val and how == "g":
                group += short[1]
            elif val and how == "s":
                cmd.append(short)
            elif how == "e":
                cmd.append("%s=%s" % (long, "yes" if val else "no"))
            else:
                cmd += [long, "yes" if val else "no"]
        elif a[0] == "max":
            cmd.append(a[1])
            maximal = True
        elif a[1].startswith("--") and rng.random() < 0.5:
            cmd.append("%s=%s" % (a[1], a[2]))
        else:
            cmd += [a[1], a[2]]
    if group:
        cmd.append("-" + group)
    if maximal:
        f.update(owl=True, rdfs=True, extras=True, trimming=True)
        st.count("maximal")
    if bad == "value":
        cmd += [rng.choice(["--owlrl=maybe", "--rdfs=true", "--extras=1", "--axioms=Yes", "--daxioms=", "--trimming=y"])]
    elif bad == "format":
        cmd += rng.choice([["-o", "rdfxml"], ["-s", "nt"], ["--syntax=Turtle"], ["-i", "n3"], ["--input_syntax=ttl"]])
    elif bad == "flag":
        cmd += [rng.choice(["-q", "--owl2", "-1"])]
    elif bad == "missing":
        order.append("nowhere.ttl")
    elif bad == "malformed":
        open(os.path.join(d, "bad.ttl"), "w").write("<a> <b> ")
        order.append("bad.ttl")
    fmt = case["format"] or "turtle"
    want, inferred = expected(g, f, fmt, st)
    code, out, err = run(cmd + order, st, d, data=data, seed=case["salt"] % 1000)
    st.count("cli")
    if bad:
        st.count("cli refused")
        st.nontrivial((cmd[1:], bad, case["salt"]))
        if code == 0 or out.strip():
            return ["owlrl with %s exits with %s and prints %r" % (" ".join(cmd[1:] + order), code, out[:200])]
        return []
    if code != 0:
        if CV.round_trip(want, fmt) is None:
            raise Skip("not serializable by rdflib as " + fmt)
        return ["owlrl %s exits with %s: %s" % (" ".join(cmd[1:] + order), code, err[-300:])]
    if inferred:
        st.nontrivial((cmd[1:], case["docs"], case["stdin"]))
    st.count("output " + fmt)
    return CV.compare(want, out.decode("utf-8"), fmt, st, what="output of owlrl " + " ".join(cmd[1:]))


class Page(HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.tags, self.odd, self.text = [], [], ""
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        if tag not in TAGS or attrs:
            self.odd.append(self.get_starttag_text())

    handle_startendtag = handle_starttag

    def handle_endtag(self, tag):
        if tag not in TAGS:
            self.odd.append("</%s>" % tag)

    def handle_comment(self, data):
        self.odd.append("<!--" + data)

    def handle_decl(self, data):
        pass

    def unknown_decl(self, data):
        self.odd.append("<![" + data)

    def handle_data(self, data):
        self.text += data


def cgi(case, st, d):
    rng = random.Random(case["salt"])
    bad, hostile = case["bad"], case["hostile"]
    g = Graph()
    fields = []
    f = dict(case["flags"], trimming=False)
    if bad != "nothing":
        for x in case["docs"]:
            p = os.path.join(d, x["name"])
            CV.write(dec_graph(x["triples"]), x["syntax"], p, pretty=rng.random() < 0.5)
            g.parse(p, format=CV.FORMATS[x["syntax"]])
            fields.append((x["field"], "file://" + p if x["url"] else p))
        if case["text"] is not None:
            text = CV.write(dec_graph(case["text"]["triples"]), "turtle", os.path.join(d, "text"))
            g.parse(data=text, format="turtle")
            if text.strip():
                fields.append(("text", text))
        if not fields:
            raise Skip("empty request")
    used = {a for a, _ in fields}
    shown = []
    if bad == "missing":
        free = [x for x in ("source_1", "source_2", "uri", "source") if x not in used]
        if not free:
            raise Skip("no free field")
        name = os.path.join(d, "nowhere" + (hostile or ""))
        fields.append((rng.choice(free), name))
        shown.append(hostile)
    elif bad == "malformed":
        fields = [x for x in fields if x[0] != "text"] + [("text", "<a> <b> %s" % (hostile or "never"))]
        shown.append(hostile)
    elif bad == "malformed source":
        free = [x for x in ("source_1", "source_2", "uri", "source") if x not in used]
        if not free:
            raise Skip("no free field")
        p = os.path.join(d, "bad.ttl")
        open(p, "w", encoding="utf-8").write("@prefix : %s" % (hostile or "nothing"))
        fields.append((rng.choice(free), p))
    full = case["full"]
    if full is not None:
        fields.append(("fullClosure", full))
    for key, field in FIELDS.items():
        v = "yes" if f[key] else rng.choice([None, "no", ""])
        if bad and hostile and rng.random() < 0.5:
            v = hostile
            if full != "yes":
                shown.append(hostile)
        elif case["odd"] == key and not f[key]:
            v = "maybe"
        if v is not None:
            fields.append((field, v))
    if full == "yes":
        f.update(owl=True, rdfs=True, extras=False, axioms=False, daxioms=False)
        st.count("full closure")
    fmt = case["format"]
    if bad and hostile and rng.random() < 0.3:
        fmt = hostile
        shown.append(hostile)
    if fmt is not None:
        fields.append(("format", fmt))
    if case["iformat"] is not None:
        fields.append(("iformat", case["iformat"]))
    rng.shuffle(fields)
    if case["repeat"] and fields:
        st.count("repeated fields")
        for k, v in [x for x in fields if x[1]]:
            if rng.random() < 0.5:
                fields.append((k, rng.choice([v, "zzz", "no", "yes"])))
    if case["blank"]:
        names = {k for k, _ in fields}
        fields += [(k, "") for k in ("source_1", "uri", "text", "format", "iformat", "fullClosure", "unknown") if k not in names]
    method = case["method"]
    env = {"REQUEST_METHOD": "POST" if method != "GET" else "GET", "SCRIPT_NAME": "/cgi-bin/RDFConvertService", "SERVER_PROTOCOL": "HTTP/1.1",
           "GATEWAY_INTERFACE": "CGI/1.1"}
    data = b""
    if method == "GET":
        env["QUERY_STRING"] = urlencode(fields)
        if len(env["QUERY_STRING"]) > 60000:
            raise Skip("request too long")
    else:
        st.count("post")
        if method == "POST":
            data = urlencode(fields).encode()
            env["CONTENT_TYPE"] = "application/x-www-form-urlencoded"
        else:
            data = b"".join(b'--XyZ\r\nContent-Disposition: form-data; name="%s"\r\n\r\n%s\r\n' % (k.encode(), v.encode("utf-8")) for k, v in fields) + b"--XyZ--\r\n"
            env["CONTENT_TYPE"] = "multipart/form-data; boundary=XyZ"
        env["CONTENT_LENGTH"] = str(len(data))
    st.count("cgi")
    want = None
    if not bad:
        want, inferred = expected(g, f, fmt, st)
    code, out, err = run(["-W", "ignore", "/repo/scripts/RDFConvertService"], st, d, env=env, data=data, seed=case["salt"] % 1000)
    out = out.decode("utf-8", "replace")
    head, _, body = out.partition("\n\n")
    headers = {}
    for line in head.split("\n"):
        k, _, v = line.partition(":")
        headers[k.strip().lower()] = v.strip()
    what = "answer to %s" % [(k, v if len(v) < 30 else "..." + v[-25:]) for k, v in fields if v]
    res = []
    if set(headers) - {"content-type", "status"}:
        res.append("%s: unexpected headers %s" % (what, sorted(headers)))
    ctype = headers.get("content-type", "").replace(" ", "").lower()
    if bad:
        st.count("cgi refused")
        st.nontrivial(("refused", fields))
        if not headers.get("status", "").startswith("400"):
            return res + ["%s: status %r for an invalid request (%s)" % (what, headers.get("status"), bad)]
        if not ctype.startswith("text/html"):
            res.append("%s: content type %r of the error page" % (what, ctype))
        page = Page(body)
        if page.odd:
            res.append("%s: unescaped text of the user on the error page: %s" % (what, page.odd[:3]))
        if not {"html", "head", "title", "body", "h1"} <= set(page.tags) or "</html>" not in body:
            res.append("%s: the error page is not complete: %r" % (what, body[:300]))
        if hostile and any(shown):
            st.count("hostile text")
            if not hostile.split("\n")[0] in page.text:
                res.append("%s: the error page does not show the input" % what)
        return res
    key = {"xml": "xml", "rdfxml": "xml", "json": "json"}.get(fmt, "turtle")
    if "status" in headers and not headers["status"].startswith("200"):
        if CV.round_trip(want, key) is None:
            raise Skip("not serializable by rdflib as " + key)
        return res + ["%s: status %r for a valid request: %s" % (what, headers["status"], Page(body).text[:300])]
    mime = {"xml": "application/rdf+xml", "json": "application/ld+json", "turtle": "text/turtle"}[key]
    if ctype.split(";")[0] != mime:
        res.append("%s: content type %r instead of %s" % (what, headers.get("content-type"), mime))
    if "charset=" in ctype and "charset=utf-8" not in ctype:
        res.append("%s: content type %r, but the data is UTF-8" % (what, ctype))
    if inferred:
        st.nontrivial((fields, case["docs"]))
    st.count("output " + key)
    return res + CV.compare(want, body, key, st, what=what)


def sample(case):
    return {k: ([show(t) for t in dec_graph(v["triples"])] if isinstance(v, dict) and "triples" in v else v) for k, v in case.items() if k != "docs"}
