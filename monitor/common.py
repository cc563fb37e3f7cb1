"""Shared judging code: the closure of a graph against its model."""
from rdflib import Literal

from run import Skip

from . import gen
from .engine import LimitExceeded
from .model import Model
from .real import closure
from .terms import dec_graph, enc_graph, show

FACTS = 1100


def model_of(triples, kind, rdfs=False, axioms=False, daxioms=False, limit=FACTS, extra=()):
    # what the axioms add by themselves does not count as size
    if axioms:
        limit += 300 if kind == "rdfs" else 900 if kind == "owl" else 1500
    if daxioms:
        limit += 150
    try:
        exp = Model(kind, rdfs, axioms, daxioms).expected(triples, extra=extra, limit=limit)
    except LimitExceeded:
        raise Skip("closure too large")
    if kind != "rdfs" and gen.ill_formed_lists(exp.facts):
        raise Skip("ill-formed or merged lists")
    if kind != "rdfs" and gen.chain_paths(exp.facts) > 800:
        raise Skip("too many chain paths")
    return exp


def bare(s):
    return {(a, b, c) for a, b, c in s}


def diff(expected, got, given=(), exp=None, what="closure", optional=()):
    """Texts for missing and unexpected triples."""
    out = []
    missing, extra = expected - got, got - expected
    if optional:
        missing, extra = missing - set(optional), extra - set(optional)
    for t in sorted(missing, key=repr)[:6]:
        out.append("%s misses  %s   (rule %s)" % (what, show(t), exp.why(t) if exp else "?"))
    if len(missing) > 6:
        out.append("... %d missing in all" % len(missing))
    for t in sorted(extra, key=repr)[:6]:
        out.append("%s has unentailed  %s" % (what, show(t)))
    if len(extra) > 6:
        out.append("... %d unentailed in all" % len(extra))
    return out


def count_fired(st, exp, prefix=""):
    for r, n in exp.fired.items():
        if r != "input":
            st.count("fired " + prefix + r, n)


def judge_closure(triples, kind, st, opts=None, shuffle=None, clashes=False, key=True, limit=FACTS):
    opts = opts or {}
    exp = model_of(triples, kind, limit=limit, **opts)
    res = closure(triples, kind, shuffle=shuffle, **opts)
    st.count("expansions")
    st.count("cycles (full scans)", len(res.scans))
    st.peak("cycles (full scans)", len(res.scans))
    st.peak("closure size", len(res.triples))
    st.count("triples compared", len(exp.triples))
    count_fired(st, exp)
    out = diff(exp.triples, res.triples, exp=exp, what="%s closure" % kind)
    if clashes:
        out += judge_clashes(exp, res, st)
    elif bool(exp.clashes) != bool(res.messages):
        if exp.clashes:
            out.append("no error reported although %s %s" % (exp.clashes[0].group, [str(x) for x in exp.clashes[0].names]))
        else:
            out.append("error reported although nothing clashes: %s" % res.messages[0])
    return out, exp, res


def judge_clashes(exp, res, st):
    """Every clash has a message naming what clashes, every message a clash."""
    out = []
    F = exp.facts
    same = F.c("owl:sameAs")

    def alternatives(x):
        i = F.ids.get(x)
        if i is None:
            return {x}
        return {x} | {F.terms[j] for j in F.objects(i, same)}

    def mentions(c, text):
        for k, x in enumerate(c.names):
            names = alternatives(x) if k in c.listed else {x}
            if not any(str(n) in text for n in names):
                return False
        return True

    unexplained = set(range(len(res.messages)))
    byname = {}
    for c in exp.clashes:
        hit = [k for k, m in enumerate(res.messages) if mentions(c, m)]
        unexplained -= set(hit)
        st.count("clashes " + c.group)
        if not hit:
            out.append("no error report names the clash %s of %s; reports: %s" % (c.group, [str(x) for x in c.names], res.messages[:4]))
        if not c.listed:
            byname.setdefault(frozenset(c.names), {}).setdefault(c.group, set()).update(hit)
    for names, groups in byname.items():
        if len(groups) > 1:
            msgs = set().union(*groups.values())
            if len({res.messages[k] for k in msgs}) < len(groups):
                out.append("%d kinds of clash %s of %s but only %d reports" % (len(groups), sorted(groups), [str(x) for x in names], len(msgs)))
    for k in sorted(unexplained)[:3]:
        out.append("error report without a clash: %s" % res.messages[k])
    return out


def clash_pretty(exp):
    return [(c.group, [str(x) for x in c.names]) for c in exp.clashes]


def case_of(T, **kw):
    d = {"triples": enc_graph(T)}
    d.update(kw)
    return d


def sample(case):
    return {k: ([show(t) for t in dec_graph(v)] if k in ("triples", "more") else v) for k, v in case.items()}


def new_triples(exp, triples):
    return exp.triples - set(triples)


def literal_objects(T):
    return [o for _, _, o in T if isinstance(o, Literal)]
