#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run: python3 tools/make_manifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = ("online monitoring of real expansions (instrumented rdflib store, cycle and write log), judged by an independently written rule engine "
         "(semi-naive, from the specification's rule tables) as oracle; ")
TECH = {
    "C01": MODEL + "graphs of equalities generated backwards from rule conclusions",
    "C02": MODEL + "graphs of property axioms generated backwards from rule conclusions",
    "C03": MODEL + "graphs of class expressions generated backwards from rule conclusions",
    "C04": MODEL + "schema graphs generated backwards from rule conclusions",
    "C05": "monitor of error report nodes against the clashes found by an independent rule engine on the same graph",
    "C06": MODEL + "literals and explicit typings of all datatypes, XSD hierarchy written down independently",
    "C07": MODEL + "RDFS graphs; same-value literals decided by an independent implementation of XSD values",
    "C08": "differential monitor: expansions with and without the options against an independent engine started with the axiom tables of the specifications",
    "C09": "metamorphic monitor: first and second expansion, and expansion of sub- and supergraphs, compared",
    "C10": "metamorphic monitor: expansions under permuted insertion and store enumeration order, other hash seeds (processes), dataset layouts and renamings compared",
    "C11": "store event monitor: every add/remove with its context recorded while datasets are expanded, checked online; result against in-place expansion",
    "C12": "history monitor: random histories of expansions, failures and conversion switches in one process; registries compared before/after, results with a fresh process",
    "C13": MODEL + "combined rule set; table of return_closure_class",
    "C14": MODEL + "extension rules; Fractions as oracle of rationals",
    "C15": "monitor of literal types and error nodes after real expansions against an independent facet evaluator",
    "C16": "differential monitor: trimming against extension expansion of the same graph, difference classified by the documented list",
    "C17": "monitor of conversion outcomes and expansion error nodes against independently written lexical grammars, on grammar-based and mutated strings",
    "C18": "monitor of converted values against an independent implementation of XSD values, on pairs of generated lexical forms",
    "C19": "robustness monitor: hostile graphs; exceptions, per-cycle progress in the store log, list-cell read counts and loop counts watched online",
    "C20": "differential monitor: output of convert_graph, parsed back, against the in-memory closure of the merged documents",
    "C21": "monitor of document reads while import graphs are interpreted; result against the union of the reachable documents",
    "C22": "process-level monitor: scripts run as processes with generated flags, files, stdin and forms; output parsed back, error pages parsed as HTML",
    "C23": "trace monitor: generated closure classes log every hook call; the log is checked against the documented order and the result against an independent least fixpoint",
}
NOTE = {
    "*": "Bounded exploration by seeded random generation; says nothing about inputs not generated. Trusts rdflib (terms, in-memory stores) and the oracle in monitor/ (written from the specifications, not from the code).",
    "C10": "Bounded exploration; presentations compared pairwise, no oracle of what the closure should be. Trusts rdflib's stores.",
    "C20": "Bounded exploration; the in-memory closure is taken from the code itself (decided by C01-C16). Outputs that rdflib's own serializers or parsers cannot round-trip are not judged.",
    "C21": "Bounded exploration over local files only (no network). Trusts rdflib's parsers.",
    "C22": "Bounded exploration; as C20. The CGI script runs without a web server, with a UTF-8 locale.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": "./run.py " + i, "thorough_cmd": "./run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
           "technique": "runtime monitoring: " + TECH[i], "level": "exploration", "level_note": NOTE.get(i, NOTE["*"])} for i in ids]
json.dump({"version": 1, "setup_cmd": "./run.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything is observed from outside (store, conversion tables, outputs, subclass hooks). run.py <ID> --replay FILE replays a violation."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
