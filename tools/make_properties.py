#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/make_properties.py)."""
import json, os

def P(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    }

OWL = "owlrl/OWLRL.py"; CORE = "owlrl/Closure.py"; INIT = "owlrl/__init__.py"
DTH = "owlrl/DatatypeHandling.py"; XSDT = "owlrl/XsdDatatypes.py"; AX = "owlrl/AxiomaticTriples.py"
RDFS = "owlrl/RDFSClosure.py"; COMB = "owlrl/CombinedClosure.py"; EXT = "owlrl/OWLRLExtras.py"
RES = "owlrl/RestrictedDatatype.py"; CLI = "scripts/owlrl"; CGI = "scripts/RDFConvertService"

ps = [
P("C01", "OWL 2 RL equality: sameAs is exactly an equivalence with substitution",
  "For every RDF graph, in its OWL 2 RL closure owl:sameAs is reflexive on every term used, symmetric and transitive, and whatever is said of one term is said of every term it is the same as, in subject, predicate and object position (rules eq-ref, eq-sym, eq-trans, eq-rep-s/p/o). Nothing else is added: two terms are sameAs only if the rules entail it, and no other triple appears on a graph of plain assertions and equalities.",
  ["inputs"], "all RDF graphs of assertions and sameAs statements (IRIs, blank nodes, literals; any equality chain, cycle or cluster size; equality of predicates, classes and vocabulary terms)",
  "The suite has one equality test (sameAs together with differentFrom); no test looks at reflexivity, transitivity or substitution, let alone on arbitrary clusters.",
  [OWL, CORE], [("eq-* rules", OWL + ":_equality"), ("cycle until no new triple", CORE + ":closure"), ("buffering of conclusions", CORE + ":store_triple")],
  ["the graph after DeductiveClosure(OWLRL_Semantics).expand"]),
P("C02", "OWL 2 RL property axioms: exactly the entailed triples",
  "For every graph of assertions and property axioms (domain, range, functional, inverse-functional, symmetric, transitive, sub-, equivalent and inverse properties, property chains of any length, keys with any number of properties), the OWL 2 RL closure adds exactly the triples entailed by the prp-* rules together with the other OWL 2 RL rules: none missing, none extra. Axioms that are themselves only inferred count like asserted ones.",
  ["inputs"], "all graphs built from assertions and prp-* axioms, including chains, keys of any arity, branching, and long inference cascades",
  "Only hasParent-style transitivity/chain counts on one fixed file are tested; keys, inverse-functional, equivalent and disjoint properties and chain lengths are untested.",
  [OWL], [("prp-* rules", OWL + ":_properties"), ("prp-spo2", OWL + ":_property_chain")],
  ["the graph after DeductiveClosure(OWLRL_Semantics).expand"]),
P("C03", "OWL 2 RL class expressions: exactly the entailed memberships",
  "For every graph using intersectionOf, unionOf, oneOf, someValuesFrom, allValuesFrom, hasValue, maxCardinality and maxQualifiedCardinality over well-formed lists of any length and over IRI, blank-node or literal values, the OWL 2 RL closure adds exactly the class memberships, property values and equalities entailed by the cls-* rules together with the other OWL 2 RL rules. What is not (or not yet) a complete list is no list: it entails nothing.",
  ["inputs"], "all graphs of assertions and class expressions, nested to any depth, with lists of any length",
  "The tests check seven single-instance conclusions (avf, maxc, maxqc); unions, intersections, oneOf, someValuesFrom, hasValue and nesting are untested and soundness is never checked.",
  [OWL], [("cls-* rules", OWL + ":_classes"), ("list reading", OWL + ":_list")],
  ["the graph after DeductiveClosure(OWLRL_Semantics).expand"]),
P("C04", "OWL 2 RL class axioms and schema: exactly the entailed hierarchy",
  "For every graph of class and property hierarchies (subclass, equivalence, subproperty, domains, ranges, restrictions, intersections, unions, declarations), the OWL 2 RL closure adds exactly what the cax-* and scm-* rules entail together with the other OWL 2 RL rules, however deep or cyclic the hierarchy. A declared rdf:Property counts as a declared property.",
  ["inputs"], "all schema graphs: deep and cyclic hierarchies, restrictions compared along class and property hierarchies, lists of any length",
  "One fixed ontology is expanded in the tests and only two counts are compared; scm-* rules are not tested at all.",
  [OWL], [("cax-* rules", OWL + ":_class_axioms"), ("scm-* rules", OWL + ":_schema_vocabulary")],
  ["the graph after DeductiveClosure(OWLRL_Semantics).expand"]),
P("C05", "Inconsistencies are reported, and only inconsistencies are",
  "For every graph, the expanded graph contains an agent-ont#ErrorMessage node with an error text for every way an OWL 2 RL 'false' rule (eq-diff1-3, prp-irp, prp-asyp, prp-pdw, prp-adp, prp-npa1-2, cls-nothing2, cls-com, cls-maxc1, cls-maxqc1-2, cax-dw, cax-adc, dt-not-type) fires on the closure, and that text names the resources that clash. A graph on which none of these rules fires gets no ErrorMessage node.",
  ["inputs"], "all graphs, consistent or not; conflicts asserted or reached only after inference; disjointness lists of any length and any pair in them",
  "Five single-conflict graphs are tested; no test covers lists, negative assertions, complement, property disjointness, derived conflicts or the absence of false alarms.",
  [OWL, CORE], [("false rules", OWL + ":_equality/_properties/_classes/_class_axioms/_one_time_rules_datatypes"), ("error collection", CORE + ":add_error, closure")],
  ["ErrorMessage nodes of the expanded graph"], [("error_messages", "messages collected while chaining", CORE)]),
P("C06", "Datatype typing, subsumption and disjointness follow XSD",
  "For every graph, the OWL 2 RL closure types each literal with its (supported) datatype and every datatype that contains it in the XSD hierarchy, does the same for resources asserted to belong to a datatype or asserted sameAs such a literal, declares the supported datatypes, and states disjointness between the disjoint top-level datatypes in use. It never types a literal or resource with a datatype outside that hierarchy, and never states disjointness of datatypes whose value spaces overlap.",
  ["inputs"], "all combinations of datatypes, lexical forms, and explicit typings",
  "Tests check one typed literal and the declarations on the empty graph; no test covers the hierarchy or the disjointness statements.",
  [OWL, XSDT, AX], [("dt-type1/2, subsumption", OWL + ":_one_time_rules_datatypes"), ("hierarchy", XSDT + ":OWL_Datatype_Subsumptions"), ("disjointness", AX + ":OWLRL_Datatypes_Disjointness")],
  ["the graph after DeductiveClosure(OWLRL_Semantics).expand"]),
P("C07", "RDFS closure is exactly the RDFS entailment rules' closure",
  "For every graph, the RDFS closure contains exactly the input plus what the rules rdf1, rdfs2-rdfs13 entail, and, where two well-typed literals of the graph denote the same value (same kind of value, same language), each triple having one of them as object also with the other; literals with different values, kinds of value or languages are never exchanged.",
  ["inputs"], "all RDF graphs, with any literals, hierarchies of any depth, containers, predicates used as subjects",
  "Two tests: one literal pair and one datatype axiom; none of the rdfs* rules is tested, and no test checks that nothing else is added.",
  [RDFS, CORE], [("rdfs rules", RDFS + ":rules"), ("same-value literals", RDFS + ":one_time_rules, _literals_same_as")],
  ["the graph after DeductiveClosure(RDFS_Semantics).expand"]),
P("C08", "Axiomatic triples are added when asked for, and only then",
  "With axiomatic_triples the closure additionally contains the RDF/RDFS (and for OWL closures the OWL 2 RL) axiomatic triples, including, for RDFS, those of exactly the container membership properties rdf:_n used as predicates in the graph; with datatype_axioms it additionally contains the datatype declarations and XSD hierarchy (and, for RDFS, the type of each typed literal). The result is exactly the closure of the graph together with those axioms; without the options none of them is added unless entailed.",
  ["inputs", "configurations"], "all graphs and all four option combinations for every closure class",
  "Only datatype_axioms for RDFS is exercised, on one graph; axiomatic_triples and rdf:_n handling have no test.",
  [AX, CORE, RDFS, OWL, COMB], [("axiom tables", AX), ("add_axioms/add_d_axioms", RDFS + ", " + OWL + ", " + COMB), ("rdf:_n detection", CORE + ":__init__")],
  ["difference between expansions with and without the options"], [("IMaxNum", "highest rdf:_n in use", CORE)]),
P("C09", "Closure laws: extensive, idempotent, monotone",
  "For every closure type and option set, expansion keeps every input triple that is standard RDF, expanding an already expanded graph adds nothing (apart from error reports, and given that the restricted datatypes are those the graph itself declares), and enlarging the input never loses a conclusion.",
  ["inputs", "configurations"], "all graphs G and supersets of G, all closure classes except trimming, all option sets",
  "No test expands a graph twice or compares two related graphs.",
  [CORE, OWL, RDFS, COMB, EXT], [("loop until no triple is new", CORE + ":closure"), ("rules applied in cycles", OWL + ":rules, " + RDFS + ":rules")],
  ["graphs before and after one and two expansions"]),
P("C10", "The closure does not depend on presentation",
  "The closure of a graph (and whether errors are reported) is the same whatever the order in which triples are inserted or enumerated by the store, the hash seed of the process, or the way data is spread over the graphs of a dataset, and renaming blank nodes or user IRIs one-to-one renames the result accordingly.",
  ["inputs", "schedules"], "all graphs, insertion orders, store enumeration orders, hash seeds, renamings",
  "Tests use one insertion order, one process and one store; the scripts fix PYTHONHASHSEED.",
  [CORE, OWL], [("conclusions are buffered per cycle", CORE + ":closure"), ("cycles until fixpoint", CORE + ":closure")],
  ["pairs of expansions of equivalent presentations"]),
P("C11", "Expansion preserves the data and writes only to its destination",
  "When a dataset is expanded into a destination graph, every added triple goes to that destination, no other graph of the dataset gains a triple or loses a standard RDF triple, and source plus destination together hold exactly what in-place expansion of the merged data gives; without a destination a plain graph is extended in place and a dataset in its default graph. Unusable destinations are refused before anything is changed.",
  ["inputs", "configurations"], "all datasets, distributions of data over named graphs, destination kinds (graph, IRI, string, default, pre-filled), closure classes and options",
  "Two tests use one file in the default graph and compare a few counts.",
  [CORE, INIT], [("destination selection", CORE + ":__init__"), ("writes through destination", CORE + ":closure, flush_stored_triples")],
  ["add/remove events of an instrumented rdflib store, per context"], [("destination", "graph receiving conclusions", CORE)]),
P("C12", "Expansions are independent of each other and leave global state alone",
  "The result of an expansion depends only on its graph and options, never on expansions done before in the same process; and after an expansion, successful or failed, RDFLib's literal conversions and the package's datatype registries are what they were before. use_improved_datatypes_conversions switches the improved conversions on for good and use_rdflib_datatypes_conversions restores RDFLib's originals.",
  ["histories", "fault_sequences"], "all sequences of expansions (any closure classes, graphs, options, failures in between), conversion switches and literal constructions",
  "Every test builds a fresh graph and never looks at process-wide state; test order hides leaks.",
  [INIT, DTH, EXT, COMB], [("switching conversions around expand", INIT + ":expand"), ("conversion tables", DTH + ":use_Alt_lexical_conversions, use_RDFLib_lexical_conversions"), ("datatype registration", COMB + ":add_new_datatype")],
  ["results compared with a fresh process; rdflib's conversion table and literal behaviour before/after"], [("_toPythonMapping", "rdflib's process-wide conversion table", DTH), ("OWL_RL_Datatypes, OWL_Datatype_Subsumptions", "process-wide datatype registries", XSDT)]),
P("C13", "The combined closure is exactly RDFS plus OWL 2 RL plus their bindings",
  "For every graph, the combined RDFS/OWL 2 RL closure is exactly the joint closure of the input under the OWL 2 RL and RDFS rules and the three triples binding Thing/Resource, rdfs:Class/owl:Class and DataRange/Datatype; return_closure_class picks the closure class for each combination of choices as documented, and the closure classes form the documented inclusion chain (OWL 2 RL within combined within extension with RDFS).",
  ["inputs", "configurations"], "all graphs; all option combinations",
  "No test uses the combined closure or return_closure_class.",
  [COMB, INIT], [("both rule sets per triple", COMB + ":rules"), ("binding triples", COMB + ":full_binding_triples, one_time_rules"), ("class selection", INIT + ":return_closure_class")],
  ["the graph after DeductiveClosure(RDFS_OWLRL_Semantics).expand; value of return_closure_class"]),
P("C14", "Extension closure: self restrictions and rationals, nothing else",
  "For every graph, the extension closure adds to the combined closure (RDFS rules only if requested) exactly what self restrictions entail in both directions and the owl:rational datatype (every xsd:decimal and its subtypes are rationals; n/d forms with a positive denominator and integers alone are valid), and nothing more when the graph defines no restricted datatype.",
  ["inputs", "configurations"], "all graphs with owl:hasSelf restrictions, rational and decimal literals; RDFS on or off",
  "The single extension test covers one faceted datatype; hasSelf and rationals are untested.",
  [EXT], [("hasSelf rules", EXT + ":rules"), ("rational datatype", EXT + ":_strToRational, __init__")],
  ["the graph after DeductiveClosure(OWLRL_Extension).expand"]),
P("C15", "Datatype restrictions classify literals exactly by their facets",
  "For every datatype restriction in a graph (any facetable base datatype, any combination of bounds, length, pattern and language facets), the extension closure types a literal of the base datatype with the restricted datatype if and only if its value satisfies every facet, so that someValuesFrom restrictions apply; an allValuesFrom restriction to such a datatype whose value violates the facets is reported as an error instead of being typed.",
  ["inputs"], "all base datatypes, facet combinations and literal values, including boundary values",
  "One test: one integer range and one literal inside it; no literal outside any range and no other facet is tested.",
  [RES, EXT], [("facet extraction", RES + ":extract_faceted_datatypes"), ("facet checks", RES + ":RestrictedDatatype"), ("classification", EXT + ":_subsume_restricted_datatypes, restriction_typing_check")],
  ["types of literals and error nodes after DeductiveClosure(OWLRL_Extension).expand"]),
P("C16", "Trimming removes exactly the documented triples",
  "For every graph and option set, the trimming closure equals the extension closure minus exactly the documented by-product triples (reflexive sameAs/subClassOf/subPropertyOf/equivalentClass, memberships and superclasses Thing/Resource, Nothing as a subclass, declarations and disjointness of datatypes that are not the type of anything, annotation-property axioms, the listed axioms on Thing, Nothing, Class, Datatype); no other triple is lost or gained.",
  ["inputs", "configurations"], "all graphs and option combinations, with and without a destination",
  "Trimming has no test at all.",
  [EXT], [("trimming", EXT + ":OWLRL_Extension_Trimming.post_process")],
  ["difference between extension and trimming expansions of the same graph"]),
P("C17", "Literals are flagged as ill-typed exactly when their lexical form is invalid",
  "For every supported datatype and every string, the improved conversion accepts the string if it is in that datatype's lexical space (values Python can represent) and otherwise raises ValueError and no other exception; accordingly an OWL 2 RL expansion reports a literal as not matching its datatype if and only if its lexical form is invalid.",
  ["inputs"], "all datatypes and all strings: boundaries, signs, exponents, special values, time zones, fractions, empty and malformed strings",
  "One test: \"-1\"^^xsd:nonNegativeInteger.",
  [DTH, OWL], [("conversion functions", DTH + ":AltXSDToPYTHON"), ("dt-not-type", OWL + ":_one_time_rules_datatypes")],
  ["AltXSDToPYTHON[datatype](string); error nodes of an expansion"]),
P("C18", "Improved conversions give the value the datatype defines",
  "For every valid lexical form the improved conversion yields the denoted value: two forms of a datatype convert to equal values if and only if they denote the same value, ordered values compare in value order, date-times denote the right instant (time zone offset and fractional seconds included) and binary forms the right bytes.",
  ["inputs"], "all valid lexical forms of all datatypes and all pairs of them",
  "No test looks at a converted value.",
  [DTH, EXT], [("conversion functions", DTH + ":AltXSDToPYTHON"), ("rational conversion", EXT + ":_strToRational")],
  ["values returned by AltXSDToPYTHON and by Literal.value when the improved conversions are on"]),
P("C19", "Expansion is total: every RDF graph expands without exception, and stops",
  "For every RDF graph, however malformed its use of the RDF, RDFS and OWL vocabulary (lists that are cyclic, open or have several heads, wrong kinds of arguments, ill-typed literals, vocabulary terms redefined), every closure class with every option set terminates without raising, adding new triples in every cycle but the last.",
  ["inputs", "configurations"], "all RDF graphs including hostile ones; all closure classes and options",
  "All test graphs are well formed and small.",
  [CORE, OWL, RDFS, EXT, RES, DTH], [("finite term set, loop until no new triple", CORE + ":closure"), ("exception guards", OWL + ", " + EXT + ", " + RES)],
  ["exceptions; store events per cycle of an instrumented store"]),
P("C20", "convert_graph serializes exactly the requested closure",
  "For all sources, texts, formats and options, the output of convert_graph is in the requested syntax and parses back to exactly the standard-RDF triples of the requested closure of the merged sources (each source counted once, input syntax chosen by option or suffix); with no closure requested it is the input graph itself. A request without any input is refused.",
  ["inputs", "configurations"], "all graphs; all combinations of input and output syntax, sources, text and closure options given as booleans or yes/no strings",
  "convert_graph has no test.",
  [INIT], [("option handling", INIT + ":convert_graph"), ("input syntax", INIT + ":__parse_input"), ("closure choice", INIT + ":return_closure_class")],
  ["the returned text, parsed back"]),
P("C21", "owl:imports: every reachable ontology is merged once, and it stops",
  "interpret_owl_imports replaces all owl:imports statements by the contents of everything reachable through them, directly or transitively, for every import graph including cycles, diamonds and self-imports, and terminates; apart from the import statements nothing is removed, and no import statement remains. A document that cannot be read is an error. convert_graph does this exactly when the OWL closure is requested.",
  ["inputs", "configurations"], "all import graphs over documents in any supported syntax, imports given as IRIs or strings",
  "owl:imports has no test.",
  [INIT], [("import loop", INIT + ":interpret_owl_imports")],
  ["the graph after interpret_owl_imports; how often each document is read"]),
P("C22", "Command line and CGI front ends honour their options",
  "For every combination of flags, files and standard input, the owlrl script prints exactly the closure the flags ask for, in the requested syntax; the CGI service answers a valid request with the right content type and closure, and any invalid request with an HTML error page carrying status 400 in which user-supplied text is escaped.",
  ["inputs", "configurations"], "all flag and form-field combinations, valid and malformed input, hostile text",
  "No test runs either script.",
  [CLI, CGI, INIT], [("flag parsing", CLI + ":main"), ("form parsing and error page", CGI)],
  ["standard output and exit status of the scripts run as processes"]),
P("C23", "The engine computes the least fixpoint of any user-defined rule set",
  "For every closure class written against the documented extension interface, expansion calls the hooks in the documented order, offers every triple of the current graph to the rules in every cycle numbered from 1, makes conclusions visible only after the cycle that stored them, stops exactly when a cycle stores nothing new, and so yields the least fixpoint of the rules over the input, axioms and one-time conclusions; added errors become ErrorMessage nodes, once each.",
  ["programs", "inputs"], "all user rule sets (finite rule programs over triples) and graphs, with and without destination, axioms and datatype axioms, including mixed-in and overridden hooks",
  "No test defines a closure class; the engine is only run through the built-in rule sets.",
  [CORE, INIT], [("closure loop", CORE + ":closure"), ("buffering", CORE + ":store_triple, flush_stored_triples"), ("hooks", CORE + ":pre_process, one_time_rules, post_process, add_axioms, add_d_axioms")],
  ["hook call log of generated closure classes; store events; final graph"], [("added_triples", "conclusions of the current cycle", CORE)]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in ps:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(ps))
