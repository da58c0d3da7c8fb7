prop("C01", "RDFS closure: every RDFS entailment rule, and nothing else",
     "The RDFS closure of any graph contains every triple that the RDFS entailment rules (rdfs1-13, rdf1, container membership) derive from it, whichever "
     "cycle makes the premises available. Every triple it adds follows from these rules; consequences that merely restate a reflexive "
     "subClassOf/subPropertyOf may be left out.",
     ["inputs"], "all graphs; all instantiations of each rule; all cycles", WHY_RULES, ["owlrl/RDFSClosure.py", "owlrl/Closure.py"],
     [("RDFS_Semantics.rules", "owlrl/RDFSClosure.py: the per-triple rules"), ("rdf1/rdfs4", "owlrl/RDFSClosure.py: typing of properties and resources")],
     EXTRACT, EXTRACT_NOTE)
prop("C02", "OWL RL equality rules (Table 4) are complete and sound",
     "For any graph the OWL 2 RL closure contains every consequence of the equality rules (eq-ref, eq-sym, eq-trans, eq-rep-s/p/o), and reports an "
     "inconsistency for every match of eq-diff1, eq-diff2 and eq-diff3 (an owl:AllDifferent list that repeats one same term is excepted). No owl:sameAs "
     "triple and no such inconsistency is produced without the rules' premises.",
     ["inputs"], "all graphs; all instantiations of each rule; lists of any length (checked up to a bound)", WHY_RULES, ["owlrl/OWLRL.py"],
     [("OWLRL_Semantics._properties/_classes/...", "owlrl/OWLRL.py: owl:sameAs, owl:differentFrom and owl:AllDifferent branches of the rule dispatch")],
     EXTRACT, EXTRACT_NOTE)
prop("C03", "OWL RL property rules (Table 5) are complete and sound",
     "For any graph the OWL 2 RL closure contains every consequence of the prp-* rules (domain, range, functional and inverse functional, symmetric, "
     "transitive, subproperty, chains, equivalent and inverse properties, keys, annotation properties), and reports an inconsistency whenever a prp-* "
     "rule demands it (irreflexive, asymmetric, disjoint properties, negative assertions). It stores no such triple and reports no such inconsistency "
     "that the rules do not justify.",
     ["inputs"], "all graphs; chains, keys and property lists of any length (checked up to a bound)", WHY_RULES, ["owlrl/OWLRL.py"],
     [("prp-* branches", "owlrl/OWLRL.py: rules dispatch of OWLRL_Semantics"), ("prp-spo2, prp-key", "owlrl/OWLRL.py: list handling")],
     EXTRACT, EXTRACT_NOTE)
prop("C04", "OWL RL class-expression rules (Table 6) are complete and sound",
     "For any graph the OWL 2 RL closure contains every consequence of the cls-* rules (intersection, union, complement, some/all values, hasValue, "
     "maximum cardinalities 0 and 1, plain and qualified, enumerations), and reports an inconsistency whenever cls-nothing2, cls-com or a cardinality of 0 "
     "demands it. It stores no such triple and reports no such inconsistency that the rules do not justify.",
     ["inputs"], "all graphs; lists of any length (checked up to a bound); cardinality values of any form", WHY_RULES, ["owlrl/OWLRL.py"],
     [("cls-* branches", "owlrl/OWLRL.py: rules dispatch of OWLRL_Semantics")], EXTRACT, EXTRACT_NOTE)
prop("C05", "OWL RL class-axiom rules (Table 7) are complete and sound",
     "For any graph the OWL 2 RL closure contains every consequence of cax-sco, cax-eqc1 and cax-eqc2, and reports an inconsistency for every match of "
     "cax-dw and cax-adc. It stores no type triple and reports no such inconsistency that the rules do not justify.",
     ["inputs"], "all graphs; owl:AllDisjointClasses lists of any length (checked up to a bound)", WHY_RULES, ["owlrl/OWLRL.py"],
     [("cax-* branches", "owlrl/OWLRL.py: rules dispatch of OWLRL_Semantics")], EXTRACT, EXTRACT_NOTE)
prop("C06", "OWL RL schema rules (Table 9) are complete and sound",
     "For any graph the OWL 2 RL closure contains every consequence of the scm-* rules (classes, subclasses and equivalence, properties, domains and ranges, "
     "hasValue, someValuesFrom, allValuesFrom, intersections and unions), except those that only restate reflexivity. It stores no schema triple that the "
     "rules do not justify.",
     ["inputs"], "all graphs; lists of any length (checked up to a bound)", WHY_RULES, ["owlrl/OWLRL.py"],
     [("scm-* branches", "owlrl/OWLRL.py: rules dispatch of OWLRL_Semantics")], EXTRACT, EXTRACT_NOTE)
prop("C08", "Inconsistencies are reported exactly when a rule demands it, and named",
     "Whenever the premises of a rule whose conclusion is 'false' hold in the closure, an inconsistency is reported, and none is reported otherwise. "
     "Every report is a well-formed message that names at least one of the resources in conflict, and never aborts the closure.",
     ["inputs"], "all graphs; all inconsistency rules of the OWL 2 RL rule set", WHY_RULES, ["owlrl/OWLRL.py", "owlrl/Closure.py"],
     [("Core.add_error", "owlrl/Closure.py"), ("error messages", "owlrl/OWLRL.py: every call of add_error")],
     EXTRACT, EXTRACT_NOTE)
prop("C24", "The extended closure implements its extra rules on top of OWL 2 RL",
     "The extended closure, with or without RDFS, contains everything the OWL 2 RL (and RDFS) rules derive, the two owl:hasSelf rules, and the typing and "
     "subsumption of facet-restricted datatypes; values that violate a restricted datatype are reported. It adds nothing that these rules do not justify.",
     ["inputs", "configurations"], "all graphs; RDFS part on and off", WHY_RULES, ["owlrl/OWLRLExtras.py", "owlrl/CombinedClosure.py", "owlrl/RestrictedDatatype.py"],
     [("OWLRL_Extension.rules", "owlrl/OWLRLExtras.py"), ("restriction_typing_check", "owlrl/OWLRLExtras.py")], EXTRACT, EXTRACT_NOTE)
prop("C25", "The combined closure derives the union of the RDFS and OWL RL rules",
     "The combined RDFS and OWL 2 RL closure of any graph contains every consequence of both rule sets, including those that need premises of one kind "
     "produced by the other. It adds nothing that the two rule sets do not justify.",
     ["inputs"], "all graphs; all interleavings of the two rule sets", WHY_RULES, ["owlrl/CombinedClosure.py"],
     [("RDFS_OWLRL_Semantics.rules", "owlrl/CombinedClosure.py: delegation to both rule sets")], EXTRACT, EXTRACT_NOTE)
prop("C09", "The closure loop runs every step, to a fixpoint, and loses nothing",
     "The closure of any graph executes pre-processing, the axioms that were asked for, the one-time rules, whole-graph rule cycles until one cycle yields "
     "nothing new, and post-processing, each once and in this order, every step seeing what the earlier ones produced. Every new triple (a triple without "
     "literal predicate that is in neither graph) and every inconsistency message, on a node of its own, reaches the result.",
     ["inputs", "histories"], "all graphs; any number of cycles; all closure classes; with and without a separate destination",
     "A test observes a few graphs whose closure needs two or three cycles; the property is about any number of cycles and about triples produced at any step.",
     ["owlrl/Closure.py"],
     [("Core.closure", "owlrl/Closure.py: order of the hooks, while loop"), ("Core.store_triple / add_error", "owlrl/Closure.py"),
      ("Core.flush_stored_triples / empty_stored_triples", "owlrl/Closure.py")],
     "typestate analysis: abstract interpretation of the driver over a finite domain (provenance tokens of the containers, emptiness, graph size), loops to their fixpoint",
     "Static. The hooks are opaque and may produce anything; containers are followed through aliases, copies, helpers and tests of emptiness or length. "
     "What is not followed (exceptions that are handled, containers given to unknown functions) is reported as undecided in the evidence.")
prop("C07", "Vocabulary facts and datatype rules: typing, hierarchy, disjointness, ill-typed",
     "Every OWL 2 RL closure contains the vocabulary facts (cls-thing, cls-nothing1, prp-ap, a type for every supported datatype), types each literal with its "
     "datatype, gives literals and typed resources of the input all XSD supertypes, states the disjointness of any two disjoint primitive datatypes in use, and "
     "reports each literal whose lexical form its datatype rejects. The RDFS closure lets literals with an equal value (as given by RDFLib) stand for each "
     "other as objects. Nothing else is derived by these one-time rules.",
     ["inputs"], "all graphs; every pair of supported datatypes", WHY_RULES, ["owlrl/OWLRL.py", "owlrl/RDFSClosure.py", "owlrl/XsdDatatypes.py", "owlrl/CombinedClosure.py"],
     [("OWLRL_Semantics._one_time_rules_datatypes", "owlrl/OWLRL.py"), ("_Common_Datatype_Subsumptions", "owlrl/XsdDatatypes.py: datatype hierarchy"),
      ("OWLRL_Datatypes_Disjointness", "owlrl/AxiomaticTriples.py: pairs of disjoint datatypes"), ("RDFS_Semantics.one_time_rules", "owlrl/RDFSClosure.py")],
     EXTRACT, EXTRACT_NOTE)
prop("C17", "Container membership axioms: exactly for rdf:_1 to rdf:_n in use",
     "When the axioms are asked for, the closures with RDFS contain the four axioms of rdf:_i for every i from 1 to the largest index n that occurs in the "
     "predicates of the graph, and for no other i. Only the IRIs rdf:_ followed by a decimal number without leading zeros count, and no predicate makes the "
     "construction of the closure fail.",
     ["inputs"], "all graphs, all indices", "A test uses a handful of indices; the property is about the maximum over any set of predicates, and about IRIs that merely resemble rdf:_n.",
     ["owlrl/Closure.py", "owlrl/RDFSClosure.py"],
     [("IMaxNum", "owlrl/Closure.py: Core.__init__"), ("container axioms", "owlrl/RDFSClosure.py: RDFS_Semantics.add_axioms")],
     "abstract interpretation of the constructor and of add_axioms; comparison of regular languages on automata; linear forms over the largest index",
     "Static. The order in which a loop that is left early would see the predicates is not modelled.")
prop("C18", "Axiomatic triples: all those of the specification, and no others",
     "When axioms (or datatype axioms) are asked for, each closure contains the axiomatic triples of the specifications it implements (RDF, RDFS, OWL 2 RL, "
     "the XSD hierarchy and disjointness, and a type for each literal with a datatype in the closures with RDFS), whatever the graph already contains. "
     "Nothing else is added as an axiom.",
     ["inputs", "configurations"], "all graphs; every closure class, with and without its RDFS part", "Tests look at a few triples of one configuration.",
     ["owlrl/AxiomaticTriples.py", "owlrl/RDFSClosure.py", "owlrl/OWLRL.py", "owlrl/CombinedClosure.py", "owlrl/OWLRLExtras.py"],
     [("tables", "owlrl/AxiomaticTriples.py"), ("add_axioms/add_d_axioms", "owlrl/*.py: each closure class")], EXTRACT, EXTRACT_NOTE)
prop("C12", "Expansion only adds: nothing is lost but unusable blank-node predicates",
     "Expanding a graph never removes a triple of it, except that the OWL closures drop triples whose predicate is a blank node (generalised RDF) at the end; "
     "of these none that a blank node of the graph is predicate of stays in the result. The trimming closure alone removes more.",
     ["inputs", "configurations"], "all graphs; every closure class but the trimming one; with and without a destination graph",
     "A test compares a few graphs; the property is that no path of any rule or hook removes any other triple.",
     ["owlrl/Closure.py", "owlrl/OWLRL.py", "owlrl/RDFSClosure.py", "owlrl/CombinedClosure.py", "owlrl/OWLRLExtras.py"],
     [("OWLRL_Semantics.post_process", "owlrl/OWLRL.py: removal of blank-node predicates"), ("remove calls", "owlrl/*.py: every effect that removes from a graph")],
     "effect analysis: abstract interpretation collects every graph removal with its path condition; each is shown to concern a blank-node predicate (clause entailment)",
     "Static. Every removal in the constructor, rules, hooks and loop is found through aliases and helpers; effects through unknown functions are reported as undecided.")
prop("C13", "Results go to the chosen destination and nowhere else",
     "With a destination (a graph of the same store, or the name of a graph of a dataset) every derived triple, axiom and error report is written to that graph, and the "
     "source graph is left as it was. Without one they go to the source graph, or to the default graph of a dataset.",
     ["inputs", "configurations"], "all graphs and datasets; every closure class and kind of destination, empty ones included",
     "Tests use one closure and one kind of destination; the property must hold of every write on every path.",
     ["owlrl/Closure.py", "owlrl/OWLRL.py", "owlrl/RDFSClosure.py", "owlrl/CombinedClosure.py", "owlrl/OWLRLExtras.py"],
     [("Core.__init__", "owlrl/Closure.py: choice of the destination"), ("writes", "owlrl/*.py: every add and remove")],
     "effect analysis: abstract interpretation resolves the target of every graph mutation to the graph object chosen in the constructor",
     "Static. For each class and each kind of graph and destination, each mutation (add, remove, bind, parse) must have the chosen graph as its target on every path.")
prop("C26", "Trimming removes exactly the documented trivial triples",
     "The trimming closure removes from its result every triple of the documented trivial kinds (reflexive sameAs/subClassOf/subPropertyOf/equivalentClass, top and bottom "
     "subclass axioms, resource typings, annotation and class vocabulary, declarations and disjointness of datatypes that type nothing). It removes nothing else "
     "than these and triples with a blank node as predicate.",
     ["inputs"], "all graphs; every datatype of the OWL 2 RL set", "A test trims one graph; the property quantifies over all triples that must stay and all that must go.",
     ["owlrl/OWLRLExtras.py"], [("OWLRL_Extension_Trimming.post_process", "owlrl/OWLRLExtras.py")],
     "effect analysis with clause entailment: the removals extracted from the source are compared with the documented patterns in both directions",
     EXTRACT_NOTE)
prop("C15", "An expansion leaves no trace in the process: datatype tables are as before",
     "After DeductiveClosure.expand returns or raises, at whatever point, RDFLib's conversion table, the package's conversion, datatype and subsumption tables and "
     "every other process-wide object are as they were before the call. The DeductiveClosure object is not changed either: it can be used again, for any graph.",
     ["histories", "fault_sequences"], "all graphs and closure classes; all points at which an exception may leave the closure; all sequences of expansions",
     "A test would have to raise at every point of a closure; the property quantifies over all exits and over the histories of expansions in a process.",
     ["owlrl/__init__.py", "owlrl/CombinedClosure.py", "owlrl/DatatypeHandling.py"],
     [("DeductiveClosure.expand", "owlrl/__init__.py: save and restore of the tables"), ("add_new_datatype", "owlrl/CombinedClosure.py")],
     "effect analysis (process-wide objects mutated by the closures) and typestate of the tables along all normal and exceptional paths of expand",
     "Static. The closure is an opaque operation that may change every such table in any way and may raise when it is built and when it runs.")
prop("C16", "Improved datatype conversions are in force exactly when asked for",
     "An expansion that asks for the improved conversions builds and runs its closure with them for every datatype of the improved table; one that does not leaves RDFLib's "
     "table alone. use_improved_datatypes_conversions switches all of them on for good, and use_rdflib_datatypes_conversions gives back RDFLib's own conversions, "
     "withdrawing those that RDFLib has not.",
     ["histories", "configurations"], "every datatype of the table; every order of switches and expansions", "The state is global and per datatype; tests look at neither.",
     ["owlrl/__init__.py", "owlrl/DatatypeHandling.py"],
     [("use_Alt_lexical_conversions, use_RDFLib_lexical_conversions", "owlrl/DatatypeHandling.py"), ("DeductiveClosure.expand and switches", "owlrl/__init__.py")],
     "typestate analysis of the conversion table, for an arbitrary datatype known or unknown to RDFLib, over all paths of the switches and of expand",
     "Static. Two symbolic datatypes stand for the contents of the table; operations on whole tables are followed through copies and helpers.")
FACADE = "abstract interpretation with constant propagation of the entry points, event traces (construct, run, parse, import, serialize) of every path"
FACADE_NOTE = ("Static. The options are enumerated over their abstract values; graphs, closures and parsers are opaque, and their events are recorded per path. A path that depends on "
               "something the analysis cannot evaluate is undecided.")
prop("C27", "The closure asked for is the one computed, once, with the flags given",
     "return_closure_class gives for each combination of its flags the documented class: with OWL, the trimming extension if extras and trimming are set, the extension if extras, else "
     "RDFS_OWLRL_Semantics or OWLRL_Semantics as RDFS is wanted or not; without OWL, RDFS_Semantics or None. DeductiveClosure.expand builds its closure class exactly once, on the graph, "
     "flags and destination it was given, and runs it exactly once; it does nothing if the class is None.",
     ["configurations"], "all combinations of the flags, all closure classes and kinds of destination", "2^4 selections times five classes, 2^4 flags and three kinds of destinations; tests try three.",
     ["owlrl/__init__.py"], [("return_closure_class, DeductiveClosure", "owlrl/__init__.py")], FACADE, FACADE_NOTE)
prop("C28", "convert_graph honours every option, format and source",
     "convert_graph parses each distinct source once, in the format that the input option or the name's suffix says, and the text (N3/Turtle), then interprets owl:imports if OWL is asked for, "
     "then expands with the selected closure (or the class given) and flags, and returns the serialization of that graph in the output format. An option counts as set for True, 'yes', "
     "'Yes', 'True' and 'true' only. Without any input, or with an unknown input format, it raises an exception.",
     ["configurations", "inputs"], "all combinations of the options, formats and suffixes", "No test calls convert_graph; the options combine to hundreds of cases.",
     ["owlrl/__init__.py"], [("convert_graph, __parse_input", "owlrl/__init__.py")], FACADE, FACADE_NOTE)
prop("C29", "Interpreting owl:imports follows every import once and terminates",
     "interpret_owl_imports parses the object of every owl:imports statement of the graph, also of those that an imported vocabulary brings in, into that graph and in the given input format, but "
     "never the same term twice, so that circular imports end. It removes the import statements and no other triple, and none is left when it returns.",
     ["inputs", "histories"], "all graphs and all import structures, cycles included", "A test imports one file; the property quantifies over all import graphs.",
     ["owlrl/__init__.py"], [("interpret_owl_imports", "owlrl/__init__.py")],
     "abstract interpretation of the import loop (three rounds); the guards of each parse must exclude what was imported before, the guards of the return must exclude import statements",
     "Static. The graph is symbolic; what is known to be imported is followed through the set that the code keeps. Rounds beyond the third are as the third.")
prop("C30", "Every command line makes the conversion that it documents",
     "Each option of the owlrl command sets what it documents, the shorthands like their long forms, the last one winning: the closures, extensions, axioms, trimming, formats; --maximal switches on RDFS, OWL RL, "
     "extensions and trimming whatever else is said. The sources are the file of -f and then the arguments in order, standard input if there are none; what is not given has its documented default. "
     "Exactly one conversion is made and its result is printed; undocumented values and options are refused.",
     ["inputs", "configurations"], "every documented option, alone and in pairs, with and without files", "No test runs the command; the combinations of options are many.",
     ["scripts/owlrl"], [("main", "scripts/owlrl")],
     "abstract interpretation of main with constant propagation: the declared options, under the semantics of optparse, are evaluated on every option and pair of options",
     "Static. The semantics of optparse is part of the checker; a command line built with another library is undecided.")
prop("C31", "Arguments that cannot work are refused before a graph is changed",
     "DeductiveClosure raises an error for a closure that is neither None nor a class. Every closure class raises ValueError for a destination given by name when the graph is no dataset, and for a "
     "destination graph of another store, and has then changed no graph; it accepts every other kind of destination.",
     ["inputs", "configurations"], "all closure classes, kinds of graph and destination", "Tests try the destinations with one closure class.",
     ["owlrl/__init__.py", "owlrl/Closure.py"], [("DeductiveClosure.__init__", "owlrl/__init__.py"), ("Core.__init__", "owlrl/Closure.py")],
     "abstract interpretation of the constructors: exits and effects on graphs of every path, for each kind of argument", FACADE_NOTE)
prop("C33", "The conversion service escapes what it echoes and labels what it sends",
     "On its error page the CGI service shows nothing of the request or of the exception that has not been escaped for HTML, and answers with the status 400. A successful request answers with the result of one conversion, "
     "under the content type of the format in which it was asked for. The fields of the form become the options of the conversion.",
     ["inputs"], "requests with all fields, with single ones and with none; each output format; success and failure", "The script is not tested; an unescaped field is an injection that ordinary requests do not show.",
     ["scripts/RDFConvertService"], [("Options.to_html, module level", "scripts/RDFConvertService")],
     "information-flow analysis by abstract interpretation of the script with symbolic form fields; event traces of what is printed",
     "Static. The values of the fields are symbolic; html.escape is taken as the sanitizer.")
prop("C21", "Literals convert exactly by their datatype, and ill-formed ones are refused",
     "Each datatype of the improved table, and owl:rational of the extension, has a conversion that accepts every lexical form of the datatype (XML Schema, RDF) and gives its value: the integer, decimal or binary, the date or time "
     "with fraction and time zone, the text and language, or the checked string. It raises ValueError, and no other exception, for each form outside the lexical or value space, such as numbers beyond "
     "the range of the type, non-existent days, digit separators, a second slash, or characters that a name cannot have. Documented leniency (range of doubles, relative URIs) and the whitespace that Python's number parsers tolerate are left open.",
     ["inputs"], "all 40 datatypes; all ASCII lexical forms of the string-like types, all integers, the orders of the reals against every bound, dates and times by segments (all time zones in the thorough tier)",
     "The lexical spaces are infinite; tests try a few literals of a few types.", ["owlrl/DatatypeHandling.py", "owlrl/OWLRLExtras.py"],
     [("AltXSDToPYTHON, _strTo*, _returnTimeZone", "owlrl/DatatypeHandling.py"), ("_strToRational", "owlrl/OWLRLExtras.py")],
     "path extraction by abstract interpretation with an unknown lexical form; the decision lists are compared with the lexical spaces on a partition (product automata, order types) that fixes all their conditions",
     "Static. The library functions that the conversions end in (int, Decimal, strptime, b64decode, minidom) are folded as known functions; beyond ASCII one letter stands for all; dates are bounded to segments.")
prop("C22", "A restricted datatype accepts exactly the values its facets allow",
     "A restricted datatype accepts a value exactly when it satisfies all its applicable facets, repeated ones included: the inclusive and exclusive bounds for numbers, dates and times, the lengths "
     "for strings and binaries, the patterns (on the whole string), and the language ranges for rdf:PlainLiteral. Its conversion returns the value that the base type gives, and raises ValueError "
     "for each value that is not accepted, also where value and facet cannot be compared.",
     ["inputs", "configurations"], "all facetable datatypes, all values of facets and literals (totally ordered values), all combinations of two facets (three in the thorough tier)",
     "Tests try a handful of bounds; the property is about every order of the values, zero, equality and repetition included.",
     ["owlrl/RestrictedDatatype.py"], [("RestrictedDatatype.__init__, checkValue, _check_*", "owlrl/RestrictedDatatype.py"), ("_lit_to_value", "owlrl/RestrictedDatatype.py")],
     "predicate abstraction: the paths of constructor and checks, extracted by abstract interpretation with symbolic values, are evaluated on every order type of facet values and value",
     "Static. Values are taken to be totally ordered (no NaN); the matching of one regular expression or of one language range is atomic, and assumed right.")
prop("C23", "Datatype restrictions are extracted completely and independently",
     "Every datatype of a graph with one facetable base type and one owl:withRestrictions list is extracted as one restricted datatype with exactly the facets of the list, their literals converted by "
     "their datatypes. Several base types or lists, and facet values that cannot be converted, are reported as errors and affect no other definition or facet; definitions without base type, or whose "
     "base type takes no facets, are left out.",
     ["inputs"], "every pair of shapes of definitions, with symbolic facet values", "Failures of one definition on another one's result need particular combinations and orders.",
     ["owlrl/RestrictedDatatype.py"], [("extract_faceted_datatypes", "owlrl/RestrictedDatatype.py")],
     "abstract interpretation of the extraction over graphs built from every pair of definition shapes with symbolic literals; conversions that succeed and fail",
     "Static. Each pair of shapes stands for graphs with any number of definitions; the state carried from one definition to the next is what could couple them.")
prop("C10", "Every closure ends: no exception, no endless cycle, no invented terms",
     "The closure of any graph comes to an end: no cycle follows one that has produced nothing new for ever, no loop or recursion over lists and edges relies on the graph being free of circles, and the "
     "rules derive no triple with a term that they have just made up. Nothing that a graph may contain (ill-typed literals, terms of an unexpected kind, empty or circular lists, values that cannot be "
     "compared) makes constructor, hooks, rules or loop raise an exception.",
     ["inputs", "histories"], "all graphs; all closure classes; lists of any length (checked up to a bound); both the first and later cycles",
     "The graphs that break it (an empty or circular list, a cardinality that is no number, an unknown datatype) are the ones that tests do not contain.",
     ["owlrl/Closure.py", "owlrl/OWLRL.py", "owlrl/RDFSClosure.py", "owlrl/CombinedClosure.py", "owlrl/OWLRLExtras.py"],
     [("OWLRL_Semantics.rules, _list, _property_chain", "owlrl/OWLRL.py"), ("Core.closure", "owlrl/Closure.py"), ("_subsume_restricted_datatypes, restriction_typing_check", "owlrl/OWLRLExtras.py")],
     "exception-effect analysis by abstract interpretation of all methods; escape analysis of constructed terms; lasso search in the typestate graph of the loop; data-flow check of loops and recursions over edges",
     "Static. Exceptions of rdflib on its own behalf (a store that fails) are not modelled; a graph is finite, so that finitely many terms give finitely many triples.")
prop("C40", "Literals of equal value are recognised whatever their lexical form",
     "Two literals of the graph denote the same value in the improved conversion exactly when the specification of their datatypes says so (dt-eq, dt-diff, the one-time rule of the RDFS closure). This includes "
     "values of different datatypes and of any precision.",
     ["inputs"], "all pairs of literals", "Tests sample a few pairs; the property quantifies over all of them.",
     ["owlrl/RDFSClosure.py", "owlrl/DatatypeHandling.py"], [("RDFS_Semantics.one_time_rules", "owlrl/RDFSClosure.py")],
     na="equality of values is decided at run time by Python numbers, Decimal, datetime and rdflib's Literal; no static argument over the repository's source reaches it (which lexical forms convert, and to what, is C21)")
prop("C41", "A converted graph parses back to the graph that was serialized",
     "The text that convert_graph returns parses, in the format asked for, to a graph isomorphic to the expanded graph.",
     ["inputs"], "all graphs, all output formats", "Tests sample a few documents; the property quantifies over all of them.",
     ["owlrl/__init__.py"], [("convert_graph", "owlrl/__init__.py: serialize")],
     na="the serializers and parsers belong to rdflib; the repository contributes the choice of the format, which C28 decides")
prop("C42", "Language ranges match language tags as in RFC 4647",
     "The rdf:langRange facet accepts a language tag exactly when the range matches it by extended filtering (RFC 4647, section 3.3.2).",
     ["inputs"], "all ranges and tags", "Tests sample a few tags; the property quantifies over all of them.",
     ["owlrl/RestrictedDatatype.py"], [("_lang_range_check", "owlrl/RestrictedDatatype.py")],
     na="the matching is a loop over two lists of subtags of unknown lengths with two moving indexes; deciding it needs an inductive proof or bounded execution of the loop, not a data-flow argument")
prop("C43", "The closure takes time and memory polynomial in the size of the graph",
     "The time and memory of a closure are bounded by a polynomial in the number of triples.",
     ["inputs"], "all graphs", "Tests run on tiny graphs.",
     ["owlrl/Closure.py"], [("Core.closure", "owlrl/Closure.py")],
     na="a cost bound depends on run-time sizes (key combinations, chains, the store's indexes), which no sound static argument in reach bounds; that the closure ends is C10")
