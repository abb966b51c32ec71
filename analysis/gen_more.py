NAMES = "rdftk_names/src/lib.rs"
prop("C24", "Vocabulary modules give the published terms of their vocabularies",
     "For every function of the vocabulary modules (Dublin Core, FOAF, Geo, OWL, RDF, RDFS, SKOS with its extensions, XML "
     "Schema): the IRI it gives is the vocabulary's published namespace IRI followed by the published spelling of the term the "
     "function is named after, its '_str' form is that term, and its '_qname' form is the module's prefix, ':' and the term. "
     "Each module's namespace, namespace string and default prefix are those of the vocabulary. The n-th container member "
     "is the RDF namespace (as a qualified name: 'rdf:') followed by '_' and n in decimal.",
     "every function of every vocabulary module; every container index",
     "The repository has no test of any of the roughly four hundred functions; a misspelt term is a valid IRI and is noticed "
     "only by whoever exchanges data.",
     [NAMES, "rdftk_names/src/owl.rs", "rdftk_names/src/rdf.rs", "rdftk_names/src/dc/terms.rs"],
     [("namespace! and nsname! macros", NAMES), ("vocabulary modules", "rdftk_names/src/*.rs")], over=("inputs",),
     technique="static analysis: abstract interpretation (constant propagation through the lazily initialised tables) of the "
               "compiler's MIR, compared with a table of the published vocabularies")

ST = "rdftk_core/src/model/statement.rs"
STB = "rdftk_core/src/model/statement/%s.rs"
LIT = "rdftk_core/src/model/literal.rs"
GR = "rdftk_core/src/model/graph.rs"
DS = "rdftk_core/src/model/data_set.rs"
RES = "rdftk_core/src/model/resource.rs"
FEA = "rdftk_core/src/model/features.rs"
CORE_NOTE = ("Decided on every path of the compiled code, nothing executed. Texts, IRIs, names, literals and the kinds of "
             "nodes are unconstrained symbolic operands; the number of statements, members or properties of a collection "
             "value is fixed per entry point (zero to three with arbitrary, possibly equal, parts, and a hundred and thirty distinct ones), so a "
             "fault that only other numbers bring out is not excluded. Trusted: rustc's "
             "MIR and the models of std, url, uuid, chrono, rust_decimal and base64 in analysis/py/models.py and "
             "models_core.py. Paths on which the interpreter would have to approximate are counted as undecided in the "
             "evidence (none on this tree).")


def core(pid, title, statement, text, why, files, mech, state=None, over=("inputs",)):
    prop(pid, title, statement, text, why, files, mech, over=over, note=CORE_NOTE, state=state)


core("C25", "Nodes, collections and statements keep exactly what they were made from",
     "A blank node made from a text exists exactly if the text, without an optional leading '_:', is a valid local name, and "
     "then its text is that name; a blank node made of a name has that name. A subject or object node made from a blank node, "
     "an IRI, a literal, a statement or a collection (by value, by reference, through an Arc, or from the text of a blank "
     "node) is of that kind and gives back that value; its is_* predicates and as_* accessors answer for exactly that kind, "
     "and it equals a bare value exactly if it is of that kind and holds an equal one. A subject converted to an object and "
     "back is unchanged; an object converts to a subject exactly if it is neither a literal nor a collection. A collection "
     "holds the members it was made from, in order. A statement has the subject, predicate and object it was made from, a "
     "type statement has the predicate rdf:type; each set_* operation replaces that part and leaves the others; is_nested "
     "answers whether the subject or the object is itself a statement.",
     "every kind of node, every text, IRI, name and literal; collections of up to three members, and of a hundred and thirty",
     "Twenty-odd conversions times every kind of node; the tests touch a few with one literal each.",
     [ST, STB % "bnode", STB % "subject", STB % "object", STB % "collection"],
     [("BlankNode, From/TryFrom impls and accessors of SubjectNode, ObjectNode, Collection, Statement", ST)])
core("C26", "Equality, ordering and hashing of nodes, statements and literals agree",
     "Two subject nodes, object nodes, graph names or statements are equal exactly if they are of the same kind and have "
     "equal contents (for a statement: all three parts); two literals exactly if lexical form, data type and language tag are "
     "all equal. The order of subjects, objects, statements, literals and data types is total: comparing (a, b) gives Equal "
     "exactly if a and b are equal, comparing (b, a) gives the reverse of comparing (a, b), the partial order agrees with the "
     "total one, and it is transitive. Equal values feed a hasher the same data.",
     "every pair, for transitivity every triple, of values of every kind, statements nested to depth two",
     "Laws over all pairs and triples of values of five kinds; a graph that is a hash set or an ordered set silently "
     "misbehaves when one fails, and tests compare a few values.",
     [ST, STB % "subject", STB % "object", LIT], [("PartialEq, Ord, PartialOrd, Hash impls", LIT)])
core("C27", "Nodes, statements and literals print in their documented textual form",
     "A blank node prints as '_:' and its name, an IRI as '<', its text and '>', a nested statement as '<< ', the statement "
     "and ' >>', a statement as its subject, predicate and object separated by single spaces, a collection as '( ', its members "
     "separated by single spaces and ' )'. A literal prints as its lexical form in double quotes, followed by '^^' and its data "
     "type's printed IRI if it has a data type, or by '@' and the language tag if it has a language, except that a literal of "
     "the IRI type prints as '<', lexical form, '>', and one of a boolean, integer, floating point or decimal type as its bare "
     "lexical form unless the alternate form is asked for. A named data type prints as its qualified name (e.g. xsd:int). An object that is a "
     "literal or collection prints as it does; a graph name prints like a blank node or an IRI.",
     "every kind of node and every text", "Tests print a few fixed nodes.",
     [ST, STB % "subject", STB % "object", LIT], [("Display impls", LIT)])
core("C28", "Data types and their IRIs correspond one to one",
     "Each named data type's IRI is the XML Schema namespace followed by the type's published name; a data type made from an "
     "IRI is the named type with that IRI if there is one and otherwise carries exactly that IRI, so that the data type's "
     "IRI is always the IRI it was made from. A literal made with a data type IRI has the data type of that IRI.",
     "every data type and every IRI", "Tests convert one or two of the thirty types, in one direction.",
     [LIT], [("From<Iri> for DataType, From<DataType> for Iri, Literal::with_data_type_iri", LIT)])
core("C29", "Literals of native values have their type, lexical form and value",
     "A literal made from a native value (boolean, integer of any width, float, decimal, duration, IRI, "
     "language tag, name, qualified name, hexadecimal or base64 bytes, text) has the XML Schema data type of that value and "
     "the value's standard lexical form; a text, typed or language-tagged literal has exactly the given lexical form, data type or "
     "tag (and no other). A literal compares equal to a native value other than a text exactly if it equals the literal "
     "made from that value; a literal without type or of type xsd:string compares equal to exactly the text that is its lexical form. A "
     "literal made from an IRI, a local name or bytes converts back to that IRI, name or those bytes; a literal of another type, or "
     "whose text is not in the type's form (hexadecimal: pairs of hexadecimal digits and nothing else), does not convert.",
     "every native value and every text; byte sequences of up to three bytes, and of a hundred and thirty-two",
     "Value ranges of a dozen types; tests check one value of some of them.",
     [LIT], [("From impls and constructors of Literal, PartialEq with native values, to_bytes and TryFrom impls", LIT)])
core("C30", "Graph queries find exactly the statements that match",
     "For a graph, matches(subject, predicate, object) finds exactly the graph's statements whose parts equal the given ones, "
     "an absent part matching everything; contains(statement) and contains_subject answer whether the graph has such a "
     "statement. subjects, predicates and objects (and node_subjects, blank_node_subjects, predicates_for, objects_for) give "
     "exactly the parts of the graph's statements (with a subject of that kind, that subject, or that subject and predicate).",
     "every graph of up to three statements with arbitrary, possibly equal, parts, and one of a hundred and thirty; every pattern",
     "Which of eight patterns and which equalities among the parts hold is a product the tests sample once or twice.",
     [GR], [("Graph::matches, contains*, subjects*, predicates*, objects*", GR)])
core("C31", "A graph is a set or bag of statements under every editing operation",
     "A graph holds exactly the statements put into it (one by one, as a list, by extending or by merging another graph) less "
     "those taken out: a graph of unique statements holds equal statements once, any other holds each as often as it was "
     "inserted. remove takes out the equal statements and nothing else, remove_all_for exactly those with the given subject, "
     "clear all, dedup all but one of equal statements; remove_all_for and dedup give the statements they took out. len and "
     "is_empty count the statements. Name and prefix mappings are those last set, operations on statements leave them alone; a clone has the "
     "same statements, name, mappings and uniqueness; the features a graph announces are those it has.",
     "every graph of up to three statements with arbitrary, possibly equal, parts, and of a hundred and thirty; histories of up to four operations, and fixed ones of hundreds",
     "Histories of operations on symbolic statements, any of which may be equal; the tests run a few fixed histories.",
     [GR, FEA], [("Graph constructors, insert, extend, merge, remove, remove_all_for, clear, dedup, Clone, features", GR)],
     state=[("unique", "whether the graph holds equal statements once", GR)], over=("inputs", "histories"))
core("C32", "Reification, simplification and skolemization keep a graph's meaning",
     "Reifying a statement gives a freshly named blank node and exactly four statements on it: its type rdf:Statement and its "
     "rdf:subject, rdf:predicate and rdf:object; a nested statement is reified first and its node used in its place. Reifying "
     "a collection gives the list of its members in order: a node of type rdf:List for each, with its rdf:first and rdf:rest, ending in rdf:nil. Simplifying a graph replaces every "
     "statement that nests a statement or has a collection by such statements and keeps the others. Skolemizing replaces "
     "each blank subject and object by a generated well-known IRI of the base, the same for the same node and distinct ones for distinct nodes, and "
     "leaves everything else alone. Generated names are compared up to a renaming.",
     "every statement nested to depth one, collections of up to three members and of a hundred and thirty, graphs of one or two statements and of a hundred and thirty",
     "Structure-dependent rewriting with fresh names: tests look at a few fixed graphs and mostly at counts.",
     [GR, ST, STB % "collection"], [("Statement::reify, Collection::reify, Graph::simplify, Graph::skolemize", GR)])
core("C33", "A data set maps each graph name to the graph last inserted under it",
     "A data set holds, for each graph inserted (one by one, from a list or by extending), the graph under its own name, an "
     "unnamed one as the default graph; inserting a graph under a name already present replaces the earlier one. graph(name), "
     "default_graph, contains_graph, has_default_graph, has_graph_named, graphs, len and is_empty answer accordingly; changing a graph obtained mutably changes that graph "
     "only; remove takes out the graph of exactly that name, clear all of them.",
     "every data set of up to three graphs whose names are arbitrary, absent or equal, and of a hundred and thirty named graphs",
     "Which names coincide is a case split tests do not make.",
     [DS], [("DataSet", DS)], over=("inputs", "histories"))
core("C34", "Graph names keep the IRI or blank node they were made from",
     "A graph name made from an IRI or a blank node (by value, by reference, or from the text of a blank node, which must be a valid one) "
     "is of that kind, gives back that value from its accessors, and answers its is_* predicates for exactly that kind. A subject "
     "node converts to a graph name exactly if it is an IRI or a blank node, and then to the same one.",
     "every IRI, text and kind of node", "Every kind of source times every accessor; hardly any are tested.",
     [GR, DS], [("GraphName", GR)])
core("C35", "A resource describes exactly the statements it was given",
     "A resource built with the builder yields exactly one statement per property value it was given: its subject is the "
     "resource's own (an IRI, a named or a generated blank node), the predicate and object those given, whichever of the "
     "builder's equivalent operations was used. A resource given as a value adds a statement pointing at it and its own statements, "
     "recursively. It is an individual exactly if one of its properties is rdf:type. An rdf:Bag, rdf:Alt or rdf:Seq given as a value adds a node of that type whose members are attached by rdf:_1, "
     "rdf:_2, ... in order. instance_of adds the rdf:type. A clone describes the same statements.",
     "every resource of up to three properties with arbitrary, possibly equal, predicates and values, nested to depth two; a hundred and thirty values, predicates or members",
     "Equal predicates, nesting and sharing are combinations the tests do not reach; they mostly print.",
     [RES], [("Resource, Predicate, ContainerKind, From<Resource> for Graph", RES)])
prop("C21", "The crates build with any features, in safe code, with closed shareable values",
     "rdftk_iri and rdftk_core type-check with every combination of their cargo features, rdftk_iri without std included. "
     "They contain no unsafe code. Every public value type (prefixes, names, IRIs, references, maps, vocabularies, errors of "
     "rdftk_iri; nodes, literals, statements, collections, graphs, data sets and resources) is Send, Sync and 'static. The "
     "representation of prefixes, names, IRIs, prefix maps, blank nodes, literals, statements, collections, graphs, data sets "
     "and resources is private: no public field, and (but for an IRI's URL) no operation hands out a mutable reference to it.",
     "every combination of cargo features; every public field, signature and trait implementation",
     "Tests run in one configuration and cannot show that an operation or implementation does not exist; validity of names "
     "rests on nobody else being able to write their text.",
     [PN, IRI, "rdftk_core/Cargo.toml", "rdftk_iri/Cargo.toml", LIT],
     [("cargo features and cfg attributes", "rdftk_core/Cargo.toml"), ("struct definitions", PN)], over=("configurations",),
     technique="static analysis: type checking of the feature matrix with Send/Sync witnesses and the unsafe_code lint, and "
               "queries over the type-checked crates (field visibility, signatures, trait implementations)",
     note="The quick tier checks no, each single, all but one, and all features; the thorough tier every combination. "
          "Interior mutability behind a shared reference is not looked for. Trusted: rustc's type checker.")
core("C36", "Features have their own IRIs and each type announces exactly those it has",
     "Each feature constant is the IRI http://rust-rdftk.dev/feature/ followed by its path: statements/subject_collections, "
     "statements/object_collections, graph/named, graph/duplicates, graph/rdf_star, graph/n3_formulae, "
     "model.data_set/combined_default, or index/ and the indexed parts joined by '_' as in the constant's name; no two share "
     "one. Asked for any IRI, a statement or an object node announces exactly the features RDF-star and collections as "
     "objects, a subject node RDF-star, a graph RDF-star and, unless its statements are unique, duplicates, a data set none.",
     "every feature constant; every IRI asked for; every node, statement and graph",
     "No test looks at feature IRIs; whether one answers for another's IRI is a question about all IRIs.",
     [FEA, ST, GR, DS], [("FEATURE_* constants", FEA), ("Featured impls", ST)])
core("C37", "Errors of the RDF model say what failed, on what, and because of which error",
     "An error made from another error, by conversion or in a Result, wraps that error, and its source is exactly it (also "
     "the tokenizer's); errors that wrap none have no source. An error made by a helper function has the given contents. The "
     "message of an error contains every text, number and wrapped error's message it carries; where it has two that mean "
     "nothing without their order (the data types coerced from and to, a value and its type or index), in that order. The trace of an error has one "
     "line for each error of the chain of sources, outermost first, numbered from 1, with its message. A text that is no "
     "blank node is reported as such with the text; a literal that does not convert for its data type with that type and the "
     "one asked for; a hexadecimal literal with the first pair that is wrong and its index.",
     "every error and every text, literal and pair of characters",
     "A dozen conversions and two dozen messages with any contents; the tests look at none.",
     ["rdftk_core/src/error.rs", LIT, STB % "bnode"],
     [("Display, Error, From impls and helper functions of Error", "rdftk_core/src/error.rs"),
      ("TryFrom<Literal>, hex_decode", LIT), ("FromStr for BlankNode", STB % "bnode")])
core("C38", "No operation of the RDF model panics",
     "No construction, conversion, comparison, formatting, query or editing operation of nodes, literals, statements, "
     "collections, graphs, data sets, resources, features and errors panics on any operand: texts of any content (ASCII or "
     "not), literals of any type, nodes of any kind, graphs that are empty, hold one statement or many, lookups that find "
     "nothing. What cannot be done is reported as an error or by an absent value. (Resource::literal_language_str_str, "
     "which takes the text of a language tag and insists on its validity, is excepted.)",
     "every operand of every operation; collections of up to three members with arbitrary parts, and of a hundred and thirty",
     "A panic hides in the one operand nobody tried: a multi-byte character at a slicing position, an empty collection, a "
     "name that is missing.",
     [LIT, GR, DS, RES, ST, STB % "collection"], [("unwrap, expect, indexing and slicing in every operation", LIT)],
     over=("inputs", "histories"))
prop("C39", "Operations depend on nothing but their operands and touch nothing else",
     "No operation of rdftk_iri, rdftk_names or rdftk_core reads the environment, the clock, files, the network or standard "
     "input, starts a thread or process, writes to standard output or error (except print_trace and eprint_trace, which exist "
     "to do so), or keeps state from one call to the next in a lock, atomic, thread-local or mutable static; constants that "
     "are initialised once are not state. Only the operations documented to generate a blank node or Skolem IRI (reify, "
     "simplify, skolemize, turning a resource with nested or unnamed parts into statements, generating a blank node or graph name, "
     "Iri::genid) draw a generated name or random number. So the same operands give the same results (up to such "
     "names, and the order in which unordered collections list their elements) in any order, thread, process and environment.",
     "every function of the three crates, every call path, every environment and schedule",
     "A test runs in one environment, at one time, in one order; a result that depends on them repeats itself there.",
     [IRI, NAMES, GR, LIT], [("every function of the three crates", IRI)], over=("configurations", "schedules", "histories"),
     technique="static analysis: effect analysis over every function of the type-checked crates (functions named, statics) and "
               "reachability in the resolved call graph of the compiler's MIR",
     note="Effects are known by the definition path of the std or dependency function that has them (a list in "
          "analysis/py/props_effects.py); what a dependency does internally is trusted, but for generated names and random numbers, which are traced through it.")
