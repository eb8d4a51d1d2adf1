MODELNOTE = ("Differential testing against an independent model of the specification: exhaustive in nothing, random in the "
             "shapes of contexts and documents the generator knows; constructs the specification leaves open are not compared.")
W3C = ("The repository's unit tests run a handful of fixed documents; the algorithm is defined over every context and document, "
       "and its features interact (scoped contexts, containers, reverse, nesting, maps), which no sample of pairs settles.")

prop("P01", "Expansion gives the result the specification defines",
 "Expanding a JSON-LD document gives exactly the expanded document that the JSON-LD 1.1 expansion algorithm defines for it, its base IRI, its contexts (embedded, remote or given as expansion context) and the processing mode. A document the algorithm rejects is rejected, and no other document is.",
 ["inputs", "configurations"], "every JSON-LD document and context, every combination of base IRI, expansion context, processing mode and ordering option",
 W3C,
 ["crates/expansion/src/element.rs", "crates/expansion/src/node.rs", "crates/expansion/src/value.rs", "crates/expansion/src/literal.rs", "crates/expansion/src/array.rs", "crates/context-processing/src/algorithm/mod.rs", "crates/context-processing/src/algorithm/define.rs", "crates/context-processing/src/algorithm/iri.rs"],
 [("expansion of elements, nodes, values and maps", "crates/expansion/src"), ("context processing and term definitions", "crates/context-processing/src/algorithm")],
 "property-based testing: generated context/document pairs against a reference model of the expansion algorithm",
 MODELNOTE, ["JsonLdProcessor::expand"])

prop("P02", "Contexts are processed as the specification defines",
 "Processing a sequence of local contexts gives exactly the active context that the JSON-LD context processing algorithm defines: term definitions with all their attributes, base IRI, vocabulary mapping, default language and direction, protection, and the context to go back to. Two contexts are equal exactly when they define the same things, and a context that is written back as a local context and processed again gives an equal context.",
 ["inputs", "histories"], "every sequence of local contexts, with imported, scoped and propagated ones, and both settings of the override option",
 "The result depends on what the contexts before defined or protected and on chains of definitions; a test looks at the final documents of a few contexts only.",
 ["crates/context-processing/src/algorithm/mod.rs", "crates/context-processing/src/algorithm/define.rs", "crates/context-processing/src/algorithm/iri.rs", "crates/core/src/context/mod.rs", "crates/core/src/context/definition.rs"],
 [("context processing", "crates/context-processing/src/algorithm/mod.rs"), ("term definitions", "crates/context-processing/src/algorithm/define.rs"), ("active contexts", "crates/core/src/context/mod.rs")],
 "property-based testing: generated sequences of contexts against a reference model of the context processing algorithm; round trip through local contexts; equality compared with that of the contents",
 "Random search. Contexts that need terms to be defined in a particular order, or have prefixes that clash with terms, are not written back.", ["Process::process_full", "Context::into_syntax_definition"])

prop("P03", "Identifiers expand to the IRIs the context and the base give them",
 "Expanding a string gives the keyword, IRI or blank node identifier that the JSON-LD 1.1 IRI expansion algorithm gives: terms by their definition, compact IRIs by their prefix, others against the vocabulary or, when document relative, resolved against the base as RFC 3986 says. The result has the form it is said to have (an IRI is one, a blank node identifier is one), and the policy on the use of the vocabulary is obeyed.",
 ["inputs", "configurations"], "every active context, base IRI and string",
 "Strings interact with terms, prefixes, vocabularies and bases in many ways; tests sample a few forms in valid documents, while malformed and unusual references are in inputs.",
 ["crates/context-processing/src/algorithm/iri.rs", "crates/context-processing/src/algorithm/mod.rs", "crates/core/src/id.rs"],
 [("IRI expansion", "crates/context-processing/src/algorithm/iri.rs")],
 "property-based testing: generated contexts, bases and strings against a reference model of IRI expansion and of RFC 3986 resolution",
 "Random search. Dot segments with bases that have no rooted path, or empty path segments, are left to the IRI library.", ["expand_iri_simple"])

prop("P04", "Mistakes are reported with the error code of the specification",
 "A document with a mistake, in itself or in a context that it refers to, is rejected with the error code that the specification defines for that mistake. Where several mistakes are present, one of their codes is reported.",
 ["inputs", "fault_sequences"], "every kind of mistake, at every place of every valid document",
 "The code depends on which of many conditions is met first, wherever it is in the document; the conformance tests have one or two documents per code.",
 ["crates/syntax/src/context/try_from_json.rs", "crates/syntax/src/error.rs", "crates/context-processing/src/lib.rs", "crates/expansion/src/error.rs", "crates/expansion/src/value.rs", "crates/expansion/src/node.rs", "crates/core/src/loader/mod.rs"],
 [("errors of contexts", "crates/context-processing/src/lib.rs"), ("syntax errors of contexts", "crates/syntax/src/context/try_from_json.rs"), ("errors of expansion", "crates/expansion/src/error.rs")],
 "property-based testing with fault injection: a mistake put into a generated valid document, the error code compared with that of a reference model",
 "Random search over documents with one mistake. Documents accepted by one side are the matter of P01.", ["JsonLdProcessor::expand"])

prop("P05", "Compaction gives the result the specification defines",
 "Compacting an expanded document with a context gives exactly the compacted document that the JSON-LD 1.1 compaction algorithm defines, for every setting of array compaction and relative IRIs. The context given is embedded unchanged in the result.",
 ["inputs", "configurations"], "every expanded document, every compaction context, both settings of array compaction and of IRI relativization",
 W3C,
 ["crates/compaction/src/lib.rs", "crates/compaction/src/iri.rs", "crates/compaction/src/node.rs", "crates/compaction/src/property.rs", "crates/compaction/src/value.rs", "crates/compaction/src/document.rs", "crates/core/src/context/inverse.rs"],
 [("term selection with the inverse context", "crates/core/src/context/inverse.rs"), ("IRI compaction", "crates/compaction/src/iri.rs"), ("node, property and value compaction", "crates/compaction/src")],
 "property-based testing: generated documents and contexts against a reference model of the compaction algorithm",
 MODELNOTE, ["JsonLdProcessor::compact"])

prop("P06", "Compaction loses nothing",
 "Expanding a compacted document gives back the expanded document it was compacted from, for every compaction context under which the compaction algorithm is lossless. In particular no value, language, direction, type, index, identifier, graph or list order is dropped or changed by compaction.",
 ["inputs", "configurations"], "every expanded document and compaction context, both settings of array compaction and of IRI relativization",
 "A lossy case needs a particular combination of term definitions and values (a container that looks suitable, a default language, a prefix that clashes); a sample of documents does not contain them.",
 ["crates/compaction/src/lib.rs", "crates/compaction/src/iri.rs", "crates/compaction/src/property.rs", "crates/compaction/src/value.rs", "crates/core/src/context/inverse.rs"],
 [("term selection", "crates/core/src/context/inverse.rs"), ("value compaction", "crates/compaction/src/value.rs"), ("property and container compaction", "crates/compaction/src/property.rs")],
 "property-based testing: round trip expand(compact(x)) = x over generated documents and contexts",
 "Random search. Documents that the specified compaction algorithm itself loses (as the reference model tells) are left out.", ["JsonLdProcessor::compact", "JsonLdProcessor::expand"])

prop("P07", "Flattening merges all that is said of a node, and loses nothing",
 "Flattening a document gives the node objects that the JSON-LD flattening algorithm defines: one object per node and graph, with all its types, properties and values, references instead of nested nodes, and blank nodes relabelled consistently. It fails exactly when a node has conflicting indexes, changes nothing but labels when applied twice, and with a context gives the compacted form of the flattened document.",
 ["inputs"], "every document, whatever the number of places where a node is described, and every nesting of graphs, lists, reverse and included nodes",
 "What matters are nodes described in several places with parts of what is said of them here and there; the number of ways to distribute them is unbounded.",
 ["crates/core/src/flattening/mod.rs", "crates/core/src/flattening/node_map.rs", "crates/core/src/flattening/environment.rs", "crates/core/src/object/node/properties.rs"],
 [("node map generation", "crates/core/src/flattening/node_map.rs"), ("blank node relabelling", "crates/core/src/flattening/environment.rs")],
 "property-based testing: generated documents against a reference model of node map generation, up to blank node isomorphism; idempotence; commutation with compaction",
 "Random search, compared modulo the order of entries and the labels of blank nodes. The index of a list, which the specification drops, may be kept.", ["JsonLdProcessor::flatten", "ExpandedDocument::flatten"])

prop("P08", "RDF serialization gives the dataset the specification defines",
 "Serializing a document to RDF gives exactly the quads that the JSON-LD deserialization algorithm defines: datatypes and canonical lexical forms, language tags, directions in the chosen representation, lists, JSON literals, types, named graphs. Nothing that has no RDF form is serialized, and nothing that has one is left out.",
 ["inputs", "configurations"], "every document, each direction mode, plain and generalized RDF",
 "Literal conversion, lists and graph scoping are defined for all values and nestings, and the test-suite documents exercise a handful.",
 ["crates/core/src/rdf/mod.rs", "crates/core/src/rdf/quad.rs", "crates/core/src/quad.rs", "src/processor/mod.rs"],
 [("literal and list conversion", "crates/core/src/rdf/mod.rs"), ("quads of a document", "crates/core/src/quad.rs")],
 "property-based testing: generated documents against a reference model of the RDF deserialization algorithm, up to blank node isomorphism",
 "Random search. Doubles are in the canonical form of XML Schema; duplicate compound literals count as one.", ["JsonLdProcessor::to_rdf", "RdfQuads::rdf_quads"])

prop("P09", "All forms of a document describe the same RDF dataset",
 "The RDF dataset of a document is the same, up to blank node labels, whether it is computed from the document, from its expanded form, its node map, its flattened form or its compacted form.",
 ["inputs", "configurations"], "every document, compaction context and direction mode",
 "It relates the results of four algorithms over all documents; unit tests check each with its own expected output.",
 ["crates/core/src/quad.rs", "crates/core/src/rdf/quad.rs", "crates/core/src/flattening/node_map.rs", "crates/compaction/src/lib.rs"],
 [("quads of expanded, flattened documents and node maps", "crates/core/src/quad.rs"), ("node map", "crates/core/src/flattening/node_map.rs")],
 "property-based testing: metamorphic relation between the datasets of the forms of generated documents",
 "Random search; no model is involved, except to leave out documents that the specified compaction algorithm loses.", ["JsonLdProcessor::to_rdf", "JsonLdProcessor::flatten", "JsonLdProcessor::compact", "RdfQuads::rdf_quads"])

prop("P10", "Results do not depend on the order of object entries, nor on the run",
 "Two documents (and contexts) that differ only in the order of the entries of their JSON objects expand and compact to the same result, or are both rejected. With the ordered option the expanded document is the same up to the order of object entries, array order included, and processing the same input twice always gives the same result.",
 ["inputs", "schedules"], "every document and context, every order of the entries of every object, repeated runs with different hash seeds",
 "A test fixes one order of entries and one run; order dependence shows only for particular permutations and hash seeds.",
 ["crates/context-processing/src/algorithm/mod.rs", "crates/context-processing/src/algorithm/define.rs", "crates/expansion/src/node.rs", "crates/compaction/src/lib.rs", "crates/core/src/context/inverse.rs", "src/processor/mod.rs"],
 [("ordered entries", "crates/expansion/src/node.rs"), ("definition order of terms", "crates/context-processing/src/algorithm/define.rs"), ("choice of terms", "crates/core/src/context/inverse.rs")],
 "property-based testing: metamorphic relation under permutation of the entries, and repetition",
 "Random search over documents and permutations. Documents whose meaning the specification leaves to the order of entries are left out.", ["JsonLdProcessor::expand", "JsonLdProcessor::compact"])

prop("P11", "Expanded documents are fixed points",
 "An expanded document contains no context, expanding it again gives the same document, and so does reading its JSON form directly as an expanded document.",
 ["inputs"], "every document that expands",
 "The relation is about every expanded document; tests compare a few with an expected text.",
 ["crates/expansion/src/element.rs", "crates/core/src/document/expanded.rs", "crates/core/src/object/mod.rs", "crates/core/src/object/value.rs", "crates/core/src/object/node/mod.rs"],
 [("conversion from JSON", "crates/core/src/object"), ("expansion", "crates/expansion/src")],
 "property-based testing: idempotence of expansion and JSON round trip over generated documents",
 "Random search. Documents with relative or malformed IRIs, or values directly in a graph, are not expanded again.", ["ExpandedDocument::try_from_json_in", "JsonLdProcessor::expand"])

prop("P12", "Results do not depend on the representation of identifiers",
 "Expanding, compacting or flattening with IRIs and blank node identifiers interned in a vocabulary gives the same document as with plain strings, whatever the vocabulary already contains.",
 ["inputs", "configurations"], "every document and context, any content of the vocabulary",
 "Every algorithm is generic in the representation of identifiers; tests run one representation on fixed documents.",
 ["crates/core/src/id.rs", "crates/expansion/src/node.rs", "crates/compaction/src/iri.rs", "crates/context-processing/src/algorithm/iri.rs", "crates/core/src/flattening/mod.rs"],
 [("identifiers", "crates/core/src/id.rs"), ("vocabularies", "crates/core/src/term.rs")],
 "property-based testing: differential between identifier representations over generated documents",
 "Random search over documents; two representations, one shared vocabulary across the operations.", ["JsonLdProcessor::expand", "JsonLdProcessor::compact", "JsonLdProcessor::flatten"])

prop("P13", "Documents are equal exactly when their contents are",
 "Two expanded documents, or two objects, are equal exactly when they have the same contents, in whatever order what is unordered (entries, properties, values, types, included and graph nodes) was added; lists, and only lists, are ordered. Equal objects have equal hashes, so they find each other in sets and maps, and equality is symmetric. Equality up to a renaming of blank nodes is equality with the renamed object.",
 ["inputs"], "every pair of expanded documents, equal or different in one place",
 "Equality of nested unordered collections with duplicates is a matching problem, and equality and hashing are separate code that has to agree on all values.",
 ["crates/core/src/object/mod.rs", "crates/core/src/object/mapped_eq.rs", "crates/core/src/object/node/mod.rs", "crates/core/src/object/node/multiset.rs", "crates/core/src/object/node/properties.rs", "crates/core/src/object/node/reverse_properties.rs", "crates/core/src/utils/hash.rs", "crates/core/src/utils/comparison.rs"],
 [("equality of objects", "crates/core/src/object/mapped_eq.rs"), ("unordered hashes", "crates/core/src/utils/hash.rs"), ("comparison of multisets", "crates/core/src/object/node/multiset.rs")],
 "property-based testing: equality and hash of generated pairs of documents against their canonical JSON forms",
 "Random search; the second document is a shuffled copy of the first, with zero to two changes. The order of the entries in JSON literals is not judged.", ["ExpandedDocument::eq", "Object::hash", "Object::equivalent", "MappedEq::mapped_eq"])

prop("P14", "Renaming and canonicalizing a document changes that, and nothing else",
 "Renaming the identifiers of a document gives the document in which every occurrence, and nothing else, is renamed. Relabelling blank nodes gives each of them one fresh label throughout the document, identifying gives each anonymous node its own, and canonicalizing rewrites numbers and JSON literals to their canonical form without changing their value, once and for all.",
 ["inputs"], "every expanded document and renaming, injective or not",
 "Identifiers occur as subjects, types, properties, reverse properties, datatypes and references at any depth; one forgotten place shows only in documents that use it.",
 ["crates/core/src/object/mod.rs", "crates/core/src/object/node/mod.rs", "crates/core/src/object/value.rs", "crates/core/src/object/list.rs", "crates/core/src/document/expanded.rs"],
 [("renaming and relabelling of nodes", "crates/core/src/object/node/mod.rs"), ("canonical literals", "crates/core/src/object/value.rs")],
 "property-based testing: generated documents and renamings against the renaming of their JSON form, and a reference canonical form of numbers and JSON",
 "Random search. Documents are read from their expanded JSON form.", ["ExpandedDocument::map_ids", "ExpandedDocument::relabel", "ExpandedDocument::canonicalize", "ExpandedDocument::identify_all"])

prop("P15", "Editing documents, node maps and contexts behaves as on plain collections",
 "After any sequence of insertions, removals, replacements and merges, properties, reverse properties, node maps, nodes, tagged strings, contexts and documents contain exactly what was put in and not taken out, without duplicates where they are sets. What is derived from a context is that of its current definitions, whenever it was first asked for.",
 ["histories"], "every sequence of operations",
 "Multi-valued maps and cached derived data go wrong after particular sequences of operations, which unit tests do not enumerate.",
 ["crates/core/src/object/node/properties.rs", "crates/core/src/object/node/reverse_properties.rs", "crates/core/src/object/node/multiset.rs", "crates/core/src/flattening/node_map.rs", "crates/core/src/context/mod.rs", "crates/core/src/context/definition.rs", "crates/core/src/lang_string.rs", "crates/core/src/document/expanded.rs"],
 [("properties", "crates/core/src/object/node/properties.rs"), ("node maps", "crates/core/src/flattening/node_map.rs"), ("context and its inverse", "crates/core/src/context/mod.rs")],
 "model-based property testing: random operation sequences against maps, lists and sets",
 "Random search over short sequences on small sets of keys and values.", ["Properties::insert", "NodeMap::merge_with", "Context::set", "Context::inverse"])

prop("P16", "Contexts are read, written, printed and traversed faithfully",
 "A local context read from JSON and written back, printed, serialized or deserialized has the entries of the JSON it was read from, neither more nor less, and reading the result gives an equal context. Its iterators, accessors and counts tell exactly these entries, and traversing it visits every array, object, entry and key of it.",
 ["inputs"], "every local context that is accepted",
 "A context definition has over twenty kinds of entries, each with its own code to read, write, print, compare and iterate; null and absent entries differ.",
 ["crates/syntax/src/context/mod.rs", "crates/syntax/src/context/try_from_json.rs", "crates/syntax/src/into_json.rs", "crates/syntax/src/context/print.rs", "crates/syntax/src/context/definition/mod.rs", "crates/syntax/src/context/definition/reference.rs", "crates/syntax/src/context/definition/type_.rs", "crates/syntax/src/context/term_definition/mod.rs", "crates/syntax/src/nullable.rs"],
 [("reading contexts", "crates/syntax/src/context/try_from_json.rs"), ("printing contexts", "crates/syntax/src/context/print.rs"), ("term definitions", "crates/syntax/src/context/term_definition/mod.rs")],
 "property-based testing: round trips of generated contexts through JSON, text and serialization, against the JSON they were read from",
 "Random search. The order of the entries is not kept and not judged; repeated keys are not generated.", ["Context::try_from_json", "Context::into_json", "Context::traverse", "Definition::iter"])

prop("P19", "Every operation ends with a result or an error, whatever the input",
 "Expanding, compacting, flattening, comparing and serializing any JSON value, with any JSON value as context, remote documents and options, gives a result or an error: it never panics, and never loops.",
 ["inputs", "configurations"], "every JSON input, well-formed JSON-LD or not, within a bound on nesting",
 "Panics hide behind combinations of malformed parts that no test contains; the claim is about all inputs.",
 ["crates/syntax/src/context/try_from_json.rs", "crates/context-processing/src/algorithm/mod.rs", "crates/expansion/src/node.rs", "crates/compaction/src/property.rs", "crates/core/src/object/mod.rs", "crates/core/src/rdf/mod.rs", "src/processor/mod.rs"],
 [("documents and contexts read from JSON", "crates/syntax/src/context/try_from_json.rs"), ("the processor", "src/processor/mod.rs")],
 "fuzzing with structured generation and random damage; the oracle is the absence of panics and time-outs",
 "Random search; nesting is bounded to some tens of levels, since all algorithms are recursive.", ["JsonLdProcessor"])

prop("P20", "What is read from a document through its interface is what the document says",
 "Traversing a document visits every object, node, value, list, identifier, key and literal of it, each exactly once; iterating over the entries of a node or a value gives exactly the entries of its JSON form; and accessors, counts, the main node and the printed text agree with the JSON form.",
 ["inputs"], "every expanded document",
 "The traversal has a case for each kind of entry of each kind of object, and what it misses is missed silently.",
 ["crates/core/src/object/mod.rs", "crates/core/src/object/node/mod.rs", "crates/core/src/object/value.rs", "crates/core/src/object/list.rs", "crates/core/src/document/expanded.rs", "crates/core/src/indexed.rs"],
 [("traversal of objects", "crates/core/src/object/mod.rs"), ("entries of nodes", "crates/core/src/object/node/mod.rs"), ("entries of values", "crates/core/src/object/value.rs")],
 "property-based testing: traversals, entries and accessors of generated documents against their JSON form",
 "Random search. Documents are read from their expanded JSON form; nothing is said of the order of traversals.", ["ExpandedDocument::traverse", "Node::entries", "Value::entries"])

prop("P21", "Documents compare equal iff they differ in order only, with the same meaning",
 "Comparing two documents tells that they are the same exactly when their contents are the same up to the order of object entries and array elements, and they expand to the same document. Comparing is symmetric and reflexive, and fails exactly when documents with the same contents do not expand. The comparison of expanded JSON values (simple_json_ld_eq) ignores every order but that of the elements of @list arrays.",
 ["inputs"], "every pair of JSON documents",
 "Comparison without order is a matching problem over nested collections with repetitions; a wrong matching shows only with particular repetitions.",
 ["crates/syntax/src/compare.rs", "crates/core/src/utils/comparison.rs", "src/processor/remote_document.rs", "src/processor/mod.rs"],
 [("comparison of JSON values", "crates/syntax/src/compare.rs"), ("comparison of documents", "src/processor/remote_document.rs")],
 "property-based testing: comparison of generated pairs of documents against their sorted forms and their expansions",
 "Random search; the second document is a shuffled copy of the first, with zero to two changes. The order of the entries in JSON literals is not judged.", ["JsonLdProcessor::compare", "Compare::compare", "simple_json_ld_eq"])

prop("P17", "Words and containers are recognized, kept and compared as what they are",
 "A string is recognized as a keyword, a keyword-like string, an IRI, a blank node identifier, a compact IRI, a direction, a container or a language tag exactly when it has that form, by all the types that hold one, and is given back as it was. Language tags are equal, ordered and hashed regardless of case, identifiers by what they identify; and exactly the combinations of container kinds that the specification allows exist, in whatever order they are given.",
 ["inputs"], "every string, and every sequence of container kinds",
 "The same words are classified in many types, written by hand; the tests use a few well-formed ones.",
 ["crates/syntax/src/keyword.rs", "crates/syntax/src/compact_iri.rs", "crates/syntax/src/lang.rs", "crates/syntax/src/utils.rs", "crates/syntax/src/container.rs", "crates/syntax/src/direction.rs", "crates/syntax/src/context/term_definition/id.rs", "crates/syntax/src/context/term_definition/type_.rs", "crates/syntax/src/context/term_definition/nest.rs", "crates/core/src/container.rs", "crates/core/src/id.rs", "crates/core/src/term.rs", "crates/core/src/ty.rs", "crates/core/src/mode.rs"],
 [("keywords", "crates/syntax/src/keyword.rs"), ("containers", "crates/core/src/container.rs"), ("language tags", "crates/syntax/src/lang.rs"), ("identifiers", "crates/core/src/id.rs")],
 "property-based testing: generated strings, pairs, triples and sequences against direct definitions, and the laws of equality, order and hash",
 "Random search. What an IRI reference and a well-formed language tag is, is decided by the libraries the project depends on.", ["Keyword::try_from", "is_keyword_like", "Container::with", "LenientLangTag::eq", "Id::from_string"])

prop("P18", "Loaders give the document of the URL they are asked for, and only that",
 "A loader gives the document registered for the URL, with its metadata, or an error about that URL: a directory mounted on a URL gives the files below it and none outside, a chain asks the next loader only when the previous ones fail, and an already loaded document is used as it is. Mapping, renaming and reading a loaded document keep the rest of it; and a remote context is exactly the single context entry of the loaded object, or the specified error.",
 ["inputs", "configurations"], "every URL, set of mounted directories, chain of loaders and remote document",
 "Which file a URL denotes depends on prefixes, dot segments, encodings and the order of the mounts; a mistake gives another document, or one outside the directory.",
 ["crates/core/src/loader/mod.rs", "crates/core/src/loader/fs.rs", "crates/core/src/loader/chain.rs", "crates/core/src/loader/map.rs", "crates/core/src/loader/none.rs"],
 [("remote documents and references", "crates/core/src/loader/mod.rs"), ("mounted directories", "crates/core/src/loader/fs.rs"), ("chains of loaders", "crates/core/src/loader/chain.rs")],
 "property-based testing: generated directories, maps, chains and URLs against a reference resolution of URLs to documents",
 "Random search on scratch directories. URLs are taken as equal when the IRI library takes them for equal.", ["FsLoader::filepath", "Loader::load", "Loader::load_with", "RemoteDocumentReference::load_with", "ExtractContext::into_ld_context"])

prop("P22", "All ways to call an operation, and to give a document, have the same result",
 "The variants of an operation give the same result for the same document and options, whether the document and the contexts are given by URL or already loaded, and the variants without options behave as with the default ones. A document that comes with the URL of a context is expanded as the specification says, with its final URL as base; and what goes wrong with a document or context given by URL is reported with the specified error code.",
 ["inputs", "configurations"], "every document, set of options, and way to call the operations",
 "There are some forty entry points, each passing on half a dozen parameters by hand; tests call one or two of them.",
 ["src/processor/mod.rs", "src/processor/remote_document.rs", "crates/core/src/document/mod.rs", "crates/core/src/loader/mod.rs"],
 [("entry points", "src/processor/mod.rs"), ("operations on remote documents", "src/processor/remote_document.rs"), ("documents with their expansion", "crates/core/src/document/mod.rs")],
 "differential property-based testing: generated documents through all the variants, compared with each other and, for contexts given apart, with the reference model",
 "Random search. When the order is not asked for, results are compared up to order and labels. A compaction context given by URL is taken as its content.", ["JsonLdProcessor::expand", "JsonLdProcessor::compact", "JsonLdProcessor::flatten", "JsonLdProcessor::to_rdf", "JsonLdProcessor::compare", "JsonLdProcessor::into_document"])

prop("P23", "The HTTP loader gives the document the exchange with the server stands for",
 "The HTTP loader gives the JSON document the server finally answers with, its media type, profile and final URL, the context of its Link header if it is not JSON-LD, and follows alternate links to JSON-LD a limited number of times; it asks for JSON-LD, JSON and the requested profiles. Any other answer (status, media type, several contexts, ill-formed document, too many links) is the corresponding error, whatever the form of the headers.",
 ["inputs", "configurations", "fault_sequences"], "every server (statuses, headers, bodies, redirections), requested profiles and limit",
 "Servers write their headers in many forms, and fail in many ways; no test of the repository loads anything over HTTP.",
 ["crates/core/src/loader/reqwest/mod.rs", "crates/core/src/loader/reqwest/link.rs", "crates/core/src/loader/reqwest/content_type.rs"],
 [("loading over HTTP", "crates/core/src/loader/reqwest/mod.rs"), ("Link headers", "crates/core/src/loader/reqwest/link.rs"), ("media types and profiles", "crates/core/src/loader/reqwest/content_type.rs")],
 "property-based testing: generated servers, answering through a middleware of the HTTP client, against a reference of the LoadDocumentCallback of the JSON-LD API on the structure the headers were written from",
 "Random search. Connections and HTTP redirections themselves (the HTTP client) are replaced.", ["ReqwestLoader::load", "ReqwestLoader::new_using", "Options::request_profile", "Options::max_redirections"])

prop("P24", "Documents read from an RDF dataset stand for that dataset",
 "The document read from any RDF dataset stands for the same dataset, up to the labels of blank nodes and the lexical forms that JSON cannot hold: no node, literal, language, type or graph is lost, merged or invented. The well-formed lists, and only them, are list objects with the same items; ill-formed booleans, numbers and JSON literals are refused.",
 ["inputs"], "every RDF dataset, with blank nodes in any position, and every way to give it (quads, dataset, vocabulary)",
 "Whether blank nodes can become list objects or be embedded depends on all the occurrences of each node in all the graphs; the tests of the repository read small trees.",
 ["crates/core/src/serialization.rs", "crates/core/src/document/expanded.rs"],
 [("documents from datasets", "crates/core/src/serialization.rs")],
 "property-based testing: round trip of generated datasets through the document and the reference RDF serialization, up to isomorphism, and a direct search of the well-formed lists",
 "Random search. Whether the type rdf:List of a list is kept is not judged.", ["ExpandedDocument::from_interpreted_quads", "LinkedDataDeserialize::deserialize_dataset"])

prop("P25", "Documents visited as Linked Data describe their RDF dataset",
 "Visiting an expanded document, or each of its objects, as Linked Data gives the dataset of its RDF serialization: the same nodes, lists, graphs, reverse and included nodes, and literals with the same value and datatype. This holds for documents whose identifiers, types and language tags are well-formed and whose properties are not blank nodes.",
 ["inputs"], "every expanded document with well-formed identifiers",
 "Visitors see graphs, lists, values and included nodes through different traits, each written by hand; no test of the repository visits a document.",
 ["crates/core/src/deserialization/mod.rs", "crates/core/src/deserialization/object/mod.rs", "crates/core/src/deserialization/object/node.rs", "crates/core/src/deserialization/object/value.rs", "crates/core/src/deserialization/object/list.rs", "crates/core/src/rdf/mod.rs"],
 [("documents", "crates/core/src/deserialization/mod.rs"), ("nodes", "crates/core/src/deserialization/object/node.rs"), ("values", "crates/core/src/deserialization/object/value.rs"), ("lists", "crates/core/src/deserialization/object/list.rs")],
 "differential property-based testing: the quads visited in generated documents against the reference RDF serialization, up to isomorphism",
 "Random search. Numbers and booleans are compared by value.", ["LinkedData::visit", "LinkedDataSubject::visit_subject", "LinkedDataGraph::visit_graph"])

prop("P26", "Linked Data values serialized as JSON-LD stand for what they describe",
 "The document serialized from any Linked Data value stands for the dataset that the value describes: each visited node, property, reverse property, included node and graph, however many times and in whatever order they are visited, and each literal (typed XML Schema integers and decimals being JSON numbers). Anonymous nodes that are nothing but a list ended by rdf:nil, and only them, become list objects; literals as predicates, graph names or nodes are refused.",
 ["inputs", "histories"], "every value, as a sequence of visits, and every vocabulary",
 "A value may visit the same predicate or graph several times, and put anything after, before or inside a list; the crate has no test.",
 ["crates/serialization/src/lib.rs", "crates/serialization/src/expanded/mod.rs", "crates/serialization/src/expanded/node.rs", "crates/serialization/src/expanded/object.rs", "crates/serialization/src/expanded/graph.rs", "crates/serialization/src/expanded/property.rs", "crates/serialization/src/expanded/value.rs", "crates/serialization/src/expanded/default_graph.rs"],
 [("nodes", "crates/serialization/src/expanded/node.rs"), ("objects and lists", "crates/serialization/src/expanded/object.rs"), ("literals", "crates/serialization/src/expanded/value.rs"), ("graphs", "crates/serialization/src/expanded/graph.rs")],
 "property-based testing: generated sequences of visits, serialized and turned back into a dataset by the reference RDF serialization, against the facts of the visits, up to isomorphism",
 "Random search. Members of a set (documents, graphs, included blocks) that are equal and anonymous are one node in the result: values with such members are skipped.", ["serialize", "serialize_with", "serialize_object", "serialize_node"])

prop("P27", "Expansion policies leave out, or refuse, exactly what they say",
 "With an expansion policy, a document that expands gives its expansion without the properties and types that need the vocabulary mapping, or that are invalid, when they are to be dropped; it is refused exactly when it has such a property or type, or an undefined property, and they are to be rejected. Everything else in the document expands as it does without the policy, and is never a reason to refuse it.",
 ["inputs", "configurations"], "every document and policy",
 "Keys are expanded several times, in several contexts, to find keywords, indexes and languages as well as properties; the tests of the repository use the default policy only.",
 ["crates/expansion/src/options.rs", "crates/expansion/src/element.rs", "crates/expansion/src/node.rs", "crates/expansion/src/value.rs", "crates/expansion/src/literal.rs", "crates/context-processing/src/algorithm/iri.rs"],
 [("policies", "crates/expansion/src/options.rs"), ("expansion of terms", "crates/context-processing/src/algorithm/iri.rs"), ("expansion of entries", "crates/expansion/src/node.rs")],
 "property-based testing: generated documents and policies against the reference model of P01 extended with what is dropped, and what is refused",
 "Random search. Terms that need the vocabulary mapping used as datatypes, as vocabulary-typed values or as index properties are not compared when they are dropped.", ["Options::expansion_policy", "JsonLdProcessor::expand_using"])
