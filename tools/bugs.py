# The planted bugs: see tools/seed.py. Edits are (file, old text, new text) on the current tree.
BUGS = []


def bug(id, property, needs, breaks, edits, cases=(), **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=breaks, edits=edits, cases=list(cases), **kw))


E = "crates/expansion/src/"
C = "crates/compaction/src/"
K = "crates/core/src/"
P = "crates/context-processing/src/algorithm/"
EX = "http://ex.org/"

bug("exp-null-direction", "P01",
    "a term whose definition has a null direction, in a context with a default base direction, used with a plain string",
    "a null direction of a term no longer clears the default base direction when its strings are expanded",
    [(E + "literal.rs", "direction.option()\n", "direction.option().or(active_context.default_base_direction())\n")],
    [dict(op="expand", document={"@context": {"@direction": "rtl", "p": {"@id": EX + "p", "@direction": None}, "q": EX + "q"}, "p": "a", "q": "b"})])

bug("exp-type-scope-order", "P01",
    "a node with two types, both with scoped contexts, where the first redefines the second as a term with another context",
    "the scoped context of a type is looked up in the context made by the types before it, in place of the type-scoped context",
    [(E + "element.rs", "if let Some(term_definition) = type_scoped_context.get(term) {\n\t\t\t\t\t\tif let Some(local_context) = term_definition.context() {",
      "let term_definition = active_context.get(term).map(|d| (d.context().cloned(), d.base_url().cloned()));\n\t\t\t\t\tif let Some((local_context, base_url)) = term_definition {\n\t\t\t\t\t\tif let Some(local_context) = local_context {"),
     (E + "element.rs", "\t\t\t\t\t\t\tlet base_url = term_definition.base_url().cloned();\n\t\t\t\t\t\t\tlet options: ProcessingOptions = options.into();\n", "\t\t\t\t\t\t\tlet options: ProcessingOptions = options.into();\n")],
    [dict(op="expand", document={"@context": {"@vocab": EX, "A": {"@id": EX + "A", "@context": {"B": {"@id": EX + "B", "@context": {"p": EX + "fromA"}}}}, "B": {"@id": EX + "B", "@context": {"p": EX + "fromTop"}}}, "@type": ["A", "B"], "p": 1})])

bug("exp-map-previous", "P01",
    "an @id map inside a node whose type has a (non propagated) scoped context",
    "the entries of @id maps are expanded with the type-scoped context of the node around the map",
    [(E + "node.rs", "let mut map_context = Mown::Borrowed(active_context);\n\t\t\t\t\t\t\t\tif container_mapping.contains(ContainerKind::Type)\n\t\t\t\t\t\t\t\t\t|| container_mapping.contains(ContainerKind::Id)\n",
      "let mut map_context = Mown::Borrowed(active_context);\n\t\t\t\t\t\t\t\tif container_mapping.contains(ContainerKind::Type)\n")],
    [dict(op="expand", document={"@context": {"@vocab": EX, "T": {"@context": {"q": EX + "scoped"}}, "m": {"@container": "@id"}}, "@type": "T", "m": {EX + "x": {"q": 1}}})])

bug("exp-json-type-list", "P01",
    "a term of a @graph container without @set that has an index container as well, used with an array that contains a graph object",
    "values of an @graph @index container that are already graph objects are wrapped again",
    [(E + "node.rs", "if container_mapping.contains(ContainerKind::Graph)\n\t\t\t\t\t\t\t\t\t\t&& !item.is_graph()",
      "if container_mapping.contains(ContainerKind::Graph)\n\t\t\t\t\t\t\t\t\t\t&& !(item.is_graph() && item.id().is_none())")],
    [dict(op="expand", document={"@context": {"@vocab": EX, "m": {"@container": ["@graph", "@index"]}}, "m": {"i": {"@id": EX + "g", "@graph": [{"q": 1}]}}}),
     dict(op="expand", document={"@context": {"@vocab": EX, "m": {"@container": ["@graph", "@index"]}}, "m": {"i": {"@graph": [{"q": 1}]}}})])

bug("cmp-graph-index", "P06",
    "an indexed graph object compacted with a term that has an index container (without @graph)",
    "an index container is chosen for an indexed graph ahead of graph containers",
    [(C + "iri.rs", "if value.index().is_some() && !value.is_graph() {", "if value.index().is_some() && !value.is_list() {")],
    [dict(op="compact", document=[{EX + "p": [{"@graph": [{"@id": EX + "a", EX + "q": [{"@value": 1}]}], "@index": "i"}]}],
          context={"i": {"@id": EX + "p", "@container": "@index"}, "gi": {"@id": EX + "p", "@container": ["@graph", "@index"]}})], also=["P05"])

bug("cmp-inverse-null-dir", "P05",
    "two terms for a property, one with a null direction, in a context with a default direction, and a value without direction",
    "a term with a null direction (and no language) is filed as if it had a null language and direction",
    [(K + "context/inverse.rs", "lang_map.set(Nullable::Some((None, None)), term)\n\t\t\t\t\t\t\t\t\t\t\t}", "lang_map.set(Nullable::Null, term)\n\t\t\t\t\t\t\t\t\t\t\t}")],
    [dict(op="compact", document=[{EX + "p": [{"@value": "a"}, {"@value": "b", "@language": "en"}, {"@value": 5}]}],
          context={"@direction": "ltr", "x": {"@id": EX + "p", "@direction": None}, "y": {"@id": EX + "p", "@language": "fr"}})])

bug("cmp-select-lang-first", "P05",
    "two terms whose names have the same length, for the same property, container and language",
    "terms of equal length are ordered by name backwards when the inverse context is made",
    [(K + "context/inverse.rs", "\t\t\tif ord == Ordering::Equal {\n\t\t\t\ta.cmp(b)", "\t\t\tif ord == Ordering::Equal {\n\t\t\t\tb.cmp(a)")],
    [dict(op="compact", document=[{EX + "p": [{"@value": "a"}]}], context={"x": EX + "p", "y": EX + "p"})])

bug("cmp-candidate-def", "P05",
    "a compact IRI that is also a term for the same IRI whose definition was not selected because of the value",
    "a compact IRI that collides with a term is used for a property even when a value is given",
    [(C + "iri.rs", "\t\t\t\t\t\t\t\t\t&& value.is_none()))", "\t\t\t\t\t\t\t\t\t&& (value.is_none() || !reverse)))")],
    [dict(op="compact", document=[{EX + "p": [{"@value": "a"}]}], context={"ex": EX, "ex:p": {"@id": EX + "p", "@type": "@id"}})])

bug("flat-reverse-dup", "P07",
    "a node with a reverse property whose subject also states the property forward",
    "a reversed property adds a second reference to the subject even when it is there already",
    [(K + "flattening/node_map.rs", "flat_subject.properties_mut().insert_unique(\n", "flat_subject.properties_mut().insert(\n")],
    [dict(op="flatten", document=[{"@id": EX + "a", "@reverse": {EX + "p": [{"@id": EX + "b", EX + "p": [{"@id": EX + "a"}]}]}}])])

bug("flat-included-graph", "P07",
    "an @included block in a node of a named graph",
    "included nodes of a named graph are described in the default graph",
    [(K + "flattening/node_map.rs", "extend_node_map_from_node(env, node_map, inode.inner(), inode.index(), active_graph)?;", "let included_graph = active_graph.filter(|g| g.is_blank());\n\t\t\textend_node_map_from_node(env, node_map, inode.inner(), inode.index(), included_graph)?;")],
    [dict(op="flatten", document=[{"@id": EX + "g", "@graph": [{"@id": EX + "a", "@included": [{"@id": EX + "b", EX + "p": [{"@value": 1}]}]}]}])], also=["P09"])

bug("rdf-illformed-lang", "P08",
    "a string with an ill-formed language tag and a direction, in a direction mode",
    "a string with an ill-formed language tag is serialized as if it had no language",
    [(K + "rdf/mod.rs", "\t\t\t\t\t\tNone => return None,\n\t\t\t\t\t},\n\t\t\t\t\tNone => None,", "\t\t\t\t\t\tNone if direction.is_none() => return None,\n\t\t\t\t\t\tNone => None,\n\t\t\t\t\t},\n\t\t\t\t\tNone => None,")],
    [dict(op="rdf", rdfDirection="i18n-datatype", document=[{"@id": EX + "a", EX + "p": [{"@value": "x", "@language": "a b", "@direction": "rtl"}, {"@value": "x", "@language": "en", "@direction": "rtl"}]}])])

bug("rdf-reverse-nested-graph", "P09",
    "a named graph nested in a named graph",
    "the quads of reverse properties in a graph are put in the default graph when the object is a graph itself",
    [(K + "quad.rs", "self.stack.push(QuadsFrame::NodeReverseProperties(\n\t\t\t\t\tgraph,", "self.stack.push(QuadsFrame::NodeReverseProperties(\n\t\t\t\t\tif node.graph_entry().is_some() { None } else { graph },")],
    [dict(op="quads", document=[{"@id": EX + "g", "@graph": [{"@id": EX + "h", "@graph": [{"@id": EX + "i", EX + "q": [{"@id": EX + "j"}]}], "@reverse": {EX + "p": [{"@id": EX + "k"}]}}]}])], also=["P08"])

bug("order-types", "P10",
    "an object with two aliases of @type whose types have scoped contexts that define the same term",
    "type entries are taken in document order and not sorted by key, so that the result depends on the order of entries",
    [(E + "element.rs", "type_entries.sort_unstable_by_key(|entry| &entry.key);", "type_entries.sort_unstable_by_key(|entry| entry.key.len());")],
    [dict(op="expand", ordered=False, document='{"@context": {"@vocab": "http://ex.org/", "a": "@type", "b": "@type", "A": {"@context": {"p": "http://ex.org/a"}}, "B": {"@context": {"p": "http://ex.org/b"}}}, "b": "B", "a": "A", "p": 1}')], also=["P01"])

bug("ctx-null-base", "P02",
    "a null context after a context that sets @base",
    "a null context keeps the base IRI set by earlier contexts in place of the original base URL",
    [(P + "mod.rs", "result = Context::new(active_context.original_base_url().cloned());", "result = Context::new(active_context.base_iri().cloned());")],
    [dict(op="expand", document={"@context": {"@base": "http://base.org/x/"}, EX + "p": {"@context": [None, {"q": EX + "q"}], "q": {"@id": "n"}}})], also=["P01"])

bug("ctx-remote-override", "P02",
    "a property-scoped context that refers to a remote context that redefines a protected term",
    "the permission to override protected terms is handed down to the remote contexts of a property-scoped context",
    [(P + "mod.rs", "override_protected: false,\n\t\t\t\t\t\tpropagate: true,", "override_protected: options.override_protected,\n\t\t\t\t\t\tpropagate: true,")],
    [dict(op="expand", document={"@context": {"@protected": True, "a": EX + "a", "s": {"@id": EX + "s", "@context": "http://ex.org/dir/c.jsonld"}}, "s": {"a": 1}}, remote={"http://ex.org/dir/c.jsonld": {"@context": {"a": EX + "b"}}})], also=["P01"])

bug("ctx-type-set-id", "P02",
    "a term with the container [@type, @set] and no type mapping",
    "the type mapping of a term of a type map with @set is left undefined, in place of @id",
    [(P + "define.rs", "if definition.container.contains(ContainerKind::Type) {\n\t\t\t\t\t\t\tif let Some(typ) = &definition.typ {", "if definition.container == Container::Type {\n\t\t\t\t\t\t\tif let Some(typ) = &definition.typ {")],
    [dict(op="expand", document={"@context": {"@vocab": EX, "t": {"@id": EX + "t", "@container": ["@type", "@set"]}}, "t": {"T": "sub/x"}})], also=["P01"])

bug("ctx-unprotect", "P02",
    "a protected term defined again identically without @protected, then defined differently",
    "defining a protected term again in the same way removes its protection",
    [(P + "define.rs", "\t\t\t\t\t\t\t\tif definition.modulo_protected_field()\n\t\t\t\t\t\t\t\t\t!= previous_definition.modulo_protected_field()\n\t\t\t\t\t\t\t\t{\n\t\t\t\t\t\t\t\t\treturn Err(Error::ProtectedTermRedefinition);\n\t\t\t\t\t\t\t\t}\n\n\t\t\t\t\t\t\t\t// Set `definition` to `previous definition` to retain the value of\n\t\t\t\t\t\t\t\t// protected.\n\t\t\t\t\t\t\t\tdefinition.protected = true;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\t// Set the term",
      "\t\t\t\t\t\t\t\tif definition.modulo_protected_field()\n\t\t\t\t\t\t\t\t\t!= previous_definition.modulo_protected_field()\n\t\t\t\t\t\t\t\t{\n\t\t\t\t\t\t\t\t\treturn Err(Error::ProtectedTermRedefinition);\n\t\t\t\t\t\t\t\t}\n\n\t\t\t\t\t\t\t\t// The definition does not change.\n\t\t\t\t\t\t\t\tdefinition.protected |= options.override_protected;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\t// Set the term")],
    [dict(op="expand", document={"@context": [{"a": {"@id": EX + "a", "@protected": True}}, {"a": EX + "a"}, {"a": EX + "b"}], "a": 1})], also=["P01"])

bug("ctx-none-index", "P04",
    "the @index entry of a term without index container that expands to a keyword or to nothing",
    "the error code for the @index of a term in 1.0 mode or without index container is that of an invalid container mapping",
    [(P + "define.rs", "\t\t\t\t\t\t\t|| options.processing_mode == ProcessingMode::JsonLd1_0\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\treturn Err(Error::InvalidTermDefinition);\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\t// Initialize `index`",
      "\t\t\t\t\t\t\t|| options.processing_mode == ProcessingMode::JsonLd1_0\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\treturn Err(if definition.container.contains(ContainerKind::Set) { Error::InvalidContainerMapping } else { Error::InvalidTermDefinition });\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\t// Initialize `index`")],
    [dict(op="expand", document={"@context": {"a": {"@id": EX + "a", "@index": EX + "i", "@container": "@set"}}})])

bug("cmp-reverse-set", "P06",
    "a reverse property defined as a term with a @set container, in a node with two reverse properties, with array compaction",
    "the values of a reverse term with a @set container are not put in an array when there is one",
    [(C + "node.rs", "let as_array = term_definition.container().contains(ContainerKind::Set)\n\t\t\t\t\t\t\t|| !options.compact_arrays;", "let as_array = !options.compact_arrays && !term_definition.container().contains(ContainerKind::Set);")],
    [dict(op="compact", document=[{"@id": EX + "n", "@reverse": {EX + "r": [{"@id": EX + "m"}]}}], context={"rev": {"@reverse": EX + "r", "@container": "@set"}}, compactArrays=False)], also=["P05"])
BUGS[-1]["property"] = "P05"
BUGS[-1]["also"] = ["P06"]

bug("cmp-graph-id-none", "P05",
    "a named graph with an identifier that is a blank node or that is relative to the vocabulary, in a [@graph, @id] map",
    "the keys of graph maps are compacted relative to the vocabulary",
    [(C + "property.rs", "Some(entry) => (entry.clone().into_term(), false),\n\t\t\tNone => (Term::Keyword(Keyword::None), true),", "Some(entry) => (entry.clone().into_term(), container.contains(ContainerKind::Set)),\n\t\t\tNone => (Term::Keyword(Keyword::None), true),")],
    [dict(op="compact", document=[{EX + "p": [{"@id": "http://v.org/x", "@graph": [{EX + "q": [{"@value": 1}]}]}]}], context={"@vocab": "http://v.org/", "p": {"@id": EX + "p", "@container": ["@graph", "@id", "@set"]}})], also=["P06"])

bug("cmp-type-prev", "P05",
    "a node with two types of which the first has a scoped context that redefines the second",
    "the types of a node are compacted with the scoped contexts of the node in place of the context around it",
    [(C + "node.rs", "let compacted_ty =\n\t\t\t\t\t\tcompact_iri(vocabulary, type_scoped_context, &ty, true, false, options)?;", "let compacted_ty =\n\t\t\t\t\t\tcompact_iri(vocabulary, active_context, &ty, true, false, options)?;")],
    [dict(op="compact", document=[{"@type": [EX + "A", EX + "B"], EX + "p": [{"@value": 1}]}], context={"A": {"@id": EX + "A", "@context": {"C": EX + "B", "B": None}}, "B": EX + "B"})], also=["P06"])

bug("flat-index-late", "P07",
    "a node described twice, first without then with an index",
    "the index of a node is lost when it is not given at the first place where the node is described",
    [(K + "flattening/node_map.rs", "(None, Some(index)) => entry.set_index(Some(index.to_owned())),", "(None, Some(index)) if entry.properties().is_empty() => entry.set_index(Some(index.to_owned())),")],
    [dict(op="flatten", document=[{"@id": EX + "a", EX + "p": [{"@value": 1}]}, {"@id": EX + "a", "@index": "i", EX + "q": [{"@value": 1}]}])])

bug("flat-list-order", "P07",
    "a list with two items that are the same node object described with properties",
    "items of lists that are described as nodes are added once when they occur twice",
    [(K + "flattening/node_map.rs", "flat_list.push(extend_node_map(env, node_map, item, active_graph)?);", "let flat_item = extend_node_map(env, node_map, item, active_graph)?;\n\t\t\t\tif flat_item.as_node().is_none() || !flat_list.contains(&flat_item) || item == &list.as_slice()[0] {\n\t\t\t\t\tflat_list.push(flat_item);\n\t\t\t\t}")],
    [dict(op="flatten", document=[{"@id": EX + "s", EX + "p": [{"@list": [{"@value": 1}, {"@id": EX + "b"}, {"@id": EX + "b"}]}]}])], also=["P09"])

bug("flat-unordered-index", "P07",
    "a document flattened without order, with a node that has only an index",
    "nodes that have only an index are dropped from flattened documents when they occur at the top level",
    [(K + "flattening/mod.rs", "\tif node.index().is_none() && node.is_empty() {\n\t\tNone", "\tif node.is_empty() && node.index().map_or(true, |i| i.is_empty()) {\n\t\tNone")],
    [dict(op="flatten", document=[{"@id": EX + "s", "@index": ""}])])

bug("flat-types-relabel", "P12",
    "a blank node identifier used as a type and as a node",
    "blank node identifiers used as types are relabelled only when they have been seen before",
    [(K + "flattening/environment.rs", "Some(Id::Valid(ValidId::Blank(id))) => self.assign(id.clone()).into(),", "Some(Id::Valid(ValidId::Blank(id))) if self.map.len() < 6 || self.map.contains_key(id) => self.assign(id.clone()).into(),")],
    [dict(op="flatten", document=[{"@id": "_:x%d" % i, EX + "p": [{"@value": i}]} for i in range(9)])])
BUGS[-1]["property"] = "P07"
BUGS[-1]["needs"] = "a document with more than six blank nodes"
BUGS[-1]["what_it_breaks"] = "blank nodes beyond the sixth keep their labels, and may be confused with new labels"

S = "crates/syntax/src/"

bug("eq-multiset", "P13",
    "objects of a property in which different values occur several times",
    "values of properties, and types, are compared as sets when there are as many of them",
    [(K + "object/node/multiset.rs", """		let mut free_indexes = Vec::new();
		free_indexes.resize(a.len(), true);

		for item in a {
			match free_indexes
				.iter_mut()
				.enumerate()
				.find(|(i, free)| **free && item == &b[*i])
			{
				Some((_, free)) => *free = false,
				None => return false,
			}
		}

		true
""", "		a.iter().all(|item| b.iter().any(|other| item == other))\n")],
    [dict(op="eq", a=[{"@id": EX + "a", EX + "p": [{"@value": 1}, {"@value": 1}, {"@value": 2}]}], b=[{"@id": EX + "a", EX + "p": [{"@value": 1}, {"@value": 2}, {"@value": 2}]}])])

bug("eq-hash-types", "P13",
    "equal nodes whose types are in another order",
    "the hash of a node depends on the order of its types, while equality does not",
    [(K + "object/node/mod.rs", "utils::hash_set_opt(self.types.as_ref(), h);", "self.types.hash(h);")],
    [dict(op="eq", a=[{"@id": EX + "a", "@type": [EX + "T", EX + "U"]}], b=[{"@id": EX + "a", "@type": [EX + "U", EX + "T"]}])])

bug("map-graph-scope", "P14",
    "a blank node identifier that first occurs in a graph, then outside of it",
    "the labels given to the blank nodes of a graph are forgotten after the graph",
    [(K + "object/node/mod.rs", """		if let Some(graph) = self.graph_mut() {
			*graph = std::mem::take(graph)
				.into_iter()
				.map(|mut o| {
					o.relabel_with(vocabulary, generator, relabeling);
""", """		if let Some(graph) = self.graph_mut() {
			let relabeling = &mut relabeling.clone();
			*graph = std::mem::take(graph)
				.into_iter()
				.map(|mut o| {
					o.relabel_with(vocabulary, generator, relabeling);
""")],
    [dict(op="relabel", document=[{"@id": EX + "g", "@graph": [{"@id": "_:p", EX + "p": [{"@value": 1}]}], EX + "q": [{"@id": "_:p"}]}]),
     dict(op="relabel", document=[{"@id": "_:p", "@graph": [{"@id": "_:p", EX + "p": [{"@value": 1}]}], EX + "q": [{"@id": "_:p"}]}])])

bug("map-identify-reverse", "P14",
    "a reverse property with several nodes without identifier",
    "one node of each reverse property is identified only",
    [(K + "object/node/mod.rs", """				for node in nodes {
					node.identify_all_with(vocabulary, generator);
""", """				for node in nodes.iter_mut().take(1) {
					node.identify_all_with(vocabulary, generator);
""")],
    [dict(op="identify", document=[{"@id": EX + "g", "@reverse": {EX + "p": [{EX + "q": [{"@value": 1}]}, {EX + "q": [{"@value": 2}]}]}}])])

bug("edit-inverse-language", "P15",
    "a context whose default language is changed after terms have been looked up by value",
    "the inverse of a context is not computed again when its default language changes",
    [(K + "context/mod.rs", "	pub fn set_default_language(&mut self, lang: Option<LenientLangTagBuf>) {\n		self.inverse.take();\n", "	pub fn set_default_language(&mut self, lang: Option<LenientLangTagBuf>) {\n")],
    [dict(op="inverse")])

bug("edit-merge-index", "P15",
    "node maps merged where only the first has an index for a node",
    "merging a node without index removes the index of the node",
    [(K + "flattening/node_map.rs", "				if let Some(index) = index {\n					entry.set_index(Some(index))\n				}\n", "				entry.set_index(index)\n")],
    [dict(op="merge", graphs=[[{"@id": EX + "a", "@index": "i"}], [{"@id": EX + "a", EX + "p": [{"@value": 1}]}]])])

bug("edit-insert-unique", "P15",
    "equivalent values inserted at once for a property that has no value yet",
    "the first values inserted for a property are not compared with each other",
    [(K + "object/node/properties.rs", """			for value in values {
				if node_values.iter().all(|v| !v.equivalent(&value)) {
					node_values.insert(value)
				}
			}

			self.0.insert(prop, node_values);
""", """			node_values.extend(values);
			self.0.insert(prop, node_values);
""")],
    [dict(op="unique", values=[{"@value": 1}, {"@value": 2}, {"@value": 1}])])

bug("cmp-arrays", "P21",
    "documents whose arrays have the same elements, but not as many times, where they have no meaning",
    "arrays are compared as sets when they have the same length",
    [(S + "compare.rs", "							if !*selected && item.compare(other) {\n", "							if item.compare(other) {\n")],
    [dict(op="same", a={"undefined": [1, 1, 2]}, b={"undefined": [1, 2, 2]})])

bug("word-lang-length", "P17",
    "language tags in other cases, in a map keyed by them",
    "language tags that are equal in other cases are hashed with their case",
    [(S + "lang.rs", "		case_insensitive_hash(self.as_bytes(), state)\n", "		self.as_bytes().to_ascii_lowercase().len().hash(state);\n		self.0.hash(state)\n")],
    [dict(op="langs", tags=["en", "EN"])])

bug("fs-parent-query", "P18",
    "a chain of loaders in which the first one refuses a document that the second has under another URL",
    "the error of a chain of loaders names the URL of another loader",
    [(K + "loader/chain.rs", "			Err(LoadError { cause: e1, .. }) => match self.1.load(url).await {", "			Err(LoadError { target, cause: e1 }) => match self.1.load(&target).await {")],
    [dict(op="chain")])
BUGS.pop()

bug("trav-main-node", "P20",
    "a document with a node without identifier before the others",
    "see the code",
    [], [])
BUGS.pop()

bug("ser-one-reference", "P24",
    "a blank node that is referred to once, from another graph",
    "the nodes that only have types are references",
    [(K + "serialization.rs", "	if resource.is_empty() {\n		render_reference(vocabulary, interpretation, id, context)\n", "	if resource.properties.is_empty() && resource.graph.is_none() && resource.references == 1 && resource.types.is_empty() {\n		render_reference(vocabulary, interpretation, id, context)\n")],
    [dict(op="from", quads=[["_:a", EX + "p", "_:b"], ["_:b", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "x^^http://www.w3.org/2001/XMLSchema#string"]])])

bug("visit-included", "P25",
    "a node with included nodes in a named graph, or in the value of a property",
    "the nodes included by a node with types are not visited",
    [(K + "deserialization/object/node.rs", "		if let Some(included) = self.included() {\n", "		if let Some(included) = self.included().filter(|_| self.types().len() != 1) {\n")],
    [dict(op="visit", document=[{"@id": EX + "a", "@type": [EX + "T"], "@included": [{"@id": EX + "b", EX + "p": [{"@value": "1"}]}]}])])

bug("ld-type-objects", "P26",
    "a node with a type that is itself described where the type is given",
    "types described as nodes where they are given lose their description",
    [("crates/serialization/src/expanded/node.rs", "				if node.is_empty() && node.id.is_some() {\n", "				if node.id.is_some() && node.properties().is_empty() {\n")],
    [dict(op="serialize", document=[{"@id": EX + "a", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type": [{"@id": EX + "T", "@type": [EX + "U"]}]}])])
