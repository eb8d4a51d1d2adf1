From e139ac1ce9469505e53c5ac7210ed079118efe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 01/76] fix: serialize included nodes under @included

---
 crates/core/src/object/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a49dc38..5741335 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -1319,7 +1319,7 @@ impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for Node<
 
 		if let Some(included) = self.included {
 			obj.insert(
-				"@include".into(),
+				"@included".into(),
 				included.into_with(vocabulary).into_json(),
 			);
 		}
-- 
2.43.0


From ec8ba75803ac7d40d06a0980857a6f4f9ad5f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 02/76] fix: @graph+@set container extended with @index is
 @graph+@index+@set

---
 crates/core/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/container.rs b/crates/core/src/container.rs
index a604816..07b0fac 100644
--- a/crates/core/src/container.rs
+++ b/crates/core/src/container.rs
@@ -140,7 +140,7 @@ impl Container {
 			(Container::GraphSet, ContainerKind::Graph) => *self,
 			(Container::GraphSet, ContainerKind::Set) => *self,
 			(Container::GraphSet, ContainerKind::Id) => Container::GraphIdSet,
-			(Container::GraphSet, ContainerKind::Index) => Container::GraphIdSet,
+			(Container::GraphSet, ContainerKind::Index) => Container::GraphIndexSet,
 			(Container::GraphId, ContainerKind::Graph) => *self,
 			(Container::GraphId, ContainerKind::Id) => *self,
 			(Container::GraphId, ContainerKind::Set) => Container::GraphIdSet,
-- 
2.43.0


From 39a01e340057b55df30b131fcc92ade489098644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 03/76] fix: drop undefined and @context entries in value, list
 and set objects; honour ordered

---
 crates/expansion/src/element.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index a96e6ef..6f14fd4 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -2,6 +2,7 @@ use crate::{
 	expand_array, expand_iri, expand_literal, expand_node, expand_value, Error, Expanded,
 	GivenLiteralValue, LiteralValue, Loader, Options, Warning, WarningHandler,
 };
+use contextual::WithContext;
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
 use json_ld_core::{object, Context, Environment, Id, Indexed, Object, Term, ValidId};
 use json_ld_syntax::{Keyword, Nullable};
@@ -213,7 +214,9 @@ where
 			}
 
 			let entries: Cow<[Entry]> = if options.ordered {
-				Cow::Owned(element.entries().to_vec())
+				let mut entries = element.entries().to_vec();
+				entries.sort_by(|a, b| a.key.cmp(&b.key));
+				Cow::Owned(entries)
 			} else {
 				Cow::Borrowed(element.entries())
 			};
@@ -350,6 +353,26 @@ where
 				}
 			}
 
+			if list_entry.is_some() || set_entry.is_some() || value_entry.is_some() {
+				// Just like in node objects, `@context` is skipped and the
+				// entries that are neither keywords nor contain a colon (:)
+				// are dropped.
+				let mut kept_entries = Vec::with_capacity(expanded_entries.len());
+				for entry in expanded_entries {
+					match &entry.1 {
+						Term::Null | Term::Keyword(Keyword::Context) => (),
+						Term::Id(id) if !id.with(&*env.vocabulary).as_str().contains(':') => {
+							if options.policy.invalid.is_reject() || !options.policy.allow_undefined
+							{
+								return Err(Error::KeyExpansionFailed(entry.0.to_string()));
+							}
+						}
+						_ => kept_entries.push(entry),
+					}
+				}
+				expanded_entries = kept_entries;
+			}
+
 			if let Some(list_entry) = list_entry {
 				// List objects.
 				let mut index = None;
-- 
2.43.0


From ce5f83dd7a329c564c8b2b01e0faed5d6a4d767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 04/76] fix: the base option overrides the base IRI, not the
 original base URL

---
 src/processor/remote_document.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/processor/remote_document.rs b/src/processor/remote_document.rs
index 7fab4e7..a2c07da 100644
--- a/src/processor/remote_document.rs
+++ b/src/processor/remote_document.rs
@@ -54,7 +54,12 @@ impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 		I: Clone + Eq + Hash,
 		N::BlankId: Clone + Eq + Hash,
 	{
-		let mut active_context = Context::new(options.base.clone().or_else(|| self.url().cloned()));
+		// The original base URL is the document URL if any, or else the `base`
+		// option. The `base` option overrides the base IRI.
+		let mut active_context = Context::new(self.url().cloned().or_else(|| options.base.clone()));
+		if let Some(base) = &options.base {
+			active_context.set_base_iri(Some(base.clone()))
+		}
 
 		if let Some(expand_context) = options.expand_context.take() {
 			active_context = expand_context
-- 
2.43.0


From 3c7e10bf05ec6a56df921a2efee1cca01158f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 05/76] fix: expand @reverse maps with the full expansion
 algorithm, reject invalid @vocab

---
 .../context-processing/src/algorithm/mod.rs   |   2 +-
 crates/expansion/src/element.rs               |   9 ++
 crates/expansion/src/node.rs                  | 143 ++++++------------
 3 files changed, 57 insertions(+), 97 deletions(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index caaa5ed..8ddbdcd 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -316,7 +316,7 @@ where
 								true,
 								Some(options.vocab),
 							)? {
-								Some(Term::Id(vocab)) => {
+								Some(Term::Id(vocab)) if vocab.is_valid() => {
 									result.set_vocabulary(Some(Term::Id(vocab)))
 								}
 								_ => return Err(Error::InvalidVocabMapping),
diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 6f14fd4..63c7d30 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -334,6 +334,15 @@ where
 				)?;
 
 				if let Some(expanded_key) = expanded_key {
+					// The entries of a reverse property map must not expand to a keyword
+					// (`@context` excepted).
+					if active_property == Keyword::Reverse
+						&& key != "@context"
+						&& matches!(expanded_key, Term::Keyword(_))
+					{
+						return Err(Error::InvalidReversePropertyMap);
+					}
+
 					match &expanded_key {
 						Term::Keyword(Keyword::Value) => value_entry = Some(value.clone()),
 						Term::Keyword(Keyword::List) => {
diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 8be89eb..2c1c182 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -304,110 +304,61 @@ where
 					Keyword::Reverse => {
 						// If value is not a map, an invalid @reverse value error
 						// has been detected and processing is aborted.
-						if let Some(value) = value.as_object() {
-							let mut reverse_entries: Vec<&Entry> = value.iter().collect();
+						if value.is_object() {
+							// Set `expanded_value` to the result of using this algorithm
+							// recursively, passing `active_context`, `@reverse` as active
+							// property, `value` as element, `base_url`, and the
+							// `frame_expansion` and `ordered` flags.
+							let expanded_value = Box::pin(expand_element(
+								Environment {
+									vocabulary: env.vocabulary,
+									loader: env.loader,
+									warnings: env.warnings,
+								},
+								active_context,
+								ActiveProperty::Some("@reverse"),
+								value,
+								base_url,
+								options,
+								false,
+							))
+							.await?;
 
-							if options.ordered {
-								reverse_entries.sort_by_key(|entry| &entry.key)
-							}
+							for object in expanded_value {
+								let mut node = match object.try_cast::<Node<N::Iri, N::BlankId>>() {
+									Ok(node) => node.into_inner(),
+									Err(_) => return Err(Error::InvalidReversePropertyMap),
+								};
 
-							for Entry {
-								key: reverse_key,
-								value: reverse_value,
-							} in reverse_entries
-							{
-								match expand_iri(
-									&mut env,
-									active_context,
-									Nullable::Some(reverse_key.as_str().into()),
-									false,
-									Some(options.policy.vocab),
-								)? {
-									Some(Term::Keyword(_)) => {
-										return Err(Error::InvalidReversePropertyMap)
+								// If expanded value contains an `@reverse` entry, then its
+								// properties are reversed twice: add them to `result`.
+								if let Some(reverse_properties) = node.reverse_properties.take() {
+									for (prop, nodes) in reverse_properties {
+										result.insert_all(
+											prop,
+											nodes
+												.into_iter()
+												.map(|n| n.cast::<Object<N::Iri, N::BlankId>>()),
+										)
 									}
-									Some(Term::Id(reverse_prop))
-										if reverse_prop
-											.with(&*env.vocabulary)
-											.as_str()
-											.contains(':') =>
-									{
-										if !reverse_prop.is_valid() {
-											match options.policy.invalid {
-												Action::Keep => (),
-												Action::Drop => continue,
-												Action::Reject => {
-													return Err(Error::KeyExpansionFailed(
-														reverse_key.to_string(),
-													))
-												}
-											}
-										}
-
-										let reverse_expanded_value = Box::pin(expand_element(
-											Environment {
-												vocabulary: env.vocabulary,
-												loader: env.loader,
-												warnings: env.warnings,
-											},
-											active_context,
-											ActiveProperty::Some(reverse_key.as_ref()),
-											reverse_value,
-											base_url,
-											options,
-											false,
-										))
-										.await?;
-
-										let is_double_reversed =
-											if let Some(reverse_key_definition) =
-												active_context.get(reverse_key.as_str())
-											{
-												reverse_key_definition.reverse_property()
-											} else {
-												false
-											};
+								}
 
-										if is_double_reversed {
-											result.insert_all(
-												reverse_prop,
-												reverse_expanded_value.into_iter(),
-											)
-										} else {
-											let mut reverse_expanded_nodes = Vec::new();
-											for object in reverse_expanded_value {
-												match object.try_cast::<Node<N::Iri, N::BlankId>>()
-												{
-													Ok(node) => reverse_expanded_nodes.push(node),
-													Err(_) => {
-														return Err(
-															Error::InvalidReversePropertyValue,
-														)
-													}
-												}
+								// If expanded value contains any other entry, its values
+								// are added to the `@reverse` entry of `result`.
+								for (prop, objects) in std::mem::take(&mut node.properties) {
+									let mut reverse_nodes = Vec::with_capacity(objects.len());
+									for object in objects {
+										match object.try_cast::<Node<N::Iri, N::BlankId>>() {
+											Ok(node) => reverse_nodes.push(node),
+											Err(_) => {
+												return Err(Error::InvalidReversePropertyValue)
 											}
-
-											result.reverse_properties_or_default().insert_all(
-												reverse_prop,
-												reverse_expanded_nodes.into_iter(),
-											)
 										}
 									}
-									_ => {
-										if options.policy.invalid.is_reject() {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
 
-										if !options.policy.allow_undefined {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
-
-										// otherwise the key is just dropped.
-									}
+									result
+										.reverse_properties_or_default()
+										.insert_all(prop, reverse_nodes)
 								}
 							}
 						} else {
-- 
2.43.0


From b47e4edb0364d2bcd70aae86aec4a89e709b3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 06/76] fix: sibling remote contexts are not cycles, use the
 document URL of remote contexts

---
 .../context-processing/src/algorithm/mod.rs   | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 8ddbdcd..91a3d1e 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -74,7 +74,7 @@ async fn process_context<'l: 'a, 'a, N, L, W>(
 	mut env: Environment<'a, N, L, W>,
 	active_context: &'a Context<N::Iri, N::BlankId>,
 	local_context: &'l syntax::context::Context,
-	mut remote_contexts: ProcessingStack<N::Iri>,
+	remote_contexts: ProcessingStack<N::Iri>,
 	base_url: Option<N::Iri>,
 	mut options: Options,
 ) -> ProcessingResult<'l, N::Iri, N::BlankId>
@@ -165,11 +165,20 @@ where
 				// If the document has no top-level map with an @context entry, an invalid remote
 				// context has been detected and processing is aborted.
 				// Set loaded context to the value of that entry.
+				//
+				// Only the contexts being processed are considered, not the siblings that
+				// have already been processed.
+				let mut remote_contexts = remote_contexts.clone();
 				if remote_contexts.push(context_iri.clone()) {
-					let loaded_context = env
+					let context_document = env
 						.loader
 						.load_with(env.vocabulary, context_iri.clone())
-						.await?
+						.await?;
+					let context_base_url = context_document
+						.url()
+						.cloned()
+						.unwrap_or_else(|| context_iri.clone());
+					let loaded_context = context_document
 						.into_document()
 						.into_ld_context()
 						.map_err(Error::ContextExtractionFailed)?;
@@ -192,8 +201,8 @@ where
 						},
 						&result,
 						&loaded_context,
-						remote_contexts.clone(),
-						Some(context_iri),
+						remote_contexts,
+						Some(context_base_url),
 						new_options,
 					))
 					.await?;
-- 
2.43.0


From 856daff83ee0373ef4e92b38b94b1af8fd1ca3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 07/76] fix: term definitions do not depend on the order of
 context entries

---
 .../src/algorithm/define.rs                   | 45 ++++++++++++++-----
 .../context-processing/src/algorithm/iri.rs   | 14 +++---
 2 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 13125f0..3891942 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -135,7 +135,7 @@ where
 					// Checked during parsing.
 					let mut definition = TypeTermDefinition {
 						container: d.container,
-						..Default::default()
+						protected,
 					};
 
 					if let Some(protected) = d.protected {
@@ -213,6 +213,8 @@ where
 							local_context,
 							defined,
 							remote_contexts.clone(),
+							base_url.clone(),
+							protected,
 							options,
 						)
 						.await?;
@@ -270,6 +272,8 @@ where
 							local_context,
 							defined,
 							remote_contexts,
+							base_url.clone(),
+							protected,
 							options,
 						)
 						.await?
@@ -354,6 +358,8 @@ where
 										local_context,
 										defined,
 										remote_contexts.clone(),
+										base_url.clone(),
+										protected,
 										options,
 									)
 									.await?
@@ -400,6 +406,8 @@ where
 											local_context,
 											defined,
 											remote_contexts.clone(),
+											base_url.clone(),
+											protected,
 											options,
 										)
 										.await?;
@@ -415,10 +423,9 @@ where
 									// `definition` to true.
 									if !key.as_str().contains(':')
 										&& !key.as_str().contains('/') && simple_term
-										&& is_gen_delim_or_blank(
-											env.vocabulary,
-											definition.value.as_ref().unwrap(),
-										) {
+										&& definition.value.as_ref().is_some_and(|value| {
+											is_gen_delim_or_blank(env.vocabulary, value)
+										}) {
 										definition.prefix = true;
 									}
 								}
@@ -449,9 +456,9 @@ where
 										KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 										defined,
 										remote_contexts.clone(),
-										None,
-										false,
-										options.with_no_override(),
+										base_url.clone(),
+										protected,
+										options,
 									))
 									.await?;
 
@@ -634,13 +641,25 @@ where
 						// which MUST be a string expanding to an IRI.
 						// Otherwise, an invalid term definition has been detected and processing
 						// is aborted.
-						match expand_iri_simple(
-							&mut env,
+						match expand_iri_with(
+							Environment {
+								vocabulary: env.vocabulary,
+								loader: env.loader,
+								warnings: env.warnings,
+							},
 							active_context,
 							Nullable::Some(index_value.as_str().into()),
 							false,
 							Some(options.vocab),
-						)? {
+							local_context,
+							defined,
+							remote_contexts.clone(),
+							base_url.clone(),
+							protected,
+							options,
+						)
+						.await?
+						{
 							Some(Term::Id(Id::Valid(ValidId::Iri(_)))) => (),
 							_ => return Err(Error::InvalidTermDefinition),
 						}
@@ -737,7 +756,9 @@ where
 						// If the `prefix` flag of `definition` is set to `true`, and its IRI
 						// mapping is a keyword, an invalid term definition has been detected and
 						// processing is aborted.
-						if definition.prefix && definition.value.as_ref().unwrap().is_keyword() {
+						if definition.prefix
+							&& definition.value.as_ref().is_some_and(Term::is_keyword)
+						{
 							return Err(Error::InvalidTermDefinition);
 						}
 					}
diff --git a/crates/context-processing/src/algorithm/iri.rs b/crates/context-processing/src/algorithm/iri.rs
index f53b3cb..5b4d5dd 100644
--- a/crates/context-processing/src/algorithm/iri.rs
+++ b/crates/context-processing/src/algorithm/iri.rs
@@ -34,6 +34,8 @@ pub async fn expand_iri_with<'a, N, L, W>(
 	local_context: &'a Merged<'a>,
 	defined: &'a mut DefinedTerms,
 	remote_contexts: ProcessingStack<N::Iri>,
+	base_url: Option<N::Iri>,
+	protected: bool,
 	options: Options,
 ) -> ExpandIriResult<N::Iri, N::BlankId>
 where
@@ -67,9 +69,9 @@ where
 				value.into(),
 				defined,
 				remote_contexts.clone(),
-				None,
-				false,
-				options.with_no_override(),
+				base_url.clone(),
+				protected,
+				options,
 			))
 			.await?;
 
@@ -120,9 +122,9 @@ where
 						KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 						defined,
 						remote_contexts,
-						None,
-						false,
-						options.with_no_override(),
+						base_url,
+						protected,
+						options,
 					))
 					.await?;
 
-- 
2.43.0


From b19782659f6b1cee772296d00c310c42aad553d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 08/76] fix: expand literals of terms with a @json type mapping

---
 crates/expansion/src/literal.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/expansion/src/literal.rs b/crates/expansion/src/literal.rs
index 84251a8..9ada1e4 100644
--- a/crates/expansion/src/literal.rs
+++ b/crates/expansion/src/literal.rs
@@ -221,6 +221,17 @@ where
 					}
 				}
 
+				Some(Type::Json) => {
+					let json = match result {
+						Literal::Null => json_syntax::Value::Null,
+						Literal::Boolean(b) => json_syntax::Value::Boolean(b),
+						Literal::Number(n) => json_syntax::Value::Number(n),
+						Literal::String(s) => json_syntax::Value::String(s),
+					};
+
+					return Ok(Object::Value(Value::Json(json)).into());
+				}
+
 				Some(t) => {
 					if let Ok(t) = t.into_iri() {
 						ty = Some(t)
-- 
2.43.0


From 9635b127a0b3688b5fa79be6411be1ea32eefa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 09/76] fix: an indexed graph object is not dropped from the
 top level

---
 crates/core/src/object/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index a65ac70..e995712 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -479,10 +479,13 @@ impl<T, B> Indexed<Object<T, B>> {
 	}
 
 	/// Try to convert this object into an unnamed graph.
+	///
+	/// Fails and returns itself if this is not a graph object, or if it has an
+	/// index.
 	pub fn into_unnamed_graph(self) -> Result<Graph<T, B>, Self> {
 		let (obj, index) = self.into_parts();
 		match obj {
-			Object::Node(n) => match n.into_unnamed_graph() {
+			Object::Node(n) if index.is_none() => match n.into_unnamed_graph() {
 				Ok(g) => Ok(g),
 				Err(n) => Err(Indexed::new(Object::node(n), index)),
 			},
-- 
2.43.0


From 2246bb5edf7d587fd50a6edf698a07c056e21c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 10/76] fix: ignore null values of terms with a @list container

---
 crates/expansion/src/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 2c1c182..700843d 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -876,6 +876,11 @@ where
 					}
 				};
 
+				// If expanded value is null, ignore key by continuing to the next key.
+				if expanded_value.is_null() {
+					continue;
+				}
+
 				// If container mapping includes @list and expanded value is
 				// not already a list object, convert expanded value to a list
 				// object by first setting it to an array containing only
-- 
2.43.0


From e654e89fcb498aa9253f162c84e44d29ee33413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 11/76] fix: a map index that expands to null is not @none

---
 crates/expansion/src/node.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 700843d..b21ee43 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -698,16 +698,15 @@ where
 
 								// Initialize `expanded_index` to the result of IRI
 								// expanding index.
-								let expanded_index = match expand_iri(
+								let expanded_index = expand_iri(
 									&mut env,
 									active_context,
 									Nullable::Some(index.as_str().into()),
 									false,
 									Some(options.policy.vocab),
-								)? {
-									Some(Term::Null) | Some(Term::Keyword(Keyword::None)) => None,
-									key => key,
-								};
+								)?;
+								let is_none_index =
+									expanded_index == Some(Term::Keyword(Keyword::None));
 
 								// If index value is not an array set index value to
 								// an array containing only index value.
@@ -750,7 +749,7 @@ where
 										item = Object::node(node).into();
 									}
 
-									if expanded_index.is_some() {
+									if !is_none_index {
 										// If `container_mapping` includes @index,
 										// index key is not @index, and expanded index is
 										// not @none:
@@ -835,14 +834,18 @@ where
 											// of expanded index followed by any existing
 											// values of @type in item. Add the key-value
 											// pair (@type-types) to item.
-											if let Ok(typ) =
-												expanded_index.clone().unwrap().try_into()
-											{
-												if let Object::Node(ref mut node) = *item {
-													node.types_mut_or_default().insert(0, typ);
+											match expanded_index.clone() {
+												None | Some(Term::Null) => (),
+												Some(expanded_index) => {
+													if let Ok(typ) = expanded_index.try_into() {
+														if let Object::Node(ref mut node) = *item {
+															node.types_mut_or_default()
+																.insert(0, typ);
+														}
+													} else {
+														return Err(Error::InvalidTypeValue);
+													}
 												}
-											} else {
-												return Err(Error::InvalidTypeValue);
 											}
 										}
 									}
-- 
2.43.0


From d1327f21fd5cc5d999517bd0b902ac9ebd79f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 12/76] fix: only a top level map is replaced by its @graph
 entry

---
 crates/expansion/src/document.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/expansion/src/document.rs b/crates/expansion/src/document.rs
index 253fc20..e5e0dd1 100644
--- a/crates/expansion/src/document.rs
+++ b/crates/expansion/src/document.rs
@@ -1,5 +1,5 @@
 use super::expand_element;
-use crate::{ActiveProperty, Error, Loader, Options, WarningHandler};
+use crate::{ActiveProperty, Error, Expanded, Loader, Options, WarningHandler};
 use json_ld_core::{Context, Environment, ExpandedDocument, IndexedObject, Object};
 use json_syntax::Value;
 use rdf_types::VocabularyMut;
@@ -34,9 +34,10 @@ where
 		false,
 	)
 	.await?;
-	if expanded.len() == 1 {
-		let obj = expanded.into_iter().next().unwrap();
-		match obj.into_unnamed_graph() {
+	match expanded {
+		// A top level map (not an array of a single map) that only contains a
+		// `@graph` entry is replaced by the value of this entry.
+		Expanded::Object(obj) => match obj.into_unnamed_graph() {
 			Ok(graph) => Ok(ExpandedDocument::from(graph)),
 			Err(obj) => {
 				let mut result = ExpandedDocument::new();
@@ -45,9 +46,8 @@ where
 				}
 				Ok(result)
 			}
-		}
-	} else {
-		Ok(expanded.into_iter().filter(filter_top_level_item).collect())
+		},
+		expanded => Ok(expanded.into_iter().filter(filter_top_level_item).collect()),
 	}
 }
 
-- 
2.43.0


From a52d0558db3284408488cb8226e985c3f79bb36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 13/76] fix: no empty property for an empty doubly reversed
 property

---
 crates/expansion/src/node.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index b21ee43..3e10222 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -334,6 +334,10 @@ where
 								// properties are reversed twice: add them to `result`.
 								if let Some(reverse_properties) = node.reverse_properties.take() {
 									for (prop, nodes) in reverse_properties {
+										if nodes.is_empty() {
+											continue;
+										}
+
 										result.insert_all(
 											prop,
 											nodes
-- 
2.43.0


From 82e623dfdcf2050a762a4f052265b06f2ccd7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:56 +0000
Subject: [PATCH 14/76] fix: choose compact IRIs deterministically, prefix
 confusion only for prefixes, common language of lists

---
 crates/compaction/src/iri.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 4656858..5e6a566 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -148,7 +148,7 @@ where
 						} else {
 							for item in list {
 								let mut item_type = None;
-								let mut item_lang_dir = None;
+								let mut item_lang_dir = Nullable::Some((None, None));
 								let mut is_value = false;
 
 								match item.inner() {
@@ -156,16 +156,16 @@ where
 										is_value = true;
 										match value {
 											Value::LangString(lang_str) => {
-												item_lang_dir = Some(Nullable::Some((
+												item_lang_dir = Nullable::Some((
 													lang_str.language(),
 													lang_str.direction(),
-												)))
+												))
 											}
 											Value::Literal(_, Some(ty)) => {
 												item_type = Some(Type::Iri(ty.clone()))
 											}
 											Value::Literal(_, None) => {
-												item_lang_dir = Some(Nullable::Null)
+												item_lang_dir = Nullable::Null
 											}
 											Value::Json(_) => item_type = Some(Type::Json),
 										}
@@ -174,8 +174,8 @@ where
 								}
 
 								if common_lang_dir.is_none() {
-									common_lang_dir = item_lang_dir
-								} else if is_value && common_lang_dir != item_lang_dir {
+									common_lang_dir = Some(item_lang_dir)
+								} else if is_value && common_lang_dir != Some(item_lang_dir) {
 									common_lang_dir = Some(Nullable::Some((None, None)))
 								}
 
@@ -446,7 +446,8 @@ where
 						// and value is null, set compact IRI to candidate.
 						let candidate_def = active_context.get(candidate.as_str());
 						if (compact_iri.is_empty()
-							|| (candidate.len() <= compact_iri.len() && candidate < compact_iri))
+							|| candidate.len() < compact_iri.len()
+							|| (candidate.len() == compact_iri.len() && candidate < compact_iri))
 							&& (candidate_def.is_none()
 								|| (candidate_def.is_some()
 									&& (candidate_def.and_then(|def| def.value()) == Some(var))
@@ -472,7 +473,11 @@ where
 	// an IRI confused with prefix error has been detected, and processing is aborted.
 	if let Some(iri) = var.as_iri() {
 		let iri = vocabulary.iri(iri).unwrap();
-		if active_context.contains_term(iri.scheme().as_str()) {
+		if iri.authority().is_none()
+			&& active_context
+				.get(iri.scheme().as_str())
+				.is_some_and(|def| def.prefix())
+		{
 			return Err(IriConfusedWithPrefix);
 		}
 	}
-- 
2.43.0


From dbca47678660743babd311ced5ec2afb86fa4148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:56 +0000
Subject: [PATCH 15/76] fix: a type-scoped context does not apply to @reverse
 maps nor to indexed references

---
 crates/compaction/src/node.rs | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/crates/compaction/src/node.rs b/crates/compaction/src/node.rs
index eb02cba..5e8b73f 100644
--- a/crates/compaction/src/node.rs
+++ b/crates/compaction/src/node.rs
@@ -34,7 +34,7 @@ where
 	// If element does not contain an @value entry, and element does not consist of
 	// a single @id entry, set active context to previous context from active context,
 	// as the scope of a term-scoped context does not apply when processing new node objects.
-	if !(node.is_empty() && node.id.is_some()) {
+	if !(node.is_empty() && node.id.is_some() && index.is_none()) {
 		// does not consist of a single @id entry
 		if let Some(previous_context) = active_context.previous_context() {
 			active_context = previous_context
@@ -217,23 +217,10 @@ where
 			// Initialize compacted value to the result of using this algorithm recursively,
 			// passing active context, @reverse for active property,
 			// expanded value for element, and the compactArrays and ordered flags.
-			let active_property = "@reverse";
-			if let Some(active_property_definition) = active_context.get(active_property) {
-				if let Some(local_context) = active_property_definition.context() {
-					active_context = Mown::Owned(
-						local_context
-							.process_with(
-								vocabulary,
-								active_context.as_ref(),
-								loader,
-								active_property_definition.base_url().cloned(),
-								ProcessingOptions::from(options).with_override(),
-							)
-							.await?
-							.into_processed(),
-					)
-				}
-			}
+			// A type-scoped context does not apply to the reverse properties map.
+			let reverse_context = active_context
+				.previous_context()
+				.unwrap_or(active_context.as_ref());
 
 			let mut reverse_result = json_syntax::Object::default();
 			for (expanded_property, expanded_value) in reverse_properties.iter() {
@@ -242,7 +229,7 @@ where
 					&mut reverse_result,
 					expanded_property.clone().into(),
 					expanded_value.iter(),
-					active_context.as_ref(),
+					reverse_context,
 					loader,
 					true,
 					options,
-- 
2.43.0


From ae13e695c392a730352436d009959af4821d50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:57 +0000
Subject: [PATCH 16/76] fix: compact language tagged strings to plain strings
 only when nothing is lost

---
 crates/compaction/src/value.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index ee7984d..8a0846c 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -186,14 +186,14 @@ where
 			}
 		}
 		Value::LangString(ls) => {
-			let ls_language = ls.language(); //.map(|l| Nullable::Some(l));
-			let ls_direction = ls.direction(); //.map(|d| Nullable::Some(d));
+			let ls_language = ls.language();
+			let ls_direction = ls.direction();
 
 			if remove_index
-			&& (ls_language.is_none() || language == ls_language) // || (ls.language().is_none() && language.is_none()))
-			&& (ls_direction.is_none() || direction == ls_direction)
+				&& type_mapping.is_none()
+				&& language == ls_language
+				&& direction == ls_direction
 			{
-				// || (ls.direction().is_none() && direction.is_none())) {
 				return Ok(json_syntax::Value::String(ls.as_str().into()));
 			} else {
 				let compact_key = compact_key(
-- 
2.43.0


From 078e469c01ff21b4629f673f4a7ee38d472cc03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:57 +0000
Subject: [PATCH 17/76] fix: find the list container of a term in its
 property-scoped context

---
 crates/compaction/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/compaction/src/lib.rs b/crates/compaction/src/lib.rs
index e70dfd8..034e02e 100644
--- a/crates/compaction/src/lib.rs
+++ b/crates/compaction/src/lib.rs
@@ -322,11 +322,11 @@ impl<I, B, T: Any<I, B>> CompactIndexedFragment<I, B> for T {
 									.into_processed(),
 							)
 						}
-
-						list_container = active_property_definition
-							.container()
-							.contains(ContainerKind::List);
 					}
+
+					list_container = active_context
+						.get(active_property)
+						.is_some_and(|def| def.container().contains(ContainerKind::List));
 				}
 
 				if list_container {
-- 
2.43.0


From 2998ca29722074af7118cce6a842a8f4c53b0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:57 +0000
Subject: [PATCH 18/76] fix: include the @type term definition in the inverse
 context

---
 crates/core/src/context/inverse.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/core/src/context/inverse.rs b/crates/core/src/context/inverse.rs
index d02c3a5..cc1c12b 100644
--- a/crates/core/src/context/inverse.rs
+++ b/crates/core/src/context/inverse.rs
@@ -1,4 +1,5 @@
 use iref::IriBuf;
+use json_ld_syntax::Keyword;
 
 use super::BindingRef;
 use super::Context;
@@ -300,6 +301,20 @@ impl<'a, T: Clone + Hash + Eq, B: Clone + Hash + Eq> From<&'a Context<T, B>>
 		});
 
 		for binding in definitions {
+			if let BindingRef::Type(_) = binding {
+				let container = binding.definition().container();
+				let term = Key::from(Keyword::Type.into_str().to_string());
+				let type_lang_map = result
+					.reference_mut(&Term::Keyword(Keyword::Type), InverseDefinition::new)
+					.reference_mut(&container, || InverseContainer::new(&term));
+				type_lang_map.typ.set_none(&term);
+				type_lang_map.language.set(
+					Nullable::Some((context.default_language(), context.default_base_direction())),
+					&term,
+				);
+				type_lang_map.language.set_none(&term);
+			}
+
 			if let BindingRef::Normal(term, term_definition) = binding {
 				if let Some(var) = term_definition.value.as_ref() {
 					let container = &term_definition.container;
-- 
2.43.0


From f7800865db2d4f44565973d7acfe7faff8b254f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:57 +0000
Subject: [PATCH 19/76] fix: compaction of indexed lists and graphs and of map
 keys without data loss

---
 crates/compaction/src/property.rs | 324 ++++++++++++++++--------------
 1 file changed, 174 insertions(+), 150 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index ba72110..33cd7e6 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -3,13 +3,17 @@ use crate::{
 	CompactFragment, CompactIndexedFragment, Error, Options,
 };
 
+use json_ld_context_processing::{
+	algorithm::{expand_iri_simple, Action, IriExpansionResult},
+	Warning,
+};
 use json_ld_core::{
 	context::Nest,
 	object::{self, List},
-	Container, ContainerKind, Context, Id, Indexed, Loader, Node, Object, Term,
+	Container, ContainerKind, Context, Environment, Id, Indexed, Loader, Node, Object, Term,
 };
-use json_ld_syntax::Keyword;
-use rdf_types::VocabularyMut;
+use json_ld_syntax::{ExpandableRef, Keyword, Nullable};
+use rdf_types::{Vocabulary, VocabularyMut};
 use std::hash::Hash;
 
 #[allow(clippy::too_many_arguments)]
@@ -88,7 +92,17 @@ where
 
 		// Use add value to add `compacted_item` to
 		// the `item_active_property` entry in `nest_result` using `as_array`.
-		add_value(nest_result, item_active_property, compacted_item, as_array)
+		add_object(
+			vocabulary,
+			nest_result,
+			item_active_property,
+			compacted_item,
+			expanded_index,
+			container,
+			as_array,
+			active_context,
+			options,
+		)?
 	} else {
 		// Otherwise, set the value of the item active property entry in nest result to compacted item.
 		nest_result.insert(item_active_property.into(), compacted_item);
@@ -132,24 +146,7 @@ where
 		// Initialize `map_object` to the value of `item_active_property`
 		// in `nest_result`, initializing it to a new empty map,
 		// if necessary.
-		if nest_result
-			.get_unique(item_active_property)
-			.ok()
-			.unwrap()
-			.is_none()
-		{
-			nest_result.insert(
-				item_active_property.into(),
-				json_ld_syntax::Object::default().into(),
-			);
-		}
-
-		let map_object = nest_result
-			.get_unique_mut(item_active_property)
-			.ok()
-			.unwrap()
-			.unwrap();
-		let map_object = map_object.as_object_mut().unwrap();
+		let map_object = map_object_mut(nest_result, item_active_property);
 
 		// Initialize `map_key` by IRI compacting the value of @id in
 		// `expanded_item` or @none if no such value exists
@@ -173,24 +170,7 @@ where
 		// Initialize `map_object` to the value of `item_active_property`
 		// in `nest_result`, initializing it to a new empty map,
 		// if necessary.
-		if nest_result
-			.get_unique(item_active_property)
-			.ok()
-			.unwrap()
-			.is_none()
-		{
-			nest_result.insert(
-				item_active_property.into(),
-				json_ld_syntax::Object::default().into(),
-			);
-		}
-
-		let map_object = nest_result
-			.get_unique_mut(item_active_property)
-			.ok()
-			.unwrap()
-			.unwrap();
-		let map_object = map_object.as_object_mut().unwrap();
+		let map_object = map_object_mut(nest_result, item_active_property);
 
 		// Initialize `map_key` the value of @index in `expanded_item`
 		// or @none, if no such value exists.
@@ -259,7 +239,7 @@ where
 				vocabulary,
 				active_context,
 				&Term::Keyword(Keyword::Id),
-				false,
+				true,
 				false,
 				options,
 			)?
@@ -294,9 +274,125 @@ where
 		// Use `add_value` to add `compacted_item` to the
 		// `item_active_property` entry in `nest_result` using `as_array`.
 		let compacted_item = json_syntax::Value::Object(map);
-		add_value(nest_result, item_active_property, compacted_item, as_array)
+		add_object(
+			vocabulary,
+			nest_result,
+			item_active_property,
+			compacted_item,
+			expanded_index,
+			container,
+			as_array,
+			active_context,
+			options,
+		)?
+	}
+
+	Ok(())
+}
+
+/// Returns the map stored in the `item_active_property` entry of `nest_result`,
+/// adding it if necessary.
+fn map_object_mut<'a>(
+	nest_result: &'a mut json_syntax::Object,
+	item_active_property: &str,
+) -> &'a mut json_syntax::Object {
+	if !nest_result.contains_key(item_active_property) {
+		nest_result.insert(
+			item_active_property.into(),
+			json_syntax::Object::default().into(),
+		);
+	}
+
+	let entry = nest_result
+		.get_unique_mut(item_active_property)
+		.ok()
+		.unwrap()
+		.unwrap();
+
+	if !entry.is_object() {
+		// The entry already holds values that cannot be represented in a map.
+		let mut items = match entry.take() {
+			json_syntax::Value::Array(items) => items,
+			item => vec![item],
+		};
+		items.push(json_syntax::Object::default().into());
+		*entry = json_syntax::Value::Array(items);
+	}
+
+	match entry {
+		json_syntax::Value::Array(items) => items.last_mut().unwrap(),
+		entry => entry,
+	}
+	.as_object_mut()
+	.unwrap()
+}
+
+/// Removes the first value of the `container_key` entry of `compacted_item` and
+/// returns it, if it can be used as map key.
+fn take_map_key(compacted_item: &mut json_syntax::Value, container_key: &str) -> Option<String> {
+	let map = compacted_item.as_object_mut()?;
+
+	let first_value = match map.get_unique(container_key).ok().unwrap()? {
+		json_syntax::Value::Array(values) => values.first()?,
+		value => value,
+	};
+
+	let map_key = first_value.as_str()?.to_owned();
+
+	if let Some(entry) = map.remove_unique(container_key).ok().unwrap() {
+		if let json_syntax::Value::Array(values) = entry.value {
+			for value in values.into_iter().skip(1) {
+				add_value(map, container_key, value, false)
+			}
+		}
 	}
 
+	Some(map_key)
+}
+
+/// Adds a compacted list or graph object to the `item_active_property` entry
+/// of `nest_result`, or to its index map if it has an `@index` container.
+#[allow(clippy::too_many_arguments)]
+fn add_object<N>(
+	vocabulary: &N,
+	nest_result: &mut json_syntax::Object,
+	item_active_property: &str,
+	compacted_item: json_syntax::Value,
+	expanded_index: Option<&str>,
+	container: Container,
+	as_array: bool,
+	active_context: &Context<N::Iri, N::BlankId>,
+	options: Options,
+) -> Result<(), Error>
+where
+	N: Vocabulary,
+	N::Iri: Clone + Hash + Eq,
+	N::BlankId: Clone + Hash + Eq,
+{
+	if container.contains(ContainerKind::Graph) || !container.contains(ContainerKind::Index) {
+		add_value(nest_result, item_active_property, compacted_item, as_array);
+		return Ok(());
+	}
+
+	let property_index = active_context
+		.get(item_active_property)
+		.is_some_and(|def| def.index().is_some());
+
+	let map_key = match expanded_index {
+		Some(index) if !property_index => index.to_owned(),
+		_ => compact_iri(
+			vocabulary,
+			active_context,
+			&Term::Keyword(Keyword::None),
+			true,
+			false,
+			options,
+		)?
+		.unwrap(),
+	};
+
+	let map_object = map_object_mut(nest_result, item_active_property);
+	add_value(map_object, &map_key, compacted_item, as_array);
 	Ok(())
 }
 
@@ -488,24 +584,7 @@ where
 						// Initialize `map_object` to the value of
 						// `item_active_property` in `nest_result`,
 						// initializing it to a new empty map, if necessary.
-						if nest_result
-							.get_unique(item_active_property.as_str())
-							.ok()
-							.unwrap()
-							.is_none()
-						{
-							nest_result.insert(
-								item_active_property.clone().into(),
-								json_syntax::Object::default().into(),
-							);
-						}
-
-						let map_object = nest_result
-							.get_unique_mut(item_active_property.as_str())
-							.ok()
-							.unwrap()
-							.unwrap();
-						let map_object = map_object.as_object_mut().unwrap();
+						let map_object = map_object_mut(nest_result, &item_active_property);
 
 						// Initialize container key by IRI compacting either
 						// @language, @index, @id, or @type based on the contents of container.
@@ -557,10 +636,27 @@ where
 
 									// Reinitialize `container_key` by
 									// IRI compacting `index_key`.
+									let expanded_index_key: IriExpansionResult<N> =
+										expand_iri_simple::<Warning, _, _, _>(
+											&mut Environment {
+												vocabulary: &mut *vocabulary,
+												loader,
+												warnings: &mut (),
+											},
+											active_context,
+											Nullable::Some(ExpandableRef::from(index_key.as_str())),
+											false,
+											Some(Action::Keep),
+										);
+									let expanded_index_key = match expanded_index_key {
+										Ok(Some(term)) => term,
+										_ => Term::Id(Id::Invalid(index_key.to_string())),
+									};
+
 									container_key = compact_iri(
 										vocabulary,
 										active_context,
-										&Term::Id(Id::Invalid(index_key.to_string())),
+										&expanded_index_key,
 										true,
 										false,
 										options,
@@ -568,58 +664,15 @@ where
 
 									// Set `map_key` to the first value of
 									// `container_key` in `compacted_item`, if any.
-									let (map_key, remaining_values) = match &mut compacted_item {
-										json_syntax::Value::Object(map) => {
-											match map
-												.remove_unique(
-													container_key.as_ref().unwrap().as_str(),
-												)
-												.ok()
-												.unwrap()
-											{
-												Some(entry) => match entry.value {
-													json_syntax::Value::String(s) => {
-														(Some(s.to_string()), Vec::new())
-													}
-													json_syntax::Value::Array(values) => {
-														let mut values = values.into_iter();
-														match values.next() {
-															Some(first_value) => (
-																first_value
-																	.as_str()
-																	.map(|v| v.to_string()),
-																values.collect(),
-															),
-															None => (None, values.collect()),
-														}
-													}
-													other => (None, vec![other]),
-												},
-												None => (None, Vec::new()),
-											}
-										}
-										_ => (None, Vec::new()),
-									};
-
 									// If there are remaining values in `compacted_item`
 									// for container key, use `add_value` to add
 									// those remaining values to the `container_key`
 									// in `compacted_item`.
 									// Otherwise, remove that entry from compacted item.
-									if !remaining_values.is_empty() {
-										if let Some(map) = compacted_item.as_object_mut() {
-											for value in remaining_values {
-												add_value(
-													map,
-													container_key.as_deref().unwrap(),
-													value,
-													false,
-												)
-											}
-										}
-									}
-
-									map_key
+									take_map_key(
+										&mut compacted_item,
+										container_key.as_deref().unwrap(),
+									)
 								}
 								None => {
 									// Otherwise, if `container` includes @index and
@@ -647,52 +700,15 @@ where
 
 							// Set `map_key` to the first value of `container_key` in
 							// `compacted_item`, if any.
-							let (map_key, remaining_values) = match compacted_item.as_object_mut() {
-								Some(map) => {
-									match map
-										.remove_unique(container_key.as_ref().unwrap().as_str())
-										.ok()
-										.unwrap()
-									{
-										Some(entry) => match entry.value {
-											json_syntax::Value::String(s) => {
-												(Some((*s).to_string()), Vec::new())
-											}
-											json_syntax::Value::Array(values) => {
-												let mut values = values.into_iter();
-												match values.next() {
-													Some(first_value) => (
-														first_value.as_str().map(ToOwned::to_owned),
-														values.collect(),
-													),
-													None => (None, values.collect()),
-												}
-											}
-											other => (None, vec![other]),
-										},
-										None => (None, Vec::new()),
-									}
-								}
-								_ => (None, Vec::new()),
-							};
-
 							// If there are remaining values in `compacted_item` for
 							// `container_key`, use `add_value` to add those
 							// remaining values to the `container_key` in
 							// `compacted_item`.
 							// Otherwise, remove that entry from compacted item.
-							if !remaining_values.is_empty() {
-								if let Some(map) = compacted_item.as_object_mut() {
-									for value in remaining_values {
-										add_value(
-											map,
-											container_key.as_deref().unwrap(),
-											value,
-											false,
-										)
-									}
-								}
-							}
+							let map_key = take_map_key(
+								&mut compacted_item,
+								container_key.as_deref().unwrap(),
+							);
 
 							// If `compacted_item` contains a single entry with a key
 							// expanding to @id, set `compacted_item` to the result of
@@ -701,7 +717,15 @@ where
 							// `active_property`, and a map composed of the single
 							// entry for @id from `expanded_item` for `element`.
 							if let Some(map) = compacted_item.as_object() {
-								if map.len() == 1 && map.get_unique("@id").ok().unwrap().is_some() {
+								let is_id = |key: &str| {
+									key == "@id"
+										|| active_context.get(key).and_then(|d| d.value())
+											== Some(&Term::Keyword(Keyword::Id))
+								};
+
+								if map.len() == 1
+									&& map.iter().all(|entry| is_id(entry.key.as_str()))
+								{
 									let obj = Object::node(Node::with_id(
 										expanded_item.id().unwrap().clone(),
 									));
-- 
2.43.0


From 9dbd26cd12134a27e79179ed9b3a016c73d5988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 20/76] fix: a type map value without @id may use a term named
 like an alias of @id

---
 crates/compaction/src/property.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 33cd7e6..368412a 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -723,12 +723,11 @@ where
 											== Some(&Term::Keyword(Keyword::Id))
 								};
 
-								if map.len() == 1
-									&& map.iter().all(|entry| is_id(entry.key.as_str()))
-								{
-									let obj = Object::node(Node::with_id(
-										expanded_item.id().unwrap().clone(),
-									));
+								let single_id = map.len() == 1
+									&& map.iter().all(|entry| is_id(entry.key.as_str()));
+
+								if let Some(id) = expanded_item.id().filter(|_| single_id) {
+									let obj = Object::node(Node::with_id(id.clone()));
 									compacted_item = Box::pin(obj.compact_indexed_fragment(
 										vocabulary,
 										None,
-- 
2.43.0


From 80860c4efb1740780a994ea66a9a8a8375db452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 21/76] fix: expanding the empty string in a context is not an
 invalid term definition

---
 crates/context-processing/src/algorithm/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 3891942..3d7080f 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -104,7 +104,7 @@ where
 {
 	let term = term.to_owned();
 	if defined.begin(&term)? {
-		if term.is_empty() {
+		if term.is_empty() && local_context.get(&term).is_some() {
 			return Err(Error::InvalidTermDefinition);
 		}
 
-- 
2.43.0


From d3576bf47375cf1c6beb6132af2561ae259a38b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 22/76] fix: reject keyword redefinitions, report the specified
 codes of invalid context entries

---
 crates/syntax/src/context/try_from_json.rs | 113 ++++++++++++++-------
 1 file changed, 76 insertions(+), 37 deletions(-)

diff --git a/crates/syntax/src/context/try_from_json.rs b/crates/syntax/src/context/try_from_json.rs
index d4a391c..0bcffa0 100644
--- a/crates/syntax/src/context/try_from_json.rs
+++ b/crates/syntax/src/context/try_from_json.rs
@@ -25,6 +25,9 @@ pub enum InvalidContext {
 
 	#[error("Invalid `@nest` value `{0}`")]
 	InvalidNestValue(String),
+
+	#[error("{0}")]
+	InvalidEntry(ErrorCode),
 }
 
 impl InvalidContext {
@@ -36,6 +39,7 @@ impl InvalidContext {
 			Self::DuplicateKey => ErrorCode::DuplicateKey,
 			Self::InvalidTermDefinition => ErrorCode::InvalidTermDefinition,
 			Self::InvalidNestValue(_) => ErrorCode::InvalidNestValue,
+			Self::InvalidEntry(code) => *code,
 		}
 	}
 }
@@ -46,6 +50,15 @@ impl From<crate::Unexpected> for InvalidContext {
 	}
 }
 
+/// Parses the value of a context (or term definition) entry,
+/// failing with the given error code.
+fn parse_entry<T: TryFromJson>(
+	value: json_syntax::Value,
+	code: ErrorCode,
+) -> Result<T, InvalidContext> {
+	T::try_from_json(value).map_err(|_| InvalidContext::InvalidEntry(code))
+}
+
 impl TryFromJson for TermDefinition {
 	type Error = InvalidContext;
 
@@ -59,50 +72,64 @@ impl TryFromJson for TermDefinition {
 
 				for json_syntax::object::Entry { key, value } in o {
 					match Keyword::try_from(key.as_str()) {
-						Ok(Keyword::Id) => def.id = Some(Nullable::try_from_json(value)?),
-						Ok(Keyword::Type) => def.type_ = Some(Nullable::try_from_json(value)?),
+						Ok(Keyword::Id) => {
+							def.id = Some(parse_entry(value, ErrorCode::InvalidIriMapping)?)
+						}
+						Ok(Keyword::Type) => {
+							def.type_ = Some(parse_entry(value, ErrorCode::InvalidTypeMapping)?)
+						}
 						Ok(Keyword::Context) => {
-							def.context = Some(Box::new(Context::try_from_json(value)?))
+							def.context = Some(Box::new(parse_entry(
+								value,
+								ErrorCode::InvalidScopedContext,
+							)?))
 						}
 						Ok(Keyword::Reverse) => {
-							def.reverse = Some(definition::Key::try_from_json(value)?)
+							def.reverse = Some(parse_entry(value, ErrorCode::InvalidIriMapping)?)
 						}
 						Ok(Keyword::Index) => {
-							def.index = Some(term_definition::Index::try_from_json(value)?)
+							def.index = Some(parse_entry(value, ErrorCode::InvalidTermDefinition)?)
 						}
 						Ok(Keyword::Language) => {
-							def.language = Some(Nullable::try_from_json(value)?)
+							def.language =
+								Some(parse_entry(value, ErrorCode::InvalidLanguageMapping)?)
 						}
 						Ok(Keyword::Direction) => {
-							def.direction = Some(Nullable::try_from_json(value)?)
+							def.direction =
+								Some(parse_entry(value, ErrorCode::InvalidBaseDirection)?)
 						}
 						Ok(Keyword::Container) => {
 							let container = match value {
 								json_syntax::Value::Null => Nullable::Null,
-								other => {
-									let container = Container::try_from_json(other)?;
-									Nullable::Some(container)
-								}
+								other => Nullable::Some(parse_entry(
+									other,
+									ErrorCode::InvalidContainerMapping,
+								)?),
 							};
 
 							def.container = Some(container)
 						}
 						Ok(Keyword::Nest) => {
-							def.nest = Some(term_definition::Nest::try_from_json(value)?)
+							def.nest = Some(parse_entry(value, ErrorCode::InvalidNestValue)?)
+						}
+						Ok(Keyword::Prefix) => {
+							def.prefix = Some(parse_entry(value, ErrorCode::InvalidPrefixValue)?)
+						}
+						Ok(Keyword::Propagate) => {
+							def.propagate =
+								Some(parse_entry(value, ErrorCode::InvalidPropagateValue)?)
+						}
+						Ok(Keyword::Protected) => {
+							def.protected =
+								Some(parse_entry(value, ErrorCode::InvalidProtectedValue)?)
 						}
-						Ok(Keyword::Prefix) => def.prefix = Some(bool::try_from_json(value)?),
-						Ok(Keyword::Propagate) => def.propagate = Some(bool::try_from_json(value)?),
-						Ok(Keyword::Protected) => def.protected = Some(bool::try_from_json(value)?),
 						_ => return Err(InvalidContext::InvalidTermDefinition),
 					}
 				}
 
 				Ok(Self::Expanded(Box::new(def)))
 			}
-			unexpected => Err(InvalidContext::Unexpected(
-				unexpected.kind(),
-				&[json_syntax::Kind::String, json_syntax::Kind::Object],
-			)),
+			_ => Err(InvalidContext::InvalidTermDefinition),
 		}
 	}
 }
@@ -306,24 +333,43 @@ impl TryFromJson for ContextEntry {
 
 				for json_syntax::object::Entry { key, value } in o {
 					match Keyword::try_from(key.as_str()) {
-						Ok(Keyword::Base) => def.base = Some(Nullable::try_from_json(value)?),
-						Ok(Keyword::Import) => def.import = Some(IriRefBuf::try_from_json(value)?),
+						Ok(Keyword::Base) => {
+							def.base = Some(parse_entry(value, ErrorCode::InvalidBaseIri)?)
+						}
+						Ok(Keyword::Import) => {
+							def.import = Some(parse_entry(value, ErrorCode::InvalidImportValue)?)
+						}
 						Ok(Keyword::Language) => {
-							def.language = Some(Nullable::try_from_json(value)?)
+							def.language =
+								Some(parse_entry(value, ErrorCode::InvalidDefaultLanguage)?)
 						}
 						Ok(Keyword::Direction) => {
-							def.direction = Some(Nullable::try_from_json(value)?)
+							def.direction =
+								Some(parse_entry(value, ErrorCode::InvalidBaseDirection)?)
+						}
+						Ok(Keyword::Propagate) => {
+							def.propagate =
+								Some(parse_entry(value, ErrorCode::InvalidPropagateValue)?)
+						}
+						Ok(Keyword::Protected) => {
+							def.protected =
+								Some(parse_entry(value, ErrorCode::InvalidProtectedValue)?)
 						}
-						Ok(Keyword::Propagate) => def.propagate = Some(bool::try_from_json(value)?),
-						Ok(Keyword::Protected) => def.protected = Some(bool::try_from_json(value)?),
 						Ok(Keyword::Type) => {
-							def.type_ = Some(definition::Type::try_from_json(value)?)
+							def.type_ = Some(parse_entry(value, ErrorCode::KeywordRedefinition)?)
 						}
 						Ok(Keyword::Version) => {
-							def.version = Some(definition::Version::try_from_json(value)?)
+							def.version = Some(parse_entry(value, ErrorCode::InvalidVersionValue)?)
 						}
-						Ok(Keyword::Vocab) => def.vocab = Some(Nullable::try_from_json(value)?),
-						_ => {
+						Ok(Keyword::Vocab) => {
+							def.vocab = Some(parse_entry(value, ErrorCode::InvalidVocabMapping)?)
+						}
+						Ok(_) => {
+							return Err(InvalidContext::InvalidEntry(
+								ErrorCode::KeywordRedefinition,
+							))
+						}
+						Err(_) => {
 							let term_def = match value {
 								json_syntax::Value::Null => Nullable::Null,
 								other => Nullable::Some(TermDefinition::try_from_json(other)?),
@@ -338,14 +384,7 @@ impl TryFromJson for ContextEntry {
 
 				Ok(Self::Definition(def))
 			}
-			unexpected => Err(InvalidContext::Unexpected(
-				unexpected.kind(),
-				&[
-					json_syntax::Kind::Null,
-					json_syntax::Kind::String,
-					json_syntax::Kind::Object,
-				],
-			)),
+			_ => Err(InvalidContext::InvalidEntry(ErrorCode::InvalidLocalContext)),
 		}
 	}
 }
-- 
2.43.0


From 22d36a34e8f0fe7654cf55aa6fbee649e3bd326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:29 +0000
Subject: [PATCH 23/76] fix: merge the types of a node described several times
 when flattening

---
 crates/core/src/flattening/node_map.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index c6bb1cd..6d899d9 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -374,12 +374,13 @@ where
 			.declare_node(id.clone(), index)?;
 
 		if let Some(entry) = node.types.as_deref() {
-			flat_node.types = Some(
-				entry
-					.iter()
-					.map(|ty| env.assign_node_id(Some(ty)))
-					.collect(),
-			);
+			let types = flat_node.types_mut_or_default();
+			for ty in entry {
+				let ty = env.assign_node_id(Some(ty));
+				if !types.contains(&ty) {
+					types.push(ty)
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 975be99a7631da23cdc5002d4ccaf53b448e1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:49 +0000
Subject: [PATCH 24/76] fix: keep the nodes of named graphs that only have
 types when flattening

---
 crates/core/src/flattening/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/flattening/mod.rs b/crates/core/src/flattening/mod.rs
index a521fda..3838085 100644
--- a/crates/core/src/flattening/mod.rs
+++ b/crates/core/src/flattening/mod.rs
@@ -94,7 +94,7 @@ fn filter_graph<T, B>(node: IndexedNode<T, B>) -> Option<IndexedNode<T, B>> {
 }
 
 fn filter_sub_graph<T, B>(mut node: IndexedNode<T, B>) -> Option<IndexedObject<T, B>> {
-	if node.index().is_none() && node.properties().is_empty() {
+	if node.index().is_none() && node.types().is_empty() && node.properties().is_empty() {
 		None
 	} else {
 		node.set_graph_entry(None);
-- 
2.43.0


From c63e98f92a3c5308f2a46c28309d7d345385c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:48 +0000
Subject: [PATCH 25/76] fix: relabel blank node properties when flattening

---
 crates/core/src/flattening/node_map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index 6d899d9..77887ed 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -411,6 +411,7 @@ where
 	}
 
 	for (property, objects) in node.properties() {
+		let property = env.assign_node_id(Some(property));
 		let mut flat_objects = Vec::new();
 		for object in objects {
 			let flat_object = extend_node_map(env, node_map, object, active_graph)?;
@@ -422,11 +423,12 @@ where
 			.get_mut(&id)
 			.unwrap()
 			.properties_mut()
-			.insert_all_unique(property.clone(), flat_objects)
+			.insert_all_unique(property, flat_objects)
 	}
 
 	if let Some(reverse_properties) = node.reverse_properties_entry() {
 		for (property, nodes) in reverse_properties.iter() {
+			let property = env.assign_node_id(Some(property));
 			for subject in nodes {
 				let flat_subject = extend_node_map_from_node(
 					env,
-- 
2.43.0


From 23a76b7bfa88a1d811de0b895a5549f904d35c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:30 +0000
Subject: [PATCH 26/76] fix: emit the triples of compound literals

---
 crates/core/src/rdf/mod.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index e9c1b41..1b3bed3 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -18,6 +18,7 @@ pub const RDF_TYPE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#type
 pub const RDF_FIRST: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#first");
 pub const RDF_REST: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest");
 pub const RDF_VALUE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#value");
+pub const RDF_LANGUAGE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#language");
 pub const RDF_DIRECTION: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#direction");
 pub const RDF_JSON: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#JSON");
 /// IRI of the `http://www.w3.org/1999/02/22-rdf-syntax-ns#nil` value.
@@ -60,10 +61,12 @@ pub enum RdfDirection {
 	/// In this case the direction tagged string is encoded with a fresh blank
 	/// node identifier `_:b` and the following triples:
 	/// ```nquads
-	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#value value@language
+	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#value value
+	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#language language
 	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#direction direction
 	/// ```
-	/// where `direction` is either `rtl` or `ltr`.
+	/// where `direction` is either `rtl` or `ltr`. The second triple is only
+	/// there if a language tag is present.
 	CompoundLiteral,
 }
 
@@ -99,6 +102,9 @@ pub struct CompoundLiteralTriples<T, B, L> {
 	/// String value.
 	value: Option<Value<T, B, L>>,
 
+	/// Language value.
+	language: Option<Value<T, B, L>>,
+
 	/// Direction value.
 	direction: Option<Value<T, B, L>>,
 }
@@ -113,6 +119,14 @@ impl<T: Clone, B: Clone, L: Clone> CompoundLiteralTriples<T, B, L> {
 			));
 		}
 
+		if let Some(language) = self.language.take() {
+			return Some(rdf_types::Triple(
+				self.id.clone(),
+				ValidId::Iri(vocabulary.insert(RDF_LANGUAGE)),
+				language,
+			));
+		}
+
 		if let Some(direction) = self.direction.take() {
 			return Some(rdf_types::Triple(
 				self.id.clone(),
@@ -140,6 +154,7 @@ impl<T: Clone> crate::object::Value<T> {
 	) -> Option<CompoundLiteral<T, V::BlankId, V::Literal>>
 	where
 		V: Vocabulary<Iri = T> + IriVocabularyMut + LiteralVocabularyMut,
+		V::BlankId: Clone,
 	{
 		match self {
 			Self::Json(json) => {
@@ -179,9 +194,23 @@ impl<T: Clone> crate::object::Value<T> {
 						}
 						Some(RdfDirection::CompoundLiteral) => {
 							let id = generator.next(vocabulary);
+							let mut string_literal = |value: String| {
+								let ty = vocabulary.insert(XSD_STRING);
+								Value::Literal(vocabulary.insert_owned_literal(Literal::new(
+									value,
+									rdf_types::LiteralType::Any(ty),
+								)))
+							};
 							Some(CompoundLiteral {
+								triples: Some(CompoundLiteralTriples {
+									id: id.clone(),
+									value: Some(string_literal(string.to_string())),
+									language: language.map(|tag| {
+										string_literal(tag.as_str().to_ascii_lowercase())
+									}),
+									direction: Some(string_literal(direction.to_string())),
+								}),
 								value: id.into_term(),
-								triples: None,
 							})
 						}
 						None => match language {
-- 
2.43.0


From 48d91fb19a493b8479a37923487677ec06ea3e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:02 +0000
Subject: [PATCH 27/76] fix: datatype of strings with a direction and no
 language, in lower case

---
 crates/core/src/rdf/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 1b3bed3..e116616 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -52,7 +52,7 @@ pub enum RdfDirection {
 	///
 	/// If a language tag is present the IRI will be of the form
 	/// `https://www.w3.org/ns/i18n#language_direction` or simply
-	/// `https://www.w3.org/ns/i18n#direction` otherwise where `direction` is
+	/// `https://www.w3.org/ns/i18n#_direction` otherwise where `direction` is
 	/// either `rtl` or `ltr`.
 	I18nDatatype,
 
@@ -656,8 +656,11 @@ where
 
 fn i18n(language: Option<LangTagBuf>, direction: Direction) -> IriBuf {
 	let iri = match &language {
-		Some(language) => format!("https://www.w3.org/ns/i18n#{language}_{direction}"),
-		None => format!("https://www.w3.org/ns/i18n#{direction}"),
+		Some(language) => {
+			let language = language.as_str().to_ascii_lowercase();
+			format!("https://www.w3.org/ns/i18n#{language}_{direction}")
+		}
+		None => format!("https://www.w3.org/ns/i18n#_{direction}"),
 	};
 
 	IriBuf::new(iri).unwrap()
-- 
2.43.0


From 2c5d2b2824fb0a96e35250b9b3c4be4f63b2432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:50 +0000
Subject: [PATCH 28/76] fix: numbers without fractional part are integers in
 RDF

---
 crates/core/src/rdf/mod.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index e116616..883d8aa 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -273,13 +273,21 @@ impl<T: Clone> crate::object::Value<T> {
 					}
 					value::Literal::Null => ("null".to_string(), None),
 					value::Literal::Number(n) => {
-						if n.is_i64()
-							&& !ty
-								.as_ref()
-								.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
-								.unwrap_or(false)
-						{
-							(n.to_string(), Some(vocabulary.insert(XSD_INTEGER)))
+						let is_double = ty
+							.as_ref()
+							.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
+							.unwrap_or(false);
+						let f = n.as_f64_lossy();
+						if !is_double && f.fract() == 0.0 && f.abs() < 1e21 {
+							let lit = if f == 0.0 {
+								"0".to_string()
+							} else if n.as_str().contains(['.', 'e', 'E']) {
+								f.to_string()
+							} else {
+								n.to_string()
+							};
+
+							(lit, Some(vocabulary.insert(XSD_INTEGER)))
 						} else {
 							(
 								pretty_dtoa::dtoa(n.as_f64_lossy(), XSD_CANONICAL_FLOAT),
-- 
2.43.0


From efb128acbae76b3f808cbafa1a4de860441160cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:54 +0000
Subject: [PATCH 29/76] fix: canonicalize the literals of graphs and included
 nodes

---
 crates/core/src/object/list.rs     | 12 +++++++++--
 crates/core/src/object/mod.rs      | 12 +++++++++--
 crates/core/src/object/node/mod.rs | 32 ++++++++++++++++++++++++++++--
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 44fe8aa..3d9ac4b 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -74,14 +74,22 @@ impl<T, B> List<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		for object in self {
 			object.canonicalize_with(buffer)
 		}
 	}
 
 	/// Puts this list object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index e995712..f3b16ba 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -167,7 +167,11 @@ impl<T, B> Object<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		match self {
 			Self::List(l) => l.canonicalize_with(buffer),
 			Self::Node(n) => n.canonicalize_with(buffer),
@@ -176,7 +180,11 @@ impl<T, B> Object<T, B> {
 	}
 
 	/// Puts this object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 5741335..a37f152 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -191,7 +191,31 @@ impl<T, B> Node<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
+		if let Some(graph) = self.graph_mut() {
+			*graph = std::mem::take(graph)
+				.into_iter()
+				.map(|mut o| {
+					o.canonicalize_with(buffer);
+					o
+				})
+				.collect();
+		}
+
+		if let Some(included) = self.included_mut() {
+			*included = std::mem::take(included)
+				.into_iter()
+				.map(|mut n| {
+					n.canonicalize_with(buffer);
+					n
+				})
+				.collect();
+		}
+
 		for (_, objects) in self.properties_mut() {
 			for object in objects {
 				object.canonicalize_with(buffer)
@@ -208,7 +232,11 @@ impl<T, B> Node<T, B> {
 	}
 
 	/// Puts this node object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
-- 
2.43.0


From becde4cef55f9d40553a7837250ade894852c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:05 +0000
Subject: [PATCH 30/76] fix: keep the structure of RDF lists with items that
 have no RDF value

---
 crates/core/src/rdf/mod.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 883d8aa..addd382 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -589,12 +589,13 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 					let previous = list.previous().cloned();
 					match list.next(vocabulary, generator) {
 						Some(node) => {
+							let id = node.id.clone();
+
+							// An item without RDF value leaves its list node empty.
 							if let Some(compound_value) =
 								node.object
 									.rdf_value_with(vocabulary, generator, rdf_direction)
 							{
-								let id = node.id.clone();
-
 								if let Some(compound_triples) = compound_value.triples {
 									match compound_triples {
 										CompoundValueTriples::List(list) => {
@@ -611,14 +612,14 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 									ValidId::Iri(vocabulary.insert(RDF_FIRST)),
 									compound_value.value,
 								));
+							}
 
-								if let Some(previous_id) = previous {
-									break Some(rdf_types::Triple(
-										previous_id,
-										ValidId::Iri(vocabulary.insert(RDF_REST)),
-										id.into_term(),
-									));
-								}
+							if let Some(previous_id) = previous {
+								break Some(rdf_types::Triple(
+									previous_id,
+									ValidId::Iri(vocabulary.insert(RDF_REST)),
+									id.into_term(),
+								));
 							}
 						}
 						None => {
-- 
2.43.0


From ae91e727ed63e74f15c9be1a8726ac9136892e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 31/76] fix: relabel blank node properties

---
 crates/core/src/object/node/mod.rs | 34 ++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a37f152..51db64c 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -716,22 +716,48 @@ impl<T, B> Relabel<T, B> for Node<T, B> {
 				.collect();
 		}
 
-		for (_, objects) in self.properties_mut() {
-			for object in objects {
+		let mut properties = Properties::default();
+		for (mut property, mut objects) in std::mem::take(self.properties_mut()) {
+			relabel_property(&mut property, vocabulary, generator, relabeling);
+			for object in &mut objects {
 				object.relabel_with(vocabulary, generator, relabeling);
 			}
+			properties.insert_all(property, objects);
 		}
+		*self.properties_mut() = properties;
 
 		if let Some(reverse_properties) = self.reverse_properties_mut() {
-			for (_, nodes) in reverse_properties.iter_mut() {
-				for node in nodes {
+			let mut properties = ReverseProperties::default();
+			for (mut property, mut nodes) in std::mem::take(reverse_properties) {
+				relabel_property(&mut property, vocabulary, generator, relabeling);
+				for node in &mut nodes {
 					node.relabel_with(vocabulary, generator, relabeling);
 				}
+				properties.insert_all(property, nodes);
 			}
+			*reverse_properties = properties;
 		}
 	}
 }
 
+fn relabel_property<N: Vocabulary, G: Generator<N>>(
+	property: &mut Id<N::Iri, N::BlankId>,
+	vocabulary: &mut N,
+	generator: &mut G,
+	relabeling: &mut hashbrown::HashMap<N::BlankId, Subject<N::Iri, N::BlankId>>,
+) where
+	N::Iri: Clone,
+	N::BlankId: Clone + Eq + Hash,
+{
+	if let Some(b) = property.as_blank().cloned() {
+		*property = relabeling
+			.entry(b)
+			.or_insert_with(|| generator.next(vocabulary))
+			.clone()
+			.into();
+	}
+}
+
 impl<T: Eq + Hash, B: Eq + Hash> PartialEq for Node<T, B> {
 	fn eq(&self, other: &Self) -> bool {
 		self.id.eq(&other.id)
-- 
2.43.0


From 0e73e2a9363ab4c8934dae07414b31fae1b9fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:55 +0000
Subject: [PATCH 32/76] fix: a context entry that looks like a keyword defines
 no term

---
 crates/context-processing/src/algorithm/define.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 3d7080f..30db9df 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -170,6 +170,16 @@ where
 				}
 				EntryValueRef::Definition(d) => {
 					let key = term.as_key().unwrap();
+
+					// If term has the form of a keyword, processors SHOULD generate a warning
+					// and return.
+					if key.is_keyword_like() {
+						env.warnings
+							.handle(env.vocabulary, Warning::KeywordLikeTerm(key.to_string()));
+						defined.end(&term);
+						return Ok(());
+					}
+
 					// Initialize `previous_definition` to any existing term definition for `term` in
 					// `active_context`, removing that term definition from active context.
 					let previous_definition = active_context.set_normal(key.clone(), None);
-- 
2.43.0


From 7b1bd34c076df566482a374b52ebc324eceb99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:30 +0000
Subject: [PATCH 33/76] fix: contexts written back keep null mappings and
 define no new prefix

---
 crates/core/src/context/definition.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/context/definition.rs b/crates/core/src/context/definition.rs
index 69ab0cc..aca1be8 100644
--- a/crates/core/src/context/definition.rs
+++ b/crates/core/src/context/definition.rs
@@ -616,12 +616,26 @@ impl<T, B> NormalTermDefinition<T, B> {
 		let (id, reverse) = if self.reverse_property {
 			(None, self.value.map(|t| term_into_key(vocabulary, t)))
 		} else {
-			(self.value.map(|t| term_into_id(vocabulary, t)), None)
+			(
+				Some(
+					self.value
+						.map_or(Nullable::Null, |t| term_into_id(vocabulary, t)),
+				),
+				None,
+			)
 		};
 
+		// A simple definition whose IRI ends with a gen-delim character, or is
+		// a blank node identifier, would define a prefix.
+		let simple = !matches!(
+			&id,
+			Some(Nullable::Some(Id::Term(t)))
+				if t.starts_with("_:") || t.ends_with([':', '/', '?', '#', '[', ']', '@'])
+		);
+
 		let container = self.container.into_syntax();
 
-		json_ld_syntax::context::term_definition::Expanded {
+		let definition = json_ld_syntax::context::term_definition::Expanded {
 			id,
 			type_: self
 				.typ
@@ -636,8 +650,15 @@ impl<T, B> NormalTermDefinition<T, B> {
 			prefix: if self.prefix { Some(true) } else { None },
 			propagate: None,
 			protected: if self.protected { Some(true) } else { None },
+		};
+
+		if simple {
+			definition.simplify()
+		} else {
+			Nullable::Some(json_ld_syntax::context::TermDefinition::Expanded(Box::new(
+				definition,
+			)))
 		}
-		.simplify()
 	}
 
 	fn map_ids<U, C>(
-- 
2.43.0


From bb9b440cbdde4266739d73684c62bf3a0829a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:30 +0000
Subject: [PATCH 34/76] fix: compare the definitions of contexts

---
 crates/core/src/context/definition.rs | 2 +-
 crates/core/src/context/mod.rs        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/context/definition.rs b/crates/core/src/context/definition.rs
index aca1be8..956af54 100644
--- a/crates/core/src/context/definition.rs
+++ b/crates/core/src/context/definition.rs
@@ -71,7 +71,7 @@ impl<'a, T, B> BindingRef<'a, T, B> {
 }
 
 /// Context term definitions.
-#[derive(Clone)]
+#[derive(PartialEq, Eq, Clone)]
 pub struct Definitions<T, B> {
 	normal: HashMap<Key, NormalTermDefinition<T, B>>,
 	type_: Option<TypeTermDefinition>,
diff --git a/crates/core/src/context/mod.rs b/crates/core/src/context/mod.rs
index 9b8051e..76d00a4 100644
--- a/crates/core/src/context/mod.rs
+++ b/crates/core/src/context/mod.rs
@@ -333,5 +333,6 @@ impl<T: PartialEq, B: PartialEq> PartialEq for Context<T, B> {
 			&& self.default_language == other.default_language
 			&& self.default_base_direction == other.default_base_direction
 			&& self.previous_context == other.previous_context
+			&& self.definitions == other.definitions
 	}
 }
-- 
2.43.0


From af66ac24d2b6de841fd54379d6cf80edee6ec7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:13 +0000
Subject: [PATCH 35/76] fix: errors in remote contexts keep their error code

---
 crates/context-processing/src/lib.rs | 2 +-
 crates/core/src/loader/mod.rs        | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index 9a0bdb2..519d3c7 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -139,7 +139,7 @@ impl Error {
 			Self::InvalidScopedContext => ErrorCode::InvalidScopedContext,
 			Self::ProtectedTermRedefinition => ErrorCode::ProtectedTermRedefinition,
 			Self::ContextLoadingFailed(_) => ErrorCode::LoadingRemoteContextFailed,
-			Self::ContextExtractionFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(e) => e.code(),
 			Self::ForbiddenVocab => ErrorCode::InvalidVocabMapping,
 		}
 	}
diff --git a/crates/core/src/loader/mod.rs b/crates/core/src/loader/mod.rs
index f8ae90b..2998412 100644
--- a/crates/core/src/loader/mod.rs
+++ b/crates/core/src/loader/mod.rs
@@ -1,5 +1,6 @@
 use hashbrown::HashSet;
 use iref::{Iri, IriBuf};
+use json_ld_syntax::ErrorCode;
 use mime::Mime;
 use rdf_types::vocabulary::{IriVocabulary, IriVocabularyMut};
 use static_iref::iri;
@@ -524,6 +525,14 @@ impl ExtractContextError {
 	) -> Self {
 		Self::DuplicateContext
 	}
+
+	pub fn code(&self) -> ErrorCode {
+		match self {
+			Self::Unexpected(_) | Self::NoContext => ErrorCode::InvalidRemoteContext,
+			Self::DuplicateContext => ErrorCode::DuplicateKey,
+			Self::Syntax(e) => e.code(),
+		}
+	}
 }
 
 pub trait ExtractContext {
-- 
2.43.0


From 2ac83ef0f47a37073fdc0d48ed18071295b1cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:33 +0000
Subject: [PATCH 36/76] fix: report @type values that are not strings as
 invalid type values

---
 crates/expansion/src/value.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 084fe6c..26b6641 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -21,6 +21,9 @@ pub enum InvalidValue {
 	#[error("Invalid typed value")]
 	TypedValue,
 
+	#[error("Invalid `@type` value")]
+	TypeValue,
+
 	#[error("Invalid value object")]
 	ValueObject,
 
@@ -41,6 +44,7 @@ impl InvalidValue {
 			Self::BaseDirection => ErrorCode::InvalidBaseDirection,
 			Self::IndexValue => ErrorCode::InvalidIndexValue,
 			Self::TypedValue => ErrorCode::InvalidTypedValue,
+			Self::TypeValue => ErrorCode::InvalidTypeValue,
 			Self::ValueObject => ErrorCode::InvalidValueObject,
 			Self::ValueObjectValue => ErrorCode::InvalidValueObjectValue,
 			Self::LanguageTaggedValue => ErrorCode::InvalidLanguageTaggedValue,
@@ -149,8 +153,16 @@ where
 						}
 						_ => return Err(InvalidValue::TypedValue),
 					}
-				} else {
+				} else if value
+					.as_array()
+					.is_some_and(|items| items.iter().all(json_syntax::Value::is_string))
+				{
 					return Err(InvalidValue::TypedValue);
+				} else {
+					// If value is neither a string nor an array of strings, an
+					// invalid type value error has been detected and processing
+					// is aborted.
+					return Err(InvalidValue::TypeValue);
 				}
 			}
 			Term::Keyword(Keyword::Value) => (),
-- 
2.43.0


From de6f81ad9b9c1a84f0671efa7544bfd9f6e3209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:42 +0000
Subject: [PATCH 37/76] fix: traverse the content of lists

---
 crates/core/src/object/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index f3b16ba..73fbfd2 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -1081,6 +1081,10 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 			Self::IndexedNodeList(l) => SubFragments::IndexedNodeList(l.iter()),
 			Self::ValueFragment(i) => SubFragments::Value(i.sub_fragments()),
 			Self::NodeFragment(i) => SubFragments::Node(i.sub_fragments()),
+			Self::ListFragment(list::FragmentRef::Entry(l)) => {
+				SubFragments::ListEntry(Some(()), Some(l))
+			}
+			Self::ListFragment(list::FragmentRef::Value(l)) => SubFragments::List(l.iter()),
 			_ => SubFragments::None,
 		}
 	}
@@ -1117,6 +1121,8 @@ pub enum SubFragments<'a, T, B> {
 	Value(value::SubFragments<'a, T>),
 	Node(node::SubFragments<'a, T, B>),
 	IndexedNodeList(std::slice::Iter<'a, IndexedNode<T, B>>),
+	ListEntry(Option<()>, Option<&'a [IndexedObject<T, B>]>),
+	List(std::slice::Iter<'a, IndexedObject<T, B>>),
 }
 
 impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
@@ -1136,6 +1142,14 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 			Self::Value(i) => i.next().map(FragmentRef::ValueFragment),
 			Self::Node(i) => i.next(),
 			Self::IndexedNodeList(i) => i.next().map(FragmentRef::IndexedNode),
+			Self::ListEntry(k, v) => k
+				.take()
+				.map(|()| FragmentRef::ListFragment(list::FragmentRef::Key))
+				.or_else(|| {
+					v.take()
+						.map(|v| FragmentRef::ListFragment(list::FragmentRef::Value(v)))
+				}),
+			Self::List(i) => i.next().map(FragmentRef::IndexedObject),
 		}
 	}
 }
-- 
2.43.0


From 90a220e5eaf4e2c41e93b3fd55b4972e751f6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 38/76] fix: tell JSON objects from arrays when traversing a
 document

---
 crates/core/src/object/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index 73fbfd2..d52d51d 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -1054,6 +1054,7 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 	pub fn is_json_array(&self) -> bool {
 		match self {
 			Self::IndexedNodeList(_) => true,
+			Self::ListFragment(list::FragmentRef::Value(_)) => true,
 			Self::ValueFragment(i) => i.is_json_array(),
 			Self::NodeFragment(n) => n.is_json_array(),
 			_ => false,
@@ -1063,8 +1064,8 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 	pub fn is_json_object(&self) -> bool {
 		match self {
 			Self::Object(_) | Self::IndexedObject(_) | Self::Node(_) | Self::IndexedNode(_) => true,
-			Self::ValueFragment(i) => i.is_json_array(),
-			Self::NodeFragment(i) => i.is_json_array(),
+			Self::ValueFragment(i) => i.is_json_object(),
+			Self::NodeFragment(i) => i.is_json_object(),
 			_ => false,
 		}
 	}
-- 
2.43.0


From 0f6125b6e0b267095880f51eaa8639a6ef7da402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:20 +0000
Subject: [PATCH 39/76] fix: name of the index entry is @index

---
 crates/core/src/object/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index d52d51d..01b3170 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -721,7 +721,7 @@ impl<'a, T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoRefWithContext<'a, str,
 {
 	fn into_ref_with(self, vocabulary: &'a N) -> &'a str {
 		match self {
-			IndexedEntryKeyRef::Index => "@value",
+			IndexedEntryKeyRef::Index => "@index",
 			IndexedEntryKeyRef::Object(e) => e.into_with(vocabulary).into_str(),
 		}
 	}
-- 
2.43.0


From d936492f49425f824b7ffd1114670b551fe316e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:22 +0000
Subject: [PATCH 40/76] fix: visit the reverse properties when traversing a
 document

---
 crates/core/src/object/node/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 51db64c..af8254c 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -878,7 +878,7 @@ impl<'a, T, B> EntryValueRef<'a, T, B> {
 			Self::Type(l) => SubFragments::Type(l.iter()),
 			Self::Graph(g) => SubFragments::Graph(g.iter()),
 			Self::Included(i) => SubFragments::Included(i.iter()),
-			Self::Reverse(r) => SubFragments::Reverse(r.iter()),
+			Self::Reverse(r) => SubFragments::Reverse(r.iter(), None),
 			Self::Property(p) => SubFragments::Property(p.iter()),
 			_ => SubFragments::None,
 		}
@@ -1202,7 +1202,10 @@ pub enum SubFragments<'a, T, B> {
 	Type(std::slice::Iter<'a, Id<T, B>>),
 	Graph(indexmap::set::Iter<'a, IndexedObject<T, B>>),
 	Included(indexmap::set::Iter<'a, IndexedNode<T, B>>),
-	Reverse(reverse_properties::Iter<'a, T, B>),
+	Reverse(
+		reverse_properties::Iter<'a, T, B>,
+		Option<&'a [IndexedNode<T, B>]>,
+	),
 	Property(std::slice::Iter<'a, IndexedObject<T, B>>),
 }
 
@@ -1224,9 +1227,13 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				.map(|t| super::FragmentRef::NodeFragment(FragmentRef::TypeFragment(t))),
 			Self::Graph(g) => g.next().map(|o| super::FragmentRef::IndexedObject(o)),
 			Self::Included(i) => i.next().map(|n| super::FragmentRef::IndexedNode(n)),
-			Self::Reverse(r) => r
-				.next()
-				.map(|(_, n)| super::FragmentRef::IndexedNodeList(n)),
+			Self::Reverse(r, nodes) => match nodes.take() {
+				Some(n) => Some(super::FragmentRef::IndexedNodeList(n)),
+				None => r.next().map(|(p, n)| {
+					*nodes = Some(n);
+					super::FragmentRef::NodeFragment(FragmentRef::Key(EntryKeyRef::Property(p)))
+				}),
+			},
 			Self::Property(o) => o.next().map(|o| super::FragmentRef::IndexedObject(o)),
 		}
 	}
-- 
2.43.0


From 60abc9ecf7cbff039327b73201a96dafae73fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:15 +0000
Subject: [PATCH 41/76] fix: update the inverse context when the definition of
 @type changes

---
 crates/core/src/context/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/context/mod.rs b/crates/core/src/context/mod.rs
index 76d00a4..435e088 100644
--- a/crates/core/src/context/mod.rs
+++ b/crates/core/src/context/mod.rs
@@ -191,6 +191,7 @@ impl<T, B> Context<T, B> {
 
 	/// Sets the `@type` definition.
 	pub fn set_type(&mut self, type_: Option<TypeTermDefinition>) -> Option<TypeTermDefinition> {
+		self.inverse.take();
 		self.definitions.set_type(type_)
 	}
 
-- 
2.43.0


From 72963f25e03c636dbbfd3705dad70b65c29908b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 42/76] fix: do not expand IRIs and blank node identifiers
 against a prefix or the vocabulary

---
 .../context-processing/src/algorithm/iri.rs   | 56 ++++++++++---------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/crates/context-processing/src/algorithm/iri.rs b/crates/context-processing/src/algorithm/iri.rs
index 5b4d5dd..1cbcc54 100644
--- a/crates/context-processing/src/algorithm/iri.rs
+++ b/crates/context-processing/src/algorithm/iri.rs
@@ -8,9 +8,9 @@ use json_ld_core::{warning, Context, Id, Loader, Term};
 use json_ld_syntax::{self as syntax, context::definition::Key, ExpandableRef, Nullable};
 use rdf_types::{
 	vocabulary::{BlankIdVocabulary, IriVocabulary},
-	BlankId, Vocabulary, VocabularyMut,
+	Vocabulary, VocabularyMut,
 };
-use syntax::{context::definition::KeyOrKeywordRef, is_keyword_like, CompactIri};
+use syntax::{context::definition::KeyOrKeywordRef, is_keyword_like};
 
 pub struct MalformedIri(pub String);
 
@@ -95,17 +95,18 @@ where
 			}
 
 			if value.find(':').map(|i| i > 0).unwrap_or(false) {
-				if let Ok(blank_id) = BlankId::new(value) {
-					return Ok(Some(Term::Id(Id::blank(
-						env.vocabulary.insert_blank_id(blank_id),
-					))));
-				}
-
-				if value == "_:" {
-					return Ok(Some(Term::Id(Id::Invalid("_:".to_string()))));
-				}
+				if let Some((prefix, suffix)) = value.split_once(':') {
+					// If prefix is underscore (_) or suffix begins with double-forward-slash (//),
+					// return value as it is already an IRI or a blank node identifier.
+					if prefix == "_" || suffix.starts_with("//") {
+						let id = Id::from_string_in(env.vocabulary, value.to_string());
+
+						return Ok(Some(match id {
+							Id::Invalid(value) => invalid_iri(&mut env, value),
+							id => Term::Id(id),
+						}));
+					}
 
-				if let Ok(compact_iri) = CompactIri::new(value) {
 					// If local context is not null, it contains a `prefix` entry, and the value of the
 					// prefix entry in defined is not true, invoke the Create Term Definition
 					// algorithm, passing active context, local context, prefix as term, and defined.
@@ -119,7 +120,7 @@ where
 						},
 						active_context,
 						local_context,
-						KeyOrKeywordRef::Key(compact_iri.prefix().into()),
+						KeyOrKeywordRef::Key(prefix.into()),
 						defined,
 						remote_contexts,
 						base_url,
@@ -131,13 +132,13 @@ where
 					// If active context contains a term definition for prefix having a non-null IRI
 					// mapping and the prefix flag of the term definition is true, return the result
 					// of concatenating the IRI mapping associated with prefix and suffix.
-					let prefix_key = Key::from(compact_iri.prefix().to_string());
+					let prefix_key = Key::from(prefix.to_string());
 					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
 						if term_definition.prefix {
 							if let Some(mapping) = &term_definition.value {
 								let mut result =
 									mapping.with(&*env.vocabulary).as_str().to_string();
-								result.push_str(compact_iri.suffix());
+								result.push_str(suffix);
 
 								return Ok(Some(Term::Id(Id::from_string_in(
 									env.vocabulary,
@@ -272,27 +273,28 @@ where
 			}
 
 			if value.find(':').map(|i| i > 0).unwrap_or(false) {
-				if let Ok(blank_id) = BlankId::new(value) {
-					return Ok(Some(Term::Id(Id::blank(
-						env.vocabulary.insert_blank_id(blank_id),
-					))));
-				}
-
-				if value == "_:" {
-					return Ok(Some(Term::Id(Id::Invalid("_:".to_string()))));
-				}
+				if let Some((prefix, suffix)) = value.split_once(':') {
+					// If prefix is underscore (_) or suffix begins with double-forward-slash (//),
+					// return value as it is already an IRI or a blank node identifier.
+					if prefix == "_" || suffix.starts_with("//") {
+						let id = Id::from_string_in(env.vocabulary, value.to_string());
+
+						return Ok(Some(match id {
+							Id::Invalid(value) => invalid_iri_simple(env, value),
+							id => Term::Id(id),
+						}));
+					}
 
-				if let Ok(compact_iri) = CompactIri::new(value) {
 					// If active context contains a term definition for prefix having a non-null IRI
 					// mapping and the prefix flag of the term definition is true, return the result
 					// of concatenating the IRI mapping associated with prefix and suffix.
-					let prefix_key = Key::from(compact_iri.prefix().to_string());
+					let prefix_key = Key::from(prefix.to_string());
 					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
 						if term_definition.prefix {
 							if let Some(mapping) = &term_definition.value {
 								let mut result =
 									mapping.with(&*env.vocabulary).as_str().to_string();
-								result.push_str(compact_iri.suffix());
+								result.push_str(suffix);
 
 								return Ok(Some(Term::Id(Id::from_string_in(
 									env.vocabulary,
-- 
2.43.0


From 2eed9497f4a2879a2c1f71e946481f0f839dbf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:59 +0000
Subject: [PATCH 43/76] fix: give the number of bindings left in an iterator of
 context bindings

---
 crates/syntax/src/context/definition/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/syntax/src/context/definition/mod.rs b/crates/syntax/src/context/definition/mod.rs
index b95e220..bc00b7b 100644
--- a/crates/syntax/src/context/definition/mod.rs
+++ b/crates/syntax/src/context/definition/mod.rs
@@ -161,6 +161,10 @@ pub struct BindingsIter<'a>(indexmap::map::Iter<'a, Key, Nullable<TermDefinition
 impl<'a> Iterator for BindingsIter<'a> {
 	type Item = (&'a Key, Nullable<&'a TermDefinition>);
 
+	fn size_hint(&self) -> (usize, Option<usize>) {
+		self.0.size_hint()
+	}
+
 	fn next(&mut self) -> Option<Self::Item> {
 		self.0.next().map(|(k, d)| (k, d.as_ref()))
 	}
-- 
2.43.0


From 96f32a9bb3f0242bfb0938c510e64ee867af3fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:56 +0000
Subject: [PATCH 44/76] fix: serialize the definition of @type without a null
 entry

---
 crates/syntax/src/context/definition/type_.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/context/definition/type_.rs b/crates/syntax/src/context/definition/type_.rs
index 4edf300..f81f218 100644
--- a/crates/syntax/src/context/definition/type_.rs
+++ b/crates/syntax/src/context/definition/type_.rs
@@ -6,7 +6,14 @@ pub struct Type {
 	#[cfg_attr(feature = "serde", serde(rename = "@container"))]
 	pub container: TypeContainer,
 
-	#[cfg_attr(feature = "serde", serde(rename = "@protected"))]
+	#[cfg_attr(
+		feature = "serde",
+		serde(
+			rename = "@protected",
+			default,
+			skip_serializing_if = "Option::is_none"
+		)
+	)]
 	pub protected: Option<bool>,
 }
 
-- 
2.43.0


From 18745d698b8ca89f850404d995c0a4d6d5096d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:56 +0000
Subject: [PATCH 45/76] fix: deserialize null scoped contexts

---
 .../syntax/src/context/term_definition/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/context/term_definition/mod.rs b/crates/syntax/src/context/term_definition/mod.rs
index 3d22c94..a8707f0 100644
--- a/crates/syntax/src/context/term_definition/mod.rs
+++ b/crates/syntax/src/context/term_definition/mod.rs
@@ -93,6 +93,18 @@ impl From<BlankIdBuf> for Simple {
 	}
 }
 
+/// Deserializes a scoped context, for which `null` is a value.
+#[cfg(feature = "serde")]
+fn deserialize_scoped_context<'de, D>(
+	deserializer: D,
+) -> Result<Option<Box<context::Context>>, D::Error>
+where
+	D: serde::Deserializer<'de>,
+{
+	use serde::Deserialize;
+	Ok(Some(Box::new(context::Context::deserialize(deserializer)?)))
+}
+
 /// Expanded term definition.
 #[derive(PartialEq, Eq, Clone, Educe, Debug)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -122,7 +134,12 @@ pub struct Expanded {
 
 	#[cfg_attr(
 		feature = "serde",
-		serde(rename = "@context", default, skip_serializing_if = "Option::is_none")
+		serde(
+			rename = "@context",
+			default,
+			deserialize_with = "deserialize_scoped_context",
+			skip_serializing_if = "Option::is_none"
+		)
 	)]
 	pub context: Option<Box<context::Context>>,
 
-- 
2.43.0


From c6c71c63f36a7cbc782a37be0c0fc626d39d4eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:01 +0000
Subject: [PATCH 46/76] fix: traverse term definitions and scoped contexts

---
 crates/syntax/src/context/mod.rs               |  7 +++++++
 .../syntax/src/context/term_definition/mod.rs  | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/crates/syntax/src/context/mod.rs b/crates/syntax/src/context/mod.rs
index 6848889..2138401 100644
--- a/crates/syntax/src/context/mod.rs
+++ b/crates/syntax/src/context/mod.rs
@@ -89,6 +89,13 @@ impl Context {
 		}
 	}
 
+	fn sub_fragments(&self) -> SubFragments<'_> {
+		match self {
+			Self::One(c) => SubFragments::Context(c.sub_items()),
+			Self::Many(m) => SubFragments::ContextArray(m.iter()),
+		}
+	}
+
 	pub fn iter(&self) -> std::slice::Iter<'_, ContextEntry> {
 		self.as_slice().iter()
 	}
diff --git a/crates/syntax/src/context/term_definition/mod.rs b/crates/syntax/src/context/term_definition/mod.rs
index a8707f0..244da3f 100644
--- a/crates/syntax/src/context/term_definition/mod.rs
+++ b/crates/syntax/src/context/term_definition/mod.rs
@@ -511,6 +511,7 @@ impl<'a> EntryValueRef<'a> {
 
 	pub fn is_array(&self) -> bool {
 		match self {
+			Self::Context(c) => c.is_array(),
 			Self::Container(Nullable::Some(c)) => c.is_array(),
 			_ => false,
 		}
@@ -630,6 +631,9 @@ pub enum FragmentRef<'a> {
 
 	/// Container value fragment.
 	ContainerFragment(&'a ContainerKind),
+
+	/// Scoped context fragment.
+	ContextFragment(Box<context::FragmentRef<'a>>),
 }
 
 impl<'a> FragmentRef<'a> {
@@ -644,6 +648,7 @@ impl<'a> FragmentRef<'a> {
 	pub fn is_array(&self) -> bool {
 		match self {
 			Self::Value(v) => v.is_array(),
+			Self::ContextFragment(f) => f.is_array(),
 			_ => false,
 		}
 	}
@@ -651,15 +656,21 @@ impl<'a> FragmentRef<'a> {
 	pub fn is_object(&self) -> bool {
 		match self {
 			Self::Value(v) => v.is_object(),
+			Self::ContextFragment(f) => f.is_object(),
 			_ => false,
 		}
 	}
 
 	pub fn sub_fragments(&self) -> SubFragments<'a> {
 		match self {
+			Self::Entry(e) => SubFragments::Entry(Some(e.key()), Some(Box::new(e.value()))),
 			Self::Value(EntryValueRef::Container(Nullable::Some(c))) => {
 				SubFragments::Container(c.sub_fragments())
 			}
+			Self::Value(EntryValueRef::Context(c)) => {
+				SubFragments::Context(Box::new(c.sub_fragments()))
+			}
+			Self::ContextFragment(f) => SubFragments::Context(Box::new(f.sub_items())),
 			_ => SubFragments::None,
 		}
 	}
@@ -667,7 +678,9 @@ impl<'a> FragmentRef<'a> {
 
 pub enum SubFragments<'a> {
 	None,
+	Entry(Option<EntryKey>, Option<Box<EntryValueRef<'a>>>),
 	Container(container::SubValues<'a>),
+	Context(Box<context::SubFragments<'a>>),
 }
 
 impl<'a> Iterator for SubFragments<'a> {
@@ -676,7 +689,12 @@ impl<'a> Iterator for SubFragments<'a> {
 	fn next(&mut self) -> Option<Self::Item> {
 		match self {
 			Self::None => None,
+			Self::Entry(k, v) => k
+				.take()
+				.map(FragmentRef::Key)
+				.or_else(|| v.take().map(|v| FragmentRef::Value(*v))),
 			Self::Container(c) => c.next().map(FragmentRef::ContainerFragment),
+			Self::Context(c) => c.next().map(|f| FragmentRef::ContextFragment(Box::new(f))),
 		}
 	}
 }
-- 
2.43.0


From a26d08001f9f1b8853b1253c9cc273b42ed1fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 47/76] fix: accept any lexical form of 1.1 as @version

---
 crates/syntax/src/context/definition/version.rs | 8 ++++----
 crates/syntax/src/context/try_from_json.rs      | 7 +++----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/syntax/src/context/definition/version.rs b/crates/syntax/src/context/definition/version.rs
index cb8d633..6fac63f 100644
--- a/crates/syntax/src/context/definition/version.rs
+++ b/crates/syntax/src/context/definition/version.rs
@@ -64,10 +64,10 @@ impl TryFrom<json_syntax::NumberBuf> for Version {
 	type Error = UnknownVersion;
 
 	fn try_from(value: json_syntax::NumberBuf) -> Result<Self, Self::Error> {
-		if value.trimmed().as_str() == "1.1" {
-			Ok(Self::V1_1)
-		} else {
-			Err(UnknownVersion(value.to_string()))
+		// The lexical form of the number (`1.1`, `1.10`, `11e-1`) is irrelevant.
+		match value.as_str().parse::<f64>() {
+			Ok(1.1) => Ok(Self::V1_1),
+			_ => Err(UnknownVersion(value.to_string())),
 		}
 	}
 }
diff --git a/crates/syntax/src/context/try_from_json.rs b/crates/syntax/src/context/try_from_json.rs
index 0bcffa0..4e0249e 100644
--- a/crates/syntax/src/context/try_from_json.rs
+++ b/crates/syntax/src/context/try_from_json.rs
@@ -214,10 +214,9 @@ impl TryFromJson for definition::Version {
 
 	fn try_from_json(value: json_syntax::Value) -> Result<Self, InvalidContext> {
 		match value {
-			json_syntax::Value::Number(n) => match n.as_str() {
-				"1.1" => Ok(Self::V1_1),
-				_ => Err(InvalidContext::InvalidTermDefinition),
-			},
+			json_syntax::Value::Number(n) => {
+				Self::try_from(n).map_err(|_| InvalidContext::InvalidTermDefinition)
+			}
 			unexpected => Err(InvalidContext::Unexpected(
 				unexpected.kind(),
 				&[json_syntax::Kind::Number],
-- 
2.43.0


From 1ac7d1c5513c785e2a0749cc0981756c269d2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:08 +0000
Subject: [PATCH 48/76] fix: compare objects with duplicate keys without
 panicking

---
 crates/syntax/src/compare.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/syntax/src/compare.rs b/crates/syntax/src/compare.rs
index df760ac..d582236 100644
--- a/crates/syntax/src/compare.rs
+++ b/crates/syntax/src/compare.rs
@@ -35,15 +35,19 @@ impl Compare for Value {
 			}
 			(Self::Object(a), Self::Object(b)) => {
 				if a.len() == b.len() {
-					for entry in a {
-						match b.get_unique(&*entry.key).expect("invalid JSON-LD") {
-							Some(value) => {
-								if !entry.value.compare(value) {
-									return false;
-								}
+					let mut selected = Vec::new();
+					selected.resize(b.len(), false);
+
+					'next_entry: for entry in a {
+						// There can be more than one, `json_syntax` keeps duplicate keys.
+						for (i, other) in b.get_with_index(&*entry.key) {
+							if !selected[i] && entry.value.compare(other) {
+								selected[i] = true;
+								continue 'next_entry;
 							}
-							None => return false,
 						}
+
+						return false;
 					}
 
 					true
-- 
2.43.0


From b55fb11c028de42e952d5ca00e7b908bb3b70eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:57 +0000
Subject: [PATCH 49/76] fix: let the URL of a mounted directory end with a
 slash

`FsLoader::mount` with an URL such as `http://example.com/a/`, or without
path, mounted a directory none of whose files could be loaded.
---
 crates/core/src/loader/fs.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/loader/fs.rs b/crates/core/src/loader/fs.rs
index e701190..6209c21 100644
--- a/crates/core/src/loader/fs.rs
+++ b/crates/core/src/loader/fs.rs
@@ -45,7 +45,14 @@ impl FsLoader {
 	/// Any document with an IRI matching the given prefix will be loaded from
 	/// the referenced local directory.
 	#[inline(always)]
-	pub fn mount<P: AsRef<Path>>(&mut self, url: IriBuf, path: P) {
+	pub fn mount<P: AsRef<Path>>(&mut self, mut url: IriBuf, path: P) {
+		// The mounted URL is a directory, with or without the final `/`.
+		if url.path().is_empty() && url.authority().is_some() {
+			url.set_path(iref::iri::Path::EMPTY_ABSOLUTE);
+		} else if url.path().as_str().len() > 1 && url.path().as_str().ends_with('/') {
+			url.path_mut().pop();
+		}
+
 		self.mount_points.push((path.as_ref().into(), url));
 	}
 
-- 
2.43.0


From ca4ef9d70817177c843df58137472b6c05ee1ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:57 +0000
Subject: [PATCH 50/76] fix: keep FsLoader in the mounted directories

With a prefix whose path is empty and relative (`urn:`), the dot segments of
an URL such as `urn:../secret` led out of the mounted directory.
---
 crates/core/src/loader/fs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/core/src/loader/fs.rs b/crates/core/src/loader/fs.rs
index 6209c21..a4a62ce 100644
--- a/crates/core/src/loader/fs.rs
+++ b/crates/core/src/loader/fs.rs
@@ -62,6 +62,11 @@ impl FsLoader {
 			if let Some((suffix, _, _)) = url.as_iri_ref().suffix(target_url) {
 				let mut filepath = path.clone();
 				for seg in suffix.as_path().segments() {
+					if seg.as_str() == ".." {
+						// Not a file of the mounted directory.
+						return None;
+					}
+
 					filepath.push(seg.as_str())
 				}
 
-- 
2.43.0


From 08ca4646b39a98bd9e7f87d7098eb18fa4bdecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:19 +0000
Subject: [PATCH 51/76] fix: errors in contexts given by URL keep their error
 code

The expand context and the compaction context, when loaded from a URL,
reported any mistake in the context as a loading failure.
---
 crates/core/src/loader/mod.rs | 10 ++++++++++
 src/processor/mod.rs          |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/loader/mod.rs b/crates/core/src/loader/mod.rs
index 2998412..dae9718 100644
--- a/crates/core/src/loader/mod.rs
+++ b/crates/core/src/loader/mod.rs
@@ -99,6 +99,16 @@ pub enum ContextLoadError {
 	ContextExtractionFailed(#[from] ExtractContextError),
 }
 
+impl ContextLoadError {
+	/// Returns the code of this error.
+	pub fn code(&self) -> ErrorCode {
+		match self {
+			Self::LoadingDocumentFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(e) => e.code(),
+		}
+	}
+}
+
 impl<I> RemoteContextReference<I> {
 	/// Loads the remote context with the given `vocabulary` and `loader`.
 	///
diff --git a/src/processor/mod.rs b/src/processor/mod.rs
index 4fa0406..2a5d10c 100644
--- a/src/processor/mod.rs
+++ b/src/processor/mod.rs
@@ -170,7 +170,7 @@ impl ExpandError {
 			Self::Expansion(e) => e.code(),
 			Self::ContextProcessing(e) => e.code(),
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
@@ -212,7 +212,7 @@ impl CompactError {
 			Self::ContextProcessing(e) => e.code(),
 			Self::Compaction(e) => e.code(),
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
@@ -247,7 +247,7 @@ impl<I, B> FlattenError<I, B> {
 			Self::Compact(e) => e.code(),
 			Self::ConflictingIndexes(_) => ErrorCode::ConflictingIndexes,
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
-- 
2.43.0


From 080bb3aab42ed3aee81a77ca7da842eaddba5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:19 +0000
Subject: [PATCH 52/76] fix: process the context of a Link header as a remote
 context

It must be processed as the reference it is: in particular its `@base` is
ignored.
---
 src/processor/remote_document.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/processor/remote_document.rs b/src/processor/remote_document.rs
index a2c07da..2f9786f 100644
--- a/src/processor/remote_document.rs
+++ b/src/processor/remote_document.rs
@@ -81,11 +81,8 @@ impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 		};
 
 		if let Some(context_url) = self.context_url() {
-			active_context = RemoteDocumentReference::Iri(context_url.clone())
-				.load_context_with(vocabulary, loader)
-				.await
-				.map_err(ExpandError::ContextLoading)?
-				.into_document()
+			let context = json_ld_syntax::Context::from(vocabulary.iri(context_url).unwrap());
+			active_context = context
 				.process_full(
 					vocabulary,
 					&active_context,
-- 
2.43.0


From b6940164c2d36e316000aa9550ba7e7c4e402322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:24 +0000
Subject: [PATCH 53/76] fix: give HTTP documents their final URL, after
 redirections

---
 crates/core/src/loader/reqwest/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index abb9fff..b2ddb67 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -163,6 +163,13 @@ impl Loader for ReqwestLoader {
 				.await
 				.map_err(|e| LoadError::new(url.clone(), e))?;
 
+			// The URL of the document is the final one, after HTTP redirections.
+			if reqwest::Url::parse(&url).ok().as_ref() != Some(response.url()) {
+				if let Ok(final_url) = IriBuf::new(response.url().to_string()) {
+					url = final_url
+				}
+			}
+
 			match response.status() {
 				StatusCode::OK => {
 					let mut content_types = response
-- 
2.43.0


From 67b2138544bd48efbe10988afee6d78a53fb41cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:41 +0000
Subject: [PATCH 54/76] fix: load HTTP documents of any +json media type

---
 crates/core/src/loader/reqwest/content_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/loader/reqwest/content_type.rs b/crates/core/src/loader/reqwest/content_type.rs
index 6f13911..96e8168 100644
--- a/crates/core/src/loader/reqwest/content_type.rs
+++ b/crates/core/src/loader/reqwest/content_type.rs
@@ -104,7 +104,7 @@ impl ContentType {
 	}
 
 	pub fn is_json_ld(&self) -> bool {
-		self.media_type == "application/json" || self.media_type == "application/ld+json"
+		self.media_type == "application/json" || self.media_type.suffix() == Some(mime::JSON)
 	}
 
 	pub fn media_type(&self) -> &Mime {
-- 
2.43.0


From 78eae2ea35cefa89d0817dfc2b9ffd7368fe7506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:19 +0000
Subject: [PATCH 55/76] fix: read all the forms of Content-Type parameters

---
 .../core/src/loader/reqwest/content_type.rs   | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/loader/reqwest/content_type.rs b/crates/core/src/loader/reqwest/content_type.rs
index 96e8168..62fd30e 100644
--- a/crates/core/src/loader/reqwest/content_type.rs
+++ b/crates/core/src/loader/reqwest/content_type.rs
@@ -39,21 +39,22 @@ impl ContentType {
 					None => break,
 				},
 				State::NextParam => match bytes.next().copied() {
+					Some(b' ' | b'\t') => (),
 					Some(b';') => state = State::BeginKey,
 					Some(_) => return None,
 					None => break,
 				},
 				State::BeginKey => match bytes.next().copied() {
-					Some(b' ') => (),
+					Some(b' ' | b'\t' | b';') => (),
 					Some(b) => {
-						current_key.push(b);
+						current_key.push(b.to_ascii_lowercase());
 						state = State::Key
 					}
-					None => return None,
+					None => break,
 				},
 				State::Key => match bytes.next().copied() {
 					Some(b'=') => state = State::BeginValue,
-					Some(b) => current_key.push(b),
+					Some(b) => current_key.push(b.to_ascii_lowercase()),
 					None => return None,
 				},
 				State::BeginValue => match bytes.next().copied() {
@@ -73,6 +74,10 @@ impl ContentType {
 
 						state = State::NextParam
 					}
+					Some(b'\\') => match bytes.next().copied() {
+						Some(b) => current_value.push(b),
+						None => return None,
+					},
 					Some(b) => current_value.push(b),
 					None => return None,
 				},
@@ -85,6 +90,14 @@ impl ContentType {
 
 						state = State::BeginKey
 					}
+					Some(b' ' | b'\t') => {
+						params.insert(
+							std::mem::take(&mut current_key),
+							std::mem::take(&mut current_value),
+						);
+
+						state = State::NextParam
+					}
 					Some(b) => current_value.push(b),
 					None => {
 						params.insert(
@@ -97,7 +110,7 @@ impl ContentType {
 			}
 		}
 
-		match Mime::from_str(std::str::from_utf8(&mime).ok()?) {
+		match Mime::from_str(std::str::from_utf8(&mime).ok()?.trim()) {
 			Ok(media_type) => Some(Self { media_type, params }),
 			Err(_) => None,
 		}
-- 
2.43.0


From 620cda2e3b140c7b996e45dfdb3621cd570df283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:13 +0000
Subject: [PATCH 56/76] fix: read all the forms of Link headers

---
 crates/core/src/loader/reqwest/link.rs | 157 +++++++++++++++----------
 crates/core/src/loader/reqwest/mod.rs  |  43 ++++---
 2 files changed, 112 insertions(+), 88 deletions(-)

diff --git a/crates/core/src/loader/reqwest/link.rs b/crates/core/src/loader/reqwest/link.rs
index 50b2a25..9e29130 100644
--- a/crates/core/src/loader/reqwest/link.rs
+++ b/crates/core/src/loader/reqwest/link.rs
@@ -1,6 +1,7 @@
 use hashbrown::HashMap;
 use iref::{IriRef, IriRefBuf};
 use reqwest::header::HeaderValue;
+use std::iter::Peekable;
 
 pub struct Link {
 	href: IriRefBuf,
@@ -8,77 +9,71 @@ pub struct Link {
 }
 
 impl Link {
+	/// Parses the first link of the given header value.
+	#[cfg(test)]
 	pub fn new(value: &HeaderValue) -> Option<Self> {
-		enum State {
-			BeginHref,
-			Href,
-			NextParam,
-			BeginKey,
-			Key,
-			BeginValue,
-			Value,
-		}
-
-		let mut state = State::BeginHref;
-		let mut href = Vec::new();
-		let mut current_key = Vec::new();
-		let mut current_value = Vec::new();
-		let mut params = HashMap::new();
+		Self::parse(&mut value.as_bytes().iter().copied().peekable())
+	}
 
-		let mut bytes = value.as_bytes().iter();
+	/// Parses all the links of the given header value.
+	pub fn all(value: &HeaderValue) -> impl '_ + Iterator<Item = Self> {
+		let mut bytes = value.as_bytes().iter().copied().peekable();
+		std::iter::from_fn(move || Self::parse(&mut bytes))
+	}
 
+	/// Parses the next link, up to the comma or the end.
+	///
+	/// Links whose target is not a valid IRI reference are ignored.
+	fn parse(bytes: &mut Peekable<impl Iterator<Item = u8>>) -> Option<Self> {
 		loop {
-			match state {
-				State::BeginHref => match bytes.next().copied() {
-					Some(b'<') => state = State::Href,
-					_ => break None,
-				},
-				State::Href => match bytes.next().copied() {
-					Some(b'>') => state = State::NextParam,
-					Some(b) => {
-						href.push(b);
-					}
-					None => break None,
-				},
-				State::NextParam => match bytes.next().copied() {
-					Some(b';') => state = State::BeginKey,
-					Some(_) => break None,
-					None => {
-						break match IriRefBuf::from_vec(href) {
-							Ok(href) => Some(Self { href, params }),
-							Err(_) => None,
+			while bytes
+				.next_if(|b| matches!(b, b' ' | b'\t' | b','))
+				.is_some()
+			{}
+
+			if bytes.next()? != b'<' {
+				break None;
+			}
+
+			let mut href = Vec::new();
+			loop {
+				match bytes.next()? {
+					b'>' => break,
+					b => href.push(b),
+				}
+			}
+
+			let mut params = HashMap::new();
+			loop {
+				skip_whitespace(bytes);
+				match bytes.next() {
+					Some(b';') => {
+						skip_whitespace(bytes);
+						let key = parse_token(bytes).to_ascii_lowercase();
+						skip_whitespace(bytes);
+
+						let value = if bytes.next_if_eq(&b'=').is_some() {
+							skip_whitespace(bytes);
+							match bytes.next_if_eq(&b'"') {
+								Some(_) => parse_quoted_string(bytes)?,
+								None => parse_token(bytes),
+							}
+						} else {
+							Vec::new()
+						};
+
+						if !key.is_empty() {
+							// Only the first occurrence of a parameter counts.
+							params.entry(key).or_insert(value);
 						}
 					}
-				},
-				State::BeginKey => match bytes.next().copied() {
-					Some(b' ') => (),
-					Some(b) => {
-						current_key.push(b);
-						state = State::Key
-					}
-					None => break None,
-				},
-				State::Key => match bytes.next().copied() {
-					Some(b'=') => state = State::BeginValue,
-					Some(b) => current_key.push(b),
-					None => break None,
-				},
-				State::BeginValue => match bytes.next().copied() {
-					Some(b'"') => state = State::Value,
-					_ => break None,
-				},
-				State::Value => match bytes.next().copied() {
-					Some(b'"') => {
-						params.insert(
-							std::mem::take(&mut current_key),
-							std::mem::take(&mut current_value),
-						);
-
-						state = State::NextParam
-					}
-					Some(b) => current_value.push(b),
-					None => break None,
-				},
+					Some(b',') | None => break,
+					Some(_) => return None,
+				}
+			}
+
+			if let Ok(href) = IriRefBuf::from_vec(href) {
+				break Some(Self { href, params });
 			}
 		}
 	}
@@ -87,15 +82,47 @@ impl Link {
 		self.href.as_iri_ref()
 	}
 
+	#[cfg(test)]
 	pub fn rel(&self) -> Option<&[u8]> {
 		self.params.get(b"rel".as_slice()).map(Vec::as_slice)
 	}
 
+	/// Checks if `relation` is among the (space separated) relation types.
+	pub fn has_rel(&self, relation: &[u8]) -> bool {
+		self.params.get(b"rel".as_slice()).is_some_and(|rel| {
+			rel.split(u8::is_ascii_whitespace)
+				.any(|r| r.eq_ignore_ascii_case(relation))
+		})
+	}
+
 	pub fn type_(&self) -> Option<&[u8]> {
 		self.params.get(b"type".as_slice()).map(Vec::as_slice)
 	}
 }
 
+fn skip_whitespace(bytes: &mut Peekable<impl Iterator<Item = u8>>) {
+	while bytes.next_if(|b| matches!(b, b' ' | b'\t')).is_some() {}
+}
+
+fn parse_token(bytes: &mut Peekable<impl Iterator<Item = u8>>) -> Vec<u8> {
+	let mut token = Vec::new();
+	while let Some(b) = bytes.next_if(|b| !matches!(b, b' ' | b'\t' | b'=' | b';' | b',' | b'"')) {
+		token.push(b)
+	}
+	token
+}
+
+fn parse_quoted_string(bytes: &mut impl Iterator<Item = u8>) -> Option<Vec<u8>> {
+	let mut value = Vec::new();
+	loop {
+		match bytes.next()? {
+			b'"' => break Some(value),
+			b'\\' => value.push(bytes.next()?),
+			b => value.push(b),
+		}
+	}
+}
+
 #[cfg(test)]
 mod tests {
 	use super::*;
diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index b2ddb67..54d6ad9 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -182,20 +182,17 @@ impl Loader for ReqwestLoader {
 						Some(content_type) => {
 							let mut context_url = None;
 							if *content_type.media_type() != "application/ld+json" {
-								for link in response.headers().get_all(LINK).into_iter() {
-									if let Some(link) = Link::new(link) {
-										if link.rel()
-											== Some(b"http://www.w3.org/ns/json-ld#context")
-										{
-											if context_url.is_some() {
-												return Err(LoadError::new(
-													url,
-													Error::MultipleContextLinkHeaders,
-												));
-											}
-
-											context_url = Some(link.href().resolved(&url));
+								let links = response.headers().get_all(LINK).into_iter();
+								for link in links.flat_map(Link::all) {
+									if link.has_rel(b"http://www.w3.org/ns/json-ld#context") {
+										if context_url.is_some() {
+											return Err(LoadError::new(
+												url,
+												Error::MultipleContextLinkHeaders,
+											));
 										}
+
+										context_url = Some(link.href().resolved(&url));
 									}
 								}
 							}
@@ -231,16 +228,16 @@ impl Loader for ReqwestLoader {
 						}
 						None => {
 							log::debug!("no valid media type found");
-							for link in response.headers().get_all(LINK).into_iter() {
-								if let Some(link) = Link::new(link) {
-									if link.rel() == Some(b"alternate")
-										&& link.type_() == Some(b"application/ld+json")
-									{
-										log::debug!("link found");
-										url = link.href().resolved(&url);
-										redirection_number += 1;
-										continue 'next_url;
-									}
+							let links = response.headers().get_all(LINK).into_iter();
+							for link in links.flat_map(Link::all) {
+								if link.has_rel(b"alternate")
+									&& link.type_().is_some_and(|ty| {
+										ty.eq_ignore_ascii_case(b"application/ld+json")
+									}) {
+									log::debug!("link found");
+									url = link.href().resolved(&url);
+									redirection_number += 1;
+									continue 'next_url;
 								}
 							}
 
-- 
2.43.0


From 5781e9e1a11fa0b870ea21282d73803858d0702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 57/76] fix: keep rdf:type out of the rdf:first properties

---
 crates/core/src/serialization.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index bea3008..0cb4142 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -265,7 +265,6 @@ impl<I, B> ExpandedDocument<I, B> {
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
 				Some(RdfProperty::Type) => {
-					rdf_terms.first = Some(quad.1);
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
-- 
2.43.0


From c6b887f97e7a192f2d4e627115c5d0b88483d5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 58/76] fix: keep the literal types of RDF datasets

---
 crates/core/src/serialization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 0cb4142..ef5975c 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -264,7 +264,7 @@ impl<I, B> ExpandedDocument<I, B> {
 			let subject = graph.resource_mut(quad.0);
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
-				Some(RdfProperty::Type) => {
+				Some(RdfProperty::Type) if id_of(interpretation, quad.2).is_some() => {
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
@@ -291,7 +291,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					subject.list.rest.insert(quad.2);
 					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.1);
 				}
-				None => {
+				_ => {
 					subject.insert(quad.1, quad.2);
 				}
 			}
-- 
2.43.0


From c4e43f2e806236134471f49692ecae6b8edce940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:06 +0000
Subject: [PATCH 59/76] fix: keep the nodes of cycles and the nodes used as
 types of RDF datasets

---
 crates/core/src/serialization.rs | 52 +++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index ef5975c..20cc9d7 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -98,6 +98,9 @@ struct SerResource<R> {
 	graph: Option<SerGraph<R>>,
 	list: SerList<R>,
 	references: usize,
+
+	/// Subject of the last reference to this resource.
+	referrer: Option<R>,
 }
 
 impl<R> Default for SerResource<R> {
@@ -108,6 +111,7 @@ impl<R> Default for SerResource<R> {
 			graph: None,
 			list: SerList::default(),
 			references: 0,
+			referrer: None,
 		}
 	}
 }
@@ -157,6 +161,39 @@ impl<R> SerGraph<R> {
 	}
 }
 
+impl<R: Copy + Ord> SerGraph<R> {
+	/// Resources referenced once are rendered where they are referenced.
+	/// This makes sure that no such resource is only referenced from itself,
+	/// directly or not.
+	fn break_cycles(&mut self) {
+		let mut visited = BTreeSet::new();
+		let mut cyclic = Vec::new();
+		for &start in self.resources.keys() {
+			let mut path = BTreeSet::new();
+			let mut id = start;
+			while visited.insert(id) {
+				path.insert(id);
+				match self.get(&id) {
+					Some(SerResource {
+						references: 1,
+						referrer: Some(referrer),
+						..
+					}) => id = *referrer,
+					_ => break,
+				}
+
+				if path.contains(&id) {
+					cyclic.push(id)
+				}
+			}
+		}
+
+		for id in cyclic {
+			self.resource_mut(id).references = usize::MAX
+		}
+	}
+}
+
 enum RdfProperty {
 	Type,
 	First,
@@ -263,6 +300,7 @@ impl<I, B> ExpandedDocument<I, B> {
 			let graph = node_map.graph_mut(quad.3);
 			let subject = graph.resource_mut(quad.0);
 
+			let mut is_type = false;
 			match rdf_property(vocabulary, interpretation, quad.1) {
 				Some(RdfProperty::Type) if id_of(interpretation, quad.2).is_some() => {
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
@@ -272,6 +310,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					}
 
 					subject.types.insert(ty);
+					is_type = true;
 				}
 				Some(RdfProperty::First) => {
 					rdf_terms.first = Some(quad.1);
@@ -297,14 +336,19 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 
 			let object = graph.resource_mut(quad.2);
-			if quad.1 == quad.2 {
+			object.references = object.references.saturating_add(1);
+			object.referrer = Some(quad.0);
+			if is_type {
+				// Types are only referenced, they never contain the node.
 				object.references = usize::MAX;
-			} else {
-				let r = object.references;
-				object.references = r.saturating_add(1)
 			}
 		}
 
+		node_map.default_graph.break_cycles();
+		for graph in node_map.named_graphs.values_mut() {
+			graph.break_cycles()
+		}
+
 		let mut graph = node_map.fold_into_default_graph();
 
 		let mut lists = Vec::new();
-- 
2.43.0


From e9ecdf554d8e48dd37fdecf37bda79a2382bfc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 60/76] fix: read RDF lists as list objects

---
 crates/core/src/serialization.rs | 108 +++++++++++++++++++------------
 1 file changed, 66 insertions(+), 42 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 20cc9d7..a9802f4 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -139,6 +139,68 @@ impl<R> SerResource<R> {
 	}
 }
 
+impl<R: Copy + Ord> SerDataset<R> {
+	/// Finds the well-formed lists of each graph.
+	fn find_lists(&mut self, nil: R, is_anonymous: impl Fn(R) -> bool) {
+		// Resources that occur in several graphs must be kept.
+		let mut occurrences: BTreeMap<R, usize> = BTreeMap::new();
+		let graphs = std::iter::once(&self.default_graph).chain(self.named_graphs.values());
+		for graph in graphs {
+			let predicates = graph.resources.values().flat_map(|r| r.properties.keys());
+			for id in graph.resources.keys().chain(predicates) {
+				*occurrences.entry(*id).or_default() += 1
+			}
+		}
+
+		for id in self.named_graphs.keys() {
+			*occurrences.entry(*id).or_default() += 1
+		}
+
+		let graphs = std::iter::once(&mut self.default_graph).chain(self.named_graphs.values_mut());
+		for graph in graphs {
+			graph.find_lists(nil, |id| is_anonymous(id) && occurrences[&id] == 1)
+		}
+	}
+}
+
+impl<R: Copy + Ord> SerGraph<R> {
+	/// Finds the well-formed lists, starting from their last node.
+	fn find_lists(&mut self, nil: R, is_local: impl Fn(R) -> bool) {
+		match self.resources.get_mut(&nil) {
+			// `nil` itself is not rendered as a part of the list.
+			Some(nil) => nil.references = usize::MAX,
+			None => return,
+		}
+
+		let mut lists = Vec::new();
+		for &last in &self.resources[&nil].list.reverse_rest {
+			let mut head = None;
+			let mut values = Vec::new();
+			let mut next = Some(last);
+
+			while let Some(id) = next {
+				let node = &self.resources[&id];
+				if node.references != 1 || !node.is_list_node() || !is_local(id) {
+					break;
+				}
+
+				head = Some(id);
+				values.extend(node.list.first.iter().copied());
+				next = node.list.reverse_rest.iter().next().copied();
+			}
+
+			if let Some(head) = head {
+				values.reverse();
+				lists.push((head, values))
+			}
+		}
+
+		for (head, values) in lists {
+			self.resource_mut(head).list.values = Some(values)
+		}
+	}
+}
+
 impl<R> SerGraph<R> {
 	fn new() -> Self {
 		Self {
@@ -328,7 +390,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					}
 
 					subject.list.rest.insert(quad.2);
-					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.1);
+					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.0);
 				}
 				_ => {
 					subject.insert(quad.1, quad.2);
@@ -349,49 +411,11 @@ impl<I, B> ExpandedDocument<I, B> {
 			graph.break_cycles()
 		}
 
-		let mut graph = node_map.fold_into_default_graph();
-
-		let mut lists = Vec::new();
-		if let Some(nil_id) = nil {
-			if let Some(nil) = graph.get(&nil_id) {
-				for &node_id in &nil.list.reverse_rest {
-					let mut head_id = node_id;
-					if is_anonymous(interpretation, head_id) {
-						if let Some(mut head) = graph.get(&head_id) {
-							if head.references == 1 && head.is_list_node() {
-								let mut values = Vec::new();
-
-								loop {
-									let first = head.list.first.iter().next().copied().unwrap();
-									let parent_id =
-										head.list.reverse_rest.iter().next().copied().unwrap();
-									values.push(first);
-
-									if is_anonymous(interpretation, parent_id) {
-										if let Some(parent) = graph.get(&parent_id) {
-											if parent.references == 1 && parent.is_list_node() {
-												head_id = parent_id;
-												head = parent;
-												continue;
-											}
-										}
-									}
-
-									break;
-								}
-
-								values.reverse();
-								lists.push((head_id, values))
-							}
-						}
-					}
-				}
-			}
+		if let Some(nil) = nil {
+			node_map.find_lists(nil, |id| is_anonymous(interpretation, id))
 		}
 
-		for (id, values) in lists {
-			graph.resource_mut(id).list.values = Some(values)
-		}
+		let graph = node_map.fold_into_default_graph();
 
 		let mut result = ExpandedDocument::new();
 		for (id, resource) in &graph.resources {
-- 
2.43.0


From 4f2c3d27d339ebc9fa2b44b076d756fbdb12d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 61/76] fix: keep the RDF numbers that are not JSON numbers

---
 crates/core/src/serialization.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index a9802f4..c35caa2 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -714,6 +714,10 @@ where
 		})
 }
 
+fn is_valid_literal(ty: &Iri, value: &str) -> bool {
+	linked_data::xsd_types::Datatype::from_iri(ty).is_some_and(|ty| ty.parse(value).is_ok())
+}
+
 type ResourceTerm<V> = Term<
 	Id<<V as IriVocabulary>::Iri, <V as BlankIdVocabulary>::BlankId>,
 	Value<<V as IriVocabulary>::Iri>,
@@ -762,13 +766,20 @@ where
 
 							Value::Literal(Literal::Boolean(b), Some(i.clone()))
 						} else if ty == XSD_INTEGER || ty == XSD_DOUBLE {
-							let n = json_syntax::NumberBuf::from_str(l.as_str()).map_err(|_| {
-								SerializationError::Number(
-									context.into_iris(vocabulary, interpretation),
-									l.as_ref().to_owned(),
-								)
-							})?;
-							Value::Literal(Literal::Number(n), Some(i.clone()))
+							match json_syntax::NumberBuf::from_str(l.as_str()) {
+								Ok(n) => Value::Literal(Literal::Number(n), Some(i.clone())),
+								// Numbers such as `INF` or `+1` are not JSON numbers.
+								Err(_) if is_valid_literal(ty, l.as_str()) => Value::Literal(
+									Literal::String(l.as_ref().into()),
+									Some(i.clone()),
+								),
+								Err(_) => {
+									return Err(SerializationError::Number(
+										context.into_iris(vocabulary, interpretation),
+										l.as_ref().to_owned(),
+									))
+								}
+							}
 						} else if ty == XSD_STRING {
 							Value::Literal(Literal::String(l.as_ref().into()), None)
 						} else {
-- 
2.43.0


From 36ed756e8927876b81cce2299fd87477f9861e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:59 +0000
Subject: [PATCH 62/76] fix: end the linked data lists with rdf:nil

---
 .../core/src/deserialization/object/list.rs   | 37 ++++++++++++++-----
 crates/core/src/deserialization/object/mod.rs |  1 +
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/deserialization/object/list.rs b/crates/core/src/deserialization/object/list.rs
index 6b07da2..a5302f1 100644
--- a/crates/core/src/deserialization/object/list.rs
+++ b/crates/core/src/deserialization/object/list.rs
@@ -1,25 +1,39 @@
 use linked_data::{
-	LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource, LinkedDataSubject,
-	ResourceInterpretation,
+	CowRdfTerm, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource,
+	LinkedDataSubject, ResourceInterpretation,
 };
-use rdf_types::{vocabulary::IriVocabularyMut, Interpretation, Vocabulary};
+use rdf_types::{vocabulary::IriVocabularyMut, Id, Interpretation, Term, Vocabulary};
 
 use crate::{
 	object::List,
-	rdf::{RDF_FIRST, RDF_REST},
+	rdf::{RDF_FIRST, RDF_NIL, RDF_REST},
 	IndexedObject,
 };
 
-impl<T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for List<T, B> {
+impl<T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for List<T, B>
+where
+	V: IriVocabularyMut,
+{
 	fn interpretation(
 		&self,
-		_vocabulary: &mut V,
+		vocabulary: &mut V,
 		_interpretation: &mut I,
 	) -> ResourceInterpretation<'_, I, V> {
-		ResourceInterpretation::Uninterpreted(None)
+		list_interpretation(self.as_slice(), vocabulary)
 	}
 }
 
+/// The empty list is `rdf:nil`, any other is anonymous.
+fn list_interpretation<'a, T, B, V: IriVocabularyMut + Vocabulary, I: Interpretation>(
+	items: &[IndexedObject<T, B>],
+	vocabulary: &mut V,
+) -> ResourceInterpretation<'a, I, V> {
+	let term = items
+		.is_empty()
+		.then(|| CowRdfTerm::Owned(Term::Id(Id::Iri(vocabulary.insert(RDF_NIL)))));
+	ResourceInterpretation::Uninterpreted(term)
+}
+
 impl<T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataSubject<I, V> for List<T, B>
 where
 	T: LinkedDataResource<I, V> + LinkedDataSubject<I, V>,
@@ -82,13 +96,16 @@ where
 
 struct Rest<'a, T, B>(&'a [IndexedObject<T, B>]);
 
-impl<'a, T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Rest<'a, T, B> {
+impl<'a, T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Rest<'a, T, B>
+where
+	V: IriVocabularyMut,
+{
 	fn interpretation(
 		&self,
-		_vocabulary: &mut V,
+		vocabulary: &mut V,
 		_interpretation: &mut I,
 	) -> ResourceInterpretation<'_, I, V> {
-		ResourceInterpretation::Uninterpreted(None)
+		list_interpretation(self.0, vocabulary)
 	}
 }
 
diff --git a/crates/core/src/deserialization/object/mod.rs b/crates/core/src/deserialization/object/mod.rs
index f51ed88..992c84a 100644
--- a/crates/core/src/deserialization/object/mod.rs
+++ b/crates/core/src/deserialization/object/mod.rs
@@ -13,6 +13,7 @@ impl<T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataResource<I, V> f
 where
 	T: LinkedDataResource<I, V>,
 	B: LinkedDataResource<I, V>,
+	V: IriVocabularyMut,
 {
 	fn interpretation(
 		&self,
-- 
2.43.0


From d5d49ae521348a362e59c05aeb306a97eeab312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:02 +0000
Subject: [PATCH 63/76] fix: visit both the graph and the properties of nodes
 as linked data

---
 .../core/src/deserialization/object/node.rs   | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/deserialization/object/node.rs b/crates/core/src/deserialization/object/node.rs
index 135201f..b9980fd 100644
--- a/crates/core/src/deserialization/object/node.rs
+++ b/crates/core/src/deserialization/object/node.rs
@@ -51,7 +51,7 @@ where
 			}
 		}
 
-		if self.is_graph() {
+		if self.graph().is_some() {
 			visitor.graph(self)?;
 		}
 
@@ -119,13 +119,32 @@ where
 		if self.is_graph() {
 			visitor.named_graph(self)?;
 		} else {
-			visitor.default_graph(self)?;
+			visitor.default_graph(&NodeGraph(self))?;
 		}
 
 		visitor.end()
 	}
 }
 
+/// Graph containing a single node.
+struct NodeGraph<'a, T, B>(&'a Node<T, B>);
+
+impl<'a, T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataGraph<I, V>
+	for NodeGraph<'a, T, B>
+where
+	T: LinkedDataResource<I, V> + LinkedDataSubject<I, V>,
+	B: LinkedDataResource<I, V> + LinkedDataSubject<I, V>,
+	V: IriVocabularyMut,
+{
+	fn visit_graph<S>(&self, mut visitor: S) -> Result<S::Ok, S::Error>
+	where
+		S: linked_data::GraphVisitor<I, V>,
+	{
+		visitor.subject(self.0)?;
+		visitor.end()
+	}
+}
+
 struct Types<'a, T, B>(&'a [crate::Id<T, B>]);
 
 impl<'a, T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataPredicateObjects<I, V>
-- 
2.43.0


From 12c232b64cbc5b70d1d5813e4ba601bcd6fac183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:13 +0000
Subject: [PATCH 64/76] fix: visit values as the literals of their RDF
 serialization

---
 .../core/src/deserialization/object/value.rs  | 77 +++++++++++--------
 crates/core/src/rdf/mod.rs                    | 39 +++++-----
 2 files changed, 66 insertions(+), 50 deletions(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index d2f147e..f6296b6 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -1,12 +1,22 @@
+use iref::Iri;
 use linked_data::{
 	xsd_types, CowRdfTerm, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects,
 	LinkedDataResource, LinkedDataSubject, RdfLiteral, RdfLiteralRef, ResourceInterpretation,
 };
-use rdf_types::{Interpretation, LiteralTypeRef, Term, Vocabulary};
+use rdf_types::{
+	vocabulary::IriVocabularyMut, Interpretation, LiteralType, LiteralTypeRef, Term, Vocabulary,
+};
 
-use crate::{object::Literal, Value};
+use crate::{
+	object::Literal,
+	rdf::{number_literal, XSD_DOUBLE},
+	Value,
+};
 
-impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri> {
+impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri>
+where
+	V: IriVocabularyMut,
+{
 	fn interpretation(
 		&self,
 		vocabulary: &mut V,
@@ -17,26 +27,21 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri
 				Literal::Null => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
 					xsd_types::Value::String("null".to_string()),
 				))),
-				Literal::Boolean(b) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
-					xsd_types::Value::Boolean((*b).into()),
-				))),
-				Literal::Number(n) => match ty {
-					Some(ty) => match typed_number_interpretation(vocabulary, ty, n) {
-						Some(value) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(value))),
-						None => CowRdfTerm::Borrowed(Term::Literal(RdfLiteralRef::Any(
-							n.as_str(),
-							LiteralTypeRef::Any(ty),
-						))),
-					},
-					None => {
-						let value = match n.as_i64() {
-							Some(i) => xsd_types::Value::Integer(i.into()),
-							None => xsd_types::Value::Double(n.as_f64_lossy().into()),
-						};
-
-						CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(value)))
+				Literal::Boolean(b) => match ty {
+					Some(ty) => {
+						let ty = vocabulary.iri(ty).unwrap().to_owned();
+						typed_interpretation(vocabulary, b.to_string(), &ty)
 					}
+					None => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
+						xsd_types::Value::Boolean((*b).into()),
+					))),
 				},
+				Literal::Number(n) => {
+					let ty = ty.as_ref().map(|ty| vocabulary.iri(ty).unwrap().to_owned());
+					let is_double = ty.as_ref().is_some_and(|ty| ty == XSD_DOUBLE);
+					let (value, preferred_ty) = number_literal(n, is_double);
+					typed_interpretation(vocabulary, value, ty.as_deref().unwrap_or(preferred_ty))
+				}
 				Literal::String(s) => CowRdfTerm::Borrowed(Term::Literal(match ty {
 					Some(ty) => RdfLiteralRef::Any(s.as_str(), LiteralTypeRef::Any(ty)),
 					None => RdfLiteralRef::Xsd(xsd_types::ValueRef::String(s)),
@@ -45,7 +50,7 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri
 			Self::LangString(s) => match s.language().and_then(|l| l.as_well_formed()) {
 				Some(tag) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Any(
 					s.as_str().to_owned(),
-					rdf_types::LiteralType::LangString(tag.to_owned()),
+					LiteralType::LangString(tag.to_owned()),
 				))),
 				None => CowRdfTerm::Borrowed(Term::Literal(RdfLiteralRef::Xsd(
 					xsd_types::ValueRef::String(s.as_str()),
@@ -58,14 +63,16 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri
 	}
 }
 
-fn typed_number_interpretation<V: Vocabulary>(
-	vocabulary: &V,
-	ty: &V::Iri,
-	n: &json_syntax::Number,
-) -> Option<xsd_types::Value> {
-	let iri = vocabulary.iri(ty)?;
-	let xsd_ty = xsd_types::Datatype::from_iri(iri)?;
-	xsd_ty.parse(n).ok()
+fn typed_interpretation<'a, V: Vocabulary + IriVocabularyMut>(
+	vocabulary: &mut V,
+	value: String,
+	ty: &Iri,
+) -> CowRdfTerm<'a, V> {
+	let xsd_value = xsd_types::Datatype::from_iri(ty).and_then(|ty| ty.parse(&value).ok());
+	CowRdfTerm::Owned(Term::Literal(match xsd_value {
+		Some(value) => RdfLiteral::Xsd(value),
+		None => RdfLiteral::Any(value, LiteralType::Any(vocabulary.insert(ty))),
+	}))
 }
 
 impl<T, V: Vocabulary, I: Interpretation> LinkedDataSubject<I, V> for Value<T> {
@@ -86,7 +93,10 @@ impl<T, V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for V
 	}
 }
 
-impl<V: Vocabulary, I: Interpretation> LinkedDataGraph<I, V> for Value<V::Iri> {
+impl<V: Vocabulary, I: Interpretation> LinkedDataGraph<I, V> for Value<V::Iri>
+where
+	V: IriVocabularyMut,
+{
 	fn visit_graph<S>(&self, mut visitor: S) -> Result<S::Ok, S::Error>
 	where
 		S: linked_data::GraphVisitor<I, V>,
@@ -96,7 +106,10 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataGraph<I, V> for Value<V::Iri> {
 	}
 }
 
-impl<V: Vocabulary, I: Interpretation> LinkedData<I, V> for Value<V::Iri> {
+impl<V: Vocabulary, I: Interpretation> LinkedData<I, V> for Value<V::Iri>
+where
+	V: IriVocabularyMut,
+{
 	fn visit<S>(&self, mut visitor: S) -> Result<S::Ok, S::Error>
 	where
 		S: linked_data::Visitor<I, V>,
diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index addd382..4408aeb 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -2,7 +2,7 @@ use std::str::FromStr;
 
 use crate::{object::value, Direction, Id, Indexed, IndexedObject, Node, Object, ValidId};
 use iref::{Iri, IriBuf};
-use json_syntax::Print;
+use json_syntax::{Number, Print};
 use langtag::LangTagBuf;
 use rdf_types::{
 	vocabulary::{IriVocabularyMut, LiteralVocabularyMut},
@@ -277,23 +277,8 @@ impl<T: Clone> crate::object::Value<T> {
 							.as_ref()
 							.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
 							.unwrap_or(false);
-						let f = n.as_f64_lossy();
-						if !is_double && f.fract() == 0.0 && f.abs() < 1e21 {
-							let lit = if f == 0.0 {
-								"0".to_string()
-							} else if n.as_str().contains(['.', 'e', 'E']) {
-								f.to_string()
-							} else {
-								n.to_string()
-							};
-
-							(lit, Some(vocabulary.insert(XSD_INTEGER)))
-						} else {
-							(
-								pretty_dtoa::dtoa(n.as_f64_lossy(), XSD_CANONICAL_FLOAT),
-								Some(vocabulary.insert(XSD_DOUBLE)),
-							)
-						}
+						let (lit, rdf_ty) = number_literal(n, is_double);
+						(lit, Some(vocabulary.insert(rdf_ty)))
 					}
 					value::Literal::String(s) => (s.to_string(), None),
 				};
@@ -324,6 +309,24 @@ impl<T: Clone> crate::object::Value<T> {
 	}
 }
 
+/// Lexical form and preferred type of a number.
+pub(crate) fn number_literal(n: &Number, is_double: bool) -> (String, &'static Iri) {
+	let f = n.as_f64_lossy();
+	if !is_double && f.fract() == 0.0 && f.abs() < 1e21 {
+		let lit = if f == 0.0 {
+			"0".to_string()
+		} else if n.as_str().contains(['.', 'e', 'E']) {
+			f.to_string()
+		} else {
+			n.to_string()
+		};
+
+		(lit, XSD_INTEGER)
+	} else {
+		(pretty_dtoa::dtoa(f, XSD_CANONICAL_FLOAT), XSD_DOUBLE)
+	}
+}
+
 // <https://www.w3.org/TR/xmlschema11-2/#f-doubleLexmap>
 const XSD_CANONICAL_FLOAT: pretty_dtoa::FmtFloatConfig = pretty_dtoa::FmtFloatConfig::default()
 	.force_e_notation()
-- 
2.43.0


From 15ca759108614924b684024e70de9e0a4594efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:15 +0000
Subject: [PATCH 65/76] fix: visit values used as linked data objects

---
 crates/core/src/deserialization/object/value.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index f6296b6..e7dc295 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -84,11 +84,15 @@ impl<T, V: Vocabulary, I: Interpretation> LinkedDataSubject<I, V> for Value<T> {
 	}
 }
 
-impl<T, V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for Value<T> {
-	fn visit_objects<S>(&self, visitor: S) -> Result<S::Ok, S::Error>
+impl<V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for Value<V::Iri>
+where
+	V: IriVocabularyMut,
+{
+	fn visit_objects<S>(&self, mut visitor: S) -> Result<S::Ok, S::Error>
 	where
 		S: linked_data::PredicateObjectsVisitor<I, V>,
 	{
+		visitor.object(self)?;
 		visitor.end()
 	}
 }
-- 
2.43.0


From 1d84747aa74dbfb5c0303ff1cd2a34e5aec8bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:41 +0000
Subject: [PATCH 66/76] fix: keep the values of predicates and graphs visited
 several times

---
 crates/serialization/src/expanded/node.rs   | 16 +++++++++-------
 crates/serialization/src/expanded/object.rs | 15 ++++++++-------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/crates/serialization/src/expanded/node.rs b/crates/serialization/src/expanded/node.rs
index e2d4e7b..a8fec3d 100644
--- a/crates/serialization/src/expanded/node.rs
+++ b/crates/serialization/src/expanded/node.rs
@@ -1,5 +1,5 @@
 use iref::Iri;
-use json_ld_core::{object::node::Multiset, Indexed, Node, Object};
+use json_ld_core::{Indexed, Node, Object};
 use linked_data::{CowRdfTerm, LinkedDataResource};
 use rdf_types::{
 	interpretation::{
@@ -103,22 +103,24 @@ where
 		let objects = value.visit_objects(serializer)?;
 
 		if is_iri(self.vocabulary, &prop, RDF_TYPE) {
-			let mut non_iri_objects = Multiset::new();
+			let mut non_iri_objects = Vec::new();
 
 			for obj in objects {
 				match into_type_value(obj) {
 					Ok(ty) => self.result.types_mut_or_default().push(ty),
 					Err(obj) => {
-						non_iri_objects.insert(obj);
+						non_iri_objects.push(obj);
 					}
 				}
 			}
 
 			if !non_iri_objects.is_empty() {
-				self.result.properties_mut().set(prop, non_iri_objects);
+				self.result
+					.properties_mut()
+					.insert_all(prop, non_iri_objects);
 			}
 		} else {
-			self.result.properties_mut().set(prop, objects);
+			self.result.properties_mut().insert_all(prop, objects);
 		}
 
 		Ok(())
@@ -142,7 +144,7 @@ where
 		let objects = value.visit_objects(serializer)?;
 		self.result
 			.reverse_properties_mut_or_default()
-			.set(prop, objects);
+			.insert_all(prop, objects);
 
 		Ok(())
 	}
@@ -166,7 +168,7 @@ where
 		let serializer = SerializeGraph::new(self.vocabulary, self.interpretation);
 
 		let graph = value.visit_graph(serializer)?;
-		self.result.graph = Some(graph);
+		self.result.graph.get_or_insert_default().extend(graph);
 		Ok(())
 	}
 
diff --git a/crates/serialization/src/expanded/object.rs b/crates/serialization/src/expanded/object.rs
index 8e09ed1..21bdaec 100644
--- a/crates/serialization/src/expanded/object.rs
+++ b/crates/serialization/src/expanded/object.rs
@@ -2,7 +2,7 @@ use std::hash::Hash;
 
 use json_ld_core::{
 	object::{
-		node::{Included, Multiset, Properties, ReverseProperties},
+		node::{Included, Properties, ReverseProperties},
 		Graph, List,
 	},
 	rdf::{RDF_FIRST, RDF_REST, RDF_TYPE},
@@ -143,22 +143,22 @@ where
 		let objects = value.visit_objects(serializer)?;
 
 		if is_iri(self.vocabulary, &prop, RDF_TYPE) {
-			let mut non_iri_objects = Multiset::new();
+			let mut non_iri_objects = Vec::new();
 
 			for obj in objects {
 				match into_type_value(obj) {
 					Ok(ty) => self.types.push(ty),
 					Err(obj) => {
-						non_iri_objects.insert(obj);
+						non_iri_objects.push(obj);
 					}
 				}
 			}
 
 			if !non_iri_objects.is_empty() {
-				self.properties.set(prop, non_iri_objects);
+				self.properties.insert_all(prop, non_iri_objects);
 			}
 		} else {
-			self.properties.set(prop, objects);
+			self.properties.insert_all(prop, objects);
 		}
 
 		Ok(())
@@ -180,7 +180,7 @@ where
 		let serializer = SerializeReverseProperty::new(self.vocabulary, self.interpretation);
 
 		let objects = value.visit_objects(serializer)?;
-		self.reverse_properties.set(prop, objects);
+		self.reverse_properties.insert_all(prop, objects);
 
 		Ok(())
 	}
@@ -199,7 +199,8 @@ where
 		T: ?Sized + linked_data::LinkedDataGraph<I, V>,
 	{
 		let serializer = SerializeGraph::new(self.vocabulary, self.interpretation);
-		self.graph = Some(value.visit_graph(serializer)?);
+		let graph = value.visit_graph(serializer)?;
+		self.graph.get_or_insert_default().extend(graph);
 		Ok(())
 	}
 
-- 
2.43.0


From ac1b8a195eb75802975f1310a5f50fd25e6eecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:59 +0000
Subject: [PATCH 67/76] fix: serialize linked data lists once, as lists up to
 rdf:nil

---
 crates/serialization/src/expanded/list.rs   | 199 --------------------
 crates/serialization/src/expanded/mod.rs    |   1 -
 crates/serialization/src/expanded/object.rs | 127 +++++++------
 3 files changed, 68 insertions(+), 259 deletions(-)
 delete mode 100644 crates/serialization/src/expanded/list.rs

diff --git a/crates/serialization/src/expanded/list.rs b/crates/serialization/src/expanded/list.rs
deleted file mode 100644
index 8bd5f08..0000000
--- a/crates/serialization/src/expanded/list.rs
+++ /dev/null
@@ -1,199 +0,0 @@
-use std::hash::Hash;
-
-use json_ld_core::{
-	rdf::{RDF_FIRST, RDF_REST},
-	Indexed, IndexedObject, Object,
-};
-use linked_data::{CowRdfTerm, LinkedDataResource};
-use rdf_types::{
-	interpretation::{
-		ReverseBlankIdInterpretation, ReverseIriInterpretation, ReverseLiteralInterpretation,
-	},
-	vocabulary::IriVocabularyMut,
-	Id, Interpretation, Term, Vocabulary,
-};
-
-use crate::Error;
-
-use super::object::serialize_object_with;
-
-pub struct SerializeList<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	first: Option<Object<V::Iri, V::BlankId>>,
-	rest: Vec<IndexedObject<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeList<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			first: None,
-			rest: Vec::new(),
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::SubjectVisitor<I, V>
-	for SerializeList<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn predicate<L, T>(&mut self, predicate: &L, value: &T) -> Result<(), Self::Error>
-	where
-		L: ?Sized + LinkedDataResource<I, V>,
-		T: ?Sized + linked_data::LinkedDataPredicateObjects<I, V>,
-	{
-		let repr = predicate
-			.interpretation(self.vocabulary, self.interpretation)
-			.into_lexical_representation(self.vocabulary, self.interpretation)
-			.map(CowRdfTerm::into_term);
-
-		match repr {
-			Some(Term::Id(id)) => {
-				if let Id::Iri(iri) = id {
-					let iri = self.vocabulary.iri(iri.as_ref()).unwrap();
-					if iri == RDF_FIRST {
-						let serializer =
-							SerializeListFirst::new(self.vocabulary, self.interpretation);
-						self.first = value.visit_objects(serializer)?;
-					} else if iri == RDF_REST {
-						let serializer =
-							SerializeListRest::new(self.vocabulary, self.interpretation);
-						self.rest = value.visit_objects(serializer)?;
-					}
-				}
-
-				Ok(())
-			}
-			_ => Err(Error::InvalidPredicate),
-		}
-	}
-
-	fn reverse_predicate<L, T>(&mut self, _predicate: &L, _subjects: &T) -> Result<(), Self::Error>
-	where
-		L: ?Sized + LinkedDataResource<I, V>,
-		T: ?Sized + linked_data::LinkedDataPredicateObjects<I, V>,
-	{
-		Err(Error::ListReverseProperty)
-	}
-
-	fn graph<T>(&mut self, _value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + linked_data::LinkedDataGraph<I, V>,
-	{
-		Ok(())
-	}
-
-	fn include<T>(&mut self, _value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		Err(Error::ListInclude)
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		let first = self.first.unwrap_or_else(Object::null);
-		let mut result = self.rest;
-		result.push(Indexed::none(first));
-		Ok(result)
-	}
-}
-
-pub struct SerializeListFirst<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	result: Option<Object<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeListFirst<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			result: None,
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::PredicateObjectsVisitor<I, V>
-	for SerializeListFirst<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Option<Object<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn object<T>(&mut self, value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		self.result = Some(serialize_object_with(
-			self.vocabulary,
-			self.interpretation,
-			value,
-		)?);
-		Ok(())
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		Ok(self.result)
-	}
-}
-
-pub struct SerializeListRest<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	result: Vec<IndexedObject<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeListRest<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			result: Vec::new(),
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::PredicateObjectsVisitor<I, V>
-	for SerializeListRest<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn object<T>(&mut self, value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		let serializer = SerializeList::new(self.vocabulary, self.interpretation);
-		self.result = value.visit_subject(serializer)?;
-		Ok(())
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		Ok(self.result)
-	}
-}
diff --git a/crates/serialization/src/expanded/mod.rs b/crates/serialization/src/expanded/mod.rs
index f6d8e67..f71fe9f 100644
--- a/crates/serialization/src/expanded/mod.rs
+++ b/crates/serialization/src/expanded/mod.rs
@@ -13,7 +13,6 @@ use crate::Error;
 
 mod default_graph;
 mod graph;
-mod list;
 mod node;
 mod object;
 mod property;
diff --git a/crates/serialization/src/expanded/object.rs b/crates/serialization/src/expanded/object.rs
index 21bdaec..3df469f 100644
--- a/crates/serialization/src/expanded/object.rs
+++ b/crates/serialization/src/expanded/object.rs
@@ -5,8 +5,8 @@ use json_ld_core::{
 		node::{Included, Properties, ReverseProperties},
 		Graph, List,
 	},
-	rdf::{RDF_FIRST, RDF_REST, RDF_TYPE},
-	Indexed, IndexedObject, Node, Object,
+	rdf::{RDF_FIRST, RDF_NIL, RDF_REST, RDF_TYPE},
+	Indexed, Node, Object,
 };
 use linked_data::{CowRdfTerm, LinkedDataResource};
 use rdf_types::{
@@ -14,14 +14,13 @@ use rdf_types::{
 		ReverseBlankIdInterpretation, ReverseIriInterpretation, ReverseLiteralInterpretation,
 	},
 	vocabulary::IriVocabularyMut,
-	Id, Interpretation, Term, Vocabulary,
+	Interpretation, Term, Vocabulary,
 };
 
 use crate::Error;
 
 use super::{
 	graph::SerializeGraph,
-	list::{SerializeListFirst, SerializeListRest},
 	node::{into_type_value, is_iri, SerializeNode},
 	property::{SerializeProperty, SerializeReverseProperty},
 	serialize_node_with,
@@ -77,8 +76,6 @@ pub struct SerializeObject<'a, I, V: Vocabulary> {
 	reverse_properties: ReverseProperties<V::Iri, V::BlankId>,
 	included: Included<V::Iri, V::BlankId>,
 	graph: Option<Graph<V::Iri, V::BlankId>>,
-	first: Option<Object<V::Iri, V::BlankId>>,
-	rest: Option<Vec<IndexedObject<V::Iri, V::BlankId>>>,
 }
 
 impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
@@ -91,8 +88,6 @@ impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
 			reverse_properties: ReverseProperties::new(),
 			included: Included::new(),
 			graph: None,
-			first: None,
-			rest: None,
 		}
 	}
 }
@@ -119,22 +114,7 @@ where
 			.lexical_representation(self.vocabulary, self.interpretation)
 			.map(CowRdfTerm::into_owned)
 		{
-			Some(Term::Id(id)) => {
-				if let Id::Iri(iri) = &id {
-					let iri = self.vocabulary.iri(iri).unwrap();
-					if iri == RDF_FIRST {
-						let serializer =
-							SerializeListFirst::new(self.vocabulary, self.interpretation);
-						self.first = value.visit_objects(serializer)?;
-					} else if iri == RDF_REST {
-						let serializer =
-							SerializeListRest::new(self.vocabulary, self.interpretation);
-						self.rest = Some(value.visit_objects(serializer)?);
-					}
-				}
-
-				json_ld_core::Id::Valid(id)
-			}
+			Some(Term::Id(id)) => json_ld_core::Id::Valid(id),
 			_ => return Err(Error::InvalidPredicate),
 		};
 
@@ -205,52 +185,81 @@ where
 	}
 
 	fn end(mut self) -> Result<Self::Ok, Self::Error> {
-		if self.first.is_some()
-			&& self.rest.is_some()
-			&& self.types.is_empty()
-			&& self.properties.is_empty()
+		if self.types.is_empty()
+			&& self.reverse_properties.is_empty()
+			&& self.included.is_empty()
 			&& self.graph.is_none()
 		{
-			#[allow(clippy::unnecessary_unwrap)]
-			let mut items = self.rest.unwrap();
-			#[allow(clippy::unnecessary_unwrap)]
-			items.push(Indexed::none(self.first.unwrap()));
-			items.reverse();
-			Ok(Object::List(List::new(items)))
-		} else {
-			if let Some(item) = self.first {
-				let iri = self.vocabulary.insert(RDF_FIRST);
-				self.properties
-					.insert(json_ld_core::Id::Valid(Id::Iri(iri)), Indexed::none(item))
+			match into_list(self.vocabulary, self.properties) {
+				Ok(list) => return Ok(Object::List(list)),
+				Err(properties) => self.properties = properties,
 			}
+		}
 
-			if let Some(rest) = self.rest {
-				let iri = self.vocabulary.insert(RDF_REST);
-				self.properties.insert(
-					json_ld_core::Id::Valid(Id::Iri(iri)),
-					Indexed::none(Object::List(List::new(rest))),
-				)
-			}
+		let mut node = Node::new();
 
-			let mut node = Node::new();
+		if !self.types.is_empty() {
+			node.types = Some(self.types)
+		}
 
-			if !self.types.is_empty() {
-				node.types = Some(self.types)
-			}
+		*node.properties_mut() = self.properties;
 
-			*node.properties_mut() = self.properties;
+		if !self.reverse_properties.is_empty() {
+			node.set_reverse_properties(Some(self.reverse_properties));
+		}
 
-			if !self.reverse_properties.is_empty() {
-				node.set_reverse_properties(Some(self.reverse_properties));
-			}
+		if !self.included.is_empty() {
+			node.set_included(Some(self.included));
+		}
 
-			if !self.included.is_empty() {
-				node.set_included(Some(self.included));
-			}
+		node.graph = self.graph;
 
-			node.graph = self.graph;
+		Ok(Object::node(node))
+	}
+}
 
-			Ok(Object::node(node))
+/// Turns the properties of an anonymous list node into a list object: a single
+/// `rdf:first`, and a single `rdf:rest` which is a list or `rdf:nil`.
+fn into_list<V: Vocabulary>(
+	vocabulary: &V,
+	mut properties: Properties<V::Iri, V::BlankId>,
+) -> Result<List<V::Iri, V::BlankId>, Properties<V::Iri, V::BlankId>>
+where
+	V::Iri: Eq + Hash,
+	V::BlankId: Eq + Hash,
+{
+	let is_list = properties.len() == 2
+		&& properties.iter().all(|(prop, objects)| match objects {
+			[_] if is_iri(vocabulary, prop, RDF_FIRST) => true,
+			[rest] if is_iri(vocabulary, prop, RDF_REST) => match rest.inner() {
+				Object::List(_) => true,
+				Object::Node(node) => {
+					node.is_empty()
+						&& node
+							.id
+							.as_ref()
+							.is_some_and(|id| is_iri(vocabulary, id, RDF_NIL))
+				}
+				Object::Value(_) => false,
+			},
+			_ => false,
+		});
+
+	if !is_list {
+		return Err(properties);
+	}
+
+	let mut first = None;
+	let mut items = Vec::new();
+	for (prop, objects) in std::mem::take(&mut properties) {
+		let object = objects.into_iter().next();
+		if is_iri(vocabulary, &prop, RDF_FIRST) {
+			first = object;
+		} else if let Some(Object::List(rest)) = object.map(Indexed::into_inner) {
+			items = rest.into_entry();
 		}
 	}
+
+	items.splice(0..0, first);
+	Ok(List::new(items))
 }
-- 
2.43.0


From 12c4741f9a1c9f204537f32cdb0d84960e84823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 68/76] fix: keep the lists that are subjects of a named graph

---
 crates/serialization/src/expanded/graph.rs | 28 +++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/crates/serialization/src/expanded/graph.rs b/crates/serialization/src/expanded/graph.rs
index 33aeaeb..030cc84 100644
--- a/crates/serialization/src/expanded/graph.rs
+++ b/crates/serialization/src/expanded/graph.rs
@@ -1,18 +1,18 @@
 use std::hash::Hash;
 
-use json_ld_core::{object::Graph, Indexed};
-use linked_data::LinkedDataResource;
+use json_ld_core::{object::Graph, Indexed, Object};
+use linked_data::{CowRdfTerm, LinkedDataResource};
 use rdf_types::{
 	interpretation::{
 		ReverseBlankIdInterpretation, ReverseIriInterpretation, ReverseLiteralInterpretation,
 	},
 	vocabulary::IriVocabularyMut,
-	Interpretation, Vocabulary,
+	Interpretation, Term, Vocabulary,
 };
 
 use crate::Error;
 
-use super::object::serialize_object_with;
+use super::{node::SerializeNode, value::literal_to_value};
 
 pub struct SerializeGraph<'a, I, V: Vocabulary> {
 	vocabulary: &'a mut V,
@@ -47,8 +47,24 @@ where
 	where
 		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
 	{
-		let object = serialize_object_with(self.vocabulary, self.interpretation, value)?;
-		self.result.insert(Indexed::new(object, None));
+		let id = match value
+			.lexical_representation(self.vocabulary, self.interpretation)
+			.map(CowRdfTerm::into_owned)
+		{
+			Some(Term::Literal(lit)) => {
+				let value = literal_to_value(self.vocabulary, lit);
+				self.result.insert(Indexed::new(Object::Value(value), None));
+				return Ok(());
+			}
+			Some(Term::Id(id)) => Some(json_ld_core::Id::Valid(id)),
+			_ => None,
+		};
+
+		// Lists are only allowed as the value of a property.
+		let serializer = SerializeNode::new(self.vocabulary, self.interpretation, id);
+
+		let node = value.visit_subject(serializer)?;
+		self.result.insert(Indexed::new(Object::node(node), None));
 		Ok(())
 	}
 
-- 
2.43.0


From babe4c321c21062175e5a5078ef581a74176ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:10 +0000
Subject: [PATCH 69/76] fix: apply the vocabulary policy to terms, in their
 context only

---
 crates/expansion/src/element.rs | 11 ++++++-----
 crates/expansion/src/node.rs    | 10 ++++++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 63c7d30..24b7e52 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -1,5 +1,5 @@
 use crate::{
-	expand_array, expand_iri, expand_literal, expand_node, expand_value, Error, Expanded,
+	expand_array, expand_iri, expand_literal, expand_node, expand_value, Action, Error, Expanded,
 	GivenLiteralValue, LiteralValue, Loader, Options, Warning, WarningHandler,
 };
 use contextual::WithContext;
@@ -129,7 +129,8 @@ where
 			// 	Cow::Borrowed(element.entries().as_slice())
 			// };
 
-			// Preliminary key expansions.
+			// Preliminary key expansions, only to find keywords: the policy is
+			// applied in the final context.
 			let mut preliminary_value_entry = None;
 			let mut preliminary_id_entry = None;
 			for Entry { key, value } in element.entries() {
@@ -138,7 +139,7 @@ where
 					active_context,
 					Nullable::Some(key.as_str().into()),
 					false,
-					Some(options.policy.vocab),
+					Some(Action::Keep),
 				)? {
 					Some(Term::Keyword(Keyword::Value)) => {
 						preliminary_value_entry = Some(value.clone())
@@ -228,7 +229,7 @@ where
 					active_context.as_ref(),
 					Nullable::Some(key.as_str().into()),
 					false,
-					Some(options.policy.vocab),
+					Some(Action::Keep),
 				)?;
 
 				if let Some(Term::Keyword(Keyword::Type)) = expanded_key {
@@ -303,7 +304,7 @@ where
 								active_context.as_ref(),
 								Nullable::Some(input_type_str.into()),
 								false,
-								Some(options.policy.vocab),
+								Some(Action::Keep),
 							)
 						})
 						.transpose()?
diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 3e10222..e29bd08 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -555,7 +555,7 @@ where
 												active_context,
 												Nullable::Some(language.as_str().into()),
 												false,
-												Some(options.policy.vocab),
+												Some(Action::Keep),
 											)? == Some(Term::Keyword(
 												Keyword::None,
 											)) {
@@ -702,12 +702,18 @@ where
 
 								// Initialize `expanded_index` to the result of IRI
 								// expanding index.
+								// The index of a type map is a type.
+								let is_type = container_mapping.contains(ContainerKind::Type);
 								let expanded_index = expand_iri(
 									&mut env,
 									active_context,
 									Nullable::Some(index.as_str().into()),
 									false,
-									Some(options.policy.vocab),
+									Some(if is_type {
+										options.policy.vocab
+									} else {
+										Action::Keep
+									}),
 								)?;
 								let is_none_index =
 									expanded_index == Some(Term::Keyword(Keyword::None));
-- 
2.43.0


From 6b1ed153e0f8604c205dae145cb2e299bf6d310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:10 +0000
Subject: [PATCH 70/76] fix: apply the policy on invalid types to the types of
 type maps

---
 crates/expansion/src/node.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index e29bd08..8755575 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -704,7 +704,7 @@ where
 								// expanding index.
 								// The index of a type map is a type.
 								let is_type = container_mapping.contains(ContainerKind::Type);
-								let expanded_index = expand_iri(
+								let mut expanded_index = expand_iri(
 									&mut env,
 									active_context,
 									Nullable::Some(index.as_str().into()),
@@ -715,6 +715,15 @@ where
 										Action::Keep
 									}),
 								)?;
+								if is_type
+									&& matches!(expanded_index, Some(Term::Id(Id::Invalid(_))))
+								{
+									match options.policy.invalid {
+										Action::Keep => (),
+										Action::Drop => expanded_index = None,
+										Action::Reject => return Err(Error::InvalidTypeValue),
+									}
+								}
 								let is_none_index =
 									expanded_index == Some(Term::Keyword(Keyword::None));
 
-- 
2.43.0


From 41268c3de85271337bd67a833fdf79f6cfdf99f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:00 +0000
Subject: [PATCH 71/76] fix: do not visit the values and lists of graphs as
 subjects

They have no triples: the dataset of such a graph is the one of its nodes.
---
 crates/core/src/deserialization/mod.rs         | 2 +-
 crates/core/src/deserialization/object/node.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/deserialization/mod.rs b/crates/core/src/deserialization/mod.rs
index 711f244..442dc40 100644
--- a/crates/core/src/deserialization/mod.rs
+++ b/crates/core/src/deserialization/mod.rs
@@ -16,7 +16,7 @@ where
 	where
 		S: linked_data::GraphVisitor<I, V>,
 	{
-		for object in self {
+		for object in self.iter().filter(|object| object.is_node()) {
 			visitor.subject(object.inner())?;
 		}
 
diff --git a/crates/core/src/deserialization/object/node.rs b/crates/core/src/deserialization/object/node.rs
index b9980fd..5ff7a83 100644
--- a/crates/core/src/deserialization/object/node.rs
+++ b/crates/core/src/deserialization/object/node.rs
@@ -93,7 +93,7 @@ where
 	{
 		match self.graph() {
 			Some(g) => {
-				for object in g.iter() {
+				for object in g.iter().filter(|object| object.is_node()) {
 					visitor.subject(object.inner())?;
 				}
 			}
-- 
2.43.0


From 9f50eb8715b48d7c1edc8e1d8dc0535cdf1f5fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:49 +0000
Subject: [PATCH 72/76] fix: compare the types of nodes, up to blank nodes

---
 crates/core/src/object/mapped_eq.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/object/mapped_eq.rs b/crates/core/src/object/mapped_eq.rs
index 42045b2..2a48aa0 100644
--- a/crates/core/src/object/mapped_eq.rs
+++ b/crates/core/src/object/mapped_eq.rs
@@ -258,6 +258,7 @@ impl<T: Eq + Hash, B: Eq + Hash> MappedEq for super::Node<T, B> {
 		B: 'a + 'b,
 	{
 		opt_mapped_eq(self.id.as_ref(), other.id.as_ref(), f.clone())
+			&& self.types().unordered_mapped_eq(other.types(), f.clone())
 			&& opt_mapped_eq(self.included_entry(), other.included_entry(), f.clone())
 			&& opt_mapped_eq(self.graph_entry(), other.graph_entry(), f.clone())
 			&& self.properties().mapped_eq(other.properties(), f.clone())
-- 
2.43.0


From c33c0c0d9b08bb99eb2f48fa307cf82a7c0d64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:47 +0000
Subject: [PATCH 73/76] fix: reject keywords given twice in value, list and set
 objects, and indexes

---
 crates/expansion/src/element.rs | 13 ++++++++++++-
 crates/expansion/src/node.rs    |  3 ++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 24b7e52..42de7c9 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -4,7 +4,9 @@ use crate::{
 };
 use contextual::WithContext;
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
-use json_ld_core::{object, Context, Environment, Id, Indexed, Object, Term, ValidId};
+use json_ld_core::{
+	object, Context, Environment, Id, Indexed, Object, ProcessingMode, Term, ValidId,
+};
 use json_ld_syntax::{Keyword, Nullable};
 use json_syntax::{object::Entry, Value};
 use mown::Mown;
@@ -377,6 +379,15 @@ where
 								return Err(Error::KeyExpansionFailed(entry.0.to_string()));
 							}
 						}
+						Term::Keyword(keyword)
+							if (options.processing_mode == ProcessingMode::JsonLd1_0
+								|| *keyword != Keyword::Type)
+								&& kept_entries
+									.iter()
+									.any(|ExpandedEntry(_, kept_key, _)| *kept_key == entry.1) =>
+						{
+							return Err(Error::CollidingKeywords)
+						}
 						_ => kept_entries.push(entry),
 					}
 				}
diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 8755575..fa9e00d 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -150,7 +150,8 @@ where
 				if (options.processing_mode == ProcessingMode::JsonLd1_0
 					|| (expanded_property != Keyword::Included
 						&& expanded_property != Keyword::Type))
-					&& result.has_key(&Term::Keyword(expanded_property))
+					&& (result.has_key(&Term::Keyword(expanded_property))
+						|| expanded_property == Keyword::Index && result.index().is_some())
 				{
 					return Err(Error::CollidingKeywords);
 				}
-- 
2.43.0


From 9e60c99091621d25736906be11c4deba04893eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:48 +0000
Subject: [PATCH 74/76] fix: reject indexes of sets that are not strings

---
 crates/expansion/src/element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 42de7c9..60870a6 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -438,11 +438,14 @@ where
 				)))
 			} else if let Some(set_entry) = set_entry {
 				// Set objects.
-				for ExpandedEntry(_, expanded_key, _) in expanded_entries {
+				for ExpandedEntry(_, expanded_key, value) in expanded_entries {
 					match expanded_key {
 						Term::Keyword(Keyword::Index) => {
 							// having an `@index` here is tolerated,
 							// but is ignored.
+							if !value.is_string() {
+								return Err(Error::InvalidIndexValue);
+							}
 						}
 						Term::Keyword(Keyword::Set) => (),
 						_ => return Err(Error::InvalidSetOrListObject),
-- 
2.43.0


From c4b9193bc0118dbc618320a4d4f208ce0ed7c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:55 +0000
Subject: [PATCH 75/76] fix: reject values with several types

---
 crates/expansion/src/value.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 26b6641..b2e047b 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -81,6 +81,7 @@ where
 		.map(|t| *t == Term::Keyword(Keyword::Json))
 		.unwrap_or(false);
 	let mut ty = None;
+	let mut typed = false;
 	let mut index = None;
 	let mut language = None;
 	let mut direction = None;
@@ -132,8 +133,13 @@ where
 					return Err(InvalidValue::IndexValue);
 				}
 			}
-			// If expanded ...
+			// If expanded property is @type:
 			Term::Keyword(Keyword::Type) => {
+				// A value has one type at most.
+				if std::mem::replace(&mut typed, true) {
+					return Err(InvalidValue::TypedValue);
+				}
+
 				if let Some(ty_value) = value.as_str() {
 					let expanded_ty = expand_iri(
 						env,
-- 
2.43.0


From c8b4cc0c09e26d96629da3f7e8749f27a341ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:53 +0000
Subject: [PATCH 76/76] fix: ignore base directions in json-ld-1.0

---
 crates/expansion/src/element.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 60870a6..9c45e73 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -373,6 +373,12 @@ where
 				for entry in expanded_entries {
 					match &entry.1 {
 						Term::Null | Term::Keyword(Keyword::Context) => (),
+						// In json-ld-1.0, base directions are ignored.
+						Term::Keyword(Keyword::Direction)
+							if options.processing_mode == ProcessingMode::JsonLd1_0 =>
+						{
+							()
+						}
 						Term::Id(id) if !id.with(&*env.vocabulary).as_str().contains(':') => {
 							if options.policy.invalid.is_reject() || !options.policy.allow_undefined
 							{
-- 
2.43.0

