//! Adapter to the code under test.
use crate::j::J;
use contextual::WithContext;
use iref::{Iri, IriBuf};
use json_ld::{
    syntax::{Compare, IntoJsonWithContext},
    Compact, Context, ExpandedDocument, Flatten, JsonLdProcessor, Options, Process, ProcessingMode,
    RemoteContextReference, RemoteDocument, RemoteDocumentReference,
};
use rdf_types::{BlankIdBuf, VocabularyMut};
use std::collections::HashMap;
use std::hash::Hash;

pub type Exp = ExpandedDocument<IriBuf, BlankIdBuf>;
pub type Ctx = Context<IriBuf, BlankIdBuf>;

/// Outcome of the code under test: error code of the specification.
pub type R<T> = Result<T, String>;

#[derive(Clone, Debug)]
pub struct Case {
    pub doc: J,
    pub url: Option<String>,
    pub base: Option<String>,
    pub expand_context: Option<J>,
    pub remote: Vec<(String, J)>,
    pub mode10: bool,
    pub ordered: bool,
}

impl Case {
    pub fn new(doc: J) -> Self {
        Case {
            doc,
            url: Some(crate::gen::DOC_URL.into()),
            base: None,
            expand_context: None,
            remote: vec![],
            mode10: false,
            ordered: false,
        }
    }
    pub fn render(&self) -> J {
        let mut e = vec![("document".to_string(), self.doc.clone())];
        if let Some(c) = &self.expand_context {
            e.push(("expandContext".into(), c.clone()));
        }
        for (u, c) in &self.remote {
            e.push((u.clone(), c.clone()));
        }
        e.push((
            "url".into(),
            self.url.as_ref().map(|u| J::Str(u.clone())).unwrap_or(J::Null),
        ));
        if let Some(b) = &self.base {
            e.push(("base".into(), J::Str(b.clone())));
        }
        if self.mode10 {
            e.push(("mode".into(), J::Str("json-ld-1.0".into())));
        }
        if self.ordered {
            e.push(("ordered".into(), J::Bool(true)));
        }
        J::Obj(e)
    }
    pub fn parse(j: &J) -> Option<Case> {
        let st = |k: &str| j.get(k).and_then(|x| x.as_str()).map(|x| x.to_string());
        let iri_ok = |s: &Option<String>| s.as_ref().map(|s| IriBuf::new(s.clone()).is_ok()).unwrap_or(true);
        let c = Case {
            doc: j.get("document")?.clone(),
            url: st("url"),
            base: st("base"),
            expand_context: j.get("expandContext").cloned(),
            remote: j
                .as_obj()?
                .iter()
                .filter(|(k, _)| k.starts_with("http"))
                .map(|(k, v)| (k.clone(), v.clone()))
                .collect(),
            mode10: j.get("mode").is_some(),
            ordered: j.get("ordered").is_some(),
        };
        if iri_ok(&c.url) && iri_ok(&c.base) {
            Some(c)
        } else {
            None
        }
    }
    /// Effective base IRI.
    pub fn base_iri(&self) -> Option<String> {
        self.base.clone().or(self.url.clone())
    }
}

pub fn iri(s: &str) -> IriBuf {
    IriBuf::new(s.to_string()).unwrap_or_else(|_| panic!("harness: invalid IRI {s}"))
}

pub fn loader(remote: &[(String, J)]) -> HashMap<IriBuf, RemoteDocument> {
    remote
        .iter()
        .map(|(u, d)| (iri(u), RemoteDocument::new(Some(iri(u)), None, d.to_js())))
        .collect()
}

/// Vocabulary usable by the processor.
pub trait Voc: VocabularyMut<Iri: Clone + Eq + Hash, BlankId: Clone + Eq + Hash> {}
impl<V: VocabularyMut<Iri: Clone + Eq + Hash, BlankId: Clone + Eq + Hash>> Voc for V {}

pub fn ins<V: Voc>(v: &mut V, s: &str) -> V::Iri {
    v.insert(iri(s).as_iri())
}

pub fn remote_doc_v<V: Voc>(v: &mut V, case: &Case) -> RemoteDocument<V::Iri> {
    let url = case.url.as_deref().map(|u| ins(v, u));
    RemoteDocument::new(url, None, case.doc.to_js())
}

pub fn remote_doc(case: &Case) -> RemoteDocument {
    remote_doc_v(&mut (), case)
}

pub fn context_ref_v<V: Voc>(_: &mut V, c: &J) -> R<RemoteContextReference<V::Iri>> {
    use json_ld::syntax::TryFromJson;
    let v = c.to_js();
    let c = json_ld::syntax::context::Context::try_from_json(v).map_err(|e| e.code().to_string())?;
    Ok(RemoteContextReference::Loaded(json_ld::RemoteContext::new(None, None, c)))
}

pub fn context_ref(c: &J) -> R<RemoteContextReference> {
    context_ref_v(&mut (), c)
}

pub fn options_v<V: Voc>(v: &mut V, case: &Case) -> R<Options<V::Iri>> {
    Ok(Options {
        base: case.base.as_deref().map(|b| ins(v, b)),
        expand_context: match &case.expand_context {
            Some(c) => Some(context_ref_v(v, c)?),
            None => None,
        },
        ordered: case.ordered,
        processing_mode: if case.mode10 { ProcessingMode::JsonLd1_0 } else { ProcessingMode::JsonLd1_1 },
        ..Default::default()
    })
}

pub fn options(case: &Case) -> R<Options> {
    options_v(&mut (), case)
}

pub fn block<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}

pub fn expand_v<V: Voc>(v: &mut V, case: &Case) -> R<ExpandedDocument<V::Iri, V::BlankId>> {
    let o = options_v(v, case)?;
    let l = loader(&case.remote);
    let d = remote_doc_v(v, case);
    block(d.expand_full(v, &l, o, ())).map_err(|e| e.code().to_string())
}

pub fn expand_raw(case: &Case) -> R<Exp> {
    expand_v(&mut (), case)
}

pub fn exp_to_j_v<V: Voc>(v: &V, e: &ExpandedDocument<V::Iri, V::BlankId>) -> J {
    J::Arr(e.iter().map(|o| J::from_js(&o.clone().into_json_with(v))).collect())
}

pub fn exp_to_j(e: &Exp) -> J {
    J::Arr(e.iter().map(|o| J::from_js(&o.clone().into_json_with(&()))).collect())
}

pub fn expand(case: &Case) -> R<J> {
    Ok(exp_to_j(&expand_raw(case)?))
}

/// What is needed to compact besides the input document.
#[derive(Clone, Debug)]
pub struct CompactOpts {
    pub context: J,
    pub arrays: bool,
    pub to_relative: bool,
}

impl CompactOpts {
    pub fn render(&self, case: J) -> J {
        let mut j = case;
        j.set("context", self.context.clone());
        if !self.arrays {
            j.set("compactArrays", J::Bool(false));
        }
        if !self.to_relative {
            j.set("compactToRelative", J::Bool(false));
        }
        j
    }
    pub fn parse(j: &J) -> Option<CompactOpts> {
        Some(CompactOpts {
            context: j.get("context")?.clone(),
            arrays: j.get("compactArrays").is_none(),
            to_relative: j.get("compactToRelative").is_none(),
        })
    }
}

pub fn compact_v<V: Voc>(v: &mut V, case: &Case, c: &CompactOpts) -> R<J> {
    let mut o = options_v(v, case)?;
    o.compact_arrays = c.arrays;
    o.compact_to_relative = c.to_relative;
    let ctx = context_ref_v(v, &c.context)?;
    let l = loader(&case.remote);
    let d = remote_doc_v(v, case);
    let r = block(d.compact_full(v, ctx, &l, o, ()));
    r.map(|v| J::from_js(&v)).map_err(|e| e.code().to_string())
}

pub fn compact(case: &Case, c: &CompactOpts) -> R<J> {
    compact_v(&mut (), case, c)
}

pub fn flatten_v<V: Voc>(v: &mut V, case: &Case, c: Option<&CompactOpts>) -> R<J> {
    let mut o = options_v(v, case)?;
    let mut ctx = None;
    if let Some(c) = c {
        o.compact_arrays = c.arrays;
        o.compact_to_relative = c.to_relative;
        ctx = Some(context_ref_v(v, &c.context)?);
    }
    let l = loader(&case.remote);
    let d = remote_doc_v(v, case);
    let mut g = rdf_types::generator::Blank::new();
    let r = block(d.flatten_full(v, &mut g, ctx, &l, o, ()));
    r.map(|v| J::from_js(&v)).map_err(|e| e.code().to_string())
}

pub fn flatten(case: &Case, c: Option<&CompactOpts>) -> R<J> {
    flatten_v(&mut (), case, c)
}

/// Read an expanded document, without expanding it.
pub fn exp_from_j(j: &J) -> Result<Exp, String> {
    use json_ld::TryFromJson;
    Exp::try_from_json_in(&mut (), j.to_js()).map_err(|e| format!("{e:?}"))
}

pub fn flatten_unordered(case: &Case) -> R<J> {
    let e = expand_raw(case)?;
    let g = rdf_types::generator::Blank::new();
    let f = e.flatten_unordered(g).map_err(|_| "conflicting indexes".to_string())?;
    Ok(J::Arr(f.into_iter().map(|n| J::from_js(&n.into_json_with(&()))).collect()))
}

use crate::model::{
    iso::{Fact, Tok},
    rdf::{self, Dir},
};
use std::collections::BTreeSet;

pub fn rdf_direction(d: Dir) -> Option<json_ld::rdf::RdfDirection> {
    match d {
        Dir::None => None,
        Dir::I18n => Some(json_ld::rdf::RdfDirection::I18nDatatype),
        Dir::Compound => Some(json_ld::rdf::RdfDirection::CompoundLiteral),
    }
}

pub type RdfId = rdf_types::Id<IriBuf, BlankIdBuf>;
pub type RdfTerm = rdf_types::Term<RdfId, rdf_types::Literal<IriBuf>>;
pub type RdfQuad = rdf_types::Quad<RdfId, RdfId, RdfTerm, RdfId>;

pub fn id_tok(i: &RdfId) -> Tok {
    match i {
        rdf_types::Id::Iri(i) => Tok::C(format!("<{i}>")),
        rdf_types::Id::Blank(b) => Tok::B(b.to_string()),
    }
}

pub fn term_tok(t: &RdfTerm) -> Tok {
    match t {
        rdf_types::Term::Id(i) => id_tok(i),
        rdf_types::Term::Literal(l) => match &l.type_ {
            rdf_types::LiteralType::Any(t) => rdf::lit(&l.value, t.as_str(), None),
            rdf_types::LiteralType::LangString(t) => rdf::lit(&l.value, "", Some(t.as_str())),
        },
    }
}

pub fn quad_fact(q: &RdfQuad) -> Fact {
    let g = q.3.as_ref().map(id_tok).unwrap_or(Tok::C("@default".into()));
    vec![g, id_tok(&q.0), id_tok(&q.1), term_tok(&q.2)]
}

pub fn to_rdf_quads(case: &Case, d: Dir, generalized: bool) -> R<Vec<RdfQuad>> {
    let mut o = options(case)?;
    o.rdf_direction = rdf_direction(d);
    o.produce_generalized_rdf = generalized;
    let l = loader(&case.remote);
    let doc = remote_doc(case);
    let mut g = rdf_types::generator::Blank::new();
    let mut v = ();
    let mut r = block(doc.to_rdf_full(&mut v, &mut g, &l, o, ())).map_err(|e| e.code().to_string())?;
    let q = r.cloned_quads().collect();
    Ok(q)
}

pub fn to_rdf(case: &Case, d: Dir, generalized: bool) -> R<BTreeSet<Fact>> {
    Ok(to_rdf_quads(case, d, generalized)?.iter().map(quad_fact).collect())
}
