//! Every way to call an operation gives the same result, for documents given by URL or already loaded.
use super::{p01, p05};
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::Cfg;
use crate::imp::{self, block, iri, Case, CompactOpts, R};
use crate::j::{canon_expanded, diff, J};
use crate::model::context::{process, Env, ProcOpts};
use crate::model::expand::Expander;
use crate::model::iso::Fact;
use crate::src::Src;
use iref::IriBuf;
use json_ld::syntax::TryFromJson;
use json_ld::{JsonLdProcessor, Options, RemoteContext, RemoteContextReference, RemoteDocument, RemoteDocumentReference};
use rdf_types::generator::Blank;
use std::collections::{BTreeSet, HashMap};

pub const PROP: Prop = Prop {
    id: "P22",
    quick: 15000,
    thorough: 300000,
    rule: "random documents (a third of them with a context given apart, by its URL), options and contexts, through all the variants of the operations, the document and the contexts by URL and loaded; non-trivial: the expanded document is not empty",
    assumptions: p01::MODEL,
    gen,
    check,
};

const ASKED: &str = "http://asked.org/some/document";
const CONTEXT: &str = "http://asked.org/context";
const EXPAND: &str = "http://asked.org/expand";
const MISSING: &str = "http://asked.org/missing";

fn gen(g: &mut Src) -> J {
    let (mut c, o) = p05::gen_case(g, Cfg::default());
    c.ordered = true;
    if g.chance(1, 4) {
        let mut w = crate::gen::World::new(Cfg { mode10: c.mode10, ..Cfg::default() });
        w.remote = c.remote.clone();
        if c.mode10 {
            c.mode10 = false;
        }
        c.expand_context = Some(w.context(g, 1));
    }
    let mut j = o.render(c.render());
    if !c.remote.is_empty() && g.chance(1, 2) {
        let u = if g.chance(1, 12) { MISSING.to_string() } else { g.pick(&c.remote).0.clone() };
        j.set("contextUrl", J::Str(u));
    }
    // sometimes something else than a context at the URL of the context
    match g.below(16) {
        0 => j.set("contextDocument", crate::gen::json_value(g, 1)),
        1 => j.set("contextDocument", J::Obj(vec![("a".into(), o.context.clone())])),
        _ => (),
    }
    j
}

/// How the document and the contexts are given, and the options.
struct Setup {
    loader: HashMap<IriBuf, RemoteDocument>,
    context: Option<RemoteContextReference>,
    options: Options,
}

#[derive(PartialEq, Debug)]
enum Res {
    Doc(R<J>),
    Rdf(R<BTreeSet<Fact>>),
    Bool(R<bool>),
}

fn exp(r: Result<imp::Exp, json_ld::ExpandError>) -> Res {
    Res::Doc(r.map(|e| canon_expanded(&imp::exp_to_j(&e))).map_err(|e| e.code().to_string()))
}
fn js(r: Result<json_syntax::Value, String>) -> Res {
    Res::Doc(r.map(|v| J::from_js(&v).sorted_keys()))
}
macro_rules! code {
    ($r:expr) => {
        $r.map_err(|e| e.code().to_string())
    };
}
fn rdf<G: rdf_types::Generator>(r: Result<json_ld::ToRdf<(), G>, json_ld::ToRdfError>) -> Res {
    Res::Rdf(code!(r).map(|mut r| r.cloned_quads().map(|q| imp::quad_fact(&q)).collect()))
}

/// The default is unordered: the order of the nodes and the labels are anything.
fn unlabelled(r: Res) -> Res {
    fn blank(j: &J) -> J {
        match j {
            J::Str(x) if x.starts_with("_:") => J::Str("_:".into()),
            J::Arr(a) => {
                let mut a: Vec<J> = a.iter().map(blank).collect();
                a.sort_by_key(|x| x.to_text());
                J::Arr(a)
            }
            J::Obj(o) => J::Obj(o.iter().map(|(k, v)| (if k.starts_with("_:") { "_:".into() } else { k.clone() }, blank(v))).collect()).sorted_keys(),
            x => x.clone(),
        }
    }
    match r {
        Res::Doc(r) => Res::Doc(r.map(|x| blank(&x))),
        r => r,
    }
}

type All = Vec<(&'static str, &'static str, Res)>;

/// All the operations with the given options: (operation, variant, result).
fn all<P: JsonLdProcessor<IriBuf> + Clone>(p: &P, s: &Setup, variants: bool) -> All {
    let mut r: All = vec![];
    let l = &s.loader;
    let o = || s.options.clone();
    r.push(("expand", "full", exp(block(p.expand_full(&mut (), l, o(), ())))));
    r.push(("flatten", "full", js(code!(block(p.flatten_full(&mut (), &mut Blank::new(), None, l, o(), ()))))));
    r.push(("to_rdf", "full", rdf(block(p.to_rdf_full((), Blank::new(), l, o(), ())))));
    r.push(("compare", "full", Res::Bool(code!(block(p.compare_full(p, &mut (), l, o(), ()))))));
    let d = block(p.clone().into_document_full(&mut (), l, o(), ()));
    r.push(("expand", "into_document_full", exp(d.map(|d| d.into_expanded()))));
    if let Some(c) = &s.context {
        let c = || c.clone();
        r.push(("compact", "full", js(code!(block(p.compact_full(&mut (), c(), l, o(), ()))))));
        r.push(("flatten and compact", "full", js(code!(block(p.flatten_full(&mut (), &mut Blank::new(), Some(c()), l, o(), ()))))));
        if variants {
            r.push(("compact", "with_using", js(code!(block(p.compact_with_using(&mut (), c(), l, o()))))));
            r.push(("compact", "using", js(code!(block(p.compact_using(c(), l, o()))))));
        }
    }
    if variants {
        r.push(("expand", "with_using", exp(block(p.expand_with_using(&mut (), l, o())))));
        r.push(("expand", "using", exp(block(p.expand_using(l, o())))));
        r.push(("expand", "into_document_with_using", exp(block(p.clone().into_document_with_using(&mut (), l, o())).map(|d| d.into_expanded()))));
        r.push(("flatten", "with_using", js(code!(block(p.flatten_with_using(&mut (), &mut Blank::new(), l, o()))))));
        r.push(("flatten", "using", js(code!(block(p.flatten_using(&mut Blank::new(), l, o()))))));
        r.push(("to_rdf", "with_using", rdf(block(p.to_rdf_with_using((), Blank::new(), l, o())))));
        r.push(("to_rdf", "using", rdf(block(p.to_rdf_using(Blank::new(), l, o())))));
        r.push(("compare", "with_using", Res::Bool(code!(block(p.compare_with_using(p, &mut (), l, o()))))));
        r.push(("compare", "using", Res::Bool(code!(block(p.compare_using(p, l, o()))))));
    }
    r
}

/// All the operations without options.
fn defaults<P: JsonLdProcessor<IriBuf> + Clone>(p: &P, s: &Setup) -> All {
    let mut r: All = vec![];
    let l = &s.loader;
    r.push(("expand", "with", exp(block(p.expand_with(&mut (), l)))));
    r.push(("expand", "", exp(block(p.expand(l)))));
    r.push(("expand", "into_document_with", exp(block(p.clone().into_document_with(&mut (), l)).map(|d| d.into_expanded()))));
    r.push(("expand", "into_document", exp(block(p.clone().into_document(l)).map(|d| d.into_expanded()))));
    r.push(("flatten", "with", unlabelled(js(code!(block(p.flatten_with(&mut (), &mut Blank::new(), l)))))));
    r.push(("flatten", "", unlabelled(js(code!(block(p.flatten(&mut Blank::new(), l)))))));
    r.push(("to_rdf", "with", rdf(block(p.to_rdf_with((), Blank::new(), l)))));
    r.push(("to_rdf", "", rdf(block(p.to_rdf(Blank::new(), l)))));
    r.push(("compare", "with", Res::Bool(code!(block(p.compare_with(p, &mut (), l))))));
    r.push(("compare", "", Res::Bool(code!(block(p.compare(p, l))))));
    if let Some(c) = &s.context {
        let c = || c.clone();
        r.push(("compact", "with", js(code!(block(p.compact_with(&mut (), c(), l))))));
        r.push(("compact", "", js(code!(block(p.compact(c(), l))))));
    }
    r
}

fn same(want: &All, got: &All, how: &str) -> Option<Outcome> {
    for (op, variant, x) in got {
        let w = match want.iter().find(|w| w.0 == *op) {
            Some(w) => &w.2,
            None => continue,
        };
        if w != x {
            let d = match (w, x) {
                (Res::Doc(Ok(a)), Res::Doc(Ok(b))) => format!("{a}\n{b}\n{}", diff(a, b)),
                _ => format!("{w:?}\n{x:?}"),
            };
            return Some(Outcome::fail(format!("{how}: {op}"), format!("variant {variant:?}\n{d}")));
        }
    }
    None
}

fn model(env: &Env, c: &Case, context_url: &Option<String>) -> Result<J, &'static str> {
    let x = Expander { env, ordered: c.ordered, base: c.base_iri(), url: c.url.clone().or(c.base.clone()), policy: Default::default() };
    let mut ctx = x.initial(c.expand_context.as_ref())?;
    if let Some(u) = context_url {
        ctx = process(env, &ctx, &J::Str(u.clone()), &ProcOpts::new(Some(u.clone())))?;
    }
    x.expand_with(&ctx, &c.doc)
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (case, o) = match p05::parse(j) {
        Some(x) => x,
        None => return Outcome::pass(false),
    };
    let context_url = match j.get("contextUrl") {
        Some(u) => match u.as_str().and_then(|u| IriBuf::new(u.to_string()).ok()) {
            Some(u) => Some(u),
            None => return Outcome::pass(false),
        },
        None => None,
    };
    let doc = RemoteDocument::new_full(case.url.as_deref().map(iri), None, context_url.clone(), Default::default(), case.doc.to_js());
    let mut loader = imp::loader(&case.remote);
    loader.insert(iri(ASKED), doc.clone());
    let wrap = |c: &J| J::Obj(vec![("@context".into(), c.clone())]);
    let context_doc = j.get("contextDocument").cloned().unwrap_or_else(|| wrap(&o.context));
    let broken = j.get("contextDocument").is_some();
    loader.insert(iri(CONTEXT), RemoteDocument::new(Some(iri(CONTEXT)), None, context_doc.to_js()));
    if let Some(e) = &case.expand_context {
        loader.insert(iri(EXPAND), RemoteDocument::new(Some(iri(EXPAND)), None, wrap(e).to_js()));
    }
    let options = Options {
        base: case.base.as_deref().map(iri),
        compact_arrays: o.arrays,
        compact_to_relative: o.to_relative,
        ordered: true,
        processing_mode: if case.mode10 { json_ld::ProcessingMode::JsonLd1_0 } else { json_ld::ProcessingMode::JsonLd1_1 },
        rdf_direction: if o.arrays { None } else { Some(json_ld::rdf::RdfDirection::CompoundLiteral) },
        produce_generalized_rdf: !o.to_relative,
        ..Default::default()
    };
    let parsed = |c: &J| json_ld::syntax::Context::try_from_json(c.to_js()).map(|c| RemoteContextReference::Loaded(RemoteContext::new(None, None, c)));
    // the contexts, already loaded, when they can be
    let (expand_context, expand_error) = match case.expand_context.as_ref().map(parsed) {
        Some(Ok(c)) => (Some(c), None),
        Some(Err(e)) => (None, Some(e.code().to_string())),
        None => (None, None),
    };
    let (context, context_error) = match parsed(&o.context) {
        Ok(c) => (Some(c), None),
        Err(e) => (None, Some(e.code().to_string())),
    };
    let s = Setup { loader: loader.clone(), context, options: Options { expand_context, ..options.clone() } };
    let by_url = Setup {
        loader: loader.clone(),
        context: Some(RemoteContextReference::Iri(iri(CONTEXT))),
        options: Options { expand_context: case.expand_context.as_ref().map(|_| RemoteContextReference::Iri(iri(EXPAND))), ..options.clone() },
    };

    // the document as it is, with all the variants
    if expand_error.is_none() {
        let want = all(&doc, &s, true);
        if let Some(f) = same(&want, &want, "variants") {
            return f;
        }
        // by reference
        let loaded: RemoteDocumentReference = RemoteDocumentReference::Loaded(doc.clone());
        if let Some(f) = same(&want, &all(&loaded, &s, true), "loaded document") {
            return f;
        }
        let asked: RemoteDocumentReference = RemoteDocumentReference::Iri(iri(ASKED));
        if let Some(f) = same(&want, &all(&asked, &s, true), "document by URL") {
            return f;
        }
        match block(asked.clone().into_document_full(&mut (), &loader, s.options.clone(), ())) {
            Ok(d) => {
                let r = d.as_remote();
                if r.url() != doc.url() || r.context_url() != doc.context_url() || r.document() != doc.document() {
                    return Outcome::fail("into_document", format!("{:?}", r.document()));
                }
                let e = canon_expanded(&imp::exp_to_j(d.as_expanded()));
                if d.as_compact() != doc.document() || want[0].2 != Res::Doc(Ok(e)) {
                    return Outcome::fail("into_document", format!("{:?}", d.as_compact()));
                }
                if *d.clone().into_remote().document() != d.clone().into_compact() || d.clone().into_parts().1 != d.clone().into_expanded() {
                    return Outcome::fail("into_document: parts", format!("{:?}", d.as_compact()));
                }
            }
            Err(e) => {
                if want[0].2 != Res::Doc(Err(e.code().to_string())) {
                    return Outcome::fail("into_document: error", e.to_string());
                }
            }
        }
        // the contexts by URL
        if !broken {
            if let Some(f) = same(&want, &all(&doc, &by_url, false), "contexts by URL") {
                return f;
            }
        }
        // the default options
        let d = Setup { loader: loader.clone(), context: s.context.clone(), options: Options::default() };
        let mut want0 = all(&doc, &d, false);
        if want0[1].0 == "flatten" {
            let (o, v, r) = want0.remove(1);
            want0.push((o, v, unlabelled(r)));
        }
        if let Some(f) = same(&want0, &defaults(&doc, &d), "default options") {
            return f;
        }
        if let Some(f) = same(&want0, &defaults(&asked, &d), "default options, document by URL") {
            return f;
        }
        // a document which is not there
        let missing: RemoteDocumentReference = RemoteDocumentReference::Iri(iri(MISSING));
        for (op, variant, r) in all(&missing, &s, true) {
            let e = match r {
                Res::Doc(r) => r.err(),
                Res::Rdf(r) => r.err(),
                Res::Bool(r) => r.err(),
            };
            if e.as_deref() != Some("loading document failed") {
                return Outcome::fail(format!("missing document: {op}"), format!("{variant}: {e:?}"));
            }
        }
        tags.tag("variants");
    }
    // mistakes in contexts given by URL
    let expands = block(doc.expand_full(&mut (), &loader, s.options.clone(), ())).is_ok()
        && block(doc.expand_full(&mut (), &loader, s.options.clone().unordered(), ())).is_ok();
    let want_error = if expand_error.is_some() {
        expand_error.clone()
    } else if !expands {
        None
    } else if broken {
        let c = match &context_doc {
            J::Obj(_) => context_doc.get("@context").map(|c| parsed(c).err().map(|e| e.code().to_string())),
            _ => None,
        };
        c.unwrap_or(Some("invalid remote context".into()))
    } else {
        context_error
    };
    if let Some(e) = want_error {
        tags.tag("mistake in a context");
        let r = block(doc.compact_full(&mut (), RemoteContextReference::Iri(iri(CONTEXT)), &loader, by_url.options.clone(), ()));
        let r = r.map(|_| ()).map_err(|e| e.code().to_string());
        if r != Err(e.clone()) {
            return Outcome::fail("error of a context by URL", format!("compact: {r:?}, expected {e}"));
        }
        let r = block(doc.flatten_full(&mut (), &mut Blank::new(), Some(RemoteContextReference::Iri(iri(CONTEXT))), &loader, by_url.options.clone(), ()));
        let r = r.map(|_| ()).map_err(|e| e.code().to_string());
        if r != Err(e.clone()) && r != Err("conflicting indexes".into()) {
            return Outcome::fail("error of a context by URL", format!("flatten: {r:?}, expected {e}"));
        }
    }
    // the meaning of a context given apart
    if let Some(u) = &context_url {
        let u = Some(u.to_string());
        let env = p01::env(&case);
        let m = model(&env, &case, &u);
        let i = match expand_error {
            Some(e) => Err(e),
            None => block(doc.expand_full(&mut (), &loader, s.options.clone(), ())).map(|e| imp::exp_to_j(&e)).map_err(|e| e.code().to_string()),
        };
        if env.skipped().is_some() {
            return Outcome::pass(false);
        }
        tags.tag("context apart");
        let out = p01::compare(tags, &m, &i);
        if out.fail.is_some() {
            if p01::order_matters(|| p01::env(&case), |e| model(e, &case, &u).map(|x| canon_expanded(&x)).map_err(str::to_string)) {
                return Outcome::pass(false);
            }
        }
        return out;
    }
    Outcome::pass(expands)
}
