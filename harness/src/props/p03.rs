//! IRI expansion conforms to the reference model.
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::{Cfg, World};
use crate::imp;
use crate::j::{s, J};
use crate::model::context::{self, process, Env, ProcOpts};
use crate::model::iri::{is_iri, keyword};
use crate::props::p01::MODEL;
use crate::src::Src;
use json_ld::syntax::{context::Context as Local, ExpandableRef, Nullable, TryFromJson};
use json_ld::{Id, Process, Term, ValidId};
use json_ld_context_processing::algorithm::{expand_iri_simple, Action};

pub const PROP: Prop = Prop {
    id: "P03",
    quick: 250000,
    thorough: 3000000,
    rule: "random contexts and base IRIs, and 24 strings expanded with each of the flags (document relative, vocabulary kept, dropped or rejected); non-trivial: at least three strings are expanded to something else",
    assumptions: MODEL,
    gen,
    check,
};

const BASES: [&str; 14] = [
    "http://ex.org/dir/doc.jsonld", "http://a/b/c/d;p?q", "http://ex.org/", "http://ex.org/a/b/", "urn:x:y", "urn:x/y",
    "file:///a/b", "http://ex.org/a/b?q#f", "http://ex.org/a/./b/c", "s:", "s:a", "http://ex.org//a//b", "http://u@ex.org:80/p", "tag:ex.org,2020:a/b",
];

const REFS: [&str; 60] = [
    "g:h", "g", "./g", "g/", "/g", "//g", "?y", "g?y", "#s", "g#s", "g?y#s", ";x", "g;x", "g;x?y#s", "", ".", "./", "..", "../", "../g", "../..", "../../",
    "../../g", "../../../g", "/./g", "/../g", "g.", ".g", "g..", "..g", "./../g", "./g/.", "g/./h", "g/../h", "g;x=1/./y", "g;x=1/../y", "g?y/./x", "g?y/../x",
    "g#s/./x", "g#s/../x", "http:g", "a b", "%zz", "a%20b", "é", "a:b", "a:b:c", "a://b", "_:", "_:b", "_:b c", "@id", "@foo", "@foo1", "@", ":a", ":", "a:",
    "http://ex.org/x", "g//h",
];

const SUFFIXES: [&str; 12] = ["", "a", "/", "//a", "a/b", "#", "?q", "a b", ":", "a:b", "@id", "é"];

fn gen(g: &mut Src) -> J {
    let mut w = World::new(Cfg { shared_iris: g.chance(1, 3), ..Cfg::default() });
    let n = g.weighted(&[5, 2]) + 1;
    let contexts: Vec<J> = (0..n).map(|_| w.context(g, 1)).collect();
    let mut terms = vec![];
    for c in &contexts {
        c.walk(&mut |x| {
            if let J::Obj(e) = x {
                terms.extend(e.iter().map(|(k, _)| k.clone()))
            } else if let J::Str(x) = x {
                terms.push(x.clone())
            }
        });
    }
    terms.push("x".into());
    let base = g.pick(&BASES).to_string();
    let strings = (0..24)
        .map(|_| {
            J::Str(match g.below(4) {
                0 => g.pick(&terms).clone(),
                1 => format!("{}:{}", g.pick(&terms), g.pick(&SUFFIXES)),
                2 => format!("{}{}", g.pick(&terms), g.pick(&SUFFIXES)),
                _ => g.pick(&REFS).to_string(),
            })
        })
        .collect();
    let mut e: Vec<(String, J)> = vec![("contexts".into(), J::Arr(contexts)), ("strings".into(), J::Arr(strings))];
    if !g.chance(1, 8) {
        e.push(("base".into(), s(&base)));
    }
    J::Obj(e)
}

fn show(t: Option<Term>) -> Result<String, Outcome> {
    Ok(match t {
        None => "nothing".into(),
        Some(Term::Null) => "null".into(),
        Some(Term::Keyword(k)) => format!("keyword {}", k.into_str()),
        Some(Term::Id(Id::Valid(ValidId::Iri(i)))) => format!("iri {i}"),
        Some(Term::Id(Id::Valid(ValidId::Blank(b)))) => format!("blank {b}"),
        Some(Term::Id(Id::Invalid(x))) => {
            if is_iri(&x) || x.starts_with("_:") && rdf_types::BlankId::new(&x).is_ok() {
                return Err(Outcome::fail("form", format!("{x:?} taken for an invalid identifier")));
            }
            format!("invalid {x}")
        }
    })
}

/// What the model says, in the words of `show`.
fn said(x: Option<String>) -> String {
    match x {
        None => "null".into(),
        Some(x) if keyword(&x) => format!("keyword {x}"),
        Some(x) if rdf_types::BlankId::new(&x).is_ok() => format!("blank {x}"),
        Some(x) if iref::Iri::new(&x).is_ok() => format!("iri {x}"),
        Some(x) => format!("invalid {x}"),
    }
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (contexts, strings) = match (j.get("contexts").and_then(|x| x.as_arr()), j.get("strings").and_then(|x| x.as_arr())) {
        (Some(a), Some(b)) => (a, b),
        _ => return Outcome::pass(false),
    };
    let base = j.get("base").and_then(|x| x.as_str()).map(|x| x.to_string());
    if base.as_ref().map(|b| iref::Iri::new(b).is_err()).unwrap_or(false) {
        return Outcome::pass(false);
    }
    let env = Env::new(false);
    let mut m = context::Ctx::new(base.clone());
    let mut i = imp::Ctx::new(base.as_ref().map(|b| imp::iri(b)));
    for c in contexts {
        m = match process(&env, &m, c, &ProcOpts::new(base.clone())) {
            Ok(m) => m,
            Err(_) => return Outcome::pass(false),
        };
        let l = match Local::try_from_json(c.to_js()) {
            Ok(l) => l,
            Err(_) => return Outcome::pass(false),
        };
        i = match imp::block(l.process_full(&mut (), &i, &json_ld::NoLoader, base.as_ref().map(|b| imp::iri(b)), Default::default(), ())) {
            Ok(p) => p.into_processed(),
            Err(_) => return Outcome::pass(false),
        };
    }
    if env.skipped().is_some() {
        return Outcome::pass(false);
    }
    let mut vocabulary = ();
    let odd = |b: &Option<String>| b.as_ref().and_then(|b| b.split_once(':')).map(|(_, p)| !p.starts_with('/') || p[1..].contains("//") && p.rfind("//") != Some(0)).unwrap_or(false);
    let rootless = odd(&m.base);
    if odd(&base) && contexts.iter().any(|c| c.to_text().contains("..")) {
        return Outcome::pass(false);
    }
    let mut changed = 0;
    let mut sentinel = m.clone();
    sentinel.vocab = sentinel.vocab.map(|_| "\u{1}".into());
    for x in strings {
        let Some(x) = x.as_str() else { continue };
        for relative in [false, true] {
            for vocab in [None, Some(Action::Keep), Some(Action::Drop), Some(Action::Reject)] {
                let mut env = json_ld_core::Environment { vocabulary: &mut vocabulary, loader: &json_ld::NoLoader, warnings: &mut () };
                let r = expand_iri_simple::<json_ld_context_processing::algorithm::MalformedIri, _, _, _>(
                    &mut env,
                    &i,
                    Nullable::Some(ExpandableRef::from(x)),
                    relative,
                    vocab,
                );
                let r = match r {
                    Err(_) => "rejected".to_string(),
                    Ok(t) => match show(t) {
                        Ok(r) => r,
                        Err(f) => return f,
                    },
                };
                let e = context::expand_iri_simple(&m, x, relative, vocab.is_some());
                if e.as_ref().map(|e| e != x).unwrap_or(false) && x.contains("..") && (rootless || x.contains("//")) {
                    // The dot segments of rootless paths and of paths with empty segments: `iref`.
                    tags.tag("odd-base");
                    continue;
                }
                let with_vocab = vocab.is_some() && context::expand_iri_simple(&sentinel, x, relative, true).unwrap_or_default().starts_with('\u{1}');
                let e = match vocab {
                    Some(Action::Drop) if with_vocab => "nothing".into(),
                    Some(Action::Reject) if with_vocab => "rejected".into(),
                    _ => said(e),
                };
                if with_vocab {
                    tags.tag("vocabulary");
                }
                tags.tag(match e.split(' ').next() {
                    Some("iri") => "iri",
                    Some("blank") => "blank",
                    Some("invalid") => "invalid",
                    Some("keyword") => "keyword",
                    Some("null") => "null",
                    _ => "other",
                });
                if relative && vocab.is_none() && !e.ends_with(&format!(" {x}")) {
                    changed += 1;
                    tags.tag("resolved");
                }
                if r != e {
                    return Outcome::fail(
                        if relative { "relative" } else if vocab.is_some() { "vocabulary" } else { "simple" },
                        format!("{x:?} (document relative: {relative}, vocabulary: {vocab:?})\nmodel: {e}\nimpl:  {r}"),
                    );
                }
            }
        }
    }
    Outcome::pass(changed >= 3)
}
