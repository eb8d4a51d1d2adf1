//! Context processing conforms to the reference model, and processed contexts can be written back.
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::{Cfg, World};
use crate::imp;
use crate::j::{diff, obj, s, J};
use crate::model::context::{process, Ctx, Env, ProcOpts};
use crate::props::p01::{self, MODEL};
use crate::src::Src;
use json_ld::syntax::{context::Context as Local, IntoJson, TryFromJson};
use json_ld::Process;

pub const PROP: Prop = Prop {
    id: "P02",
    quick: 300000,
    thorough: 4000000,
    rule: "random sequences of 1 to 3 local contexts processed one after the other, with and without the override and propagate options; non-trivial: the resulting context defines a term",
    assumptions: MODEL,
    gen,
    check,
};

#[derive(Debug)]
struct Step {
    context: J,
    over: bool,
    propagate: bool,
}

fn gen(g: &mut Src) -> J {
    let mut cfg = Cfg { shared_iris: g.chance(1, 3), ..Cfg::default() };
    cfg.mode10 = g.chance(1, 14);
    if cfg.mode10 {
        cfg.scoped = false;
        cfg.protected = false;
        cfg.direction = false;
        cfg.propagate = false;
    }
    let mut w = World::new(cfg.clone());
    w.remote_contexts(g);
    let n = g.weighted(&[4, 3, 2]) + 1;
    let mut steps = vec![];
    // A history where protected terms meet a remote context.
    let protected = n > 1 && cfg.protected && !w.remote.is_empty() && g.chance(1, 6);
    for k in 0..n {
        let mut c = w.context(g, 1);
        if protected && k == 0 {
            match &mut c {
                J::Obj(e) if !e.iter().any(|(k, _)| k == "@protected") => e.push(("@protected".into(), J::Bool(true))),
                _ => (),
            }
        } else if protected && k == n - 1 {
            let r = s(&w.remote[g.below(w.remote.len())].0);
            c = if g.bool() { r } else { J::Arr(vec![r]) };
        }
        let mut e = vec![("context", c)];
        if g.chance(1, if protected { 2 } else { 5 }) {
            e.push(("override", J::Bool(true)));
        }
        if g.chance(1, 6) {
            e.push(("propagate", J::Bool(false)));
        }
        steps.push(obj(e));
    }
    let mut e: Vec<(String, J)> = vec![("steps".into(), J::Arr(steps))];
    for (u, d) in w.remote {
        e.push((u, d));
    }
    if !g.chance(1, 10) {
        e.push(("base".into(), s("http://ex.org/dir/doc.jsonld")));
    }
    if cfg.mode10 {
        e.push(("mode".into(), s("json-ld-1.0")));
    }
    J::Obj(e)
}

fn canon_local(c: &J) -> J {
    match Local::try_from_json(c.to_js()) {
        Ok(c) => J::from_js(&c.into_json()).sorted_keys(),
        Err(_) => c.sorted_keys(),
    }
}

fn opt(x: &Option<String>) -> J {
    x.as_ref().map(|x| s(x)).unwrap_or(J::Null)
}

fn model_j(c: &Ctx, urls: bool) -> J {
    let mut terms = vec![];
    for (t, d) in &c.terms {
        let mut e = vec![("iri", opt(&d.iri))];
        if t != "@type" {
            e.push(("prefix", J::Bool(d.prefix)));
            e.push(("reverse", J::Bool(d.reverse)));
        } else {
            e.remove(0);
        }
        e.push(("protected", J::Bool(d.protected)));
        e.push(("container", J::Arr(d.container.iter().map(|x| s(x)).collect())));
        if let Some(x) = &d.direction {
            e.push(("direction", opt(x)));
        }
        if let Some(x) = &d.language {
            e.push(("language", opt(&x.as_ref().map(|x| x.to_ascii_lowercase()))));
        }
        if let Some(x) = &d.index {
            e.push(("index", s(x)));
        }
        if let Some(x) = &d.nest {
            e.push(("nest", s(x)));
        }
        if let Some(x) = &d.ty {
            e.push(("type", s(x)));
        }
        if let Some(x) = &d.context {
            e.push(("context", canon_local(x)));
            if urls {
                e.push(("base_url", opt(&d.base_url)));
            }
        }
        terms.push((t.clone(), obj(e)));
    }
    let mut e = vec![
        ("base", opt(&c.base)),
        ("vocab", opt(&c.vocab)),
        ("language", opt(&c.language.as_ref().map(|x| x.to_ascii_lowercase()))),
        ("direction", opt(&c.direction)),
        ("terms", J::Obj(terms)),
    ];
    if urls {
        e.push(("original_base", opt(&c.original_base)));
    }
    if let Some(p) = &c.previous {
        e.push(("previous", model_j(p, urls)));
    }
    obj(e).sorted_keys()
}

fn term_j(t: &json_ld::Term) -> J {
    match t {
        json_ld::Term::Null => J::Null,
        json_ld::Term::Id(i) => s(i.as_str()),
        json_ld::Term::Keyword(k) => s(k.into_str()),
    }
}

pub fn imp_j(c: &imp::Ctx, urls: bool) -> J {
    let mut terms = vec![];
    for b in c.definitions().iter() {
        let d = b.definition();
        let mut e = vec![];
        let t = b.term();
        if t.as_str() != "@type" {
            e.push(("iri", d.value().map(term_j).unwrap_or(J::Null)));
            e.push(("prefix", J::Bool(d.prefix())));
            e.push(("reverse", J::Bool(d.reverse_property())));
        }
        e.push(("protected", J::Bool(d.protected())));
        let mut k = vec![];
        if let Some(c) = d.container().into_syntax() {
            k = J::from_js(&c.into_json()).items().to_vec();
        }
        k.sort_by_key(|x| x.to_text());
        e.push(("container", J::Arr(k)));
        if let Some(x) = d.direction() {
            e.push(("direction", x.option().map(|d| s(d.as_str())).unwrap_or(J::Null)));
        }
        if let Some(x) = d.language() {
            e.push(("language", x.option().map(|d| s(&d.as_str().to_ascii_lowercase())).unwrap_or(J::Null)));
        }
        if let Some(x) = d.index() {
            e.push(("index", s(x.as_str())));
        }
        if let Some(x) = d.nest() {
            e.push(("nest", s(x.as_str())));
        }
        if let Some(x) = d.typ() {
            use json_ld::Type;
            e.push((
                "type",
                s(match x {
                    Type::Id => "@id",
                    Type::Json => "@json",
                    Type::None => "@none",
                    Type::Vocab => "@vocab",
                    Type::Iri(i) => i.as_str(),
                }),
            ));
        }
        if let Some(x) = d.context() {
            e.push(("context", J::from_js(&x.clone().into_json()).sorted_keys()));
            if urls {
                e.push(("base_url", d.base_url().map(|x| s(x.as_str())).unwrap_or(J::Null)));
            }
        }
        terms.push((t.as_str().to_string(), obj(e)));
    }
    let iri = |x: Option<&iref::IriBuf>| x.map(|x| s(x.as_str())).unwrap_or(J::Null);
    let mut e = vec![
        ("base", iri(c.base_iri())),
        ("vocab", c.vocabulary().map(term_j).unwrap_or(J::Null)),
        ("language", c.default_language().map(|l| s(&l.as_str().to_ascii_lowercase())).unwrap_or(J::Null)),
        ("direction", c.default_base_direction().map(|l| s(l.as_str())).unwrap_or(J::Null)),
        ("terms", J::Obj(terms)),
    ];
    if urls {
        e.push(("original_base", iri(c.original_base_url())));
    }
    if let Some(p) = c.previous_context() {
        e.push(("previous", imp_j(p, urls)));
    }
    obj(e).sorted_keys()
}

fn parse(j: &J) -> Option<(Vec<Step>, Option<String>, bool, Vec<(String, J)>)> {
    let mut steps = vec![];
    for x in j.get("steps")?.as_arr()? {
        steps.push(Step {
            context: x.get("context")?.clone(),
            over: x.get("override") == Some(&J::Bool(true)),
            propagate: x.get("propagate") != Some(&J::Bool(false)),
        });
    }
    let base = j.get("base").and_then(|x| x.as_str()).map(|x| x.to_string());
    if base.as_ref().map(|b| iref::IriBuf::new(b.clone()).is_err()).unwrap_or(false) {
        return None;
    }
    let remote = j.as_obj()?.iter().filter(|(k, _)| k.contains("://")).cloned().collect();
    Some((steps, base, j.has("mode"), remote))
}

fn model(env: &Env, steps: &[Step], base: &Option<String>) -> Result<Vec<Ctx>, &'static str> {
    let mut c = Ctx::new(base.clone());
    let mut r = vec![];
    for x in steps {
        let mut o = ProcOpts::new(base.clone()).propagate(x.propagate);
        o.override_protected = x.over;
        c = process(env, &c, &x.context, &o)?;
        r.push(c.clone());
    }
    Ok(r)
}

fn apply(c: &imp::Ctx, local: &J, base: &Option<String>, o: json_ld_context_processing::Options, loader: &impl json_ld::Loader) -> imp::R<imp::Ctx> {
    let l = Local::try_from_json(local.to_js()).map_err(|e| e.code().to_string())?;
    let b = base.as_ref().map(|b| imp::iri(b));
    let p = imp::block(l.process_full(&mut (), c, loader, b, o, ())).map_err(|e| e.code().to_string())?;
    Ok(p.into_processed())
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (steps, base, mode10, remote) = match parse(j) {
        Some(c) => c,
        None => return Outcome::pass(false),
    };
    let mk = || {
        let mut e = Env::new(mode10);
        for (u, d) in &remote {
            e.docs.insert(u.clone(), (u.clone(), d.clone()));
        }
        e
    };
    let env = mk();
    let m = model(&env, &steps, &base);
    for t in env.cov.borrow().iter() {
        tags.tag(t);
    }
    let loader = imp::loader(&remote);
    let mut i: imp::R<Vec<imp::Ctx>> = Ok(vec![]);
    let mut c = imp::Ctx::new(base.as_ref().map(|b| imp::iri(b)));
    let mode = if mode10 { json_ld::ProcessingMode::JsonLd1_0 } else { json_ld::ProcessingMode::JsonLd1_1 };
    for x in &steps {
        let o = json_ld_context_processing::Options {
            processing_mode: mode,
            override_protected: x.over,
            propagate: x.propagate,
            ..Default::default()
        };
        match apply(&c, &x.context, &base, o, &loader) {
            Ok(n) => {
                if let Ok(v) = &mut i {
                    v.push(n.clone())
                }
                c = n
            }
            Err(e) => {
                i = Err(e);
                break;
            }
        }
    }
    if env.skipped().is_some() {
        return Outcome::pass(false);
    }
    let shown = |m: &Result<Vec<Ctx>, &'static str>| m.as_ref().map(|m| m.iter().map(|c| model_j(c, true)).collect::<Vec<_>>()).map_err(|e| *e);
    let sm = shown(&m);
    let fail = match (&sm, &i) {
        (Err(_), Err(_)) => return Outcome::pass(false),
        (Ok(a), Err(b)) => Some(Outcome::fail(format!("error: impl={b}"), format!("model: {a:?}"))),
        (Err(a), Ok(b)) => Some(Outcome::fail(
            format!("noerror: model={a}"),
            format!("impl: {}", b.last().map(|b| imp_j(b, true).to_text()).unwrap_or_default()),
        )),
        (Ok(a), Ok(b)) => {
            let b: Vec<J> = b.iter().map(|b| imp_j(b, true)).collect();
            a.iter().zip(&b).find(|(x, y)| x != y).map(|(x, y)| Outcome::fail("diff", format!("model: {x}\nimpl:  {y}\n{}", diff(x, y))))
        }
    };
    if let Some(f) = fail {
        // What the specification says may depend on the (meaningless) order of the entries.
        if p01::order_matters(&mk, |e| shown(&model(e, &steps, &base)).map_err(str::to_string)) {
            tags.tag("unspec:context-order");
            return Outcome::pass(false);
        }
        return f;
    }
    if let Ok(all) = &i {
        for (x, y) in all.iter().zip(all.iter().skip(1)) {
            if x == y && imp_j(x, true) != imp_j(y, true) {
                return Outcome::fail("eq: different contexts are equal", format!("{}\n{}", imp_j(x, true), imp_j(y, true)));
            }
            tags.tag(if x == y { "equal-contexts" } else { "different-contexts" });
        }
    }
    let nontrivial = c.definitions().iter().next().is_some();
    if let Some(f) = write_back(&c, &base, mode, &loader, tags) {
        return f;
    }
    Outcome::pass(nontrivial)
}

/// The IRIs of the context are not compact IRIs of its own, and its scoped contexts do not depend
/// on a base IRI.
fn unambiguous(c: &imp::Ctx) -> bool {
    let compact = |x: &str| x.split_once(':').map(|(p, _)| c.get(p).is_some()).unwrap_or(false) || c.get(x).is_some();
    let vocab = c.vocabulary().map(term_j).and_then(|x| x.as_str().map(|x| x.to_string()));
    if vocab.map(|v| compact(&v)).unwrap_or(false) {
        return false;
    }
    for b in c.definitions().iter() {
        let d = b.definition();
        let t = b.term().as_str();
        if t.contains([':', '/']) {
            return false;
        }
        if let Some(v) = d.value().map(term_j) {
            if v.as_str().map(compact).unwrap_or(false) {
                return false;
            }
        }
        if let Some(json_ld::Type::Iri(i)) = d.typ() {
            if compact(i.as_str()) {
                return false;
            }
        }
        if let Some(x) = d.context() {
            let mut ok = true;
            let x = J::from_js(&x.clone().into_json());
            x.items().iter().for_each(|y| ok &= y.is_obj() || y.is_null());
            x.walk(&mut |y| {
                if let J::Obj(e) = y {
                    ok &= !e.iter().any(|(k, v)| {
                        k == "@base" || k == "@vocab" || k == "@import" || k == "@context" && !v.is_obj() && !v.is_null()
                            // whether the mapping is the right one depends on which terms are defined first
                            || k.contains(':') && v.get("@id").is_some()
                            || k.contains('/')
                    })
                }
            });
            if !ok {
                return false;
            }
        }
    }
    true
}

/// The context written as a JSON-LD context, and processed again, gives the same context.
fn write_back(c: &imp::Ctx, base: &Option<String>, mode: json_ld::ProcessingMode, loader: &impl json_ld::Loader, tags: &mut Tags) -> Option<Outcome> {
    if !c.clone().eq(c) {
        return Some(Outcome::fail("eq: not reflexive", String::new()));
    }
    if mode == json_ld::ProcessingMode::JsonLd1_0 || !unambiguous(c) {
        return None;
    }
    let def = c.clone().into_syntax_definition(&());
    let written = J::from_js(&def.into_json());
    let empty = imp::Ctx::new(None);
    let o = json_ld_context_processing::Options::default();
    let o = json_ld_context_processing::Options { processing_mode: mode, ..o };
    let again = match apply(&empty, &written, base, o, loader) {
        Ok(a) => a,
        Err(e) => return Some(Outcome::fail(format!("written context rejected: {e}"), written.to_text())),
    };
    tags.tag("written-back");
    let strip = |c: &imp::Ctx| {
        let mut x = imp_j(c, false);
        x.remove("previous");
        // a type mapping leaves no room for a language or direction
        if let Some(J::Obj(terms)) = x.get_mut("terms") {
            for (_, d) in terms {
                if d.has("type") {
                    d.remove("language");
                    d.remove("direction");
                }
            }
        }
        x
    };
    let (a, b) = (strip(c), strip(&again));
    if a != b {
        return Some(Outcome::fail("written context differs", format!("written: {written}\n{}", diff(&a, &b))));
    }
    None
}
