//! Expansion conforms to the reference model.
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::{Cfg, World};
use crate::imp::{self, Case};
use crate::j::{canon_expanded, diff, J};
use crate::model::{context::Env, expand::Expander};
use crate::src::Src;

pub const MODEL: &[&str] = &[
    "the reference model (harness/src/model) is right where it agrees with the code",
    "cases the specification leaves open (tagged unspec:*) are not compared",
];

pub const PROP: Prop = Prop {
    id: "P01",
    quick: 300000,
    thorough: 4000000,
    rule: "random context/document pairs; non-trivial: the model succeeds with a non-empty expanded document",
    assumptions: MODEL,
    gen: |g| if g.chance(1, 8) { super::p04::gen(g) } else { gen_case(g, Cfg::default()).render() },
    check,
};

pub fn gen_case(g: &mut Src, mut cfg: Cfg) -> Case {
    cfg.mode10 = g.chance(1, 14);
    if cfg.mode10 {
        cfg.scoped = false;
        cfg.protected = false;
        cfg.direction = false;
        cfg.included = false;
        cfg.nest = false;
        cfg.propagate = false;
    }
    let mut w = World::new(cfg.clone());
    w.remote_contexts(g);
    let expand_context = if g.chance(1, 8) { Some(w.context(g, 1)) } else { None };
    let doc = w.document(g);
    let mut c = Case::new(doc);
    c.expand_context = expand_context;
    c.remote = w.remote;
    c.mode10 = cfg.mode10;
    c.ordered = g.chance(1, 4);
    match g.weighted(&[8, 2, 1]) {
        0 => (),
        1 => c.base = Some("http://base.org/d/e?f#g".into()),
        _ => c.url = None,
    }
    c
}

pub fn env(c: &Case) -> Env {
    let mut e = Env::new(c.mode10);
    for (u, d) in &c.remote {
        e.docs.insert(u.clone(), (u.clone(), d.clone()));
    }
    e
}

/// Does what the specification says depend on the order in which the terms of a context are defined?
pub fn order_matters<T: PartialEq>(env: impl Fn() -> Env, run: impl Fn(&Env) -> Result<T, String>) -> bool {
    let mut first = None;
    for order in 0..16 {
        let mut e = env();
        e.order = order;
        let r = run(&e).ok();
        if e.skipped().is_some() {
            return true;
        }
        match &first {
            None => first = Some(r),
            Some(f) if *f != r => return true,
            _ => (),
        }
    }
    false
}

pub fn model_expand(env: &Env, c: &Case) -> Result<J, &'static str> {
    let x = Expander { env, ordered: c.ordered, base: c.base_iri(), url: c.url.clone().or(c.base.clone()), policy: Default::default() };
    x.expand_doc(c.expand_context.as_ref(), &c.doc)
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let case = match Case::parse(j) {
        Some(c) => c,
        None => return Outcome::pass(false),
    };
    let env = env(&case);
    let m = model_expand(&env, &case);
    for t in env.cov.borrow().iter() {
        tags.tag(t);
    }
    let i = imp::expand(&case);
    if env.skipped().is_some() {
        return Outcome::pass(false);
    }
    let mut out = compare(tags, &m, &i);
    if m.is_ok() != i.is_ok() && env.cov.borrow().iter().any(|t| t.starts_with("lax:")) {
        // Entries that the grammar forbids and that the algorithms do not look at.
        tags.tag("forbidden entry");
        out = Outcome::pass(false);
    }
    if out.fail.is_some() {
        // What the specification says may depend on the (meaningless) order of the entries of
        // a context.
        if order_matters(|| self::env(&case), |e| model_expand(e, &case).map(|x| canon_expanded(&x)).map_err(str::to_string)) {
            tags.tag("unspec:context-order");
            out = Outcome::pass(false);
        }
    }
    out
}

pub fn compare(tags: &mut Tags, m: &Result<J, &'static str>, i: &Result<J, String>) -> Outcome {
    match (m, i) {
        (Err(a), Err(b)) => {
            tags.tag("both-error");
            if a == b {
                tags.tag("same-code");
            }
            // A document with several mistakes may be rejected for any of them.
            Outcome::pass(false)
        }
        (Ok(a), Err(b)) => Outcome::fail(format!("error: impl={b}"), format!("model: {a}")),
        (Err(a), Ok(b)) => Outcome::fail(format!("noerror: model={a}"), format!("impl: {b}")),
        (Ok(a), Ok(b)) => {
            tags.tag("both-ok");
            let (ca, cb) = (canon_expanded(&a), canon_expanded(&b));
            if ca == cb {
                Outcome::pass(a.len() > 0)
            } else {
                Outcome::fail("diff", format!("model: {ca}\nimpl:  {cb}\n{}", diff(&ca, &cb)))
            }
        }
    }
}
