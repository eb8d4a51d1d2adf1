//! Expansion policies leave out, or refuse, exactly what they say.
use super::p01;
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::Cfg;
use crate::imp::{self, Case};
use crate::j::{canon_expanded, diff, J};
use crate::model::{
    context::Env,
    expand::{Expander, Policy},
};
use crate::src::Src;
use json_ld::expansion::Action;
use json_ld::JsonLdProcessor;

pub const PROP: Prop = Prop {
    id: "P27",
    quick: 300000,
    thorough: 3000000,
    rule: "random documents that expand, expanded with a policy; non-trivial: the policy leaves something out, or refuses the document, or the document has properties or types it could have left out",
    assumptions: p01::MODEL,
    gen,
    check,
};

const ACTIONS: [&str; 3] = ["keep", "drop", "reject"];
const INVALID: [&str; 4] = ["http://[x", "a b:c", "x:y z", "http://h/%zz"];

/// Replaces some types by invalid ones, and adds invalid and undefined properties.
fn damage(g: &mut Src, j: &mut J) {
    match j {
        J::Arr(a) => a.iter_mut().for_each(|x| damage(g, x)),
        J::Obj(o) => {
            for e in o.iter_mut() {
                if e.0 != "@context" {
                    damage(g, &mut e.1);
                }
            }
            if g.chance(1, 6) && !o.iter().any(|e| matches!(e.0.as_str(), "@value" | "@list" | "@set")) {
                let k = match g.below(4) {
                    0 => g.pick(&INVALID).to_string(),
                    1 => "@type".to_string(),
                    _ => format!("undefined{}", g.below(3)),
                };
                if !o.iter().any(|e| e.0 == k) {
                    let v = match g.below(4) {
                        0 if k != "@type" => J::Null,
                        1 => J::Str(g.pick(&INVALID).to_string()),
                        _ => J::Str(format!("undefined{}", g.below(3))),
                    };
                    o.push((k, v));
                }
            }
        }
        _ => (),
    }
}

fn gen(g: &mut Src) -> J {
    let mut c = p01::gen_case(g, Cfg { off_shape: 3, ..Cfg::default() });
    if g.bool() {
        damage(g, &mut c.doc);
    }
    let mut j = c.render();
    let action = |g: &mut Src| J::Str(ACTIONS[if g.bool() { 0 } else { g.below(3) }].into());
    j.set("vocab", action(g));
    j.set("invalid", action(g));
    j.set("undefined", J::Bool(g.chance(2, 3)));
    j
}

fn action(j: &J, k: &str) -> Option<Action> {
    Some(match j.get(k)?.as_str()? {
        "drop" => Action::Drop,
        "reject" => Action::Reject,
        _ => Action::Keep,
    })
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    run(j, tags).unwrap_or(Outcome::pass(false))
}

/// Expands with the policy; and what is refused.
fn model(env: &Env, c: &Case, p: &json_ld::expansion::Policy) -> Result<J, String> {
    let policy = Policy { drop_vocab: p.vocab == Action::Drop, drop_invalid: p.invalid == Action::Drop };
    let x = Expander { env, ordered: c.ordered, base: c.base_iri(), url: c.url.clone().or(c.base.clone()), policy };
    let r = x.expand_doc(c.expand_context.as_ref(), &c.doc).map_err(|e| format!("expansion: {e}"))?;
    let hit = |h: &str| env.cov.borrow().contains(h);
    if p.vocab == Action::Reject && hit("pol:vocab") {
        return Err("vocab".into());
    }
    if p.invalid == Action::Reject && hit("pol:invalid") {
        return Err("invalid".into());
    }
    if !p.allow_undefined && hit("pol:undefined") {
        return Err("undefined".into());
    }
    Ok(canon_expanded(&r))
}

fn run(j: &J, tags: &mut Tags) -> Option<Outcome> {
    let c = Case::parse(j)?;
    let policy = json_ld::expansion::Policy {
        vocab: action(j, "vocab")?,
        invalid: action(j, "invalid")?,
        allow_undefined: matches!(j.get("undefined")?, J::Bool(true)),
    };
    let plain = imp::expand(&c).ok()?;
    let env = p01::env(&c);
    let m = p01::model_expand(&env, &c).ok()?;
    if env.skipped().is_some() || canon_expanded(&m) != canon_expanded(&plain) {
        tags.tag("unspec");
        return Some(Outcome::pass(false));
    }
    let concerned = env.cov.borrow().iter().any(|t| t.starts_with("pol:"));
    let env = p01::env(&c);
    let expected = model(&env, &c, &policy);
    if let Some(s) = env.skipped() {
        tags.tag(s);
        return Some(Outcome::pass(false));
    }
    for t in env.cov.borrow().iter() {
        if t.starts_with("pol:") {
            tags.tag(t);
        }
    }
    let mut options = imp::options(&c).ok()?;
    options.expansion_policy = policy;
    let r = imp::block(imp::remote_doc(&c).expand_using(&imp::loader(&c.remote), options))
        .map(|e| canon_expanded(&imp::exp_to_j(&e)))
        .map_err(|e| e.to_string());
    let fail = match (&expected, &r) {
        (Err(_), Err(_)) => {
            tags.tag("refused");
            return Some(Outcome::pass(true));
        }
        (Ok(a), Ok(b)) if a == b => {
            if *a != canon_expanded(&plain) {
                tags.tag("left-out");
            }
            return Some(Outcome::pass(concerned));
        }
        (Ok(a), Ok(b)) => Outcome::fail("diff", format!("model: {a}\nimpl:  {b}\n{}", diff(a, b))),
        (Err(e), Ok(b)) => Outcome::fail(format!("accepted: {e}"), format!("impl: {b}")),
        (Ok(a), Err(e)) => Outcome::fail("refused", format!("{e}\nmodel: {a}")),
    };
    if p01::order_matters(|| p01::env(&c), |e| model(e, &c, &policy)) {
        tags.tag("unspec:context-order");
        return Some(Outcome::pass(false));
    }
    Some(fail)
}
