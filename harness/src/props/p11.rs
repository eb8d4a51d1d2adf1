//! Expanded documents are fixed points: of expansion, and of the direct JSON conversion.
use super::p01;
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::Cfg;
use crate::imp::{self, Case};
use crate::j::{canon_expanded, diff, J};

pub const PROP: Prop = Prop {
    id: "P11",
    quick: 150000,
    thorough: 2500000,
    rule: "random context/document pairs; non-trivial: the expanded document is not empty",
    assumptions: &["expanded documents with relative or malformed IRIs, or keywords as identifiers, are left out"],
    gen: |g| {
        let cfg = Cfg { wild_numbers: g.bool(), ..Cfg::default() };
        p01::gen_case(g, cfg).render()
    },
    check,
};

/// Would a second expansion change identifiers or keys for a reason of its own?
pub fn irregular(e: &J) -> bool {
    let mut bad = super::p06::invalid_iris(e);
    e.walk(&mut |v| {
        if let J::Obj(o) = v {
            for (k, x) in o {
                if k == "@id" || k == "@type" {
                    for i in x.items() {
                        let i = i.as_str().unwrap_or("");
                        bad |= !i.contains(':') && i != "@json"
                    }
                }
                bad |= !k.starts_with('@') && !k.contains(':');
                // values directly in a graph are dropped by expansion
                if k == "@graph" || k == "@included" {
                    bad |= x.items().iter().any(|i| i.has("@value") || i.has("@list") || (i.len() == 1 && i.has("@id")))
                }
            }
        }
    });
    bad
}

fn context_left(v: &J) -> bool {
    match v {
        J::Arr(a) => a.iter().any(context_left),
        J::Obj(o) => o.iter().any(|(k, x)| k == "@context" || (k != "@value" && context_left(x))),
        _ => false,
    }
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let case = match Case::parse(j) {
        Some(c) => c,
        None => return Outcome::pass(false),
    };
    let raw = match imp::expand_raw(&case) {
        Ok(e) => e,
        Err(_) => return Outcome::pass(false),
    };
    let a = imp::exp_to_j(&raw);
    if context_left(&a) {
        return Outcome::fail("context left", format!("{a}"));
    }
    // direct conversion
    match imp::exp_from_j(&a) {
        Err(e) => return Outcome::fail("from-json: error", format!("{e}\nexpanded: {a}")),
        Ok(b) => {
            if b != raw {
                let b = imp::exp_to_j(&b);
                return Outcome::fail("from-json", format!("{a}\n{b}\n{}", diff(&a, &b)));
            }
            let b = imp::exp_to_j(&b);
            if b.sorted_keys() != a.sorted_keys() {
                return Outcome::fail("from-json: text", format!("{a}\n{b}\n{}", diff(&a, &b)));
            }
        }
    }
    if irregular(&a) {
        tags.tag("irregular");
        return Outcome::pass(false);
    }
    // expansion
    let ca = canon_expanded(&a);
    let again = Case { doc: a.clone(), expand_context: None, ..case.clone() };
    match imp::expand(&again) {
        Err(e) => Outcome::fail(format!("expand: {e}"), format!("{a}")),
        Ok(b) => {
            let cb = canon_expanded(&b);
            if cb != ca {
                Outcome::fail("expand", format!("{ca}\n{cb}\n{}", diff(&ca, &cb)))
            } else {
                Outcome::pass(a.len() > 0)
            }
        }
    }
}
