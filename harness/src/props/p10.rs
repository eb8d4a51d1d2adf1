//! Results do not depend on the order of object entries, nor on the run; `ordered` fixes the order.
use super::p05;
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::Cfg;
use crate::imp::{self, Case};
use crate::j::{canon_expanded, diff, J};
use crate::model::context::Env;
use crate::src::Src;

pub const PROP: Prop = Prop {
    id: "P10",
    quick: 60000,
    thorough: 800000,
    rule: "random documents with two orders of the entries of every object; non-trivial: the orders differ and the document expands to something",
    assumptions: &["documents whose meaning the specification leaves to the order of entries (tagged unspec:*) are left out"],
    gen: |g| {
        let (mut c, o) = p05::gen_case(g, Cfg::default());
        c.ordered = g.bool();
        let mut j = o.render(c.render());
        let d = shuffle(g, &c.doc);
        let x = shuffle(g, &o.context);
        j.set("document2", d);
        j.set("context2", x);
        j
    },
    check,
};

/// Same value with the entries of its objects in another order.
pub fn shuffle(g: &mut Src, v: &J) -> J {
    match v {
        J::Arr(a) => J::Arr(a.iter().map(|x| shuffle(g, x)).collect()),
        J::Obj(o) => {
            let mut e: Vec<(String, J)> = o.iter().map(|(k, x)| (k.clone(), shuffle(g, x))).collect();
            g.shuffle(&mut e);
            J::Obj(e)
        }
        o => o.clone(),
    }
}

fn excused(cases: [(&Case, &imp::CompactOpts); 2], expanded: &J) -> bool {
    let env = || super::p01::env(cases[0].0);
    let run = |e: &Env, i: usize| {
        let (case, o) = cases[i];
        let m = super::p01::model_expand(e, case);
        let c = p05::model_compact(e, expanded, case, o);
        (m.map(|x| canon_expanded(&x)).ok(), c.map(|x| x.sorted_keys()).ok())
    };
    super::p01::order_matters(env, |e| Ok(run(e, 0))) || super::p01::order_matters(env, |e| Ok(run(e, 1))) || run(&env(), 0) != run(&env(), 1)
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (case, o) = match p05::parse(j) {
        Some(c) => c,
        None => return Outcome::pass(false),
    };
    let (d2, c2) = match (j.get("document2"), j.get("context2")) {
        (Some(d), Some(c)) => (d.clone(), c.clone()),
        _ => return Outcome::pass(false),
    };
    if d2.sorted_keys() != case.doc.sorted_keys() || c2.sorted_keys() != o.context.sorted_keys() {
        return Outcome::pass(false); // shrinking: not two orders of the same document
    }
    let case2 = Case { doc: d2, ..case.clone() };
    let o2 = imp::CompactOpts { context: c2, ..o.clone() };
    let (a, b) = (imp::expand(&case), imp::expand(&case2));
    // same input, twice
    if imp::expand(&case).map(|x| canon_expanded(&x)) != a.as_ref().map(canon_expanded).map_err(|e| e.clone()) {
        return Outcome::fail("twice", "expanding twice gives different results");
    }
    let fail = |sig: &str, d: String, e: &J| {
        if excused([(&case, &o), (&case2, &o2)], e) {
            Outcome::pass(false)
        } else {
            Outcome::fail(sig, d)
        }
    };
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => {
            tags.tag("both-error");
            return Outcome::pass(false);
        }
        (a, b) => return fail("expand: error", format!("{a:?}\n{b:?}"), &J::Arr(vec![])),
    };
    let (ca, cb) = (canon_expanded(&a), canon_expanded(&b));
    if ca != cb {
        return fail("expand", format!("{ca}\n{cb}\n{}", diff(&ca, &cb)), &a);
    }
    if case.ordered {
        tags.tag("ordered");
        // every array is in the same order
        let (x, y) = (a.sorted_keys(), b.sorted_keys());
        if x != y {
            return fail("expand: ordered", format!("{x}\n{y}\n{}", diff(&x, &y)), &a);
        }
        if imp::expand(&case).map(|x| x.to_text()) != Ok(a.to_text()) {
            return Outcome::fail("twice: ordered", "expanding twice gives different texts");
        }
    }
    // compaction, with the same expanded document and with the contexts in two orders
    let (a, b) = (imp::compact(&case, &o), imp::compact(&case, &o2));
    let e = imp::expand(&Case { ordered: false, ..case.clone() }).unwrap_or(J::Null);
    if imp::compact(&case, &o).map(|x| x.sorted_keys()) != a.as_ref().map(|x| x.sorted_keys()).map_err(|e| e.clone()) {
        return Outcome::fail("twice: compact", "compacting twice gives different results");
    }
    match (a, b) {
        (Ok(a), Ok(b)) => {
            tags.tag("compacted");
            let (x, y) = (a.sorted_keys(), b.sorted_keys());
            if x != y {
                return fail("compact", format!("{x}\n{y}\n{}", diff(&x, &y)), &e);
            }
            if case.ordered {
                if imp::compact(&case, &o).map(|x| x.to_text()) != Ok(a.to_text()) {
                    return Outcome::fail("twice: compact ordered", "compacting twice gives different texts");
                }
            }
        }
        (Err(_), Err(_)) => tags.tag("compact-error"),
        (a, b) => return fail("compact: error", format!("{a:?}\n{b:?}"), &e),
    }
    Outcome::pass(ca.len() > 0 && (case2.doc != case.doc || o2.context != o.context))
}
