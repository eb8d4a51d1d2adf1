//! Compaction is lossless: expanding the compacted document gives the document back.
use super::{p01, p05};
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::Cfg;
use crate::imp::{self, Case};
use crate::j::{canon_expanded, diff, J};

pub const PROP: Prop = Prop {
    id: "P06",
    quick: 200000,
    thorough: 2500000,
    rule: "random documents and compaction contexts; non-trivial: the document compacts to something else than its expansion, and is not empty",
    assumptions: &[
        "what the compaction algorithm itself loses is left out: the reference model tells (tagged unspec:* or lossy:*)",
    ],
    gen: |g| {
        let propagate = g.bool();
        let (mut c, o) = p05::gen_case(g, Cfg { propagate, ..Cfg::default() });
        c.ordered = false;
        o.render(c.render())
    },
    check,
};

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (case, o) = match p05::parse(j) {
        Some(c) => c,
        None => return Outcome::pass(false),
    };
    let (expanded, compacted) = match lossless(&case, &o, tags) {
        Some(x) => x,
        None => return Outcome::pass(false),
    };
    let a = canon_expanded(&expanded);
    let again = Case { doc: compacted.clone(), expand_context: None, ..case.clone() };
    let back = imp::expand(&again);
    match back {
        Err(e) => Outcome::fail(
            format!("error: {e}"),
            format!("expanded: {a}\ncompacted: {compacted}"),
        ),
        Ok(b) => {
            let b = canon_expanded(&b);
            if a == b {
                tags.tag("round-trip");
                Outcome::pass(a.len() > 0 && compacted != expanded)
            } else {
                Outcome::fail(
                    "diff",
                    format!(
                        "compacted: {compacted}\nexpanded: {a}\nback:     {b}\n{}",
                        diff(&a, &b)
                    ),
                )
            }
        }
    }
}

/// Expanded and compacted document, when the compaction algorithm itself loses nothing.
pub fn lossless(case: &Case, o: &imp::CompactOpts, tags: &mut Tags) -> Option<(J, J)> {
    let expanded = match imp::expand(case) {
        Ok(e) => e,
        Err(_) => return None,
    };
    if invalid_iris(&expanded) {
        return None;
    }
    let compacted = match imp::compact(case, o) {
        Ok(c) => c,
        Err(_) => return None,
    };
    let env = p01::env(case);
    let m = p05::model_compact(&env, &expanded, case, o);
    for t in env.cov.borrow().iter() {
        if t.starts_with("unspec:") || t.starts_with("lossy:") || t.starts_with("cmp:") {
            tags.tag(t);
        }
    }
    if env.skipped().is_some() || env.cov.borrow().iter().any(|t| t.starts_with("lossy:")) {
        return None;
    }
    // expand again what the specification says the compacted document is
    let specified = match &m {
        Ok(J::Obj(e)) => {
            let mut e = e.clone();
            e.insert(0, ("@context".into(), o.context.clone()));
            J::Obj(e)
        }
        _ => return None,
    };
    let again = Case { doc: specified, expand_context: None, ..case.clone() };
    let env2 = p01::env(&again);
    let m2 = p01::model_expand(&env2, &again);
    if env2.skipped().is_some() {
        return None;
    }
    let a = canon_expanded(&expanded);
    let spec_lossless = matches!(&m2, Ok(x) if canon_expanded(x) == a);
    if !spec_lossless {
        tags.tag("lossy-specification");
        return None;
    }
    Some((expanded, compacted))
}

/// Does the document use malformed IRIs, or IRIs with empty path segments?
pub fn invalid_iris(e: &J) -> bool {
    let mut bad = false;
    let mut t = |s: &str| {
        if s.contains(':') && !s.starts_with("_:") {
            match iref::Iri::new(s) {
                Err(_) => bad = true,
                // the resolution library mishandles empty segments
                Ok(i) => bad |= i.path().as_str().contains("//"),
            }
        }
    };
    e.walk(&mut |v| {
        if let J::Obj(o) = v {
            for (k, x) in o {
                t(k);
                if k == "@id" || k == "@type" {
                    x.items().iter().for_each(|i| t(i.as_str().unwrap_or("")))
                }
            }
        }
    });
    bad
}
