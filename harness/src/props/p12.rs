//! Results do not depend on how IRIs and blank node identifiers are represented.
use super::p05;
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::Cfg;
use crate::imp::{self, Case};
use crate::j::{diff, J};
use rdf_types::vocabulary::IndexVocabulary;

pub const PROP: Prop = Prop {
    id: "P12",
    quick: 50000,
    thorough: 800000,
    rule: "random documents and compaction contexts, processed with plain and with indexed identifiers; non-trivial: the expanded document is not empty",
    assumptions: &["documents with dot segments in absolute IRIs are left out: the IRI library takes differently written IRIs for equal"],
    gen: |g| {
        let (c, o) = p05::gen_case(g, Cfg::default());
        o.render(Case { ordered: true, ..c }.render())
    },
    check,
};

fn cmp(what: &str, a: imp::R<J>, b: imp::R<J>) -> Option<Outcome> {
    let (a, b) = (a.map(|x| x.sorted_keys()), b.map(|x| x.sorted_keys()));
    if a == b {
        return None;
    }
    Some(match (&a, &b) {
        (Ok(x), Ok(y)) => Outcome::fail(what, format!("{x}\n{y}\n{}", diff(x, y))),
        _ => Outcome::fail(format!("{what}: error"), format!("{a:?}\n{b:?}")),
    })
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (case, o) = match p05::parse(j) {
        Some(c) => c,
        None => return Outcome::pass(false),
    };
    let a = imp::expand(&case);
    if case.render().to_text().contains("../") {
        // equal IRIs (for the IRI library) with different texts: any text may be kept
        return Outcome::pass(false);
    }
    let mut v: IndexVocabulary = IndexVocabulary::new();
    // identifiers that the document does not use
    for i in 0..3 {
        imp::ins(&mut v, &format!("http://unused.org/{i}"));
    }
    let b = imp::expand_v(&mut v, &case).map(|e| imp::exp_to_j_v(&v, &e));
    let nontrivial = a.as_ref().map(|x| x.len() > 0).unwrap_or(false);
    if let Some(f) = cmp("expand", a, b) {
        return f;
    }
    // the same vocabulary goes on
    if let Some(f) = cmp("compact", imp::compact(&case, &o), imp::compact_v(&mut v, &case, &o)) {
        return f;
    }
    if let Some(f) = cmp("flatten", imp::flatten(&case, None), imp::flatten_v(&mut v, &case, None)) {
        return f;
    }
    if nontrivial {
        tags.tag("expanded");
    }
    Outcome::pass(nontrivial)
}
