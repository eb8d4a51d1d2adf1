//! Every form of a document describes the same RDF dataset.
use super::{p01, p05, p06, p07, p08};
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::Cfg;
use crate::imp::{self, Case};
use crate::model::iso::{self, Fact};
use crate::model::rdf;
use crate::j::J;
use json_ld::{Flatten, RdfQuads};
use rdf_types::generator::Blank;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "P09",
    quick: 50000,
    thorough: 700000,
    rule: "random documents and compaction contexts; non-trivial: the dataset has at least two quads",
    assumptions: &[
        "the compacted form is compared when the compaction algorithm itself loses nothing, as the reference model tells",
        "blank nodes are compared up to isomorphism, duplicate compound literals are one",
    ],
    gen: |g| {
        let (c, o) = p05::gen_case(g, Cfg::default());
        let mut c = Case { ordered: g.bool(), ..c };
        if g.chance(1, 3) {
            c.mode10 = false;
            c.doc = p07::raw_expanded(g);
        }
        let mut j = o.render(c.render());
        match g.below(3) {
            0 => (),
            1 => j.set("rdfDirection", J::Str("i18n-datatype".into())),
            _ => j.set("rdfDirection", J::Str("compound-literal".into())),
        }
        j
    },
    check,
};

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let ((case, dir, _), o) = match (p08::parse(j), imp::CompactOpts::parse(j)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Outcome::pass(false),
    };
    let a = match imp::to_rdf(&case, dir, false) {
        Ok(a) => rdf::fold_compound(&a),
        Err(_) => return Outcome::pass(false),
    };
    let differ = |what: &'static str, b: &BTreeSet<Fact>| {
        let b = rdf::fold_compound(b);
        if iso::isomorphic(&a, &b) == Some(false) {
            Some(Outcome::fail(what, format!("document:\n{}{what}:\n{}", iso::show(&a), iso::show(&b))))
        } else {
            None
        }
    };
    let unordered = Case { ordered: false, ..case.clone() };
    let e = match imp::expand_raw(&unordered) {
        Ok(e) => e,
        Err(e) => return Outcome::fail("expand", e),
    };
    let text = imp::exp_to_j(&e);
    if text.to_text().contains("/../") {
        return Outcome::pass(false);
    }
    // expanded document, with identifiers
    let d = imp::rdf_direction(dir);
    let mut x = e.clone();
    let mut g = Blank::new_with_prefix("n".to_string());
    x.identify_all(&mut g);
    x.canonicalize();
    if !text.to_text().contains("\"_:n") {
        let q = x.rdf_quads(&mut g, d).cloned().map(|q| imp::quad_fact(&q)).collect();
        if let Some(f) = differ("identified", &q) {
            return f;
        }
    }
    // node map, flattened document
    let mut e = e;
    e.canonicalize();
    let mut g = Blank::new();
    match e.generate_node_map_with(&mut (), &mut g) {
        Err(_) => tags.tag("conflicting-indexes"),
        Ok(m) => {
            let q = m.rdf_quads(&mut g, d).cloned().map(|q| imp::quad_fact(&q)).collect();
            if let Some(f) = differ("node map", &q) {
                return f;
            }
            let mut g = Blank::new();
            match e.flatten(&mut g, case.ordered) {
                Err(_) => return Outcome::fail("flatten", ""),
                Ok(f) => {
                    let q = f.rdf_quads(&mut g, d).cloned().map(|q| imp::quad_fact(&q)).collect();
                    if let Some(f) = differ("flattened", &q) {
                        return f;
                    }
                }
            }
            // the flattened document as a document
            if p06::invalid_iris(&text) || super::p11::irregular(&text) {
                return Outcome::pass(false);
            }
            match imp::flatten(&unordered, None) {
                Err(e) => return Outcome::fail("flatten", e),
                Ok(f) => {
                    let again = Case { doc: f, expand_context: None, ..case.clone() };
                    match imp::to_rdf(&again, dir, false) {
                        Err(e) => return Outcome::fail("flattened document", e),
                        Ok(q) => {
                            if let Some(f) = differ("flattened document", &q) {
                                return f;
                            }
                        }
                    }
                }
            }
        }
    }
    // compacted document
    if p01::env(&case).skipped().is_none() {
        if let Some((_, c)) = p06::lossless(&unordered, &o, tags) {
            tags.tag("compacted");
            let again = Case { doc: c, expand_context: None, ..unordered.clone() };
            match imp::to_rdf(&again, dir, false) {
                Err(e) => return Outcome::fail("compacted: error", e),
                Ok(q) => {
                    if let Some(f) = differ("compacted", &q) {
                        return f;
                    }
                }
            }
        }
    }
    Outcome::pass(a.len() > 1)
}
