//! Serialization to RDF conforms to the reference model.
use super::{p01, p05, p07};
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::Cfg;
use crate::imp::{self, Case};
use crate::j::J;
use crate::model::{
    iso,
    rdf::{self, Dir},
};

pub const PROP: Prop = Prop {
    id: "P08",
    quick: 120000,
    thorough: 1500000,
    rule: "random documents, direction modes, plain and generalized RDF; non-trivial: the dataset has at least two quads",
    assumptions: p01::MODEL,
    gen: |g| {
        let wild = g.bool();
        let (c, _) = p05::gen_case(g, Cfg { wild_numbers: wild, blank_props: true, ..Cfg::default() });
        let mut c = Case { ordered: false, ..c };
        if g.bool() {
            c.mode10 = false;
            c.doc = p07::raw_expanded(g);
        }
        let mut j = c.render();
        match g.below(3) {
            0 => (),
            1 => j.set("rdfDirection", J::Str("i18n-datatype".into())),
            _ => j.set("rdfDirection", J::Str("compound-literal".into())),
        }
        if g.chance(1, 4) {
            j.set("generalized", J::Bool(true));
        }
        j
    },
    check,
};

pub fn parse(j: &J) -> Option<(Case, Dir, bool)> {
    let d = match j.get("rdfDirection").and_then(|d| d.as_str()) {
        Some("i18n-datatype") => Dir::I18n,
        Some("compound-literal") => Dir::Compound,
        _ => Dir::None,
    };
    Some((Case::parse(j)?, d, j.get("generalized").is_some()))
}

/// Integers as the nearest double.
fn doubles(j: &J) -> J {
    match j {
        J::Arr(a) => J::Arr(a.iter().map(doubles).collect()),
        J::Obj(o) if j.has("@value") && j.get("@type").and_then(|t| t.as_str()) != Some("@json") => {
            let mut j = J::Obj(o.clone());
            if let Some(J::Num(n)) = j.get("@value") {
                match n.parse::<f64>() {
                    Ok(f) if !n.contains(['.', 'e', 'E']) && f.abs() < 1e21 => {
                        let n = format!("{f}");
                        j.set("@value", J::Num(n))
                    }
                    _ => (),
                }
            }
            j
        }
        J::Obj(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), doubles(v))).collect()),
        j => j.clone(),
    }
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (case, dir, generalized) = match parse(j) {
        Some(c) => c,
        None => return Outcome::pass(false),
    };
    let expanded = match imp::expand(&case) {
        Ok(e) => e,
        Err(_) => return Outcome::pass(false),
    };
    if expanded.to_text().contains("/../") {
        return Outcome::pass(false);
    }
    // the documents are canonicalized first: their numbers are doubles
    let m = rdf::to_rdf(&doubles(&expanded), dir, generalized);
    let i = imp::to_rdf(&case, dir, generalized);
    match (m, i) {
        (Err(_), _) => {
            tags.tag("conflicting-indexes");
            Outcome::pass(false)
        }
        (Ok(m), Ok(i)) => match iso::isomorphic(&rdf::fold_compound(&m), &rdf::fold_compound(&i)) {
            None => {
                tags.tag("undecided");
                Outcome::pass(false)
            }
            Some(true) => {
                if m.iter().any(|f| f[0] != iso::Tok::C("@default".into())) {
                    tags.tag("named-graph");
                }
                Outcome::pass(m.len() > 1)
            }
            Some(false) => Outcome::fail(
                "diff",
                format!("expanded: {expanded}\nmodel:\n{}impl:\n{}", iso::show(&m), iso::show(&i)),
            ),
        },
        (Ok(_), Err(e)) => Outcome::fail("error", e),
    }
}
