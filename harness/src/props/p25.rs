//! Expanded documents visited as Linked Data stand for the same dataset as their RDF serialization.
use super::{p01, p05, p07};
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::Cfg;
use crate::imp::{self, Case};
use crate::j::J;
use crate::model::{
    iri::{is_blank, is_iri},
    iso::{self, Fact, Tok},
    rdf::{self, Dir, RDF, XSD},
};
use crate::src::Src;
use rdf_types::generator::Blank;
use rdf_types::interpretation::WithGenerator;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "P25",
    quick: 100000,
    thorough: 1500000,
    rule: "random documents visited as a whole, object by object and with an interpretation; non-trivial: the dataset has at least two quads",
    assumptions: p01::MODEL,
    gen,
    check,
};

pub const NUMBERS: [&str; 14] = ["0", "1", "-1", "1.0", "-0", "1.5", "-2.50", "1e3", "5E-7", "1e21", "1e22", "12345678901234567890", "100", "0.1"];

fn values(g: &mut Src, j: &mut J) {
    match j {
        J::Arr(a) => a.iter_mut().for_each(|x| values(g, x)),
        J::Obj(_) if j.has("@value") => {
            if g.chance(1, 3) {
                let dt = match g.below(6) {
                    0 => None,
                    1 => Some("http://ex.org/dt".to_string()),
                    2 => Some(format!("{XSD}{}", g.pick(&["double", "integer", "boolean", "string"]))),
                    3 => Some("@json".into()),
                    _ => Some(format!(
                        "{XSD}{}",
                        g.pick(&["double", "integer", "boolean", "decimal", "float", "long", "byte", "date", "string", "anyURI", "nonNegativeInteger"])
                    )),
                };
                let v = match g.below(4) {
                    0 => J::Bool(g.bool()),
                    1 => J::Str(g.pick(&["1", "01", "x", "true", "1.50", "2020-01-01", "http://ex.org/a", "QQ=="]).to_string()),
                    _ => J::Num(g.pick(&NUMBERS).to_string()),
                };
                *j = crate::j::obj(vec![("@value", v)]);
                if let Some(d) = dt {
                    j.set("@type", J::Str(d));
                }
            }
        }
        J::Obj(o) => {
            for e in o {
                values(g, &mut e.1)
            }
        }
        _ => (),
    }
}

fn gen(g: &mut Src) -> J {
    let wild = g.bool();
    let (c, _) = p05::gen_case(g, Cfg { wild_numbers: wild, ..Cfg::default() });
    let mut c = Case { ordered: false, ..c };
    if g.chance(2, 3) {
        c.mode10 = false;
        c.doc = p07::raw_expanded(g);
        values(g, &mut c.doc);
    }
    let mut j = c.render();
    j.set("how", J::Num(g.below(3).to_string()));
    j
}

/// Identifiers and languages are well-formed, and properties are not blank nodes.
pub fn clean(j: &J) -> bool {
    let id = |x: &J| x.as_str().map_or(false, |i| is_iri(i) || is_blank(i));
    match j {
        J::Arr(a) => a.iter().all(clean),
        J::Obj(_) if j.has("@value") => {
            j.get("@language").map_or(true, |l| l.as_str().map_or(false, |l| l.parse_lang()))
                && j.get("@type").map_or(true, |t| t.as_str().map_or(false, |t| t == "@json" || is_iri(t) && !is_blank(t)))
        }
        J::Obj(o) => o.iter().all(|(k, v)| match k.as_str() {
            "@id" => id(v),
            "@type" => v.items().iter().all(id),
            "@index" => true,
            "@reverse" => clean(v),
            // The nodes of a list that is directly in a graph belong to it for the flattening only.
            "@graph" => v.items().iter().all(|x| !x.has("@list") && clean(x)),
            "@list" | "@included" => clean(v),
            k => is_iri(k) && !is_blank(k) && clean(v),
        }),
        _ => true,
    }
}
trait ParseLang {
    fn parse_lang(&self) -> bool;
}
impl ParseLang for str {
    fn parse_lang(&self) -> bool {
        langtag::LangTag::new(self).is_ok()
    }
}

/// Literals in the numeric types, and booleans, of XML Schema are compared by value.
pub fn normalize(facts: BTreeSet<Fact>) -> BTreeSet<Fact> {
    facts
        .into_iter()
        .map(|f| {
            f.into_iter()
                .map(|t| match &t {
                    Tok::C(c) => literal(c).map(Tok::C).unwrap_or(t),
                    _ => t,
                })
                .collect()
        })
        .collect()
}
fn literal(c: &str) -> Option<String> {
    let (v, ty) = c.strip_suffix('>')?.rsplit_once("^^<")?;
    let v = J::parse(&v.replace("\\'", "'")).and_then(|v| v.as_str().map(|v| v.to_string()));
    if ty == format!("{RDF}JSON") {
        return Some(format!("{}^^<{ty}>", rdf::jcs(&J::parse(&v?)?)));
    }
    if ty == format!("{XSD}boolean") {
        let b = match v?.as_str() {
            "1" | "true" => true,
            "0" | "false" => false,
            _ => return None,
        };
        return Some(format!("{b}^^<{ty}>"));
    }
    let numeric = [
        "double", "float", "decimal", "integer", "long", "int", "short", "byte", "nonNegativeInteger", "positiveInteger", "unsignedLong", "unsignedInt",
        "unsignedShort", "unsignedByte", "nonPositiveInteger", "negativeInteger",
    ];
    if numeric.contains(&ty.strip_prefix(XSD)?) {
        let v = v?;
        let f: f64 = if ty.ends_with("#float") { v.parse::<f32>().ok()? as f64 } else { v.parse().ok()? };
        return Some(format!("{}^^<{ty}>", if f == 0.0 { 0.0 } else { f }));
    }
    None
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    run(j, tags).unwrap_or(Outcome::pass(false))
}

type Quads = Vec<linked_data::RdfQuad>;

fn fact(q: &rdf_types::Quad<imp::RdfId, iref::IriBuf, imp::RdfTerm, imp::RdfId>) -> Fact {
    let g = q.3.as_ref().map(imp::id_tok).unwrap_or(Tok::C("@default".into()));
    vec![g, imp::id_tok(&q.0), Tok::C(format!("<{}>", q.1)), imp::term_tok(&q.2)]
}

fn run(j: &J, tags: &mut Tags) -> Option<Outcome> {
    let case = Case::parse(j)?;
    let exp = imp::expand_raw(&case).ok()?;
    let expanded = imp::exp_to_j(&exp);
    if !clean(&expanded) {
        tags.tag("not-clean");
        return Some(Outcome::pass(false));
    }
    let model = match rdf::to_rdf(&expanded, Dir::None, false) {
        Ok(m) => normalize(m),
        Err(_) => {
            tags.tag("conflicting-indexes");
            return Some(Outcome::pass(false));
        }
    };
    let mode = j.get("how").map(|m| m.to_text()).unwrap_or_default();
    let result: Result<BTreeSet<Fact>, String> = match mode.as_str() {
        "1" => {
            tags.tag("objects");
            let mut r = Ok(BTreeSet::new());
            for (i, o) in exp.iter().enumerate() {
                let q: Result<Quads, _> = linked_data::to_quads(Blank::new_with_prefix(format!("gen{i}-")), o.inner());
                match (&mut r, q) {
                    (Ok(r), Ok(q)) => r.extend(q.iter().map(fact)),
                    (_, Err(e)) => r = Err(e.to_string()),
                    _ => (),
                }
            }
            r
        }
        "2" => {
            tags.tag("interpreted");
            let mut i = WithGenerator::new((), Blank::new_with_prefix("gen".to_string()));
            let tok = |t: &imp::RdfTerm| imp::term_tok(t);
            linked_data::to_interpreted_quads(&mut (), &mut i, &exp)
                .map(|q| {
                    q.iter()
                        .map(|q| vec![q.3.as_ref().map_or(Tok::C("@default".into()), tok), tok(&q.0), tok(&q.1), tok(&q.2)])
                        .collect()
                })
                .map_err(|e| e.to_string())
        }
        _ => linked_data::to_quads(Blank::new_with_prefix("gen".to_string()), &exp)
            .map(|q: Quads| q.iter().map(fact).collect())
            .map_err(|e| e.to_string()),
    };
    Some(match result {
        Err(e) => Outcome::fail("error", format!("{e}: {expanded}")),
        Ok(r) => {
            let r = normalize(r);
            match iso::isomorphic(&model, &r) {
                Some(true) => {
                    if model.iter().any(|f| f[0] != Tok::C("@default".into())) {
                        tags.tag("named-graph");
                    }
                    if model.iter().any(|f| f[2] == Tok::C(format!("<{RDF}rest>"))) {
                        tags.tag("list");
                    }
                    Outcome::pass(model.len() > 1)
                }
                Some(false) => Outcome::fail("diff", format!("expanded: {expanded}\nmodel:\n{}visited:\n{}", iso::show(&model), iso::show(&r))),
                None => {
                    tags.tag("undecided");
                    Outcome::pass(false)
                }
            }
        }
    })
}
