//! Renaming and canonicalizing a document changes that, and nothing else.
use super::{p07, p13};
use crate::engine::{Outcome, Prop, Tags};
use crate::imp::{self, Exp};
use crate::j::{diff, obj, J};
use crate::model::rdf;
use crate::src::{hash_str, Src};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "P14",
    quick: 80000,
    thorough: 1500000,
    rule: "random expanded documents, renamed, relabelled, identified and canonicalized; non-trivial: documents with a blank node or a number",
    assumptions: &["documents are read from JSON in expanded form"],
    gen,
    check,
};

const NUMBERS: [&str; 22] = [
    "1", "1.0", "10", "1e1", "1E+2", "100", "-0", "0", "0.0", "0.1", "1e-1", "1e21", "1e20", "123456789012345678901", "1e-7", "0.000001", "5e-324",
    "1.7976931348623157e308", "9007199254740993", "-1.5", "-15e-1", "4.35",
];

fn numbers(g: &mut Src, j: &mut J) {
    match j {
        J::Arr(a) => a.iter_mut().for_each(|x| numbers(g, x)),
        J::Obj(e) => e.iter_mut().for_each(|(_, x)| numbers(g, x)),
        J::Num(n) => *n = g.pick(&NUMBERS).to_string(),
        _ => (),
    }
}

fn gen(g: &mut Src) -> J {
    let mut a = p07::raw_expanded(g);
    for _ in 0..g.weighted(&[3, 2, 1]) {
        p13::change(g, &mut a, "");
    }
    super::p20::blank_keys(g, &mut a);
    if g.chance(2, 3) {
        numbers(g, &mut a);
    }
    let merged = g.below(4);
    obj(vec![("document", a), ("mapping", J::Num(merged.to_string()))])
}

/// Applies a function to all the identifiers.
pub fn rename(j: &J, id: &dyn Fn(&str) -> String) -> J {
    fn keyed(e: &[(String, J)], id: &dyn Fn(&str) -> String) -> Vec<(String, J)> {
        let mut r: Vec<(String, J)> = vec![];
        for (k, x) in e {
            let (k, x) = match k.as_str() {
                "@index" | "@value" | "@language" | "@direction" => (k.clone(), x.clone()),
                "@id" => (k.clone(), s(id(x.as_str().unwrap_or("")))),
                "@type" => (
                    k.clone(),
                    match x {
                        J::Str(t) if t == "@json" => x.clone(),
                        J::Str(t) => s(id(t)),
                        x => J::Arr(x.items().iter().map(|t| s(id(t.as_str().unwrap_or("")))).collect()),
                    },
                ),
                "@reverse" => (k.clone(), J::Obj(keyed(x.as_obj().map(|v| &v[..]).unwrap_or(&[]), id))),
                k if k.starts_with('@') => (k.into(), rename(x, id)),
                k => (id(k), rename(x, id)),
            };
            match (r.iter_mut().find(|(x, _)| *x == k), x) {
                (Some((_, J::Arr(a))), J::Arr(b)) => a.extend(b),
                (_, x) => r.push((k, x)),
            }
        }
        r
    }
    match j {
        J::Arr(a) => J::Arr(a.iter().map(|x| rename(x, id)).collect()),
        J::Obj(e) => J::Obj(keyed(e, id)),
        o => o.clone(),
    }
}

fn s(x: impl AsRef<str>) -> J {
    J::Str(x.as_ref().into())
}

/// Numbers and JSON literals in canonical form.
fn canonical(j: &J) -> J {
    match j {
        J::Arr(a) => J::Arr(a.iter().map(canonical).collect()),
        J::Obj(e) => J::Obj(
            e.iter()
                .map(|(k, x)| {
                    let x = match (k.as_str(), x) {
                        ("@value", x) if j.get("@type") == Some(&s("@json")) => J::parse(&rdf::jcs(x)).unwrap_or(J::Null),
                        ("@value", J::Num(n)) => J::Num(rdf::es_number(n.parse().unwrap_or(f64::NAN))),
                        ("@value", x) => x.clone(),
                        (_, x) => canonical(x),
                    };
                    (k.clone(), x)
                })
                .collect(),
        ),
        o => o.clone(),
    }
}

/// Relabelled, both documents being in the same order.
struct Walk {
    map: BTreeMap<String, String>,
    fresh: Vec<String>,
    /// Existing blank node identifiers stay.
    keep: bool,
    prefix: String,
}

impl Walk {
    fn id(&mut self, a: &str, b: &str) -> Result<(), String> {
        if !a.starts_with("_:") || self.keep {
            return if a == b { Ok(()) } else { Err(format!("{a} became {b}")) };
        }
        if !b.starts_with(&self.prefix) {
            return Err(format!("{a} became {b}, which is not a new identifier"));
        }
        match self.map.get(a) {
            Some(x) if x == b => Ok(()),
            Some(x) => Err(format!("{a} became {x} and {b}")),
            None => {
                self.map.insert(a.into(), b.into());
                Ok(())
            }
        }
    }
    fn arrays(&mut self, a: &J, b: &J) -> Result<(), String> {
        if a.items().len() != b.items().len() {
            return Err("lengths".into());
        }
        a.items().iter().zip(b.items()).try_for_each(|(x, y)| self.object(x, y))
    }
    fn ids(&mut self, a: &J, b: &J) -> Result<(), String> {
        if a.items().len() != b.items().len() {
            return Err("numbers of types".into());
        }
        a.items().iter().zip(b.items()).try_for_each(|(x, y)| self.id(x.as_str().unwrap_or(""), y.as_str().unwrap_or("")))
    }
    fn keyed(&mut self, a: &J, b: &J) -> Result<(), String> {
        let (x, y) = (a.as_obj().map(|v| &v[..]).unwrap_or(&[]), b.as_obj().map(|v| &v[..]).unwrap_or(&[]));
        if x.len() != y.len() {
            return Err("entries".into());
        }
        for ((k, v), (l, w)) in x.iter().zip(y) {
            self.id(k, l)?;
            self.arrays(v, w)?
        }
        Ok(())
    }
    fn object(&mut self, a: &J, b: &J) -> Result<(), String> {
        if a.has("@value") {
            return if a.sorted_keys() == b.sorted_keys() { Ok(()) } else { Err("value".into()) };
        }
        let own = |j: &J| J::Obj(j.as_obj().into_iter().flatten().filter(|(k, _)| !k.starts_with('@')).cloned().collect());
        let (x, y) = (own(a), own(b));
        self.keyed(&x, &y)?;
        let node = !a.has("@list");
        for (k, v) in b.as_obj().into_iter().flatten().filter(|(k, _)| k.starts_with('@')) {
            match (k.as_str(), a.get(k)) {
                ("@id", None) if node => {
                    let l = v.as_str().unwrap_or("").to_owned();
                    if !l.starts_with(&self.prefix) {
                        return Err(format!("anonymous node became {l}"));
                    }
                    self.fresh.push(l)
                }
                ("@id", Some(x)) => self.id(x.as_str().unwrap_or(""), v.as_str().unwrap_or(""))?,
                ("@type", Some(x)) => self.ids(x, v)?,
                ("@reverse", Some(x)) => self.keyed(x, v)?,
                ("@graph" | "@included" | "@list", Some(x)) => self.arrays(x, v)?,
                (_, Some(x)) if x == v => (),
                (k, _) => return Err(format!("{k} changed")),
            }
        }
        let lost = a.as_obj().into_iter().flatten().find(|(k, _)| k.starts_with('@') && !b.has(k));
        match lost {
            Some((k, _)) => Err(format!("{k} disappeared")),
            None if node && !b.has("@id") => Err("node without identifier".into()),
            None => Ok(()),
        }
    }
    fn end(&self) -> Result<(), String> {
        let all: Vec<&String> = self.map.values().chain(&self.fresh).collect();
        if all.iter().collect::<BTreeSet<_>>().len() != all.len() {
            return Err("two nodes got the same identifier".into());
        }
        Ok(())
    }
}

fn walk(what: &str, keep: bool, prefix: &str, a: &J, b: &J) -> Result<(), Outcome> {
    let mut w = Walk { map: BTreeMap::new(), fresh: vec![], keep, prefix: format!("_:{prefix}") };
    w.arrays(a, b).and_then(|_| w.end()).map_err(|e| Outcome::fail(format!("{what}: {}", e.split(" _:").next().unwrap_or("").split("http").next().unwrap_or("")), format!("{e}\n{a}\n{b}")))
}

fn same(what: &str, want: &J, got: &Exp) -> Result<(), Outcome> {
    let got = imp::exp_to_j(got);
    let (w, g) = (p13::canon(want, false), p13::canon(&got, false));
    if w != g {
        return Err(Outcome::fail(what.to_string(), diff(&w, &g)));
    }
    Ok(())
}

fn blank(prefix: &str) -> rdf_types::generator::Blank {
    rdf_types::generator::Blank::new_with_prefix(prefix.into())
}

fn check(c: &J, tags: &mut Tags) -> Outcome {
    let j = match c.get("document") {
        Some(j) => j,
        None => return Outcome::pass(false),
    };
    let e: Exp = match imp::exp_from_j(j) {
        Ok(e) => e,
        Err(_) => return Outcome::pass(false),
    };
    let kind = match c.get("mapping") {
        Some(J::Num(n)) => n.parse().unwrap_or(0),
        _ => 0,
    };
    match all(&e, kind, tags) {
        Ok(n) => Outcome::pass(n),
        Err(o) => o,
    }
}

fn all(e: &Exp, kind: usize, tags: &mut Tags) -> Result<bool, Outcome> {
    let j = imp::exp_to_j(e);
    // renaming
    let to = |x: &str| -> String {
        let h = hash_str(x);
        match kind {
            0 => {
                if let Some(b) = x.strip_prefix("_:") {
                    format!("_:m{b}")
                } else {
                    format!("http://mapped.org/?{}", x.replace(['#', '@', ' '], "-"))
                }
            }
            1 => {
                if x.starts_with("_:") {
                    format!("http://mapped.org/{h}")
                } else {
                    format!("_:m{h}")
                }
            }
            // several identifiers become one
            2 => format!("_:m{}", h % 2),
            _ => format!("http://mapped.org/{}", h % 3),
        }
    };
    let to_iri = |x: &str| format!("http://datatype.org/{}", hash_str(x) % if kind > 1 { 2 } else { 1 << 60 });
    let mapped = e.clone().map_ids(
        |i| iref::IriBuf::new(to_iri(i.as_str())).unwrap(),
        |i| json_ld::Id::from_string(to(i.as_str())),
    );
    let want = {
        // datatypes first
        fn types(j: &J, to: &dyn Fn(&str) -> String) -> J {
            match j {
                J::Arr(a) => J::Arr(a.iter().map(|x| types(x, to)).collect()),
                J::Obj(e) => J::Obj(
                    e.iter()
                        .map(|(k, x)| {
                            let x = match (k.as_str(), x) {
                                ("@type", J::Str(t)) if t != "@json" => s(format!("\u{1}{}", to(t))),
                                ("@value", x) => x.clone(),
                                (_, x) => types(x, to),
                            };
                            (k.clone(), x)
                        })
                        .collect(),
                ),
                o => o.clone(),
            }
        }
        rename(&types(&j, &to_iri), &|x| match x.strip_prefix('\u{1}') {
            Some(x) => x.to_owned(),
            None => to(x),
        })
    };
    same(if kind < 2 { "renamed identifiers" } else { "merged identifiers" }, &want, &mapped)?;
    // relabelling
    let mut r = e.clone();
    r.relabel(&mut blank("fresh"));
    let rj = imp::exp_to_j(&r);
    walk("relabelled", false, "fresh", &j, &rj)?;
    // identification
    let mut i = e.clone();
    i.identify_all(&mut blank("fresh"));
    walk("identified", true, "fresh", &j, &imp::exp_to_j(&i))?;
    // canonicalization
    let mut k = e.clone();
    k.canonicalize();
    same("canonicalized", &canonical(&j), &k)?;
    let once = imp::exp_to_j(&k);
    k.canonicalize();
    if imp::exp_to_j(&k) != once {
        return Err(Outcome::fail("canonicalized twice", ""));
    }
    // both
    let mut b = e.clone();
    b.relabel_and_canonicalize(&mut blank("fresh"));
    same("relabelled and canonicalized", &canonical(&rj), &b)?;
    let mut blanks = false;
    let mut nums = false;
    j.walk(&mut |x| match x {
        J::Num(_) => nums = true,
        J::Str(x) if x.starts_with("_:") => blanks = true,
        _ => (),
    });
    if nums {
        tags.tag("numbers")
    }
    if blanks {
        tags.tag("blank nodes")
    }
    if kind > 1 {
        tags.tag("merged")
    }
    Ok(blanks || nums)
}
