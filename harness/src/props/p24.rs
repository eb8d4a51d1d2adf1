//! Expanded documents read from RDF stand for the dataset they are read from.
use crate::engine::{Outcome, Prop, Tags};
use crate::imp::{self, Exp, RdfId, RdfTerm};
use crate::j::{obj, s, J};
use crate::model::{
    iso::{self, Fact, Tok},
    rdf::{self, Dir, RDF, XSD},
};
use crate::src::Src;
use iref::IriBuf;
use linked_data::LinkedDataDeserialize;
use rdf_types::interpretation::{Indexed, TermInterpretationMut};
use rdf_types::vocabulary::{IndexVocabulary, IriVocabularyMut};
use rdf_types::{BlankIdBuf, Literal, LiteralType, Quad};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "P24",
    quick: 400000,
    thorough: 8000000,
    rule: "datasets of up to 30 quads in up to 4 graphs, with well- and ill-formed lists, cycles, shared blank nodes, literals of all kinds and blank predicates, read as quads, as a dataset and through indexes; non-trivial: at least three quads, one of them with a blank node as object",
    assumptions: &["the document read is turned back into a dataset by the reference serialization of P08"],
    gen,
    check,
};

const IRIS: [&str; 4] = ["http://ex.org/a", "http://ex.org/b", "urn:c", "http://ex.org/d"];
const PREDS: [&str; 3] = ["http://ex.org/p", "http://ex.org/q", "urn:r"];
const GRAPHS: [&str; 4] = ["http://ex.org/g", "http://ex.org/a", "_:g", "_:b0"];

fn rdf(n: &str) -> String {
    format!("{RDF}{n}")
}
fn lit(v: &str, t: &str) -> J {
    obj(vec![("v", s(v)), ("t", s(t))])
}

fn literal(g: &mut Src) -> J {
    let strings = ["", "a", "b", "é \"\\\n", "true", "1", "http://ex.org/a", "_:b0"];
    match g.below(12) {
        0..=3 => lit(g.pick(&strings), &format!("{XSD}string")),
        4 => obj(vec![("v", s(g.pick(&strings))), ("l", s(g.pick(&["en", "EN", "fr", "en-US"])))]),
        5 => lit(g.pick(&strings), g.pick(&["http://ex.org/t", "urn:t", &format!("{XSD}token"), &format!("{RDF}HTML")])),
        6 => lit(
            g.pick(&["true", "false", "true", "false", "1", "0", "True", "", "TRUE", " true"]),
            &format!("{XSD}boolean"),
        ),
        7 | 8 => lit(
            g.pick(&["0", "5", "-7", "5", "42", "123456789012", "-0", "+5", "007", "-012", "x", "", "+", "1 0"]),
            &format!("{XSD}integer"),
        ),
        9 => lit(
            g.pick(&["0.0E0", "1.5E0", "-2.25", "1e3", "5", "1.0E21", "3.5E-7", "INF", "-INF", "NaN", ".5", "5.", "+1.5", "01.5", "x", "", "1e", "E5"]),
            &format!("{XSD}double"),
        ),
        10 => lit(
            g.pick(&["1.5", "5", "x"]),
            &format!("{XSD}{}", g.pick(&["decimal", "float", "long", "date"])),
        ),
        _ => lit(
            g.pick(&[
                "null",
                "{}",
                "[]",
                "{\"b\":1,\"a\":[true,null]}",
                "{\"b\":1.0,\"a\":\"\\u00e9\"}",
                " 1e2 ",
                "\"x\"",
                "[{\"@id\":\"_:b0\"}]",
                "{",
                "",
                "1 2",
                "{\"a\":1,}",
            ]),
            &rdf("JSON"),
        ),
    }
}

fn id(g: &mut Src) -> J {
    match g.below(20) {
        0..=7 => s(g.pick(&IRIS)),
        8 => s(&rdf(g.pick(&["nil", "nil", "List", "first"]))),
        _ => s(&format!("_:b{}", g.below(4))),
    }
}
fn object(g: &mut Src) -> J {
    if g.chance(2, 5) {
        // mostly valid
        let l = literal(g);
        if valid(&l) != Some(false) || g.chance(1, 8) {
            return l;
        }
    }
    id(g)
}
fn graph(g: &mut Src) -> J {
    if g.bool() {
        J::Null
    } else {
        s(g.pick(&GRAPHS))
    }
}
fn quad(a: J, p: &str, o: J, g: &J) -> J {
    J::Arr(vec![a, s(p), o, g.clone()])
}

fn gen(g: &mut Src) -> J {
    let mut q = Vec::new();
    let generalized = g.chance(1, 6);
    let one = if g.bool() { Some(graph(g)) } else { None };
    for _ in 0..g.below(7) {
        let gr = one.clone().unwrap_or_else(|| graph(g));
        let p = match g.below(12) {
            0 | 1 => rdf("type"),
            2 => rdf(g.pick(&["first", "rest"])),
            3 if generalized => format!("_:b{}", g.below(4)),
            _ => g.pick(&PREDS).to_string(),
        };
        q.push(quad(id(g), &p, object(g), &gr));
    }
    let mut cells: Vec<(J, J)> = Vec::new();
    for l in 0..g.below(4) {
        let gr = one.clone().unwrap_or_else(|| graph(g));
        let n = g.below(4);
        let cell = |i: usize| {
            if i < n {
                s(&format!("_:l{l}{i}"))
            } else {
                s(&rdf("nil"))
            }
        };
        let typed = g.chance(1, 4);
        let damage = g.below(24);
        let mut here = Vec::new();
        for i in 0..n {
            let item = match g.below(8) {
                0 => match cells.last() {
                    Some((c, cg)) if *cg == gr => c.clone(), // a list as item
                    _ => object(g),
                },
                _ => object(g),
            };
            here.push(quad(cell(i), &rdf("first"), item, &gr));
            here.push(quad(cell(i), &rdf("rest"), cell(i + 1), &gr));
            if typed {
                here.push(quad(cell(i), &rdf("type"), s(&rdf("List")), &gr));
            }
        }
        if n > 0 {
            let i = g.below(n);
            let c = cell(i);
            match damage {
                0 => here.push(quad(c.clone(), g.pick(&PREDS), object(g), &gr)),
                1 => here.push(quad(c.clone(), &rdf("first"), object(g), &gr)),
                2 => here.push(quad(c.clone(), &rdf("rest"), id(g), &gr)),
                3 => here.push(quad(c.clone(), &rdf("type"), id(g), &gr)),
                4 => here.push(quad(id(g), g.pick(&PREDS), c.clone(), &gr)),
                5 => here.push(quad(id(g), g.pick(&PREDS), object(g), &c)),
                6 => here.push(quad(id(g), g.pick(&PREDS), c.clone(), &graph(g))),
                7 => here.push(quad(c.clone(), g.pick(&PREDS), object(g), &graph(g))),
                8 => here.push(quad(c.clone(), &rdf("rest"), cell(g.below(n)), &gr)),
                9 => {
                    here.remove(g.below(here.len()));
                }
                10 => here.push(quad(id(g), &rdf("type"), c.clone(), &gr)),
                11 if generalized => here.push(quad(id(g), c.as_str().unwrap(), object(g), &gr)),
                12 => {
                    // an identified cell
                    let by = s(g.pick(&IRIS));
                    for q in &mut here {
                        if let J::Arr(q) = q {
                            for t in q {
                                if *t == c {
                                    *t = by.clone();
                                }
                            }
                        }
                    }
                }
                13 => here.push(quad(c.clone(), &rdf("first"), cell(g.below(n)), &gr)),
                14 => here.push(quad(s(&format!("_:t{l}")), &rdf("rest"), c.clone(), &gr)),
                _ => (),
            }
        }
        if !g.chance(1, 6) {
            if !g.chance(1, 4) {
                here.push(quad(id(g), g.pick(&PREDS), cell(0), &gr));
            }
            // else: a root, or an item of a later list
        }
        cells.push((cell(0), gr));
        q.extend(here);
    }
    if g.chance(1, 10) && !q.is_empty() {
        let d = g.pick(&q).clone();
        q.push(d);
    }
    g.shuffle(&mut q);
    obj(vec![("quads", J::Arr(q)), ("mode", J::Num(g.below(3).to_string()))])
}

/// `None`: not a literal.
fn valid(l: &J) -> Option<bool> {
    let v = l.get("v")?.as_str()?;
    let t = match l.get("t") {
        Some(t) => t.as_str()?,
        None => return Some(true),
    };
    Some(if t == format!("{XSD}boolean") {
        matches!(v, "true" | "false" | "1" | "0")
    } else if t == format!("{XSD}integer") {
        let d = v.strip_prefix(['+', '-']).unwrap_or(v);
        !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())
    } else if t == format!("{XSD}double") {
        double(v)
    } else if t == rdf("JSON") {
        serde_json::from_str::<serde_json::Value>(v).is_ok()
    } else {
        true
    })
}

fn digits(v: &str) -> bool {
    v.bytes().all(|b| b.is_ascii_digit())
}
/// Lexical forms of xsd:double.
fn double(v: &str) -> bool {
    if matches!(v, "INF" | "-INF" | "+INF" | "NaN") {
        return true;
    }
    let (m, e) = match v.split_once(['e', 'E']) {
        Some((m, e)) => (m, Some(e)),
        None => (v, None),
    };
    let m = m.strip_prefix(['+', '-']).unwrap_or(m);
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    digits(i)
        && digits(f)
        && i.len() + f.len() > 0
        && e.map_or(true, |e| {
            let e = e.strip_prefix(['+', '-']).unwrap_or(e);
            !e.is_empty() && digits(e)
        })
}
fn json_number(v: &str) -> bool {
    matches!(J::parse(v), Some(J::Num(_))) && v.trim() == v
}

/// Lexical form once the value has been a JSON value.
fn tok(t: &J) -> Option<Tok> {
    if let Some(i) = t.as_str() {
        return Some(rdf::term(i));
    }
    let v = t.get("v")?.as_str()?;
    if let Some(l) = t.get("l") {
        return Some(rdf::lit(v, "", Some(l.as_str()?)));
    }
    let ty = t.get("t")?.as_str()?;
    let n = if ty == format!("{XSD}boolean") {
        match v {
            "1" => "true".into(),
            "0" => "false".into(),
            v => v.to_string(),
        }
    } else if ty == format!("{XSD}integer") && json_number(v) {
        v.parse::<i64>().ok()?.to_string()
    } else if ty == format!("{XSD}double") && json_number(v) {
        rdf::canonical_double(v.parse().ok()?)
    } else if ty == rdf("JSON") {
        match J::parse(v) {
            Some(j) => rdf::jcs(&j),
            None => v.to_string(),
        }
    } else {
        v.to_string()
    };
    Some(rdf::lit(&n, ty, None))
}

fn imp_id(t: &str) -> Option<RdfId> {
    Some(match t.strip_prefix("_:") {
        Some(_) => rdf_types::Id::Blank(BlankIdBuf::new(t.to_string()).ok()?),
        None => rdf_types::Id::Iri(IriBuf::new(t.to_string()).ok()?),
    })
}
fn imp_term(t: &J) -> Option<RdfTerm> {
    if let Some(i) = t.as_str() {
        return Some(rdf_types::Term::Id(imp_id(i)?));
    }
    let v = t.get("v")?.as_str()?.to_string();
    let ty = match t.get("l") {
        Some(l) => LiteralType::LangString(langtag::LangTagBuf::new(l.as_str()?.to_string()).ok()?),
        None => LiteralType::Any(IriBuf::new(t.get("t")?.as_str()?.to_string()).ok()?),
    };
    Some(rdf_types::Term::Literal(Literal::new(v, ty)))
}

/// The well-formed lists: lengths, and their cells. `None` when there are cycles.
fn lists(facts: &BTreeSet<Fact>) -> Option<(Vec<usize>, BTreeSet<Tok>)> {
    let c = |n: &str| Tok::C(format!("<{}>", rdf(n)));
    let (first, rest, ty, list, nil) = (c("first"), c("rest"), c("type"), c("List"), c("nil"));
    // occurrences of each blank node
    let mut graphs: BTreeMap<&Tok, BTreeSet<&Tok>> = BTreeMap::new();
    let mut elsewhere: BTreeSet<&Tok> = BTreeSet::new();
    let mut subject: BTreeMap<&Tok, Vec<&Fact>> = BTreeMap::new();
    let mut object: BTreeMap<&Tok, Vec<&Fact>> = BTreeMap::new();
    for f in facts {
        for t in [&f[1], &f[3]] {
            graphs.entry(t).or_default().insert(&f[0]);
        }
        elsewhere.insert(&f[0]);
        elsewhere.insert(&f[2]);
        subject.entry(&f[1]).or_default().push(f);
        object.entry(&f[3]).or_default().push(f);
    }
    let cyclic = |t: &Tok| {
        let mut seen: BTreeSet<&Tok> = BTreeSet::new();
        let mut todo: Vec<&Tok> = vec![t];
        while let Some(x) = todo.pop() {
            for f in subject.get(x).into_iter().flatten() {
                if f[3] == *t {
                    return true;
                }
                if seen.insert(&f[3]) {
                    todo.push(&f[3]);
                }
            }
        }
        false
    };
    let is_cell = |t: &Tok| {
        let fs = match subject.get(t) {
            Some(fs) => fs,
            None => return false,
        };
        let n = |p: &Tok| fs.iter().filter(|f| f[2] == *p).count();
        matches!(t, Tok::B(_))
            && graphs[t].len() == 1
            && !elsewhere.contains(t)
            && object.get(t).map_or(0, |o| o.len()) == 1
            && n(&first) == 1
            && n(&rest) == 1
            && fs.iter().all(|f| f[2] == first || f[2] == rest || (f[2] == ty && f[3] == list))
            && object[t][0][2] != ty
    };
    let mut lens = Vec::new();
    let mut cells = BTreeSet::new();
    for f in facts {
        if f[2] == rest && f[3] == nil {
            let mut n = 0;
            let mut t = &f[1];
            while is_cell(t) {
                if cyclic(t) {
                    return None;
                }
                cells.insert(t.clone());
                n += 1;
                let by = object[t][0];
                if by[2] != rest {
                    break;
                }
                t = &by[1];
            }
            if n > 0 {
                lens.push(n);
            }
        }
    }
    lens.sort();
    Some((lens, cells))
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    run(j, tags).unwrap_or(Outcome::pass(false))
}

fn run(j: &J, tags: &mut Tags) -> Option<Outcome> {
    let mut facts: BTreeSet<Fact> = BTreeSet::new();
    let mut quads = Vec::new();
    let mut invalid = false;
    let mut distinct = BTreeSet::new();
    let input = j.get("quads")?.as_arr()?;
    for q in input {
        let q = q.as_arr()?;
        let (a, p) = (q.first()?.as_str()?, q.get(1)?.as_str()?);
        let o = q.get(2)?;
        let g = q.get(3)?.as_str();
        invalid |= valid(o) == Some(false);
        distinct.insert(J::Arr(q.clone()).to_text());
        facts.insert(vec![g.map_or(Tok::C("@default".into()), rdf::term), rdf::term(a), rdf::term(p), tok(o)?]);
        quads.push(Quad(
            RdfTerm::Id(imp_id(a)?),
            RdfTerm::Id(imp_id(p)?),
            imp_term(o)?,
            match g {
                Some(g) => Some(RdfTerm::Id(imp_id(g)?)),
                None => None,
            },
        ));
    }
    let mode = j.get("mode").map(|m| m.to_text()).unwrap_or_default();
    let result = match mode.as_str() {
        "1" => {
            tags.tag("indexed");
            let mut v: IndexVocabulary = IndexVocabulary::new();
            let mut i = Indexed::new();
            let mut term = |t: RdfTerm| {
                let t = match t {
                    rdf_types::Term::Id(i) => rdf_types::Term::Id(i),
                    rdf_types::Term::Literal(l) => rdf_types::Term::Literal(Literal::new(
                        l.value,
                        match l.type_ {
                            LiteralType::Any(t) => LiteralType::Any(v.insert(&t)),
                            LiteralType::LangString(l) => LiteralType::LangString(l),
                        },
                    )),
                };
                i.interpret_owned_lexical_term(&mut v, t)
            };
            let quads: Vec<Quad<_>> =
                quads.into_iter().map(|Quad(a, p, o, g)| Quad(term(a), term(p), term(o), g.map(&mut term))).collect();
            json_ld::ExpandedDocument::from_interpreted_quads(&v, &i, quads.iter().map(|q| q.as_ref()))
                .map(|e| imp::exp_to_j_v(&v, &e))
                .map_err(|e| e.to_string())
        }
        "2" => {
            tags.tag("dataset");
            let d: rdf_types::dataset::IndexedBTreeDataset<RdfTerm> = quads.into_iter().collect();
            Exp::deserialize_dataset(&(), &(), &d).map(|e| imp::exp_to_j(&e)).map_err(|e| e.to_string())
        }
        _ => Exp::from_interpreted_quads(&(), &(), quads.iter().map(|q| q.as_ref()))
            .map(|e| imp::exp_to_j(&e))
            .map_err(|e| e.to_string()),
    };
    let doc = match (result, invalid) {
        (Err(_), true) => {
            tags.tag("invalid-literal");
            return Some(Outcome::pass(true));
        }
        (Ok(d), true) => return Some(Outcome::fail("invalid-literal", format!("{d}"))),
        (Err(e), false) => return Some(Outcome::fail("error", e)),
        (Ok(d), false) => d,
    };
    let mut back = match rdf::to_rdf(&doc, Dir::None, true) {
        Ok(b) => b,
        Err(e) => return Some(Outcome::fail("not-expanded", format!("{e}: {doc}"))),
    };
    let (ty, list) = (Tok::C(format!("<{}>", rdf("type"))), Tok::C(format!("<{}>", rdf("List"))));
    let nontrivial = facts.len() > 2 && facts.iter().any(|f| matches!(f[3], Tok::B(_)));
    // several literals with the same value, or quads: nothing is said of the lists
    let lists = if distinct.len() == input.len() && facts.len() == input.len() { lists(&facts) } else { None };
    let mut found = Vec::new();
    doc.walk(&mut |x| {
        if let Some(l) = x.get("@list") {
            found.push(l.items().len())
        }
    });
    found.sort();
    match lists {
        Some((lens, cells)) => {
            if found != lens {
                return Some(Outcome::fail("lists", format!("{doc}\nlists: {found:?}, expected: {lens:?}")));
            }
            if !lens.is_empty() {
                tags.tag("list");
            }
            facts.retain(|f| !(f[2] == ty && f[3] == list && cells.contains(&f[1])));
        }
        None => {
            for x in [&mut facts, &mut back] {
                x.retain(|f| !(f[2] == ty && f[3] == list && matches!(f[1], Tok::B(_))));
            }
        }
    }
    Some(match iso::isomorphic(&facts, &back) {
        Some(true) => {
            if facts.iter().any(|f| f[0] != Tok::C("@default".into())) {
                tags.tag("named-graph");
            }
            Outcome::pass(nontrivial)
        }
        Some(false) => Outcome::fail("diff", format!("{doc}\ndataset:\n{}read:\n{}", iso::show(&facts), iso::show(&back))),
        None => {
            tags.tag("undecided");
            Outcome::pass(false)
        }
    })
}
