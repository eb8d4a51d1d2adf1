//! Documents are equal exactly when their contents are, and equal documents have equal hashes.
use super::p07;
use super::p10::shuffle;
use crate::engine::{Outcome, Prop, Tags};
use crate::imp;
use crate::j::{obj, s, J};
use crate::src::Src;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, Hash, RandomState};

pub const PROP: Prop = Prop {
    id: "P13",
    quick: 100000,
    thorough: 3000000,
    rule: "pairs of expanded documents, the second being the first with its entries and unordered arrays shuffled, then with up to two changes; non-trivial: documents of more than one object",
    assumptions: &["the order of the entries of JSON literals may or may not matter", "documents are read from JSON in expanded form"],
    gen,
    check,
};

/// Canonical form: sets and multisets are sorted.
pub fn canon(v: &J, sort_json: bool) -> J {
    fn go(v: &J, key: &str, sj: bool) -> J {
        match v {
            J::Arr(a) => {
                let mut r: Vec<J> = a.iter().map(|x| go(x, "", sj)).collect();
                if key != "@list" {
                    r.sort();
                }
                if ["@graph", "@included", "top"].contains(&key) {
                    r.dedup();
                }
                J::Arr(r)
            }
            J::Obj(o) => {
                let json = v.get("@type") == Some(&s("@json"));
                let mut r: Vec<(String, J)> = o
                    .iter()
                    .map(|(k, x)| {
                        let y = match k.as_str() {
                            "@value" if json && sj => x.sorted_keys(),
                            "@value" => x.clone(),
                            "@language" => match x {
                                J::Str(l) => J::Str(l.to_ascii_lowercase()),
                                o => o.clone(),
                            },
                            k => go(x, k, sj),
                        };
                        (k.clone(), y)
                    })
                    .collect();
                r.sort();
                J::Obj(r)
            }
            o => o.clone(),
        }
    }
    go(v, "top", sort_json)
}

/// Shuffles entries, and arrays that are not lists.
pub fn mix(g: &mut Src, v: &J, key: &str) -> J {
    match v {
        J::Arr(a) => {
            let mut r: Vec<J> = a.iter().map(|x| mix(g, x, "")).collect();
            if key != "@list" {
                g.shuffle(&mut r);
            }
            J::Arr(r)
        }
        J::Obj(e) => {
            let mut r: Vec<(String, J)> =
                e.iter().map(|(k, x)| (k.clone(), if k == "@value" { x.clone() } else { mix(g, x, k) })).collect();
            g.shuffle(&mut r);
            J::Obj(r)
        }
        o => o.clone(),
    }
}

/// Changes something in an expanded document.
pub fn change(g: &mut Src, j: &mut J, key: &str) {
    match j {
        J::Obj(e) if e.iter().any(|(k, _)| k == "@value") => match g.below(4) {
            0 => j.set("@index", s(*g.pick(&["i", "j"]))),
            1 => {
                if let Some(l) = j.get_mut("@language") {
                    *l = s(*g.pick(&["EN", "fr", "en", "Fr"]))
                } else {
                    j.set("@value", s(*g.pick(&["x", "y", "X"])))
                }
            }
            2 => *j = p07::value(g),
            _ => {
                let v = match j.get("@value") {
                    Some(J::Num(n)) if n == "1" => s("1"),
                    Some(J::Num(n)) => J::Num(format!("{n}0")),
                    Some(J::Bool(b)) => s(if *b { "true" } else { "false" }),
                    Some(J::Str(s)) => J::Str(format!("{s} ")),
                    _ => J::Num("1".into()),
                };
                let typed = j.get("@type").is_some() || j.get("@language").is_some() || j.get("@direction").is_some();
                if !typed || matches!(v, J::Str(_)) {
                    j.set("@value", v)
                }
            }
        },
        J::Obj(e) if !e.is_empty() && g.chance(3, 4) => {
            let i = g.below(e.len());
            let k = e[i].0.clone();
            match k.as_str() {
                "@id" => e[i].1 = s(*g.pick(&["http://ex.org/a", "http://ex.org/b", "_:x"])),
                "@index" => {
                    if g.bool() {
                        e[i].1 = s("k")
                    } else {
                        e.remove(i);
                    }
                }
                _ if g.chance(1, 6) => {
                    e.remove(i);
                }
                _ if k.starts_with("http") && g.chance(1, 6) => {
                    let p = s("http://ex.org/other");
                    if !e.iter().any(|(k, _)| Some(k.as_str()) == p.as_str()) {
                        e[i].0 = "http://ex.org/other".into()
                    }
                }
                _ => change(g, &mut e[i].1, &k),
            }
        }
        J::Obj(e) => {
            let k = *g.pick(&["@id", "@index", "http://ex.org/p"]);
            if !e.iter().any(|(x, _)| x == k || (x == "@list" && k != "@index")) {
                e.push((k.into(), if k == "http://ex.org/p" { J::Arr(vec![p07::value(g)]) } else { s("http://ex.org/a") }))
            }
        }
        J::Arr(a) if !a.is_empty() && g.chance(2, 3) => {
            let i = g.below(a.len());
            change(g, &mut a[i], "")
        }
        J::Arr(a) if !a.is_empty() => match g.below(4) {
            0 => {
                let i = g.below(a.len());
                a.remove(i);
            }
            1 => {
                let i = g.below(a.len());
                let x = a[i].clone();
                let k = g.below(a.len() + 1);
                a.insert(k, x)
            }
            2 => {
                let i = g.below(a.len());
                let k = g.below(a.len());
                a.swap(i, k)
            }
            _ => {
                let i = g.below(a.len());
                let k = g.below(a.len());
                a[k] = a[i].clone()
            }
        },
        J::Arr(a) if key == "@list" || key.starts_with("http") => a.push(p07::value(g)),
        J::Str(x) if key == "" && x.contains(':') => *x = g.pick(&["http://ex.org/T", "http://ex.org/V", "_:x"]).to_string(),
        _ => (),
    }
}

fn gen(g: &mut Src) -> J {
    let mut a = p07::raw_expanded(g);
    if g.chance(1, 4) {
        change(g, &mut a, "");
    }
    let mut b = mix(g, &a, "top");
    if g.chance(1, 10) {
        b = shuffle(g, &b);
    }
    for _ in 0..g.weighted(&[4, 5, 1]) {
        change(g, &mut b, "");
    }
    let mut j = obj(vec![("a", a), ("b", b)]);
    if g.bool() {
        // the blank nodes of the second document are renamed
        let mut to = ["_:x", "_:y", "_:b0", "_:z", "_:w"].map(s).to_vec();
        g.shuffle(&mut to);
        j.set("renamed", J::Arr(to));
    }
    j
}

const LABELS: [&str; 5] = ["_:x", "_:y", "_:b0", "_:z", "_:w"];

/// The renaming of the second document.
fn renaming(j: &J) -> HashMap<String, String> {
    let to = match j.get("renamed") {
        Some(J::Arr(a)) => a.iter().filter_map(|x| x.as_str()).map(|x| x.to_string()).collect(),
        _ => vec![],
    };
    let mut all: Vec<&str> = to.iter().map(|x| x.as_str()).collect();
    all.sort();
    let mut labels = LABELS;
    labels.sort();
    if all != labels {
        return HashMap::new();
    }
    LABELS.iter().map(|x| x.to_string()).zip(to).collect()
}

type Exp = json_ld::ExpandedDocument;
type Obj = json_ld::Indexed<json_ld::Object>;

fn objects(e: &Exp) -> Vec<(&Obj, J)> {
    fn go<'a>(o: &'a Obj, out: &mut Vec<(&'a Obj, J)>) {
        out.push((o, J::from_js(&json_ld::syntax::IntoJsonWithContext::into_json_with(o.clone(), &()))));
        match o.inner() {
            json_ld::Object::Node(n) => {
                for (_, os) in n.properties() {
                    os.iter().for_each(|o| go(o, out))
                }
                for g in n.graph().into_iter() {
                    g.iter().for_each(|o| go(o, out))
                }
            }
            json_ld::Object::List(l) => l.iter().for_each(|o| go(o, out)),
            _ => (),
        }
    }
    let mut out = vec![];
    for o in e.iter() {
        go(o, &mut out)
    }
    out
}

fn compare<T: PartialEq + Hash>(what: &str, h: &RandomState, a: &T, b: &T, ja: &J, jb: &J) -> Option<Outcome> {
    let same = canon(ja, false) == canon(jb, false);
    let loosely = canon(ja, true) == canon(jb, true);
    let eq = a == b;
    if eq != (b == a) {
        return Some(Outcome::fail(format!("{what}: equality is not symmetric"), format!("{ja}\n{jb}")));
    }
    if same && !eq {
        return Some(Outcome::fail(format!("{what}: same contents, not equal"), format!("{ja}\n{jb}")));
    }
    if !loosely && eq {
        return Some(Outcome::fail(format!("{what}: equal, with other contents"), format!("{ja}\n{jb}")));
    }
    if eq && h.hash_one(a) != h.hash_one(b) {
        return Some(Outcome::fail(format!("{what}: equal, with other hashes"), format!("{ja}\n{jb}")));
    }
    None
}

/// Equality up to the renaming of the blank nodes of the second document.
fn renamed(j: &J, a: &Exp, jb: &J, tags: &mut Tags) -> Option<Outcome> {
    use json_ld::object::MappedEq;
    let map = renaming(j);
    let back = |x: &str| map.iter().find(|(_, to)| to.as_str() == x).map_or(x.to_string(), |(from, _)| from.clone());
    let c = imp::exp_from_j(&super::p14::rename(jb, &|x| map.get(x).cloned().unwrap_or(x.to_string()))).ok()?;
    let blanks: HashMap<rdf_types::BlankIdBuf, rdf_types::BlankIdBuf> = map
        .iter()
        .map(|(x, y)| (rdf_types::BlankIdBuf::new(x.clone()).unwrap(), rdf_types::BlankIdBuf::new(y.clone()).unwrap()))
        .collect();
    for (x, jx) in objects(a).iter().take(12) {
        for (y, jy) in objects(&c).iter().take(12) {
            let mapped = x.mapped_eq(y, |b| blanks.get(b).unwrap_or(b));
            let jy = super::p14::rename(jy, &back);
            if canon(jx, false) == canon(&jy, false) && !mapped {
                return Some(Outcome::fail("renamed: same contents, not equal", format!("{jx}\n{jy}")));
            }
            if canon(jx, true) != canon(&jy, true) && mapped {
                return Some(Outcome::fail("renamed: equal, with other contents", format!("{jx}\n{jy}")));
            }
            if mapped && !map.is_empty() && jx.to_text().contains("_:") {
                tags.tag("renamed");
            }
        }
    }
    None
}

/// Without identifiers for what has none.
fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (ja, jb) = match (j.get("a"), j.get("b")) {
        (Some(a), Some(b)) => (a, b),
        _ => return Outcome::pass(false),
    };
    let (a, b) = match (imp::exp_from_j(ja), imp::exp_from_j(jb)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return Outcome::pass(false),
    };
    // what was read
    let (ra, rb) = (imp::exp_to_j(&a), imp::exp_to_j(&b));
    if canon(&ra, true) != canon(ja, true) || canon(&rb, true) != canon(jb, true) {
        // not an expanded document
        return Outcome::pass(false);
    }
    let h = RandomState::new();
    if a != a.clone() {
        return Outcome::fail("not equal to its clone", format!("{ja}"));
    }
    let same = canon(ja, false) == canon(jb, false);
    tags.tag(if same { "same" } else { "different" });
    // the documents, as sets of objects
    let eq = a == b;
    if eq != (b == a) {
        return Outcome::fail("document: equality is not symmetric", "");
    }
    if same && !eq {
        return Outcome::fail("document: same contents, not equal", "");
    }
    if eq && canon(ja, true) != canon(jb, true) {
        return Outcome::fail("document: equal, with other contents", "");
    }
    let (oa, ob) = (objects(&a), objects(&b));
    let mut first: HashMap<&Obj, &J> = HashMap::new();
    let mut texts = HashSet::new();
    for (x, jx) in oa.iter().take(12) {
        for (y, jy) in ob.iter().take(12) {
            if let Some(f) = compare("object", &h, *x, *y, jx, jy) {
                return f;
            }
            // objects without identifier are different blank nodes
            let anonymous = |o: &Obj| o.is_list() || o.as_node().is_some_and(|n| n.id.is_none());
            if x.equivalent(y) != (*x == *y && !anonymous(x)) {
                return Outcome::fail("object: equivalence", format!("{jx}\n{jy}"));
            }
            if let (Some(n), Some(m)) = (x.as_node(), y.as_node()) {
                let strip = |j: &J| {
                    let mut j = j.clone();
                    j.remove("@index");
                    j
                };
                if let Some(f) = compare("node", &h, n, m, &strip(jx), &strip(jy)) {
                    return f;
                }
            }
        }
    }
    if let Some(f) = renamed(j, &a, jb, tags) {
        return f;
    }
    // objects as keys
    for (x, jx) in &oa {
        first.entry(*x).or_insert(jx);
        texts.insert(canon(jx, false).to_text());
    }
    if first.len() > texts.len() {
        return Outcome::fail("more different objects than different contents", "");
    }
    for (x, jx) in &oa {
        match first.get(*x) {
            Some(y) if canon(y, true) == canon(jx, true) => (),
            _ => return Outcome::fail("object not found as a key", format!("{jx}")),
        }
    }
    // canonical forms are equal when the texts are
    Outcome::pass(oa.len() > 1)
}
