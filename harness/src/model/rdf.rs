//! Deserialize JSON-LD to RDF.
use super::flatten::{Graph, NodeMap};
use super::iri::*;
use super::iso::{Fact, Tok};
use super::R;
use crate::j::J;
use std::collections::BTreeSet;

pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub const I18N: &str = "https://www.w3.org/ns/i18n#";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dir {
    None,
    I18n,
    Compound,
}

pub fn term(s: &str) -> Tok {
    if is_blank(s) {
        Tok::B(s.into())
    } else {
        Tok::C(format!("<{s}>"))
    }
}
pub fn lit(v: &str, dt: &str, lang: Option<&str>) -> Tok {
    match lang {
        Some(l) => Tok::C(format!("{v:?}@{}", l.to_ascii_lowercase())),
        None => Tok::C(format!("{v:?}^^<{dt}>")),
    }
}

fn well_formed(s: &str) -> bool {
    is_blank(s) || is_iri(s)
}

pub struct ToRdf {
    pub dir: Dir,
    pub generalized: bool,
    pub m: NodeMap,
    pub quads: BTreeSet<Fact>,
}

pub fn to_rdf(expanded: &J, dir: Dir, generalized: bool) -> R<BTreeSet<Fact>> {
    let mut m = NodeMap::new();
    m.generate(expanded)?;
    let mut t = ToRdf { dir, generalized, m, quads: BTreeSet::new() };
    t.run();
    Ok(t.quads)
}

impl ToRdf {
    fn run(&mut self) {
        let graphs: Vec<(String, Graph)> = std::mem::take(&mut self.m.graphs).into_iter().collect();
        for (name, g) in graphs {
            if name != "@default" && !well_formed(&name) {
                continue;
            }
            let gt = if name == "@default" { Tok::C("@default".into()) } else { term(&name) };
            for (subject, node) in &g {
                if !well_formed(subject) {
                    continue;
                }
                for (p, vs) in node.as_obj().unwrap() {
                    if p == "@type" {
                        for t in vs.items() {
                            let t = t.as_str().unwrap();
                            if well_formed(t) {
                                self.quad(&gt, term(subject), term(&format!("{RDF}type")), term(t));
                            }
                        }
                        continue;
                    }
                    if keyword(p) || (is_blank(p) && !self.generalized) || !well_formed(p) {
                        continue;
                    }
                    for v in vs.items() {
                        if let Some(o) = self.object(&gt, v) {
                            self.quad(&gt, term(subject), term(p), o);
                        }
                    }
                }
            }
        }
    }
    fn quad(&mut self, g: &Tok, s: Tok, p: Tok, o: Tok) {
        self.quads.insert(vec![g.clone(), s, p, o]);
    }
    fn object(&mut self, g: &Tok, v: &J) -> Option<Tok> {
        if let Some(l) = v.get("@list") {
            let items = l.items().to_vec();
            if items.is_empty() {
                return Some(term(&format!("{RDF}nil")));
            }
            let bs: Vec<String> = items.iter().map(|_| self.m.blank(None)).collect();
            for (i, x) in items.iter().enumerate() {
                if let Some(o) = self.object(g, x) {
                    self.quad(g, term(&bs[i]), term(&format!("{RDF}first")), o);
                }
                let rest = match bs.get(i + 1) {
                    Some(b) => term(b),
                    None => term(&format!("{RDF}nil")),
                };
                self.quad(g, term(&bs[i]), term(&format!("{RDF}rest")), rest);
            }
            return Some(term(&bs[0]));
        }
        if !v.has("@value") {
            let id = v.get("@id").and_then(|i| i.as_str()).unwrap_or("");
            return if well_formed(id) { Some(term(id)) } else { None };
        }
        let val = v.get("@value").unwrap();
        let mut dt = v.get("@type").and_then(|t| t.as_str()).map(|t| t.to_string());
        if let Some(d) = &dt {
            if d != "@json" && (!is_iri(d) || is_blank(d)) {
                return None;
            }
        }
        let lang = v.get("@language").and_then(|t| t.as_str());
        if lang.map(|l| !well_formed_language(l)).unwrap_or(false) {
            return None;
        }
        let text;
        if dt.as_deref() == Some("@json") {
            text = jcs(val);
            dt = Some(format!("{RDF}JSON"));
        } else {
            match val {
                J::Bool(b) => {
                    text = b.to_string();
                    dt = dt.or(Some(format!("{XSD}boolean")));
                }
                J::Num(n) => {
                    let f: f64 = n.parse().unwrap();
                    let xd = format!("{XSD}double");
                    if f.fract() != 0.0 || f.abs() >= 1e21 || dt.as_deref() == Some(&xd) {
                        text = canonical_double(f);
                        dt = dt.or(Some(xd));
                    } else {
                        text = if f == 0.0 {
                            "0".into()
                        } else if !n.contains(['.', 'e', 'E']) {
                            n.clone() // exact
                        } else {
                            format!("{f}")
                        };
                        dt = dt.or(Some(format!("{XSD}integer")));
                    }
                }
                J::Str(t) => text = t.clone(),
                _ => return None,
            }
        }
        let dir = v.get("@direction").and_then(|d| d.as_str());
        if let (Some(d), true) = (dir, self.dir != Dir::None) {
            let l = lang.map(|l| l.to_ascii_lowercase());
            if self.dir == Dir::I18n {
                return Some(lit(&text, &format!("{I18N}{}_{d}", l.unwrap_or_default()), None));
            }
            let b = self.m.blank(None);
            self.quad(g, term(&b), term(&format!("{RDF}value")), lit(&text, &format!("{XSD}string"), None));
            if let Some(l) = l {
                self.quad(g, term(&b), term(&format!("{RDF}language")), lit(&l, &format!("{XSD}string"), None));
            }
            self.quad(g, term(&b), term(&format!("{RDF}direction")), lit(d, &format!("{XSD}string"), None));
            return Some(term(&b));
        }
        Some(match (dt, lang) {
            (None, Some(l)) => lit(&text, "", Some(l)),
            (None, None) => lit(&text, &format!("{XSD}string"), None),
            (Some(d), _) => lit(&text, &d, None),
        })
    }
}

/// Good enough for the tags that the generators make.
fn well_formed_language(l: &str) -> bool {
    let mut p = l.split('-');
    let first = p.next().unwrap();
    (2..=8).contains(&first.len())
        && first.bytes().all(|b| b.is_ascii_alphabetic())
        && p.all(|x| x.len() == 2 && x.bytes().all(|b| b.is_ascii_alphabetic()))
}

/// Canonical lexical form of xsd:double (the shortest, as XML Schema has it: the rounding to 15
/// digits that JSON-LD suggests loses information).
pub fn canonical_double(f: f64) -> String {
    let f = if f == 0.0 { 0.0 } else { f }; // the sign of zero is lost by JSON canonicalization
    let s = format!("{f:e}");
    let (m, e) = s.split_once('e').unwrap();
    let m = if m.contains('.') { m.to_string() } else { format!("{m}.0") };
    format!("{m}E{e}")
}

/// JSON Canonicalization Scheme (RFC 8785).
pub fn jcs(v: &J) -> String {
    match v {
        J::Num(n) => es_number(n.parse().unwrap()),
        J::Arr(a) => format!("[{}]", a.iter().map(jcs).collect::<Vec<_>>().join(",")),
        J::Obj(o) => {
            let mut e: Vec<_> = o.iter().collect();
            e.sort_by_key(|a| a.0.encode_utf16().collect::<Vec<u16>>());
            format!(
                "{{{}}}",
                e.iter().map(|(k, v)| format!("{}:{}", jcs_str(k), jcs(v))).collect::<Vec<_>>().join(",")
            )
        }
        J::Str(s) => jcs_str(s),
        o => o.to_text(),
    }
}
fn jcs_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\u{8}' => r.push_str("\\b"),
            '\u{c}' => r.push_str("\\f"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
/// ECMAScript Number::toString.
pub fn es_number(f: f64) -> String {
    if f == 0.0 {
        return "0".into();
    }
    let s = format!("{:e}", f.abs());
    let (m, e) = s.split_once('e').unwrap();
    let digits: String = m.chars().filter(|c| *c != '.').collect();
    let k = digits.len() as i64;
    let n = e.parse::<i64>().unwrap() + 1;
    let sign = if f < 0.0 { "-" } else { "" };
    let body = if k <= n && n <= 21 {
        format!("{digits}{}", "0".repeat((n - k) as usize))
    } else if 0 < n && n <= 21 {
        format!("{}.{}", &digits[..n as usize], &digits[n as usize..])
    } else if -6 < n && n <= 0 {
        format!("0.{}{digits}", "0".repeat((-n) as usize))
    } else {
        let e = n - 1;
        let es = if e < 0 { format!("-{}", -e) } else { format!("+{e}") };
        if k == 1 {
            format!("{digits}e{es}")
        } else {
            format!("{}.{}e{es}", &digits[..1], &digits[1..])
        }
    };
    format!("{sign}{body}")
}

/// Replaces the compound literals by tokens: equal ones, for one subject and property, become one.
pub fn fold_compound(q: &BTreeSet<Fact>) -> BTreeSet<Fact> {
    use std::collections::BTreeMap;
    let c = |n: &str| Tok::C(format!("<{RDF}{n}>"));
    let props = [c("value"), c("language"), c("direction")];
    let mut parts: BTreeMap<Tok, Vec<&Fact>> = BTreeMap::new();
    let mut uses: BTreeMap<Tok, usize> = BTreeMap::new();
    for f in q {
        if let Tok::B(_) = f[1] {
            parts.entry(f[1].clone()).or_default().push(f);
        }
        if let Tok::B(_) = f[3] {
            *uses.entry(f[3].clone()).or_default() += 1;
        }
        *uses.entry(f[0].clone()).or_default() += 1;
        *uses.entry(f[2].clone()).or_default() += 1;
    }
    let mut fold: BTreeMap<Tok, Tok> = BTreeMap::new();
    for (b, fs) in &parts {
        let n = |p: &Tok| fs.iter().filter(|f| f[2] == *p).count();
        if fs.iter().all(|f| props.contains(&f[2]) && f[0] == fs[0][0])
            && n(&props[0]) == 1
            && n(&props[1]) <= 1
            && n(&props[2]) == 1
            && uses.get(b) == Some(&1)
        {
            fold.insert(b.clone(), Tok::C(format!("compound{:?}", fs.iter().map(|f| &f[2..]).collect::<Vec<_>>())));
        }
    }
    q.iter()
        .filter(|f| !fold.contains_key(&f[1]))
        .map(|f| f.iter().map(|t| fold.get(t).unwrap_or(t).clone()).collect())
        .collect()
}
