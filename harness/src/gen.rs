//! Structured generators of JSON-LD contexts and documents.
use crate::j::{obj, s, J};
use crate::src::Src;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Hint {
    pub container: Vec<&'static str>,
    pub ty: Option<String>,
    pub reverse: bool,
    pub nest: bool,
    pub alias: Option<&'static str>,
    pub index: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Generate scoped contexts.
    pub scoped: bool,
    pub remote: bool,
    pub protected: bool,
    pub null_ctx: bool,
    pub mode10: bool,
    pub json: bool,
    pub direction: bool,
    pub included: bool,
    pub nest: bool,
    pub reverse: bool,
    pub graph: bool,
    pub base: bool,
    pub index: bool,
    pub propagate: bool,
    /// Probability (percent) of a value not shaped for its term.
    pub off_shape: usize,
    pub blank_props: bool,
    pub relative_types: bool,
    /// Use terms that are not defined.
    pub undefined: bool,
    pub lists: bool,
    pub size: usize,
    pub aliases: bool,
    pub local_ctx: bool,
    pub wild_numbers: bool,
    pub null_values: bool,
    /// Many terms for few IRIs.
    pub shared_iris: bool,
    /// Relative references as terms, and definitions of keyword aliases with more than the keyword.
    pub odd_terms: bool,
    /// Remote contexts that refer to others.
    pub nested_remote: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            scoped: true,
            remote: true,
            protected: true,
            null_ctx: true,
            mode10: false,
            json: true,
            direction: true,
            included: true,
            nest: true,
            reverse: true,
            graph: true,
            base: true,
            index: true,
            propagate: true,
            off_shape: 8,
            blank_props: false,
            relative_types: true,
            undefined: true,
            lists: true,
            size: 14,
            aliases: true,
            local_ctx: true,
            wild_numbers: false,
            null_values: true,
            shared_iris: false,
            odd_terms: true,
            nested_remote: true,
        }
    }
}

pub const TERMS: [&str; 12] = ["a", "b", "c", "d", "e", "f", "g", "h", "name", "label", "knows", "item"];
pub const TYPES: [&str; 5] = ["T", "U", "V", "W", "A"];
pub const PREFIXES: [(&str, &str); 4] =
    [("ex", "http://ex.org/"), ("p", "http://p.org/ns#"), ("v", "http://ex.org/vocab/"), ("exv", "http://ex.org/v")];
pub const VOCABS: [&str; 4] = ["http://ex.org/", "http://p.org/ns#", "http://ex.org/vocab/", "urn:x:"];
pub const ALIASES: [(&str, &str); 13] = [
    ("id", "@id"),
    ("type", "@type"),
    ("val", "@value"),
    ("lang", "@language"),
    ("gr", "@graph"),
    ("li", "@list"),
    ("st", "@set"),
    ("rev", "@reverse"),
    ("idx", "@index"),
    ("nst", "@nest"),
    ("none", "@none"),
    ("inc", "@included"),
    ("dir", "@direction"),
];
pub const LANGS: [&str; 5] = ["en", "fr", "de", "en-us", "ja"];
pub const STRS: [&str; 8] = ["x", "y", "hello", "", "1", "true", "T", "été"];
pub const XSD_T: [&str; 4] = [
    "http://www.w3.org/2001/XMLSchema#integer",
    "http://www.w3.org/2001/XMLSchema#date",
    "http://ex.org/dt",
    "http://www.w3.org/2001/XMLSchema#double",
];
pub const DOC_URL: &str = "http://ex.org/dir/doc.jsonld";

pub struct World {
    pub hints: BTreeMap<String, Hint>,
    pub remote: Vec<(String, J)>,
    /// URL of the remote context being generated.
    pub at: Option<String>,
    pub budget: isize,
    pub cfg: Cfg,
    pub prefixes: Vec<&'static str>,
    pub props: Vec<String>,
}

impl World {
    pub fn new(cfg: Cfg) -> Self {
        World {
            hints: BTreeMap::new(),
            remote: vec![],
            at: None,
            budget: cfg.size as isize,
            cfg,
            prefixes: vec![],
            props: vec![],
        }
    }

    pub fn remote_contexts(&mut self, g: &mut Src) {
        if !self.cfg.remote || self.cfg.mode10 && false {
            return;
        }
        let n = g.weighted(&[6, 3, 2, 1]);
        let urls: Vec<String> =
            (0..n).map(|i| format!("http://ex.org/{}c{i}.jsonld", if g.chance(1, 4) { *g.pick(&["ctx/", ""]) } else { "dir/" })).collect();
        for i in 0..n {
            let url = urls[i].clone();
            self.at = Some(url.clone());
            let c = self.context_obj(g, 1, true);
            let mut c = if g.chance(1, 5) { J::Arr(vec![c, self.context_obj(g, 1, true)]) } else { c };
            // contexts that refer to others, and seldom to themselves
            if self.cfg.nested_remote && g.chance(1, 4) {
                let j = if g.chance(1, 4) { g.below(n) } else { g.below(i + 1) };
                if j != i || g.chance(1, 3) {
                    let r = self.reference(g, &urls[j]);
                    c = match c {
                        J::Arr(mut items) => {
                            items.insert(g.below(items.len() + 1), r);
                            J::Arr(items)
                        }
                        c if g.chance(2, 3) => J::Arr(if g.chance(2, 3) { vec![r, c] } else { vec![c, r] }),
                        _ => r,
                    };
                }
            }
            let mut doc = vec![("@context".to_string(), c)];
            if g.chance(1, 4) {
                doc.push(("other".to_string(), s("x")));
            }
            self.remote.push((url, J::Obj(doc)));
        }
        self.at = None;
    }

    /// The URL, or a reference to it relative to the document being generated.
    fn reference(&self, g: &mut Src, u: &str) -> J {
        if !g.chance(1, 3) {
            return s(u);
        }
        let split = |u: &str| u.rfind('/').map(|i| (u[..i + 1].to_string(), u[i + 1..].to_string())).unwrap();
        let (here, _) = split(self.at.as_deref().unwrap_or(DOC_URL));
        let (dir, name) = split(u);
        if here == dir {
            s(&name)
        } else if dir == "http://ex.org/" {
            s(&format!("../{name}"))
        } else {
            s(&u["http://ex.org".len()..])
        }
    }

    pub fn context(&mut self, g: &mut Src, depth: usize) -> J {
        match g.weighted(&[14, 3, if self.remote.is_empty() { 0 } else { 4 }, if self.cfg.null_ctx { 1 } else { 0 }]) {
            0 => self.context_obj(g, depth, false),
            1 => {
                let n = g.range(0, 2);
                let mut r = vec![];
                let mut seen_remote = false;
                for _ in 0..n + 1 {
                    match g.weighted(&[8, if self.remote.is_empty() { 0 } else { 3 }, if self.cfg.null_ctx { 1 } else { 0 }]) {
                        0 => {
                            let mut c = self.context_obj(g, depth, false);
                            if seen_remote {
                                // @base after a remote context: debatable
                                c.remove("@base");
                            }
                            r.push(c)
                        }
                        1 => {
                            if !seen_remote {
                                seen_remote = true;
                                r.push(self.remote_ref(g))
                            }
                        }
                        _ => r.push(J::Null),
                    }
                }
                J::Arr(r)
            }
            2 => self.remote_ref(g),
            _ => J::Null,
        }
    }

    fn remote_ref(&mut self, g: &mut Src) -> J {
        let i = g.below(self.remote.len());
        let u = self.remote[i].0.clone();
        self.reference(g, &u)
    }

    pub fn context_obj(&mut self, g: &mut Src, depth: usize, remote: bool) -> J {
        let mut e: Vec<(String, J)> = vec![];
        let m10 = self.cfg.mode10;
        if g.chance(1, 12) && !m10 {
            e.push(("@version".into(), J::Num(g.pick(&["1.1", "1.1", "1.1", "1.10", "11e-1"]).to_string())));
        }
        if self.cfg.base && g.chance(1, 8) {
            let b = ["http://base.org/x/y", "http://ex.org/", "sub/", "../up", "http://base.org/q?z#f", ""];
            let v = if g.chance(1, 8) { J::Null } else { s(*g.pick(&b)) };
            e.push(("@base".into(), v));
        }
        if g.chance(2, 5) {
            let v = match g.weighted(&[10, 1, if m10 { 0 } else { 2 }, 1]) {
                0 => s(*g.pick(&VOCABS)),
                1 => J::Null,
                2 => s(*g.pick(&["", "rel/", "ex:sub#", "#", "a"])),
                _ => s(*g.pick(&["ex:sub/", "http://ex.org/"])),
            };
            e.push(("@vocab".into(), v));
        }
        if g.chance(1, 6) {
            let v = if g.chance(1, 5) { J::Null } else { s(*g.pick(&LANGS)) };
            e.push(("@language".into(), v));
        }
        if self.cfg.direction && g.chance(1, 8) && !m10 {
            let v = if g.chance(1, 5) { J::Null } else { s(*g.pick(&["ltr", "rtl"])) };
            e.push(("@direction".into(), v));
        }
        if self.cfg.propagate && g.chance(1, 12) && !m10 {
            e.push(("@propagate".into(), J::Bool(g.bool())));
        }
        if self.cfg.protected && g.chance(1, 14) && !m10 {
            e.push(("@protected".into(), J::Bool(g.chance(3, 4))));
        }
        if !remote && !self.remote.is_empty() && g.chance(1, 10) && !m10 {
            // only importable when the target is a single context map
            let i = g.below(self.remote.len());
            if self.remote[i].1.get("@context").map(|c| c.is_obj()).unwrap_or(false) {
                e.push(("@import".into(), s(&self.remote[i].0.clone())));
            }
        }
        // prefixes
        for (p, i) in PREFIXES.iter() {
            if g.chance(1, 3) {
                let v = match g.weighted(&[8, 2, 1]) {
                    0 => s(i),
                    1 if !m10 => J::Obj(vec![("@id".into(), s(i)), ("@prefix".into(), J::Bool(g.chance(3, 4)))]),
                    _ => J::Obj(vec![("@id".into(), s(i))]),
                };
                e.push((p.to_string(), v));
                if !self.prefixes.contains(p) {
                    self.prefixes.push(p);
                }
            }
        }
        if self.cfg.aliases {
            for (a, k) in ALIASES.iter() {
                if g.chance(1, 14) {
                    let mut v = s(k);
                    if self.cfg.odd_terms && *k != "@type" && g.chance(1, 6) {
                        let mut d = vec![("@id".to_string(), v)];
                        match g.below(5) {
                            0 => d.push(("@language".into(), J::Null)),
                            1 => d.push(("@language".into(), s(*g.pick(&LANGS)))),
                            2 => d.push(("@type".into(), s(*g.pick(&["@id", "@vocab", "@none"])))),
                            3 => d.push(("@container".into(), s(*g.pick(&["@set", "@list", "@index"])))),
                            _ => (),
                        }
                        v = J::Obj(d);
                    }
                    e.push((a.to_string(), v));
                    self.hints.insert(a.to_string(), Hint { alias: Some(k), nest: *k == "@nest", ..Default::default() });
                }
            }
            if g.chance(1, 20) && !m10 {
                e.push(("@type".into(), J::Obj(vec![("@container".into(), s("@set"))])));
            }
        }
        // property terms
        let n = g.range(0, 5);
        for _ in 0..n {
            let t = g.pick(&TERMS).to_string();
            if e.iter().any(|(k, _)| *k == t) {
                continue;
            }
            let d = self.term_def(g, &t, depth);
            e.push((t, d));
        }
        // type terms
        for _ in 0..g.weighted(&[3, 3, 1]) {
            let t = g.pick(&TYPES).to_string();
            if e.iter().any(|(k, _)| *k == t) {
                continue;
            }
            let iri = self.iri_for_term(g, &t);
            let mut d = vec![("@id".to_string(), s(&iri))];
            if self.cfg.scoped && depth > 0 && g.chance(1, 2) && !m10 {
                let c = self.scoped(g, depth - 1);
                d.push(("@context".into(), c));
            }
            e.push((t, J::Obj(d)));
        }
        // IRI or compact IRI used as a term
        if g.chance(1, 10) {
            let t = match g.below(3) {
                0 => "http://ex.org/a".to_string(),
                1 => "ex:b".to_string(),
                _ => "p:c".to_string(),
            };
            if !e.iter().any(|(k, _)| *k == t) {
                let mut d = vec![];
                self.coercion(g, &mut d, &t);
                // the mapping can be given again, in another form
                if g.chance(1, 3) {
                    let (full, short) = match t.as_str() {
                        "http://ex.org/a" => ("http://ex.org/a", "ex:a"),
                        "ex:b" => ("http://ex.org/b", "ex:b"),
                        _ => ("http://p.org/ns#c", "p:c"),
                    };
                    d.push(("@id".into(), s(if g.chance(3, 4) { full } else { short })));
                }
                e.push((t, J::Obj(d)));
            }
        }
        // relative IRI reference used as a term
        if self.cfg.odd_terms && g.chance(1, 24) {
            let t = g.pick(&["a/b", "b/x", "/r", "a/", "v/T"]).to_string();
            let d = match g.weighted(&[3, 2, 1]) {
                0 => {
                    let mut d = vec![];
                    self.coercion(g, &mut d, &t);
                    d
                }
                1 => {
                    let i = format!("http://ex.org/{t}");
                    vec![("@id".to_string(), s(&i))]
                }
                _ => vec![("@id".to_string(), s(&t))],
            };
            e.push((t, J::Obj(d)));
        }
        if g.chance(1, 25) {
            e.push((g.pick(&["@foo", "@unknown"]).to_string(), s("http://ex.org/ignored")));
        }
        if g.chance(1, 3) {
            g.shuffle(&mut e);
        }
        J::Obj(e)
    }

    fn scoped(&mut self, g: &mut Src, depth: usize) -> J {
        // hints of scoped definitions must not hide the others too often
        let hints = self.hints.clone();
        let c = if g.chance(1, 16) && self.cfg.null_ctx {
            J::Null
        } else if g.chance(1, 6) {
            self.context(g, depth)
        } else {
            self.context_obj(g, depth, false)
        };
        for (k, v) in hints {
            if g.chance(2, 3) {
                self.hints.insert(k, v);
            }
        }
        c
    }

    fn iri_for_term(&mut self, g: &mut Src, t: &str) -> String {
        if self.cfg.shared_iris && !TYPES.contains(&t) && g.chance(4, 5) {
            return format!("http://ex.org/{}", g.pick(&["a", "b", "c"]));
        }
        match g.weighted(&[6, 2, 2, 1]) {
            0 => format!("http://ex.org/{t}"),
            1 => format!("http://p.org/ns#{t}"),
            2 => {
                if self.prefixes.is_empty() {
                    format!("http://ex.org/vocab/{t}")
                } else {
                    let i = g.below(self.prefixes.len());
                    format!("{}:{t}", self.prefixes[i])
                }
            }
            _ => format!("http://ex.org/{}", g.pick(&["a", "b", "c", "shared"])),
        }
    }

    fn coercion(&mut self, g: &mut Src, d: &mut Vec<(String, J)>, term: &str) {
        let m10 = self.cfg.mode10;
        let mut h = Hint::default();
        let mut nodes_only = false;
        // container
        if g.chance(1, 2) {
            let c: Vec<&'static str> = match g.weighted(&[
                3,
                if self.cfg.lists { 3 } else { 0 },
                3,
                if self.cfg.index { 3 } else { 0 },
                if m10 { 0 } else { 3 },
                if m10 { 0 } else { 3 },
                if m10 || !self.cfg.graph { 0 } else { 2 },
                if m10 || !self.cfg.graph { 0 } else { 2 },
                if m10 || !self.cfg.graph || !self.cfg.index { 0 } else { 2 },
            ]) {
                0 => vec!["@set"],
                1 => vec!["@list"],
                2 => vec!["@language"],
                3 => vec!["@index"],
                4 => vec!["@id"],
                5 => vec!["@type"],
                6 => vec!["@graph"],
                7 => vec!["@graph", "@id"],
                _ => vec!["@graph", "@index"],
            };
            let mut c = c;
            if c != ["@list"] && c != ["@set"] && g.chance(1, 4) && !m10 {
                c.push("@set");
            }
            let v = if c.len() == 1 && (m10 || g.chance(3, 4)) {
                s(c[0])
            } else {
                let mut x = c.clone();
                g.shuffle(&mut x);
                J::Arr(x.into_iter().map(s).collect())
            };
            nodes_only = c.contains(&"@id") || c.contains(&"@type") || c.contains(&"@graph");
            if c.contains(&"@index") && !m10 && g.chance(1, 3) {
                let i = match g.below(3) {
                    0 => "http://ex.org/prop".to_string(),
                    1 if !self.prefixes.is_empty() => format!("{}:prop", self.prefixes[g.below(self.prefixes.len())]),
                    _ => "http://p.org/ns#idx".to_string(),
                };
                h.index = Some(i.clone());
                nodes_only = true;
                d.push(("@index".into(), s(&i)));
            }
            d.push(("@container".into(), v));
            h.container = c;
        }
        // type
        let is_type_map = h.container.contains(&"@type");
        let is_lang = h.container.contains(&"@language");
        let p_type = if is_lang { 0 } else { 4 };
        let mut typed = false;
        if g.chance(p_type, 10) {
            let t = if is_type_map {
                g.pick(&["@id", "@vocab"]).to_string()
            } else {
                match g.weighted(&[
                    4,
                    3,
                    if m10 { 0 } else { 1 },
                    if m10 || !self.cfg.json || nodes_only || h.index.is_some() { 0 } else { 2 },
                    if nodes_only { 0 } else { 4 },
                    if nodes_only { 0 } else { 1 },
                ]) {
                    0 => "@id".into(),
                    1 => "@vocab".into(),
                    2 => "@none".into(),
                    3 => "@json".into(),
                    4 => g.pick(&XSD_T).to_string(),
                    _ => {
                        if self.prefixes.is_empty() {
                            "http://ex.org/dt2".into()
                        } else {
                            format!("{}:dt", self.prefixes[g.below(self.prefixes.len())])
                        }
                    }
                }
            };
            typed = true;
            h.ty = Some(t.clone());
            d.push(("@type".into(), s(&t)));
        }
        if !typed || g.chance(1, 10) {
            if g.chance(1, 6) {
                let v = if g.chance(1, 3) { J::Null } else { s(*g.pick(&LANGS)) };
                d.push(("@language".into(), v));
            }
            if self.cfg.direction && !m10 && g.chance(1, 8) {
                let v = if g.chance(1, 3) { J::Null } else { s(*g.pick(&["ltr", "rtl"])) };
                d.push(("@direction".into(), v));
            }
        }
        if nodes_only && h.ty.is_none() && h.container.iter().any(|c| *c == "@id" || *c == "@type" || *c == "@graph") {
            h.ty = Some("node".into());
        }
        self.hints.insert(term.to_string(), h);
    }

    pub fn term_def(&mut self, g: &mut Src, t: &str, depth: usize) -> J {
        let m10 = self.cfg.mode10;
        match g.weighted(&[4, 1, 14, if self.cfg.reverse { 2 } else { 0 }]) {
            0 => {
                self.hints.insert(t.into(), Hint::default());
                let i = self.iri_for_term(g, t);
                s(&i)
            }
            1 => {
                self.hints.insert(t.into(), Hint::default());
                if g.bool() {
                    J::Null
                } else {
                    J::Obj(vec![("@id".into(), J::Null)])
                }
            }
            2 => {
                let mut d = vec![];
                let iri = self.iri_for_term(g, t);
                if self.cfg.blank_props && g.chance(1, 8) {
                    d.push(("@id".into(), s("_:bp")));
                } else {
                    d.push(("@id".into(), s(&iri)));
                }
                self.coercion(g, &mut d, t);
                if self.cfg.scoped && depth > 0 && g.chance(1, 5) && !m10 {
                    let h = self.hints.get(t).cloned();
                    let c = self.scoped(g, depth - 1);
                    if let Some(h) = h {
                        self.hints.insert(t.into(), h);
                    }
                    d.push(("@context".into(), c));
                }
                if self.cfg.nest && g.chance(1, 10) && !m10 {
                    d.push(("@nest".into(), s("@nest")));
                }
                if self.cfg.protected && g.chance(1, 16) && !m10 {
                    d.push(("@protected".into(), J::Bool(g.chance(3, 4))));
                }
                if g.chance(1, 20) && !m10 {
                    d.push(("@prefix".into(), J::Bool(g.bool())));
                }
                if g.chance(1, 6) {
                    g.shuffle(&mut d);
                }
                J::Obj(d)
            }
            _ => {
                let i = self.iri_for_term(g, t);
                let mut d = vec![("@reverse".to_string(), s(&i))];
                let mut h = Hint { reverse: true, ..Default::default() };
                match g.weighted(&[3, 1, if self.cfg.index { 1 } else { 0 }]) {
                    0 => (),
                    1 => {
                        d.push(("@container".into(), s("@set")));
                        h.container = vec!["@set"];
                    }
                    _ => {
                        d.push(("@container".into(), s("@index")));
                        h.container = vec!["@index"];
                    }
                }
                if g.chance(1, 2) {
                    let t = *g.pick(&["@id", "@vocab"]);
                    d.push(("@type".into(), s(t)));
                    h.ty = Some(t.into());
                }
                self.hints.insert(t.into(), h);
                J::Obj(d)
            }
        }
    }

    // -------------------------------------------------------------- documents

    pub fn kw(&mut self, g: &mut Src, k: &'static str) -> String {
        let al: Vec<&String> = self.hints.iter().filter(|(_, h)| h.alias == Some(k)).map(|(a, _)| a).collect();
        if !al.is_empty() && g.chance(1, 2) {
            al[0].clone()
        } else {
            k.to_string()
        }
    }

    pub fn node_id(&mut self, g: &mut Src) -> String {
        match g.weighted(&[6, 3, 3, 2]) {
            0 => format!("http://ex.org/n{}", g.below(5)),
            1 => format!("_:b{}", g.below(4)),
            2 => g
                .pick(&["n0", "#frag", "../x", "/abs", "", "?q", "sub/n", "//h.org/p", "n0/../n1", "T"])
                .to_string(),
            _ => {
                if self.prefixes.is_empty() {
                    "urn:n:1".into()
                } else {
                    format!("{}:n{}", self.prefixes[g.below(self.prefixes.len())], g.below(3))
                }
            }
        }
    }

    pub fn type_ref(&mut self, g: &mut Src) -> String {
        match g.weighted(&[12, 2, 2, if self.cfg.relative_types { 1 } else { 0 }, 1]) {
            0 => g.pick(&TYPES).to_string(),
            1 => format!("http://ex.org/{}", g.pick(&TYPES)),
            2 => {
                if self.prefixes.is_empty() {
                    "http://p.org/ns#T".into()
                } else {
                    format!("{}:{}", self.prefixes[g.below(self.prefixes.len())], g.pick(&TYPES))
                }
            }
            3 => g.pick(&["rel", "../t", "#t", "name"]).to_string(),
            _ => format!("_:t{}", g.below(2)),
        }
    }

    fn prop_key(&mut self, g: &mut Src) -> String {
        let defined: Vec<String> = self
            .hints
            .iter()
            .filter(|(_, h)| h.alias.is_none())
            .map(|(k, _)| k.clone())
            .collect();
        match g.weighted(&[if defined.is_empty() { 0 } else { 14 }, if self.cfg.undefined { 2 } else { 0 }, 3, 2]) {
            0 => defined[g.below(defined.len())].clone(),
            1 => g.pick(&TERMS).to_string(),
            2 => format!("http://ex.org/{}", g.pick(&TERMS)),
            _ => {
                if self.prefixes.is_empty() {
                    "http://p.org/ns#a".into()
                } else {
                    format!("{}:{}", self.prefixes[g.below(self.prefixes.len())], g.pick(&TERMS))
                }
            }
        }
    }

    pub fn document(&mut self, g: &mut Src) -> J {
        let mut d = self.document1(g);
        if self.cfg.scoped && !self.cfg.mode10 && g.chance(1, 20) {
            self.type_clash(g, &mut d);
        }
        d
    }

    /// Types with scoped contexts about the same terms, given under several names of `@type`.
    fn type_clash(&mut self, g: &mut Src, d: &mut J) {
        let shared: Vec<String> = (0..2).map(|_| self.prop_key(g)).filter(|k| !k.contains(':') && !k.starts_with('@') && !k.is_empty()).collect();
        let mut c: Vec<(String, J)> = vec![];
        let aliases = ["ty", "zz", "A"];
        let types = ["TA", "TB", "TC"];
        for a in aliases {
            c.push((a.into(), s("@type")));
        }
        for t in types {
            let mut x: Vec<(String, J)> = vec![];
            for k in &shared {
                if !x.iter().any(|(y, _)| y == k) {
                    x.push((k.clone(), s(&format!("http://ex.org/{t}/p"))));
                }
            }
            if g.chance(1, 5) {
                x.push(("@vocab".into(), s(&format!("http://ex.org/{t}/v"))));
            }
            if g.chance(1, 8) {
                x.push(("@propagate".into(), J::Bool(true)));
            }
            c.push((t.into(), obj(vec![("@id", s(&format!("http://ex.org/{t}"))), ("@context", J::Obj(x))])));
        }
        let c = J::Obj(c);
        match d {
            J::Obj(_) => {
                let c = match d.remove("@context") {
                    None => c,
                    Some(J::Arr(mut a)) => {
                        a.push(c);
                        J::Arr(a)
                    }
                    Some(x) => J::Arr(vec![x, c]),
                };
                if let J::Obj(e) = d {
                    e.insert(0, ("@context".into(), c));
                    let mut names = aliases.to_vec();
                    names.push("@type");
                    g.shuffle(&mut names);
                    for n in names.iter().take(2 + g.below(2)) {
                        let t = s(*g.pick(&types));
                        let v = if g.chance(1, 4) { J::Arr(vec![t, s(*g.pick(&types))]) } else { t };
                        let at = g.below(e.len()) + 1;
                        if !e.iter().any(|(k, _)| k == n) {
                            e.insert(at, (n.to_string(), v));
                        }
                    }
                    for k in &shared {
                        if !e.iter().any(|(x, _)| x == k) {
                            e.push((k.clone(), s("v")));
                        }
                    }
                }
            }
            J::Arr(a) => {
                if let Some(x) = a.first_mut() {
                    if x.is_obj() {
                        self.type_clash(g, x)
                    }
                }
            }
            _ => (),
        }
    }

    fn document1(&mut self, g: &mut Src) -> J {
        match g.weighted(&[14, 3, if self.cfg.graph { 3 } else { 0 }]) {
            0 => self.node(g, 3, true),
            1 => {
                let n = g.range(0, 3);
                J::Arr((0..n).map(|_| self.node(g, 3, true)).collect())
            }
            _ => {
                let mut e = vec![];
                let c = self.context(g, 2);
                e.push(("@context".to_string(), c));
                let n = g.range(0, 3);
                let k = self.kw(g, "@graph");
                e.push((k, J::Arr((0..n).map(|_| self.node(g, 2, false)).collect())));
                J::Obj(e)
            }
        }
    }

    pub fn node(&mut self, g: &mut Src, depth: usize, top: bool) -> J {
        self.budget -= 1;
        let mut e: Vec<(String, J)> = vec![];
        if (top && g.chance(9, 10)) || (!top && self.cfg.local_ctx && g.chance(1, 9)) {
            let saved = self.hints.clone();
            let c = self.context(g, if top { 2 } else { 1 });
            if !top {
                for (k, v) in saved {
                    self.hints.entry(k).or_insert(v);
                }
            }
            e.push(("@context".into(), c));
        }
        if g.chance(1, 2) {
            let k = self.kw(g, "@id");
            let v = self.node_id(g);
            e.push((k, s(&v)));
        }
        if g.chance(2, 5) {
            let k = self.kw(g, "@type");
            let n = g.weighted(&[1, 10, 4]);
            let mut ts: Vec<J> = (0..n).map(|_| s(&self.type_ref(g))).collect();
            ts.dedup();
            let v = if ts.len() == 1 && g.chance(3, 4) { ts.pop().unwrap() } else { J::Arr(ts) };
            // `@type` may be given several times, under several names.
            let mut names: Vec<String> = self.hints.iter().filter(|(_, h)| h.alias == Some("@type")).map(|(a, _)| a.clone()).collect();
            if !names.is_empty() && !self.cfg.mode10 && g.chance(1, 3) {
                names.push("@type".into());
                names.retain(|n| *n != k);
                let other = g.pick(&names).clone();
                e.push((other, s(&self.type_ref(g))));
            }
            let at = if g.bool() { 0 } else { e.len() };
            e.insert(at, (k, v));
        }
        let max = if self.budget <= 0 || depth == 0 { 1 } else { 4 };
        let n = g.range(0, max);
        for _ in 0..n {
            let k = self.prop_key(g);
            if e.iter().any(|(x, _)| *x == k) {
                continue;
            }
            let v = self.prop_value(g, &k, depth);
            e.push((k, v));
        }
        if self.cfg.index && g.chance(1, 14) {
            let k = self.kw(g, "@index");
            e.push((k, s(*g.pick(&["i1", "i2", "i1", "i2", "i1", "i2", ""]))));
        }
        if depth > 0 && self.budget > 0 {
            if self.cfg.reverse && g.chance(1, 12) {
                let k = self.kw(g, "@reverse");
                let mut r: Vec<(String, J)> = vec![];
                for _ in 0..g.range(1, 2) {
                    let p = self.prop_key(g);
                    if !r.iter().any(|(x, _)| *x == p) {
                        let v = self.rev_value(g, depth - 1);
                        r.push((p, v));
                    }
                }
                e.push((k, J::Obj(r)));
            }
            if self.cfg.included && g.chance(1, 14) {
                let k = self.kw(g, "@included");
                let n = g.range(1, 2);
                let mut ns: Vec<J> = (0..n).map(|_| self.node(g, depth - 1, false)).collect();
                let v = if ns.len() == 1 && g.bool() { ns.pop().unwrap() } else { J::Arr(ns) };
                e.push((k, v));
            }
            if self.cfg.nest && g.chance(1, 12) && !self.cfg.mode10 {
                let k = self.kw(g, "@nest");
                let nest = self.nest_obj(g, depth - 1);
                let v = if g.chance(1, 5) { J::Arr(vec![nest, self.nest_obj(g, depth - 1)]) } else { nest };
                e.push((k, v));
            }
            if self.cfg.graph && g.chance(1, 12) {
                let k = self.kw(g, "@graph");
                let n = g.range(0, 2);
                let ns: Vec<J> = (0..n).map(|_| self.node(g, depth - 1, false)).collect();
                e.push((k, J::Arr(ns)));
            }
        }
        if g.chance(1, 5) {
            g.shuffle(&mut e);
        }
        J::Obj(e)
    }

    fn nest_obj(&mut self, g: &mut Src, depth: usize) -> J {
        let mut r: Vec<(String, J)> = vec![];
        for _ in 0..g.range(0, 2) {
            let p = self.prop_key(g);
            if !r.iter().any(|(x, _)| *x == p) {
                let v = self.prop_value(g, &p, depth);
                r.push((p, v));
            }
        }
        if g.chance(1, 12) {
            r.push(("@type".into(), s("T")));
        }
        J::Obj(r)
    }

    fn rev_value(&mut self, g: &mut Src, depth: usize) -> J {
        let n = g.weighted(&[1, 8, 3]);
        let mut ns: Vec<J> = (0..n)
            .map(|_| {
                if g.bool() {
                    self.node(g, depth, false)
                } else {
                    J::Obj(vec![("@id".into(), s(&self.node_id(g)))])
                }
            })
            .collect();
        if ns.len() == 1 && g.chance(2, 3) {
            ns.pop().unwrap()
        } else {
            J::Arr(ns)
        }
    }

    fn map_of<F: FnMut(&mut Self, &mut Src) -> J>(
        &mut self,
        g: &mut Src,
        keys: &[&str],
        mut f: F,
    ) -> J {
        let mut r: Vec<(String, J)> = vec![];
        for _ in 0..g.range(0, 3) {
            let k = if g.chance(1, 7) { self.kw(g, "@none") } else { g.pick(keys).to_string() };
            if r.iter().any(|(x, _)| *x == k) {
                continue;
            }
            let v = if g.chance(1, 3) {
                let n = g.range(0, 2);
                J::Arr((0..n).map(|_| f(self, g)).collect())
            } else {
                f(self, g)
            };
            r.push((k, v));
        }
        J::Obj(r)
    }

    pub fn prop_value(&mut self, g: &mut Src, key: &str, depth: usize) -> J {
        self.budget -= 1;
        let h = self.hints.get(key).cloned().unwrap_or_default();
        if g.chance(self.cfg.off_shape, 100) {
            return self.value(g, &h, depth);
        }
        if h.ty.as_deref() == Some("@json") {
            return json_value(g, 2);
        }
        if h.reverse {
            let d = depth.saturating_sub(1);
            if h.container.contains(&"@index") {
                return self.map_of(g, &["i1", "i2", ""], |w, g| w.rev_item(g, d));
            }
            if h.ty.is_some() && g.bool() {
                return s(&self.node_id(g));
            }
            return self.rev_value(g, d);
        }
        let d = depth.saturating_sub(1);
        let c = &h.container;
        if c.contains(&"@language") && g.chance(5, 6) {
            return self.map_of(g, &LANGS, |_, g| s(*g.pick(&STRS)));
        }
        if c.contains(&"@graph") {
            if c.contains(&"@id") && g.chance(5, 6) {
                return self.map_of(g, &["http://ex.org/g1", "_:bg", "g2", "ex:g3"], |w, g| w.graph_content(g, d));
            }
            if c.contains(&"@index") && g.chance(5, 6) {
                return self.map_of(g, &["i1", "i2", "en", ""], |w, g| w.graph_content(g, d));
            }
            return if g.chance(1, 4) {
                J::Arr(vec![self.graph_content(g, d), self.graph_content(g, d)])
            } else {
                self.graph_content(g, d)
            };
        }
        if c.contains(&"@index") && g.chance(5, 6) {
            let node = h.index.is_some();
            let h2 = Hint { ty: h.ty.clone(), ..Default::default() };
            return self.map_of(g, &["i1", "i2", "T", ""], |w, g| {
                if node {
                    w.map_node(g, d)
                } else {
                    w.value1(g, &h2, d)
                }
            });
        }
        if c.contains(&"@id") && g.chance(5, 6) {
            return self.map_of(g, &["http://ex.org/n0", "_:b1", "rel", "ex:n1", "#f", ""], |w, g| w.node(g, d, false));
        }
        if c.contains(&"@type") && g.chance(5, 6) {
            return self.map_of(g, &["T", "U", "V", "http://ex.org/T", "ex:W"], |w, g| {
                if g.chance(1, 4) {
                    s(&w.node_id(g))
                } else {
                    w.map_node(g, d)
                }
            });
        }
        if c.contains(&"@list") {
            return self.list_items(g, &h, d, 2);
        }
        self.value(g, &h, depth)
    }

    fn rev_item(&mut self, g: &mut Src, depth: usize) -> J {
        if g.bool() {
            self.node(g, depth, false)
        } else {
            J::Obj(vec![("@id".into(), s(&self.node_id(g)))])
        }
    }

    fn map_node(&mut self, g: &mut Src, depth: usize) -> J {
        self.node(g, depth, false)
    }

    fn graph_content(&mut self, g: &mut Src, depth: usize) -> J {
        if self.cfg.graph && g.chance(1, 8) {
            // already a graph object
            let mut e = vec![("@graph".to_string(), J::Arr(vec![self.node(g, depth, false)]))];
            if g.chance(1, 3) {
                e.push(("@id".into(), s(&self.node_id(g))));
            }
            if g.chance(1, 5) {
                e.push(("@index".into(), s("i1")));
            }
            return J::Obj(e);
        }
        self.node(g, depth, false)
    }

    fn list_items(&mut self, g: &mut Src, h: &Hint, depth: usize, nest: usize) -> J {
        let n = g.range(0, 3);
        let mut r = vec![];
        let h2 = Hint { ty: h.ty.clone(), ..Default::default() };
        for _ in 0..n {
            if nest > 0 && g.chance(1, 10) {
                r.push(self.list_items(g, h, depth, nest - 1));
            } else {
                r.push(self.value1(g, &h2, depth));
            }
        }
        J::Arr(r)
    }

    pub fn value(&mut self, g: &mut Src, h: &Hint, depth: usize) -> J {
        match g.weighted(&[10, 3]) {
            0 => self.value1(g, h, depth),
            _ => {
                let n = g.range(0, 3);
                J::Arr((0..n).map(|_| self.value1(g, h, depth)).collect())
            }
        }
    }

    pub fn number(&mut self, g: &mut Src) -> J {
        let basic = ["0", "1", "42", "-7", "1.5", "0.1", "3.14159", "1e2", "10.0", "-0.5"];
        let wild = ["1e21", "1e20", "123456789012345680000", "-0", "5e-324", "1.7976931348623157e308", "1E-7", "100000000000000000000", "0.000001", "9007199254740993", "2.0e0", "1e-10", "-0.0", "123456.789e3"];
        if self.cfg.wild_numbers && g.chance(1, 2) {
            J::Num(g.pick(&wild).to_string())
        } else {
            J::Num(g.pick(&basic).to_string())
        }
    }

    fn scalar(&mut self, g: &mut Src) -> J {
        match g.weighted(&[6, 3, 2]) {
            0 => s(*g.pick(&STRS)),
            1 => self.number(g),
            _ => J::Bool(g.bool()),
        }
    }

    pub fn value1(&mut self, g: &mut Src, h: &Hint, depth: usize) -> J {
        let iri_typed = matches!(h.ty.as_deref(), Some("@id") | Some("@vocab"));
        let node_typed = h.ty.as_deref() == Some("node");
        let deep = depth > 0 && self.budget > 0;
        match g.weighted(&[
            if node_typed { 0 } else { 8 },                 // scalar
            if node_typed { 1 } else { 5 },                 // value object
            if deep || node_typed { 6 } else { 0 },         // node
            if iri_typed || node_typed { 5 } else { 2 },    // node reference
            if deep && self.cfg.lists && !node_typed { 2 } else { 0 }, // list
            if deep { 1 } else { 0 },                       // set
            if self.cfg.null_values { 1 } else { 0 },       // null
        ]) {
            0 => {
                if iri_typed && g.chance(4, 5) {
                    if h.ty.as_deref() == Some("@vocab") && g.bool() {
                        s(&self.type_ref(g))
                    } else {
                        s(&self.node_id(g))
                    }
                } else {
                    self.scalar(g)
                }
            }
            1 => self.value_object(g),
            2 => self.node(g, depth.saturating_sub(1), false),
            3 => {
                let k = self.kw(g, "@id");
                J::Obj(vec![(k, s(&self.node_id(g)))])
            }
            4 => {
                let k = self.kw(g, "@list");
                let h2 = Hint { ty: h.ty.clone(), ..Default::default() };
                let items = if g.chance(1, 6) { self.value1(g, &h2, depth - 1) } else { self.list_items(g, &h2, depth - 1, 1) };
                let mut e = vec![(k, items)];
                if self.cfg.index && g.chance(1, 10) {
                    let k = self.kw(g, "@index");
                    e.push((k, s("i1")));
                }
                J::Obj(e)
            }
            5 => {
                let k = self.kw(g, "@set");
                let h2 = Hint { ty: h.ty.clone(), ..Default::default() };
                let v = self.value(g, &h2, depth - 1);
                J::Obj(vec![(k, v)])
            }
            _ => J::Null,
        }
    }

    pub fn value_object(&mut self, g: &mut Src) -> J {
        let kv = self.kw(g, "@value");
        let mut e = vec![];
        match g.weighted(&[4, 5, 4, if self.cfg.json && !self.cfg.mode10 { 2 } else { 0 }]) {
            0 => e.push((kv, self.scalar(g))),
            1 => {
                e.push((kv, s(*g.pick(&STRS))));
                let mut some = false;
                if g.chance(2, 3) {
                    let k = self.kw(g, "@language");
                    e.push((k, s(*g.pick(&LANGS))));
                    some = true;
                }
                if self.cfg.direction && (!some || g.chance(1, 3)) && !self.cfg.mode10 {
                    let k = self.kw(g, "@direction");
                    e.push((k, s(*g.pick(&["ltr", "rtl"]))));
                }
            }
            2 => {
                let v = self.scalar(g);
                e.push((kv, v));
                let k = self.kw(g, "@type");
                let t = if !self.prefixes.is_empty() && g.chance(1, 4) {
                    format!("{}:dt", self.prefixes[g.below(self.prefixes.len())])
                } else {
                    g.pick(&XSD_T).to_string()
                };
                e.push((k, s(&t)));
            }
            _ => {
                e.push((kv, json_value(g, 2)));
                let k = self.kw(g, "@type");
                e.push((k, s("@json")));
            }
        }
        if self.cfg.index && g.chance(1, 12) {
            let k = self.kw(g, "@index");
            e.push((k, s(*g.pick(&["i1", "i2", "i1", "i2", "i1", "i2", ""]))));
        }
        if self.cfg.null_values && g.chance(1, 30) {
            e[0].1 = J::Null;
        }
        if g.chance(1, 5) {
            g.shuffle(&mut e);
        }
        J::Obj(e)
    }
}

pub fn json_value(g: &mut Src, depth: usize) -> J {
    match g.weighted(&[4, 2, 1, 1, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
        0 => s(*g.pick(&["x", "y", "", "\u{20ac}\n", "@id", "http://ex.org/a"])),
        1 => J::Num(g.pick(&["0", "1", "1.5", "-3", "1e3", "0.25"]).to_string()),
        2 => J::Bool(g.bool()),
        3 => J::Null,
        4 => {
            let n = g.range(0, 3);
            J::Arr((0..n).map(|_| json_value(g, depth - 1)).collect())
        }
        _ => {
            let mut r: Vec<(String, J)> = vec![];
            for _ in 0..g.range(0, 3) {
                let k = g.pick(&["k", "a", "@id", "@value", "@context", "z", "\u{e9}", "name"]).to_string();
                if !r.iter().any(|(x, _)| *x == k) {
                    let v = json_value(g, depth - 1);
                    r.push((k, v));
                }
            }
            J::Obj(r)
        }
    }
}
