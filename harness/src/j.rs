//! Own JSON representation used by the reference models and by the comparators.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum J {
    Null,
    Bool(bool),
    /// Lexical form of a number.
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn obj(entries: Vec<(&str, J)>) -> J {
    J::Obj(entries.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn as_str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_arr(&self) -> Option<&Vec<J>> {
        match self {
            J::Arr(a) => Some(a),
            _ => None,
        }
    }
    pub fn as_obj(&self) -> Option<&Vec<(String, J)>> {
        match self {
            J::Obj(a) => Some(a),
            _ => None,
        }
    }
    pub fn is_obj(&self) -> bool {
        matches!(self, J::Obj(_))
    }
    pub fn is_arr(&self) -> bool {
        matches!(self, J::Arr(_))
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, J::Bool(_) | J::Num(_) | J::Str(_))
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|(a, _)| a == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut J> {
        match self {
            J::Obj(o) => o.iter_mut().find(|(a, _)| a == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.get(k).is_some()
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            if let Some(e) = o.iter_mut().find(|(a, _)| a == k) {
                e.1 = v;
            } else {
                o.push((k.to_string(), v));
            }
        }
    }
    pub fn remove(&mut self, k: &str) -> Option<J> {
        if let J::Obj(o) = self {
            if let Some(i) = o.iter().position(|(a, _)| a == k) {
                return Some(o.remove(i).1);
            }
        }
        None
    }
    pub fn len(&self) -> usize {
        match self {
            J::Obj(o) => o.len(),
            J::Arr(o) => o.len(),
            _ => 1,
        }
    }
    pub fn arrayify(self) -> Vec<J> {
        match self {
            J::Arr(a) => a,
            o => vec![o],
        }
    }
    /// Items, seeing a non array value as a singleton.
    pub fn items(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            o => std::slice::from_ref(o),
        }
    }

    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => out.push_str(n),
            J::Str(s) => write_str(s, out),
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out)
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    write_str(k, out);
                    out.push(':');
                    x.write(out)
                }
                out.push('}');
            }
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn parse(text: &str) -> Option<J> {
        use json_syntax::Parse;
        json_syntax::Value::parse_str(text).ok().map(|(v, _)| J::from_js(&v))
    }
    pub fn to_js(&self) -> json_syntax::Value {
        match self {
            J::Null => json_syntax::Value::Null,
            J::Bool(b) => json_syntax::Value::Boolean(*b),
            J::Num(n) => json_syntax::Value::Number(
                json_syntax::NumberBuf::new(n.as_bytes().to_vec().into()).expect("bad number"),
            ),
            J::Str(s) => json_syntax::Value::String(s.as_str().into()),
            J::Arr(a) => json_syntax::Value::Array(a.iter().map(|x| x.to_js()).collect()),
            J::Obj(o) => {
                let mut r = json_syntax::Object::new();
                for (k, v) in o {
                    r.push(k.as_str().into(), v.to_js());
                }
                json_syntax::Value::Object(r)
            }
        }
    }
    pub fn from_js(v: &json_syntax::Value) -> J {
        match v {
            json_syntax::Value::Null => J::Null,
            json_syntax::Value::Boolean(b) => J::Bool(*b),
            json_syntax::Value::Number(n) => J::Num(n.as_str().to_string()),
            json_syntax::Value::String(s) => J::Str(s.to_string()),
            json_syntax::Value::Array(a) => J::Arr(a.iter().map(J::from_js).collect()),
            json_syntax::Value::Object(o) => J::Obj(
                o.entries()
                    .iter()
                    .map(|e| (e.key.to_string(), J::from_js(&e.value)))
                    .collect(),
            ),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            J::Arr(a) => 1 + a.iter().map(|x| x.depth()).max().unwrap_or(0),
            J::Obj(o) => 1 + o.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// Visit every value.
    pub fn walk<F: FnMut(&J)>(&self, f: &mut F) {
        f(self);
        match self {
            J::Arr(a) => a.iter().for_each(|x| x.walk(f)),
            J::Obj(o) => o.iter().for_each(|x| x.1.walk(f)),
            _ => (),
        }
    }
    pub fn contains_key_deep(&self, k: &str) -> bool {
        match self {
            J::Arr(a) => a.iter().any(|x| x.contains_key_deep(k)),
            J::Obj(o) => o.iter().any(|x| x.0 == k || x.1.contains_key_deep(k)),
            _ => false,
        }
    }
    /// Sort all the object keys (arrays untouched).
    pub fn sorted_keys(&self) -> J {
        match self {
            J::Arr(a) => J::Arr(a.iter().map(|x| x.sorted_keys()).collect()),
            J::Obj(o) => {
                let mut r: Vec<_> = o.iter().map(|(k, v)| (k.clone(), v.sorted_keys())).collect();
                r.sort();
                J::Obj(r)
            }
            o => o.clone(),
        }
    }
}

fn write_str(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.to_text())
    }
}

/// Canonical form of an *expanded* (or flattened) JSON-LD document, in which
/// arrays are unordered except for the content of lists and JSON literals.
///
/// Top level, `@graph` and `@included` arrays are sets of nodes: equal elements
/// are merged. Language tags are compared without case.
pub fn canon_expanded(v: &J) -> J {
    canon(v, false, true)
}

fn canon(v: &J, ordered: bool, set: bool) -> J {
    match v {
        J::Arr(a) => {
            let mut r: Vec<J> = a.iter().map(|x| canon(x, false, false)).collect();
            if !ordered {
                r.sort();
            }
            if set {
                r.dedup();
                r.retain(|x| *x != J::Obj(vec![]));
            }
            J::Arr(r)
        }
        J::Obj(o) => {
            let is_json = v.get("@type") == Some(&s("@json"));
            let mut r: Vec<(String, J)> = o
                .iter()
                .map(|(k, x)| {
                    let y = match k.as_str() {
                        "@value" if is_json => x.sorted_keys(),
                        "@list" => canon(x, true, false),
                        "@graph" | "@included" => canon(x, false, true),
                        // A property without value means nothing in a reverse map.
                        "@reverse" => match canon(x, false, false) {
                            J::Obj(e) => J::Obj(e.into_iter().filter(|(_, v)| v.len() > 0).collect()),
                            o => o,
                        },
                        "@language" => match x {
                            J::Str(l) => J::Str(l.to_ascii_lowercase()),
                            o => o.clone(),
                        },
                        _ => canon(x, false, false),
                    };
                    (k.clone(), y)
                })
                .collect();
            r.retain(|(k, x)| k != "@reverse" || *x != J::Obj(vec![]));
            r.sort();
            J::Obj(r)
        }
        o => o.clone(),
    }
}

/// Canonical form of the expanded document where sets are also deduplicated.
pub fn canon_expanded_dedup(v: &J) -> J {
    fn dd(v: &J, ordered: bool) -> J {
        match v {
            J::Arr(a) => {
                let mut r: Vec<J> = a.iter().map(|x| dd(x, false)).collect();
                if !ordered {
                    r.sort();
                    r.dedup();
                }
                J::Arr(r)
            }
            J::Obj(o) => {
                let is_json = v.get("@type") == Some(&s("@json"));
                J::Obj(
                    o.iter()
                        .map(|(k, x)| {
                            (
                                k.clone(),
                                if k == "@value" && is_json {
                                    x.clone()
                                } else {
                                    dd(x, k == "@list")
                                },
                            )
                        })
                        .collect(),
                )
            }
            o => o.clone(),
        }
    }
    dd(&canon_expanded(v), false)
}

/// First difference between two values, for reports.
pub fn diff(a: &J, b: &J) -> String {
    fn go(a: &J, b: &J, path: &mut String) -> Option<String> {
        if a == b {
            return None;
        }
        match (a, b) {
            (J::Obj(x), J::Obj(y)) => {
                for (k, v) in x {
                    let l = path.len();
                    path.push('/');
                    path.push_str(k);
                    match b.get(k) {
                        None => return Some(format!("{path}: only on the left: {v}")),
                        Some(w) => {
                            if let Some(r) = go(v, w, path) {
                                return Some(r);
                            }
                        }
                    }
                    path.truncate(l);
                }
                for (k, v) in y {
                    if a.get(k).is_none() {
                        return Some(format!("{path}/{k}: only on the right: {v}"));
                    }
                }
                Some(format!("{path}: key order differs"))
            }
            (J::Arr(x), J::Arr(y)) if x.len() == y.len() => {
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    let l = path.len();
                    path.push_str(&format!("/{i}"));
                    if let Some(r) = go(v, w, path) {
                        return Some(r);
                    }
                    path.truncate(l);
                }
                None
            }
            _ => Some(format!("{path}: left {a} right {b}")),
        }
    }
    go(a, b, &mut String::new()).unwrap_or_else(|| "equal".into())
}
