//! Erroneous documents are rejected with the error code the specification gives.
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::{Cfg, World};
use crate::imp::{self, Case};
use crate::j::{obj, s, J};
use crate::props::p01::{self, env, model_expand};
use crate::src::Src;

pub const PROP: Prop = Prop {
    id: "P04",
    quick: 200000,
    thorough: 3000000,
    rule: "random documents with a single mistake put in at a random place; non-trivial: the mistake makes the model reject the document",
    assumptions: p01::MODEL,
    gen,
    check,
};

/// What can be wrong in a term definition: entry, value.
fn term_fault(g: &mut Src) -> (&'static str, J) {
    let n = |x: &str| J::Num(x.into());
    let l: Vec<(&'static str, J)> = vec![
        ("@container", s("@bogus")),
        ("@container", n("1")),
        ("@container", J::Arr(vec![s("@list"), s("@set")])),
        ("@container", J::Arr(vec![s("@id"), s("@index")])),
        ("@container", J::Arr(vec![s("@graph"), s("@language")])),
        ("@container", J::Arr(vec![J::Null])),
        ("@type", s("_:b")),
        ("@type", s("@set")),
        ("@type", n("3")),
        ("@type", s("@id")),
        ("@type", J::Arr(vec![s("@id")])),
        ("@id", n("3")),
        ("@id", s("@context")),
        ("@id", s("@type")),
        ("@id", J::Arr(vec![])),
        ("@id", s("no/vocab")),
        ("@reverse", n("3")),
        ("@reverse", s("rel")),
        ("@reverse", s("http://ex.org/rev")),
        ("@reverse", J::Null),
        ("@reverse", s("@value")),
        ("@index", n("3")),
        ("@index", s("@id")),
        ("@index", s("http://ex.org/idx")),
        ("@nest", s("@id")),
        ("@nest", s("@nest")),
        ("@nest", n("1")),
        ("@prefix", n("1")),
        ("@prefix", J::Bool(true)),
        ("@prefix", J::Bool(false)),
        ("@language", n("1")),
        ("@language", J::Bool(true)),
        ("@direction", s("up")),
        ("@direction", n("1")),
        ("@protected", s("yes")),
        ("@protected", J::Null),
        ("@context", n("1")),
        ("@context", s("http://ex.org/dir/missing.jsonld")),
        ("@context", obj(vec![("@vocab", n("1"))])),
        ("@context", obj(vec![("x", obj(vec![("@type", s("_:x"))]))])),
        ("@bogus", J::Bool(true)),
        ("other", s("x")),
        ("@set", J::Bool(true)),
    ];
    let i = g.below(l.len());
    l.into_iter().nth(i).unwrap()
}

/// What can be wrong in a context.
fn context_fault(g: &mut Src) -> (&'static str, J) {
    let n = |x: &str| J::Num(x.into());
    let l: Vec<(&'static str, J)> = vec![
        ("@version", n("1.0")),
        ("@version", s("1.1")),
        ("@version", n("1.1")),
        ("@version", n("1.10")),
        ("@version", n("11e-1")),
        ("@base", n("1")),
        ("@base", s("a b")),
        ("@base", J::Bool(true)),
        ("@vocab", n("1")),
        ("@vocab", obj(vec![])),
        ("@vocab", s("x y")),
        ("@language", n("1")),
        ("@language", J::Arr(vec![])),
        ("@direction", s("up")),
        ("@direction", J::Bool(true)),
        ("@propagate", s("no")),
        ("@propagate", J::Null),
        ("@protected", n("1")),
        ("@protected", J::Null),
        ("@import", n("1")),
        ("@import", s("missing.jsonld")),
        ("@import", J::Null),
        ("@id", s("http://ex.org/id")),
        ("@value", s("http://ex.org/id")),
        ("@set", obj(vec![("@id", s("http://ex.org/id"))])),
        ("@type", s("http://ex.org/type")),
        ("@type", obj(vec![("@container", s("@set"))])),
        ("@type", obj(vec![("@container", s("@list"))])),
        ("@type", obj(vec![("@id", s("http://ex.org/type"))])),
        ("@type", J::Null),
        ("", s("http://ex.org/empty")),
        ("cy", obj(vec![("@id", s("cy:x"))])),
        ("cy", s("cz:x")),
        ("t", n("1")),
        ("t", J::Bool(true)),
        ("t", J::Arr(vec![])),
        ("t", s("a b:c d")),
        ("ex:t", s("http://other.org/")),
        ("http://ex.org/t", s("http://other.org/")),
        ("rel/t", s("http://ex.org/t")),
    ];
    let i = g.below(l.len());
    l.into_iter().nth(i).unwrap()
}

/// What can be wrong in a node, value, list or set object.
fn object_fault(g: &mut Src) -> (&'static str, J) {
    let n = |x: &str| J::Num(x.into());
    let l: Vec<(&'static str, J)> = vec![
        ("@id", n("1")),
        ("@id", J::Null),
        ("@id", J::Arr(vec![s("a")])),
        ("@id", J::Bool(true)),
        ("@id", obj(vec![])),
        ("@type", n("1")),
        ("@type", obj(vec![])),
        ("@type", J::Arr(vec![n("1")])),
        ("@type", J::Arr(vec![s("http://ex.org/T"), J::Null])),
        ("@type", s("http://ex.org/T")),
        ("@type", J::Bool(false)),
        ("@type", s("a b")),
        ("@index", n("1")),
        ("@index", J::Null),
        ("@index", J::Arr(vec![s("a")])),
        ("@language", n("1")),
        ("@language", s("en")),
        ("@language", J::Arr(vec![s("en")])),
        ("@language", J::Null),
        ("@direction", s("up")),
        ("@direction", s("ltr")),
        ("@direction", n("1")),
        ("@value", obj(vec![])),
        ("@value", J::Arr(vec![])),
        ("@value", s("v")),
        ("@value", J::Null),
        ("@value", n("5")),
        ("@reverse", n("1")),
        ("@reverse", J::Arr(vec![])),
        ("@reverse", s("x")),
        ("@reverse", obj(vec![("@id", s("http://ex.org/x"))])),
        ("@reverse", obj(vec![("http://ex.org/p", s("value"))])),
        ("@reverse", obj(vec![("http://ex.org/p", obj(vec![("@list", J::Arr(vec![]))]))])),
        ("@included", s("x")),
        ("@included", n("1")),
        ("@included", obj(vec![("@value", s("x"))])),
        ("@included", J::Arr(vec![obj(vec![("@list", J::Arr(vec![]))])])),
        ("@nest", n("1")),
        ("@nest", s("x")),
        ("@nest", J::Arr(vec![J::Null])),
        ("@nest", obj(vec![("@value", s("x"))])),
        ("@list", J::Arr(vec![])),
        ("@set", J::Arr(vec![])),
        ("@context", n("1")),
        ("@context", J::Bool(true)),
        ("@context", s("http://ex.org/dir/missing.jsonld")),
        ("@context", J::Arr(vec![n("1")])),
        ("extra", s("x")),
        ("http://ex.org/extra", s("x")),
        ("idAlias", s("http://ex.org/dup")),
    ];
    let i = g.below(l.len());
    l.into_iter().nth(i).unwrap()
}

/// Paths of the objects: (path, in a context).
fn objects(j: &J, path: &mut Vec<String>, ctx: u8, out: &mut Vec<(Vec<String>, u8)>) {
    match j {
        J::Obj(e) => {
            out.push((path.clone(), ctx));
            for (k, v) in e {
                path.push(k.clone());
                let c = if k == "@context" {
                    1
                } else if ctx == 1 {
                    2
                } else {
                    ctx
                };
                objects(v, path, c, out);
                path.pop();
            }
        }
        J::Arr(a) => {
            for (i, v) in a.iter().enumerate() {
                path.push(format!("{i}"));
                objects(v, path, ctx, out);
                path.pop();
            }
        }
        _ => (),
    }
}

fn at<'a>(j: &'a mut J, path: &[String]) -> Option<&'a mut J> {
    match path.split_first() {
        None => Some(j),
        Some((h, t)) => match j {
            J::Arr(a) => at(a.get_mut(h.parse::<usize>().ok()?)?, t),
            J::Obj(_) => at(j.get_mut(h)?, t),
            _ => None,
        },
    }
}

pub fn gen(g: &mut Src) -> J {
    let mut cfg = Cfg { off_shape: 0, ..Cfg::default() };
    cfg.mode10 = g.chance(1, 20);
    if cfg.mode10 {
        cfg.scoped = false;
        cfg.protected = false;
        cfg.direction = false;
        cfg.included = false;
        cfg.nest = false;
        cfg.propagate = false;
    }
    let mut w = World::new(cfg.clone());
    w.remote_contexts(g);
    let mut doc = w.document(g);
    let mut remote = w.remote;
    let mut c = Case::new(doc.clone());
    c.remote = remote.clone();
    c.mode10 = cfg.mode10;
    if model_expand(&env(&c), &c).is_err() {
        // A document with a mistake already.
        return Case::new(obj(vec![])).render();
    }
    // keywords given twice
    if doc.is_obj() && !cfg.mode10 && g.chance(1, 12) {
        let mut places = vec![];
        objects(&doc, &mut vec![], 0, &mut places);
        places.retain(|(_, kind)| *kind == 0);
        let (path, _) = places[g.below(places.len())].clone();
        let o = at(&mut doc, &path).unwrap();
        let k: &'static str = *g.pick(&["@id", "@type", "@value", "@language", "@direction", "@index", "@reverse", "@included", "@nest", "@graph", "@list", "@set", "@none"]);
        for i in 0..2 {
            let v = match k {
                "@reverse" => obj(vec![("http://ex.org/p", J::Arr(vec![]))]),
                "@included" | "@graph" | "@nest" => J::Arr(vec![]),
                "@language" => s("en"),
                "@direction" => s("ltr"),
                _ => s("http://ex.org/k"),
            };
            if i == 0 && o.has(k) {
                continue;
            }
            o.set(if i == 0 { k } else { "alias" }, v);
        }
        let old = doc.get("@context").cloned();
        let alias = obj(vec![("alias", s(k))]);
        doc.set("@context", match old {
            Some(J::Arr(mut a)) => {
                a.push(alias);
                J::Arr(a)
            }
            Some(c) => J::Arr(vec![c, alias]),
            None => alias,
        });
        if g.chance(3, 4) {
            c.doc = doc;
            return c.render();
        }
    }
    // one mistake, in the document or a remote one
    let target: &mut J = if !remote.is_empty() && g.chance(1, 5) {
        let i = g.below(remote.len());
        &mut remote[i].1
    } else {
        &mut doc
    };
    let mut places = vec![];
    objects(target, &mut vec![], 0, &mut places);
    if !places.is_empty() {
        let (path, kind) = places[g.below(places.len())].clone();
        let o = at(target, &path).unwrap();
        match g.weighted(&[12, 1, 1, 1]) {
            0 => {
                let (k, v) = match kind {
                    0 => object_fault(g),
                    1 => context_fault(g),
                    _ => term_fault(g),
                };
                o.set(k, v);
            }
            1 if kind == 0 => *o = J::Arr(vec![o.clone(), J::Null]),
            1 => *o = J::Num("4".into()),
            2 => {
                // a document without context, or of another shape
                if path.is_empty() && kind == 0 {
                    o.remove("@context");
                } else {
                    *o = s("str")
                }
            }
            _ => {
                // protected terms
                o.set("@protected", J::Bool(true));
            }
        }
    }
    c.doc = doc;
    c.remote = remote;
    c.render()
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let case = match Case::parse(j) {
        Some(c) => c,
        None => return Outcome::pass(false),
    };
    let e = env(&case);
    let m = model_expand(&e, &case);
    let i = imp::expand(&case);
    if e.skipped().is_some() {
        return Outcome::pass(false);
    }
    let (a, b) = match (&m, &i) {
        (Err(a), Err(b)) => (a, b),
        // accepted and rejected documents are the matter of P01
        _ => return Outcome::pass(false),
    };
    tags.tag(a);
    if a == b {
        return Outcome::pass(true);
    }
    // Several mistakes: any may be reported.
    let mut e2 = env(&case);
    e2.order = 1;
    if model_expand(&e2, &case) != m {
        tags.tag("several");
        return Outcome::pass(false);
    }
    let object = ["invalid value object", "invalid set or list object", "invalid typed value", "invalid type value"];
    if object.contains(&b.as_str()) {
        // The object has an entry that is not allowed, and another mistake.
        let aliases = aliases(&case);
        if crowded(&case.doc, &aliases) {
            tags.tag("entry and value");
            return Outcome::pass(false);
        }
    }
    if b == "colliding keywords" && (object.contains(a) || crowded(&case.doc, &aliases(&case))) {
        // Entries that are not allowed, given twice.
        tags.tag("entry twice");
        return Outcome::pass(false);
    }
    let entry = ["invalid IRI mapping", "invalid container mapping", "invalid @nest value", "invalid @prefix value"];
    if *a == "invalid reverse property" && entry.contains(&b.as_str()) || *a == "invalid term definition" && b == "invalid @prefix value" {
        // Entries that are not allowed in the definition, one of which is
        // invalid by itself.
        tags.tag("reverse and entry");
        return Outcome::pass(false);
    }
    let import: [(&str, &str); 3] = [
        ("invalid reverse property", "invalid reverse property value"),
        ("invalid remote context", "invalid local context"), ("invalid context entry", "invalid @import value")];
    if import.contains(&(a, b.as_str())) {
        // A reverse property whose container is an array; an imported document whose context is not a context at all, or
        // that cannot have the entry at all.
        return Outcome::pass(false);
    }
    // Another mistake: reported once the first is taken out.
    let mut others = simpler(&case);
    if *a == "colliding keywords" {
        // Entries given twice are often not allowed where they are.
        others.extend(simpler(&case).iter().flat_map(simpler));
    }
    for other in others {
        let again = match model_expand(&env(&other), &other) {
            Err(c) => c == *b,
            // Entries the algorithms do not look at: the matter of P01.
            Ok(_) => imp::expand(&other).err().as_ref() == Some(b),
        };
        if again {
            tags.tag("another mistake");
            return Outcome::pass(false);
        }
    }
    Outcome::fail(format!("model={a} impl={b}"), String::new())
}

/// The cases with an entry less, or an entry renamed.
fn simpler(case: &Case) -> Vec<Case> {
    let mut out = vec![];
    if case.mode10 {
        out.push(Case { mode10: false, ..case.clone() });
    }
    let mut docs = vec![(0, case.doc.clone())];
    docs.extend(case.remote.iter().enumerate().map(|(i, (_, d))| (i + 1, d.clone())));
    for (n, doc) in docs {
        let mut places = vec![];
        objects(&doc, &mut vec![], 0, &mut places);
        for (path, _) in places {
            let keys: Vec<String> = match at(&mut doc.clone(), &path) {
                Some(J::Obj(e)) => e.iter().map(|(k, _)| k.clone()).collect(),
                _ => continue,
            };
            for k in &keys {
                let mut i = 0;
                loop {
                    let mut d = doc.clone();
                    match at(&mut d, &path) {
                        Some(J::Obj(e)) => match e.iter_mut().find(|(x, _)| x == k) {
                            Some((_, J::Arr(a))) if i < a.len() && a.len() > 1 => {
                                a.remove(i);
                            }
                            _ => break,
                        },
                        _ => break,
                    }
                    i += 1;
                    let mut c = case.clone();
                    match n {
                        0 => c.doc = d,
                        n => c.remote[n - 1].1 = d,
                    }
                    out.push(c)
                }
            }
            for k in keys {
                for rename in [false, true] {
                    let mut d = doc.clone();
                    if let Some(J::Obj(e)) = at(&mut d, &path) {
                        match e.iter().position(|(x, _)| *x == k) {
                            Some(i) if rename => e[i].0 = "renamed".into(),
                            Some(i) => {
                                e.remove(i);
                            }
                            None => (),
                        }
                    }
                    let mut c = case.clone();
                    match n {
                        0 => c.doc = d,
                        n => c.remote[n - 1].1 = d,
                    }
                    out.push(c)
                }
            }
        }
    }
    out
}

/// Keys that may stand for a keyword.
fn aliases(case: &Case) -> Vec<String> {
    fn walk(j: &J, out: &mut Vec<String>) {
        match j {
            J::Arr(a) => a.iter().for_each(|x| walk(x, out)),
            J::Obj(e) => {
                for (k, v) in e {
                    let target = match v {
                        J::Str(s) => Some(s.as_str()),
                        J::Obj(_) => v.get("@id").and_then(|x| x.as_str()),
                        _ => None,
                    };
                    if let Some("@value" | "@list" | "@set") = target {
                        out.push(k.clone())
                    }
                    walk(v, out)
                }
            }
            _ => (),
        }
    }
    let mut out = vec!["@value".to_string(), "@list".into(), "@set".into()];
    walk(&case.doc, &mut out);
    for (_, d) in &case.remote {
        walk(d, &mut out)
    }
    out
}

/// Is there a value, list or set object with another entry?
fn crowded(j: &J, aliases: &[String]) -> bool {
    match j {
        J::Arr(a) => a.iter().any(|x| crowded(x, aliases)),
        J::Obj(e) => {
            (e.len() > 1 && e.iter().any(|(k, _)| aliases.contains(k)))
                || e.iter().any(|(k, v)| k != "@context" && crowded(v, aliases))
        }
        _ => false,
    }
}
