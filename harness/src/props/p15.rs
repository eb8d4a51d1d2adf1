//! The parts of documents, edited in any order, behave as the collections they are.
use super::p07;
use crate::engine::{Outcome, Prop, Tags};
use crate::imp::Ctx;
use crate::j::{obj, s, J};
use crate::src::Src;
use json_ld::object::{node::Multiset, TryFromJson};
use json_ld::syntax::IntoJsonWithContext;
use json_ld::{Id, Indexed, Nullable};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "P15",
    quick: 150000,
    thorough: 3000000,
    rule: "random sequences of operations on properties, node maps, nodes, tagged strings, contexts and documents, against maps and lists; non-trivial: at least three operations had an effect",
    assumptions: &["equivalent objects: equal, and not anonymous nodes or lists"],
    gen,
    check,
};

type Obj = json_ld::Indexed<json_ld::Object>;
type INode = json_ld::Indexed<json_ld::Node>;

const PROPS: [&str; 4] = ["http://ex.org/p", "http://ex.org/q", "_:p", "invalid"];
const IDS: [&str; 4] = ["http://ex.org/a", "http://ex.org/b", "_:x", "not an IRI"];
const TERMS: [&str; 5] = ["a", "b", "ab", "http://ex.org/p", "type"];
const VARS: [&str; 3] = ["http://ex.org/p", "http://ex.org/q", "@type"];

fn some_object(g: &mut Src, node: bool) -> J {
    let mut budget = 3;
    if node {
        let id = *g.pick(&IDS[..3]);
        return match g.below(3) {
            0 => obj(vec![("@id", s(id))]),
            1 => obj(vec![("@id", s(id)), ("@index", s("i"))]),
            _ => p07::node(g, 1, &mut budget),
        };
    }
    match g.below(4) {
        0 => obj(vec![("@value", s(*g.pick(&["x", "y"])))]),
        1 => obj(vec![("@id", s(*g.pick(&IDS[..3])))]),
        2 => obj(vec![("@value", s("x")), ("@index", s(*g.pick(&["i", "j"])))]),
        _ => p07::object(g, 1, &mut budget),
    }
}

fn objects(g: &mut Src, node: bool) -> J {
    J::Arr((0..g.below(4)).map(|_| some_object(g, node)).collect())
}

fn map(g: &mut Src, node: bool) -> J {
    let mut e = vec![];
    for _ in 0..g.below(3) {
        e.push((g.pick(&PROPS).to_string(), objects(g, node)));
    }
    J::Obj(e)
}

fn index(g: &mut Src) -> J {
    match g.below(4) {
        0 => s("i"),
        1 => s("j"),
        _ => J::Null,
    }
}

fn lang(g: &mut Src) -> J {
    match g.below(4) {
        0 => s("en"),
        1 => s("not a tag"),
        _ => J::Null,
    }
}

fn dir(g: &mut Src) -> J {
    match g.below(4) {
        0 => s("ltr"),
        1 => s("rtl"),
        _ => J::Null,
    }
}

fn gen(g: &mut Src) -> J {
    let kind = *g.pick(&["properties", "reverse", "graph", "string", "context", "document", "node"]);
    let n = g.range(1, 12);
    let node = kind == "reverse";
    let ops: Vec<J> = (0..n)
        .map(|_| {
            let p = s(*g.pick(&PROPS));
            let op = |n: &str, args: Vec<J>| J::Arr(std::iter::once(s(n)).chain(args).collect());
            match kind {
                "properties" | "reverse" => match g.below(10) {
                    0 | 1 => op("insert", vec![p, some_object(g, node)]),
                    2 | 3 => op("insert_unique", vec![p, some_object(g, node)]),
                    4 => op("insert_all", vec![p, objects(g, node)]),
                    5 => op("insert_all_unique", vec![p, objects(g, node)]),
                    6 => op("set", vec![p, objects(g, node)]),
                    7 => op("extend", vec![map(g, node)]),
                    8 => op("extend_unique", vec![map(g, node)]),
                    _ => match g.below(4) {
                        0 => op("clear", vec![]),
                        1 => op("rebuild", vec![]),
                        _ => op("remove", vec![p]),
                    },
                },
                "graph" => match g.below(5) {
                    0 => op("declare", vec![s(*g.pick(&IDS)), index(g)]),
                    1 => {
                        let n = g.below(3);
                        op("merge_with", vec![J::Arr((0..n).map(|_| graph_node(g)).collect())])
                    }
                    _ => op("merge", vec![graph_node(g)]),
                },
                "string" => match g.below(3) {
                    0 => op("language", vec![lang(g)]),
                    1 => op("direction", vec![dir(g)]),
                    _ => op("both", vec![lang(g), dir(g)]),
                },
                "context" => match g.below(8) {
                    0 | 1 | 2 => op("define", vec![s(*g.pick(&TERMS)), if g.chance(1, 4) { J::Null } else { definition(g) }]),
                    3 => op("language", vec![lang(g)]),
                    4 => op("direction", vec![dir(g)]),
                    5 => op("vocab", vec![if g.bool() { s("http://ex.org/") } else { J::Null }]),
                    6 => op(
                        "type",
                        vec![match g.below(3) {
                            0 => J::Null,
                            1 => s("@set"),
                            _ => s("@id"),
                        }],
                    ),
                    _ => op("inverse", vec![]),
                },
                "document" => op("insert", vec![some_object(g, false)]),
                _ => match g.below(8) {
                    0 => op("type", vec![s(*g.pick(&IDS))]),
                    1 => op("types", vec![]),
                    2 => op("graph", vec![if g.chance(1, 4) { J::Null } else { objects(g, false) }]),
                    3 => op("included", vec![if g.chance(1, 4) { J::Null } else { objects(g, true) }]),
                    4 => op("reverse", vec![p, objects(g, true)]),
                    5 => op("id", vec![if g.bool() { s(*g.pick(&IDS)) } else { J::Null }]),
                    6 => op("insert", vec![p, some_object(g, false)]),
                    _ => op("insert_all", vec![p, objects(g, false)]),
                },
            }
        })
        .collect();
    obj(vec![("kind", s(kind)), ("operations", J::Arr(ops))])
}

fn graph_node(g: &mut Src) -> J {
    let mut budget = 5;
    let mut n = p07::node(g, 2, &mut budget);
    if g.chance(7, 8) {
        n.set("@id", s(*g.pick(&IDS)));
    }
    if g.chance(1, 3) {
        n.set("@index", s(*g.pick(&["i", "j"])));
    }
    n
}

fn definition(g: &mut Src) -> J {
    let mut e = vec![("@id", s(*g.pick(&VARS[..2])))];
    match g.below(6) {
        0 => e.push(("@type", s(*g.pick(&["@id", "@vocab", "@none", "@json", "http://ex.org/dt"])))),
        1 => e.push(("@language", lang(g))),
        2 => e.push(("@direction", dir(g))),
        3 => {
            e.push(("@language", lang(g)));
            e.push(("@direction", dir(g)))
        }
        4 => e.push(("@reverse", J::Bool(true))),
        _ => (),
    }
    e.push(("@container", s(*g.pick(&["", "", "@set", "@list", "@language", "@index"]))));
    if g.chance(1, 6) {
        e.push(("@protected", J::Bool(true)));
    }
    obj(e)
}

fn read<T: TryFromJson<iref::IriBuf, rdf_types::BlankIdBuf>>(j: &J) -> Option<T> {
    T::try_from_json_in(&mut (), j.to_js()).ok()
}

fn js<T: IntoJsonWithContext<()> + Clone>(x: &T) -> J {
    J::from_js(&x.clone().into_json_with(&()))
}

fn id(x: &str) -> Id {
    Id::from_string(x.to_string())
}

fn tag(x: Option<&str>) -> Option<json_ld::LenientLangTagBuf> {
    x.map(|x| json_ld::LenientLangTagBuf::new(x.into()).0)
}

fn direction(x: Option<&str>) -> Option<json_ld::Direction> {
    x.and_then(|x| json_ld::Direction::try_from(x).ok())
}

/// Equal, and not anonymous.
fn equivalent(a: &J, b: &J) -> bool {
    let named = |j: &J| j.has("@value") || j.has("@id");
    named(a) && named(b) && super::p13::canon(&J::Arr(vec![a.clone()]), false) == super::p13::canon(&J::Arr(vec![b.clone()]), false)
}

type Map = BTreeMap<String, Vec<J>>;

/// The content of the map, as it comes from JSON.
fn norm<T: IntoJsonWithContext<()> + Clone + TryFromJson<iref::IriBuf, rdf_types::BlankIdBuf>>(j: &J) -> Option<(T, J)> {
    let x: T = read(j)?;
    let j = js(&x);
    Some((x, j))
}

macro_rules! properties {
    ($name:ident, $props:ty, $item:ty) => {
        fn $name(ops: &[J], tags: &mut Tags) -> Result<usize, Outcome> {
            let mut p = <$props>::new();
            let mut m: Map = BTreeMap::new();
            let mut effects = 0;
            let many = |j: &J| -> Option<(Vec<$item>, Vec<J>)> {
                let v: Option<Vec<($item, J)>> = j.items().iter().map(norm::<$item>).collect();
                Some(v?.into_iter().unzip())
            };
            fn unique(v: &mut Vec<J>, o: J) -> bool {
                let new = !v.iter().any(|x| equivalent(x, &o));
                if new {
                    v.push(o)
                }
                new
            }
            for op in ops {
                let a = op.items();
                let (name, prop) = match (a.first().and_then(|n| n.as_str()), a.get(1)) {
                    (Some(n), Some(J::Str(p))) => (n, p.clone()),
                    (Some(n), _) => (n, String::new()),
                    _ => return Ok(0),
                };
                let before = m.clone();
                match (name, a.get(2)) {
                    ("insert", Some(o)) => {
                        let (o, j) = match norm::<$item>(o) {
                            Some(x) => x,
                            None => return Ok(0),
                        };
                        p.insert(id(&prop), o);
                        m.entry(prop).or_default().push(j);
                    }
                    ("insert_unique", Some(o)) => {
                        let (o, j) = match norm::<$item>(o) {
                            Some(x) => x,
                            None => return Ok(0),
                        };
                        let mut all: Multiset<$item> = Multiset::from_iter(p.iter().filter(|(k, _)| **k == id(&prop)).flat_map(|(_, v)| v.iter().cloned()));
                        let n = all.len();
                        let (new, other) = (!all.iter().any(|x| *x == o), o.clone());
                        if all.insert_unique(o.clone()) != new || all.len() != n + new as usize || !all.iter().any(|x| *x == other) {
                            return Err(Outcome::fail("inserting twice in a multiset", ""));
                        }
                        p.insert_unique(id(&prop), o);
                        if !unique(m.entry(prop).or_default(), j) {
                            tags.tag("equivalent")
                        }
                    }
                    ("insert_all" | "insert_all_unique" | "set", Some(o)) => {
                        let (o, j) = match many(o) {
                            Some(x) => x,
                            None => return Ok(0),
                        };
                        let i = id(&prop);
                        match name {
                            "insert_all" => {
                                p.insert_all(i, o);
                                m.entry(prop).or_default().extend(j)
                            }
                            "set" => {
                                p.set(i, o.into_iter().collect());
                                m.insert(prop, j);
                            }
                            _ => {
                                p.insert_all_unique(i, o);
                                let v = m.entry(prop).or_default();
                                j.into_iter().for_each(|o| {
                                    if !unique(v, o) {
                                        tags.tag("equivalent")
                                    }
                                })
                            }
                        }
                    }
                    ("extend" | "extend_unique", _) => {
                        let mut it = vec![];
                        for (k, v) in a.get(1).and_then(|x| x.as_obj()).into_iter().flatten() {
                            match many(v) {
                                Some((o, j)) => it.push((k.clone(), o, j)),
                                None => return Ok(0),
                            }
                        }
                        for (k, _, j) in &it {
                            let v = m.entry(k.clone()).or_default();
                            if name == "extend" {
                                v.extend(j.iter().cloned())
                            } else {
                                j.iter().for_each(|o| {
                                    unique(v, o.clone());
                                })
                            }
                        }
                        let it = it.into_iter().map(|(k, o, _)| (id(&k), o));
                        if name == "extend" {
                            p.extend(it)
                        } else {
                            p.extend_unique(it)
                        }
                    }
                    ("remove", _) => {
                        let r = p.remove(&id(&prop)).map(|r| r.iter().map(js).collect::<Vec<_>>());
                        if r != m.remove(&prop) {
                            return Err(Outcome::fail("remove: what is removed", ""));
                        }
                    }
                    ("clear", _) => {
                        p.clear();
                        m.clear()
                    }
                    ("rebuild", _) => p = p.into_iter().map(|(k, v)| (k, v.into_iter().collect::<Vec<_>>())).collect(),
                    _ => return Ok(0),
                }
                if m != before {
                    effects += 1
                }
                // everything, after each operation
                let bad = |what: &str| Err(Outcome::fail(format!("{name}: {what}"), format!("{m:?}")));
                if p.len() != m.len() || p.is_empty() != m.is_empty() {
                    return bad("number of properties");
                }
                let all: Map = p.iter().map(|(k, v)| (k.to_string(), v.iter().map(js).collect())).collect();
                if all != m {
                    return bad("content");
                }
                for k in PROPS.iter() {
                    let i = id(k);
                    let want = m.get(*k);
                    if p.contains(&i) != want.is_some() {
                        return bad("contains");
                    }
                    let none = vec![];
                    let want = want.unwrap_or(&none);
                    if p.get(&i).map(js).collect::<Vec<_>>() != *want {
                        return bad("get");
                    }
                    match p.get_any(&i).map(js) {
                        Some(x) if want.contains(&x) => (),
                        None if want.is_empty() => (),
                        _ => return bad("get any"),
                    }
                }
            }
            Ok(effects)
        }
    };
}

properties!(forward, json_ld::object::node::Properties<iref::IriBuf, rdf_types::BlankIdBuf>, Obj);
properties!(reverse, json_ld::object::node::ReverseProperties<iref::IriBuf, rdf_types::BlankIdBuf>, INode);

fn graph(ops: &[J], tags: &mut Tags) -> Result<usize, Outcome> {
    type Graph = json_ld::flattening::NodeMapGraph<iref::IriBuf, rdf_types::BlankIdBuf>;
    let mut real = Graph::new();
    let mut m: BTreeMap<String, J> = BTreeMap::new();
    let mut effects = 0;
    fn merge(m: &mut BTreeMap<String, J>, n: &J) {
        let i = match n.get("@id").and_then(|i| i.as_str()) {
            Some(i) => i.to_string(),
            None => return,
        };
        let e = m.entry(i.clone()).or_insert_with(|| obj(vec![("@id", s(&i))]));
        for k in ["@graph", "@included"] {
            match n.get(k) {
                Some(x) => e.set(k, x.clone()),
                None => {
                    e.remove(k);
                }
            }
        }
        fn props(e: &mut J, n: &J) {
            for (k, v) in n.as_obj().into_iter().flatten().filter(|(k, _)| !k.starts_with('@')) {
                let mut a = e.get(k).map(|a| a.items().to_vec()).unwrap_or_default();
                for o in v.items() {
                    if !a.iter().any(|x| equivalent(x, o)) {
                        a.push(o.clone())
                    }
                }
                e.set(k, J::Arr(a))
            }
        }
        props(e, n);
        if let Some(i) = n.get("@index") {
            e.set("@index", i.clone())
        }
        if let Some(t) = n.get("@type") {
            let mut a = e.get("@type").map(|a| a.items().to_vec()).unwrap_or_default();
            a.extend(t.items().iter().cloned());
            e.set("@type", J::Arr(a))
        }
        if let Some(r) = n.get("@reverse") {
            let mut x = e.get("@reverse").cloned().unwrap_or(J::Obj(vec![]));
            props(&mut x, r);
            e.set("@reverse", x)
        }
    }
    for op in ops {
        let a = op.items();
        let name = a.first().and_then(|n| n.as_str()).unwrap_or("").to_string();
        let before = m.clone();
        match (name.as_str(), a.get(1)) {
            ("declare", Some(J::Str(i))) => {
                let ix = a.get(2).and_then(|i| i.as_str());
                let r = real.declare_node(id(i), ix).map(|n| n.id.as_ref().map(|i| i.to_string()));
                let e = m.entry(i.clone()).or_insert_with(|| obj(vec![("@id", s(i))]));
                let old = e.get("@index").and_then(|i| i.as_str()).map(str::to_string);
                match (old, ix, r) {
                    (Some(o), Some(n), Err(c)) if o != n => {
                        tags.tag("conflict");
                        if c.defined_index != o || c.conflicting_index != n || c.node_id != id(i) {
                            return Err(Outcome::fail("declare: description of the conflict", ""));
                        }
                    }
                    (Some(o), Some(n), _) if o != n => return Err(Outcome::fail("declare: conflict missed", "")),
                    (_, _, Err(_)) => return Err(Outcome::fail("declare: no conflict", "")),
                    (o, n, Ok(r)) => {
                        if r.as_deref() != Some(i) {
                            return Err(Outcome::fail("declare: another node", ""));
                        }
                        if let (None, Some(n)) = (o, n) {
                            e.set("@index", s(n))
                        }
                    }
                }
            }
            ("merge", Some(n)) => {
                let (n, j) = match norm::<INode>(n) {
                    Some(x) => x,
                    None => return Ok(0),
                };
                real.merge_node(n);
                merge(&mut m, &j)
            }
            ("merge_with", Some(ns)) => {
                let mut other = Graph::new();
                let mut om = BTreeMap::new();
                for n in ns.items() {
                    let (n, j) = match norm::<INode>(n) {
                        Some(x) => x,
                        None => return Ok(0),
                    };
                    other.merge_node(n);
                    merge(&mut om, &j)
                }
                real.merge_with(other);
                om.values().for_each(|n| merge(&mut m, n))
            }
            _ => return Ok(0),
        }
        if m != before {
            effects += 1
        }
        let bad = |what: &str| Err(Outcome::fail(format!("{name}: {what}"), format!("{m:?}")));
        let empty = obj(vec![]);
        for i in IDS {
            let x = real.get(&id(i));
            if x.is_some() != m.contains_key(i) || x.is_some() != real.contains(&id(i)) {
                return bad("contains");
            }
            if x.map(js).map(|x| x.sorted_keys()).unwrap_or(empty.clone()) != m.get(i).map(|x| x.sorted_keys()).unwrap_or(empty.clone()) {
                return bad("node");
            }
        }
        let ids: BTreeSet<String> = real.nodes().filter_map(|n| n.id.as_ref().map(|i| i.to_string())).collect();
        if ids != m.keys().cloned().collect() || real.nodes().len() != m.len() {
            return bad("nodes");
        }
    }
    Ok(effects)
}

fn string(ops: &[J]) -> Result<usize, Outcome> {
    use json_ld::LangString;
    let mut effects = 0;
    let mut real: Option<LangString> = None;
    let mut m: (Option<&str>, Option<&str>) = (None, None);
    for op in ops {
        let a = op.items();
        let name = a.first().and_then(|n| n.as_str()).unwrap_or("");
        let x = a.get(1).and_then(|x| x.as_str());
        let y = a.get(2).and_then(|x| x.as_str());
        let next = match name {
            "language" => (x, m.1),
            "direction" => (m.0, x),
            "both" => (x, y),
            _ => return Ok(0),
        };
        let ok = match &mut real {
            None => match LangString::new("text".into(), tag(next.0), direction(next.1)) {
                Ok(s) => {
                    real = Some(s);
                    true
                }
                Err(d) => {
                    if d.as_str() != "text" {
                        return Err(Outcome::fail("string: text not given back", ""));
                    }
                    false
                }
            },
            Some(l) => match name {
                "language" => l.set_language(tag(x)).is_ok(),
                "direction" => l.set_direction(direction(x)).is_ok(),
                _ => l.set(tag(x), direction(y)).is_ok(),
            },
        };
        if ok != (next.0.is_some() || next.1.is_some()) {
            return Err(Outcome::fail(format!("string: {name} is accepted"), ""));
        }
        if ok {
            effects += 1;
            m = next
        }
        if let Some(l) = &real {
            let r = l.as_lang_str();
            let all = [
                (l.as_str(), l.language().map(|l| l.as_str()), l.direction().map(|d| d.as_str())),
                (r.as_str(), r.language().map(|l| l.as_str()), r.direction().map(|d| d.as_str())),
                (l.parts().0, l.parts().1.map(|l| l.as_str()), l.parts().2.map(|d| d.as_str())),
            ];
            if all.iter().any(|x| *x != ("text", m.0, m.1)) {
                return Err(Outcome::fail(format!("string: after {name}"), ""));
            }
            if l.language().is_none() && l.direction().is_none() {
                return Err(Outcome::fail("string without language and direction", ""));
            }
        }
    }
    Ok(effects)
}

fn context(ops: &[J], tags: &mut Tags) -> Result<usize, Outcome> {
    use json_ld::context::inverse::{LangSelection, Selection, TypeSelection};
    use json_ld::context::{NormalTermDefinition, TypeTermDefinition};
    use json_ld::{Container, Term, Type};
    let mut real = Ctx::new(None);
    let mut m: BTreeMap<String, J> = BTreeMap::new();
    let mut effects = 0;
    let container = |c: &str| match c {
        "@set" => Container::Set,
        "@list" => Container::List,
        "@language" => Container::Language,
        "@index" => Container::Index,
        _ => Container::None,
    };
    let iri = |x: &str| Term::Id(id(x));
    let get = |d: &J, k: &str| d.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
    let make = |d: &J| -> NormalTermDefinition {
        let mut n = NormalTermDefinition { value: Some(iri(&get(d, "@id"))), ..Default::default() };
        n.container = container(&get(d, "@container"));
        n.typ = d.get("@type").and_then(|t| t.as_str()).map(|t| match t {
            "@id" => Type::Id,
            "@vocab" => Type::Vocab,
            "@none" => Type::None,
            "@json" => Type::Json,
            t => Type::Iri(iref::IriBuf::new(t.to_string()).unwrap()),
        });
        n.language = d.get("@language").map(|l| tag(l.as_str()).map(Nullable::Some).unwrap_or(Nullable::Null));
        n.direction = d.get("@direction").map(|l| direction(l.as_str()).map(Nullable::Some).unwrap_or(Nullable::Null));
        n.reverse_property = d.has("@reverse");
        n.protected = d.has("@protected");
        n
    };
    for op in ops {
        let a = op.items();
        let name = a.first().and_then(|n| n.as_str()).unwrap_or("");
        let x = a.get(1).and_then(|x| x.as_str());
        match name {
            "define" => {
                let t = match x {
                    Some(t) if t != "@type" => t,
                    _ => return Ok(0),
                };
                let d = a.get(2).filter(|d| !d.is_null());
                let old = real.set_normal(t.to_string().into(), d.map(make));
                let mold = match d {
                    Some(d) => m.insert(t.into(), d.clone()),
                    None => m.remove(t),
                };
                if old != mold.as_ref().map(make) {
                    return Err(Outcome::fail("context: previous definition", ""));
                }
                effects += 1
            }
            "type" => {
                let d = x.map(|_| TypeTermDefinition {
                    container: json_ld::syntax::context::definition::TypeContainer::Set,
                    protected: x == Some("@id"),
                });
                real.set_type(d);
                match x {
                    Some(t) => m.insert("@type".into(), s(t)),
                    None => m.remove("@type"),
                };
                effects += 1
            }
            "language" => {
                real.set_default_language(tag(x));
                if real.default_language().map(|l| l.as_str()) != x {
                    return Err(Outcome::fail("context: default language", ""));
                }
                effects += 1
            }
            "direction" => {
                real.set_default_base_direction(direction(x));
                effects += 1
            }
            "vocab" => {
                real.set_vocabulary(x.map(iri));
                effects += 1
            }
            "inverse" => {
                real.inverse();
                tags.tag("inverse");
                continue;
            }
            _ => return Ok(0),
        }
        let bad = |what: &str| Err(Outcome::fail(format!("context, {name}: {what}"), format!("{m:?}")));
        if real.len() != m.len() || real.is_empty() != m.is_empty() {
            return bad("number of terms");
        }
        for t in TERMS.iter().chain(&["@type"]) {
            if real.contains_term(*t) != m.contains_key(*t) || real.get(*t).is_some() != m.contains_key(*t) {
                return bad("defined terms");
            }
            let d = m.get(*t).filter(|_| *t != "@type").map(make);
            if real.get_normal(*t) != d.as_ref() {
                return bad("definition");
            }
        }
        if real.get_type().is_some() != m.contains_key("@type") {
            return bad("definition of @type");
        }
        let names: BTreeSet<String> = real.definitions().iter().map(|b| b.term().as_str().to_string()).collect();
        if names != m.keys().cloned().collect() {
            return bad("bindings");
        }
        let protected = m.values().any(|d| d.has("@protected") || d == &s("@id"));
        if real.has_protected_items() != protected {
            return bad("protected items");
        }
        let fresh = real.clone();
        if fresh != real {
            return bad("clone");
        }
        // what the inverse finds
        let en = tag(Some("en"));
        let odd = tag(Some("not a tag"));
        let langs = [None, en.as_deref(), odd.as_deref()];
        let dirs = [None, direction(Some("ltr")), direction(Some("rtl"))];
        let mut selections = vec![Selection::Any, Selection::Lang(vec![LangSelection::Any]), Selection::Lang(vec![LangSelection::Lang(Nullable::Null)])];
        for l in langs {
            for d in dirs {
                selections.push(Selection::Lang(vec![LangSelection::Lang(Nullable::Some((l, d)))]))
            }
        }
        selections.push(Selection::Type(vec![TypeSelection::Reverse]));
        selections.push(Selection::Type(vec![TypeSelection::Any]));
        for t in [Type::Id, Type::Vocab, Type::None, Type::Json, Type::Iri(iref::IriBuf::new("http://ex.org/dt".into()).unwrap())] {
            selections.push(Selection::Type(vec![TypeSelection::Type(t)]))
        }
        for v in VARS {
            let var = if v == "@type" { Term::Keyword(json_ld::syntax::Keyword::Type) } else { iri(v) };
            for c in [Container::None, Container::Set, Container::List, Container::Language, Container::Index] {
                for x in &selections {
                    let (a, b) = (real.inverse().select(&var, &[c], x), fresh.inverse().select(&var, &[c], x));
                    if a != b {
                        return bad("the inverse is not up to date");
                    }
                    if let Some(t) = a {
                        let ok = if v == "@type" { t.as_str() == "@type" && m.contains_key("@type") } else { m.get(t.as_str()).is_some_and(|d| get(d, "@id") == v && container(&get(d, "@container")) == c) };
                        if !ok {
                            return bad("the inverse gives a term with another definition");
                        }
                    }
                }
            }
        }
    }
    Ok(effects)
}

fn document(ops: &[J]) -> Result<usize, Outcome> {
    let mut real = crate::imp::Exp::default();
    let mut m: Vec<(J, J)> = vec![];
    let mut effects = 0;
    for op in ops {
        let (o, j) = match op.items().get(1).and_then(norm::<Obj>) {
            Some(x) => x,
            None => return Ok(0),
        };
        let c = super::p13::canon(&J::Arr(vec![j.clone()]), false);
        let new = !m.iter().any(|(x, _)| *x == c);
        if real.insert(o.clone()) != new {
            return Err(Outcome::fail("document: insertion", ""));
        }
        if new {
            effects += 1;
            m.push((c, j))
        }
        if real.len() != m.len() || !real.objects().contains(&o) {
            return Err(Outcome::fail("document: objects", ""));
        }
        let all: Vec<J> = real.iter().map(js).collect();
        if all != m.iter().map(|x| x.1.clone()).collect::<Vec<_>>() {
            return Err(Outcome::fail("document: content", ""));
        }
    }
    let again: crate::imp::Exp = real.clone().into_iter().collect();
    if again != real {
        return Err(Outcome::fail("document: collected again", ""));
    }
    Ok(effects)
}

fn node(ops: &[J]) -> Result<usize, Outcome> {
    let mut real: json_ld::Node = json_ld::Node::new();
    let mut m = J::Obj(vec![]);
    let mut no_types = false;
    let mut effects = 0;
    fn many<T: IntoJsonWithContext<()> + Clone + TryFromJson<iref::IriBuf, rdf_types::BlankIdBuf>>(j: &J) -> Option<Vec<(T, J)>> {
        j.items().iter().map(norm::<T>).collect()
    }
    fn set<T: IntoJsonWithContext<()> + Clone>(v: Vec<(T, J)>) -> (Vec<T>, J) {
        let mut seen: Vec<J> = vec![];
        let mut js = vec![];
        let mut r = vec![];
        for (o, j) in v {
            let c = super::p13::canon(&J::Arr(vec![j.clone()]), false);
            if !seen.contains(&c) {
                seen.push(c);
                js.push(j)
            }
            r.push(o)
        }
        (r, J::Arr(js))
    }
    for op in ops {
        let a = op.items();
        let name = a.first().and_then(|n| n.as_str()).unwrap_or("");
        let x = a.get(1).and_then(|x| x.as_str());
        let before = m.clone();
        match (name, a.get(1)) {
            ("type", Some(J::Str(t))) => {
                real.types_mut_or_default().push(id(t));
                let mut v = m.get("@type").map(|t| t.items().to_vec()).unwrap_or_default();
                v.push(s(t));
                m.set("@type", J::Arr(v));
                no_types = false
            }
            ("types", _) => {
                // an empty list, or the types there are
                let n = real.types_mut_or_default().len();
                if n != m.get("@type").map(|t| t.items().len()).unwrap_or(0) {
                    return Err(Outcome::fail("node: number of types", ""));
                }
                no_types = n == 0
            }
            ("graph", Some(J::Null)) => {
                real.set_graph_entry(None);
                m.remove("@graph");
            }
            ("graph", Some(x)) => {
                let (o, j) = match many::<Obj>(x) {
                    Some(x) => set(x),
                    None => return Ok(0),
                };
                real.set_graph_entry(Some(o.into_iter().collect()));
                m.set("@graph", j)
            }
            ("included", Some(J::Null)) => {
                real.set_included(None);
                m.remove("@included");
            }
            ("included", Some(x)) => {
                let (o, j) = match many::<INode>(x) {
                    Some(x) => set(x),
                    None => return Ok(0),
                };
                real.set_included(Some(o.into_iter().collect()));
                m.set("@included", j)
            }
            ("reverse", Some(J::Str(p))) => {
                let v = match a.get(2).and_then(many::<INode>) {
                    Some(v) => v,
                    None => return Ok(0),
                };
                let mut r = m.get("@reverse").cloned().unwrap_or(J::Obj(vec![]));
                let mut l = r.get(p).map(|t| t.items().to_vec()).unwrap_or_default();
                l.extend(v.iter().map(|x| x.1.clone()));
                r.set(p, J::Arr(l));
                m.set("@reverse", r);
                real.reverse_properties_or_default().insert_all(id(p), v.into_iter().map(|x| x.0))
            }
            ("id", Some(x)) => {
                real.id = x.as_str().map(id);
                match x {
                    J::Null => {
                        m.remove("@id");
                    }
                    x => m.set("@id", x.clone()),
                }
            }
            ("insert" | "insert_all", Some(J::Str(p))) => {
                let list = if name == "insert" { a.get(2).map(|x| J::Arr(vec![x.clone()])) } else { a.get(2).cloned() };
                let v = match list.as_ref().and_then(many::<Obj>) {
                    Some(v) => v,
                    None => return Ok(0),
                };
                let mut l = m.get(p).map(|t| t.items().to_vec()).unwrap_or_default();
                l.extend(v.iter().map(|x| x.1.clone()));
                m.set(p, J::Arr(l));
                if name == "insert" {
                    for (o, _) in v {
                        real.insert(id(p), o)
                    }
                } else {
                    real.insert_all(id(p), v.into_iter().map(|x| x.0))
                }
            }
            _ => return Ok(0),
        }
        if m != before {
            effects += 1
        }
        let bad = |what: &str| Err(Outcome::fail(format!("node, {name}: {what}"), m.to_text()));
        if js(&real).sorted_keys() != m.sorted_keys() {
            return bad("content");
        }
        let i = Indexed::new(real.clone(), x.map(str::to_string));
        let mut mi = m.clone();
        if let Some(x) = x {
            mi.set("@index", s(x))
        }
        if js(&i).sorted_keys() != mi.sorted_keys() {
            return bad("content, indexed");
        }
        if !no_types {
            let again = read::<INode>(&m).map(|n| n.into_inner());
            if again.as_ref() != Some(&real) {
                return bad("not equal to what it is in JSON");
            }
            let rest: Vec<&str> = m.as_obj().into_iter().flatten().map(|x| x.0.as_str()).filter(|k| *k != "@id").collect();
            if real.is_empty() != rest.is_empty() || real.is_graph() != (rest == ["@graph"]) {
                return bad("empty or graph");
            }
            let named = m.has("@id");
            match real.clone().into_unnamed_graph() {
                Ok(g) => {
                    if named || rest != ["@graph"] || g.len() != m.get("@graph").map(|g| g.items().len()).unwrap_or(0) {
                        return bad("unnamed graph");
                    }
                }
                Err(n) => {
                    if n != real || (!named && rest == ["@graph"]) {
                        return bad("not an unnamed graph");
                    }
                }
            }
        }
    }
    Ok(effects)
}

fn check(c: &J, tags: &mut Tags) -> Outcome {
    let empty = J::Arr(vec![]);
    let ops = c.get("operations").unwrap_or(&empty).items();
    let r = match c.get("kind").and_then(|k| k.as_str()) {
        Some("properties") => {
            tags.tag("properties");
            forward(ops, tags)
        }
        Some("reverse") => {
            tags.tag("reverse");
            reverse(ops, tags)
        }
        Some("graph") => {
            tags.tag("graph");
            graph(ops, tags)
        }
        Some("string") => {
            tags.tag("string");
            string(ops)
        }
        Some("context") => {
            tags.tag("context");
            context(ops, tags)
        }
        Some("document") => {
            tags.tag("document");
            document(ops)
        }
        Some("node") => {
            tags.tag("node");
            node(ops)
        }
        _ => Ok(0),
    };
    match r {
        Ok(n) => Outcome::pass(n > 2),
        Err(o) => o,
    }
}
