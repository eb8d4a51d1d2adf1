//! What is read from a document through its accessors is what the document says.
use super::{p07, p13};
use crate::engine::{Outcome, Prop, Tags};
use crate::imp;
use crate::j::{s, J};
use crate::src::Src;
use json_ld::object::{list, node, value, EntryKeyRef, FragmentRef, Ref};
use json_ld::{Id, Object, Term};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "P20",
    quick: 150000,
    thorough: 2500000,
    rule: "random expanded documents read through traversals, entries and accessors; non-trivial: documents of at least three objects",
    assumptions: &["documents are read from JSON in expanded form", "nothing is said of the order of traversals"],
    gen,
    check,
};

fn gen(g: &mut Src) -> J {
    let mut a = p07::raw_expanded(g);
    for _ in 0..g.weighted(&[3, 2, 1]) {
        p13::change(g, &mut a, "");
    }
    if g.chance(1, 4) {
        blank_keys(g, &mut a);
    }
    a
}

/// Uses blank node identifiers as properties.
pub fn blank_keys(g: &mut Src, j: &mut J) {
    match j {
        J::Arr(a) => a.iter_mut().for_each(|x| blank_keys(g, x)),
        J::Obj(e) if !e.iter().any(|(k, _)| k == "@value") => {
            for (k, x) in e.iter_mut() {
                blank_keys(g, x);
                if (k.ends_with("/s") || k.ends_with("/q")) && g.chance(1, 3) {
                    *k = if k.ends_with("/s") { "_:s" } else { "_:q" }.into()
                }
            }
        }
        _ => (),
    }
}

type Exp = imp::Exp;
type Obj = json_ld::Indexed<Object>;
type Node = json_ld::Node;
type Bag = BTreeMap<String, usize>;

fn add(b: &mut Bag, k: impl Into<String>) {
    *b.entry(k.into()).or_default() += 1
}

/// What a traversal should find.
#[derive(Default, PartialEq, Debug)]
struct Found {
    objects: usize,
    arrays: usize,
    values: usize,
    nodes: usize,
    lists: usize,
    ids: Bag,
    keys: Bag,
    indexes: Bag,
    texts: Bag,
}

fn json(j: &J, f: &mut Found) {
    match j {
        J::Arr(a) => {
            f.arrays += 1;
            a.iter().for_each(|x| json(x, f))
        }
        J::Obj(e) => {
            f.objects += 1;
            e.iter().for_each(|(_, x)| json(x, f))
        }
        _ => (),
    }
}

fn expect(j: &J, f: &mut Found) {
    let e = match j {
        J::Obj(e) => e,
        _ => return,
    };
    f.objects += 1;
    let (v, l) = (j.has("@value"), j.has("@list"));
    *if v {
        &mut f.values
    } else if l {
        &mut f.lists
    } else {
        &mut f.nodes
    } += 1;
    for (k, x) in e {
        add(&mut f.keys, k.as_str());
        match k.as_str() {
            "@index" => add(&mut f.indexes, x.as_str().unwrap_or("")),
            "@value" => {
                if j.get("@type") == Some(&s("@json")) {
                    json(x, f)
                } else {
                    add(&mut f.texts, x.to_text())
                }
            }
            "@id" => add(&mut f.ids, x.as_str().unwrap_or("")),
            "@type" if v => {
                if x != &s("@json") {
                    add(&mut f.ids, x.as_str().unwrap_or(""))
                }
            }
            "@type" => {
                f.arrays += 1;
                x.items().iter().for_each(|t| add(&mut f.ids, t.as_str().unwrap_or("")))
            }
            "@reverse" => {
                f.objects += 1;
                for (p, x) in x.as_obj().into_iter().flatten() {
                    f.arrays += 1;
                    add(&mut f.keys, p.as_str());
                    add(&mut f.ids, p.as_str());
                    x.items().iter().for_each(|o| expect(o, f))
                }
            }
            "@language" | "@direction" => (),
            k => {
                if !k.starts_with('@') {
                    add(&mut f.ids, k)
                }
                f.arrays += 1;
                x.items().iter().for_each(|o| expect(o, f))
            }
        }
    }
}

fn found<'a>(t: impl Iterator<Item = FragmentRef<'a, iref::IriBuf, rdf_types::BlankIdBuf>>) -> Result<Found, String> {
    let mut f = Found::default();
    for x in t {
        if x.is_json_object() {
            f.objects += 1
        }
        if x.is_json_array() {
            f.arrays += 1
        }
        let id = x.as_id().map(|i| i.to_string());
        match &x {
            FragmentRef::IndexValue(i) => add(&mut f.indexes, *i),
            FragmentRef::IndexKey => add(&mut f.keys, "@index"),
            FragmentRef::ValueFragment(value::FragmentRef::Key(k)) => add(&mut f.keys, k.as_str()),
            FragmentRef::ListFragment(list::FragmentRef::Key) => add(&mut f.keys, "@list"),
            FragmentRef::NodeFragment(node::FragmentRef::Key(k)) => add(&mut f.keys, k.as_str()),
            FragmentRef::ValueFragment(value::FragmentRef::Value(value::EntryValueRef::Value(v))) => match v {
                value::ValueEntryRef::Literal(l) => add(&mut f.texts, J::from_js(&(*l).clone().into_json()).to_text()),
                value::ValueEntryRef::LangString(t) => add(&mut f.texts, s(*t).to_text()),
                value::ValueEntryRef::Json(_) => (),
            },
            _ => (),
        }
        if x.is_json_object() && x.is_json_array() {
            return Err("both an object and an array".into());
        }
        let r = match x {
            FragmentRef::Object(_) | FragmentRef::IndexedObject(_) | FragmentRef::Node(_) | FragmentRef::IndexedNode(_) => x.into_ref(),
            x => {
                if x.into_id().map(|i| i.to_string()) != id {
                    return Err("into_id and as_id".into());
                }
                if let Some(i) = id {
                    add(&mut f.ids, i)
                }
                None
            }
        };
        match r {
            Some(Ref::Value(_)) => f.values += 1,
            Some(Ref::Node(_)) => f.nodes += 1,
            Some(Ref::List(_)) => f.lists += 1,
            None => (),
        }
    }
    Ok(f)
}

fn compare(what: &str, want: &Found, got: Result<Found, String>) -> Result<(), Outcome> {
    let got = got.map_err(|e| Outcome::fail(format!("{what}: {e}"), ""))?;
    let fields = [
        ("objects", want.objects == got.objects),
        ("arrays", want.arrays == got.arrays),
        ("values", want.values == got.values),
        ("nodes", want.nodes == got.nodes),
        ("lists", want.lists == got.lists),
        ("identifiers", want.ids == got.ids),
        ("keys", want.keys == got.keys),
        ("indexes", want.indexes == got.indexes),
        ("literals", want.texts == got.texts),
    ];
    match fields.iter().find(|(_, ok)| !ok) {
        Some((f, _)) => Err(Outcome::fail(format!("{what}: {f}"), format!("expected {want:?}\nfound {got:?}"))),
        None => Ok(()),
    }
}

fn sig(what: &str, j: &J) -> Result<(), Outcome> {
    Err(Outcome::fail(what, j.to_text()))
}

fn keys(j: &J) -> Vec<&str> {
    let mut k: Vec<&str> = j.as_obj().into_iter().flatten().map(|(k, _)| k.as_str()).collect();
    k.sort();
    k
}

fn js<T: json_ld::syntax::IntoJsonWithContext<()> + Clone>(x: &T) -> J {
    J::from_js(&x.clone().into_json_with(&()))
}

fn object(o: &Obj, j: &J) -> Result<(), Outcome> {
    let str_of = |k: &str| j.get(k).and_then(|x| x.as_str());
    // entries
    let mut names: Vec<&str> = o.entries().map(|e| e.into_key().into_str()).collect();
    names.sort();
    if o.entries().len() != names.len() {
        return sig("object: number of entries", j);
    }
    if names != keys(j) {
        return sig("object: entries", j);
    }
    for e in o.entries() {
        use contextual::IntoRefWithContext;
        let k = e.key();
        let w: &str = k.into_ref_with(&());
        if k.as_str() != w {
            return sig("object: name of the entry in the vocabulary", j);
        }
        if k.as_keyword().map(|k| k.into_str()) != (if w.starts_with('@') { Some(w) } else { None }) {
            return sig("object: keyword of the entry", j);
        }
        if let (_, json_ld::object::IndexedEntryValueRef::Index(i)) = e.into_key_value() {
            if Some(i) != str_of("@index") {
                return sig("object: index entry", j);
            }
        }
    }
    if o.inner().entries().any(|e| matches!(e.key(), EntryKeyRef::List) != j.has("@list") && j.has("@list")) {
        return sig("object: list entry", j);
    }
    if o.index() != str_of("@index") {
        return sig("object: index", j);
    }
    let kinds = (o.is_value(), o.is_list(), o.is_node());
    if kinds != (j.has("@value"), j.has("@list"), !j.has("@value") && !j.has("@list")) {
        return sig("object: kind", j);
    }
    if kinds != (o.as_value().is_some(), o.as_list().is_some(), o.as_node().is_some()) {
        return sig("object: as kind", j);
    }
    let c = || o.clone().into_inner();
    if kinds != (c().into_value().is_some(), c().into_list().is_some(), c().into_node().is_some()) {
        return sig("object: into kind", j);
    }
    let into = (
        o.clone().into_indexed_value().map(|x| x.index().map(str::to_owned)),
        o.clone().into_indexed_list().map(|x| x.index().map(str::to_owned)),
        o.clone().into_indexed_node().map(|x| x.index().map(str::to_owned)),
    );
    let ix = str_of("@index").map(str::to_owned);
    let some = |b: bool| if b { Some(ix.clone()) } else { None };
    if into != (some(kinds.0), some(kinds.1), some(kinds.2)) {
        return sig("object: into indexed kind", j);
    }
    if o.id().map(|i| i.as_str().to_owned()) != str_of("@id").map(str::to_owned) {
        return sig("object: identifier", j);
    }
    let iri = str_of("@id").filter(|i| !i.starts_with("_:") && iref::Iri::new(*i).is_ok());
    if o.as_iri().map(|i| i.as_str()) != iri {
        return sig("object: IRI", j);
    }
    let want_types: Vec<&str> = j.get("@type").map(|t| t.items().iter().filter_map(|t| t.as_str()).collect()).unwrap_or_default();
    let types: Vec<String> = o.types().map(|t| t.cloned().as_str().to_owned()).collect();
    if types != want_types {
        return sig("object: types", j);
    }
    let graph = j.has("@graph") && keys(j).iter().all(|k| ["@id", "@graph", "@index"].contains(k));
    if o.is_graph() != graph {
        return sig("object: is a graph", j);
    }
    let unnamed = keys(j) == ["@graph"];
    match o.clone().into_unnamed_graph() {
        Ok(g) => {
            let items = j.get("@graph").map(|g| g.items()).unwrap_or(&[]);
            if !unnamed || g.iter().map(js).collect::<Vec<_>>() != items {
                return sig("object: into unnamed graph", j);
            }
        }
        Err(x) => {
            if unnamed || js(&x) != *j {
                return sig("object: not an unnamed graph", j);
            }
        }
    }
    // its own traversal
    let mut want = Found::default();
    expect(j, &mut want);
    if let Some(i) = str_of("@index") {
        // not an entry of the object itself
        want.indexes.entry(i.to_owned()).and_modify(|n| *n -= 1);
        want.indexes.retain(|_, n| *n > 0);
        want.keys.entry("@index".into()).and_modify(|n| *n -= 1);
        want.keys.retain(|_, n| *n > 0);
    }
    compare("object traversal", &want, found(o.inner().traverse()))?;
    let literal = j.get("@value").filter(|_| j.get("@type") != Some(&s("@json")));
    match o.inner() {
        Object::Value(v) => {
            if o.as_str() != literal.and_then(|x| x.as_str()) {
                return sig("value: string", j);
            }
            if o.as_bool() != literal.and_then(|x| if let J::Bool(b) = x { Some(*b) } else { None }) {
                return sig("value: boolean", j);
            }
            if o.as_number().map(|n| n.as_str()) != literal.and_then(|x| if let J::Num(n) = x { Some(n.as_str()) } else { None }) {
                return sig("value: number", j);
            }
            if o.language().map(|l| l.as_str()) != str_of("@language") {
                return sig("value: language", j);
            }
            if v.direction().map(|d| d.as_str()) != str_of("@direction") {
                return sig("value: direction", j);
            }
            let tagged = j.has("@language") || j.has("@direction");
            if v.as_literal().map(|(l, t)| (J::from_js(&l.clone().into_json()), t.map(|t| t.as_str())))
                != literal.filter(|_| !tagged).map(|l| (l.clone(), str_of("@type")))
            {
                return sig("value: literal", j);
            }
            if v.literal_type().map(|t| t.as_str()) != str_of("@type").filter(|t| *t != "@json") {
                return sig("value: literal type", j);
            }
        }
        Object::List(l) => {
            let items = j.get("@list").map(|l| l.items()).unwrap_or(&[]);
            if l.len() != items.len() || l.is_empty() != items.is_empty() || l.as_slice().len() != items.len() {
                return sig("list: length", j);
            }
            if o.as_str().is_some() || o.as_bool().is_some() || o.id().is_some() {
                return sig("list: read as something else", j);
            }
            for (o, x) in l.iter().zip(items) {
                object(o, x)?
            }
        }
        Object::Node(n) => {
            if o.as_str() != iri && !str_of("@id").is_some_and(|i| i.starts_with("_:")) {
                return sig("node: as a string", j);
            }
            node(n, j)?
        }
    }
    Ok(())
}

fn node(n: &Node, j: &J) -> Result<(), Outcome> {
    for k in ["Id", "Type", "Graph", "Included", "Reverse"] {
        let name = format!("@{}", k.to_lowercase());
        let kw = json_ld::syntax::Keyword::try_from(name.as_str()).unwrap();
        if n.has_key(&Term::Keyword(kw)) != j.has(&name) {
            return sig("node: has the keyword", j);
        }
    }
    let own: Vec<&(String, J)> = j.as_obj().into_iter().flatten().filter(|(k, _)| !k.starts_with('@')).collect();
    if n.properties().len() != own.len() || n.properties().is_empty() != own.is_empty() {
        return sig("node: number of properties", j);
    }
    let others = ["http://ex.org/p", "http://ex.org/q", "http://p.org/ns#r", "http://ex.org/s", "_:s", "http://ex.org/T", "http://ex.org/none", "_:x"];
    for k in others.into_iter().map(str::to_owned).chain(own.iter().map(|(k, _)| k.clone())).collect::<BTreeSet<_>>() {
        let id: Id = Id::from_string(k.clone());
        let want = own.iter().find(|(x, _)| *x == k).map(|(_, v)| v);
        if n.has_key(&Term::Id(id.clone())) != want.is_some() || n.properties().contains(&id) != want.is_some() {
            return sig("node: has the property", j);
        }
        let got: Vec<J> = n.get(&id).map(js).collect();
        if got != want.map(|w| w.items().to_vec()).unwrap_or_default() {
            return sig("node: objects of the property", j);
        }
        match (n.get_any(&id), want.map(|w| w.items())) {
            (Some(o), Some(w)) if w.contains(&js(o)) => (),
            (None, None | Some([])) => (),
            _ => return sig("node: any object of the property", j),
        }
        if let Ok(i) = iref::Iri::new(k.as_str()) {
            if n.get(&i).count() != got.len() {
                return sig("node: objects of the property, by its IRI", j);
            }
        }
        let rev = j.get("@reverse").and_then(|r| r.get(&k)).map(|r| r.items().len());
        if let Some(r) = n.reverse_properties() {
            if r.contains(&id) != rev.is_some() || r.get(&id).count() != rev.unwrap_or(0) || r.get_any(&id).is_some() != (rev.unwrap_or(0) > 0) {
                return sig("node: nodes of the reverse property", j);
            }
        } else if rev.is_some() {
            return sig("node: no reverse properties", j);
        }
        let has = j.get("@type").is_some_and(|t| t.items().contains(&s(&k)));
        if n.has_type(&id) != has {
            return sig("node: has the type", j);
        }
    }
    let rest: Vec<&str> = keys(j).into_iter().filter(|k| *k != "@id" && *k != "@index").collect();
    if n.is_empty() != rest.is_empty() {
        return sig("node: is empty", j);
    }
    if n.is_graph() != (rest == ["@graph"]) {
        return sig("node: is a graph", j);
    }
    let unnamed = rest == ["@graph"] && !j.has("@id");
    if n.is_simple_graph() != unnamed || n.is_unnamed_graph() != unnamed {
        return sig("node: is a simple graph", j);
    }
    if n.graph().map(|g| g.len()) != j.get("@graph").map(|g| g.items().len()) {
        return sig("node: graph", j);
    }
    if n.included().map(|g| g.len()) != j.get("@included").map(|g| g.items().len()) {
        return sig("node: included", j);
    }
    if n.entries().len() != n.entries().count() {
        return sig("node: number of entries", j);
    }
    for (k, os) in n.properties() {
        let want = j.get(k.as_str()).map(|w| w.items()).unwrap_or(&[]);
        if os.len() != want.len() {
            return sig("node: objects", j);
        }
        for (o, w) in os.iter().zip(want) {
            object(o, w)?
        }
    }
    let empty = J::Arr(vec![]);
    for (o, w) in n.graph().into_iter().flatten().zip(j.get("@graph").unwrap_or(&empty).items()) {
        object(o, w)?
    }
    for (o, w) in n.included().into_iter().flatten().zip(j.get("@included").unwrap_or(&empty).items()) {
        let mut names: Vec<&str> = o.entries().map(|e| e.into_key().into_str()).collect();
        names.sort();
        if names != keys(w) || o.entries().len() != names.len() {
            return sig("included node: entries", j);
        }
        node(o, w)?
    }
    for (p, os) in n.reverse_properties().into_iter().flatten() {
        let want = j.get("@reverse").and_then(|r| r.get(p.as_str())).map(|w| w.items()).unwrap_or(&[]);
        for (o, w) in os.iter().zip(want) {
            node(o, w)?
        }
    }
    Ok(())
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let mut odd = false;
    j.walk(&mut |x| odd |= x.get("@type").is_some_and(|t| t.as_arr().is_some_and(|t| t.is_empty())));
    if odd {
        // an empty list of types is a property of the document or not
        return Outcome::pass(false);
    }
    let e: Exp = match imp::exp_from_j(j) {
        Ok(e) => e,
        Err(_) => return Outcome::pass(false),
    };
    let j = imp::exp_to_j(&e);
    match all(&e, &j, tags) {
        Ok(n) => Outcome::pass(n),
        Err(o) => o,
    }
}

fn all(e: &Exp, j: &J, tags: &mut Tags) -> Result<bool, Outcome> {
    let mut want = Found::default();
    j.items().iter().for_each(|o| expect(o, &mut want));
    compare("traversal", &want, found(e.traverse()))?;
    let n = e.count(|f| f.is_json_object());
    if n != want.objects {
        sig("count", j)?
    }
    let blanks: BTreeSet<String> = e.blank_ids().into_iter().map(|b| b.to_string()).collect();
    let all: BTreeSet<String> = want.ids.keys().filter(|k| k.starts_with("_:")).cloned().collect();
    if blanks != all {
        sig("blank identifiers", j)?
    }
    if e.len() != j.items().len() || e.is_empty() != j.items().is_empty() {
        sig("number of objects", j)?
    }
    let nodes: Vec<&J> = j.items().iter().filter(|o| !o.has("@value") && !o.has("@list")).collect();
    let strip = |j: &J| {
        let mut j = j.clone();
        j.remove("@index");
        j
    };
    let main = if let [n] = nodes[..] { Some(strip(n)) } else { None };
    if e.main_node().map(js) != main {
        sig("main node", j)?
    }
    if e.clone().into_main_node().map(|n| js(&n)) != main {
        sig("into main node", j)?
    }
    for (o, x) in e.iter().zip(j.items()) {
        object(o, x)?
    }
    // printed
    {
        use contextual::WithContext;
        use json_ld::Print;
        let d = e.with(&());
        for (how, text) in [
            ("pretty", d.pretty_print().to_string()),
            ("inline", d.inline_print().to_string()),
            ("compact", d.compact_print().to_string()),
        ] {
            match J::parse(&text) {
                Some(p) if p.sorted_keys() == j.sorted_keys() => (),
                _ => return Err(Outcome::fail(format!("{how} printing"), format!("{j}\n{text}"))),
            }
            if how == "compact" && text.len() > j.to_text().len() {
                return Err(Outcome::fail("compact printing is not compact", format!("{j}\n{text}")));
            }
        }
    }
    if want.lists > 0 {
        tags.tag("list")
    }
    if j.contains_key_deep("@reverse") {
        tags.tag("reverse")
    }
    if j.contains_key_deep("@included") {
        tags.tag("included")
    }
    if want.ids.keys().any(|k| k == "_:s") {
        tags.tag("blank property")
    }
    Ok(want.values + want.nodes + want.lists > 2)
}
