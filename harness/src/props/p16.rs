//! Contexts are read, written, printed and iterated without losing or inventing anything.
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::{Cfg, World};
use crate::j::{diff, s, J};
use crate::props::p19;
use crate::src::Src;
use json_ld::syntax::context::definition::{self, KeyOrKeyword};
use json_ld::syntax::context::{term_definition, Context, ContextDocument, ContextEntry, Definition, FragmentRef, TermDefinition};
use json_ld::syntax::{Container, IntoJson, Keyword, Nullable, Print, TryFromJson};
use json_syntax::print::Options;

pub const PROP: Prop = Prop {
    id: "P16",
    quick: 150000,
    thorough: 2000000,
    rule: "random local contexts, half of them with random damage; non-trivial: the context is accepted and defines something",
    assumptions: &["entries with the same key in one object are not generated", "the order of entries in a context is not kept"],
    gen,
    check,
};

fn gen(g: &mut Src) -> J {
    let mut w = World::new(Cfg { shared_iris: g.chance(1, 3), ..Cfg::default() });
    w.remote_contexts(g);
    let mut c = w.context(g, 3);
    if g.chance(1, 6) {
        more(g, &mut c);
    }
    for _ in 0..g.weighted(&[4, 3, 1]) {
        p19::damage(g, &mut c, 0);
    }
    if g.chance(1, 10) {
        c = p19::soup(g, 4);
    }
    unique(c)
}

/// Rare entries.
fn more(g: &mut Src, c: &mut J) {
    match c {
        J::Arr(a) => a.iter_mut().for_each(|x| more(g, x)),
        J::Obj(e) => {
            match g.below(6) {
                0 => e.push(("@version".into(), J::Num("1.1".into()))),
                1 => e.push((
                    "@type".into(),
                    J::Obj(if g.bool() {
                        vec![("@container".into(), s("@set"))]
                    } else {
                        vec![("@container".into(), s("@set")), ("@protected".into(), J::Bool(g.bool()))]
                    }),
                )),
                2 => e.push(("@propagate".into(), J::Bool(g.bool()))),
                3 => e.push(("@import".into(), s("c0.jsonld"))),
                4 => e.push(("x".into(), J::Obj(vec![("@container".into(), J::Arr(vec![])), ("@language".into(), J::Null), ("@direction".into(), J::Null)]))),
                _ => e.push(("é \"\n\\\u{1}".into(), J::Obj(vec![("@id".into(), s("a\"b\tc")), ("@prefix".into(), J::Bool(g.bool())), ("@propagate".into(), J::Bool(true))]))),
            }
            for (_, v) in e.iter_mut() {
                if v.is_obj() && g.chance(1, 4) {
                    if let Some(c) = v.get_mut("@context") {
                        more(g, c)
                    }
                }
            }
        }
        _ => (),
    }
}

/// Without repeated keys.
pub fn unique(j: J) -> J {
    match j {
        J::Arr(a) => J::Arr(a.into_iter().map(unique).collect()),
        J::Obj(e) => {
            let mut r: Vec<(String, J)> = vec![];
            for (k, v) in e {
                if !r.iter().any(|(x, _)| *x == k) {
                    r.push((k, unique(v)));
                }
            }
            J::Obj(r)
        }
        o => o,
    }
}

fn version(j: J) -> J {
    match j {
        J::Arr(a) => J::Arr(a.into_iter().map(version).collect()),
        J::Obj(e) => J::Obj(
            e.into_iter()
                .map(|(k, v)| match v {
                    J::Num(_) if k == "@version" => (k, J::Num("1.1".into())),
                    v => (k, version(v)),
                })
                .collect(),
        ),
        o => o,
    }
}

fn nullable<T>(n: Nullable<T>, f: impl Fn(T) -> J) -> J {
    match n {
        Nullable::Null => J::Null,
        Nullable::Some(x) => f(x),
    }
}

fn container_j(c: &Container) -> J {
    match c {
        Container::One(c) => s(c.as_str()),
        Container::Many(m) => J::Arr(m.iter().map(|c| s(c.as_str())).collect()),
    }
}

fn term_value(v: term_definition::EntryValueRef) -> J {
    use term_definition::EntryValueRef as V;
    match v {
        V::Id(x) => nullable(x, |x| s(x.as_str())),
        V::Type(x) => nullable(x, |x| s(x.as_str())),
        V::Context(c) => context_j(c),
        V::Reverse(k) => s(k.as_str()),
        V::Index(k) => s(k.as_str()),
        V::Language(x) => nullable(x, |x| s(x.as_str())),
        V::Direction(x) => nullable(x, |x| s(x.as_str())),
        V::Container(x) => nullable(x, container_j),
        V::Nest(x) => s(x.as_str()),
        V::Prefix(b) | V::Propagate(b) | V::Protected(b) => J::Bool(b),
    }
}

fn term_j(d: &TermDefinition) -> J {
    match d {
        TermDefinition::Simple(x) => s(x.as_str()),
        TermDefinition::Expanded(e) => J::Obj(e.iter().map(|e| (e.key().as_str().to_string(), term_value(e.value()))).collect()),
    }
}

fn entry_value(v: definition::EntryValueRef) -> J {
    use definition::EntryValueRef as V;
    match v {
        V::Base(x) => nullable(x, |x| s(x.as_str())),
        V::Import(x) => s(x.as_str()),
        V::Language(x) => nullable(x, |x| s(x.as_str())),
        V::Direction(x) => nullable(x, |x| s(x.as_str())),
        V::Propagate(b) | V::Protected(b) => J::Bool(b),
        V::Type(t) => J::Obj(
            t.iter()
                .map(|e| {
                    (
                        e.key().as_str().to_string(),
                        match e {
                            definition::ContextTypeEntry::Container(c) => s(c.as_str()),
                            definition::ContextTypeEntry::Protected(b) => J::Bool(b),
                        },
                    )
                })
                .collect(),
        ),
        V::Version(v) => J::Num(v.into_str().to_string()),
        V::Vocab(x) => nullable(x, |x| s(x.as_str())),
        V::Definition(x) => nullable(x, term_j),
    }
}

/// The context as told by its iterators.
fn context_j(c: &Context) -> J {
    let entry = |e: &ContextEntry| match e {
        ContextEntry::Null => J::Null,
        ContextEntry::IriRef(i) => s(i.as_str()),
        ContextEntry::Definition(d) => J::Obj(d.iter().map(|e| (e.key().as_str().to_string(), entry_value(e.value()))).collect()),
    };
    match c {
        Context::One(e) => entry(e),
        Context::Many(m) => J::Arr(m.iter().map(entry).collect()),
    }
}

/// Fragments of a context: (arrays, objects, entries), in the JSON form.
fn count(j: &J) -> (usize, usize, usize) {
    let mut n = (0, 0, 0);
    j.walk(&mut |x| match x {
        J::Arr(_) => n.0 += 1,
        J::Obj(e) => {
            n.1 += 1;
            n.2 += e.len()
        }
        _ => (),
    });
    n
}

/// Whether a fragment is an entry, or a key.
fn what(f: &FragmentRef) -> (bool, bool) {
    match f {
        FragmentRef::DefinitionFragment(definition::FragmentRef::TermDefinitionFragment(term_definition::FragmentRef::ContextFragment(f))) => what(f),
        FragmentRef::DefinitionFragment(f) => (f.is_entry(), f.is_key()),
        _ => (false, false),
    }
}

fn definition(d: &Definition, j: &J) -> Option<String> {
    let e = j.as_obj()?;
    let mut i = d.iter();
    let mut left = e.len();
    loop {
        if i.len() != left {
            return Some(format!("{} entries said to be left, {left} are", i.len()));
        }
        if i.next().is_none() {
            break;
        }
        left = left.checked_sub(1)?;
    }
    let bound = e.iter().filter(|(k, _)| Keyword::try_from(k.as_str()).is_err()).count();
    if d.bindings.len() != bound || d.bindings.is_empty() != (bound == 0) || d.bindings.iter().rev().count() != bound || d.bindings.iter().len() != bound {
        return Some(format!("{bound} bindings expected"));
    }
    for (n, (k, x)) in d.bindings.iter().enumerate() {
        if d.bindings.get_entry(n) != Some((k, x)) || d.get_binding(k) != Some(x) || d.bindings.get(k) != Some(x) {
            return Some(format!("binding {n}, {k}"));
        }
    }
    for k in e.iter().map(|(k, _)| k.as_str()).chain(["@base", "@import", "@type", "@vocab", "@version", "@language", "@direction", "@propagate", "@protected", "@id", "absent"]) {
        let key = match Keyword::try_from(k) {
            Ok(k) => KeyOrKeyword::Keyword(k),
            Err(_) => KeyOrKeyword::Key(k.into()),
        };
        let got = d.get(&key).map(entry_value);
        if got.as_ref().map(|x| x.sorted_keys()) != j.get(k).map(|x| x.sorted_keys()) {
            return Some(format!("get({k}) gives {got:?}"));
        }
    }
    for (k, x) in d.bindings.iter() {
        if let Nullable::Some(TermDefinition::Expanded(x)) = x {
            let left = j.get(k.as_str()).map(|j| j.len());
            let mut i = x.iter();
            for n in (0..=left.unwrap_or(0)).rev() {
                if i.len() != n {
                    return Some(format!("{} entries said to be left in {k}, {n} are", i.len()));
                }
                i.next();
            }
            let r = x.as_expanded_ref();
            let j = j.get(k.as_str())?;
            let back = [
                ("@id", r.id.map(|x| nullable(x, |x| s(x.as_str())))),
                ("@type", r.type_.map(|x| nullable(x, |x| s(x.as_str())))),
                ("@context", r.context.map(context_j)),
                ("@reverse", r.reverse.map(|x| s(x.as_str()))),
                ("@index", r.index.map(|x| s(x.as_str()))),
                ("@language", r.language.map(|x| nullable(x, |x| s(x.as_str())))),
                ("@direction", r.direction.map(|x| nullable(x, |x| s(x.as_str())))),
                ("@container", r.container.map(|x| nullable(x, container_j))),
                ("@nest", r.nest.map(|x| s(x.as_str()))),
                ("@prefix", r.prefix.map(J::Bool)),
                ("@propagate", r.propagate.map(J::Bool)),
                ("@protected", r.protected.map(J::Bool)),
            ];
            for (n, x) in back {
                if x.as_ref().map(|x| x.sorted_keys()) != j.get(n).map(|x| x.sorted_keys()) {
                    return Some(format!("{n} of {k} is {x:?}"));
                }
            }
            if let Some(f) = x.context.as_ref().and_then(|c| j.get("@context").and_then(|j| shape(c, j))) {
                return Some(f);
            }
        }
    }
    None
}

fn shape(c: &Context, j: &J) -> Option<String> {
    let n = if let J::Arr(a) = j { a.len() } else { 1 };
    if c.len() != n
        || c.is_empty() != (n == 0)
        || c.is_array() != j.is_arr()
        || c.is_object() != j.is_obj()
        || c.as_slice().len() != n
        || c.iter().count() != n
        || c.clone().into_iter().count() != n
        || (&*c).into_iter().count() != n
    {
        return Some("number of entries".into());
    }
    for (e, j) in c.iter().zip(j.items()) {
        if e.is_object() != j.is_obj() {
            return Some("kind of entry".into());
        }
        if let ContextEntry::Definition(d) = e {
            if let Some(f) = definition(d, j) {
                return Some(f);
            }
        }
    }
    None
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let j = unique(j.clone());
    if j.depth() > 60 {
        return Outcome::pass(false);
    }
    let c = match Context::try_from_json(j.to_js()) {
        Ok(c) => c,
        Err(_) => {
            tags.tag("rejected");
            return Outcome::pass(false);
        }
    };
    // A version number is 1.1, however written.
    let j = version(j);
    let sorted = j.sorted_keys();
    let js = c.clone().into_json();
    let back = J::from_js(&js);
    if back.sorted_keys() != sorted {
        return Outcome::fail("written", diff(&sorted, &back.sorted_keys()));
    }
    if context_j(&c).sorted_keys() != sorted {
        return Outcome::fail("iterated", diff(&sorted, &context_j(&c).sorted_keys()));
    }
    if let Some(f) = shape(&c, &j) {
        return Outcome::fail("accessors", f);
    }
    match Context::try_from_json(js.clone()) {
        Ok(d) if d == c => (),
        Ok(_) => return Outcome::fail("read again", "the context written and read is different"),
        Err(e) => return Outcome::fail("read again", format!("the context written cannot be read: {e}")),
    }
    for (n, o) in [Options::pretty(), Options::compact(), Options::inline()].into_iter().enumerate() {
        let text = format!("{}", c.print_with(o.clone()));
        if text != format!("{}", js.print_with(o)) {
            return Outcome::fail("printed", format!("printed differently from its JSON form ({n}):\n{text}"));
        }
    }
    match json_syntax::to_value(&c) {
        Ok(v) => {
            let v2 = J::from_js(&v).sorted_keys();
            if v2 != sorted {
                return Outcome::fail("serialized", diff(&sorted, &v2));
            }
            match json_syntax::from_value::<Context>(v.clone()) {
                Ok(d) if d == c => (),
                Ok(_) => return Outcome::fail("deserialized", "the context serialized and deserialized is different"),
                Err(e) => return Outcome::fail("deserialized", format!("{e}")),
            }
            let doc = ContextDocument { context: c.clone() };
            match json_syntax::to_value(&doc) {
                Ok(v) if J::from_js(&v).get("@context").map(|c| c.sorted_keys()).as_ref() == Some(&sorted) => match json_syntax::from_value::<ContextDocument>(v) {
                    Ok(d) if d == doc => (),
                    _ => return Outcome::fail("context document", "cannot be deserialized"),
                },
                _ => return Outcome::fail("context document", "wrong form"),
            }
        }
        Err(e) => return Outcome::fail("serialized", format!("{e}")),
    }
    let (mut met, mut keys) = ((0, 0, 0), 0);
    for f in c.traverse() {
        met.0 += f.is_array() as usize;
        met.1 += f.is_object() as usize;
        let (entry, key) = what(&f);
        met.2 += entry as usize;
        keys += key as usize;
    }
    let mut all = count(&j);
    // The entries of the definition of `@type` are not fragments.
    j.walk(&mut |x| {
        if let Some(J::Obj(e)) = x.get("@type") {
            all.2 -= e.len()
        }
    });
    if met != all || keys != all.2 {
        return Outcome::fail("traversed", format!("{met:?} arrays, objects and entries visited, and {keys} keys, of {all:?}"));
    }
    let n = count(&j).2;
    if n == 0 {
        tags.tag("empty");
    }
    j.walk(&mut |x| {
        if let J::Obj(e) = x {
            for (k, _) in e {
                for n in ["@base", "@import", "@type", "@vocab", "@version", "@propagate", "@context", "@container", "@nest", "@index", "@reverse"] {
                    if n == k {
                        tags.tag(n)
                    }
                }
            }
        }
    });
    Outcome::pass(n > 0)
}
