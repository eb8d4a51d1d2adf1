//! Keywords, identifiers, language tags and containers are recognized, kept and compared as what they are.
use crate::engine::{Outcome, Prop, Tags};
use crate::j::{obj, s, J};
use crate::src::Src;
use indexmap::Equivalent;
use iref::{Iri, IriBuf, IriRef};
use json_ld::syntax::context::definition::{Key, KeyOrKeyword, KeyOrKeywordRef, KeyRef, Vocab};
use json_ld::syntax::context::term_definition::{Id as SynId, IdRef, Index, Nest, Type as SynType, TypeKeyword};
use json_ld::syntax::{
    self, is_keyword, is_keyword_like, CompactIri, CompactIriBuf, ContainerKind, Direction, ExpandableRef, IntoJson, Keyword, LenientLangTag,
    LenientLangTagBuf, Nullable, TryFromJson,
};
use json_ld::{Container, Id, LangStr, LangString, ProcessingMode, Term, Type, ValidId};
use rdf_types::{BlankId, BlankIdBuf};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::hash::{BuildHasher, Hash, RandomState};

pub const PROP: Prop = Prop {
    id: "P17",
    quick: 200000,
    thorough: 4000000,
    rule: "random strings (keywords and what looks like them, IRIs, compact IRIs, blank node identifiers, language tags, and mutations of all these) in groups of up to 6, and sequences of container kinds; non-trivial: at least two strings",
    assumptions: &["what is an IRI or a blank node identifier is decided by the iref and rdf-types libraries"],
    gen,
    check,
};

const WORDS: [&str; 72] = [
    "@base", "@container", "@context", "@direction", "@graph", "@id", "@import", "@included", "@index", "@json", "@language", "@list", "@nest", "@none",
    "@prefix", "@propagate", "@protected", "@reverse", "@set", "@type", "@value", "@version", "@vocab", "@", "@a", "@Z", "@foo", "@foo1", "@-", "@é", "id@",
    "@id ", "@Id", "id", "", "a", ":", "a:", ":a", "a:b", "a:b:c", "_:", "_:b", "_:b:c", "_a:b", "a://b", "a:/b", "a:///", "http://ex.org/", "http://ex.org/a#b",
    "//a:b", "a/b:c", "é:a", "a b:c", "a:b c", "_", "en", "EN", "eN", "en-us", "en-US", "EN-Us", "en-", "fr", "e", "ltr", "rtl", "LTR", "json-ld-1.0",
    "json-ld-1.1", "json-ld-1.2", "ex:é",
];

const KINDS: [ContainerKind; 7] = [
    ContainerKind::Graph,
    ContainerKind::Id,
    ContainerKind::Index,
    ContainerKind::Language,
    ContainerKind::List,
    ContainerKind::Set,
    ContainerKind::Type,
];

const KEYWORDS: [&str; 23] = [
    "@base", "@container", "@context", "@direction", "@graph", "@id", "@import", "@included", "@index", "@json", "@language", "@list", "@nest", "@none",
    "@prefix", "@propagate", "@protected", "@reverse", "@set", "@type", "@value", "@version", "@vocab",
];

fn gen(g: &mut Src) -> J {
    let mut words: Vec<String> = vec![];
    for _ in 0..1 + g.below(6) {
        let mut w = if !words.is_empty() && g.chance(1, 3) { g.pick(&words).clone() } else { g.pick(&WORDS).to_string() };
        for _ in 0..g.weighted(&[5, 3, 1]) {
            let mut c: Vec<char> = w.chars().collect();
            let i = g.below(c.len() + 1);
            match g.below(5) {
                0 if i < c.len() => {
                    c.remove(i);
                }
                1 if i < c.len() => c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() },
                2 => c.insert(i, *g.pick(&['@', ':', '/', '_', 'a', 'Z', '[', '`', '{', ' ', '-', '#', '%', 'é', '\u{130}', '1', '?', '.'])),
                3 => c.truncate(i),
                _ => c.extend(g.pick(&WORDS).chars()),
            }
            w = c.into_iter().collect();
        }
        words.push(w);
    }
    let kinds: Vec<J> = (0..g.below(5)).map(|_| s(g.pick(&KINDS).as_str())).collect();
    obj(vec![("words", J::Arr(words.into_iter().map(J::Str).collect())), ("container", J::Arr(kinds))])
}

macro_rules! ensure {
    ($c:expr, $($m:tt)*) => {
        if !$c {
            return Err(format!($($m)*));
        }
    };
}

fn serde_trip<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(t: &T, w: &str) -> Result<(), String> {
    let v = serde_json::to_value(t).map_err(|e| e.to_string())?;
    ensure!(v == serde_json::Value::String(w.to_string()), "serialized: {v}");
    match serde_json::from_value::<T>(v) {
        Ok(x) if x == *t => Ok(()),
        _ => Err("deserialized".into()),
    }
}

fn word(w: &str, h: &RandomState) -> Result<(), String> {
    let js = json_ld::syntax::Value::String(w.into());
    // keywords
    let is = KEYWORDS.contains(&w);
    ensure!(is_keyword(w) == is, "is_keyword");
    let like = w.len() > 1 && w.starts_with('@') && w[1..].bytes().all(|b| b.is_ascii_alphabetic());
    ensure!(is_keyword_like(w) == like, "is_keyword_like");
    let k = Keyword::try_from(w).ok();
    ensure!(k.is_some() == is, "keyword");
    if let Some(k) = k {
        ensure!(k.into_str() == w && k.to_string() == w && <&str>::from(k) == w, "text of a keyword");
        serde_trip(&k, w)?;
    } else {
        ensure!(serde_json::from_value::<Keyword>(w.into()).is_err(), "a keyword deserialized from something else");
    }
    // keys
    let key = Key::from(w);
    ensure!(key.as_str() == w && key.to_string() == w && key.len() == w.len() && key.is_empty() == w.is_empty(), "text of a key");
    ensure!(key.is_keyword_like() == like && KeyRef::from(w).is_keyword_like() == like && KeyRef::from(&key).as_str() == w, "key like a keyword");
    ensure!(key.as_iri().map(|i| i.as_str()) == Some(w).filter(|w| Iri::new(*w).is_ok()), "IRI of a key");
    ensure!(key.as_blank_id().is_some() == BlankId::new(w).is_ok() && key.as_compact_iri().is_some() == CompactIri::new(w).is_ok(), "key as a blank node identifier or a compact IRI");
    match (KeyOrKeywordRef::from(w), k) {
        (KeyOrKeywordRef::Keyword(x), Some(k)) if x == k => (),
        (KeyOrKeywordRef::Key(x), None) if x.as_str() == w => (),
        _ => return Err("key or keyword".into()),
    }
    let kk: KeyOrKeyword = KeyOrKeywordRef::from(w).to_owned();
    ensure!(kk.as_str() == w && kk.to_string() == w && kk.as_keyword() == k && kk.as_key().is_some() == !is, "key or keyword, owned");
    ensure!(kk.is_empty() == w.is_empty() && kk.clone().into_keyword() == k && h.hash_one(&kk) == h.hash_one(w), "key or keyword, owned");
    ensure!(kk.into_key().map(|k| k.into_string()) == (!is).then(|| w.to_string()), "key or keyword, owned");
    match (ExpandableRef::from(w), k) {
        (ExpandableRef::Keyword(x), Some(k)) if x == k => (),
        (ExpandableRef::String(x), None) if x == w => (),
        _ => return Err("expandable".into()),
    }
    // entries of term definitions
    let id = SynId::from(w.to_string());
    ensure!(id.as_keyword() == k && id.is_keyword() == is && id.as_str() == w && id.to_string() == w && id.clone().into_string() == w, "@id of a term definition");
    ensure!(id.is_keyword_like() == like && id.as_id_ref().as_str() == w && id.as_id_ref().is_keyword() == is, "@id of a term definition");
    ensure!(id.as_iri().is_some() == Iri::new(w).is_ok() && id.as_blank_id().is_some() == BlankId::new(w).is_ok(), "@id of a term definition, as an identifier");
    let r = IdRef::from(w);
    ensure!(r.as_str() == w && r.is_keyword() == is && r.is_keyword_like() == like && r == id.as_id_ref() && r.to_string() == w, "@id of a term definition, by reference");
    serde_trip(&id, w)?;
    let tk = ["@id", "@json", "@none", "@vocab"].contains(&w);
    let t = SynType::from(w.to_string());
    ensure!(t.as_keyword().is_some() == tk && t.as_str() == w && t.clone().into_string() == w, "@type of a term definition");
    ensure!(TypeKeyword::try_from(w).is_ok() == tk, "keyword of a @type of a term definition");
    if let Some(x) = t.as_keyword() {
        ensure!(x.as_str() == w && Some(x.keyword()) == k && x.into_str() == w, "keyword of a @type of a term definition");
    }
    if let Some(k) = k {
        ensure!(TypeKeyword::try_from(k).is_ok() == tk, "keyword of a @type of a term definition");
    }
    serde_trip(&t, w)?;
    match Nest::try_from(w.to_string()) {
        Ok(n) => {
            ensure!((w == "@nest" || !is) && n.as_str() == w && matches!(n, Nest::Nest) == (w == "@nest"), "@nest");
            serde_trip(&n, w)?;
            ensure!(n.into_string() == w, "@nest")
        }
        Err(e) => ensure!(is && w != "@nest" && e.0 == w, "@nest, invalid"),
    }
    let i = Index::from(w.to_string());
    ensure!(i.as_str() == w && i.to_string() == w && i.as_iri().is_some() == Iri::new(w).is_ok(), "@index of a term definition");
    serde_trip(&i, w)?;
    let v = Vocab::from(w.to_string());
    ensure!(v.as_str() == w && v.as_iri().is_some() == Iri::new(w).is_ok() && v.as_blank_id().is_some() == BlankId::new(w).is_ok(), "@vocab");
    serde_trip(&v, w)?;
    ensure!(v.into_string() == w, "@vocab");
    // containers, directions, modes
    let ck = KINDS.iter().find(|k| k.as_str() == w);
    ensure!(["@graph", "@id", "@index", "@language", "@list", "@set", "@type"].contains(&w) == ck.is_some(), "text of a container kind");
    ensure!(ContainerKind::try_from(w).ok().as_ref() == ck && ContainerKind::try_from_json(js.clone()).ok().as_ref() == ck, "container kind");
    if let Some(k) = k {
        ensure!(ContainerKind::try_from(k).ok().as_ref() == ck, "container kind of a keyword");
    }
    if let Some(c) = ck {
        ensure!(Some(c.keyword()) == k, "keyword of a container kind");
        serde_trip(c, w)?;
    }
    let d = Direction::try_from(w).ok();
    ensure!(d.is_some() == ["ltr", "rtl"].contains(&w) && d == w.parse().ok() && d == Direction::try_from_json(js.clone()).ok(), "direction");
    if let Some(d) = d {
        ensure!(d.as_str() == w && d.to_string() == w && d.into_str() == w, "text of a direction");
        serde_trip(&d, w)?;
    }
    let m = ProcessingMode::try_from(w).ok();
    ensure!(m.is_some() == ["json-ld-1.0", "json-ld-1.1"].contains(&w), "processing mode");
    if let Some(m) = m {
        ensure!(m.as_str() == w && m.to_string() == w, "text of a processing mode");
    }
    // compact IRIs
    let compact = match w.find(':') {
        Some(i) => &w[..i] != "_" && !w[i + 1..].starts_with("//") && IriRef::new(w).is_ok(),
        None => false,
    };
    match CompactIri::new(w) {
        Ok(c) => {
            let i = w.find(':').unwrap_or(0);
            ensure!(compact && c.as_str() == w && c.prefix() == &w[..i] && c.suffix() == &w[i + 1..] && c.as_iri_ref().as_str() == w, "compact IRI");
            let o = c.to_owned();
            ensure!(&*o == c && CompactIriBuf::new(w.to_string()).ok() == Some(o.clone()) && o.clone().into_string() == w && o.into_iri_ref().as_str() == w, "compact IRI, owned");
        }
        Err(e) => ensure!(!compact && e.0 == w && CompactIriBuf::new(w.to_string()).is_err(), "not a compact IRI"),
    }
    // identifiers
    let x: Id<IriBuf, BlankIdBuf> = Id::from_string(w.to_string());
    let y: Id<IriBuf, BlankIdBuf> = Id::from_string_in(&mut (), w.to_string());
    let z: Result<Id<IriBuf, BlankIdBuf>, _> = json_ld_core::TryFromJson::try_from_json_in(&mut (), js);
    ensure!(x == y && z.as_ref().ok() == Some(&x), "identifiers made in different ways");
    ensure!(x.is_iri() == Iri::new(w).is_ok() && x.is_blank() == (BlankId::new(w).is_ok() && !Iri::new(w).is_ok()) && x.is_valid() == (x.is_iri() || x.is_blank()), "kind of an identifier");
    ensure!(x.as_str() == w && x.to_string() == w && x.as_iri().is_some() == x.is_iri() && x.as_blank().is_some() == x.is_blank(), "text of an identifier");
    ensure!(x.clone().into_blank().is_some() == x.is_blank() && ValidId::try_from(x.clone()).is_ok() == x.is_valid(), "parts of an identifier");
    let term = x.clone().into_term();
    ensure!(term == x && x == term && Id::try_from(term.clone()).ok() == Some(x.clone()) && term.as_str() == w && term.to_string() == w, "term of an identifier");
    ensure!(!term.is_keyword() && !term.is_null() && term.as_iri().is_some() == x.is_iri() && term.into_iri().is_ok() == x.is_iri(), "term of an identifier");
    let txt = |x: &Id<IriBuf, BlankIdBuf>| x.clone().map(|v| match v {
        ValidId::Iri(i) => ValidId::Iri(IriBuf::new(format!("{i}x")).unwrap_or(i)),
        b => b,
    });
    if !x.is_iri() {
        ensure!(txt(&x) == x, "identifier mapped")
    } else {
        ensure!(txt(&x).as_str() == format!("{w}x") || IriBuf::new(format!("{w}x")).is_err(), "identifier mapped")
    }
    let ser = J::from_js(&json_ld::syntax::IntoJsonWithContext::into_json_with(x.clone(), &()));
    ensure!(ser == s(w), "JSON of an identifier");
    match &x {
        Id::Valid(v) => {
            ensure!(h.hash_one(&x) == h.hash_one(v) && v.equivalent(&x), "hash of a valid identifier");
            match v {
                ValidId::Iri(i) => ensure!(i.equivalent(&x) && (&i.as_iri()).equivalent(&x) && x == *i, "identifier found by IRI"),
                ValidId::Blank(b) => ensure!(b.equivalent(&x) && b.as_blank_id_ref().equivalent(&x), "identifier found by blank node identifier"),
            }
        }
        Id::Invalid(t) => ensure!(t == w && h.hash_one(&x) == h.hash_one(t), "invalid identifier"),
    }
    let other: [Id<IriBuf, BlankIdBuf>; 3] = [Id::from_string("http://other.org/".into()), Id::from_string("_:other".into()), Id::Invalid("other".into())];
    for o in &other {
        ensure!(o == &x || (*o != x && *o.as_str() != *w), "different identifiers found equal");
        if let (Some(i), true) = (x.as_iri(), o.as_str() != w) {
            ensure!(!i.equivalent(o) && *o != *i, "identifier found by another IRI");
        }
        if let (Some(b), true) = (x.as_blank(), o.as_str() != w) {
            ensure!(!b.equivalent(o), "identifier found by another blank node identifier");
        }
    }
    // types of values
    let term: Term<IriBuf, BlankIdBuf> = match k {
        Some(k) => Term::Keyword(k),
        None => Term::Id(x.clone()),
    };
    let ty = Type::try_from(term.clone());
    ensure!(ty.is_ok() == (tk || (!is && x.is_iri())), "type of a term");
    match ty {
        Ok(ty) => {
            ensure!(ty.as_str() == w && ty.to_string() == w && ty.as_iri().is_some() == !tk && Term::from(ty.clone()) == term, "text of a type");
            let by_ref: Type<&IriBuf> = (&ty).into();
            ensure!(by_ref.cloned() == ty && ty.as_iri().map(|i| i.as_str()) == (!tk).then_some(w), "borrowed type");
            ensure!(ty.clone().map(|i| i) == ty && ty.into_iri().is_ok() == !tk, "IRI of a type");
        }
        Err(t) => ensure!(t == term, "not a type"),
    }
    ensure!(term.as_str() == w && term.is_keyword() == is, "text of a term");
    // language tags
    let (l, e) = LenientLangTag::new(w);
    let (o, e2) = LenientLangTagBuf::new(w.to_string());
    let wf = langtag::LangTag::new(w).is_ok();
    ensure!(e.is_some() == !wf && e2.is_some() == !wf && l.is_well_formed() == wf && l.as_well_formed().is_some() == wf, "well formed language tag");
    ensure!(l.as_str() == w && o.as_str() == w && l.to_string() == w && o.to_string() == w && &*o == l && l.to_owned() == o, "text of a language tag");
    ensure!(o.clone().into_well_formed().is_ok() == wf && h.hash_one(&o) == h.hash_one(l), "owned language tag");
    ensure!(o.clone().into_string() == w && LenientLangTagBuf::from(w.to_string()) == o, "owned language tag");
    serde_trip(&o, w)?;
    // strings with a language, a direction, or both
    for lang in [None, Some(l)] {
        for dir in [None, Some(Direction::Ltr), Some(Direction::Rtl)] {
            let some = lang.is_some() || dir.is_some();
            let (a, b) = (LangStr::new(w, lang, dir), LangString::new(w.into(), lang.map(|l| l.to_owned()), dir));
            ensure!(a.is_ok() == some && b.is_ok() == some, "a string with a language or a direction");
            if let (Ok(a), Ok(mut b)) = (a, b) {
                ensure!(a.as_str() == w && a.language() == lang && a.direction() == dir && a.into_parts() == (w, lang, dir), "parts of a tagged string");
                ensure!(b.as_lang_str() == a && b.as_str() == w && b.language() == lang && b.direction() == dir, "parts of an owned tagged string");
                let was = b.clone();
                ensure!(b.set_language(None).is_ok() == dir.is_some() && (b == was) == (dir.is_none() || lang.is_none()), "string without its language");
                let mut b = was.clone();
                ensure!(b.set_direction(None).is_ok() == lang.is_some() && (b == was) == (dir.is_none() || lang.is_none()), "string without its direction");
                let mut b = was.clone();
                ensure!(b.set(None, None).is_err() && b == was, "string without anything");
                ensure!(b.set(Some(l.to_owned()), None).is_ok() && b.language() == Some(l) && b.direction().is_none() && b.as_str() == w, "string with another language");
            }
        }
    }
    Ok(())
}

fn pairs(words: &[String], h: &RandomState) -> Result<(), String> {
    let tags: Vec<&LenientLangTag> = words.iter().map(|w| LenientLangTag::new(w).0).collect();
    for a in &tags {
        for b in &tags {
            let eq = a.as_str().eq_ignore_ascii_case(b.as_str());
            ensure!((a == b) == eq, "equality of language tags: {a} {b}");
            ensure!((a.cmp(b) == Ordering::Equal) == eq && a.cmp(b) == b.cmp(a).reverse() && a.partial_cmp(b) == Some(a.cmp(b)), "order of language tags: {a} {b}");
            ensure!(!eq || h.hash_one(a) == h.hash_one(b), "hash of language tags: {a} {b}");
            ensure!(a.to_owned().cmp(&b.to_owned()) == a.cmp(b) && (a.to_owned() == b.to_owned()) == eq, "owned language tags: {a} {b}");
            for c in &tags {
                ensure!(!(a <= b && b <= c) || a <= c, "order of language tags: {a} {b} {c}");
            }
            for (x, y) in [(None, Some(Direction::Ltr)), (Some(Direction::Ltr), Some(Direction::Ltr)), (None, None)] {
                let ls = |l: &LenientLangTag, d| LangString::new("a".into(), Some(l.to_owned()), d).ok();
                let (p, q) = (ls(a, x), ls(b, y));
                ensure!((p == q) == (eq && x == y) && (p != q || h.hash_one(&p) == h.hash_one(&q)), "tagged strings: {a} {b}");
            }
        }
    }
    let fold: HashSet<String> = words.iter().map(|w| w.to_ascii_lowercase()).collect();
    ensure!(tags.iter().collect::<HashSet<_>>().len() == fold.len(), "set of language tags");
    ensure!(tags.iter().collect::<BTreeSet<_>>().len() == fold.len(), "ordered set of language tags");
    // identifiers
    let ids: Vec<Id<IriBuf, BlankIdBuf>> = words.iter().map(|w| Id::from_string(w.clone())).collect();
    let syn: Vec<SynId> = words.iter().map(|w| SynId::from(w.clone())).collect();
    let ty: Vec<SynType> = words.iter().map(|w| SynType::from(w.clone())).collect();
    for (i, a) in words.iter().enumerate() {
        for (k, b) in words.iter().enumerate() {
            // IRIs that only differ in their normal form may or may not be equal
            if ids[i].as_iri().is_none() || ids[k].as_iri().is_none() {
                ensure!((ids[i] == ids[k]) == (a == b), "equality of identifiers: {a} {b}");
            }
            ensure!(ids[i] != ids[k] || h.hash_one(&ids[i]) == h.hash_one(&ids[k]), "hash of identifiers: {a} {b}");
            ensure!(ids[i].cmp(&ids[k]) == ids[k].cmp(&ids[i]).reverse() && (ids[i].cmp(&ids[k]) == Ordering::Equal) == (ids[i] == ids[k]), "order of identifiers: {a} {b}");
            ensure!((syn[i] == syn[k]) == (a == b) && (a != b || h.hash_one(&syn[i]) == h.hash_one(&syn[k])), "equality of @id: {a} {b}");
            ensure!((ty[i] == ty[k]) == (a == b) && (a != b || h.hash_one(&ty[i]) == h.hash_one(&ty[k])), "equality of @type: {a} {b}");
        }
    }
    Ok(())
}

/// Whether the kinds can be together, whatever their order.
fn allowed(k: &BTreeSet<ContainerKind>) -> bool {
    let mut k = k.clone();
    if k.len() <= 1 {
        return true;
    }
    k.remove(&ContainerKind::Set);
    let only: Vec<ContainerKind> = k.iter().copied().collect();
    match only.as_slice() {
        [x] => *x != ContainerKind::List,
        // in the order of their names
        [ContainerKind::Graph, x] => [ContainerKind::Id, ContainerKind::Index].contains(x),
        _ => false,
    }
}

fn container(kinds: &[ContainerKind]) -> Result<(), String> {
    let mut c = Container::new();
    let mut set = BTreeSet::new();
    let mut ok = true;
    for k in kinds {
        let mut next = set.clone();
        next.insert(*k);
        let before = c;
        let w = c.with(*k);
        ensure!(w.is_some() == allowed(&next), "containers allowed: {set:?} with {k:?}");
        ensure!(c.add(*k) == w.is_some() && c == w.unwrap_or(before), "container added");
        if w.is_none() {
            ok = false;
            break;
        }
        set = next;
        let slice = c.as_slice();
        ensure!(slice.len() == set.len() && slice.iter().copied().collect::<BTreeSet<_>>() == set, "content of a container: {slice:?}, not {set:?}");
        ensure!(c.len() == set.len() && c.is_empty() == set.is_empty() && c.iter().count() == set.len(), "length of a container");
        for x in &KINDS {
            ensure!(c.contains(*x) == set.contains(x), "kind found in a container: {x:?} in {set:?}");
        }
        ensure!(Container::from(set.iter()).ok() == Some(c) && Container::from(set.iter().rev()).ok() == Some(c), "container of the kinds in another order: {set:?}");
        let syn = c.into_syntax();
        match &syn {
            Some(x) => ensure!(Container::from_syntax(Nullable::Some(x)).ok() == Some(c) && x.is_array() == (set.len() > 1), "container written"),
            None => ensure!(set.is_empty(), "container written"),
        }
        if set.len() == 1 {
            ensure!(Container::from(std::iter::once(k)).ok() == Some(c), "container of one kind");
        }
    }
    // as JSON
    let syn = syntax::Container::Many(kinds.to_vec());
    ensure!(syn.sub_fragments().len() == kinds.len() && syn.sub_fragments().copied().eq(kinds.iter().copied()), "fragments of a container");
    ensure!(Container::from_syntax(Nullable::Some(&syn)).is_ok() == ok && Container::from(kinds.iter()).is_ok() == ok, "container made of kinds");
    if ok {
        ensure!(Container::from_syntax(Nullable::Some(&syn)).ok() == Some(c), "container made of kinds");
    }
    let j = J::Arr(kinds.iter().map(|k| s(k.as_str())).collect());
    ensure!(J::from_js(&syn.clone().into_json()) == j, "JSON of a container");
    ensure!(syntax::Container::try_from_json(j.to_js()).ok() == Some(syn.clone()), "container of JSON");
    let v = serde_json::to_value(&syn).map_err(|e| e.to_string())?;
    ensure!(serde_json::from_value::<syntax::Container>(v).ok() == Some(syn), "container deserialized");
    if let [k] = kinds {
        let one = syntax::Container::One(*k);
        ensure!(J::from_js(&one.clone().into_json()) == s(k.as_str()) && Container::from_syntax(Nullable::Some(&one)).ok() == Some(c), "container of one kind");
    }
    Ok(())
}

/// Whether percent encoded bytes are UTF-8.
fn decodes(w: &str) -> bool {
    let b = w.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' if i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() => {
                r.extend(u8::from_str_radix(&w[i + 1..i + 3], 16));
                i += 3
            }
            c => {
                r.push(c);
                i += 1
            }
        }
    }
    String::from_utf8(r).is_ok()
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let strings = |k: &str| -> Vec<String> {
        j.get(k).and_then(|a| a.as_arr()).map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default()
    };
    let words = strings("words");
    if words.iter().any(|w| !decodes(w)) {
        // the iref library panics (see the known finding of P19)
        return Outcome::pass(false);
    }
    let kinds: Vec<ContainerKind> = strings("container").iter().filter_map(|k| KINDS.iter().find(|x| x.as_str() == k).copied()).collect();
    let h = RandomState::new();
    for w in &words {
        if let Err(e) = word(w, &h) {
            return Outcome::fail(e.split(':').next().unwrap_or("").to_string(), format!("{w:?}: {e}"));
        }
        tags.tag(if is_keyword(w) {
            "keyword"
        } else if Iri::new(w).is_ok() {
            "IRI"
        } else if BlankId::new(w).is_ok() {
            "blank"
        } else {
            "other"
        });
    }
    for e in [pairs(&words, &h), container(&kinds)] {
        if let Err(e) = e {
            return Outcome::fail(e.split(':').next().unwrap_or("").to_string(), e);
        }
    }
    Outcome::pass(words.len() > 1)
}
