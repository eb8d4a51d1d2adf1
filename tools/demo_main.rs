// Runs the cases of cases.json: an operation on a document, and the JSON it must give.
use json_ld::{syntax::{IntoJsonWithContext, Parse, TryFromJson, Value}, JsonLdProcessor, Options, Print, RemoteDocument};
use rdf_types::Quad;
use std::collections::HashMap;

fn sorted(v: &serde_json::Value) -> serde_json::Value {
    v.clone() // objects are compared without order
}

fn js(v: &serde_json::Value) -> Value {
    // a text keeps the order of the entries
    Value::parse_str(&v.as_str().map(String::from).unwrap_or(v.to_string())).unwrap().0
}

fn back(v: &Value) -> serde_json::Value {
    serde_json::from_str(&v.compact_print().to_string()).unwrap()
}

fn expanded(v: &serde_json::Value) -> json_ld::ExpandedDocument {
    use json_ld::TryFromJson;
    json_ld::ExpandedDocument::try_from_json_in(&mut (), js(v)).unwrap_or_else(|e| panic!("{e:?}"))
}

fn json_of(e: &json_ld::ExpandedDocument) -> serde_json::Value {
    serde_json::Value::Array(e.iter().map(|x| back(&x.clone().into_json_with(&()))).collect())
}

fn main() {
    let cases: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    let mut bad = 0;
    for (i, c) in cases.as_array().unwrap().iter().enumerate() {
        let got = std::panic::catch_unwind(|| futures::executor::block_on(run(c))).unwrap_or(serde_json::json!("panic"));
        if std::env::var("PRINT").is_ok() {
            println!("got {got}");
        }
        if sorted(&got) != sorted(&c["expected"]) {
            println!("case {i}: expected {}\n        got      {}", c["expected"], got);
            bad += 1;
        }
    }
    println!("{bad} wrong");
    std::process::exit(if bad > 0 { 1 } else { 0 })
}

async fn run(c: &serde_json::Value) -> serde_json::Value {
    let iri = |s: &str| iref::IriBuf::new(s.to_string()).unwrap();
    let url = c.get("url").and_then(|u| u.as_str()).unwrap_or("http://ex.org/dir/doc.jsonld");
    let doc = RemoteDocument::new(Some(iri(url)), None, js(&c["document"]));
    let mut loader: HashMap<iref::IriBuf, RemoteDocument> = HashMap::new();
    if let Some(r) = c.get("remote").and_then(|r| r.as_object()) {
        for (u, d) in r {
            loader.insert(iri(u), RemoteDocument::new(Some(iri(u)), None, js(d)));
        }
    }
    let mut o: Options = Options { ordered: c.get("ordered").and_then(|x| x.as_bool()).unwrap_or(true), ..Options::default() };
    if let Some(b) = c.get("base").and_then(|x| x.as_str()) {
        o.base = Some(iri(b));
    }
    if let Some(b) = c.get("compactArrays").and_then(|x| x.as_bool()) {
        o.compact_arrays = b;
    }
    if let Some(b) = c.get("compactToRelative").and_then(|x| x.as_bool()) {
        o.compact_to_relative = b;
    }
    if c.get("mode10").is_some() {
        o.processing_mode = json_ld::ProcessingMode::JsonLd1_0;
    }
    let ctx = || {
        let x = json_ld::syntax::context::Context::try_from_json(js(&c["context"])).unwrap();
        json_ld::RemoteContextReference::Loaded(json_ld::RemoteContext::new(None, None, x))
    };
    if let Some(d) = c.get("rdfDirection").and_then(|x| x.as_str()) {
        o.rdf_direction = Some(json_ld::rdf::RdfDirection::try_from(d).ok().unwrap());
    }
    let err = |e: String| serde_json::json!({ "error": e });
    match c["op"].as_str().unwrap() {
        "expand" => match doc.expand_using(&loader, o).await {
            Ok(e) => serde_json::Value::Array(e.iter().map(|x| back(&x.clone().into_json_with(&()))).collect()),
            Err(e) => err(e.to_string()),
        },
        "compact" => match doc.compact_using(ctx(), &loader, o).await {
            Ok(e) => back(&e),
            Err(e) => err(e.to_string()),
        },
        "flatten" => {
            let mut g = rdf_types::generator::Blank::new();
            let r = doc.flatten_full(&mut (), &mut g, if c.get("context").is_some() { Some(ctx()) } else { None }, &loader, o, ()).await;
            match r {
                Ok(e) => back(&e),
                Err(e) => err(e.to_string()),
            }
        }
        "rdf" => {
            let mut g = rdf_types::generator::Blank::new();
            match doc.to_rdf_full(&mut (), &mut g, &loader, o, ()).await {
                Ok(mut r) => {
                    let mut q: Vec<String> = r.cloned_quads().map(|Quad(s, p, o, g)| {
                        use rdf_types::RdfDisplay;
                        format!("{} {} {} {}", s.rdf_display(), p.rdf_display(), o.rdf_display(), g.map(|g| g.rdf_display().to_string()).unwrap_or_default())
                    }).collect();
                    q.sort();
                    serde_json::json!(q)
                }
                Err(e) => err(e.to_string()),
            }
        }
        "quads" => match doc.expand_using(&loader, o.clone()).await {
            Ok(mut e) => {
                use json_ld::RdfQuads;
                let mut g = rdf_types::generator::Blank::new();
                e.identify_all(&mut g);
                let mut q: Vec<String> = e.rdf_quads(&mut g, o.rdf_direction).cloned().map(|Quad(s, p, o, g)| {
                    use rdf_types::RdfDisplay;
                    format!("{} {} {} {}", s.rdf_display(), p.rdf_display(), o.rdf_display(), g.map(|g| g.rdf_display().to_string()).unwrap_or_default())
                }).collect();
                q.sort();
                serde_json::json!(q)
            }
            Err(e) => err(e.to_string()),
        },
        // expanded documents and objects, without expansion
        "eq" => {
            use std::hash::{BuildHasher, RandomState};
            let (a, b) = (expanded(&c["a"]), expanded(&c["b"]));
            let (x, y) = (a.iter().next().unwrap(), b.iter().next().unwrap());
            let h = RandomState::new();
            let m = {
                use json_ld::object::MappedEq;
                let (f, t) = (rdf_types::BlankIdBuf::new("_:x".into()).unwrap(), rdf_types::BlankIdBuf::new("_:y".into()).unwrap());
                x.mapped_eq(y, |b| if *b == f { &t } else { b })
            };
            serde_json::json!({"documents": a == b, "objects": x == y, "hashes": h.hash_one(x) == h.hash_one(y), "equivalent": x.equivalent(y), "renamed": m})
        }
        "canonical" => {
            let mut e = expanded(&c["document"]);
            e.canonicalize();
            json_of(&e)
        }
        "relabel" => {
            let mut e = expanded(&c["document"]);
            let mut g = rdf_types::generator::Blank::new_with_prefix("n".to_string());
            if c.get("canonical").is_some() { e.relabel_and_canonicalize(&mut g) } else { e.relabel(&mut g) };
            json_of(&e)
        }
        "identify" => {
            let mut e = expanded(&c["document"]);
            let mut g = rdf_types::generator::Blank::new_with_prefix("n".to_string());
            e.identify_all(&mut g);
            json_of(&e)
        }
        "map" => {
            let e = expanded(&c["document"]);
            let e: json_ld::ExpandedDocument = e.map_ids(
                |i| if i.as_str() == "http://ex.org/a" { iri("http://ex.org/z") } else { i },
                |id| match id {
                    json_ld::Id::Valid(json_ld::ValidId::Blank(b)) if b.as_str() == "_:x" => json_ld::Id::Valid(json_ld::ValidId::Blank(rdf_types::BlankIdBuf::new("_:y".into()).unwrap())),
                    json_ld::Id::Valid(json_ld::ValidId::Iri(i)) if i.as_str() == "http://ex.org/a" => json_ld::Id::Valid(json_ld::ValidId::Iri(iri("http://ex.org/z"))),
                    id => id,
                },
            );
            json_of(&e)
        }
        "traverse" => {
            let e = expanded(&c["document"]);
            let mut kinds: HashMap<String, usize> = HashMap::new();
            for f in e.traverse() {
                let k = if f.as_id().is_some() { "id" } else if f.is_json_array() { "array" } else if f.is_json_object() { "map" } else { "other" };
                *kinds.entry(k.to_string()).or_default() += 1;
            }
            let blank = e.traverse().filter(|f| matches!(f.as_id(), Some(json_ld::Id::Valid(json_ld::ValidId::Blank(_))))).count();
            serde_json::json!({"kinds": kinds, "blank": blank, "count": e.count(|f| f.is_json_object()), "size": e.len(), "main": e.main_node().map(|n| back(&n.clone().into_json_with(&()))), "index": e.iter().map(|o| o.index().map(String::from)).collect::<Vec<_>>()})
        }
        "entries" => {
            let e = expanded(&c["document"]);
            let o = e.iter().next().unwrap();
            let n: Vec<String> = o.entries().map(|e| format!("{}", e.key().into_str())).collect();
            serde_json::json!(n)
        }
        "print" => {
            let x = json_ld::syntax::context::Context::try_from_json(js(&c["context"])).unwrap();
            serde_json::json!([x.pretty_print().to_string(), x.compact_print().to_string(), back(&json_ld::syntax::IntoJson::into_json(x.clone()))])
        }
        "same" => {
            let d = |k: &str| RemoteDocument::new(Some(iri(url)), None, js(&c[k]));
            match d("a").compare_full(&d("b"), &mut (), &loader, o, ()).await {
                Ok(b) => serde_json::json!(b),
                Err(e) => err(e.to_string()),
            }
        }
        "words" => {
            use json_ld::syntax::*;
            serde_json::json!(c["words"].as_array().unwrap().iter().map(|w| {
                let w = w.as_str().unwrap();
                let cmp = CompactIri::new(w).ok().map(|c| format!("{}|{}", c.prefix(), c.suffix()));
                serde_json::json!([Keyword::try_from(w).is_ok(), is_keyword_like(w), cmp, Direction::try_from(w).is_ok(), format!("{:?}", LenientLangTag::new(w).0), ContainerKind::try_from(w).is_ok()])
            }).collect::<Vec<_>>())
        }
        "load" => {
            use json_ld::Loader;
            let mut out = vec![];
            for u in c["urls"].as_array().unwrap() {
                let u = iri(u.as_str().unwrap());
                out.push(match loader.load(&u).await {
                    Ok(d) => serde_json::json!([d.url().map(|u| u.to_string()), back(d.document())]),
                    Err(e) => serde_json::json!(e.to_string()),
                });
            }
            serde_json::json!(out)
        }
        // RDF read as a document, and Linked Data
        "from" => {
            use rdf_types::{Id, Literal, LiteralType, Term};
            let term = |x: &str| -> Term<Id, Literal> {
                if x.starts_with("_:") {
                    Term::Id(Id::Blank(rdf_types::BlankIdBuf::new(x.to_string()).unwrap()))
                } else if let Some((l, t)) = x.split_once("^^") {
                    Term::Literal(Literal::new(l.to_string(), LiteralType::Any(iri(t))))
                } else {
                    Term::Id(Id::Iri(iri(x)))
                }
            };
            let quads: Vec<_> = c["quads"].as_array().unwrap().iter().map(|q| {
                let t = |k: usize| q[k].as_str().map(term);
                Quad(t(0).unwrap(), t(1).unwrap(), t(2).unwrap(), t(3))
            }).collect();
            match json_ld::ExpandedDocument::from_interpreted_quads(&(), &(), quads.iter().map(|q| q.as_ref())) {
                Ok(e) => json_of(&e),
                Err(e) => err(e.to_string()),
            }
        }
        "visit" => {
            let e = expanded(&c["document"]);
            match linked_data::to_quads(rdf_types::generator::Blank::new(), &e) {
                Ok(q) => {
                    let mut q: Vec<String> = q.iter().map(|Quad(s, p, o, g)| {
                        use rdf_types::RdfDisplay;
                        let o = match o {
                            rdf_types::Term::Id(i) => i.rdf_display().to_string(),
                            rdf_types::Term::Literal(l) => format!("{l:?}"),
                        };
                        format!("{} {} {} {}", s.rdf_display(), p.rdf_display(), o, g.as_ref().map(|g| g.rdf_display().to_string()).unwrap_or_default())
                    }).collect();
                    q.sort();
                    serde_json::json!(q)
                }
                Err(e) => err(e.to_string()),
            }
        }
        "inverse" => {
            use json_ld::context::inverse::{LangSelection, Selection};
            use json_ld::{context::NormalTermDefinition, Container, Context, Nullable};
            let mut x: Context = Context::new(None);
            let key = |k: &str| json_ld::syntax::context::definition::Key::from(k.to_string());
            let def = |u: &str| NormalTermDefinition { value: Some(json_ld::Term::Id(json_ld::Id::iri(iri(u)))), ..Default::default() };
            x.set_normal(key("t"), Some(def("http://ex.org/p")));
            let en = || json_ld::LenientLangTagBuf::new("en".to_string()).0;
            let mut fr = def("http://ex.org/p");
            fr.language = Some(Nullable::Some(json_ld::LenientLangTagBuf::new("fr".to_string()).0));
            x.set_normal(key("u"), Some(fr));
            x.inverse();
            x.set_default_language(Some(en()));
            let l = en();
            let s = Selection::Lang(vec![LangSelection::Lang(Nullable::Some((Some(l.as_lenient_lang_tag_ref()), None)))]);
            let found = x.inverse().select(&json_ld::Term::Id(json_ld::Id::iri(iri("http://ex.org/p"))), &[Container::new()], &s).map(|k| k.to_string());
            serde_json::json!(found)
        }
        "merge" => {
            let mut m = json_ld::flattening::NodeMapGraph::new();
            for g in c["graphs"].as_array().unwrap() {
                let mut n = json_ld::flattening::NodeMapGraph::new();
                for o in expanded(g) {
                    n.merge_node(o.try_cast::<json_ld::Node>().ok().unwrap());
                }
                m.merge_with(n)
            }
            serde_json::Value::Array(m.into_nodes().map(|n| back(&n.into_json_with(&()))).collect())
        }
        "unique" => {
            let p: json_ld::Id = json_ld::Id::iri(iri("http://ex.org/p"));
            let vs: Vec<json_ld::Indexed<json_ld::Object>> = c["values"].as_array().unwrap().iter().map(|v| {
                use json_ld::TryFromJson;
                json_ld::Indexed::try_from_json_in(&mut (), js(v)).unwrap_or_else(|_| panic!())
            }).collect();
            let mut n: json_ld::Node = json_ld::Node::new();
            n.properties_mut().insert_all_unique(p, vs);
            back(&json_ld::Indexed::none(n).into_json_with(&()))
        }
        "langs" => {
            use std::collections::HashSet;
            let s: HashSet<_> = c["tags"].as_array().unwrap().iter().map(|t| json_ld::LenientLangTagBuf::new(t.as_str().unwrap().to_string()).0).collect();
            serde_json::json!(s.len())
        }
        "serialize" => {
            let e = expanded(&c["document"]);
            match json_ld_serialization::serialize(&e) {
                Ok(e) => json_of(&e),
                Err(e) => err(e.to_string()),
            }
        }
        o => panic!("{o}"),
    }
}
