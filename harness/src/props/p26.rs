//! Linked Data values serialized as JSON-LD stand for the dataset they describe.
use super::p25;
use crate::engine::{Outcome, Prop, Tags};
use crate::imp::{self, Case};
use crate::j::{obj, s, J};
use crate::model::{
    iso::{self, Fact, Tok},
    rdf::{self, Dir, RDF, XSD},
};
use crate::src::Src;
use iref::IriBuf;
use json_ld_serialization as ser;
use linked_data::{
    CowRdfTerm, GraphVisitor, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource, LinkedDataSubject,
    PredicateObjectsVisitor, RdfLiteral, ResourceInterpretation, SubjectVisitor, Visitor,
};
use rdf_types::interpretation::Indexed;
use rdf_types::vocabulary::{BlankIdVocabularyMut, IndexVocabulary, IriVocabularyMut};
use rdf_types::{BlankIdBuf, Id, Interpretation, LiteralType, Term, Vocabulary};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "P26",
    quick: 60000,
    thorough: 3000000,
    rule: "random Linked Data values (predicates visited several times, reverse predicates, included nodes, graphs, lists, every kind of literal) serialized as datasets, objects and nodes, with and without a vocabulary, and expanded documents serialized back; non-trivial: the dataset has at least three quads",
    assumptions: &["the document built is turned back into a dataset by the reference serialization of P08"],
    gen,
    check,
};

const IRIS: [&str; 5] = ["http://ex.org/a", "http://ex.org/b", "urn:c", "http://ex.org/d", "_:x"];
const PREDS: [&str; 3] = ["http://ex.org/p", "http://ex.org/q", "urn:r"];

fn rdfi(n: &str) -> String {
    format!("{RDF}{n}")
}

fn literal(g: &mut Src) -> J {
    let strings = ["", "a", "é \"\\\n", "true", "1", "_:b0", "http://ex.org/a"];
    let (k, v, t) = match g.below(8) {
        0 => ("any", g.pick(&strings).to_string(), format!("{XSD}{}", g.pick(&["string", "long", "double", "integer", "boolean", "date"]))),
        1 => ("any", g.pick(&strings).to_string(), g.pick(&["urn:t", "http://ex.org/t"]).to_string()),
        2 => ("any", g.pick(&["{}", "[1,null]", "{"]).to_string(), rdfi("JSON")),
        3 => ("lang", g.pick(&strings).to_string(), g.pick(&["en", "EN", "en-US", "fr"]).to_string()),
        4 => ("json", g.pick(&["null", "{\"b\":1,\"a\":[true,null]}", "1.0", "\"x\"", "[{\"@id\":\"_:b0\"}]", "[]"]).to_string(), rdfi("JSON")),
        _ => {
            let (v, t) = match g.below(8) {
                0 => (g.pick(&strings).to_string(), "string"),
                1 => (g.pick(&["true", "false", "1", "0"]).to_string(), "boolean"),
                2 => (g.pick(&["0", "-7", "+5", "007", "12345678901234567890123"]).to_string(), "integer"),
                3 => (
                    g.pick(&["5", "0", "100", "127"]).to_string(),
                    *g.pick(&["long", "int", "short", "byte", "nonNegativeInteger", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte"]),
                ),
                4 => {
                    if g.bool() {
                        (g.pick(&["-5", "-1"]).to_string(), *g.pick(&["negativeInteger", "nonPositiveInteger", "long", "byte"]))
                    } else {
                        (g.pick(&["5", "1"]).to_string(), "positiveInteger")
                    }
                }
                5 => (g.pick(&["1.5", "-2.50", "3.0", "0.1", "100", "-0.5"]).to_string(), "decimal"),
                6 => (g.pick(&["1.5E0", "-2.25", "1e21", "0", "INF", "-INF", "NaN", "3.5E-7"]).to_string(), *g.pick(&["double", "float"])),
                _ => g.pick(&[("2020-01-01", "date"), ("2020-01-01T10:00:00Z", "dateTime"), ("http://ex.org/x", "anyURI"), ("6F6B", "hexBinary")]).clone().into_s(),
            };
            ("xsd", v, format!("{XSD}{t}"))
        }
    };
    obj(vec![("l", s(k)), ("v", s(&v)), ("t", s(&t))])
}
trait IntoS {
    fn into_s(self) -> (String, &'static str);
}
impl IntoS for (&'static str, &'static str) {
    fn into_s(self) -> (String, &'static str) {
        (self.0.to_string(), self.1)
    }
}

fn pred(g: &mut Src) -> J {
    let p = match g.below(150) {
        0 => return if g.bool() { J::Null } else { literal(g) },
        1 => "_:p".to_string(),
        2..=28 => rdfi("type"),
        29..=36 => rdfi(g.pick(&["first", "rest"])),
        _ => g.pick(&PREDS).to_string(),
    };
    s(&p)
}

fn list(g: &mut Src, depth: usize) -> J {
    let mut l = if g.chance(1, 12) { thing(g, depth.saturating_sub(1)) } else { obj(vec![("id", s(&rdfi("nil")))]) };
    for _ in 0..g.range(0, 4) {
        let mut props = vec![
            J::Arr(vec![s(&rdfi("first")), J::Arr(vec![object(g, depth.saturating_sub(1))])]),
            J::Arr(vec![s(&rdfi("rest")), J::Arr(vec![l])]),
        ];
        if g.chance(1, 15) {
            let x = props[0].clone();
            props.push(x);
        }
        if g.chance(1, 3) {
            props.reverse();
        }
        let mut c = obj(vec![("props", J::Arr(props))]);
        match g.below(40) {
            0 => c.set("id", s("_:cell")),
            1 => c.set("included", J::Arr(vec![thing(g, 0)])),
            2 => c.set("graphs", J::Arr(vec![J::Arr(vec![])])),
            3 => c.set("reverse", J::Arr(vec![J::Arr(vec![s(PREDS[0]), J::Arr(vec![thing(g, 0)])])])),
            4 => c.set("props", J::Arr({
                let mut p = c.get("props").unwrap().items().to_vec();
                p.push(J::Arr(vec![s(g.pick(&[PREDS[0], &rdfi("type")])), J::Arr(vec![obj(vec![("id", s(IRIS[0]))])])]));
                p
            })),
            _ => (),
        }
        l = c;
    }
    l
}

fn object(g: &mut Src, depth: usize) -> J {
    match g.below(10) {
        0..=3 => literal(g),
        4 => obj(vec![("id", s(g.pick(&IRIS)))]),
        5 | 6 => list(g, depth),
        _ => thing(g, depth),
    }
}

fn bag(g: &mut Src, n: usize, mut f: impl FnMut(&mut Src) -> J) -> J {
    let n = g.range(0, n);
    J::Arr((0..n).map(|_| f(g)).collect())
}

fn thing(g: &mut Src, depth: usize) -> J {
    let mut t = obj(vec![]);
    let anonymous = g.chance(1, 3);
    if !anonymous {
        t.set("id", s(g.pick(&IRIS)));
    }
    if depth == 0 {
        return t;
    }
    let d = depth - 1;
    let mut props = bag(g, 4, |g| {
        let p = pred(g);
        let ty = p.as_str().map_or(false, |p| p.ends_with("#type"));
        J::Arr(vec![
            p,
            bag(g, 3, |g| if ty && g.chance(3, 4) { obj(vec![("id", s(g.pick(&IRIS)))]) } else { object(g, d) }),
        ])
    });
    if anonymous && g.chance(4, 5) {
        if let J::Arr(p) = &mut props {
            let n = obj(vec![("l", s("any")), ("v", s(&g.below(100000).to_string())), ("t", s(&format!("{XSD}string")))]);
            p.push(J::Arr(vec![s("http://ex.org/n"), J::Arr(vec![n])]));
        }
    }
    t.set("props", props);
    if g.chance(1, 4) {
        t.set("reverse", bag(g, 2, |g| J::Arr(vec![pred(g), bag(g, 2, |g| if g.chance(1, 120) { literal(g) } else { thing(g, d) })])));
    }
    if g.chance(1, 5) {
        t.set("included", bag(g, 2, |g| if g.chance(1, 120) { literal(g) } else { subject(g, d) }));
    }
    if g.chance(1, 5) {
        t.set("graphs", bag(g, 2, |g| bag(g, 3, |g| subject(g, d))));
    }
    t
}

/// What is in a graph: lists are no list objects there.
fn subject(g: &mut Src, depth: usize) -> J {
    if g.chance(1, 6) {
        list(g, depth)
    } else {
        thing(g, depth)
    }
}

fn gen(g: &mut Src) -> J {
    let mode = g.below(10);
    match mode {
        0 | 1 => {
            let mut j = (p25::PROP.gen)(g);
            j.set("how", s("expanded"));
            j
        }
        2 | 3 => {
            let d = g.range(1, 4);
            obj(vec![("how", s(if mode == 2 { "object" } else { "node" })), ("thing", object(g, d))])
        }
        _ => {
            let d = g.range(1, 4);
            let n = g.range(0, 3);
            let graphs = (0..n)
                .map(|_| {
                    let name = match g.below(80) {
                        0 => literal(g),
                        1..=25 => obj(vec![]),
                        _ => obj(vec![("id", s(g.pick(&IRIS)))]),
                    };
                    obj(vec![("name", name), ("subjects", bag(g, 3, |g| subject(g, d)))])
                })
                .collect();
            let n = g.range(0, 3);
            obj(vec![
                ("how", s(if g.chance(1, 3) { "interpreted" } else { "dataset" })),
                ("default", J::Arr((0..n).map(|_| bag(g, 3, |g| subject(g, d))).collect())),
                ("named", J::Arr(graphs)),
            ])
        }
    }
}

// ---- the value, as Linked Data -----------------------------------------------------------------

struct Thing<'a>(&'a J);
struct Things<'a>(&'a [J]);
struct Named<'a>(&'a J);
struct Set<'a>(&'a J);

fn at<'a>(j: &'a J, k: &str) -> &'a [J] {
    j.get(k).map(|x| x.items()).unwrap_or(&[])
}
fn pair(j: &J) -> (&J, &[J]) {
    let a = j.items();
    (&a[0], a[1].items())
}
fn term(j: &J) -> J {
    match j {
        J::Str(x) => obj(vec![("id", s(x))]),
        J::Null => obj(vec![]),
        _ => j.clone(),
    }
}

fn rep<V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut>(v: &mut V, j: &J) -> Option<linked_data::RdfTerm<V>> {
    if let Some(i) = j.get("id") {
        let i = i.as_str()?;
        return Some(Term::Id(if i.starts_with("_:") {
            Id::Blank(v.insert_owned_blank_id(BlankIdBuf::new(i.to_string()).ok()?))
        } else {
            Id::Iri(v.insert_owned(IriBuf::new(i.to_string()).ok()?))
        }));
    }
    let (l, t) = (j.get("l")?.as_str()?, j.get("t")?.as_str()?);
    let x = j.get("v")?.as_str()?;
    Some(Term::Literal(match l {
        "any" => RdfLiteral::Any(x.into(), LiteralType::Any(v.insert_owned(IriBuf::new(t.to_string()).ok()?))),
        "lang" => RdfLiteral::Any(x.into(), LiteralType::LangString(langtag::LangTagBuf::new(t.to_string()).ok()?)),
        "json" => RdfLiteral::Json(J::parse(x)?.to_js()),
        _ => {
            let ty = IriBuf::new(t.to_string()).ok()?;
            let ty = linked_data::xsd_types::Datatype::from_iri(&ty)?;
            RdfLiteral::Xsd(ty.parse(x).ok()?)
        }
    }))
}

/// All the literals can be built.
fn buildable(j: &J) -> bool {
    match j {
        J::Arr(a) => a.iter().all(buildable),
        J::Obj(_) if j.has("l") => rep(&mut (), j).is_some(),
        J::Obj(o) => o.iter().all(|e| e.0 == "id" || buildable(&e.1)),
        _ => true,
    }
}

impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataResource<I, V> for Thing<'a> {
    fn interpretation(&self, v: &mut V, _: &mut I) -> ResourceInterpretation<I, V> {
        ResourceInterpretation::Uninterpreted(rep(v, self.0).map(CowRdfTerm::Owned))
    }
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataSubject<I, V> for Thing<'a> {
    fn visit_subject<S: SubjectVisitor<I, V>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
        for p in at(self.0, "props") {
            let (p, o) = pair(p);
            v.predicate(&Thing(&term(p)), &Things(o))?;
        }
        for p in at(self.0, "reverse") {
            let (p, o) = pair(p);
            v.reverse_predicate(&Thing(&term(p)), &Things(o))?;
        }
        for g in at(self.0, "graphs") {
            v.graph(&Things(g.items()))?;
        }
        for t in at(self.0, "included") {
            v.include(&Thing(t))?;
        }
        v.end()
    }
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataPredicateObjects<I, V> for Things<'a> {
    fn visit_objects<S: PredicateObjectsVisitor<I, V>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
        for t in self.0 {
            v.object(&Thing(t))?;
        }
        v.end()
    }
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataGraph<I, V> for Things<'a> {
    fn visit_graph<S: GraphVisitor<I, V>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
        for t in self.0 {
            v.subject(&Thing(t))?;
        }
        v.end()
    }
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataResource<I, V> for Named<'a> {
    fn interpretation(&self, v: &mut V, _: &mut I) -> ResourceInterpretation<I, V> {
        ResourceInterpretation::Uninterpreted(self.0.get("name").and_then(|n| rep(v, n)).map(CowRdfTerm::Owned))
    }
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataGraph<I, V> for Named<'a> {
    fn visit_graph<S: GraphVisitor<I, V>>(&self, v: S) -> Result<S::Ok, S::Error> {
        Things(at(self.0, "subjects")).visit_graph(v)
    }
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedData<I, V> for Set<'a> {
    fn visit<S: Visitor<I, V>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
        for g in at(self.0, "default") {
            v.default_graph(&Things(g.items()))?;
        }
        for g in at(self.0, "named") {
            v.named_graph(&Named(g))?;
        }
        v.end()
    }
}

// ---- the dataset it describes ------------------------------------------------------------------

#[derive(Default)]
struct Oracle {
    facts: BTreeSet<Fact>,
    next: usize,
    /// Lists: how many, and how many items.
    lists: (usize, usize),
    empty: bool,
}

fn xsd_number(v: &str) -> Option<J> {
    let (neg, d) = match v.as_bytes().first()? {
        b'-' => (true, &v[1..]),
        b'+' => (false, &v[1..]),
        _ => (false, v),
    };
    let (i, f) = d.split_once('.').unwrap_or((d, ""));
    let i = i.trim_start_matches('0');
    let f = f.trim_end_matches('0');
    let n = format!("{}{}", if i.is_empty() { "0" } else { i }, if f.is_empty() { String::new() } else { format!(".{f}") });
    Some(J::Num(format!("{}{n}", if neg && n != "0" { "-" } else { "" })))
}

impl Oracle {
    fn fresh(&mut self) -> Tok {
        self.next += 1;
        Tok::B(format!("_:anon{}", self.next))
    }
    fn node(&mut self, j: &J) -> Option<Tok> {
        match j.get("id") {
            Some(i) => Some(rdf::term(i.as_str()?)),
            None if j.has("l") => None,
            None => Some(self.fresh()),
        }
    }
    fn pred(&mut self, j: &J) -> Option<Tok> {
        Some(rdf::term(j.as_str()?))
    }
    fn object(&mut self, g: &Tok, j: &J) -> Option<Tok> {
        if j.has("l") {
            let (l, v, t) = (j.get("l")?.as_str()?, j.get("v")?.as_str()?, j.get("t")?.as_str()?);
            return Some(match l {
                "lang" => rdf::lit(v, "", Some(t)),
                "xsd" => {
                    let native = match t.strip_prefix(XSD)? {
                        "boolean" => Some(J::Bool(v == "true" || v == "1")),
                        "string" | "double" | "float" | "date" | "dateTime" | "anyURI" | "hexBinary" => None,
                        _ => Some(xsd_number(v)?),
                    };
                    match native {
                        Some(n) => {
                            let n = obj(vec![("@value", n)]);
                            let doc = J::Arr(vec![obj(vec![("@id", s("urn:s")), ("urn:p", J::Arr(vec![n]))])]);
                            rdf::to_rdf(&doc, Dir::None, true).ok()?.into_iter().next()?[3].clone()
                        }
                        None => rdf::lit(v, t, None),
                    }
                }
                _ => rdf::lit(v, t, None),
            });
        }
        self.visit(g, j, true)
    }
    fn subject(&mut self, g: &Tok, j: &J) -> Option<Tok> {
        self.visit(g, j, false)
    }
    fn visit(&mut self, g: &Tok, j: &J, object: bool) -> Option<Tok> {
        let n = self.node(j)?;
        for p in at(j, "props") {
            let (p, objects) = pair(p);
            let p = self.pred(p)?;
            self.empty |= objects.is_empty();
            let rest = object && p == rdf::term(&rdfi("rest")) && Self::cell(j);
            for o in objects {
                if Self::cell(o) {
                    if !rest {
                        self.lists.0 += 1;
                    }
                    self.lists.1 += 1;
                }
                let o = self.object(g, o)?;
                self.facts.insert(vec![g.clone(), n.clone(), p.clone(), o]);
            }
        }
        for p in at(j, "reverse") {
            let (p, objects) = pair(p);
            let p = self.pred(p)?;
            for o in objects {
                let o = self.subject(g, o)?;
                self.facts.insert(vec![g.clone(), o, p.clone(), n.clone()]);
            }
        }
        for t in at(j, "included") {
            self.subject(g, t)?;
        }
        for gr in at(j, "graphs") {
            for t in gr.items() {
                self.subject(&n, t)?;
            }
        }
        Some(n)
    }
    /// An anonymous node which is nothing but a list.
    fn cell(j: &J) -> bool {
        let props = at(j, "props");
        let one = |n: &str| {
            let mut it = props.iter().map(pair).filter(|(p, _)| p.as_str() == Some(&rdfi(n)));
            match (it.next(), it.next()) {
                (Some((_, [o])), None) => Some(o),
                _ => None,
            }
        };
        if j.has("id") || j.has("l") || props.len() != 2 {
            return false;
        }
        if !at(j, "reverse").is_empty() || !at(j, "included").is_empty() || !at(j, "graphs").is_empty() {
            return false;
        }
        match (one("first"), one("rest")) {
            (Some(_), Some(r)) => Self::cell(r) || nil(r),
            _ => false,
        }
    }
}
fn nil(j: &J) -> bool {
    j.get("id").and_then(|i| i.as_str()) == Some(&rdfi("nil"))
        && ["props", "reverse", "included", "graphs"].iter().all(|k| at(j, k).is_empty())
}

fn anonymous(j: &J) -> bool {
    match j {
        J::Arr(a) => a.iter().any(anonymous),
        J::Obj(_) if j.has("l") => false,
        J::Obj(o) => (!j.has("id") && !j.has("default")) || o.iter().any(|e| anonymous(&e.1)),
        _ => false,
    }
}
fn facts(j: &J) -> Option<BTreeSet<Fact>> {
    let mut o = Oracle::default();
    if j.has("subjects") {
        let g = o.node(j.get("name")?)?;
        for t in at(j, "subjects") {
            o.subject(&g, t)?;
        }
        o.facts.insert(vec![Tok::C("name".into()), g.clone(), g.clone(), g]);
    } else {
        let n = o.subject(&Tok::C("@default".into()), j)?;
        o.facts.insert(vec![Tok::C("name".into()), n.clone(), n.clone(), n]);
    }
    Some(p25::normalize(o.facts))
}
/// Documents, graphs and included blocks are sets: two of their members are
/// one if they are equal, which makes the same node of two anonymous ones.
fn siblings(set: &[&J]) -> bool {
    set.iter().enumerate().any(|(i, a)| {
        anonymous(a)
            && set[..i].iter().any(|b| match (facts(a), facts(b)) {
                (Some(a), Some(b)) => a.len() == b.len() && iso::isomorphic(&a, &b) != Some(false),
                _ => false,
            })
    })
}
fn ambiguous(j: &J) -> bool {
    match j {
        J::Arr(a) => a.iter().any(ambiguous),
        J::Obj(o) => {
            let top: Vec<&J> = at(j, "default").iter().flat_map(|g| g.items()).chain(at(j, "named")).collect();
            let sets = [at(j, "included").iter().collect(), at(j, "graphs").iter().flat_map(|g| g.items()).collect(), at(j, "subjects").iter().collect(), top];
            sets.iter().any(|s| siblings(s)) || o.iter().any(|e| ambiguous(&e.1))
        }
        _ => false,
    }
}

fn count_lists(j: &J) -> (usize, usize) {
    let mut r = (0, 0);
    j.walk(&mut |x| {
        if let Some(l) = x.get("@list") {
            r.0 += 1;
            r.1 += l.items().len();
        }
    });
    r
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    run(j, tags).unwrap_or(Outcome::pass(false))
}

fn verdict(model: BTreeSet<Fact>, got: BTreeSet<Fact>, shown: &J, tags: &mut Tags) -> Outcome {
    match iso::isomorphic(&model, &got) {
        Some(true) => {
            if model.iter().any(|f| f[0] != Tok::C("@default".into())) {
                tags.tag("named-graph");
            }
            Outcome::pass(model.len() > 2)
        }
        Some(false) => Outcome::fail("diff", format!("serialized: {shown}\nexpected:\n{}got:\n{}", iso::show(&model), iso::show(&got))),
        None => {
            tags.tag("undecided");
            Outcome::pass(false)
        }
    }
}

fn run(j: &J, tags: &mut Tags) -> Option<Outcome> {
    let mode = j.get("how")?.as_str()?;
    if mode == "expanded" {
        return expanded(j, tags);
    }
    if !buildable(j) || ambiguous(j) {
        tags.tag("ambiguous");
        return Some(Outcome::pass(false));
    }
    let mut o = Oracle::default();
    let dg = Tok::C("@default".into());
    let (ok, got): (bool, Result<J, String>) = match mode {
        "object" | "node" => {
            let t = j.get("thing")?;
            let root = rdf::term("urn:root");
            let x = if mode == "node" { o.subject(&dg, t) } else { o.object(&dg, t) };
            if let Some(x) = &x {
                if mode == "object" && Oracle::cell(t) {
                    o.lists.0 += 1;
                    o.lists.1 += 1;
                }
                o.facts.insert(vec![dg.clone(), root, rdf::term("urn:p"), x.clone()]);
            }
            let r = if mode == "object" {
                ser::serialize_object(&Thing(t)).map_err(|e| e.to_string())
            } else {
                ser::serialize_node(&Thing(t)).map(json_ld_core::Object::node).map_err(|e| e.to_string())
            };
            let r = r.map(|x| {
                let mut e = imp::Exp::new();
                let mut n = json_ld_core::Node::with_id(json_ld_core::Id::Valid(Id::Iri(imp::iri("urn:root"))));
                n.properties_mut().insert(json_ld_core::Id::Valid(Id::Iri(imp::iri("urn:p"))), json_ld_core::Indexed::none(x));
                e.insert(json_ld_core::Indexed::none(json_ld_core::Object::node(n)));
                imp::exp_to_j(&e)
            });
            (x.is_some(), r)
        }
        _ => {
            let mut ok = true;
            for g in at(j, "default") {
                for t in g.items() {
                    ok &= o.subject(&dg, t).is_some();
                }
            }
            for g in at(j, "named") {
                match o.node(g.get("name")?) {
                    Some(n) => {
                        for t in at(g, "subjects") {
                            ok &= o.subject(&n, t).is_some();
                        }
                    }
                    None => ok = false,
                }
            }
            let r = if mode == "interpreted" {
                let mut v: IndexVocabulary = IndexVocabulary::new();
                let mut i: Indexed = Indexed::new();
                let r: Result<json_ld_core::ExpandedDocument<_, _>, _> = ser::serialize_with(&mut v, &mut i, &Set(j));
                r.map(|e| imp::exp_to_j_v(&v, &e)).map_err(|e| e.to_string())
            } else {
                ser::serialize(&Set(j)).map(|e| imp::exp_to_j(&e)).map_err(|e| e.to_string())
            };
            (ok, r)
        }
    };
    tags.tag(match mode {
        "object" => "object",
        "node" => "node",
        "interpreted" => "interpreted",
        _ => "dataset",
    });
    let got = match (ok, got) {
        (true, Err(e)) => return Some(Outcome::fail("error", e)),
        (false, Ok(r)) => return Some(Outcome::fail("accepted", format!("serialized: {r}"))),
        (false, Err(_)) => {
            tags.tag("rejected");
            return Some(Outcome::pass(true));
        }
        (true, Ok(r)) => r,
    };
    let facts = match rdf::to_rdf(&got, Dir::None, true) {
        Ok(f) => p25::normalize(f),
        Err(e) => return Some(Outcome::fail("invalid", format!("{e:?}: {got}"))),
    };
    if !o.empty && count_lists(&got) != o.lists {
        return Some(Outcome::fail("lists", format!("serialized: {got}\nlists and items: {:?}, expected {:?}", count_lists(&got), o.lists)));
    }
    if o.lists.0 > 0 {
        tags.tag("list");
    }
    Some(verdict(p25::normalize(o.facts), facts, &got, tags))
}

/// Gives an identifier to every node, removes the indexes.
fn label(j: &mut J, n: &mut usize) {
    match j {
        J::Arr(a) => a.iter_mut().for_each(|x| label(x, n)),
        J::Obj(_) => {
            if let J::Obj(o) = j {
                o.retain(|e| e.0 != "@index");
            }
            if !j.has("@value") && !j.has("@list") && !j.has("@id") {
                *n += 1;
                let l = s(&format!("_:label{n}"));
                j.set("@id", l);
            }
            if let J::Obj(o) = j {
                for e in o {
                    match (&mut e.1, e.0.as_str()) {
                        (J::Obj(r), "@reverse") => r.iter_mut().for_each(|e| label(&mut e.1, n)),
                        (_, "@id" | "@type" | "@value") => (),
                        (v, _) => label(v, n),
                    }
                }
            }
        }
        _ => (),
    }
}

fn narrow(f: BTreeSet<Fact>) -> BTreeSet<Fact> {
    f.into_iter()
        .map(|f| {
            f.into_iter()
                .map(|t| match &t {
                    Tok::C(c) => match c.strip_suffix('>').and_then(|c| c.rsplit_once("^^<")) {
                        Some((v, ty)) if !v.starts_with('"') && ty.starts_with(XSD) && v.parse::<f64>().is_ok() => Tok::C(format!("{v}^^number")),
                        _ => t,
                    },
                    _ => t,
                })
                .collect()
        })
        .collect()
}

fn expanded(j: &J, tags: &mut Tags) -> Option<Outcome> {
    let case = Case::parse(j)?;
    let mut e = imp::exp_to_j(&imp::expand_raw(&case).ok()?);
    if !p25::clean(&e) {
        tags.tag("not-clean");
        return Some(Outcome::pass(false));
    }
    let mut typed = false;
    e.walk(&mut |x| typed |= x.has(&rdfi("type")));
    if typed {
        return Some(Outcome::pass(false));
    }
    label(&mut e, &mut 0);
    let model = match rdf::to_rdf(&e, Dir::None, false) {
        Ok(m) => narrow(p25::normalize(m)),
        Err(_) => return Some(Outcome::pass(false)),
    };
    let exp = imp::exp_from_j(&e).ok()?;
    tags.tag("expanded");
    Some(match ser::serialize(&exp) {
        Err(x) => Outcome::fail("error", format!("{x}: {e}")),
        Ok(r) => {
            let r = imp::exp_to_j(&r);
            match rdf::to_rdf(&r, Dir::None, true) {
                Ok(f) => verdict(model, narrow(p25::normalize(f)), &r, tags),
                Err(x) => Outcome::fail("invalid", format!("{x:?}: {r}")),
            }
        }
    })
}
