use super::iri::{is_blank, keyword};
use super::R;
use crate::j::J;
use std::collections::BTreeMap;

pub type Graph = BTreeMap<String, J>;

#[derive(Default)]
pub struct NodeMap {
    pub graphs: BTreeMap<String, Graph>,
    issued: BTreeMap<String, String>,
    next: usize,
    /// Duplicates of equal lists are kept by the specification; some node has
    /// been given a property value twice.
    pub reverse_ignored: bool,
}

/// Where values go.
enum Target {
    None,
    /// Subject id, property.
    Subject(String, String),
    /// The element is the subject of `property` with the given node as object.
    Reverse(String, String),
}

impl NodeMap {
    pub fn new() -> Self {
        let mut r = NodeMap::default();
        r.graphs.insert("@default".into(), Graph::new());
        r
    }
    pub fn blank(&mut self, id: Option<&str>) -> String {
        if let Some(i) = id {
            if let Some(x) = self.issued.get(i) {
                return x.clone();
            }
        }
        let b = format!("_:m{}", self.next);
        self.next += 1;
        if let Some(i) = id {
            self.issued.insert(i.into(), b.clone());
        }
        b
    }
    fn relabel(&mut self, s: &str) -> String {
        if is_blank(s) {
            self.blank(Some(s))
        } else {
            s.to_string()
        }
    }

    pub fn generate(&mut self, doc: &J) -> R<()> {
        self.gen(doc, "@default", &Target::None, &mut None)
    }

    fn node(&mut self, g: &str, id: &str) -> &mut J {
        self.graphs
            .entry(g.into())
            .or_default()
            .entry(id.into())
            .or_insert_with(|| J::Obj(vec![("@id".into(), J::Str(id.into()))]))
    }

    fn add(&mut self, g: &str, subject: &str, prop: &str, v: J, dedup: bool) {
        let n = self.node(g, subject);
        if !n.has(prop) {
            n.set(prop, J::Arr(vec![]));
        }
        if let Some(J::Arr(a)) = n.get_mut(prop) {
            if !dedup || !a.iter().any(|x| x.sorted_keys() == v.sorted_keys()) {
                a.push(v);
            }
        }
    }

    fn gen(&mut self, el: &J, g: &str, t: &Target, list: &mut Option<Vec<J>>) -> R<()> {
        if let J::Arr(a) = el {
            for x in a {
                self.gen(x, g, t, list)?;
            }
            return Ok(());
        }
        let mut el = el.clone();
        match el.get("@type").cloned() {
            Some(J::Arr(ts)) => {
                let ts = ts
                    .into_iter()
                    .map(|x| match x {
                        J::Str(x) => J::Str(self.relabel(&x)),
                        o => o,
                    })
                    .collect();
                el.set("@type", J::Arr(ts));
            }
            Some(J::Str(x)) => {
                let x = self.relabel(&x);
                el.set("@type", J::Str(x));
            }
            _ => (),
        }
        if el.has("@value") {
            match list {
                None => {
                    if let Target::Subject(s, p) = t {
                        self.add(g, s, p, el, true);
                    }
                }
                Some(l) => l.push(el),
            }
            return Ok(());
        }
        if let Some(items) = el.get("@list").cloned() {
            let mut sub = Some(vec![]);
            self.gen(&items, g, t, &mut sub)?;
            let r = J::Obj(vec![("@list".into(), J::Arr(sub.unwrap()))]);
            match list {
                None => {
                    if let Target::Subject(s, p) = t {
                        self.add(g, s, p, r, false);
                    }
                }
                Some(l) => l.push(r),
            }
            return Ok(());
        }
        let id = match el.remove("@id") {
            Some(J::Str(i)) => self.relabel(&i),
            _ => self.blank(None),
        };
        self.node(g, &id);
        match t {
            Target::None => (),
            Target::Reverse(obj, p) => {
                let r = J::Obj(vec![("@id".into(), J::Str(obj.clone()))]);
                self.add(g, &id, p, r, true);
            }
            Target::Subject(s, p) => {
                let r = J::Obj(vec![("@id".into(), J::Str(id.clone()))]);
                match list {
                    None => self.add(g, s, p, r, true),
                    Some(l) => l.push(r),
                }
            }
        }
        if let Some(ts) = el.remove("@type") {
            for x in ts.arrayify() {
                self.add(g, &id, "@type", x, true);
            }
        }
        if let Some(i) = el.remove("@index") {
            let n = self.node(g, &id);
            match n.get("@index") {
                Some(j) if *j != i => return Err("conflicting indexes"),
                _ => n.set("@index", i),
            }
        }
        if let Some(J::Obj(e)) = el.remove("@reverse") {
            for (p, vs) in e {
                let p = self.relabel(&p);
                for v in vs.items() {
                    self.gen(v, g, &Target::Reverse(id.clone(), p.clone()), &mut None)?;
                }
            }
        }
        if let Some(x) = el.remove("@graph") {
            self.graphs.entry(id.clone()).or_default();
            self.gen(&x, &id, &Target::None, &mut None)?;
        }
        if let Some(x) = el.remove("@included") {
            self.gen(&x, g, &Target::None, &mut None)?;
        }
        let mut es = match el {
            J::Obj(e) => e,
            _ => vec![],
        };
        es.sort();
        for (p, v) in es {
            if keyword(&p) {
                continue;
            }
            let p = self.relabel(&p);
            let n = self.node(g, &id);
            if !n.has(&p) {
                n.set(&p, J::Arr(vec![]));
            }
            self.gen(&v, g, &Target::Subject(id.clone(), p), &mut None)?;
        }
        Ok(())
    }

    /// Flattening Algorithm.
    pub fn flatten(mut self) -> J {
        let mut def = self.graphs.remove("@default").unwrap();
        for (name, graph) in self.graphs {
            let e = def
                .entry(name.clone())
                .or_insert_with(|| J::Obj(vec![("@id".into(), J::Str(name.clone()))]));
            let nodes = graph.into_values().filter(|n| n.len() > 1).collect();
            e.set("@graph", J::Arr(nodes));
        }
        J::Arr(def.into_values().filter(|n| n.len() > 1).collect())
    }
}

pub fn flatten(doc: &J) -> R<J> {
    let mut m = NodeMap::new();
    m.generate(doc)?;
    Ok(m.flatten())
}
