use super::context::*;
use super::expand::{is_graph, is_simple_graph};
use super::iri::*;
use super::R;
use crate::j::{s, J};
use std::collections::BTreeMap;
use std::rc::Rc;

/// container -> (type/language -> (value -> term))
type Inverse = BTreeMap<String, BTreeMap<String, BTreeMap<&'static str, BTreeMap<String, String>>>>;

pub struct Compactor<'e> {
    pub env: &'e Env,
    pub compact_arrays: bool,
    pub ordered: bool,
}

/// Context together with its (lazily shared) inverse.
#[derive(Clone)]
pub struct CCtx {
    pub c: Rc<Ctx>,
    inv: Rc<Inverse>,
}

impl CCtx {
    pub fn new(c: Ctx) -> Self {
        let inv = Rc::new(inverse(&c));
        CCtx { c: Rc::new(c), inv }
    }
}

fn lang_dir(l: &Option<String>, d: &Option<String>) -> String {
    match (l, d) {
        (l, Some(d)) => format!("{}_{d}", l.clone().unwrap_or_default()).to_ascii_lowercase(),
        (Some(l), None) => l.to_ascii_lowercase(),
        (None, None) => "@none".into(),
    }
}

/// Inverse Context Creation.
fn inverse(c: &Ctx) -> Inverse {
    let mut r: Inverse = BTreeMap::new();
    let default_language = lang_dir(&c.language, &c.direction);
    let mut terms: Vec<&String> = c.terms.keys().collect();
    // shortest first, then lexicographically
    terms.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
    for t in terms {
        let d = &c.terms[t];
        let iri = match &d.iri {
            Some(i) => i,
            None => continue,
        };
        let container = if d.container.is_empty() {
            "@none".to_string()
        } else {
            d.container.iter().cloned().collect::<Vec<_>>().concat()
        };
        let e = r.entry(iri.clone()).or_default().entry(container).or_default();
        for k in ["@any", "@language", "@type"] {
            e.entry(k).or_default();
        }
        e.get_mut("@any").unwrap().entry("@none".into()).or_insert_with(|| t.clone());
        let mut put = |k: &'static str, v: &str| {
            e.get_mut(k).unwrap().entry(v.to_string()).or_insert_with(|| t.clone());
        };
        if d.reverse {
            put("@type", "@reverse");
        } else if d.ty.as_deref() == Some("@none") {
            put("@language", "@any");
            put("@type", "@any");
        } else if let Some(ty) = &d.ty {
            put("@type", ty);
        } else if let (Some(l), Some(dir)) = (&d.language, &d.direction) {
            let v = match (l, dir) {
                (Some(l), Some(d)) => format!("{l}_{d}").to_ascii_lowercase(),
                (Some(l), None) => l.to_ascii_lowercase(),
                (None, Some(d)) => format!("_{d}"),
                (None, None) => "@null".into(),
            };
            put("@language", &v);
        } else if let Some(l) = &d.language {
            put("@language", &l.clone().map(|l| l.to_ascii_lowercase()).unwrap_or("@null".into()));
        } else if let Some(dir) = &d.direction {
            put("@language", &dir.clone().map(|d| format!("_{d}")).unwrap_or("@none".into()));
        } else if let Some(dir) = &c.direction {
            put(
                "@language",
                &format!("{}_{dir}", c.language.clone().unwrap_or_default()).to_ascii_lowercase(),
            );
            put("@language", "@none");
            put("@type", "@none");
        } else {
            put("@language", &default_language);
            put("@language", "@none");
            put("@type", "@none");
        }
    }
    r
}

pub fn add_value(o: &mut J, k: &str, v: J, as_array: bool) {
    if as_array && !o.get(k).map(|x| x.is_arr()).unwrap_or(false) {
        let old = o.get(k).cloned();
        o.set(k, J::Arr(old.into_iter().collect()));
    }
    if let J::Arr(a) = v {
        for x in a {
            add_value(o, k, x, as_array);
        }
    } else {
        match o.get_mut(k) {
            None => o.set(k, v),
            Some(J::Arr(a)) => a.push(v),
            Some(x) => {
                let old = x.clone();
                *x = J::Arr(vec![old, v]);
            }
        }
    }
}

impl<'e> Compactor<'e> {
    /// Whole document compaction, without the `@context` entry.
    pub fn doc(&self, ctx: Ctx, expanded: &J) -> R<J> {
        let c = CCtx::new(ctx);
        let r = self.element(&c, None, expanded)?;
        Ok(match r {
            J::Arr(a) if a.is_empty() => J::Obj(vec![]),
            J::Arr(a) => J::Obj(vec![(self.kw(&c, "@graph")?, J::Arr(a))]),
            o => o,
        })
    }

    fn kw(&self, c: &CCtx, k: &str) -> R<String> {
        self.iri(c, k, None, true, false)
    }

    pub fn element(&self, active: &CCtx, prop: Option<&str>, el: &J) -> R<J> {
        let env = self.env;
        if el.is_scalar() || el.is_null() {
            return Ok(el.clone());
        }
        if let J::Arr(a) = el {
            let mut r = vec![];
            for x in a {
                let y = self.element(active, prop, x)?;
                if !y.is_null() {
                    r.push(y);
                }
            }
            if r.len() != 1
                || !self.compact_arrays
                || prop == Some("@graph")
                || prop == Some("@set")
                || active.c.container_has(prop, "@list")
                || active.c.container_has(prop, "@set")
            {
                return Ok(J::Arr(r));
            }
            return Ok(r.pop().unwrap());
        }
        let type_scoped = active.clone();
        let mut a = active.clone();
        let o = el.as_obj().unwrap();
        if let Some(p) = &active.c.previous {
            if !el.has("@value") && !(el.len() == 1 && el.has("@id")) {
                env.hit("cmp:revert");
                a = CCtx::new((**p).clone());
            }
        }
        // the property scoped context is taken from the original active context
        if let Some(d) = prop.and_then(|p| active.c.def(p)) {
            if let Some(c) = &d.context {
                env.hit("cmp:psc");
                a = CCtx::new(process(env, &a.c, c, &ProcOpts::new(d.base_url.clone()).overriding())?);
            }
        }
        let json_term = prop.and_then(|p| a.c.def(p)).and_then(|d| d.ty.as_deref()) == Some("@json");
        if json_term && !el.has("@value") {
            env.hit("unspec:json-on-node");
        }
        if el.has("@value") || el.has("@id") {
            let r = self.value(&a, prop, el)?;
            if r.is_scalar() || r.is_null() || json_term {
                return Ok(r);
            }
            if el.has("@value") {
                // arrays and objects of JSON literals, or the compacted value object
                return Ok(r);
            }
        }
        if el.has("@list") && a.c.container_has(prop, "@list") {
            return self.element(&a, prop, el.get("@list").unwrap());
        }
        let inside_reverse = prop == Some("@reverse");
        let mut result = J::Obj(vec![]);
        if let Some(t) = el.get("@type") {
            let mut cts = vec![];
            for x in t.items() {
                if let J::Str(x) = x {
                    cts.push(self.iri(&type_scoped, x, None, true, false)?);
                }
            }
            cts.sort();
            for t in cts {
                if let Some(d) = type_scoped.c.def(&t) {
                    if let Some(c) = &d.context {
                        env.hit("cmp:type-scoped");
                        a = CCtx::new(process(env, &a.c, c, &ProcOpts::new(d.base_url.clone()).propagate(false))?);
                    }
                }
            }
        }
        let mut entries: Vec<_> = o.iter().collect();
        if self.ordered {
            entries.sort_by(|x, y| x.0.cmp(&y.0));
        }
        for (ep, ev) in entries {
            match ep.as_str() {
                "@id" => {
                    let v = self.iri(&a, ev.as_str().unwrap_or(""), None, false, false)?;
                    let k = self.kw(&a, "@id")?;
                    result.set(&k, J::Str(v));
                    continue;
                }
                "@type" => {
                    let alias = self.kw(&a, "@type")?;
                    let mut cv = vec![];
                    for x in ev.items() {
                        cv.push(J::Str(self.iri(&type_scoped, x.as_str().unwrap_or(""), None, true, false)?));
                    }
                    let as_array =
                        (!env.mode10 && a.c.container_has(Some(&alias), "@set")) || !self.compact_arrays;
                    if cv.is_empty() {
                        add_value(&mut result, &alias, J::Arr(vec![]), true);
                    } else {
                        add_value(&mut result, &alias, J::Arr(cv), as_array);
                    }
                    continue;
                }
                "@reverse" => {
                    let mut cv = self.element(&a, Some("@reverse"), ev)?;
                    let keys: Vec<String> = cv.as_obj().map(|o| o.iter().map(|e| e.0.clone()).collect()).unwrap_or_default();
                    for k in keys {
                        if let Some(d) = a.c.def(&k) {
                            if d.reverse {
                                env.hit("cmp:reverse-term");
                                let as_array = d.has("@set") || !self.compact_arrays;
                                let v = cv.remove(&k).unwrap();
                                add_value(&mut result, &k, v, as_array);
                            }
                        }
                    }
                    if cv.len() > 0 {
                        let k = self.kw(&a, "@reverse")?;
                        result.set(&k, cv);
                    }
                    continue;
                }
                "@index" if a.c.container_has(prop, "@index") => continue,
                "@direction" | "@index" | "@language" | "@value" => {
                    let k = self.kw(&a, ep)?;
                    result.set(&k, ev.clone());
                    continue;
                }
                _ => (),
            }
            if ev.items().is_empty() {
                let iap = self.iri(&a, ep, Some(ev), true, inside_reverse)?;
                let nest = self.nest_key(&a, &iap)?;
                let t = target(&mut result, &nest);
                if !t.has(&iap) {
                    t.set(&iap, J::Arr(vec![]));
                }
                env.hit("cmp:empty");
            }
            for ei in ev.items() {
                let iap = self.iri(&a, ep, Some(ei), true, inside_reverse)?;
                let nest = self.nest_key(&a, &iap)?;
                if nest.is_some() {
                    env.hit("cmp:nest");
                }
                let has = |c: &str| a.c.container_has(Some(&iap), c);
                let as_array = has("@set") || iap == "@graph" || iap == "@list" || !self.compact_arrays;
                let list = ei.get("@list");
                let graph = if is_graph(ei) { ei.get("@graph") } else { None };
                let inner = list.or(graph).unwrap_or(ei);
                let mut ci = self.element(&a, Some(&iap), inner)?;
                if ei.has("@value") && ci.is_arr() {
                    // a JSON literal: add value flattens it
                    env.hit("cmp:json-array");
                    if ci.len() == 0 || ci.items().iter().any(|x| x.is_arr()) {
                        env.hit("unspec:json-nested-array");
                    }
                }
                if list.is_some() {
                    ci = J::Arr(ci.arrayify());
                    if !has("@list") {
                        if has("@language") || has("@id") || has("@type") {
                            env.hit("unspec:list-in-map");
                        }
                        env.hit("cmp:list-object");
                        let mut l = J::Obj(vec![(self.kw(&a, "@list")?, ci)]);
                        if let Some(i) = ei.get("@index") {
                            l.set(&self.kw(&a, "@index")?, i.clone());
                        }
                        ci = l;
                    } else {
                        env.hit("cmp:list-container");
                        target(&mut result, &nest).set(&iap, ci);
                        continue;
                    }
                }
                if graph.is_some() {
                    if has("@graph") && (has("@id") || (has("@index") && is_simple_graph(ei))) {
                        let key = if has("@id") {
                            env.hit("cmp:graph-id");
                            match ei.get("@id") {
                                Some(J::Str(i)) => self.iri(&a, i, None, false, false)?,
                                _ => self.kw(&a, "@none")?,
                            }
                        } else {
                            env.hit("cmp:graph-index");
                            match ei.get("@index") {
                                Some(J::Str(i)) => i.clone(),
                                // literally @none
                                _ => "@none".into(),
                            }
                        };
                        let t = target(&mut result, &nest);
                        if !t.has(&iap) {
                            t.set(&iap, J::Obj(vec![]));
                        }
                        if !t.get(&iap).unwrap().is_obj() {
                            env.hit("unspec:graph-mixed");
                            continue;
                        }
                        if ci.is_arr() && ci.len() == 0 && t.get(&iap).unwrap().has(&key) {
                            env.hit("unspec:empty-graph-in-map");
                        }
                        add_value(t.get_mut(&iap).unwrap(), &key, ci, as_array);
                    } else if has("@graph") && is_simple_graph(ei) {
                        env.hit("cmp:graph-simple");
                        if ci.is_arr() && ci.len() == 0 && target(&mut result, &nest).has(&iap) {
                            env.hit("unspec:empty-graph-in-map");
                        }
                        if let J::Arr(x) = &ci {
                            if x.len() > 1 {
                                ci = J::Obj(vec![(self.kw(&a, "@included")?, ci)]);
                            }
                        }
                        add_value(target(&mut result, &nest), &iap, ci, as_array);
                    } else {
                        env.hit("cmp:graph-object");
                        if has("@graph") && has("@index") {
                            env.hit("unspec:graph-mixed");
                        }
                        let mut g = J::Obj(vec![(self.kw(&a, "@graph")?, ci)]);
                        if let Some(J::Str(i)) = ei.get("@id") {
                            g.set(&self.kw(&a, "@id")?, J::Str(self.iri(&a, i, None, false, false)?));
                        }
                        if let Some(i) = ei.get("@index") {
                            g.set(&self.kw(&a, "@index")?, i.clone());
                        }
                        if !has("@graph") && has("@index") {
                            // the specification loses the graph here
                            env.hit("cmp:graph-in-index");
                            let by_property = a.c.def(&iap).map(|d| d.index.is_some()).unwrap_or(false);
                            let key = match ei.get("@index") {
                                Some(J::Str(i)) if !by_property => i.clone(),
                                _ => self.kw(&a, "@none")?,
                            };
                            let t = target(&mut result, &nest);
                            if !t.has(&iap) {
                                t.set(&iap, J::Obj(vec![]));
                            }
                            add_value(t.get_mut(&iap).unwrap(), &key, g, as_array);
                            continue;
                        }
                        add_value(target(&mut result, &nest), &iap, g, as_array);
                    }
                } else if !has("@graph") && (has("@language") || has("@index") || has("@id") || has("@type")) {
                    let kind = if has("@language") {
                        "@language"
                    } else if has("@index") {
                        "@index"
                    } else if has("@id") {
                        "@id"
                    } else {
                        "@type"
                    };
                    let mut ck = self.kw(&a, kind)?;
                    let index_key = a.c.def(&iap).and_then(|d| d.index.clone()).unwrap_or("@index".into());
                    let mut key: Option<String> = None;
                    if kind == "@language" && ei.has("@value") {
                        env.hit("cmp:langmap");
                        ci = ei.get("@value").unwrap().clone();
                        key = ei.get("@language").and_then(|l| l.as_str()).map(|l| l.to_string());
                    } else if kind == "@index" && index_key == "@index" {
                        env.hit("cmp:index");
                        key = ei.get("@index").and_then(|l| l.as_str()).map(|l| l.to_string());
                    } else if kind == "@index" {
                        env.hit("cmp:prop-index");
                        let full = expand_iri_simple(&a.c, &index_key, false, true).unwrap_or_default();
                        ck = self.iri(&a, &full, None, true, false)?;
                        key = self.take_first_string(&mut ci, &ck, self.compact_arrays);
                    } else if kind == "@id" {
                        env.hit("cmp:idmap");
                        key = match ci.remove(&ck) {
                            Some(J::Str(i)) => Some(i),
                            _ => None,
                        };
                    } else if kind == "@type" {
                        env.hit("cmp:typemap");
                        key = self.take_first_string(&mut ci, &ck, self.compact_arrays);
                        if ci.len() == 1 && ci.is_obj() {
                            let only = &ci.as_obj().unwrap()[0].0;
                            if ei.has("@id") && expand_iri_simple(&a.c, only, false, true).as_deref() == Some("@id") {
                                ci = self.element(
                                    &a,
                                    Some(&iap),
                                    &J::Obj(vec![("@id".into(), ei.get("@id").unwrap().clone())]),
                                )?;
                            }
                        }
                    }
                    let key = match key {
                        Some(k) => k,
                        None => self.kw(&a, "@none")?,
                    };
                    let t = target(&mut result, &nest);
                    if !t.has(&iap) {
                        t.set(&iap, J::Obj(vec![]));
                    }
                    if !t.get(&iap).unwrap().is_obj() {
                        env.hit("unspec:graph-mixed");
                        continue;
                    }
                    add_value(t.get_mut(&iap).unwrap(), &key, ci, as_array);
                } else {
                    add_value(target(&mut result, &nest), &iap, ci, as_array);
                }
            }
        }
        Ok(result)
    }

    fn take_first_string(&self, ci: &mut J, ck: &str, compact_arrays: bool) -> Option<String> {
        if !ci.is_obj() {
            return None;
        }
        let v = ci.get(ck)?.clone();
        let items = v.arrayify();
        let first = items.first()?.as_str()?.to_string();
        let rest: Vec<J> = items[1..].to_vec();
        ci.remove(ck);
        if !rest.is_empty() {
            let _ = compact_arrays;
            let v = if rest.len() == 1 { rest[0].clone() } else { J::Arr(rest) };
            add_value(ci, ck, v, false);
        }
        Some(first)
    }

    fn nest_key(&self, a: &CCtx, iap: &str) -> R<Option<String>> {
        match a.c.def(iap).and_then(|d| d.nest.clone()) {
            None => Ok(None),
            Some(n) => {
                if n != "@nest" && expand_iri_simple(&a.c, &n, false, true).as_deref() != Some("@nest") {
                    return Err("invalid @nest value");
                }
                Ok(Some(n))
            }
        }
    }

    /// IRI Compaction.
    pub fn iri(&self, a: &CCtx, var: &str, value: Option<&J>, vocab: bool, reverse: bool) -> R<String> {
        let env = self.env;
        let c = &a.c;
        if vocab && a.inv.contains_key(var) {
            let default_language = lang_dir(&c.language, &c.direction);
            let mut containers: Vec<&str> = vec![];
            let mut tl = "@language";
            let mut tlv = "@null".to_string();
            let v = value.filter(|v| v.is_obj());
            let has = |k: &str| v.map(|v| v.has(k)).unwrap_or(false);
            let graph = v.map(is_graph).unwrap_or(false);
            let mut empty_list = false;
            if has("@index") && !graph {
                containers.extend(["@index", "@index@set"]);
            }
            if reverse {
                if graph && has("@index") {
                    env.hit("unspec:reverse-indexed-graph");
                }
                tl = "@type";
                tlv = "@reverse".into();
                containers.push("@set");
            } else if has("@list") {
                if !has("@index") {
                    containers.push("@list");
                }
                let list = v.unwrap().get("@list").unwrap().items();
                let mut ct: Option<String> = None;
                let mut cl: Option<String> = None;
                if list.is_empty() {
                    cl = Some(default_language.clone());
                    empty_list = true;
                }
                for item in list {
                    let mut il = "@none".to_string();
                    let mut it = "@none".to_string();
                    if item.has("@value") {
                        let l = item.get("@language").and_then(|l| l.as_str());
                        if let Some(J::Str(d)) = item.get("@direction") {
                            il = format!("{}_{d}", l.unwrap_or("")).to_ascii_lowercase();
                        } else if let Some(l) = l {
                            il = l.to_ascii_lowercase();
                        } else if let Some(J::Str(t)) = item.get("@type") {
                            it = t.clone();
                        } else {
                            il = "@null".into();
                        }
                    } else {
                        it = "@id".into();
                    }
                    match &cl {
                        None => cl = Some(il),
                        Some(x) if *x != il && item.has("@value") => cl = Some("@none".into()),
                        _ => (),
                    }
                    match &ct {
                        None => ct = Some(it),
                        Some(x) if *x != it => ct = Some("@none".into()),
                        _ => (),
                    }
                }
                let cl = cl.unwrap_or("@none".into());
                let ct = ct.unwrap_or("@none".into());
                if ct != "@none" {
                    tl = "@type";
                    tlv = ct;
                } else {
                    tlv = cl;
                }
            } else if graph {
                let v = v.unwrap();
                if v.has("@index") {
                    containers.extend(["@graph@index", "@graph@index@set"]);
                }
                if v.has("@id") {
                    containers.extend(["@graph@id", "@graph@id@set"]);
                }
                containers.extend(["@graph", "@graph@set", "@set"]);
                if !v.has("@index") {
                    containers.extend(["@graph@index", "@graph@index@set"]);
                }
                if !v.has("@id") {
                    containers.extend(["@graph@id", "@graph@id@set"]);
                }
                containers.extend(["@index", "@index@set"]);
                tl = "@type";
                tlv = "@id".into();
            } else {
                if has("@value") {
                    let v = v.unwrap();
                    if v.has("@direction") && !v.has("@index") {
                        tlv = format!(
                            "{}_{}",
                            v.get("@language").and_then(|l| l.as_str()).unwrap_or(""),
                            v.get("@direction").unwrap().as_str().unwrap()
                        )
                        .to_ascii_lowercase();
                        containers.extend(["@language", "@language@set"]);
                    } else if v.has("@language") && !v.has("@index") {
                        tlv = v.get("@language").unwrap().as_str().unwrap().to_ascii_lowercase();
                        containers.extend(["@language", "@language@set"]);
                    } else if let Some(J::Str(t)) = v.get("@type") {
                        tl = "@type";
                        tlv = t.clone();
                    }
                } else {
                    tl = "@type";
                    tlv = "@id".into();
                    containers.extend(["@id", "@id@set", "@type", "@set@type"]);
                }
                containers.push("@set");
            }
            containers.push("@none");
            if !env.mode10 && !has("@index") {
                containers.extend(["@index", "@index@set"]);
            }
            if !env.mode10 && has("@value") && v.unwrap().len() == 1 {
                containers.extend(["@language", "@language@set"]);
            }
            let mut pref: Vec<String> = vec![];
            if tlv == "@reverse" {
                pref.push("@reverse".into());
            }
            if (tlv == "@id" || tlv == "@reverse") && has("@id") {
                let id = v.unwrap().get("@id").unwrap().as_str().unwrap_or("");
                let t = self.iri(a, id, None, true, false)?;
                let same = c.def(&t).map(|d| d.iri.as_deref() == Some(id)).unwrap_or(false);
                if same {
                    pref.extend(["@vocab", "@id", "@none"].map(String::from));
                } else {
                    pref.extend(["@id", "@vocab", "@none"].map(String::from));
                }
            } else {
                pref.push(tlv.clone());
                pref.push("@none".into());
                if empty_list {
                    tl = "@any";
                }
            }
            pref.push("@any".into());
            let under: Vec<String> =
                pref.iter().filter_map(|p| p.find('_').map(|i| p[i..].to_string())).collect();
            pref.extend(under);
            // Term Selection
            for k in &containers {
                if let Some(e) = a.inv[var].get(*k) {
                    for p in &pref {
                        if let Some(t) = e[tl].get(p) {
                            if tl == "@any" && c.def(t).map(|d| d.reverse).unwrap_or(false) {
                                env.hit("unspec:any-reverse");
                            }
                            return Ok(t.clone());
                        }
                    }
                }
            }
        }
        if vocab {
            if let Some(vm) = &c.vocab {
                if var.starts_with(vm.as_str()) && var.len() > vm.len() {
                    let suffix = &var[vm.len()..];
                    if c.def(suffix).is_none() {
                        return Ok(suffix.into());
                    }
                }
            }
        }
        let mut best: Option<String> = None;
        for (t, d) in &c.terms {
            let m = match &d.iri {
                Some(m) => m,
                None => continue,
            };
            if m == var || !var.starts_with(m.as_str()) || !d.prefix {
                continue;
            }
            let cand = format!("{t}:{}", &var[m.len()..]);
            let usable = match c.def(&cand) {
                None => true,
                Some(d) => d.iri.as_deref() == Some(var) && value.is_none(),
            };
            if usable {
                let better = match &best {
                    None => true,
                    Some(b) => (cand.len(), &cand) < (b.len(), b),
                };
                if better {
                    best = Some(cand);
                }
            }
        }
        if let Some(b) = best {
            env.hit("cmp:compact-iri");
            return Ok(b);
        }
        if !keyword(var) {
            let p = parts(var);
            if let (Some(sc), None) = (p.scheme, p.authority) {
                if !is_blank(var) && is_iri(var) && c.def(sc).map(|d| d.prefix).unwrap_or(false) {
                    return Err("IRI confused with prefix");
                }
            }
        }
        if !vocab {
            if let Some(b) = &c.base {
                if is_iri(var) && !is_blank(var) && is_iri(b) {
                    let i = iref::Iri::new(var).unwrap();
                    let b = iref::Iri::new(b.as_str()).unwrap();
                    let r = i.relative_to(b).to_string();
                    if keyword_like(&r) {
                        return Ok(format!("./{r}"));
                    }
                    return Ok(r);
                }
            }
        }
        Ok(var.to_string())
    }

    /// Value Compaction.
    pub fn value(&self, a: &CCtx, prop: Option<&str>, v: &J) -> R<J> {
        let c = &a.c;
        let d = prop.and_then(|p| c.def(p));
        let ty = d.and_then(|d| d.ty.as_deref());
        let language = match d.and_then(|d| d.language.clone()) {
            Some(l) => l,
            None => c.language.clone(),
        };
        let direction = match d.and_then(|d| d.direction.clone()) {
            Some(l) => l,
            None => c.direction.clone(),
        };
        let mut result = v.clone();
        let mut extracted = false;
        let others = |allowed: &[&str]| v.as_obj().unwrap().iter().any(|(k, _)| !allowed.contains(&k.as_str()));
        let index_ok = !v.has("@index") || d.map(|d| d.has("@index")).unwrap_or(false);
        if v.has("@id") && !others(&["@id", "@index"]) {
            let id = v.get("@id").unwrap().as_str().unwrap_or("");
            if id.starts_with('@') {
                self.env.hit("unspec:keyword-id");
            }
            match ty {
                Some("@id") => result = J::Str(self.iri(a, id, None, false, false)?),
                Some("@vocab") => result = J::Str(self.iri(a, id, None, true, false)?),
                _ => (),
            }
        } else if v.has("@value") {
            let vt = v.get("@type").and_then(|t| t.as_str());
            if vt.is_none() && ty.is_some() && ty != Some("@none") {
                // the term was not selected for this value: it is the IRI itself
                self.env.hit("unspec:untyped-on-typed");
            }
            // The specification drops @index here; the code keeps it, which is lossless.
            if vt.is_some() && vt == ty && index_ok {
                extracted = true;
                result = v.get("@value").unwrap().clone();
            } else if ty == Some("@none") || vt.is_some() {
                if let Some(t) = vt {
                    result.set("@type", J::Str(self.iri(a, t, None, true, false)?));
                }
            } else if v.get("@value").unwrap().as_str().is_none() {
                if index_ok {
                    result = v.get("@value").unwrap().clone();
                }
            } else {
                let l = v.get("@language").and_then(|l| l.as_str()).map(|l| l.to_ascii_lowercase());
                let dd = v.get("@direction").and_then(|l| l.as_str()).map(|l| l.to_string());
                if l == language.map(|l| l.to_ascii_lowercase()) && dd == direction && index_ok {
                    result = v.get("@value").unwrap().clone();
                }
            }
        } else {
            return Ok(result);
        }
        if result.is_obj() && !extracted {
            let mut r = J::Obj(vec![]);
            for (k, x) in result.as_obj().unwrap() {
                if k == "@index" && d.map(|d| d.has("@index")).unwrap_or(false) {
                    continue;
                }
                let k = self.kw(a, k)?;
                r.set(&k, x.clone());
            }
            return Ok(r);
        }
        Ok(result)
    }
}

fn target<'a>(result: &'a mut J, nest: &Option<String>) -> &'a mut J {
    match nest {
        None => result,
        Some(n) => {
            if !result.has(n) {
                result.set(n, J::Obj(vec![]));
            }
            result.get_mut(n).unwrap()
        }
    }
}
