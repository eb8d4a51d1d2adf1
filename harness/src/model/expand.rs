use super::context::*;
use super::iri::*;
use super::R;
use crate::j::{s, J};
use std::collections::BTreeSet;

pub struct Expander<'e> {
    pub env: &'e Env,
    pub ordered: bool,
    /// Base IRI of the initial context.
    pub base: Option<String>,
    /// Base URL used to resolve context references.
    pub url: Option<String>,
    pub policy: Policy,
}

/// What is left out of the expanded document.
#[derive(Clone, Copy, Default)]
pub struct Policy {
    pub drop_vocab: bool,
    pub drop_invalid: bool,
}

fn is_value(o: &J) -> bool {
    o.has("@value")
}
fn is_list(o: &J) -> bool {
    o.has("@list")
}
/// Graph object: `@graph` and optionally `@id` and `@index`.
pub fn is_graph(o: &J) -> bool {
    match o {
        J::Obj(e) => {
            o.has("@graph") && e.iter().all(|(k, _)| matches!(k.as_str(), "@graph" | "@id" | "@index" | "@context"))
        }
        _ => false,
    }
}
pub fn is_simple_graph(o: &J) -> bool {
    is_graph(o) && !o.has("@id")
}

/// Push value(s) into the array-valued property `k`.
pub fn add_all(target: &mut J, k: &str, v: J) {
    if !target.has(k) {
        target.set(k, J::Arr(vec![]));
    }
    if let Some(J::Arr(a)) = target.get_mut(k) {
        match v {
            J::Arr(b) => a.extend(b),
            o => a.push(o),
        }
    }
}

impl<'e> Expander<'e> {
    fn iri(&self, c: &Ctx, v: &str, doc_rel: bool, vocab: bool) -> Option<String> {
        expand_iri_simple(c, v, doc_rel, vocab)
    }

    /// A property or type `v`, which expands to `x`, is dropped.
    fn dropped(&self, c: &Ctx, v: &str, x: Option<&str>, ty: bool) -> bool {
        let vocab = needs_vocab(c, v);
        if vocab {
            self.env.hit("pol:vocab");
        }
        let invalid = x.map_or(false, |x| !keyword(x) && !is_iri(x) && !is_blank(x));
        let undefined = !ty && invalid && !x.unwrap_or_default().contains(':');
        if vocab && self.policy.drop_vocab {
            return true;
        }
        if undefined {
            self.env.hit("pol:undefined");
        }
        if invalid {
            self.env.hit("pol:invalid");
        }
        invalid && self.policy.drop_invalid
    }

    fn keys<'a>(&self, o: &'a [(String, J)], ordered: bool) -> Vec<&'a (String, J)> {
        let mut r: Vec<_> = o.iter().collect();
        if ordered {
            r.sort_by(|a, b| a.0.cmp(&b.0));
        }
        r
    }

    /// Whole document expansion.
    pub fn expand_doc(&self, expand_context: Option<&J>, doc: &J) -> R<J> {
        let ctx = self.initial(expand_context)?;
        self.expand_with(&ctx, doc)
    }

    pub fn initial(&self, expand_context: Option<&J>) -> R<Ctx> {
        let mut ctx = Ctx::with_original(self.base.clone(), self.url.clone());
        if let Some(e) = expand_context {
            let e = e.get("@context").unwrap_or(e);
            ctx = process(self.env, &ctx, e, &ProcOpts::new(self.url.clone()))?;
        }
        Ok(ctx)
    }

    pub fn expand_with(&self, ctx: &Ctx, doc: &J) -> R<J> {
        let mut r = self.element(ctx, None, doc, false)?;
        if let J::Obj(o) = &r {
            if o.len() == 1 && o[0].0 == "@graph" {
                r = o[0].1.clone();
            }
        }
        Ok(match r {
            J::Null => J::Arr(vec![]),
            J::Arr(a) => J::Arr(a),
            o => J::Arr(vec![o]),
        })
    }

    pub fn element(&self, active: &Ctx, prop: Option<&str>, el: &J, from_map: bool) -> R<J> {
        let env = self.env;
        if el.is_null() {
            return Ok(J::Null);
        }
        let psc = prop.and_then(|p| active.def(p)).and_then(|d| d.context.clone().map(|c| (c, d.base_url.clone())));
        if el.is_scalar() {
            if prop.is_none() || prop == Some("@graph") {
                return Ok(J::Null);
            }
            let mut a = active.clone();
            if let Some((c, b)) = psc {
                // The specification does not let the context of a scalar override protected
                // terms, although it does for any other value.
                let po = process(env, &a, &c, &ProcOpts::new(b.clone()).overriding())?;
                if process(env, &a, &c, &ProcOpts::new(b)).is_err() {
                    env.hit("unspec:scalar-protected");
                }
                a = po;
                env.hit("exp:scalar-psc");
            }
            return Ok(self.value(&a, prop.unwrap(), el));
        }
        if let J::Arr(items) = el {
            let mut r = vec![];
            let list = active.container_has(prop, "@list");
            for i in items {
                let mut x = self.element(active, prop, i, from_map)?;
                if list {
                    if let J::Arr(a) = x {
                        env.hit("exp:list-of-lists");
                        if !i.is_arr() {
                            env.hit("unspec:set-in-list");
                        }
                        x = J::Obj(vec![("@list".into(), J::Arr(a))]);
                    }
                }
                match x {
                    J::Arr(a) => r.extend(a),
                    J::Null => (),
                    o => r.push(o),
                }
            }
            return Ok(J::Arr(r));
        }
        let o = el.as_obj().unwrap();
        let mut a = active.clone();
        if let Some(prev) = &active.previous {
            if !from_map {
                let has_value = o.iter().any(|(k, _)| self.iri(active, k, false, true).as_deref() == Some("@value"));
                let single_id =
                    o.len() == 1 && self.iri(active, &o[0].0, false, true).as_deref() == Some("@id");
                if !has_value && !single_id {
                    env.hit("exp:revert");
                    a = (**prev).clone();
                }
            }
        }
        if let Some((c, b)) = psc {
            env.hit("exp:psc");
            a = process(env, &a, &c, &ProcOpts::new(b).overriding())?;
        }
        if let Some(c) = el.get("@context") {
            a = process(env, &a, c, &ProcOpts::new(self.url.clone()))?;
        }
        let type_scoped = a.clone();
        let mut input_type = None;
        let mut first = true;
        for (k, v) in self.keys(o, true) {
            if k == "@context" || self.iri(&type_scoped, k, false, true).as_deref() != Some("@type") {
                continue;
            }
            let mut types: Vec<&str> = v.items().iter().filter_map(|x| x.as_str()).collect();
            types.sort();
            if first {
                first = false;
                // last value of the first entry
                if let Some(l) = types.last() {
                    input_type = self.iri(&a, l, true, true);
                }
            }
            for t in types {
                if let Some(d) = type_scoped.def(t) {
                    if let Some(c) = &d.context {
                        env.hit("exp:type-scoped");
                        a = process(env, &a, c, &ProcOpts::new(d.base_url.clone()).propagate(false))?;
                    }
                }
            }
        }
        if a.container_has(prop, "@list") != active.container_has(prop, "@list") {
            env.hit("unspec:list-redefined");
        }
        let mut rev = (false, false);
        self.reverse_use(&a, o, &mut rev);
        if rev.0 && rev.1 {
            // The order in which `@reverse` and reverse terms are processed decides whether
            // they collide.
            env.hit("unspec:reverse-collision");
        }
        let kws: Vec<_> = o.iter().map(|(k, _)| self.iri(&a, k, false, true).unwrap_or_default()).collect();
        if env.mode10 && kws.iter().filter(|k| *k == "@type").count() > 1 {
            // An empty `@type` is the same as none, or collides.
            env.hit("unspec:type-collision");
        }
        if kws.iter().any(|k| matches!(k.as_str(), "@value" | "@list" | "@set"))
            && o.iter().zip(&kws).any(|((_, v), k)| !keyword(k) && k.contains(':') && v.is_null())
        {
            env.hit("unspec:null-property-of-value");
        }
        let special = kws.iter().any(|k| matches!(k.as_str(), "@value" | "@list" | "@set"));
        let odd = ["@none", "@protected", "@version", "@import", "@base", "@vocab", "@container", "@prefix", "@propagate", "@json", "@nest", "@included"];
        if special && kws.iter().any(|k| odd.contains(&k.as_str())) {
            env.hit("lax:keyword-of-contexts");
        }
        if !kws.iter().any(|k| k == "@value") && kws.iter().any(|k| k == "@language" || k == "@direction") && (kws.len() > 1 || env.mode10) {
            env.hit(if env.mode10 { "unspec:language-in-node" } else { "lax:language-in-node" });
        }
        let mut result = J::Obj(vec![]);
        let mut nests: Vec<(String, J)> = vec![];
        self.entries(&a, &type_scoped, prop, o, &input_type, &mut result, &mut nests)?;
        self.nested(&a, &type_scoped, prop, nests, &input_type, &mut result)?;

        // finalization
        if special && (result.get("@type").map_or(false, |t| t.is_arr() && t.items().len() < 2 || !result.has("@value"))
            || kws.iter().any(|k| (!keyword(k) && k.contains(':') || k == "@reverse") && !result.has(k)))
        {
            env.hit("lax:types-of-value");
        }
        if result.has("@value") {
            let r = result.as_obj().unwrap();
            if r.iter().any(|(k, _)| {
                !matches!(k.as_str(), "@direction" | "@index" | "@language" | "@type" | "@value")
            }) {
                return Err("invalid value object");
            }
            if result.has("@type") && (result.has("@language") || result.has("@direction")) {
                return Err("invalid value object");
            }
            let is_json = match result.get("@type") {
                Some(J::Arr(a)) => a.len() == 1 && a[0] == s("@json"),
                Some(J::Str(x)) => x == "@json",
                _ => false,
            };
            if is_json {
                result.set("@type", s("@json"));
                env.hit("exp:json");
            } else {
                let v = result.get("@value").unwrap().clone();
                if v.is_null() || v == J::Arr(vec![]) {
                    if result.get("@type").map_or(false, |t| t.is_arr()) {
                        env.hit("lax:types-of-value");
                    }
                    return Ok(J::Null);
                }
                if v.as_str().is_none() && result.has("@direction") {
                    env.hit("lax:direction-of-value");
                }
                if v.as_str().is_none() && result.has("@language") {
                    return Err("invalid language-tagged value");
                }
                if let Some(t) = result.get("@type") {
                    let t = match t {
                        J::Arr(a) if a.len() == 1 => a[0].clone(),
                        o => o.clone(),
                    };
                    match &t {
                        J::Str(x) if is_iri(x) => (),
                        _ => return Err("invalid typed value"),
                    }
                    result.set("@type", t);
                }
            }
        } else if let Some(t) = result.get("@type").cloned() {
            if !t.is_arr() {
                result.set("@type", J::Arr(vec![t]));
            } else if t.items().iter().any(|x| x.is_null()) {
                env.hit("unspec:null-type");
            } else if t.len() == 0 {
                // An empty set of types is the same as none.
                result.remove("@type");
            }
        } else if result.has("@set") || result.has("@list") {
            let n = result.len();
            if n > 2 || (n == 2 && !result.has("@index")) {
                return Err("invalid set or list object");
            }
            if result.has("@set") {
                let x = result.remove("@set").unwrap();
                if x.is_null() {
                    return Ok(J::Null);
                }
                return self.finish(prop, x);
            }
        }
        if result.len() == 1 && result.has("@language") {
            return Ok(J::Null);
        }
        if !result.has("@value") && (result.has("@language") || result.has("@direction")) {
            env.hit("unspec:language-in-node");
        }
        self.finish(prop, result)
    }

    /// `@language` and `@direction` are only meaningful in value objects.
    fn no_value(&self, a: &Ctx, o: &[(String, J)]) {
        if !o.iter().any(|(k, _)| self.iri(a, k, false, true).as_deref() == Some("@value")) {
            self.env.hit("unspec:language-in-node");
        }
    }

    fn reverse_use(&self, a: &Ctx, o: &[(String, J)], r: &mut (bool, bool)) {
        for (k, v) in o {
            match self.iri(a, k, false, true).as_deref() {
                Some("@reverse") => r.0 = true,
                Some("@nest") => v.items().iter().filter_map(|x| x.as_obj()).for_each(|o| self.reverse_use(a, o, r)),
                _ => r.1 |= a.def(k).map(|d| d.reverse).unwrap_or(false),
            }
        }
    }

    fn finish(&self, prop: Option<&str>, r: J) -> R<J> {
        if prop.is_none() || prop == Some("@graph") {
            if let J::Obj(o) = &r {
                if o.is_empty() || r.has("@value") || r.has("@list") {
                    return Ok(J::Null);
                }
                if o.len() == 1 && r.has("@id") {
                    return Ok(J::Null);
                }
            }
        }
        Ok(r)
    }

    #[allow(clippy::too_many_arguments)]
    fn nested(
        &self,
        a: &Ctx,
        type_scoped: &Ctx,
        prop: Option<&str>,
        nests: Vec<(String, J)>,
        input_type: &Option<String>,
        result: &mut J,
    ) -> R<()> {
        for (k, v) in self.keys(&nests, self.ordered) {
            for nv in v.items() {
                let o = match nv {
                    J::Obj(o) => o,
                    _ => return Err("invalid @nest value"),
                };
                if o.iter().any(|(k, _)| self.iri(a, k, false, true).as_deref() == Some("@value")) {
                    return Err("invalid @nest value");
                }
                self.env.hit("exp:nest");
                for (k, _) in o {
                    match self.iri(a, k, false, true).as_deref() {
                        Some("@list" | "@set") => self.env.hit("unspec:list-in-nest"),
                        Some("@language" | "@direction") => self.env.hit("lax:language-in-nest"),
                        _ => (),
                    }
                }
                let mut a2 = a.clone();
                if let Some(d) = a.def(k) {
                    if let Some(c) = &d.context {
                        self.env.hit("exp:nest-scoped");
                        a2 = process(self.env, &a2, c, &ProcOpts::new(d.base_url.clone()).overriding())?;
                    }
                }
                let mut n2 = vec![];
                self.entries(&a2, type_scoped, prop, o, input_type, result, &mut n2)?;
                self.nested(&a2, type_scoped, prop, n2, input_type, result)?;
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn entries(
        &self,
        a: &Ctx,
        type_scoped: &Ctx,
        prop: Option<&str>,
        o: &[(String, J)],
        input_type: &Option<String>,
        result: &mut J,
        nests: &mut Vec<(String, J)>,
    ) -> R<()> {
        let env = self.env;
        for (key, value) in self.keys(o, self.ordered) {
            if key == "@context" {
                continue;
            }
            let ep = self.iri(a, key, false, true);
            if self.dropped(a, key, ep.as_deref(), false) {
                continue;
            }
            let ep = match ep {
                Some(e) if keyword(&e) || e.contains(':') => e,
                _ => {
                    env.hit("exp:drop");
                    continue;
                }
            };
            if keyword(&ep) {
                if prop == Some("@reverse") {
                    return Err("invalid reverse property map");
                }
                if result.has(&ep) && (env.mode10 || (ep != "@included" && ep != "@type")) {
                    return Err("colliding keywords");
                }
                match ep.as_str() {
                    "@id" => match value {
                        J::Str(v) => {
                            let x = self.iri(a, v, true, false);
                            result.set("@id", x.map(J::Str).unwrap_or(J::Null));
                        }
                        _ => return Err("invalid @id value"),
                    },
                    "@type" => {
                        let mut ts = vec![];
                        if let J::Arr(_) | J::Str(_) = value {
                            for x in value.items() {
                                match x {
                                    J::Str(x) => {
                                        let term = x;
                                        let x = self.iri(type_scoped, x, true, true);
                                        let value = |k: &str| self.iri(a, k, false, true).as_deref() == Some("@value");
                                        let dropped = self.dropped(type_scoped, term, x.as_deref(), true);
                                        if dropped && o.iter().any(|(k, _)| value(k)) {
                                            env.hit("unspec:type-policy");
                                        }
                                        if dropped {
                                            continue;
                                        }
                                        if x.is_none() {
                                            env.hit("unspec:null-type");
                                        }
                                        if let Some(x) = x {
                                            if keyword(&x)
                                                && !o.iter().any(|(k, _)| {
                                                    self.iri(a, k, false, true).as_deref() == Some("@value")
                                                })
                                            {
                                                env.hit("unspec:keyword-type");
                                            }
                                            ts.push(J::Str(x))
                                        }
                                    }
                                    _ => return Err("invalid type value"),
                                }
                            }
                        } else {
                            return Err("invalid type value");
                        }
                        add_all(result, "@type", J::Arr(ts));
                    }
                    "@graph" => {
                        let x = self.element(a, Some("@graph"), value, false)?;
                        env.hit("exp:graph");
                        let x = if x.is_null() { vec![] } else { x.arrayify() };
                        result.set("@graph", J::Arr(x));
                    }
                    "@included" => {
                        if env.mode10 {
                            continue;
                        }
                        let x = self.element(a, Some("@included"), value, false)?;
                        let x = if x.is_null() { vec![] } else { x.arrayify() };
                        for i in &x {
                            if !i.is_obj() || is_value(i) || is_list(i) || i.has("@set") {
                                return Err("invalid @included value");
                            }
                        }
                        env.hit("exp:included");
                        add_all(result, "@included", J::Arr(x));
                    }
                    "@value" => {
                        if input_type.as_deref() == Some("@json") {
                            if env.mode10 {
                                return Err("invalid value object value");
                            }
                            result.set("@value", value.clone());
                        } else if value.is_scalar() || value.is_null() {
                            result.set("@value", value.clone());
                        } else {
                            return Err("invalid value object value");
                        }
                    }
                    "@language" => match value {
                        J::Str(l) => result.set("@language", J::Str(l.clone())),
                        _ => {
                            self.no_value(a, o);
                            return Err("invalid language-tagged string");
                        }
                    },
                    "@direction" => {
                        if env.mode10 {
                            continue;
                        }
                        match value {
                            J::Str(l) if l == "ltr" || l == "rtl" => result.set("@direction", J::Str(l.clone())),
                            _ => {
                                self.no_value(a, o);
                                return Err("invalid base direction");
                            }
                        }
                    }
                    "@index" => match value {
                        J::Str(l) => result.set("@index", J::Str(l.clone())),
                        _ => return Err("invalid @index value"),
                    },
                    "@list" => {
                        if prop.is_none() || prop == Some("@graph") {
                            continue;
                        }
                        let x = self.element(a, prop, value, false)?;
                        env.hit("exp:list");
                        if value.is_obj() && x.is_arr() {
                            env.hit("unspec:set-in-list");
                        }
                        let x = if x.is_null() { vec![] } else { x.arrayify() };
                        result.set("@list", J::Arr(x));
                    }
                    "@set" => {
                        let x = self.element(a, prop, value, false)?;
                        env.hit("exp:set");
                        result.set("@set", x);
                    }
                    "@reverse" => {
                        if !value.is_obj() {
                            return Err("invalid @reverse value");
                        }
                        let x = self.element(a, Some("@reverse"), value, false)?;
                        env.hit("exp:reverse");
                        if let J::Obj(e) = x {
                            for (p, items) in e {
                                if p == "@reverse" {
                                    if let J::Obj(e) = items {
                                        for (q, i) in e {
                                            add_all(result, &q, i);
                                        }
                                    }
                                } else {
                                    if !result.has("@reverse") {
                                        result.set("@reverse", J::Obj(vec![]));
                                    }
                                    for i in items.items() {
                                        if is_value(i) || is_list(i) {
                                            return Err("invalid reverse property value");
                                        }
                                        add_all(result.get_mut("@reverse").unwrap(), &p, i.clone());
                                    }
                                }
                            }
                        }
                    }
                    "@nest" => {
                        if let Some(e) = nests.iter_mut().find(|(k, _)| k == key) {
                            let mut v = e.1.clone().arrayify();
                            v.extend(value.clone().arrayify());
                            e.1 = J::Arr(v);
                        } else {
                            nests.push((key.clone(), value.clone()));
                        }
                    }
                    // other keywords are not allowed in a node: nothing is added
                    _ => (),
                }
                continue;
            }
            let def = a.def(key);
            let has = |c: &str| def.map(|d| d.has(c)).unwrap_or(false);
            let mut x;
            if def.and_then(|d| d.ty.as_deref()) == Some("@json") {
                env.hit("exp:json-term");
                x = J::Obj(vec![("@value".into(), value.clone()), ("@type".into(), s("@json"))]);
            } else if has("@language") && value.is_obj() {
                env.hit("exp:langmap");
                let mut r = vec![];
                for (l, lv) in self.keys(value.as_obj().unwrap(), self.ordered) {
                    for i in lv.items() {
                        match i {
                            J::Null => (),
                            J::Str(t) => {
                                let mut v = J::Obj(vec![("@value".into(), J::Str(t.clone()))]);
                                if l != "@none" && self.iri(a, l, false, true).as_deref() != Some("@none") {
                                    v.set("@language", J::Str(l.clone()));
                                }
                                let dir = match def.and_then(|d| d.direction.clone()) {
                                    Some(d) => d,
                                    None => a.direction.clone(),
                                };
                                if let Some(d) = dir {
                                    v.set("@direction", J::Str(d));
                                }
                                r.push(v);
                            }
                            _ => return Err("invalid language map value"),
                        }
                    }
                }
                x = J::Arr(r);
            } else if (has("@index") || has("@type") || has("@id")) && value.is_obj() {
                let index_key = def.and_then(|d| d.index.clone()).unwrap_or_else(|| "@index".into());
                let mut r = vec![];
                for (index, iv) in self.keys(value.as_obj().unwrap(), self.ordered) {
                    if index == "@context" {
                        env.hit("unspec:context-in-map");
                    }
                    let mut mc = a.clone();
                    if has("@id") || has("@type") {
                        if let Some(p) = &a.previous {
                            env.hit("exp:map-revert");
                            mc = (**p).clone();
                        }
                    }
                    if has("@type") {
                        if let Some(d) = mc.def(index).cloned() {
                            if let Some(c) = &d.context {
                                env.hit("exp:typemap-scoped");
                                mc = process(env, &mc, c, &ProcOpts::new(d.base_url.clone()))?;
                            }
                        }
                    }
                    if !(has("@id") || has("@type")) {
                        mc = a.clone();
                    }
                    if mc.container_has(Some(key), "@list") != a.container_has(Some(key), "@list") {
                        env.hit("unspec:list-scoped");
                    }
                    let ei = self.iri(a, index, false, true);
                    let none = ei.as_deref() == Some("@none");
                    let dropped = has("@type") && self.dropped(a, index, ei.as_deref(), true);
                    let iv = J::Arr(iv.clone().arrayify());
                    let ivx = self.element(&mc, Some(key), &iv, true)?;
                    for mut item in ivx.arrayify() {
                        if has("@graph") && !is_graph(&item) {
                            item = J::Obj(vec![("@graph".into(), J::Arr(vec![item]))]);
                        }
                        if has("@index") && index_key != "@index" && !none {
                            env.hit("exp:prop-index");
                            let re = self.value(a, &index_key, &s(index));
                            let eik = self.iri(a, &index_key, false, true).unwrap_or_default();
                            if self.dropped(a, &index_key, Some(&eik), false) {
                                env.hit("unspec:index-policy");
                            }
                            let mut vals = vec![re];
                            if let Some(old) = item.get(&eik) {
                                vals.extend(old.clone().arrayify());
                            }
                            item.set(&eik, J::Arr(vals));
                            if is_list(&item) {
                                env.hit("unspec:property-index-on-list");
                            }
                            if is_value(&item) && item.len() > 1 {
                                return Err("invalid value object");
                            }
                        } else if has("@index") && !item.has("@index") && !none {
                            env.hit("exp:index-map");
                            item.set("@index", s(index));
                        } else if (has("@id") || has("@type")) && (is_value(&item) || is_list(&item)) {
                            env.hit("unspec:map-of-values");
                        } else if has("@id") && !item.has("@id") && !none {
                            env.hit("exp:id-map");
                            if index.starts_with('@') {
                                env.hit("unspec:keyword-id");
                            }
                            if let Some(i) = self.iri(a, index, true, false) {
                                item.set("@id", J::Str(i));
                            }
                        } else if has("@type") && !none && !dropped {
                            env.hit("exp:type-map");
                            if ei.as_deref().map(keyword).unwrap_or(true) {
                                env.hit("unspec:keyword-type");
                            }
                            let mut ts = vec![J::Str(ei.clone().unwrap_or_default())];
                            if let Some(old) = item.get("@type") {
                                ts.extend(old.clone().arrayify());
                            }
                            item.set("@type", J::Arr(ts));
                        }
                        r.push(item);
                    }
                }
                x = J::Arr(r);
            } else {
                x = self.element(a, Some(key), value, false)?;
            }
            if x.is_null() {
                continue;
            }
            if has("@list") && !(is_list(&x)) {
                env.hit("exp:list-container");
                x = J::Obj(vec![("@list".into(), J::Arr(x.arrayify()))]);
            }
            if has("@graph") && !has("@id") && !has("@index") {
                env.hit("exp:graph-container");
                x = J::Arr(
                    x.arrayify()
                        .into_iter()
                        .map(|e| J::Obj(vec![("@graph".into(), J::Arr(e.arrayify()))]))
                        .collect(),
                );
            }
            if def.map(|d| d.reverse).unwrap_or(false) {
                env.hit("exp:reverse-term");
                if !result.has("@reverse") {
                    result.set("@reverse", J::Obj(vec![]));
                }
                let rm = result.get_mut("@reverse").unwrap();
                for i in x.arrayify() {
                    if is_value(&i) || is_list(&i) {
                        return Err("invalid reverse property value");
                    }
                    add_all(rm, &ep, i);
                }
            } else {
                add_all(result, &ep, x);
            }
        }
        Ok(())
    }

    /// Value Expansion.
    pub fn value(&self, a: &Ctx, prop: &str, v: &J) -> J {
        let d = a.def(prop);
        let ty = d.and_then(|d| d.ty.as_deref());
        if let J::Str(t) = v {
            match ty {
                Some("@id") => {
                    return match self.iri(a, t, true, false) {
                        Some(i) => J::Obj(vec![("@id".into(), J::Str(i))]),
                        None => J::Obj(vec![]),
                    }
                }
                Some("@vocab") => {
                    if self.dropped(a, t, None, true) {
                        self.env.hit("unspec:vocab-policy");
                    }
                    return match self.iri(a, t, true, true) {
                        Some(i) => J::Obj(vec![("@id".into(), J::Str(i))]),
                        None => J::Obj(vec![]),
                    }
                }
                _ => (),
            }
        }
        let mut r = J::Obj(vec![("@value".into(), v.clone())]);
        match ty {
            Some(t) if !matches!(t, "@id" | "@vocab" | "@none") => r.set("@type", s(t)),
            _ => {
                if let J::Str(_) = v {
                    let lang = match d.and_then(|d| d.language.clone()) {
                        Some(l) => l,
                        None => a.language.clone(),
                    };
                    let dir = match d.and_then(|d| d.direction.clone()) {
                        Some(l) => l,
                        None => a.direction.clone(),
                    };
                    if let Some(l) = lang {
                        r.set("@language", J::Str(l));
                    }
                    if let Some(l) = dir {
                        r.set("@direction", J::Str(l));
                    }
                }
            }
        }
        r
    }
}

/// All the node identifiers, for information.
pub fn ids(doc: &J, out: &mut BTreeSet<String>) {
    match doc {
        J::Arr(a) => a.iter().for_each(|x| ids(x, out)),
        J::Obj(o) => {
            if let Some(J::Str(i)) = doc.get("@id") {
                out.insert(i.clone());
            }
            o.iter().for_each(|(_, x)| ids(x, out))
        }
        _ => (),
    }
}
