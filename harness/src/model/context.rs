use super::iri::*;
use super::{E, R};
use crate::j::{s, J};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct TermDef {
    pub iri: Option<String>,
    pub prefix: bool,
    pub protected: bool,
    pub reverse: bool,
    pub base_url: Option<String>,
    pub context: Option<J>,
    pub container: BTreeSet<String>,
    pub direction: Option<Option<String>>,
    pub index: Option<String>,
    pub language: Option<Option<String>>,
    pub nest: Option<String>,
    pub ty: Option<String>,
}

impl TermDef {
    fn new(protected: bool) -> Self {
        TermDef {
            iri: None,
            prefix: false,
            protected,
            reverse: false,
            base_url: None,
            context: None,
            container: BTreeSet::new(),
            direction: None,
            index: None,
            language: None,
            nest: None,
            ty: None,
        }
    }
    pub fn has(&self, c: &str) -> bool {
        self.container.contains(c)
    }
    fn same_modulo_protected(&self, o: &Self) -> bool {
        let mut a = self.clone();
        a.protected = o.protected;
        // The base URL is an implementation detail of the definition.
        a.base_url = o.base_url.clone();
        if a.context.as_ref().map(|c| c.sorted_keys()) == o.context.as_ref().map(|c| c.sorted_keys()) {
            a.context = o.context.clone();
        }
        &a == o
    }
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub base: Option<String>,
    pub original_base: Option<String>,
    pub vocab: Option<String>,
    pub language: Option<String>,
    pub direction: Option<String>,
    pub terms: BTreeMap<String, Rc<TermDef>>,
    pub previous: Option<Rc<Ctx>>,
}

impl Ctx {
    pub fn new(base: Option<String>) -> Self {
        Ctx {
            base: base.clone(),
            original_base: base,
            vocab: None,
            language: None,
            direction: None,
            terms: BTreeMap::new(),
            previous: None,
        }
    }
    pub fn with_original(base: Option<String>, original: Option<String>) -> Self {
        Ctx { original_base: original, ..Ctx::new(base) }
    }
    pub fn def(&self, t: &str) -> Option<&Rc<TermDef>> {
        self.terms.get(t)
    }
    pub fn container_has(&self, t: Option<&str>, c: &str) -> bool {
        t.and_then(|t| self.def(t)).map(|d| d.has(c)).unwrap_or(false)
    }
}

pub struct Env {
    pub mode10: bool,
    /// Process the entries of contexts in reverse order.
    pub order: u32,
    pub turn: std::cell::Cell<u64>,
    /// Remote documents by URL: (final url, content).
    pub docs: BTreeMap<String, (String, J)>,
    /// Coverage of the model's branches.
    pub cov: std::cell::RefCell<BTreeSet<&'static str>>,
}

impl Env {
    pub fn new(mode10: bool) -> Self {
        Env { mode10, order: 0, turn: Default::default(), docs: BTreeMap::new(), cov: Default::default() }
    }
    pub fn hit(&self, t: &'static str) {
        self.cov.borrow_mut().insert(t);
    }
    /// Label explaining why the specification does not decide this case, or why it is left out.
    pub fn skipped(&self) -> Option<&'static str> {
        self.cov.borrow().iter().find(|t| t.starts_with("unspec:") || t.starts_with("known:")).copied()
    }
}

#[derive(Clone)]
pub struct ProcOpts {
    pub base_url: Option<String>,
    pub override_protected: bool,
    pub propagate: bool,
    pub validate_scoped: bool,
    pub remote: Vec<String>,
}

impl ProcOpts {
    pub fn new(base_url: Option<String>) -> Self {
        ProcOpts {
            base_url,
            override_protected: false,
            propagate: true,
            validate_scoped: true,
            remote: vec![],
        }
    }
    pub fn overriding(mut self) -> Self {
        self.override_protected = true;
        self
    }
    pub fn propagate(mut self, p: bool) -> Self {
        self.propagate = p;
        self
    }
}

const CTX_KEYS: [&str; 8] =
    ["@base", "@direction", "@import", "@language", "@propagate", "@protected", "@version", "@vocab"];

/// Context Processing Algorithm.
pub fn process(env: &Env, active: &Ctx, local: &J, o: &ProcOpts) -> R<Ctx> {
    let mut result = active.clone();
    let mut propagate = o.propagate;
    if let Some(p) = local.get("@propagate") {
        match p {
            J::Bool(b) => propagate = *b,
            _ => return Err("invalid @propagate value"),
        }
    }
    if !propagate && result.previous.is_none() {
        env.hit("ctx:set-previous");
        result.previous = Some(Rc::new(active.clone()));
    }
    let mut remote = o.remote.clone();
    for c in local.items() {
        match c {
            J::Null => {
                if !o.override_protected && result.terms.values().any(|d| d.protected) {
                    return Err("invalid context nullification");
                }
                env.hit("ctx:null");
                let mut n = Ctx::new(active.original_base.clone());
                if !propagate {
                    n.previous = Some(Rc::new(result.clone()));
                }
                result = n;
            }
            J::Str(u) => {
                let url = match &o.base_url {
                    Some(b) => resolve(b, u),
                    None => u.clone(),
                };
                if !is_iri(&url) {
                    return Err("loading document failed");
                }
                if !o.validate_scoped && o.remote.contains(&url) {
                    env.hit("ctx:remote-skip");
                    continue;
                }
                // what becomes of a cycle is left to the implementation, as long as it terminates
                if o.remote.contains(&url) {
                    env.hit("unspec:cycle");
                }
                // processor defined limit
                if o.remote.len() >= 24 {
                    return Err("context overflow");
                }
                remote = o.remote.clone();
                remote.push(url.clone());
                let (furl, doc) = match env.docs.get(&url) {
                    Some(d) => d.clone(),
                    None => return Err("loading remote context failed"),
                };
                let loaded = match &doc {
                    J::Obj(_) => match doc.get("@context") {
                        Some(c) => c.clone(),
                        None => return Err("invalid remote context"),
                    },
                    _ => return Err("invalid remote context"),
                };
                env.hit("ctx:remote");
                if o.override_protected {
                    env.hit("ctx:scoped-remote");
                }
                result = process(
                    env,
                    &result,
                    &loaded,
                    &ProcOpts {
                        base_url: Some(furl),
                        override_protected: false,
                        propagate: true,
                        validate_scoped: o.validate_scoped,
                        remote: remote.clone(),
                    },
                )?;
            }
            J::Obj(_) => {
                result = process_map(env, active, result, c, propagate, &o.remote, o)?;
            }
            _ => return Err("invalid local context"),
        }
    }
    Ok(result)
}

fn process_map(
    env: &Env,
    _active: &Ctx,
    mut result: Ctx,
    c: &J,
    _propagate: bool,
    remote: &[String],
    o: &ProcOpts,
) -> R<Ctx> {
    let mut c = c.clone();
    if let Some(v) = c.get("@version") {
        match v {
            J::Num(n) if n.parse::<f64>() == Ok(1.1) => {
                if env.mode10 {
                    return Err("processing mode conflict");
                }
            }
            _ => return Err("invalid @version value"),
        }
    }
    if let Some(v) = c.get("@import").cloned() {
        if env.mode10 {
            return Err("invalid context entry");
        }
        let v = match v {
            J::Str(v) => v,
            _ => return Err("invalid @import value"),
        };
        let url = match &o.base_url {
            Some(b) => resolve(b, &v),
            None => v,
        };
        let (_, doc) = match env.docs.get(&url) {
            Some(d) => d.clone(),
            None => return Err("loading remote context failed"),
        };
        let ic = match doc.get("@context") {
            Some(c @ J::Obj(_)) => c.clone(),
            _ => return Err("invalid remote context"),
        };
        if ic.has("@import") {
            return Err("invalid context entry");
        }
        env.hit("ctx:import");
        if ic.has("@version") || ic.as_obj().unwrap().iter().any(|(k, _)| c.has(k)) {
            env.hit("lax:imported");
        }
        let mut merged = ic;
        if let J::Obj(e) = &c {
            for (k, v) in e {
                if k != "@import" {
                    merged.set(k, v.clone());
                }
            }
        }
        c = merged;
    }
    if let Some(v) = c.get("@base") {
        if !remote.is_empty() && !v.is_null() && !v.as_str().map_or(false, is_iri_ref) {
            env.hit("lax:base-of-remote");
        }
        if remote.is_empty() {
            match v {
                J::Null => result.base = None,
                J::Str(v) => {
                    if is_iri(v) {
                        result.base = Some(v.clone())
                    } else if let (Some(b), true) = (&result.base, is_iri_ref(v)) {
                        result.base = Some(resolve(b, v));
                    } else {
                        return Err("invalid base IRI");
                    }
                }
                _ => return Err("invalid base IRI"),
            }
            env.hit("ctx:base");
        }
    }
    if let Some(v) = c.get("@vocab") {
        match v {
            J::Null => result.vocab = None,
            J::Str(v) => {
                if env.mode10 && !(is_iri(v) || is_blank(v) || v.is_empty()) {
                    return Err("invalid vocab mapping");
                }
                let x = expand_iri_simple(&result, v, true, true);
                match x {
                    Some(x) if is_iri(&x) || is_blank(&x) => result.vocab = Some(x),
                    _ => return Err("invalid vocab mapping"),
                }
            }
            _ => return Err("invalid vocab mapping"),
        }
    }
    if let Some(v) = c.get("@language") {
        match v {
            J::Null => result.language = None,
            J::Str(v) => result.language = Some(v.to_ascii_lowercase()),
            _ => return Err("invalid default language"),
        }
    }
    if let Some(v) = c.get("@direction") {
        if env.mode10 {
            return Err("invalid context entry");
        }
        match v {
            J::Null => result.direction = None,
            J::Str(v) if v == "ltr" || v == "rtl" => result.direction = Some(v.clone()),
            _ => return Err("invalid base direction"),
        }
    }
    if let Some(v) = c.get("@propagate") {
        if env.mode10 {
            return Err("invalid context entry");
        }
        if !matches!(v, J::Bool(_)) {
            return Err("invalid @propagate value");
        }
    }
    let protected = match c.get("@protected") {
        None => false,
        Some(J::Bool(b)) => {
            env.hit("ctx:protected");
            *b
        }
        Some(_) => return Err("invalid @protected value"),
    };
    let mut defined = BTreeMap::new();
    let p = DefOpts {
        base_url: o.base_url.clone(),
        protected,
        override_protected: o.override_protected,
        remote: remote.to_vec(),
        validate_scoped: o.validate_scoped,
    };
    if let J::Obj(e) = &c {
        let mut keys: Vec<&String> = e.iter().map(|(k, _)| k).collect();
        match env.order {
            0 => (),
            1 => keys.reverse(),
            n => {
                // every context in an order of its own
                let turn = env.turn.get() + 1;
                env.turn.set(turn);
                keys.sort_by_key(|k| crate::src::mix(crate::src::hash_str(k), n as u64 + 100 * turn))
            }
        }
        for k in keys {
            if !CTX_KEYS.contains(&k.as_str()) {
                create_term(env, &mut result, &c, k, &mut defined, &p)?;
            }
        }
    }
    Ok(result)
}

pub struct DefOpts {
    base_url: Option<String>,
    protected: bool,
    override_protected: bool,
    remote: Vec<String>,
    validate_scoped: bool,
}

type Defined = BTreeMap<String, bool>;

fn gen_delim(c: u8) -> bool {
    matches!(c, b':' | b'/' | b'?' | b'#' | b'[' | b']' | b'@')
}

fn colon_inside(t: &str) -> bool {
    // contains a colon anywhere but as the first or last character
    let b = t.as_bytes();
    b.len() > 2 && b[1..b.len() - 1].contains(&b':')
}

/// Create Term Definition.
fn create_term(
    env: &Env,
    active: &mut Ctx,
    local: &J,
    term: &str,
    defined: &mut Defined,
    o: &DefOpts,
) -> R<()> {
    match defined.get(term) {
        Some(true) => return Ok(()),
        Some(false) => return Err("cyclic IRI mapping"),
        None => (),
    }
    if term.is_empty() {
        return Err("invalid term definition");
    }
    defined.insert(term.into(), false);
    let value = local.get(term).cloned().unwrap_or(J::Null);
    if term == "@type" {
        if env.mode10 {
            return Err("keyword redefinition");
        }
        match &value {
            J::Obj(e) => {
                if e.is_empty() {
                    return Err("keyword redefinition");
                }
                for (k, v) in e {
                    match k.as_str() {
                        "@container" if v == &s("@set") => (),
                        "@protected" => (),
                        _ => return Err("keyword redefinition"),
                    }
                }
            }
            _ => return Err("keyword redefinition"),
        }
    } else if keyword(term) {
        return Err("keyword redefinition");
    } else if keyword_like(term) {
        env.hit("term:keyword-like");
        return Ok(());
    }
    let previous = active.terms.remove(term);
    let mut simple = false;
    let value = match value {
        J::Null => J::Obj(vec![("@id".into(), J::Null)]),
        J::Str(v) => {
            simple = true;
            J::Obj(vec![("@id".into(), J::Str(v))])
        }
        J::Obj(o) => J::Obj(o),
        _ => return Err("invalid term definition"),
    };
    let mut d = TermDef::new(o.protected);
    if let Some(p) = value.get("@protected") {
        if env.mode10 {
            return Err("invalid term definition");
        }
        match p {
            J::Bool(b) => {
                env.hit("ctx:protected");
                d.protected = *b
            }
            _ => return Err("invalid @protected value"),
        }
    }
    if let Some(t) = value.get("@type") {
        let t = match t {
            J::Str(t) => t,
            _ => return Err("invalid type mapping"),
        };
        let x = expand_iri_local(env, active, t, false, true, local, defined, o)?;
        match x {
            Some(x) => {
                if (x == "@json" || x == "@none") && env.mode10 {
                    return Err("invalid type mapping");
                }
                if !matches!(x.as_str(), "@id" | "@json" | "@none" | "@vocab") && (!is_iri(&x) || is_blank(&x)) {
                    return Err("invalid type mapping");
                }
                d.ty = Some(x);
            }
            None => return Err("invalid type mapping"),
        }
    }
    let container = value.get("@container");
    if value.has("@reverse") && value.as_obj().unwrap().iter().any(|(k, _)| !matches!(k.as_str(), "@reverse" | "@container" | "@type" | "@protected" | "@id" | "@nest"))
        || value.has("@reverse") && container.map_or(false, |c| c.is_arr())
    {
        env.hit("lax:reverse-entries");
    }
    if value.has("@type") && ["@language", "@direction"].iter().any(|k| value.has(k)) {
        env.hit("lax:type-and-language");
    }
    if let Some(r) = value.get("@reverse") {
        if value.has("@id") || value.has("@nest") {
            return Err("invalid reverse property");
        }
        let r = match r {
            J::Str(r) => r,
            _ => return Err("invalid IRI mapping"),
        };
        if keyword_like(r) {
            env.hit("term:reverse-keyword-like");
            return Ok(());
        }
        match expand_iri_local(env, active, r, false, true, local, defined, o)? {
            Some(x) if (is_iri(&x) || is_blank(&x)) => d.iri = Some(x),
            _ => return Err("invalid IRI mapping"),
        }
        match container {
            None | Some(J::Null) => (),
            Some(J::Str(c)) if c == "@set" || c == "@index" => {
                d.container.insert(c.clone());
            }
            _ => return Err("invalid reverse property"),
        }
        d.reverse = true;
        env.hit("term:reverse");
        active.terms.insert(term.into(), Rc::new(d));
        defined.insert(term.into(), true);
        return Ok(());
    }
    let id = value.get("@id");
    if id.is_some() && id != Some(&s(term)) {
        match id.unwrap() {
            J::Null => {
                env.hit("term:null-id");
            }
            J::Str(id) => {
                if !keyword(id) && keyword_like(id) {
                    env.hit("term:id-keyword-like");
                    return Ok(());
                }
                match expand_iri_local(env, active, id, false, true, local, defined, o)? {
                    Some(x) if keyword(&x) || is_iri(&x) || is_blank(&x) => {
                        if x == "@context" {
                            return Err("invalid keyword alias");
                        }
                        d.iri = Some(x);
                    }
                    _ => return Err("invalid IRI mapping"),
                }
                if colon_inside(term) || term.contains('/') {
                    defined.insert(term.into(), true);
                    let x = expand_iri_local(env, active, term, false, true, local, defined, o)?;
                    if x != d.iri {
                        return Err("invalid IRI mapping");
                    }
                    env.hit("term:iri-like-consistent");
                }
                if !term.contains(':') && !term.contains('/') && simple {
                    let m = d.iri.as_ref().unwrap();
                    if m.bytes().last().map(gen_delim).unwrap_or(false) || is_blank(m) {
                        d.prefix = true;
                    }
                }
            }
            _ => return Err("invalid IRI mapping"),
        }
    } else if term.len() > 1 && term[1..].contains(':') {
        let i = term.find(':').unwrap();
        // a term such as ":a:b" is not a compact IRI
        let (p, suffix) = (&term[..i], &term[i + 1..]);
        if p != "_" && !suffix.starts_with("//") && local.has(p) {
            create_term(env, active, local, p, defined, o)?;
        }
        let m = if p != "_" && !suffix.starts_with("//") {
            active.def(p).and_then(|d| d.iri.clone())
        } else {
            None
        };
        match m {
            Some(m) => {
                env.hit("term:compact-iri");
                if keyword(&m) {
                    env.hit("lax:keyword-as-prefix");
                }
                d.iri = Some(format!("{m}{suffix}"))
            }
            None => {
                env.hit("term:iri");
                d.iri = Some(term.to_string())
            }
        }
    } else if term.contains('/') {
        match expand_iri_simple(active, term, false, true) {
            Some(x) if is_iri(&x) => d.iri = Some(x),
            _ => return Err("invalid IRI mapping"),
        }
        env.hit("term:slash");
    } else if term == "@type" {
        env.hit("term:@type");
        d.iri = Some("@type".into());
    } else if let Some(v) = &active.vocab {
        env.hit("term:vocab");
        d.iri = Some(format!("{v}{term}"));
    } else {
        return Err("invalid IRI mapping");
    }
    if let Some(c) = container {
        let items: Vec<&str> = {
            let mut r = vec![];
            for x in c.items() {
                match x {
                    J::Str(x) => r.push(x.as_str()),
                    _ => return Err("invalid container mapping"),
                }
            }
            r
        };
        let set: BTreeSet<&str> = items.iter().copied().collect();
        if set.len() != items.len() || items.is_empty() {
            return Err("invalid container mapping");
        }
        for x in &items {
            if !matches!(*x, "@graph" | "@id" | "@index" | "@language" | "@list" | "@set" | "@type") {
                return Err("invalid container mapping");
            }
        }
        let ok = if set.len() == 1 {
            true
        } else if set.contains("@graph") && (set.contains("@id") != set.contains("@index")) {
            set.iter().all(|x| matches!(*x, "@graph" | "@id" | "@index" | "@set"))
        } else if set.contains("@set") {
            set.len() == 2
                && set
                    .iter()
                    .all(|x| matches!(*x, "@set" | "@index" | "@graph" | "@id" | "@type" | "@language"))
        } else {
            false
        };
        if !ok {
            return Err("invalid container mapping");
        }
        if env.mode10
            && (set.contains("@graph") || set.contains("@id") || set.contains("@type") || c.is_arr())
        {
            return Err("invalid container mapping");
        }
        d.container = items.iter().map(|x| x.to_string()).collect();
        if set.contains("@type") {
            match d.ty.as_deref() {
                None => d.ty = Some("@id".into()),
                Some("@id") | Some("@vocab") => (),
                _ => return Err("invalid type mapping"),
            }
        }
    }
    if let Some(i) = value.get("@index") {
        if env.mode10 || !d.has("@index") {
            return Err("invalid term definition");
        }
        let i = match i {
            J::Str(i) => i,
            _ => return Err("invalid term definition"),
        };
        match expand_iri_local(env, active, i, false, true, local, defined, o)? {
            Some(x) if is_iri(&x) => (),
            _ => return Err("invalid term definition"),
        }
        env.hit("term:index");
        d.index = Some(i.clone());
    }
    if let Some(c) = value.get("@context") {
        if env.mode10 {
            return Err("invalid term definition");
        }
        if o.validate_scoped {
            let po = ProcOpts {
                base_url: o.base_url.clone(),
                override_protected: true,
                propagate: true,
                validate_scoped: false,
                remote: o.remote.clone(),
            };
            if process(env, active, c, &po).is_err() {
                return Err("invalid scoped context");
            }
        } else {
            let po = ProcOpts {
                base_url: o.base_url.clone(),
                override_protected: true,
                propagate: true,
                validate_scoped: false,
                remote: o.remote.clone(),
            };
            if process(env, active, c, &po).is_err() {
                return Err("invalid scoped context");
            }
        }
        env.hit("term:scoped");
        d.context = Some(c.clone());
        d.base_url = o.base_url.clone();
    }
    if let (Some(l), false) = (value.get("@language"), value.has("@type")) {
        match l {
            J::Null => d.language = Some(None),
            J::Str(l) => d.language = Some(Some(l.to_ascii_lowercase())),
            _ => return Err("invalid language mapping"),
        }
        env.hit("term:language");
    }
    if let (Some(l), false) = (value.get("@direction"), value.has("@type")) {
        match l {
            J::Null => d.direction = Some(None),
            J::Str(l) if l == "ltr" || l == "rtl" => d.direction = Some(Some(l.clone())),
            _ => return Err("invalid base direction"),
        }
        env.hit("term:direction");
    }
    if let Some(n) = value.get("@nest") {
        if env.mode10 {
            return Err("invalid term definition");
        }
        match n {
            J::Str(n) if n == "@nest" || !keyword(n) => d.nest = Some(n.clone()),
            _ => return Err("invalid @nest value"),
        }
        env.hit("term:nest");
    }
    if let Some(p) = value.get("@prefix") {
        if env.mode10 || term.contains(':') || term.contains('/') {
            return Err("invalid term definition");
        }
        match p {
            J::Bool(p) => {
                d.prefix = *p;
                if *p && d.iri.as_deref().map(keyword).unwrap_or(false) {
                    return Err("invalid term definition");
                }
            }
            _ => return Err("invalid @prefix value"),
        }
        env.hit("term:prefix");
    }
    if let J::Obj(e) = &value {
        for (k, _) in e {
            if !matches!(
                k.as_str(),
                "@id" | "@reverse" | "@container" | "@context" | "@direction" | "@index" | "@language"
                    | "@nest" | "@prefix" | "@protected" | "@type"
            ) {
                return Err("invalid term definition");
            }
        }
    }
    let mut d = Rc::new(d);
    if let Some(p) = previous {
        if !o.override_protected && p.protected {
            if !d.same_modulo_protected(&p) {
                return Err("protected term redefinition");
            }
            if d.base_url != p.base_url {
                env.hit("unspec:protected-base-url");
            }
            env.hit("term:protected-same");
            d = p;
        }
    }
    active.terms.insert(term.into(), d);
    defined.insert(term.into(), true);
    Ok(())
}

/// IRI Expansion with a local context (used while processing contexts).
#[allow(clippy::too_many_arguments)]
fn expand_iri_local(
    env: &Env,
    active: &mut Ctx,
    value: &str,
    doc_rel: bool,
    vocab: bool,
    local: &J,
    defined: &mut Defined,
    o: &DefOpts,
) -> R<Option<String>> {
    if keyword(value) {
        return Ok(Some(value.into()));
    }
    if keyword_like(value) {
        return Ok(None);
    }
    if local.has(value) && defined.get(value) != Some(&true) {
        create_term(env, active, local, value, defined, o)?;
    }
    if let Some(d) = active.def(value) {
        if let Some(i) = &d.iri {
            if keyword(i) {
                return Ok(Some(i.clone()));
            }
        }
        if vocab {
            return Ok(d.iri.clone());
        }
    }
    if let Some(i) = colon_after_first(value) {
        let (p, suf) = (&value[..i], &value[i + 1..]);
        if p != "_" && !suf.starts_with("//") && local.has(p) && defined.get(p) != Some(&true) {
            create_term(env, active, local, p, defined, o)?;
        }
    }
    Ok(expand_iri_simple(active, value, doc_rel, vocab))
}

fn colon_after_first(v: &str) -> Option<usize> {
    // index of the first colon, if there is a colon anywhere after the first char
    let first = v.chars().next()?.len_utf8();
    if v[first..].contains(':') {
        v.find(':')
    } else {
        None
    }
}

/// IRI Expansion without a local context.
pub fn expand_iri_simple(active: &Ctx, value: &str, doc_rel: bool, vocab: bool) -> Option<String> {
    if keyword(value) {
        return Some(value.into());
    }
    if keyword_like(value) {
        return None;
    }
    if let Some(d) = active.def(value) {
        if let Some(i) = &d.iri {
            if keyword(i) {
                return Some(i.clone());
            }
        }
        if vocab {
            return d.iri.clone();
        }
    }
    if let Some(i) = colon_after_first(value) {
        let (p, suf) = (&value[..i], &value[i + 1..]);
        if p == "_" || suf.starts_with("//") {
            return Some(value.into());
        }
        if let Some(d) = active.def(p) {
            if let (Some(m), true) = (&d.iri, d.prefix) {
                return Some(format!("{m}{suf}"));
            }
        }
        if has_iri_form(value) {
            return Some(value.into());
        }
    }
    if vocab {
        if let Some(v) = &active.vocab {
            return Some(format!("{v}{value}"));
        }
    }
    if doc_rel {
        if let Some(b) = &active.base {
            if is_iri_ref(value) {
                return Some(resolve(b, value));
            }
        }
    }
    Some(value.into())
}

/// Expanding the term `value` takes the vocabulary mapping.
pub fn needs_vocab(active: &Ctx, value: &str) -> bool {
    if active.vocab.is_none() || keyword(value) || keyword_like(value) || active.def(value).is_some() {
        return false;
    }
    if let Some(i) = colon_after_first(value) {
        let (p, suf) = (&value[..i], &value[i + 1..]);
        let prefix = active.def(p).map_or(false, |d| d.iri.is_some() && d.prefix);
        return !(p == "_" || suf.starts_with("//") || prefix || has_iri_form(value));
    }
    true
}

pub fn fail<T>(e: E) -> R<T> {
    Err(e)
}
