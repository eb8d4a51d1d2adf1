//! Loaders give the document of the URL, the whole document and nothing but that document.
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::{self, Cfg, World};
use crate::imp::{block, iri};
use crate::j::{obj, s, J};
use crate::src::Src;
use iref::{Iri, IriBuf};
use json_ld::syntax::{IntoJson, TryFromJson};
use json_ld::{
    ChainLoader, ExtractContext, FsLoader, LoadError, Loader, LoadingResult, NoLoader, Profile, RemoteContextReference, RemoteDocument,
    RemoteDocumentReference,
};
use rdf_types::vocabulary::{IndexVocabulary, IriVocabulary, IriVocabularyMut};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};

pub const PROP: Prop = Prop {
    id: "P18",
    quick: 400000,
    thorough: 4000000,
    rule: "random directories mounted on URLs, maps and chains of loaders, with up to 8 URLs to load, and remote documents as references, as contexts and with mapped identifiers; non-trivial: at least one document is loaded",
    assumptions: &["files are read as the operating system says"],
    gen,
    check,
};

const SEGS: [&str; 16] = ["a", "a", "b", "ab", "c.jsonld", "..", "..", ".", "", "%61", "é", "a:b", "etc", "%2e%2e", "b%2Fc", "..."];
const ROOTS: [&str; 7] = ["http://ex.org/", "http://ex.org/a", "http://ex.org/a/", "http://ex.org/a/b", "https://ex.org/", "http://ex.org:8/a", "http://ex.org"];

fn url(g: &mut Src) -> String {
    if g.chance(1, 12) {
        let mut u = "urn:".to_string();
        for i in 0..g.below(4) {
            if i > 0 {
                u.push('/');
            }
            u.push_str(g.pick(&SEGS));
        }
        return u;
    }
    let mut u = if g.bool() { "http://ex.org/a".to_string() } else { g.pick(&ROOTS).to_string() };
    if u == "http://ex.org" {
        u.push('/');
    }
    for i in 0..g.below(4) {
        if i > 0 || !u.ends_with('/') {
            u.push('/');
        }
        u.push_str(g.pick(&SEGS));
    }
    if g.chance(1, 8) {
        u.push_str(g.pick(&["?q", "?a/../b", "?/b"]));
    }
    if g.chance(1, 8) {
        u.push_str(g.pick(&["#f", "#/../b", "#"]));
    }
    u
}

fn text(g: &mut Src) -> String {
    match g.below(12) {
        0 => g.pick(&["", "{", "{\"a\":1,}", "nul", "[] []", "\u{feff}{}"]).to_string(),
        1 => g.pick(&["{\"a\":1,\"a\":2}", " {} ", "\n[1.50]\t", "\"\\u00e9\""]).to_string(),
        _ => gen::json_value(g, 2).to_text(),
    }
}

fn gen(g: &mut Src) -> J {
    match g.below(4) {
        0 | 1 => {
            let mounts: Vec<J> = (0..1 + g.below(3))
                .map(|_| {
                    let u = if g.bool() { g.pick(&ROOTS).to_string() } else if g.chance(1, 8) { "urn:".into() } else { url(g) };
                    let u = u.split(['?', '#']).next().unwrap_or("").to_string();
                    J::Arr(vec![s(&u), s(g.pick(&["d0", "d1", "d1/a", "d2"]))])
                })
                .collect();
            let mut urls: Vec<String> = (0..1 + g.below(6)).map(|_| url(g)).collect();
            for m in &mounts {
                if let (Some(u), true) = (m.items()[0].as_str(), g.chance(2, 3)) {
                    let mut u = if u.starts_with("urn") { u.to_string() } else { format!("{}/", u.trim_end_matches('/')) };
                    if g.chance(1, 5) {
                        u.push_str(g.pick(&["a", "x", "%61"]));
                    }
                    for i in 0..g.below(3) {
                        if i > 0 {
                            u.push('/');
                        }
                        u.push_str(g.pick(&SEGS));
                    }
                    urls.push(u);
                }
            }
            // files where some of the URLs are, and elsewhere
            let mut files: Vec<(String, J)> = vec![];
            let ms: Vec<(String, String)> = pairs(&J::Arr(mounts.clone()));
            for u in &urls {
                if let (Some(p), true) = (locate(&ms, u), g.chance(3, 4)) {
                    let p = p.trim_end_matches('/').to_string();
                    files.push((p, J::Str(text(g))));
                }
            }
            for _ in 0..g.below(4) {
                let d = g.pick(&["d0", "d1", "d2", "d0/a", "d1/a", "etc"]).to_string();
                files.push((format!("{d}/{}", g.pick(&["a", "b", "ab", "c.jsonld", "é", "a:b", "etc"])), J::Str(text(g))));
            }
            obj(vec![
                ("mounts", J::Arr(mounts)),
                ("files", J::Obj(files)),
                ("urls", J::Arr(urls.into_iter().map(J::Str).collect())),
                ("chain", J::Bool(g.chance(1, 3))),
            ])
        }
        2 => {
            let us: Vec<String> = (0..3 + g.below(4)).map(|_| url(g)).collect();
            let maps: Vec<J> = (0..1 + g.below(4))
                .map(|_| {
                    let mut m: Vec<(String, J)> = vec![];
                    for _ in 0..g.below(4) {
                        let u = g.pick(&us).clone();
                        if !m.iter().any(|(k, _)| *k == u) {
                            m.push((u, remote(g)));
                        }
                    }
                    J::Obj(m)
                })
                .collect();
            obj(vec![("maps", J::Arr(maps)), ("shape", J::Num(g.below(6).to_string())), ("urls", J::Arr(us.into_iter().map(J::Str).collect()))])
        }
        _ => {
            let mut w = World::new(Cfg::default());
            let mut c = if g.chance(1, 8) { gen::json_value(g, 2) } else { w.context(g, 2) };
            if g.chance(1, 6) {
                c = gen::json_value(g, 1);
            }
            let mut e = vec![("@context".to_string(), c)];
            for _ in 0..g.below(3) {
                e.push((g.pick(&["a", "@context", "@graph", "context", "@Context"]).to_string(), gen::json_value(g, 1)));
            }
            g.shuffle(&mut e);
            if g.chance(1, 10) {
                e.retain(|x| x.0 != "@context");
            }
            let doc = if g.chance(1, 12) { gen::json_value(g, 2) } else { J::Obj(e) };
            obj(vec![("document", doc), ("remote", remote(g)), ("asked", s(&url(g)))])
        }
    }
}

const PROFILES: [&str; 9] = [
    "http://www.w3.org/ns/json-ld#expanded",
    "http://www.w3.org/ns/json-ld#compacted",
    "http://www.w3.org/ns/json-ld#context",
    "http://www.w3.org/ns/json-ld#flattened",
    "http://www.w3.org/ns/json-ld#framed",
    "http://www.w3.org/ns/json-ld#frame",
    "http://www.w3.org/ns/json-ld#",
    "http://ex.org/profile",
    "https://www.w3.org/ns/json-ld#context",
];

/// A loaded document, with all its metadata.
fn remote(g: &mut Src) -> J {
    let mut e = vec![("document", gen::json_value(g, 2))];
    if g.chance(3, 4) {
        e.push(("url", J::Str(url(g))));
    }
    if g.bool() {
        e.push(("type", s(g.pick(&["application/ld+json", "application/json", "text/html"]))));
    }
    if g.bool() {
        e.push(("context", J::Str(url(g))));
    }
    let p: Vec<J> = (0..g.below(4)).map(|_| s(g.pick(&PROFILES))).collect();
    e.push(("profile", J::Arr(p)));
    obj(e)
}

fn build(r: &J) -> Option<RemoteDocument> {
    let i = |k: &str| match r.get(k) {
        Some(x) => IriBuf::new(x.as_str()?.to_string()).ok().map(Some),
        None => Some(None),
    };
    let t = match r.get("type") {
        Some(t) => Some(t.as_str()?.parse().ok()?),
        None => None,
    };
    let mut profile = hashbrown::HashSet::new();
    for p in r.get("profile")?.items() {
        profile.insert(Profile::new(Iri::new(p.as_str()?).ok()?));
    }
    Some(RemoteDocument::new_full(i("url")?, t, i("context")?, profile, r.get("document")?.to_js()))
}

/// The description of a loaded document, in the same form as the cases.
fn describe<I>(d: &RemoteDocument<I>, text: impl Fn(&I) -> String) -> J {
    let mut e = vec![("document".to_string(), J::from_js(d.document()))];
    if let Some(u) = d.url() {
        e.push(("url".into(), J::Str(text(u))));
    }
    if let Some(t) = d.content_type() {
        e.push(("type".into(), J::Str(t.to_string())));
    }
    if let Some(u) = d.context_url() {
        e.push(("context".into(), J::Str(text(u))));
    }
    let p: BTreeSet<String> = d
        .profile
        .iter()
        .map(|p| match p {
            Profile::Standard(p) => p.iri().to_string(),
            Profile::Custom(i) => text(i),
        })
        .collect();
    e.push(("profile".into(), J::Arr(p.into_iter().map(J::Str).collect())));
    J::Obj(e)
}

fn normal(r: &J) -> J {
    let mut r = r.clone();
    let p: BTreeSet<String> = r.get("profile").map(|p| p.items().iter().filter_map(|x| x.as_str().map(str::to_string)).collect()).unwrap_or_default();
    r.remove("profile");
    r.set("profile", J::Arr(p.into_iter().map(J::Str).collect()));
    r.sorted_keys()
}

fn pairs(x: &J) -> Vec<(String, String)> {
    x.items().iter().filter_map(|m| Some((m.items().first()?.as_str()?.to_string(), m.items().get(1)?.as_str()?.to_string()))).collect()
}

/// Scheme and authority of a URL, and its path.
fn split(u: &str) -> (&str, &str) {
    let u = u.split(['?', '#']).next().unwrap_or("");
    let c = u.find(':').map(|i| i + 1).unwrap_or(0);
    if u[c..].starts_with("//") {
        let p = u[c + 2..].find('/').map(|i| c + 2 + i).unwrap_or(u.len());
        u.split_at(p)
    } else {
        u.split_at(c)
    }
}

/// Segments of a path without dot segments.
fn segments(path: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let absolute = path.starts_with('/');
    let p = path.strip_prefix('/').unwrap_or(path);
    if p.is_empty() {
        return out;
    }
    for x in p.split('/') {
        match x {
            "." => (),
            ".." if !absolute && out.last().map(|x| x == "..").unwrap_or(true) => out.push(x.into()),
            ".." => {
                out.pop();
            }
            x => out.push(x.into()),
        }
    }
    out
}

fn decoded(x: &str) -> String {
    x.replace("%61", "a").replace("%2F", "\0").replace("%2e", ".")
}

/// Where the document of the given URL is.
fn locate(mounts: &[(String, String)], url: &str) -> Option<String> {
    for (m, d) in mounts {
        let ((mo, mp), (uo, up)) = (split(m), split(url));
        if mo != uo {
            continue;
        }
        let mp0 = if mp.is_empty() && mo.contains("//") { "/" } else { mp };
        if mp0.starts_with('/') != up.starts_with('/') {
            continue;
        }
        let (mut mp, up) = (segments(mp0), segments(up));
        if mp0.ends_with('/') && mp.last().map(|x| x.is_empty()).unwrap_or(false) {
            mp.pop();
        }
        if up.len() < mp.len() || !mp.iter().zip(&up).all(|(a, b)| decoded(a) == decoded(b)) {
            continue;
        }
        if up.iter().skip(mp.len()).any(|x| x == "..") {
            // not a place in the mounted directory
            return None;
        }
        let mut p = d.clone();
        for x in &up[mp.len()..] {
            p.push('/');
            p.push_str(x);
        }
        return Some(p);
    }
    None
}

thread_local! {
    static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let mut d = base.join(format!("verif-p18-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        if std::fs::create_dir_all(&d).is_err() {
            d = std::env::temp_dir().join(d.file_name().unwrap());
            std::fs::create_dir_all(&d).expect("scratch directory");
        }
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.to_string_lossy().contains("verif-p18-") {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

/// A relative path without dot segments.
fn plain(p: &str) -> bool {
    !p.is_empty() && p.split('/').all(|x| x != ".." && !x.contains('\0')) && !p.starts_with('/')
}

fn fail(sig: &str, d: String) -> Outcome {
    Outcome::fail(sig, d)
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    if let Some(m) = j.get("mounts") {
        check_fs(j, m, tags)
    } else if let Some(m) = j.get("maps") {
        check_maps(j, m, tags)
    } else if j.get("remote").is_some() {
        check_ref(j, tags)
    } else {
        Outcome::pass(false)
    }
}

fn check_fs(j: &J, m: &J, tags: &mut Tags) -> Outcome {
    let mounts = pairs(m);
    if mounts.iter().any(|(u, d)| IriBuf::new(u.clone()).is_err() || !plain(d) || split(u).1.ends_with("//")) {
        return Outcome::pass(false);
    }
    let scratch = Scratch::new();
    let root = scratch.0.clone();
    let mut files: BTreeMap<PathBuf, String> = BTreeMap::new();
    for (p, t) in j.get("files").and_then(|x| x.as_obj()).unwrap_or(&vec![]) {
        if let (true, Some(t)) = (plain(p), t.as_str()) {
            let p = root.join(p);
            if p.parent().map(|d| std::fs::create_dir_all(d).is_ok()).unwrap_or(false) && std::fs::write(&p, t).is_ok() {
                files.insert(p, t.to_string());
            }
        }
    }
    let mut l = FsLoader::new();
    for (u, d) in &mounts {
        l.mount(iri(u), root.join(d));
    }
    let mut loaded = false;
    for u in j.get("urls").map(|x| x.items()).unwrap_or(&[]) {
        let u = match u.as_str().and_then(|u| IriBuf::new(u.to_string()).ok()) {
            Some(u) => u,
            None => continue,
        };
        let want = locate(&mounts, u.as_str()).map(|p| root.join(p));
        let got = l.filepath(&u);
        if got.as_ref().map(|p| p.components().collect::<PathBuf>()) != want.as_ref().map(|p| p.components().collect::<PathBuf>()) {
            return fail("filepath", format!("{u}: {got:?}, expected {want:?}"));
        }
        // (a path is not followed unless it is in the scratch directory)
        let r = if j.get("chain") == Some(&J::Bool(true)) {
            tags.tag("chained");
            block(ChainLoader::new(NoLoader, &l).load(&u))
        } else {
            block(l.load(&u))
        };
        let want = want.and_then(|p| {
            let slash = p.to_string_lossy().ends_with('/');
            files.get(&p.components().collect::<PathBuf>()).filter(|_| !slash)
        });
        let want = want.and_then(|t| J::parse(t));
        match (r, want) {
            (Ok(d), Some(w)) => {
                loaded = true;
                tags.tag("file");
                if J::from_js(d.document()) != w {
                    return fail("file content", format!("{u}: {} for {w}", J::from_js(d.document())));
                }
                if d.url().map(|x| x.as_str()) != Some(u.as_str()) || d.content_type().map(|t| t.to_string()).as_deref() != Some("application/ld+json") {
                    return fail("file metadata", format!("{u}: {:?} {:?}", d.url(), d.content_type()));
                }
                if d.context_url().is_some() || !d.profile.is_empty() {
                    return fail("file metadata", format!("{u}: context or profile"));
                }
            }
            (Err(e), None) => {
                tags.tag("not loaded");
                if e.target.as_str() != u.as_str() {
                    return fail("target of the error", format!("{u}: {}", e.target));
                }
            }
            (Ok(d), None) => return fail("unexpected document", format!("{u}: {}", J::from_js(d.document()))),
            (Err(e), Some(w)) => return fail("not loaded", format!("{u}: {e}, expected {w}")),
        }
    }
    Outcome::pass(loaded)
}

/// Counts what it is asked for.
struct Count<L>(L, RefCell<Vec<String>>);
impl<L: Loader> Loader for Count<L> {
    async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
        self.1.borrow_mut().push(url.to_string());
        self.0.load(url).await
    }
}

fn check_maps(j: &J, m: &J, tags: &mut Tags) -> Outcome {
    let mut maps: Vec<Vec<(String, J, RemoteDocument)>> = vec![];
    for m in m.items() {
        let mut v = vec![];
        for (u, d) in m.as_obj().unwrap_or(&vec![]) {
            match (IriBuf::new(u.clone()), build(d)) {
                (Ok(_), Some(b)) => v.push((u.clone(), d.clone(), b)),
                _ => return Outcome::pass(false),
            }
        }
        maps.push(v);
    }
    maps.resize_with(4, Vec::new);
    let hash = |i: usize| -> HashMap<IriBuf, RemoteDocument> { maps[i].iter().map(|(u, _, d)| (iri(u), d.clone())).collect() };
    let tree = |i: usize| -> BTreeMap<IriBuf, RemoteDocument> { maps[i].iter().map(|(u, _, d)| (iri(u), d.clone())).collect() };
    // documents with equal URLs (for the IRI library) are told apart by no map
    let shape = j.get("shape").and_then(|x| if let J::Num(n) = x { n.parse().ok() } else { None }).unwrap_or(0usize);
    // loaders asked before the one at the given index
    let mut loaded = false;
    for u in j.get("urls").map(|x| x.items()).unwrap_or(&[]) {
        let u = match u.as_str().and_then(|u| IriBuf::new(u.to_string()).ok()) {
            Some(u) => u,
            None => continue,
        };
        let calls = RefCell::new(0);
        let run = |a: &dyn Fn(&Iri) -> LoadingResult<IriBuf>| {
            *calls.borrow_mut() += 1;
            a(&u)
        };
        let last = Count(hash(3), RefCell::new(vec![]));
        let (order, r): (Vec<usize>, LoadingResult<IriBuf>) = match shape {
            0 => (vec![0], run(&|u| block(hash(0).load(u)))),
            1 => (vec![0, 3], run(&|u| block(ChainLoader::new(tree(0), &last).load(u)))),
            2 => (vec![0, 1, 3], run(&|u| block(ChainLoader::new(hash(0), ChainLoader::new(tree(1), &last)).load(u)))),
            3 => (vec![1, 0, 3], run(&|u| block(ChainLoader::new(ChainLoader::new(&hash(1), &mut tree(0)), &last).load(u)))),
            4 => (vec![2, 0, 1, 3], run(&|u| block(ChainLoader::new(ChainLoader::new(NoLoader, tree(2)), ChainLoader::new(ChainLoader::new(hash(0), tree(1)), &last)).load(u)))),
            _ => (vec![3], run(&|u| block(ChainLoader::new(NoLoader, ChainLoader::new(&last, NoLoader)).load(u)))),
        };
        let same = |x: &str| iri(x) == u;
        let found = order.iter().find_map(|i| {
            // the last of the entries with equal keys is the one that remains
            maps[*i].iter().rev().find(|(k, _, _)| same(k)).map(|(_, d, _)| (*i, d))
        });
        let want_asked = order.contains(&3) && !matches!(found, Some((i, _)) if i != 3);
        let asked = last.1.borrow().clone();
        if asked != if want_asked { vec![u.to_string()] } else { vec![] } {
            return fail("asked in order", format!("{u}: the last loader is asked for {asked:?}, found at {:?}", found.map(|x| x.0)));
        }
        match (r, found) {
            (Ok(d), Some((_, w))) => {
                loaded = true;
                tags.tag("from a map");
                let got = normal(&describe(&d, |i| i.to_string()));
                if got != normal(w) {
                    return fail("document of a map", format!("{u}: {got} for {}", normal(w)));
                }
            }
            (Err(LoadError { target, .. }), None) => {
                tags.tag("not loaded");
                if target.as_str() != u.as_str() {
                    return fail("target of the error", format!("{u}: {target}"));
                }
            }
            (Ok(d), None) => return fail("unexpected document", format!("{u}: {}", J::from_js(d.document()))),
            (Err(e), Some(w)) => return fail("not loaded", format!("{u}: {e}, expected {w:?}")),
        }
    }
    Outcome::pass(loaded)
}

fn check_ref(j: &J, tags: &mut Tags) -> Outcome {
    let (r, asked) = match (j.get("remote").and_then(|r| Some((r, build(r)?))), j.get("asked").and_then(|x| x.as_str()).and_then(|x| IriBuf::new(x.to_string()).ok())) {
        (Some(x), Some(a)) => (x, a),
        _ => return Outcome::pass(false),
    };
    let (want, d) = (normal(r.0), r.1);
    let mut map = HashMap::new();
    map.insert(asked.clone(), d.clone());
    let l = Count(map, RefCell::new(vec![]));
    let calls = || std::mem::take(&mut *l.1.borrow_mut()).len();
    let txt = |i: &IriBuf| i.to_string();

    // accessors, mappings
    let m = d.clone().map(|v| (v, 1));
    if m.url() != d.url() || m.content_type() != d.content_type() || m.context_url() != d.context_url() || m.profile != d.profile || m.document().0 != *d.document() {
        return fail("map", format!("{want}"));
    }
    let m: Result<RemoteDocument<IriBuf, i32>, &str> = d.clone().try_map(|_| Err("x"));
    if m.is_ok() {
        return fail("try_map", format!("{want}"));
    }
    match d.clone().try_map(Ok::<_, ()>) {
        Ok(m) if normal(&describe(&m, txt)) == want => (),
        _ => return fail("try_map", format!("{want}")),
    }
    let m = d.clone().map_iris(|i| format!("<{i}>")).map_iris(|i| iri(&i[1..i.len() - 1]));
    if normal(&describe(&m, txt)) != want {
        return fail("map_iris", format!("{want}"));
    }
    let mut m = d.clone();
    m.set_url(Some(asked.clone()));
    *m.document_mut() = json_syntax::Value::Null;
    if m.url() != Some(&asked) || m.clone().into_url() != Some(asked.clone()) || m.context_url() != d.context_url() || !m.into_document().is_null() {
        return fail("accessors", format!("{want}"));
    }
    if d.clone().into_document() != *d.document() || d.clone().into_url().as_ref() != d.url() {
        return fail("accessors", format!("{want}"));
    }
    for p in &d.profile {
        if Profile::new(p.iri()) != *p || Profile::new(p.iri()).iri() != p.iri() {
            return fail("profile", format!("{p:?}"));
        }
        let mut v: IndexVocabulary = IndexVocabulary::new();
        let q = Profile::new_with(p.iri(), &mut v);
        if q.iri_with(&v) != p.iri() || matches!(q, Profile::Standard(_)) != PROFILES[..5].contains(&p.iri().as_str()) {
            return fail("profile", format!("{p:?}"));
        }
    }

    // references
    let by_iri: RemoteDocumentReference = RemoteDocumentReference::Iri(asked.clone());
    let direct: RemoteDocumentReference = RemoteDocumentReference::Loaded(d.clone());
    for (reference, n) in [(&by_iri, 1), (&direct, 0)] {
        match block(reference.loaded_with(&mut (), &l)) {
            Ok(x) if normal(&describe(&x, txt)) == want => (),
            _ => return fail("loaded_with", format!("{want}")),
        }
        if calls() != n {
            return fail("loaded_with: calls", format!("{want}"));
        }
        match block(reference.clone().load_with(&mut (), &l)) {
            Ok(x) if normal(&describe(&x, txt)) == want => (),
            _ => return fail("load_with", format!("{want}")),
        }
        if calls() != n {
            return fail("load_with: calls", format!("{want}"));
        }
    }
    // with indexed identifiers
    let mut v: IndexVocabulary = IndexVocabulary::new();
    v.insert(iri("http://unused.org/").as_iri());
    let i = v.insert(asked.as_iri());
    let by_iri: RemoteDocumentReference<_> = RemoteDocumentReference::Iri(i);
    let texts = asked.as_str().contains("/.") || (want.to_text() + asked.as_str()).contains(":.") || asked.as_str().contains("%") || want.to_text().contains("/.") || want.to_text().contains("%61");
    let x = block(by_iri.loaded_with(&mut v, &l)).map(|x| x.into_owned());
    match x {
        Ok(x) => {
            let got = normal(&describe(&x, |i| v.iri(i).unwrap().to_string()));
            // (equal IRIs written differently are one, indexed)
            if got != want && !texts {
                return fail("load_with, indexed", format!("{got} for {want}"));
            }
        }
        Err(e) => return fail("load_with, indexed", format!("{e}")),
    }
    calls();
    match block(RemoteDocumentReference::<IriBuf>::Iri(asked.clone()).load_with(&mut (), &NoLoader)) {
        Err(e) if e.target == asked => (),
        _ => return fail("load_with: error", format!("{asked}")),
    }

    // contexts
    let doc = match j.get("document") {
        Some(d) => d,
        None => return Outcome::pass(true),
    };
    let expected: Result<J, String> = match doc {
        J::Obj(e) => {
            let cs: Vec<&J> = e.iter().filter(|x| x.0 == "@context").map(|x| &x.1).collect();
            match cs.len() {
                0 => Err("invalid remote context".into()),
                1 => json_ld::syntax::Context::try_from_json(cs[0].to_js()).map(|c| J::from_js(&c.into_json())).map_err(|e| e.code().to_string()),
                _ => Err("duplicate key".into()),
            }
        }
        _ => Err("invalid remote context".into()),
    };
    let expected = expected.map(|x| x.sorted_keys());
    let got = doc.to_js().into_ld_context().map(|c| J::from_js(&c.into_json()).sorted_keys()).map_err(|e| e.code().to_string());
    if got != expected {
        return fail("context of a document", format!("{got:?} for {expected:?}"));
    }
    tags.tag(if got.is_ok() { "a context" } else { "no context" });
    let mut map = HashMap::new();
    map.insert(asked.clone(), d.clone().map(|_| doc.to_js()));
    let l = Count(map, RefCell::new(vec![]));
    let by_iri: RemoteContextReference = RemoteDocumentReference::Iri(asked.clone());
    for owned in [false, true] {
        let r = if owned { block(by_iri.clone().load_context_with(&mut (), &l)) } else { block(by_iri.loaded_context_with(&mut (), &l)).map(|x| x.into_owned()) };
        match (r, &expected) {
            (Ok(c), Ok(e)) => {
                let x = c.clone().map(|c| c.into_json());
                if J::from_js(x.document()).sorted_keys() != *e {
                    return fail("remote context", format!("{} for {e}", J::from_js(x.document())));
                }
                let mut w = want.clone();
                w.set("document", J::from_js(x.document()));
                if normal(&describe(&x, txt)) != normal(&w) {
                    return fail("remote context: metadata", format!("{} for {}", describe(&x, txt), w));
                }
                // already there: as it is, without loading
                l.1.borrow_mut().clear();
                let direct: RemoteContextReference = RemoteDocumentReference::Loaded(c);
                let a = block(direct.loaded_context_with(&mut (), &l)).map(|x| J::from_js(&x.document().clone().into_json()).sorted_keys());
                let b = block(direct.clone().load_context_with(&mut (), &l)).map(|x| J::from_js(&x.into_document().into_json()).sorted_keys());
                if a.ok().as_ref() != Some(e) || b.ok().as_ref() != Some(e) || !l.1.borrow().is_empty() {
                    return fail("loaded context", format!("{e}"));
                }
            }
            (Err(json_ld::ContextLoadError::ContextExtractionFailed(x)), Err(e)) if x.code().to_string() == *e => (),
            (a, b) => return fail("remote context", format!("{:?} for {b:?}", a.map(|_| ()).map_err(|e| e.to_string()))),
        }
    }
    Outcome::pass(true)
}
