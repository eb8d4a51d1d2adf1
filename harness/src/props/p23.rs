//! The HTTP loader gives the document the exchange with the server stands for.
//!
//! There is no network: the HTTP client is given a middleware that answers every request.
use crate::engine::{Outcome, Prop, Tags};
use crate::gen;
use crate::imp::block;
use crate::j::{obj, s, J};
use crate::src::Src;
use iref::{Iri, IriBuf};
use json_ld::loader::reqwest::{Error, Options, ReqwestLoader};
use json_ld::{Loader, Profile};
use reqwest::ResponseBuilderExt;
use reqwest_middleware::{ClientBuilder, Next};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex, OnceLock};

type BoxFuture<'a, T> = std::pin::Pin<Box<dyn std::future::Future<Output = T> + Send + 'a>>;

pub const PROP: Prop = Prop {
    id: "P23",
    quick: 1500000,
    thorough: 30000000,
    rule: "servers of up to 5 URLs answering with any status, media type, parameters, Link headers and HTTP redirections, and 1 to 2 URLs to load; non-trivial: a document is loaded, or a Link header decides",
    assumptions: &["the HTTP client (reqwest) is replaced by one that answers from the generated server: connections, TLS and HTTP redirections are not exercised"],
    gen,
    check,
};

const URLS: [&str; 6] = ["http://h/a", "http://h/d/b", "http://h/d/c?q=1", "https://i/x", "http://h/", "http://h/d/e.jsonld"];
const HREFS: [&str; 11] = ["a", "/a", "b", "c?q=1", "../a", "http://h/a", "//h/d/b", "https://i/x", "", "#f", "e.jsonld"];
const CONTEXT: &str = "http://www.w3.org/ns/json-ld#context";
const PROFILES: [&str; 6] = [
    "http://www.w3.org/ns/json-ld#expanded",
    "http://www.w3.org/ns/json-ld#compacted",
    "http://www.w3.org/ns/json-ld#context",
    "http://www.w3.org/ns/json-ld#framed",
    "http://ex.org/profile",
    "urn:p",
];
const TYPES: [&str; 15] = [
    "application/ld+json", "application/ld+json", "application/ld+json", "application/json", "application/json", "application/json", "application/activity+json",
    "application/LD+JSON", "application/vnd.x+json", "model/gltf+json", "text/html", "text/html", "application/xml", "text/json", "application/json-seq",
];

fn blank(g: &mut Src) -> J {
    s(match g.below(8) {
        0 => "",
        1 => "  ",
        2 => "\t",
        _ => " ",
    })
}

fn none(g: &mut Src) -> J {
    s(match g.below(10) {
        0 => " ",
        1 => "\t ",
        _ => "",
    })
}

fn case(g: &mut Src, k: &str) -> String {
    match g.below(12) {
        0 => k.to_uppercase(),
        1 => k[..1].to_uppercase() + &k[1..],
        _ => k.to_string(),
    }
}

/// A parameter `[blank, ";", blank, name, value, quoted]`.
fn param(g: &mut Src, k: &str, v: &str, quoted: bool) -> J {
    let b = none(g);
    let a = blank(g);
    J::Arr(vec![b, a, J::Str(case(g, k)), s(v), J::Bool(quoted)])
}

fn link(g: &mut Src) -> J {
    let mut p = vec![];
    for _ in 0..1 + g.below(3) {
        let q = !g.chance(1, 4);
        p.push(match g.below(8) {
            0 => {
                let t = if q { *g.pick(&["a; rel=\"x\"", "a, b", "x", ""]) } else { "t" };
                param(g, "title", t, q)
            }
            1 => param(g, "crossorigin", "", false),
            2 => param(g, "foo", "bar", q),
            3 | 4 => {
                let t = *g.pick(&["application/ld+json", "application/ld+json", "application/ld+json", "text/html", "application/json"]);
                param(g, "type", t, q)
            }
            _ => {
                let r = g.pick(&["alternate", "alternate", "alternate", CONTEXT, CONTEXT, CONTEXT, "context", "ALTERNATE", "stylesheet", "alternate x", "x  alternate"]).to_string();
                let q = q || r.contains(' ') || r.contains('/');
                param(g, "rel", &r, q)
            }
        });
    }
    if g.chance(1, 3) {
        let (r, t) = if g.chance(1, 2) { (CONTEXT, "application/ld+json") } else { ("alternate", "application/ld+json") };
        p = vec![param(g, "rel", r, true), param(g, "type", t, true)];
        if g.chance(1, 3) {
            p.swap(0, 1);
        }
    }
    let h = if g.chance(1, 30) { "a b" } else { *g.pick(&HREFS) };
    obj(vec![("href", s(h)), ("params", J::Arr(p))])
}

fn page(g: &mut Src) -> J {
    let mut e = vec![];
    if g.chance(1, 12) {
        e.push(("status", J::Num(g.pick(&["201", "204", "301", "404", "500", "203", "410", "304"]).to_string())));
    }
    if g.chance(1, 8) {
        e.push(("moved", s(g.pick(&URLS))));
    }
    let types: Vec<J> = (0..if g.chance(1, 12) { 0 } else { 1 + g.chance(1, 12) as usize })
        .map(|_| {
            if g.chance(1, 20) {
                return s(g.pick(&["", "json", "application", "/", "*", "application/ld json"]));
            }
            let mut p: Vec<J> = vec![];
            for _ in 0..g.below(3) {
                let x = match g.below(5) {
                    0 => param(g, "charset", "utf-8", false),
                    1 => param(g, "q", "1", false),
                    2 => param(g, "title", "a; profile=\"urn:x\"", true),
                    _ => {
                        let n = 1 + g.below(3);
                        let v: Vec<&str> = (0..n).map(|_| *g.pick(&PROFILES)).collect();
                        let q = n > 1 || g.bool();
                        let v = v.join(if g.chance(1, 8) { "  " } else { " " });
                        param(g, "profile", &v, q)
                    }
                };
                if !p.iter().any(|y| text(y, 2).map(str::to_ascii_lowercase) == text(&x, 2).map(str::to_ascii_lowercase)) {
                    p.push(x);
                }
            }
            obj(vec![("type", s(g.pick(&TYPES))), ("params", J::Arr(p)), ("end", s(if g.chance(1, 12) { ";" } else { "" }))])
        })
        .collect();
    e.push(("types", J::Arr(types)));
    let n = if g.chance(1, 3) { 0 } else { 1 + g.below(2) };
    let links: Vec<J> = (0..n)
        .map(|_| {
            if g.chance(1, 25) {
                return s(g.pick(&["", "garbage", "<http://h/a", "http://h/a; rel=\"alternate\""]));
            }
            J::Arr((0..1 + g.chance(1, 5) as usize).map(|_| link(g)).collect())
        })
        .collect();
    e.push(("links", J::Arr(links)));
    let body = match g.below(14) {
        0 => g.pick(&["", "{", "{\"a\":1,}", "nul", "[] []", "<html>"]).to_string(),
        1 => g.pick(&["{\"a\":1,\"a\":2}", " {} ", "\n[1.50]\t", "\"\\u00e9é\u{1f600}\""]).to_string(),
        _ => gen::json_value(g, 1).to_text(),
    };
    e.push(("body", J::Str(body)));
    if g.chance(1, 40) {
        e.push(("latin1", J::Bool(true)));
    }
    obj(e)
}

fn gen(g: &mut Src) -> J {
    let mut web: Vec<(String, J)> = vec![];
    for _ in 0..1 + g.below(5) {
        let u = g.pick(&URLS).to_string();
        if !web.iter().any(|(k, _)| *k == u) {
            let p = page(g);
            web.push((u, p));
        }
    }
    let urls = (0..1 + g.chance(1, 3) as usize)
        .map(|_| if g.chance(1, 20) { s(g.pick(&URLS)) } else { J::Str(web[g.below(web.len())].0.clone() + if g.chance(1, 15) { "#f" } else { "" }) })
        .collect();
    let mut e = vec![("urls", J::Arr(urls)), ("web", J::Obj(web))];
    if g.chance(1, 3) {
        e.push(("max", J::Num(g.below(3).to_string())));
    }
    if g.chance(1, 3) {
        e.push(("profiles", J::Arr((0..1 + g.below(3)).map(|_| s(g.pick(&PROFILES))).collect())));
    }
    obj(e)
}

fn text<'a>(x: &'a J, i: usize) -> Option<&'a str> {
    x.items().get(i)?.as_str()
}

/// Text of the parameters; `None` if this is not the description of parameters.
fn params(p: &J) -> Option<String> {
    let mut out = String::new();
    for p in p.items() {
        let (b, a, k, v) = (text(p, 0)?, text(p, 1)?, text(p, 2)?, text(p, 3)?);
        if k.is_empty() || !k.bytes().all(|c| c.is_ascii_alphanumeric()) || !(b.to_string() + a).bytes().all(|c| c == b' ' || c == b'\t') {
            return None;
        }
        out += b;
        out += ";";
        out += a;
        out += k;
        if p.items().get(4)? == &J::Bool(true) {
            out += "=\"";
            out += &v.replace('\\', "\\\\").replace('"', "\\\"");
            out += "\"";
        } else if !v.is_empty() {
            if !v.bytes().all(|c| c.is_ascii_alphanumeric() || b"-+./:#_".contains(&c)) {
                return None;
            }
            out += "=";
            out += v;
        }
    }
    Some(out)
}

/// Value of the (first) parameter.
fn value<'a>(p: &'a J, k: &str) -> Option<&'a str> {
    p.items().iter().find(|x| text(x, 2).map(|n| n.eq_ignore_ascii_case(k)).unwrap_or(false)).and_then(|x| text(x, 3))
}

fn content_type(t: &J) -> Option<String> {
    if let Some(t) = t.as_str() {
        return Some(t.to_string());
    }
    let ps = t.get("params")?.items();
    if ps.iter().enumerate().any(|(i, x)| text(x, 3) == Some("") || ps[..i].iter().any(|y| text(x, 2).map(str::to_ascii_lowercase) == text(y, 2).map(str::to_ascii_lowercase))) {
        return None;
    }
    let end = t.get("end").and_then(|x| x.as_str()).unwrap_or("");
    if end != "" && end != ";" {
        return None;
    }
    Some(t.get("type")?.as_str()?.to_string() + &params(t.get("params")?)? + end)
}

fn link_header(l: &J) -> Option<String> {
    if let Some(l) = l.as_str() {
        return Some(l.to_string()).filter(|l| !l.starts_with('<') || !l.contains('>'));
    }
    let mut v = vec![];
    for l in l.as_arr()? {
        let h = l.get("href")?.as_str()?;
        if h.contains(['<', '>']) {
            return None;
        }
        v.push(format!("<{h}>{}", params(l.get("params")?)?));
    }
    Some(v.join(", "))
}

fn bytes(p: &J) -> Option<Vec<u8>> {
    let b = p.get("body")?.as_str()?;
    Some(if p.get("latin1") == Some(&J::Bool(true)) { [b"\"\xe9".as_slice(), b.as_bytes()].concat() } else { b.as_bytes().to_vec() })
}

fn status(p: &J) -> Option<u16> {
    match p.get("status") {
        None => Some(200),
        Some(J::Num(n)) => n.parse().ok().filter(|n| (200..600).contains(n)),
        _ => None,
    }
}

fn plain(u: &str) -> &str {
    u.split('#').next().unwrap_or("")
}

/// The page of the URL and its URL, after HTTP redirections.
fn fetch<'a>(web: &'a J, url: &str) -> Option<(String, &'a J)> {
    let mut u = url.to_string();
    for _ in 0..10 {
        let p = web.get(plain(&u))?;
        match p.get("moved") {
            Some(m) => u = m.as_str()?.to_string(),
            None => return Some((u, p)),
        }
    }
    None
}

struct Server {
    web: J,
    /// Requests that were made, as URL and accepted types.
    log: Mutex<Vec<(String, String, Vec<String>)>>,
}

fn response(server: &Server, r: &reqwest::Request) -> Option<reqwest::Response> {
    let (u, p) = fetch(&server.web, r.url().as_str())?;
    let mut b = http::Response::builder().status(status(p)?).url(reqwest::Url::parse(&u).ok()?);
    for t in p.get("types")?.items() {
        b = b.header("content-type", content_type(t)?);
    }
    for l in p.get("links")?.items() {
        b = b.header("link", link_header(l)?);
    }
    Some(reqwest::Response::from(b.body(bytes(p)?).ok()?))
}

/// Answers the requests instead of the network.
struct Answers(Arc<Server>);
impl reqwest_middleware::Middleware for Answers {
    fn handle<'a, 'b, 'c, 'd>(&'a self, r: reqwest::Request, _: &'b mut http::Extensions, _: Next<'c>) -> BoxFuture<'d, reqwest_middleware::Result<reqwest::Response>>
    where
        'a: 'd,
        'b: 'd,
        'c: 'd,
        Self: 'd,
    {
        let accept = r.headers().get_all("accept").iter().map(|a| a.to_str().unwrap_or("?").to_string()).collect();
        self.0.log.lock().unwrap().push((r.method().to_string(), r.url().to_string(), accept));
        let x = response(&self.0, &r).ok_or_else(|| reqwest_middleware::Error::Middleware(std::io::Error::other("unreachable").into()));
        Box::pin(std::future::ready(x))
    }
}

fn client() -> reqwest::Client {
    static C: OnceLock<reqwest::Client> = OnceLock::new();
    C.get_or_init(|| reqwest::Client::builder().no_proxy().build().expect("client")).clone()
}

#[derive(Debug, PartialEq)]
enum Want {
    Doc(J),
    Status(u16),
    Type,
    Contexts,
    TooMany,
    Parse,
    Unreachable,
}

fn expected(web: &J, max: usize, url: &str, tags: &mut Tags, trail: &mut Vec<String>) -> Option<Want> {
    let mut u = url.to_string();
    for n in 0.. {
        if n > max {
            tags.tag("too many redirections");
            return Some(Want::TooMany);
        }
        trail.push(u.clone());
        let (at, p) = match fetch(web, &u) {
            Some(x) => x,
            None => return Some(Want::Unreachable),
        };
        if at != u {
            tags.tag("moved");
            trail.push(at.clone());
            u = at;
        }
        let st = status(p)?;
        if st != 200 {
            return Some(Want::Status(st));
        }
        let iri = Iri::new(&u).ok()?;
        // (a link that is not well-formed is not a link)
        let mut links: Vec<(String, Vec<String>, Option<&str>)> = vec![];
        for l in p.get("links")?.items().iter().flat_map(|l| if l.as_str().is_some() { &[] } else { l.items() }) {
            if let Ok(h) = iref::IriRef::new(l.get("href")?.as_str()?) {
                let ps = l.get("params")?;
                let rel = value(ps, "rel").unwrap_or("").split([' ', '\t']).filter(|r| !r.is_empty()).map(|r| r.to_ascii_lowercase()).collect();
                links.push((h.resolved(iri).to_string(), rel, value(ps, "type")));
            }
        }
        let has = |r: &str| links.iter().filter(|l| l.1.iter().any(|x| x == r)).map(|l| l.0.clone()).collect::<Vec<_>>();
        let json = |t: &J| {
            let m = t.get("type")?.as_str()?.to_ascii_lowercase();
            Some(m == "application/json" || m.ends_with("+json")).filter(|x| *x).map(|_| m)
        };
        let found = p.get("types")?.items().iter().find_map(|t| Some((json(t)?, t.get("params")?)));
        match found {
            Some((m, ps)) => {
                let mut e = vec![];
                if m != "application/ld+json" {
                    let c = has(CONTEXT);
                    if c.len() > 1 {
                        tags.tag("several contexts");
                        return Some(Want::Contexts);
                    }
                    if let Some(c) = c.into_iter().next() {
                        tags.tag("context");
                        e.push(("context", J::Str(c)));
                    }
                    if m != "application/json" {
                        tags.tag("other +json");
                    }
                }
                let profile: BTreeSet<&str> = value(ps, "profile").unwrap_or("").split(' ').filter(|x| Iri::new(*x).is_ok()).collect();
                if !profile.is_empty() {
                    tags.tag("profile");
                }
                e.push(("type", J::Str(m)));
                e.push(("url", J::Str(u)));
                e.push(("profile", J::Arr(profile.into_iter().map(s).collect())));
                return Some(match std::str::from_utf8(&bytes(p)?).ok().and_then(J::parse) {
                    Some(d) => {
                        tags.tag("document");
                        e.push(("document", d));
                        Want::Doc(obj(e).sorted_keys())
                    }
                    None => Want::Parse,
                });
            }
            None => match links.iter().find(|l| l.1.iter().any(|r| r == "alternate") && l.2.map(|t| t.eq_ignore_ascii_case("application/ld+json")).unwrap_or(false)) {
                Some(l) => {
                    tags.tag("alternate");
                    u = l.0.clone();
                }
                None => return Some(Want::Type),
            },
        }
    }
    None
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    check_(j, tags).unwrap_or(Outcome::pass(false))
}

fn check_(j: &J, tags: &mut Tags) -> Option<Outcome> {
    let web = j.get("web")?.clone();
    for (u, p) in web.as_obj()? {
        reqwest::Url::parse(u).ok().filter(|x| x.as_str() == u)?;
        if let Some(m) = p.get("moved") {
            reqwest::Url::parse(m.as_str()?).ok().filter(|x| x.as_str() == m.as_str().unwrap_or(""))?;
        }
        status(p)?;
        bytes(p)?;
        for t in p.get("types")?.as_arr()? {
            http::HeaderValue::from_str(&content_type(t)?).ok()?;
        }
        for l in p.get("links")?.as_arr()? {
            http::HeaderValue::from_str(&link_header(l)?).ok()?;
        }
    }
    let profiles: Vec<String> = j.get("profiles").map(|p| p.items().iter().filter_map(|p| p.as_str().map(str::to_string)).collect()).unwrap_or_default();
    if profiles.iter().any(|p| Iri::new(p).is_err()) {
        return None;
    }
    let max = match j.get("max") {
        Some(J::Num(n)) => Some(n.parse::<usize>().ok().filter(|n| *n < 20)?),
        _ => None,
    };
    let server = Arc::new(Server { web: web.clone(), log: Mutex::new(vec![]) });
    let mut o = Options { client: ClientBuilder::new(client()).with(Answers(server.clone())).build(), ..options() };
    o.request_profile = profiles.iter().map(|p| Profile::new(Iri::new(p).unwrap())).collect();
    if let Some(m) = max {
        o.max_redirections = m;
    }
    let loader = ReqwestLoader::new_using(o);
    let mut nontrivial = false;
    for u in j.get("urls")?.items() {
        let u = IriBuf::new(u.as_str()?.to_string()).ok()?;
        reqwest::Url::parse(&u).ok().filter(|x| x.as_str() == u.as_str())?;
        server.log.lock().unwrap().clear();
        let mut trail = vec![];
        let mut seen = Tags::default();
        let want = expected(&web, max.unwrap_or(8), &u, &mut seen, &mut trail)?;
        nontrivial |= !seen.0.is_empty();
        seen.0.into_iter().for_each(|t| tags.tag(t));
        match (block(loader.load(&u)), want) {
            (Ok(d), Want::Doc(w)) => {
                let mut e = vec![("document", J::from_js(d.document()))];
                if let Some(u) = d.url() {
                    e.push(("url", s(u)));
                }
                if let Some(t) = d.content_type() {
                    e.push(("type", J::Str(t.essence_str().to_ascii_lowercase())));
                }
                if let Some(u) = d.context_url() {
                    e.push(("context", s(u)));
                }
                let p: BTreeSet<String> = d
                    .profile
                    .iter()
                    .map(|p| match p {
                        Profile::Standard(p) => p.iri().to_string(),
                        Profile::Custom(i) => i.to_string(),
                    })
                    .collect();
                e.push(("profile", J::Arr(p.into_iter().map(J::Str).collect())));
                let got = obj(e).sorted_keys();
                if got != w {
                    let k = ["url", "type", "context", "profile", "document"].into_iter().find(|k| got.get(k) != w.get(k)).unwrap_or("?");
                    return Some(Outcome::fail(format!("http {k}"), format!("{u}: {} , expected {}", got, w)));
                }
            }
            (Ok(d), w) => return Some(Outcome::fail("unexpected document", format!("{u}: {} from {:?}, expected {w:?}", J::from_js(d.document()), d.url()))),
            (Err(e), w) => {
                let kind = match e.cause.downcast_ref::<Error>() {
                    Some(Error::QueryFailed(c)) => Want::Status(c.as_u16()),
                    Some(Error::InvalidContentType) => Want::Type,
                    Some(Error::MultipleContextLinkHeaders) => Want::Contexts,
                    Some(Error::TooManyRedirections) => Want::TooMany,
                    Some(Error::Parse(_)) => Want::Parse,
                    Some(Error::Reqwest(_)) | None => Want::Unreachable,
                };
                if kind != w {
                    return Some(Outcome::fail("http error", format!("{u}: {kind:?} ({}), expected {w:?}", e.cause)));
                }
                if w != Want::TooMany && !trail.iter().any(|t| *t == e.target.as_str()) {
                    return Some(Outcome::fail("target of the http error", format!("{u}: {}", e.target)));
                }
            }
        }
        // what was asked
        let log = std::mem::take(&mut *server.log.lock().unwrap());
        for (m, _, a) in &log {
            let a = a.join(", ");
            let has = |t: &str| a.split(',').any(|x| x.split(';').next().unwrap_or("").trim() == t);
            if m != "GET" || !has("application/ld+json") || !has("application/json") {
                return Some(Outcome::fail("http request", format!("{m} {a}")));
            }
            let p: BTreeSet<&str> = a.split_once("profile=").map(|x| x.1.split([',', ';']).next().unwrap_or("").trim_matches('"').split(' ').collect()).unwrap_or_default();
            if p != profiles.iter().map(|x| x.as_str()).collect() {
                return Some(Outcome::fail("http request", format!("{a}, for the profiles {profiles:?}")));
            }
        }
        if log.len() > max.unwrap_or(8) + 1 {
            return Some(Outcome::fail("http request", format!("{} requests", log.len())));
        }
    }
    Some(Outcome::pass(nontrivial))
}

fn options() -> Options {
    Options { request_profile: vec![], max_redirections: 8, client: ClientBuilder::new(client()).build() }
}
