//! RFC 3986/3987 helpers of the reference model.

pub fn keyword(s: &str) -> bool {
    matches!(
        s,
        "@base" | "@container" | "@context" | "@direction" | "@graph" | "@id" | "@import"
            | "@included" | "@index" | "@json" | "@language" | "@list" | "@nest" | "@none"
            | "@prefix" | "@propagate" | "@protected" | "@reverse" | "@set" | "@type"
            | "@value" | "@version" | "@vocab"
    )
}

pub fn keyword_like(s: &str) -> bool {
    s.len() > 1 && s.starts_with('@') && s[1..].bytes().all(|b| b.is_ascii_alphabetic())
}

fn scheme_len(s: &str) -> Option<usize> {
    let i = s.find(':')?;
    let sc = &s[..i];
    let mut it = sc.bytes();
    match it.next() {
        Some(c) if c.is_ascii_alphabetic() => (),
        _ => return None,
    }
    if it.all(|c| c.is_ascii_alphanumeric() || c == b'+' || c == b'-' || c == b'.') {
        Some(i)
    } else {
        None
    }
}

fn valid_chars(s: &str) -> bool {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut hashes = 0;
    while i < b.len() {
        match b[i] {
            '%' => {
                if !(i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit()) {
                    return false;
                }
            }
            '#' => {
                hashes += 1;
                if hashes > 1 {
                    return false;
                }
            }
            c if c <= ' ' || c == '\u{7f}' => return false,
            '<' | '>' | '"' | '{' | '}' | '|' | '\\' | '^' | '`' | '[' | ']' => return false,
            _ => (),
        }
        i += 1;
    }
    true
}

/// Absolute IRI (RFC 3987 `IRI`).
pub fn is_iri(s: &str) -> bool {
    scheme_len(s).is_some() && valid_chars(s)
}

pub fn is_blank(s: &str) -> bool {
    s.starts_with("_:")
}

/// Has the form of an absolute IRI, as in the IRI expansion algorithm.
pub fn has_iri_form(s: &str) -> bool {
    is_iri(s)
}

pub fn is_iri_ref(s: &str) -> bool {
    if is_iri(s) {
        return true;
    }
    if !valid_chars(s) {
        return false;
    }
    // first segment of a relative reference cannot contain ':'
    let end = s.find(|c| c == '/' || c == '?' || c == '#').unwrap_or(s.len());
    !s[..end].contains(':')
}

pub struct Parts<'a> {
    pub scheme: Option<&'a str>,
    pub authority: Option<&'a str>,
    pub path: &'a str,
    pub query: Option<&'a str>,
    pub fragment: Option<&'a str>,
}

pub fn parts(s: &str) -> Parts<'_> {
    let (scheme, rest) = match scheme_len(s) {
        Some(i) => (Some(&s[..i]), &s[i + 1..]),
        None => (None, s),
    };
    let (rest, fragment) = match rest.find('#') {
        Some(i) => (&rest[..i], Some(&rest[i + 1..])),
        None => (rest, None),
    };
    let (rest, query) = match rest.find('?') {
        Some(i) => (&rest[..i], Some(&rest[i + 1..])),
        None => (rest, None),
    };
    let (authority, path) = if let Some(r) = rest.strip_prefix("//") {
        let e = r.find('/').unwrap_or(r.len());
        (Some(&r[..e]), &r[e..])
    } else {
        (None, rest)
    };
    Parts { scheme, authority, path, query, fragment }
}

fn remove_dots(path: &str) -> String {
    let mut input = path.to_string();
    let mut out = String::new();
    while !input.is_empty() {
        if input.starts_with("../") {
            input = input[3..].into();
        } else if input.starts_with("./") {
            input = input[2..].into();
        } else if input.starts_with("/./") {
            input = input[2..].into();
        } else if input == "/." {
            input = "/".into();
        } else if input.starts_with("/../") || input == "/.." {
            input = if input == "/.." { "/".into() } else { input[3..].into() };
            match out.rfind('/') {
                Some(i) => out.truncate(i),
                None => out.clear(),
            }
        } else if input == "." || input == ".." {
            input.clear();
        } else {
            let start = if input.starts_with('/') { 1 } else { 0 };
            let e = input[start..].find('/').map(|i| i + start).unwrap_or(input.len());
            out.push_str(&input[..e]);
            input = input[e..].into();
        }
    }
    out
}

/// RFC 3986 section 5.2 (strict).
pub fn resolve(base: &str, r: &str) -> String {
    let b = parts(base);
    let p = parts(r);
    let (scheme, auth, path, query);
    if p.scheme.is_some() {
        scheme = p.scheme;
        auth = p.authority;
        path = remove_dots(p.path);
        query = p.query;
    } else {
        scheme = b.scheme;
        if p.authority.is_some() {
            auth = p.authority;
            path = remove_dots(p.path);
            query = p.query;
        } else {
            auth = b.authority;
            if p.path.is_empty() {
                path = b.path.to_string();
                query = if p.query.is_some() { p.query } else { b.query };
            } else {
                query = p.query;
                if p.path.starts_with('/') {
                    path = remove_dots(p.path);
                } else {
                    let merged = if b.authority.is_some() && b.path.is_empty() {
                        format!("/{}", p.path)
                    } else {
                        match b.path.rfind('/') {
                            Some(i) => format!("{}{}", &b.path[..=i], p.path),
                            None => p.path.to_string(),
                        }
                    };
                    path = remove_dots(&merged);
                }
            }
        }
    }
    let mut o = String::new();
    if let Some(s) = scheme {
        o.push_str(s);
        o.push(':');
    }
    if let Some(a) = auth {
        o.push_str("//");
        o.push_str(a);
    }
    o.push_str(&path);
    if let Some(q) = query {
        o.push('?');
        o.push_str(q);
    }
    if let Some(f) = p.fragment {
        o.push('#');
        o.push_str(f);
    }
    o
}

#[cfg(test)]
mod tests {
    #[test]
    fn rfc() {
        let b = "http://a/b/c/d;p?q";
        for (r, e) in [
            ("g", "http://a/b/c/g"), ("./g", "http://a/b/c/g"), ("g/", "http://a/b/c/g/"),
            ("/g", "http://a/g"), ("//g", "http://g"), ("?y", "http://a/b/c/d;p?y"),
            ("g?y", "http://a/b/c/g?y"), ("#s", "http://a/b/c/d;p?q#s"), ("", "http://a/b/c/d;p?q"),
            (".", "http://a/b/c/"), ("..", "http://a/b/"), ("../g", "http://a/b/g"),
            ("../../g", "http://a/g"), ("../../../g", "http://a/g"), ("g;x=1/../y", "http://a/b/c/y"),
        ] {
            assert_eq!(super::resolve(b, r), e);
        }
    }
}
