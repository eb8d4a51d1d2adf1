//! Documents compare equal exactly when they differ in order only, and mean the same.
use super::p10::shuffle;
use super::{p01, p13, p19};
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::Cfg;
use crate::imp::{self, Case};
use crate::j::J;
use crate::src::Src;
use json_ld::syntax::Compare;
use json_ld::utils::simple_json_ld_eq;
use json_ld::JsonLdProcessor;

pub const PROP: Prop = Prop {
    id: "P21",
    quick: 60000,
    thorough: 1500000,
    rule: "random documents, and a copy with entries and array elements in another order and up to two changes; non-trivial: both expand, to something",
    assumptions: &["numbers are compared as they are written"],
    gen,
    check,
};

/// Entries and array elements in another order, here and there.
fn mix(g: &mut Src, v: &J, array: usize) -> J {
    match v {
        J::Arr(a) => {
            let mut r: Vec<J> = a.iter().map(|x| mix(g, x, array)).collect();
            if g.chance(array, 4) {
                g.shuffle(&mut r);
            }
            J::Arr(r)
        }
        J::Obj(o) => {
            let mut e: Vec<(String, J)> = o.iter().map(|(k, x)| (k.clone(), mix(g, x, array))).collect();
            g.shuffle(&mut e);
            J::Obj(e)
        }
        o => o.clone(),
    }
}

/// A small change.
fn change(g: &mut Src, v: &mut J) {
    let into = match v {
        J::Arr(a) if !a.is_empty() => a.len(),
        J::Obj(e) if !e.is_empty() => e.len(),
        _ => 0,
    };
    if into > 0 && g.chance(4, 5) {
        let i = g.below(into);
        match v {
            J::Arr(a) => return change(g, &mut a[i]),
            J::Obj(e) => return change(g, &mut e[i].1),
            _ => (),
        }
    }
    match v {
        J::Arr(a) if !a.is_empty() => {
            let i = g.below(a.len());
            let k = g.below(a.len());
            match g.below(4) {
                0 => {
                    a.remove(i);
                }
                1 => a.push(a[i].clone()),
                _ => a[i] = a[k].clone(),
            }
        }
        J::Obj(e) if e.len() > 1 => {
            let i = g.below(e.len());
            let k = g.below(e.len());
            match g.below(4) {
                0 => {
                    e.remove(i);
                }
                1 if g.bool() => {
                    // the same key, twice
                    let x = if g.bool() { e[i].1.clone() } else { e[k].1.clone() };
                    e.push((e[i].0.clone(), x));
                }
                1 => {
                    let x = e[i].1.clone();
                    e[i].1 = e[k].1.clone();
                    e[k].1 = x;
                }
                _ => e[i].1 = e[k].1.clone(),
            }
        }
        J::Str(t) if !t.starts_with('@') => match g.below(3) {
            0 => *t = t.to_uppercase(),
            1 => *t = format!("{t}x"),
            _ => *v = J::Arr(vec![v.clone()]),
        },
        J::Num(n) => *n = if n == "1" { "2".into() } else { "1".into() },
        J::Bool(b) => *b = !*b,
        _ if g.bool() => *v = J::Arr(vec![v.clone()]),
        _ => *v = p19::soup(g, 1),
    }
}

fn gen(g: &mut Src) -> J {
    let mut c = p01::gen_case(g, Cfg { off_shape: 2, ..Cfg::default() });
    if g.chance(1, 4) {
        let e = super::p07::raw_expanded(g);
        c.doc = e;
    }
    let mut d = if g.chance(1, 3) { shuffle(g, &c.doc) } else {
        let n = 1 + g.below(4);
        mix(g, &c.doc, n)
    };
    for _ in 0..g.weighted(&[5, 4, 1]) {
        change(g, &mut d);
    }
    let mut j = c.render();
    j.set("document2", d);
    j
}

/// Everything sorted.
pub fn bag(v: &J) -> J {
    match v {
        J::Arr(a) => {
            let mut r: Vec<J> = a.iter().map(bag).collect();
            r.sort();
            J::Arr(r)
        }
        J::Obj(o) => {
            let mut e: Vec<(String, J)> = o.iter().map(|(k, x)| (k.clone(), bag(x))).collect();
            e.sort();
            J::Obj(e)
        }
        o => o.clone(),
    }
}

/// Everything sorted but the elements of lists; nothing if keys are repeated.
fn simple(v: &J) -> Option<J> {
    Some(match v {
        J::Arr(a) => {
            let mut r: Vec<J> = a.iter().map(simple).collect::<Option<_>>()?;
            r.sort();
            J::Arr(r)
        }
        J::Obj(o) => {
            let mut e: Vec<(String, J)> = vec![];
            for (k, x) in o {
                let x = match x {
                    J::Arr(a) if k == "@list" => J::Arr(a.iter().map(simple).collect::<Option<_>>()?),
                    x => simple(x)?,
                };
                e.push((k.clone(), x));
            }
            e.sort();
            if e.windows(2).any(|w| w[0].0 == w[1].0) {
                return None;
            }
            J::Obj(e)
        }
        o => o.clone(),
    })
}

fn compare(a: &Case, b: &Case) -> imp::R<bool> {
    let o = imp::options(a)?;
    let l = imp::loader(&a.remote);
    imp::block(imp::remote_doc(a).compare_full(&imp::remote_doc(b), &mut (), &l, o, ())).map_err(|e| e.code().to_string())
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (a, d) = match (Case::parse(j), j.get("document2")) {
        (Some(c), Some(d)) => (c, d.clone()),
        _ => return Outcome::pass(false),
    };
    let mut b = a.clone();
    b.doc = d;
    let (va, vb) = (a.doc.to_js(), b.doc.to_js());
    let same = bag(&a.doc) == bag(&b.doc);
    for (x, y, what) in [(&va, &vb, "values"), (&vb, &va, "values, swapped")] {
        if x.compare(y) != same {
            return Outcome::fail(format!("{what}: {}", if same { "the same, found different" } else { "different, found the same" }), "");
        }
    }
    if !va.compare(&va) || !vb.compare(&vb) {
        return Outcome::fail("a value is not the same as itself", "");
    }
    if simple(&a.doc).zip(simple(&b.doc)).is_some() {
        tags.tag("simple");
        let same = simple(&a.doc) == simple(&b.doc);
        if simple_json_ld_eq(&va, &vb) != same || simple_json_ld_eq(&vb, &va) != same {
            return Outcome::fail(format!("simple comparison: {}", if same { "the same, found different" } else { "different, found the same" }), "");
        }
    }
    if same {
        tags.tag("same values");
    }
    let (ab, ba) = (compare(&a, &b), compare(&b, &a));
    if !same {
        // nothing to expand
        return match (&ab, &ba) {
            (Ok(false), Ok(false)) => {
                tags.tag("different values");
                Outcome::pass(imp::expand(&a).is_ok())
            }
            (Err(_), _) if a.expand_context.is_some() && imp::options(&a).is_err() => Outcome::pass(false),
            _ => Outcome::fail("documents with different contents are not found different", format!("{ab:?} {ba:?}")),
        };
    }
    let (ea, eb) = (imp::expand(&a), imp::expand(&b));
    match (&ea, &eb) {
        (Ok(x), Ok(y)) => {
            // the order of the entries in JSON literals may or may not matter
            let eq = p13::canon(x, false) == p13::canon(y, false);
            let loosely = p13::canon(x, true) == p13::canon(y, true);
            tags.tag(if eq { "same meaning" } else { "other meaning" });
            for r in [&ab, &ba] {
                match r {
                    Ok(r) if (*r && loosely) || (!*r && !eq) => (),
                    _ => return Outcome::fail("not compared by their meaning", format!("{ab:?} {ba:?}\n{x}\n{y}")),
                }
            }
            if ab != ba {
                return Outcome::fail("comparison is not symmetric", format!("{ab:?} {ba:?}"));
            }
            Outcome::pass(x.as_arr().is_some_and(|a| !a.is_empty()))
        }
        _ => {
            tags.tag("error");
            match (&ab, &ba) {
                (Err(_), Err(_)) => Outcome::pass(false),
                _ => Outcome::fail("documents compare although one is invalid", format!("{ab:?} {ba:?}")),
            }
        }
    }
}
