//! Flattening conforms to the reference model.
use super::{p01, p05};
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::Cfg;
use crate::imp::{self, Case};
use crate::j::{diff, J};
use crate::model::{flatten, iso};
use crate::src::Src;

pub const PROP: Prop = Prop {
    id: "P07",
    quick: 60000,
    thorough: 800000,
    rule: "random documents; non-trivial: the document flattens to at least two nodes, and is not flat already",
    assumptions: p01::MODEL,
    gen: |g| {
        let (c, o) = p05::gen_case(g, Cfg { size: 20, ..Cfg::default() });
        let mut c = Case { ordered: true, mode10: false, ..c };
        if g.chance(2, 3) {
            c.doc = raw_expanded(g);
        }
        o.render(c.render())
    },
    check,
};

/// Expanded document with few identifiers, so that nodes are described in several places.
pub fn raw_expanded(g: &mut Src) -> J {
    let n = g.range(1, 3);
    let mut budget = 16;
    J::Arr((0..n).map(|_| node(g, 3, &mut budget)).collect())
}

const IDS: [&str; 6] = ["http://ex.org/a", "http://ex.org/b", "_:x", "_:y", "_:b0", "_:b1"];
const PROPS: [&str; 4] = ["http://ex.org/p", "http://ex.org/q", "http://p.org/ns#r", "http://ex.org/s"];

fn js(x: &str) -> J {
    J::Str(x.into())
}

pub fn value(g: &mut Src) -> J {
    let mut e: Vec<(String, J)> = vec![];
    match g.weighted(&[4, 2, 1, 2, 2, 1, 1]) {
        0 => e.push(("@value".into(), js(*g.pick(&["x", "y", ""])))),
        1 => e.push(("@value".into(), J::Num(g.pick(&["1", "2", "1.5"]).to_string()))),
        2 => e.push(("@value".into(), J::Bool(g.bool()))),
        3 => {
            e.push(("@value".into(), js(*g.pick(&["x", "y"]))));
            e.push(("@language".into(), js(*g.pick(&["en", "fr"]))));
            if g.chance(1, 4) {
                e.push(("@direction".into(), js("rtl")));
            }
        }
        4 => {
            e.push(("@value".into(), js(*g.pick(&["x", "2020-01-01"]))));
            e.push(("@type".into(), js("http://ex.org/dt")));
        }
        5 => {
            e.push(("@value".into(), js("x")));
            e.push(("@direction".into(), js("ltr")));
        }
        _ => {
            e.push(("@value".into(), crate::gen::json_value(g, 1)));
            e.push(("@type".into(), js("@json")));
        }
    }
    if g.chance(1, 10) {
        e.push(("@index".into(), js(*g.pick(&["i", "i", "j", ""]))));
    }
    J::Obj(e)
}

pub fn object(g: &mut Src, depth: usize, budget: &mut i32) -> J {
    *budget -= 1;
    let deep = depth > 0 && *budget > 0;
    match g.weighted(&[4, 3, if deep { 5 } else { 0 }, if deep { 2 } else { 0 }]) {
        0 => value(g),
        1 => J::Obj(vec![("@id".into(), js(*g.pick(&IDS)))]),
        2 => node(g, depth - 1, budget),
        _ => {
            let n = g.range(0, 3);
            J::Obj(vec![("@list".into(), J::Arr((0..n).map(|_| object(g, depth - 1, budget)).collect()))])
        }
    }
}

pub fn node(g: &mut Src, depth: usize, budget: &mut i32) -> J {
    *budget -= 1;
    let mut e: Vec<(String, J)> = vec![];
    if g.chance(3, 4) {
        e.push(("@id".into(), js(*g.pick(&IDS))));
    }
    if g.chance(1, 3) {
        let n = g.range(1, 3);
        let ts = (0..n).map(|_| js(*g.pick(&["http://ex.org/T", "http://ex.org/U", "_:x", "_:t"]))).collect();
        e.push(("@type".into(), J::Arr(ts)));
    }
    if g.chance(1, 16) {
        e.push(("@index".into(), js(*g.pick(&["i", "i", "i", "j", "i", ""]))));
    }
    let deep = depth > 0 && *budget > 0;
    for _ in 0..g.range(0, if deep { 3 } else { 1 }) {
        let p = g.pick(&PROPS).to_string();
        if !e.iter().any(|(k, _)| *k == p) {
            let n = g.range(1, 3);
            e.push((p, J::Arr((0..n).map(|_| object(g, depth.saturating_sub(1), budget)).collect())));
        }
    }
    if deep {
        if g.chance(1, 6) {
            let n = g.range(1, 2);
            e.push(("@graph".into(), J::Arr((0..n).map(|_| node(g, depth - 1, budget)).collect())));
        }
        if g.chance(1, 10) {
            let n = g.range(1, 2);
            e.push(("@included".into(), J::Arr((0..n).map(|_| node(g, depth - 1, budget)).collect())));
        }
        if g.chance(1, 8) {
            let mut r = vec![];
            for p in PROPS.iter().take(g.range(1, 2)) {
                let n = g.range(1, 2);
                r.push((p.to_string(), J::Arr((0..n).map(|_| node(g, depth - 1, budget)).collect())));
            }
            e.push(("@reverse".into(), J::Obj(r)));
        }
    }
    J::Obj(e)
}

fn unindex_lists(v: &J) -> J {
    match v {
        J::Arr(a) => J::Arr(a.iter().map(unindex_lists).collect()),
        J::Obj(o) => {
            let list = v.has("@list");
            J::Obj(
                o.iter()
                    .filter(|(k, _)| !(list && k == "@index"))
                    .map(|(k, x)| (k.clone(), if k == "@value" { x.clone() } else { unindex_lists(x) }))
                    .collect(),
            )
        }
        o => o.clone(),
    }
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (case, o) = match p05::parse(j) {
        Some((c, o)) => (Case { ordered: true, ..c }, o),
        None => return Outcome::pass(false),
    };
    let expanded = match imp::expand(&Case { ordered: false, ..case.clone() }) {
        Ok(e) => e,
        Err(_) => return Outcome::pass(false),
    };
    if expanded.to_text().contains("/../") {
        return Outcome::pass(false);
    }
    let m = flatten::flatten(&expanded);
    let i = imp::flatten(&case, None);
    let flat = match (m, i) {
        (Err(a), Err(b)) if a == b => {
            tags.tag("conflicting-indexes");
            return Outcome::pass(false);
        }
        (Ok(a), Ok(b)) => {
            let fa = iso::flattened_facts(&unindex_lists(&a));
            let fb = iso::flattened_facts(&unindex_lists(&b));
            match iso::isomorphic(&fa, &fb) {
                None => {
                    tags.tag("undecided");
                    return Outcome::pass(false);
                }
                Some(true) => (),
                Some(false) => {
                    let only: Vec<String> = [(&fa, &fb, "model"), (&fb, &fa, "impl")]
                        .iter()
                        .map(|(x, y, n)| format!("only {n}:\n{}", iso::show(&x.difference(y).cloned().collect())))
                        .collect();
                    return Outcome::fail(
                        "diff",
                        format!("expanded: {expanded}\nmodel: {a}\nimpl:  {b}\n{}", only.join("")),
                    );
                }
            }
            b
        }
        (a, b) => return Outcome::fail("result", format!("model: {a:?}\nimpl: {b:?}")),
    };
    // nodes in order of their identifiers
    let mut sorted = true;
    check_sorted(&flat, &mut sorted);
    if !sorted && case.ordered {
        return Outcome::fail("order", format!("{flat}"));
    }
    // the same document as a set of nodes
    match imp::flatten_unordered(&Case { ordered: false, ..case.clone() }) {
        Ok(x) => {
            let (fa, fb) = (iso::flattened_facts(&flat), iso::flattened_facts(&x));
            if iso::isomorphic(&fa, &fb) == Some(false) {
                return Outcome::fail("unordered", format!("{flat}\n{x}"));
            }
        }
        Err(e) => return Outcome::fail("unordered: error", format!("{e}\n{flat}")),
    }
    // flattening again changes nothing but the blank node labels
    let again = Case { doc: flat.clone(), expand_context: None, ..case.clone() };
    if !super::p06::invalid_iris(&flat) && !super::p11::irregular(&flat) {
        match imp::flatten(&again, None) {
            Ok(x) => {
                let (fa, fb) = (iso::flattened_facts(&flat), iso::flattened_facts(&x));
                if iso::isomorphic(&fa, &fb) == Some(false) {
                    return Outcome::fail("twice", format!("{flat}\n{x}"));
                }
            }
            Err(e) => return Outcome::fail("twice: error", format!("{e}\n{flat}")),
        }
        // flattening with a context is compacting the flattened document
        let a = imp::flatten(&case, Some(&o)).map(|x| x.sorted_keys());
        let b = imp::compact(&again, &o).map(|x| x.sorted_keys());
        if a != b && case.base.is_none() {
            return match (&a, &b) {
                (Ok(x), Ok(y)) => Outcome::fail("context", format!("{x}\n{y}\n{}", diff(x, y))),
                _ => Outcome::fail("context: error", format!("{a:?}\n{b:?}")),
            };
        }
        if a.is_ok() {
            tags.tag("with-context");
        }
    }
    Outcome::pass(flat.len() > 1 && flat != expanded)
}

fn check_sorted(v: &J, ok: &mut bool) {
    let ids: Vec<&str> = v.items().iter().filter_map(|n| n.get("@id").and_then(|x| x.as_str())).collect();
    *ok &= ids.windows(2).all(|w| w[0] <= w[1]);
    for n in v.items() {
        if let Some(g) = n.get("@graph") {
            check_sorted(g, ok)
        }
    }
}
