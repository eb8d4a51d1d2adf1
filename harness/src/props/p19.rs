//! Every operation ends with a result or an error, whatever the input.
use super::p05;
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::{json_value, Cfg};
use crate::imp::{self, Case, CompactOpts};
use crate::j::{s, J};
use crate::model::rdf::Dir;
use crate::src::Src;

pub const PROP: Prop = Prop {
    id: "P19",
    quick: 60000,
    thorough: 1500000,
    rule: "random documents and contexts with random damage (entries renamed, moved, duplicated, replaced by any JSON), given to all the operations; non-trivial: the document is not rejected by all the operations",
    assumptions: &["objects nested at most some tens of levels deep: deeper documents exhaust the stack (recursion)"],
    gen,
    check,
};

const KEYS: [&str; 40] = [
    "@id", "@type", "@value", "@language", "@direction", "@index", "@list", "@set", "@graph", "@reverse", "@included",
    "@nest", "@context", "@none", "@json", "@vocab", "@base", "@import", "@propagate", "@protected", "@version",
    "@container", "@prefix", "@any", "@null", "@unknown", "@Type", "", ":", "::", "_:", "_:b", "ex:", "ex:a", "a", "b",
    "http://ex.org/a", "/", "#", "@",
];

const STRINGS: [&str; 47] = [
    "", " ", ":", "//", "/", "#", "?", "?#", "..", "../..", "./", "_:", "_:b0", "_:b 1", "_:-", "@", "@id", "@type", "@vocab", "@none",
    "@json", "@any", "@x", "a b", "http:", "http://", "http:///x", "http://ex.org", "http://ex.org/%", "http://ex.org/%zz",
    "http://ex.org/é", "ex:", "ex:a", "ex://a", "::a", ":a", "en", "en-", "i-klingon", "x-", "ltr", "http://[::1]/", "\u{0}", "\u{10ffff}",
    "http://ex.org/dir/c0.jsonld", "c0.jsonld", "c1.jsonld",
];

pub fn soup(g: &mut Src, depth: usize) -> J {
    match g.weighted(&[6, 2, 2, 1, 3, 3]) {
        0 => s(*g.pick(&STRINGS)),
        1 => J::Num(g.pick(&["0", "-0", "1", "1.1", "1.0", "-1", "1e400", "1e-400", "123456789012345678901234567890", "1E2", "0.1", "5e20", "1e21"]).to_string()),
        2 => J::Bool(g.bool()),
        3 => J::Null,
        4 if depth > 0 => J::Arr((0..g.below(4)).map(|_| soup(g, depth - 1)).collect()),
        _ if depth > 0 => {
            let n = g.below(4);
            let mut e = vec![];
            for _ in 0..n {
                let k = if g.chance(1, 6) { g.pick(&STRINGS).to_string() } else { g.pick(&KEYS).to_string() };
                e.push((k, soup(g, depth - 1)));
            }
            J::Obj(e)
        }
        _ => json_value(g, 1),
    }
}

/// Damage somewhere in the value.
pub fn damage(g: &mut Src, j: &mut J, depth: usize) {
    let into = match j {
        J::Arr(a) if !a.is_empty() => a.len(),
        J::Obj(e) if !e.is_empty() => e.len(),
        _ => 0,
    };
    if into > 0 && g.chance(3, 4) {
        let i = g.below(into);
        match j {
            J::Arr(a) => return damage(g, &mut a[i], depth + 1),
            J::Obj(e) => return damage(g, &mut e[i].1, depth + 1),
            _ => (),
        }
    }
    match g.below(8) {
        0 | 1 => *j = soup(g, 3),
        2 => *j = J::Arr(vec![j.clone(), soup(g, 1)]),
        3 => *j = J::Obj(vec![(g.pick(&KEYS).to_string(), j.clone())]),
        _ => match j {
            J::Obj(e) => {
                let k = g.pick(&KEYS).to_string();
                if !e.is_empty() && g.bool() {
                    let i = g.below(e.len());
                    if g.chance(1, 5) {
                        let d = e[i].clone();
                        e.push(d);
                    } else {
                        e[i].0 = k;
                    }
                } else {
                    let v = soup(g, 2);
                    e.push((k, v));
                }
            }
            J::Arr(a) => {
                let v = soup(g, 2);
                a.push(v)
            }
            j => *j = soup(g, 2),
        },
    }
}

fn gen(g: &mut Src) -> J {
    if g.chance(1, 10) {
        // anything at all
        let mut c = Case::new(soup(g, 5));
        if g.bool() {
            c.expand_context = Some(soup(g, 4));
        }
        let o = CompactOpts { context: soup(g, 4), arrays: g.bool(), to_relative: g.bool() };
        return o.render(c.render());
    }
    let (mut c, mut o) = p05::gen_case(g, Cfg { off_shape: 15, blank_props: true, wild_numbers: true, ..Cfg::default() });
    if !c.remote.is_empty() && g.chance(1, 4) {
        // a context that refers to another, or itself
        let i = g.below(c.remote.len());
        let u = s(*g.pick(&["c0.jsonld", "c1.jsonld", "http://ex.org/dir/c0.jsonld"]));
        if let Some(x) = c.remote[i].1.get_mut("@context") {
            match g.below(3) {
                0 => *x = J::Arr(vec![u, x.clone()]),
                1 => *x = J::Arr(vec![x.clone(), J::Obj(vec![("@import".into(), u)])]),
                _ => x.set(g.pick(&["a", "b", "T"]), J::Obj(vec![("@id".into(), s("http://ex.org/a")), ("@context".into(), u)])),
            }
        }
    }
    let n = g.weighted(&[2, 4, 3, 2, 1]);
    for _ in 0..n {
        match g.weighted(&[5, 2, 2, 1]) {
            0 => damage(g, &mut c.doc, 0),
            1 => damage(g, &mut o.context, 0),
            2 if !c.remote.is_empty() => {
                let i = g.below(c.remote.len());
                damage(g, &mut c.remote[i].1, 0)
            }
            _ => c.mode10 = true,
        }
    }
    o.render(c.render())
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (case, o) = match p05::parse(j) {
        Some(c) => c,
        None => return Outcome::pass(false),
    };
    if j.depth() > 60 {
        return Outcome::pass(false);
    }
    let mut some = false;
    let mut see = |what: &'static str, ok: bool| {
        if ok {
            tags.tag(what);
            some = true;
        }
    };
    let e = imp::expand_raw(&case);
    see("expand", e.is_ok());
    see("compact", imp::compact(&case, &o).is_ok());
    see("flatten", imp::flatten(&case, None).is_ok());
    see("flatten compact", imp::flatten(&case, Some(&o)).is_ok());
    for d in [Dir::None, Dir::I18n, Dir::Compound] {
        see("rdf", imp::to_rdf_quads(&case, d, d == Dir::I18n).is_ok());
    }
    // compared with itself, and the context
    let (d, x) = (case.doc.to_js(), o.context.to_js());
    let _ = json_ld::syntax::Compare::compare(&d, &x);
    let l = imp::loader(&case.remote);
    if let Ok(opts) = imp::options(&case) {
        let _ = imp::block(json_ld::JsonLdProcessor::compare_full(&imp::remote_doc(&case), &imp::remote_doc(&case), &mut (), &l, opts, ()));
    }
    // read as an expanded document
    let x = imp::exp_from_j(&case.doc);
    see("read", x.is_ok());
    for mut e in [e.ok(), x.ok()].into_iter().flatten() {
        let _ = imp::exp_to_j(&e);
        let _ = e.count(|_| true);
        let _ = e.blank_ids().len();
        let _ = format!("{e:?}");
        let mut g = rdf_types::generator::Blank::new();
        let _ = e.generate_node_map_with(&mut (), &mut g).map(|m| m.iter_named().count());
        e.canonicalize();
        e.relabel(&mut g);
        e.identify_all(&mut g);
        let _ = imp::exp_to_j(&e);
        let _ = json_ld::Flatten::flatten_with(e.clone(), &mut (), &mut g, true).map(|f| f.len());
    }
    Outcome::pass(some)
}
