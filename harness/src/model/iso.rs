//! Isomorphism of sets of facts modulo a renaming of blank nodes.
use crate::j::J;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Tok {
    C(String),
    B(String),
}
pub type Fact = Vec<Tok>;

fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn colors(facts: &BTreeSet<Fact>) -> BTreeMap<String, u64> {
    let mut col: BTreeMap<String, u64> = BTreeMap::new();
    for f in facts {
        for t in f {
            if let Tok::B(b) = t {
                col.insert(b.clone(), 0);
            }
        }
    }
    let n = col.len();
    for _ in 0..n.min(8) + 1 {
        let mut sig: BTreeMap<String, Vec<u64>> = col.keys().map(|k| (k.clone(), vec![])).collect();
        for f in facts {
            let base: Vec<(u8, u64)> = f
                .iter()
                .map(|t| match t {
                    Tok::C(c) => (0, hash(c)),
                    Tok::B(b) => (1, col[b]),
                })
                .collect();
            let mut bs: BTreeSet<&String> = BTreeSet::new();
            for t in f {
                if let Tok::B(b) = t {
                    bs.insert(b);
                }
            }
            for b in bs {
                let v: Vec<(u8, u64)> = f
                    .iter()
                    .zip(&base)
                    .map(|(t, h)| if *t == Tok::B(b.clone()) { (2, h.1) } else { *h })
                    .collect();
                sig.get_mut(b).unwrap().push(hash(&v));
            }
        }
        col = sig
            .into_iter()
            .map(|(k, mut v)| {
                v.sort();
                let c = col[&k];
                (k, hash(&(c, v)))
            })
            .collect();
    }
    col
}

/// `None` when too costly to decide.
pub fn isomorphic(a: &BTreeSet<Fact>, b: &BTreeSet<Fact>) -> Option<bool> {
    if a.len() != b.len() {
        return Some(false);
    }
    let ca = colors(a);
    let cb = colors(b);
    if ca.len() != cb.len() {
        return Some(false);
    }
    let mut ka: Vec<u64> = ca.values().copied().collect();
    let mut kb: Vec<u64> = cb.values().copied().collect();
    ka.sort();
    kb.sort();
    if ka != kb {
        return Some(false);
    }
    let mut by: HashMap<u64, Vec<String>> = HashMap::new();
    for (k, c) in &cb {
        by.entry(*c).or_default().push(k.clone());
    }
    let mut order: Vec<(String, u64)> = ca.into_iter().collect();
    order.sort_by_key(|(k, c)| (by[c].len(), k.clone()));
    let mut map = BTreeMap::new();
    let mut used = BTreeSet::new();
    let mut budget = 200_000usize;
    let r = go(&order, 0, &by, &mut map, &mut used, a, b, &mut budget);
    if budget == 0 && !r {
        None
    } else {
        Some(r)
    }
}

#[allow(clippy::too_many_arguments)]
fn go(
    order: &[(String, u64)],
    i: usize,
    by: &HashMap<u64, Vec<String>>,
    map: &mut BTreeMap<String, String>,
    used: &mut BTreeSet<String>,
    a: &BTreeSet<Fact>,
    b: &BTreeSet<Fact>,
    budget: &mut usize,
) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    if i == order.len() {
        return rename(a, map) == *b;
    }
    let (k, c) = &order[i];
    for cand in &by[c] {
        if used.contains(cand) {
            continue;
        }
        map.insert(k.clone(), cand.clone());
        used.insert(cand.clone());
        // partial check: every fully mapped fact must exist
        let ok = a.iter().all(|f| {
            let mut touches = false;
            let mut full = true;
            for t in f {
                if let Tok::B(x) = t {
                    if x == k {
                        touches = true;
                    }
                    if !map.contains_key(x) {
                        full = false;
                    }
                }
            }
            !touches || !full || b.contains(&rename_fact(f, map))
        });
        if ok && go(order, i + 1, by, map, used, a, b, budget) {
            return true;
        }
        used.remove(cand);
        map.remove(k);
    }
    false
}

fn rename_fact(f: &Fact, map: &BTreeMap<String, String>) -> Fact {
    f.iter()
        .map(|t| match t {
            Tok::B(b) => Tok::B(map.get(b).cloned().unwrap_or_else(|| b.clone())),
            c => c.clone(),
        })
        .collect()
}
fn rename(a: &BTreeSet<Fact>, map: &BTreeMap<String, String>) -> BTreeSet<Fact> {
    a.iter().map(|f| rename_fact(f, map)).collect()
}

pub fn show(f: &BTreeSet<Fact>) -> String {
    let mut r = String::new();
    for x in f {
        for t in x {
            match t {
                Tok::C(c) => r.push_str(c),
                Tok::B(b) => r.push_str(&format!("«{b}»")),
            }
            r.push(' ');
        }
        r.push('\n');
    }
    r
}

/// Facts of a flattened document (array of node objects, with possibly named
/// graphs).
pub fn flattened_facts(doc: &J) -> BTreeSet<Fact> {
    let mut out = BTreeSet::new();
    graph_facts(doc, &Tok::C("@default".into()), &mut out);
    out
}

pub fn id_tok(v: &str) -> Tok {
    if v.starts_with("_:") {
        Tok::B(v.into())
    } else {
        Tok::C(v.into())
    }
}

fn graph_facts(doc: &J, g: &Tok, out: &mut BTreeSet<Fact>) {
    for n in doc.items() {
        let id = match n.get("@id") {
            Some(J::Str(i)) => id_tok(i),
            _ => Tok::C(format!("<no id> {n}")),
        };
        // existence of the node, and of its graph
        out.insert(vec![g.clone(), id.clone(), Tok::C("exists".into())]);
        if let J::Obj(e) = n {
            for (k, v) in e {
                match k.as_str() {
                    "@id" => (),
                    "@graph" => {
                        out.insert(vec![g.clone(), id.clone(), Tok::C("@graph".into())]);
                        graph_facts(v, &id, out)
                    }
                    _ => {
                        if v.items().is_empty() && k != "@type" {
                            // an empty property is still an entry of the node
                            out.insert(vec![g.clone(), id.clone(), id_tok(k), Tok::C("[]".into())]);
                        }
                        // sets: the number of occurrences is significant for lists only
                        let mut counts: BTreeMap<Vec<Tok>, usize> = BTreeMap::new();
                        for i in v.items() {
                            let mut f = vec![g.clone(), id.clone(), id_tok(k)];
                            toks(i, k == "@type", &mut f);
                            let c = counts.entry(f.clone()).or_default();
                            *c += 1;
                            f.push(Tok::C(format!("#{}", *c)));
                            out.insert(f);
                        }
                    }
                }
            }
        }
    }
}

fn toks(v: &J, id_pos: bool, out: &mut Vec<Tok>) {
    match v {
        J::Obj(e) => {
            let mut e: Vec<_> = e.iter().collect();
            e.sort_by(|a, b| a.0.cmp(&b.0));
            let json = v.get("@type") == Some(&J::Str("@json".into()));
            out.push(Tok::C("{".into()));
            for (k, x) in e {
                out.push(Tok::C(k.clone()));
                if k == "@value" && json {
                    out.push(Tok::C(x.sorted_keys().to_text()))
                } else if k == "@language" {
                    out.push(Tok::C(x.to_text().to_ascii_lowercase()))
                } else {
                    toks(x, k == "@id" || k == "@type", out);
                }
            }
            out.push(Tok::C("}".into()));
        }
        J::Arr(a) => {
            out.push(Tok::C("[".into()));
            for x in a {
                toks(x, id_pos, out);
            }
            out.push(Tok::C("]".into()));
        }
        J::Str(x) if id_pos && x.starts_with("_:") => out.push(Tok::B(x.clone())),
        o => out.push(Tok::C(o.to_text())),
    }
}
