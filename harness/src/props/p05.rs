//! Compaction conforms to the reference model.
use super::p01;
use crate::engine::{Outcome, Prop, Tags};
use crate::gen::{Cfg, World};
use crate::imp::{self, Case, CompactOpts};
use crate::j::{diff, J};
use crate::model::compact::Compactor;
use crate::model::context::{process, Ctx, Env, ProcOpts};
use crate::src::Src;

pub const PROP: Prop = Prop {
    id: "P05",
    quick: 250000,
    thorough: 3000000,
    rule: "random documents and compaction contexts (the document's own, or others over the same IRIs); non-trivial: both succeed and the compacted document is not empty",
    assumptions: p01::MODEL,
    gen: |g| {
        let (c, o) = gen_case(g, Cfg::default());
        o.render(c.render())
    },
    check,
};

/// Top level `@base` entries: what wins against the document URL is debatable.
fn strip_base(c: &mut J) {
    match c {
        J::Arr(a) => a.iter_mut().for_each(strip_base),
        J::Obj(_) => {
            c.remove("@base");
        }
        _ => (),
    }
}

pub fn gen_case(g: &mut Src, mut cfg: Cfg) -> (Case, CompactOpts) {
    cfg.shared_iris = g.chance(1, 2);
    cfg.off_shape = 3;
    cfg.mode10 = g.chance(1, 14);
    if cfg.mode10 {
        cfg.scoped = false;
        cfg.protected = false;
        cfg.direction = false;
        cfg.included = false;
        cfg.nest = false;
        cfg.propagate = false;
    }
    cfg.local_ctx = g.chance(1, 3);
    let mut w = World::new(cfg.clone());
    w.remote_contexts(g);
    for r in &mut w.remote {
        if let Some(c) = r.1.get_mut("@context") {
            strip_base(c)
        }
    }
    let doc = w.document(g);
    let mut context = match g.weighted(&[5, 4]) {
        0 if doc.has("@context") => doc.get("@context").unwrap().clone(),
        _ => {
            let mut w2 = World::new(cfg.clone());
            w2.remote = w.remote.clone();
            if g.chance(1, 4) {
                let n = g.range(1, 3);
                J::Arr((0..n).map(|_| w2.context_obj(g, 1, false)).collect())
            } else {
                w2.context(g, 1)
            }
        }
    };
    strip_base(&mut context);
    let mut c = Case::new(doc);
    c.remote = w.remote;
    c.mode10 = cfg.mode10;
    c.ordered = g.chance(1, 4);
    match g.weighted(&[8, 2, 1]) {
        0 => (),
        1 => c.base = Some("http://base.org/d/e?f#g".into()),
        _ => c.url = None,
    }
    let o = CompactOpts { context, arrays: !g.chance(1, 5), to_relative: !g.chance(1, 6) };
    (c, o)
}

/// Compaction context, as the API builds it.
pub fn model_ctx(env: &Env, c: &Case, o: &CompactOpts) -> Result<Ctx, &'static str> {
    let base = c.url.clone().or(c.base.clone());
    let mut x = process(env, &Ctx::with_original(None, None), &o.context, &ProcOpts::new(base))?;
    match &c.base {
        Some(b) => x.base = Some(b.clone()),
        None => {
            if o.to_relative && x.base.is_none() {
                x.base = c.url.clone()
            }
        }
    }
    Ok(x)
}

/// Compact what the code under test expands.
pub fn model_compact(env: &Env, expanded: &J, c: &Case, o: &CompactOpts) -> Result<J, &'static str> {
    let x = model_ctx(env, c, o)?;
    Compactor { env, compact_arrays: o.arrays, ordered: c.ordered }.doc(x, expanded)
}

pub fn parse(j: &J) -> Option<(Case, CompactOpts)> {
    Some((Case::parse(j)?, CompactOpts::parse(j)?))
}

fn check(j: &J, tags: &mut Tags) -> Outcome {
    let (case, o) = match parse(j) {
        Some(c) => c,
        None => return Outcome::pass(false),
    };
    let expanded = match imp::expand(&Case { ordered: false, ..case.clone() }) {
        Ok(e) => e,
        Err(_) => return Outcome::pass(false),
    };
    let env = p01::env(&case);
    let m = model_compact(&env, &expanded, &case, &o);
    let i = imp::compact(&case, &o);
    for t in env.cov.borrow().iter() {
        tags.tag(t);
    }
    if env.skipped().is_some() {
        return Outcome::pass(false);
    }
    let mut out = compare(tags, &o, &expanded, &m, &i);
    if out.fail.is_some() {
        if p01::order_matters(|| p01::env(&case), |e| model_compact(e, &expanded, &case, &o).map_err(str::to_string)) {
            tags.tag("unspec:context-order");
            out = Outcome::pass(false);
        }
    }
    out
}

fn compare(
    tags: &mut Tags,
    o: &CompactOpts,
    expanded: &J,
    m: &Result<J, &'static str>,
    i: &Result<J, String>,
) -> Outcome {
    match (m.clone(), i.clone()) {
        (Err(a), Err(b)) => {
            tags.tag("both-error");
            if a != b {
                tags.tag("other-code");
            }
            Outcome::pass(false)
        }
        (Ok(a), Err(b)) => Outcome::fail(format!("error: impl={b}"), format!("model: {a}\nexpanded: {expanded}")),
        (Err(a), Ok(b)) => Outcome::fail(format!("noerror: model={a}"), format!("impl: {b}\nexpanded: {expanded}")),
        (Ok(a), Ok(mut b)) => {
            tags.tag("both-ok");
            let ctx = b.remove("@context");
            let empty = o.context.is_null() || (o.context.len() == 0 && !o.context.is_scalar());
            if a.len() > 0 && !empty && ctx.is_none() {
                return Outcome::fail("no-context", format!("impl: {b}"));
            }
            if let Some(x) = &ctx {
                if version(&x.sorted_keys()) != version(&o.context.sorted_keys()) {
                    return Outcome::fail("context", format!("impl: {x}"));
                }
            }
            let (ca, cb) = (a.sorted_keys(), b.sorted_keys());
            if ca == cb {
                Outcome::pass(a.len() > 0)
            } else {
                Outcome::fail(
                    "diff",
                    format!("expanded: {expanded}\nmodel: {ca}\nimpl:  {cb}\n{}", diff(&ca, &cb)),
                )
            }
        }
    }
}

/// Any form of the number 1.1 given as `@version` is as good as another.
fn version(c: &J) -> J {
    match c {
        J::Obj(e) => J::Obj(
            e.iter()
                .map(|(k, x)| match x {
                    J::Num(n) if k == "@version" && n.parse() == Ok(1.1) => (k.clone(), J::Num("1.1".into())),
                    x => (k.clone(), version(x)),
                })
                .collect(),
        ),
        J::Arr(a) => J::Arr(a.iter().map(version).collect()),
        o => o.clone(),
    }
}
