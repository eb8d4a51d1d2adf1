#![allow(dead_code)]
mod engine;
mod gen;
mod imp;
mod j;
mod model;
mod props;
mod run;
mod src;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["list"] => {
            for p in props::ALL {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        ["explore", id, rest @ ..] => explore(id, rest),
        ["run", id, root] => run::run(id, root),
        ["work", id, seed, cases, slots, out] => run::work(id, seed, cases, slots, out),
        ["one", id, file] => run::one(id, file),
        ["replay", id, file] => run::replay(id, file),
        ["gen", id, seed, i] => {
            let p = props::find(id).unwrap();
            println!("{}", engine::generate(p, seed.parse().unwrap(), i.parse().unwrap()).unwrap());
            0
        }
        _ => {
            eprintln!("usage: harness run|explore|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}

fn explore(id: &str, rest: &[&str]) -> i32 {
    let p = props::find(id).expect("unknown property");
    let n: u64 = rest.first().and_then(|x| x.parse().ok()).unwrap_or(p.quick);
    let seed: u64 = rest.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
    let t = std::time::Instant::now();
    let r = engine::run_many(p, seed, n, None, u64::MAX);
    println!(
        "evaluations {} nontrivial {} distinct {} in {:?}",
        r.evaluations,
        r.nontrivial,
        r.distinct.len(),
        t.elapsed()
    );
    for (k, v) in &r.tags {
        println!("  {k}: {v}");
    }
    for b in &r.broken {
        println!("BROKEN {b}");
    }
    let mut f: Vec<_> = r.fails.into_iter().collect();
    f.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (sig, (count, first)) in f.iter().take(14) {
        println!("=== {count} x {sig} (first {first})");
        let c = engine::generate(p, seed, *first).unwrap();
        let (c, f) = engine::shrink(p, c, sig.clone(), 6000);
        if let Some(f) = f {
            println!("{c}\n{}", f.detail);
        }
    }
    0
}
