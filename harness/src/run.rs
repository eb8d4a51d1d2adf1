//! The commands behind the checks: search in a child process, report, replay.
use crate::engine::{self, Fail, Prop};
use crate::j::{obj, s, J};
use crate::props;
use crate::src::hash_str;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn num(n: u64) -> J {
    J::Num(n.to_string())
}

/// Search, in a child process: `work` writes what it found in `out`.
pub fn work(id: &str, seed: &str, cases: &str, slots: &str, out: &str) -> i32 {
    let p = props::find(id).expect("unknown property");
    unsafe {
        let l = libc::rlimit { rlim_cur: 26 << 30, rlim_max: 26 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
    let r = engine::run_many(p, seed.parse().unwrap(), cases.parse().unwrap(), Some(slots), 200);
    let j = obj(vec![
        ("evaluations", num(r.evaluations)),
        ("nontrivial", num(r.nontrivial)),
        ("distinct", num(r.distinct.len() as u64)),
        ("tags", J::Obj(r.tags.iter().map(|(k, v)| (k.to_string(), num(*v))).collect())),
        ("samples", J::Arr(r.samples.values().take(4).map(|t| J::parse(t).unwrap_or(J::Null)).collect())),
        ("broken", J::Arr(r.broken.iter().map(|b| s(b)).collect())),
        (
            "fails",
            J::Arr(
                r.fails
                    .iter()
                    .map(|(k, (n, i))| obj(vec![("sig", s(k)), ("count", num(*n)), ("first", num(*i))]))
                    .collect(),
            ),
        ),
    ]);
    std::fs::write(out, j.to_text()).unwrap();
    0
}

/// Decide one case: exit 0 (holds) or 1 (fails).
pub fn one(id: &str, file: &str) -> i32 {
    engine::install_hook();
    let p = props::find(id).expect("unknown property");
    let case = match std::fs::read_to_string(file).ok().and_then(|t| J::parse(&t)) {
        Some(c) => c,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let case = case.get("case").cloned().unwrap_or(case);
    // a case that does not terminate
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
        if ts.tv_sec > engine::HANG_CPU {
            unsafe { libc::_exit(77) };
        }
    });
    match engine::check_one(p, case) {
        None => {
            println!("holds");
            0
        }
        Some(f) => {
            println!("sig: {}\n{}", f.sig, f.detail);
            1
        }
    }
}

enum Single {
    Holds,
    Fails(Fail),
    Hang,
    Error(String),
}

/// Decide one case in a process of its own.
fn single(id: &str, file: &Path) -> Single {
    let exe = std::env::current_exe().unwrap();
    let o = match Command::new(exe).args(["one", id]).arg(file).stdin(Stdio::null()).output() {
        Ok(o) => o,
        Err(e) => return Single::Error(e.to_string()),
    };
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    match o.status.code() {
        Some(0) => Single::Holds,
        Some(1) if out.starts_with("sig: ") => {
            let (a, b) = out.split_once('\n').unwrap_or((&out, ""));
            Single::Fails(Fail { sig: a[5..].to_string(), detail: b.to_string() })
        }
        Some(77) => Single::Hang,
        Some(c) => Single::Error(format!("exit {c}: {}", String::from_utf8_lossy(&o.stderr))),
        None => {
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            if err.contains("memory allocation of") {
                Single::Error(err)
            } else if err.contains("overflowed its stack") {
                Single::Fails(Fail { sig: "crash:stack-overflow".into(), detail: "stack overflow".into() })
            } else {
                use std::os::unix::process::ExitStatusExt;
                Single::Fails(Fail {
                    sig: format!("crash:signal-{}", o.status.signal().unwrap_or(0)),
                    detail: "the process was killed by a signal".into(),
                })
            }
        }
    }
}

pub fn replay(id: &str, file: &str) -> i32 {
    let r = match single(id, Path::new(file)) {
        Single::Holds => {
            println!("holds");
            return 0;
        }
        Single::Fails(f) => format!("fails: {}\n{}", f.sig, f.detail),
        Single::Hang => "fails: does not terminate".to_string(),
        Single::Error(e) => {
            println!("error: {e}");
            return 2;
        }
    };
    println!("{r}");
    println!("VIOLATION property={id} replay={file}");
    1
}

struct Ctx {
    id: &'static str,
    root: PathBuf,
    violations: Vec<PathBuf>,
}

impl Ctx {
    fn write_case(&self, dir: &str, name: &str, j: &J) -> PathBuf {
        let d = self.root.join(dir);
        let _ = std::fs::create_dir_all(&d);
        let f = d.join(name);
        std::fs::write(&f, j.to_text()).unwrap();
        f
    }
    fn violation(&mut self, case: &J, f: &Fail) {
        let j = obj(vec![
            ("property", s(self.id)),
            ("sig", s(&f.sig)),
            ("detail", s(&f.detail)),
            ("case", case.clone()),
        ]);
        let name = format!("{}-{:016x}.json", self.id, hash_str(&case.to_text()));
        let p = self.write_case("replays", &name, &j);
        println!("failure: {}\ncase: {}\n{}", f.sig, case, f.detail);
        println!("VIOLATION property={} replay={}", self.id, p.display());
        self.violations.push(p);
    }
}

fn known(root: &Path, id: &str) -> Vec<J> {
    let t = std::fs::read_to_string(root.join("known_findings.jsonl")).unwrap_or_default();
    t.lines()
        .filter(|l| !l.trim().is_empty())
        .filter_map(|l| J::parse(l))
        .filter(|j| j.get("property") == Some(&s(id)))
        .collect()
}

pub fn run(id: &str, root: &str) -> i32 {
    engine::install_hook();
    let p: &'static Prop = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let t0 = std::time::Instant::now();
    let root = PathBuf::from(root);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let cases = if thorough { p.thorough } else { p.quick };
    let work = root.join("work").join(format!("{id}-{}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&work) {
        eprintln!("cannot create {}: {e}", work.display());
        return 2;
    }
    let r = run_in(p, &root, &work, seed, thorough, cases, t0);
    let _ = std::fs::remove_dir_all(&work);
    r
}

fn run_in(
    p: &'static Prop,
    root: &Path,
    work: &Path,
    seed: u64,
    thorough: bool,
    cases: u64,
    t0: std::time::Instant,
) -> i32 {
    let id = p.id;
    let mut cx = Ctx { id, root: root.to_path_buf(), violations: vec![] };
    let mut error = None;

    // 1. saved cases: findings and repaired defects
    let mut saved = 0u64;
    let mut listed = vec![];
    for k in known(root, id) {
        let case = match k.get("case") {
            Some(c) => c.clone(),
            None => continue,
        };
        saved += 1;
        let f = cx.write_case(work.strip_prefix(root).unwrap().to_str().unwrap(), "saved.json", &case);
        let what = k.get("what").and_then(|x| x.as_str()).unwrap_or("").to_string();
        let finding = k.get("kind") == Some(&s("finding"));
        match single(id, &f) {
            Single::Holds => (),
            Single::Fails(x) => {
                if finding && k.get("sig").map(|g| *g == s(&x.sig)).unwrap_or(false) {
                    println!("KNOWN-FINDING: property={id} {what}");
                    listed.push(case);
                } else {
                    cx.violation(&case, &x);
                }
            }
            Single::Hang => error = Some(format!("saved case does not terminate: {case}")),
            Single::Error(e) => error = Some(format!("saved case: {e}")),
        }
    }

    // 2. search
    let (slots, out) = (work.join("slots"), work.join("out.json"));
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(&exe)
        .args(["work", id, &seed.to_string(), &cases.to_string()])
        .arg(&slots)
        .arg(&out)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("cannot start the worker");
    let mut err = child.stderr.take().unwrap();
    let tail = std::thread::spawn(move || {
        let mut t: Vec<u8> = vec![];
        let mut buf = [0u8; 65536];
        while let Ok(n) = err.read(&mut buf) {
            if n == 0 {
                break;
            }
            t.extend_from_slice(&buf[..n]);
            if t.len() > 200_000 {
                let k = t.len() - 20_000;
                t.drain(..k);
            }
        }
        String::from_utf8_lossy(&t).to_string()
    });
    let mut stdout = String::new();
    let _ = child.stdout.take().unwrap().read_to_string(&mut stdout);
    let status = child.wait().unwrap();
    let stderr = tail.join().unwrap_or_default();

    let report = std::fs::read_to_string(&out).ok().and_then(|t| J::parse(&t));
    match (&report, status.code()) {
        (Some(r), Some(0)) => {
            for b in r.get("broken").map(|b| b.items().to_vec()).unwrap_or_default() {
                error = Some(b.as_str().unwrap_or("").to_string());
            }
            for f in r.get("fails").map(|b| b.items().to_vec()).unwrap_or_default().iter().take(4) {
                let sig = f.get("sig").and_then(|x| x.as_str()).unwrap_or("").to_string();
                let first: u64 = match f.get("first") {
                    Some(J::Num(n)) => n.parse().unwrap_or(0),
                    _ => 0,
                };
                let case = match engine::generate(p, seed, first) {
                    Ok(c) => c,
                    Err(e) => {
                        error = Some(e);
                        continue;
                    }
                };
                let (small, fail) = engine::shrink(p, case.clone(), sig.clone(), 4000);
                match fail {
                    Some(f) => {
                        if !listed.contains(&small) {
                            cx.violation(&small, &f)
                        }
                    }
                    // found during the search, but not any more: something depends on more
                    // than the input
                    None => cx.violation(
                        &case,
                        &Fail { sig, detail: "fails in the search, not when shrinking (nondeterminism)".into() },
                    ),
                }
            }
        }
        _ => {
            // the worker died: find the case
            let mut found = false;
            let ids: Vec<u64> = std::fs::read(&slots)
                .unwrap_or_default()
                .chunks_exact(8)
                .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                .collect();
            if stderr.contains("memory allocation of") {
                error = Some("the worker ran out of memory".into());
            } else {
                for i in ids {
                    let case = match engine::generate(p, seed, i) {
                        Ok(c) => c,
                        Err(_) => continue,
                    };
                    let f = cx.write_case(work.strip_prefix(root).unwrap().to_str().unwrap(), "crash.json", &case);
                    match single(id, &f) {
                        Single::Fails(x) if x.sig.starts_with("crash:") => {
                            let small = shrink_external(&cx, work, &case, &x.sig);
                            cx.violation(&small, &x);
                            found = true;
                            break;
                        }
                        Single::Hang => {
                            cx.violation(
                                &case,
                                &Fail { sig: "hang".into(), detail: "does not terminate".into() },
                            );
                            found = true;
                            break;
                        }
                        _ => (),
                    }
                }
                if !found {
                    let tail: String = stderr.chars().rev().take(2000).collect::<String>().chars().rev().collect();
                    error = Some(format!("the worker died ({status}) {stdout}\n{tail}"));
                }
            }
        }
    }

    // 3. evidence
    let n = |k: &str| match report.as_ref().and_then(|r| r.get(k)) {
        Some(J::Num(n)) => n.parse::<u64>().unwrap_or(0),
        _ => 0,
    };
    let g = |k: &str| report.as_ref().and_then(|r| r.get(k)).cloned().unwrap_or(J::Arr(vec![]));
    let evidence = obj(vec![
        ("property", s(id)),
        ("tier", s(if thorough { "thorough" } else { "quick" })),
        ("seed", num(seed)),
        ("level", s("exploration")),
        (
            "coverage",
            obj(vec![
                ("evaluations", num(n("evaluations"))),
                ("nontrivial", num(n("nontrivial"))),
                ("distinct_nontrivial", num(n("distinct"))),
                ("rule", s(p.rule)),
                ("samples", g("samples")),
                ("saved_cases", num(saved)),
                ("classes", g("tags")),
            ]),
        ),
        ("assumptions", J::Arr(p.assumptions.iter().map(|a| s(a)).collect())),
        ("wall_s", J::Num(format!("{:.2}", t0.elapsed().as_secs_f64()))),
        ("violations", num(cx.violations.len() as u64)),
    ]);
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if let Err(e) = std::fs::write(ev.join(format!("{id}.json")), evidence.to_text() + "\n") {
        error = Some(format!("cannot write evidence: {e}"));
    }
    println!(
        "{id}: {} cases, {} distinct non-trivial, {} saved, {:.1} s",
        n("evaluations"),
        n("distinct"),
        saved,
        t0.elapsed().as_secs_f64()
    );
    if !cx.violations.is_empty() {
        return 1;
    }
    if let Some(e) = error {
        eprintln!("error: {e}");
        println!("error: {e}");
        return 2;
    }
    0
}

/// Shrink a case that kills the process.
fn shrink_external(cx: &Ctx, work: &Path, case: &J, sig: &str) -> J {
    let mut best = case.clone();
    let mut left = 150;
    'outer: loop {
        for c in engine::simplifications(&best) {
            if left == 0 {
                break 'outer;
            }
            left -= 1;
            let f = cx.write_case(work.strip_prefix(&cx.root).unwrap().to_str().unwrap(), "shrink.json", &c);
            if let Single::Fails(x) = single(cx.id, &f) {
                if x.sig == sig {
                    best = c;
                    continue 'outer;
                }
            }
        }
        break;
    }
    best
}
