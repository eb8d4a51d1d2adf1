//! Case runner: generation, classification, shrinking, replay, evidence.
use crate::j::J;
use crate::src::{hash_str, mix, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Debug, Clone)]
pub struct Fail {
    /// Signature: identifies the kind of failure (and the site for panics).
    pub sig: String,
    pub detail: String,
}

pub struct Outcome {
    pub fail: Option<Fail>,
    pub nontrivial: bool,
}

impl Outcome {
    pub fn pass(nontrivial: bool) -> Self {
        Outcome { fail: None, nontrivial }
    }
    pub fn fail(sig: impl Into<String>, detail: impl Into<String>) -> Self {
        Outcome { fail: Some(Fail { sig: sig.into(), detail: detail.into() }), nontrivial: true }
    }
}

/// Classification labels of a case.
#[derive(Default)]
pub struct Tags(pub Vec<&'static str>);
impl Tags {
    pub fn tag(&mut self, t: &'static str) {
        if !self.0.contains(&t) {
            self.0.push(t)
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// What the verdict relies on.
    pub assumptions: &'static [&'static str],
    /// Generate a case.
    pub gen: fn(&mut Src) -> J,
    /// Decide the property on a case.
    pub check: fn(&J, &mut Tags) -> Outcome,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum RunResult {
    Ok(Outcome),
    /// A bug of the harness itself.
    Broken(String),
}

/// Signature of a panic: file only, so that it does not depend on line numbers.
fn site(loc: &str) -> String {
    let f = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let parts: Vec<&str> = f.split('/').collect();
    let n = parts.len().saturating_sub(4);
    parts[n..].join("/")
}

/// Run `f`, turning a panic of the code under test into an error value.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

pub fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/")
}

pub fn run_case(p: &Prop, case: &J, tags: &mut Tags) -> RunResult {
    match guarded(|| (p.check)(case, tags)) {
        Ok(o) => RunResult::Ok(o),
        Err((loc, msg)) => {
            if is_harness(&loc) {
                RunResult::Broken(format!("harness panic at {loc}: {msg}\ncase: {case}"))
            } else {
                RunResult::Ok(Outcome::fail(format!("panic:{}", site(&loc)), format!("panic at {loc}: {msg}")))
            }
        }
    }
}

pub fn generate(p: &Prop, seed: u64, i: u64) -> Result<J, String> {
    let mut g = Src::random(case_seed(seed, p.id, i));
    guarded(|| (p.gen)(&mut g)).map_err(|(loc, msg)| format!("generator panic at {loc}: {msg} (case {i})"))
}

pub fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed, hash_str(id)), i)
}

const THREADS: usize = 8;
const STACK: usize = 512 << 20;
/// CPU seconds after which a single case is considered not to terminate.
pub const HANG_CPU: i64 = 60;

struct Slot {
    case: AtomicU64,
    started: AtomicU64, // cpu ms of the thread at start, +1
}

fn thread_cpu_ms(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub tags: BTreeMap<&'static str, u64>,
    pub samples: BTreeMap<u64, String>,
    /// sig -> (count, lowest index)
    pub fails: BTreeMap<String, (u64, u64)>,
    pub broken: Vec<String>,
}

pub fn run_many(p: &'static Prop, seed: u64, cases: u64, slotfile: Option<&str>, stop_after: u64) -> Report {
    install_hook();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let rep = Mutex::new(Report::default());
    let slots: Vec<Slot> =
        (0..THREADS).map(|_| Slot { case: AtomicU64::new(u64::MAX), started: AtomicU64::new(0) }).collect();
    let clocks: Mutex<HashMap<usize, libc::clockid_t>> = Mutex::new(HashMap::new());
    let file = slotfile.map(|f| std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(f).unwrap());
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..THREADS {
            let (next, stop, rep, slots, clocks, file) = (&next, &stop, &rep, &slots, &clocks, &file);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        let mut clock: libc::clockid_t = 0;
                        unsafe {
                            libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock);
                        }
                        clocks.lock().unwrap().insert(t, clock);
                        let mut local = Report::default();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= cases {
                                break;
                            }
                            slots[t].case.store(i, Ordering::Relaxed);
                            slots[t].started.store(thread_cpu_ms(clock) + 1, Ordering::Relaxed);
                            if let Some(f) = file {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_at(&i.to_le_bytes(), t as u64 * 8);
                            }
                            let case = match generate(p, seed, i) {
                                Ok(c) => c,
                                Err(m) => {
                                    local.broken.push(m);
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            };
                            let mut tags = Tags::default();
                            let r = run_case(p, &case, &mut tags);
                            slots[t].started.store(0, Ordering::Relaxed);
                            local.evaluations += 1;
                            for x in tags.0 {
                                *local.tags.entry(x).or_default() += 1;
                            }
                            match r {
                                RunResult::Broken(m) => {
                                    local.broken.push(format!("case {i}: {m}"));
                                    stop.store(true, Ordering::Relaxed);
                                }
                                RunResult::Ok(o) => {
                                    if o.nontrivial {
                                        local.nontrivial += 1;
                                        let text = case.to_text();
                                        let new = local.distinct.insert(hash_str(&text));
                                        if new && local.samples.len() < 4 && text.len() < 3000 {
                                            local.samples.insert(i, text);
                                        }
                                    }
                                    if let Some(f) = o.fail {
                                        let e = local.fails.entry(f.sig).or_insert((0, i));
                                        e.0 += 1;
                                        if i < e.1 {
                                            e.1 = i;
                                        }
                                        let n: u64 = local.fails.values().map(|x| x.0).sum();
                                        if n >= stop_after {
                                            stop.store(true, Ordering::Relaxed);
                                        }
                                    }
                                }
                            }
                        }
                        slots[t].case.store(u64::MAX, Ordering::Relaxed);
                        let mut r = rep.lock().unwrap();
                        r.evaluations += local.evaluations;
                        r.nontrivial += local.nontrivial;
                        r.distinct.extend(local.distinct);
                        for (k, v) in local.tags {
                            *r.tags.entry(k).or_default() += v;
                        }
                        r.samples.extend(local.samples);
                        r.broken.extend(local.broken);
                        for (k, (n, i)) in local.fails {
                            let e = r.fails.entry(k).or_insert((0, i));
                            e.0 += n;
                            e.1 = e.1.min(i);
                        }
                    })
                    .unwrap(),
            );
        }
        // watchdog
        let (slots, clocks, done_ref) = (&slots, &clocks, &done);
        sc.spawn(move || {
            while !done_ref.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                for (t, s) in slots.iter().enumerate() {
                    let st = s.started.load(Ordering::Relaxed);
                    let c = s.case.load(Ordering::Relaxed);
                    if st == 0 || c == u64::MAX {
                        continue;
                    }
                    let clock = clocks.lock().unwrap().get(&t).copied();
                    if let Some(clock) = clock {
                        let now = thread_cpu_ms(clock);
                        if now as i64 - st as i64 > HANG_CPU * 1000
                            && s.case.load(Ordering::Relaxed) == c
                            && s.started.load(Ordering::Relaxed) == st
                        {
                            println!("HANG {c}");
                            let _ = std::io::stdout().flush();
                            unsafe { libc::_exit(77) };
                        }
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    rep.into_inner().unwrap()
}

pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

pub fn check_one(p: &'static Prop, case: J) -> Option<Fail> {
    big_stack(move || match run_case(p, &case, &mut Tags::default()) {
        RunResult::Ok(o) => o.fail,
        RunResult::Broken(m) => panic!("{m}"),
    })
}

/// All the one-step simplifications of a value, most aggressive first.
pub fn simplifications(v: &J) -> Vec<J> {
    let mut out = vec![];
    match v {
        J::Arr(a) => {
            if a.len() > 3 {
                out.push(J::Arr(a[..a.len() / 2].to_vec()));
                out.push(J::Arr(a[a.len() / 2..].to_vec()));
            }
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                out.push(J::Arr(b));
            }
            if a.len() == 1 {
                out.push(a[0].clone());
            }
            for i in 0..a.len() {
                for x in simplifications(&a[i]) {
                    let mut b = a.clone();
                    b[i] = x;
                    out.push(J::Arr(b));
                }
            }
        }
        J::Obj(o) => {
            for i in 0..o.len() {
                let mut b = o.clone();
                b.remove(i);
                out.push(J::Obj(b));
            }
            for (_, x) in o {
                if x.is_obj() {
                    out.push(x.clone());
                }
            }
            for i in 0..o.len() {
                for x in simplifications(&o[i].1) {
                    let mut b = o.clone();
                    b[i].1 = x;
                    out.push(J::Obj(b));
                }
            }
        }
        _ => (),
    }
    out
}

/// Shrink a failing case, preserving the signature of the failure.
pub fn shrink(p: &'static Prop, start: J, sig: String, budget: usize) -> (J, Option<Fail>) {
    big_stack(move || {
        let test = |c: &J| match run_case(p, c, &mut Tags::default()) {
            RunResult::Ok(o) => o.fail.filter(|f| f.sig == sig),
            RunResult::Broken(_) => None,
        };
        let mut best = start;
        let mut fail = test(&best);
        if fail.is_none() {
            return (best, None);
        }
        let mut left = budget;
        'outer: loop {
            for c in simplifications(&best) {
                if left == 0 {
                    break 'outer;
                }
                left -= 1;
                if let Some(f) = test(&c) {
                    best = c;
                    fail = Some(f);
                    continue 'outer;
                }
            }
            break;
        }
        (best, fail)
    })
}
