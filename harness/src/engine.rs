//! A small choice-sequence property-based testing engine.
//!
//! Every random decision of a case is drawn from a `Src`, which records the choices made.  A failing
//! case is shrunk by editing its choice sequence (deleting spans, zeroing and lowering values) and
//! replaying it, so shrinking works uniformly for every generator.  Choice 0 is always "simplest".

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Source of choices for a test case.
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pub choices: Vec<u64>,
}

fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { state: seed, replay: None, choices: vec![] }
    }

    pub fn replaying(choices: Vec<u64>) -> Self {
        Src { state: 0, replay: Some(choices), choices: vec![] }
    }

    /// Draws a value in `[0, n)`.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            None => {
                let r = splitmix(&mut self.state);
                ((u128::from(r) * u128::from(n)) >> 64) as u64
            }
            Some(c) => c.get(self.choices.len()).copied().unwrap_or(0).min(n - 1),
        };
        self.choices.push(v);
        v
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Draws a value in `[lo, hi]`, with `lo` being the simplest.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }

    /// True with probability `num/den`; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // The top of the range is "true" so that shrinking goes to false.
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.idx(items.len())]
    }

    /// Picks an index according to weights; index 0 should be the simplest.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| u64::from(*w)).sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < u64::from(*w) {
                return i;
            }
            v -= u64::from(*w);
        }
        unreachable!()
    }

    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }
}

/// Information collected about one case.
#[derive(Default)]
pub struct Case {
    /// Print the case as soon as it is known.
    pub verbose: bool,
    /// Human-readable rendering of the generated case.
    pub text: String,
    /// Whether the case is non-trivial according to the property's rule.
    pub nontrivial: bool,
    /// Classification labels.
    pub labels: Vec<&'static str>,
    /// Set when the generator produced something outside of the domain.
    pub discarded: bool,
    /// Number of evaluations performed by the case; if zero, counts as one.
    pub evals: u64,
}

impl Case {
    /// Sets the printed form of the case.
    pub fn set_text(&mut self, t: impl Into<String>) {
        self.text = t.into();
        if self.verbose {
            println!("{}\n---", self.text);
        }
    }

    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

pub type CaseResult = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Case) -> CaseResult,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_else(|| "?".to_owned());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Runs `f`, converting panics to errors.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "unknown panic".to_owned())
    })
}

/// Runs one case from the given source.
pub fn run_case(prop: &Prop, src: &mut Src, case: &mut Case) -> CaseResult {
    match guarded(|| (prop.run)(src, case)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p)),
    }
}

/// Outcome of running a replayed choice sequence.
fn try_choices(prop: &Prop, choices: &[u64]) -> Option<(Vec<u64>, Case, String)> {
    let mut src = Src::replaying(choices.to_vec());
    let mut case = Case::default();
    match run_case(prop, &mut src, &mut case) {
        Ok(()) => None,
        Err(e) if !case.discarded => Some((src.choices, case, e)),
        Err(_) => None,
    }
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// Shrinks a failing choice sequence.
fn shrink(prop: &Prop, start: Vec<u64>, case: Case, msg: String) -> (Vec<u64>, Case, String) {
    let deadline = Instant::now() + Duration::from_secs(90);
    let mut best = (start, case, msg);
    let mut budget = 20000i64;
    let mut improved = true;
    while improved && budget > 0 {
        improved = false;
        // Delete spans.
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.0.len();
            while i > 0 && budget > 0 && Instant::now() < deadline {
                i = i.saturating_sub(if size > 4 { size / 2 } else { 1 });
                if i + size > best.0.len() {
                    if i == 0 {
                        break;
                    }
                    continue;
                }
                let mut c = best.0.clone();
                c.drain(i..i + size);
                budget -= 1;
                if let Some(r) = try_choices(prop, &c) {
                    if smaller(&r.0, &best.0) {
                        best = r;
                        improved = true;
                    }
                }
            }
        }
        // Zero spans.
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.0.len() && budget > 0 && Instant::now() < deadline {
                if best.0[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.0.clone();
                    c[i..i + size].fill(0);
                    budget -= 1;
                    if let Some(r) = try_choices(prop, &c) {
                        if smaller(&r.0, &best.0) {
                            best = r;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
        }
        // Lower individual values.
        let mut i = 0;
        while i < best.0.len() && budget > 0 && Instant::now() < deadline {
            let mut lo = 0;
            let mut hi = best.0[i];
            while lo < hi && budget > 0 {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.0.clone();
                c[i] = mid;
                budget -= 1;
                match try_choices(prop, &c) {
                    Some(r) if smaller(&r.0, &best.0) => {
                        best = r;
                        improved = true;
                        if i >= best.0.len() {
                            break;
                        }
                        hi = best.0[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if Instant::now() >= deadline {
            break;
        }
    }
    best
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Config {
    pub seed: u64,
    pub tier: String,
    pub verif: std::path::PathBuf,
    /// Overrides the number of cases.
    pub cases: Option<u64>,
}

struct Shared {
    fail: Option<(u64, Vec<u64>, Case, String)>,
    evals: u64,
    discarded: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    biggest: usize,
}

/// Time after which a single case is considered to be stuck.
fn case_timeout() -> u64 {
    std::env::var("VERIF_CASE_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(240)
}

/// Seed of the case `i` of a run.
pub fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
    let base = fnv(id) ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    let mut st = base.wrapping_add(i.wrapping_mul(0xD1342543DE82EF95));
    splitmix(&mut st)
}

/// Runs a single case of a check, showing what it is.
pub fn show_case(prop: &Prop, seed: u64, i: u64) {
    let mut src = Src::random(case_seed(prop.id, seed, i));
    let mut case = Case { verbose: true, ..Case::default() };
    let r = run_case(prop, &mut src, &mut case);
    println!("{}\n--- {:?} {:?} nontrivial={} discarded={}", case.text, r, case.labels, case.nontrivial, case.discarded);
}

/// What is being checked, for reports from outside of the threads that run cases.
struct Context {
    id: &'static str,
    rule: &'static str,
    seed: u64,
    tier: String,
    verif: std::path::PathBuf,
    /// Replay file of a failure that is being shrunk.
    shrinking: Mutex<Option<std::path::PathBuf>>,
}

static CONTEXT: std::sync::OnceLock<Context> = std::sync::OnceLock::new();

thread_local! {
    /// The case that the thread runs.
    static AT: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}

unsafe extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
}

/// Reports that `case` does not end, exhausts memory or aborts the process.
fn report_fatal(case: Option<u64>, what: &str) {
    let Some(cx) = CONTEXT.get() else {
        println!("{}", what);
        return;
    };
    let dir = cx.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let pending = cx.shrinking.try_lock().ok().and_then(|p| p.clone());
    let path = pending.unwrap_or_else(|| {
        let case = case.unwrap_or(0);
        let path = dir.join(format!("{}-{}-{}.json", cx.id, cx.seed, case));
        let body = format!(
            "{{\"property\": {}, \"seed\": {}, \"case\": {}, \"message\": {}}}\n",
            json_str(cx.id),
            cx.seed,
            case,
            json_str(what)
        );
        let _ = std::fs::write(&path, body);
        path
    });
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": 0, \"rule\": {}, \"samples\": [{}]}}, \"assumptions\": [], \"wall_s\": 0, \"violations\": 1}}\n",
        json_str(cx.id),
        json_str(&cx.tier),
        cx.seed,
        case.unwrap_or(0) + 1,
        json_str(cx.rule),
        json_str(what)
    );
    let _ = std::fs::create_dir_all(cx.verif.join("evidence"));
    let _ = std::fs::write(cx.verif.join("evidence").join(format!("{}.json", cx.id)), ev);
    println!("--- {}: case {:?} {}", cx.id, case, what);
    println!("VIOLATION property={} replay={}", cx.id, path.display());
}

extern "C" fn on_abort(_: i32) {
    report_fatal(AT.with(|a| a.get()), "aborted the process (stack overflow?)");
    unsafe { _exit(1) }
}

/// Memory in use by the process, in megabytes.
fn memory_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0) * 4096 / (1 << 20)
}

fn start_watchdog(
    beats: std::sync::Arc<Vec<AtomicU64>>,
    at_case: std::sync::Arc<Vec<AtomicU64>>,
    start: Instant,
) {
    unsafe { signal(6, on_abort as extern "C" fn(i32) as usize) };
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = start.elapsed().as_secs();
            let oldest = beats
                .iter()
                .enumerate()
                .map(|(i, b)| (b.load(Ordering::Relaxed), i))
                .filter(|(v, _)| *v != 0)
                .min();
            let Some((v, i)) = oldest else {
                continue;
            };
            let case = at_case[i].load(Ordering::Relaxed);
            if now > v && now - v > case_timeout() {
                report_fatal(Some(case), "does not end");
                unsafe { _exit(1) }
            }
            if memory_mb() > 14000 {
                report_fatal(Some(case), "exhausts memory");
                unsafe { _exit(1) }
            }
        }
    });
}

/// Runs the property and reports. Returns the process exit code.
pub fn check(prop: &Prop, cfg: &Config, regressions: &dyn Fn() -> Vec<Regression>) -> i32 {
    let start = Instant::now();
    let total =
        cfg.cases.unwrap_or(if cfg.tier == "thorough" { prop.thorough } else { prop.quick });
    let nworkers = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let stopped = AtomicBool::new(false);
    let beats: std::sync::Arc<Vec<AtomicU64>> =
        std::sync::Arc::new((0..nworkers + 1).map(|_| AtomicU64::new(0)).collect());
    let at_case: std::sync::Arc<Vec<AtomicU64>> =
        std::sync::Arc::new((0..nworkers + 1).map(|_| AtomicU64::new(0)).collect());
    let _ = CONTEXT.set(Context {
        id: prop.id,
        rule: prop.rule,
        seed: cfg.seed,
        tier: cfg.tier.clone(),
        verif: cfg.verif.clone(),
        shrinking: Mutex::new(None),
    });
    start_watchdog(beats.clone(), at_case.clone(), start);
    let shared = Mutex::new(Shared {
        fail: None,
        evals: 0,
        discarded: 0,
        nontrivial: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        biggest: 0,
    });
    const CHUNK: u64 = 16;
    std::thread::scope(|s| {
        for w in 0..nworkers {
            let (next, stop_at, stopped, shared, beats, at_case) =
                (&next, &stop_at, &stopped, &shared, &beats, &at_case);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let first = next.fetch_add(CHUNK, Ordering::Relaxed);
                        if first >= total || first > stop_at.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in first..(first + CHUNK).min(total) {
                            if i > stop_at.load(Ordering::Relaxed) {
                                break;
                            }
                            beats[w].store(start.elapsed().as_secs() + 1, Ordering::Relaxed);
                            at_case[w].store(i, Ordering::Relaxed);
                            AT.with(|a| a.set(Some(i)));
                            let seed = case_seed(prop.id, cfg.seed, i);
                            let mut src = Src::random(seed);
                            let mut case = Case::default();
                            let r = run_case(prop, &mut src, &mut case);
                            let mut sh = shared.lock().unwrap();
                            sh.evals += case.evals.max(1);
                            if case.discarded {
                                sh.discarded += 1;
                                continue;
                            }
                            for l in &case.labels {
                                *sh.labels.entry(l).or_insert(0) += 1;
                            }
                            if case.nontrivial {
                                let h = fnv(&case.text);
                                sh.nontrivial.insert(h);
                                if sh.samples.len() < 200 || i < sh.samples[199].0 {
                                    let t = case.text.clone();
                                    let at = sh.samples.partition_point(|s| s.0 < i);
                                    sh.samples.insert(at, (i, t));
                                    sh.samples.truncate(200);
                                }
                            }
                            sh.biggest = sh.biggest.max(case.text.len());
                            if let Err(msg) = r {
                                if sh.fail.as_ref().is_none_or(|f| i < f.0) {
                                    sh.fail = Some((i, src.choices, case, msg));
                                }
                                stop_at.fetch_min(i, Ordering::Relaxed);
                                stopped.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                        beats[w].store(0, Ordering::Relaxed);
                    }
                    beats[w].store(0, Ordering::Relaxed);
                })
                .expect("thread");
        }
    });
    let sh = shared.into_inner().unwrap();
    let mut code = 0;
    let mut violations = 0;

    let replay_dir = cfg.verif.join("replays");
    if let Some((i, choices, case, msg)) = sh.fail {
        violations += 1;
        beats[nworkers].store(start.elapsed().as_secs() + 1, Ordering::Relaxed);
        at_case[nworkers].store(i, Ordering::Relaxed);
        let _ = std::fs::create_dir_all(&replay_dir);
        let path = replay_dir.join(format!("{}-{}-{}.json", prop.id, cfg.seed, i));
        let body = |choices: &[u64], case: &Case, msg: &str| {
            format!(
                "{{\"property\": {}, \"seed\": {}, \"case\": {}, \"choices\": [{}], \"message\": {}, \"rendering\": {}}}\n",
                json_str(prop.id),
                cfg.seed,
                i,
                choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
                json_str(msg),
                json_str(&case.text)
            )
        };
        let _ = std::fs::write(&path, body(&choices, &case, &msg));
        println!("--- case {} of {} failed: {}", i, prop.id, msg);
        *CONTEXT.get().unwrap().shrinking.lock().unwrap() = Some(path.clone());
        // Shrink on a thread with a large stack, as the cases expect one.
        let shrunk = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || shrink(prop, choices, case, msg))
                .expect("thread")
                .join()
                .expect("join")
        });
        let (choices, case, msg) = shrunk;
        beats[nworkers].store(0, Ordering::Relaxed);
        *CONTEXT.get().unwrap().shrinking.lock().unwrap() = None;
        let body = body(&choices, &case, &msg);
        let _ = std::fs::write(&path, body);
        println!("--- minimal failing case for {} (case {}):", prop.id, i);
        println!("{}", case.text);
        println!("--- {}", msg);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        code = 1;
    }

    // Regressions: fixed reproductions of past findings and listed known findings.
    let mut nreg = 0;
    for r in regressions() {
        nreg += 1;
        beats[nworkers].store(start.elapsed().as_secs() + 1, Ordering::Relaxed);
        let msg = match guarded(|| (r.run)()) {
            Ok(Ok(())) => continue,
            Ok(Err(e)) => e,
            Err(p) => format!("panicked: {}", p),
        };
        if let Some((sig, what)) = crate::regress::listed(&cfg.verif, prop.id, r.name) {
            if msg.contains(&sig) {
                println!("KNOWN-FINDING: property={} {}: {}", prop.id, r.name, what);
                continue;
            }
        }
        violations += 1;
        let _ = std::fs::create_dir_all(&replay_dir);
        let path = replay_dir.join(format!("{}-regression-{}.json", prop.id, r.name));
        let body = format!(
            "{{\"property\": {}, \"regression\": {}, \"message\": {}}}\n",
            json_str(prop.id),
            json_str(r.name),
            json_str(&msg)
        );
        let _ = std::fs::write(&path, body);
        println!("--- regression {} failed: {}", r.name, msg);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        code = 1;
    }

    beats[nworkers].store(0, Ordering::Relaxed);
    let nsamples = 5.min(sh.samples.len());
    let samples: Vec<String> = sh.samples[..nsamples]
        .iter()
        .map(|(i, t)| {
            let mut t = t.clone();
            if t.len() > 3000 {
                let mut n = 3000;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                t.push_str("...");
            }
            format!("{{\"case\": {}, \"text\": {}}}", i, json_str(&t))
        })
        .collect();
    let labels: Vec<String> =
        sh.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"discarded\": {},\n  \"largest_case_bytes\": {},\n  \"regressions_replayed\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(&cfg.tier),
        cfg.seed,
        sh.evals,
        sh.nontrivial.len(),
        sh.discarded,
        sh.biggest,
        nreg,
        json_str(prop.rule),
        labels.join(", "),
        samples.join(",\n   "),
        prop.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "),
        start.elapsed().as_secs_f64(),
        violations
    );
    let evdir = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(evdir.join(format!("{}.json", prop.id)), ev) {
        eprintln!("harness error: cannot write evidence: {}", e);
        return 2;
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} discarded, {} violations, {:.1}s",
        prop.id,
        sh.evals,
        sh.nontrivial.len(),
        sh.discarded,
        violations,
        start.elapsed().as_secs_f64()
    );
    for (k, v) in &sh.labels {
        println!("  {}: {}", k, v);
    }
    code
}

/// A fixed reproduction, replayed on every run without going through the generators.
pub struct Regression {
    pub name: &'static str,
    pub run: Box<dyn Fn() -> CaseResult>,
}

/// Replays a saved failure. Returns the process exit code.
pub fn replay(prop: &Prop, mut src: Src, path: &str) -> i32 {
    let mut case = Case::default();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || run_case(prop, &mut src, &mut case))
            .expect("thread")
            .join()
            .expect("join")
    });
    println!("{}", case.text);
    match r {
        Ok(()) => {
            println!("{}: replay passes", prop.id);
            0
        }
        Err(e) => {
            println!("--- {}", e);
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
    }
}
