//! Cases, counters, verdicts, worker processes and the supervisor.

use crate::rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Viol {
    pub what: String,
    pub detail: Vec<(String, String)>,
    /// Names a listed finding when this is exactly that finding.
    pub key: Option<String>,
}

pub type Res = Result<(), Viol>;

impl Viol {
    pub fn new<S: Into<String>>(what: S) -> Viol {
        Viol { what: what.into(), detail: vec![], key: None }
    }
    pub fn with<S: Into<String>>(mut self, k: &str, v: S) -> Viol {
        self.detail.push((k.to_string(), v.into()));
        self
    }
    pub fn key(mut self, k: &str) -> Viol {
        self.key = Some(k.to_string());
        self
    }
}

pub fn viol<T, S: Into<String>>(what: S) -> Result<T, Viol> { Err(Viol::new(what)) }

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::fw::Viol::new(format!($($t)*))); } };
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
    /// Rules evaluated and failed, per kind.
    pub kinds: [[u64; 14]; 2],
}

pub struct Cx {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub st: Stats,
    pub verbose: bool,
    /// Without large documents, for runs under slow instrumentation.
    pub small: bool,
    pub scratch: PathBuf,
}

impl Cx {
    /// Counts one observed execution.
    pub fn eval(&mut self, fp: u64, nontrivial: bool) {
        self.st.evaluations += 1;
        if nontrivial && self.st.distinct.len() < 400_000 { self.st.distinct.insert(fp); }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n == 0 { return; }
        if let Some(x) = self.st.counts.get_mut(k) { *x += n; return; }
        self.st.counts.insert(k.to_string(), n);
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.st.counts.entry(k.to_string()).or_insert(0);
        if *e < n { *e = n; }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.st.samples.len() < 3 && (self.verbose || self.idx % 37 == 11 || self.st.samples.is_empty()) {
            let s = f();
            self.st.samples.push(clip(&s, 900));
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n { return s.to_string(); }
    let mut o: String = s.chars().take(n).collect();
    o.push_str("...");
    o
}

pub struct Check {
    pub id: &'static str,
    /// Number of cases: quick, thorough.
    pub cases: (u64, u64),
    pub run: fn(&mut Cx) -> Res,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Counters that must not be zero, or the run observed nothing.
    pub need: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static CATCH: RefCell<u32> = RefCell::new(0);
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let catching = CATCH.with(|c| *c.borrow() > 0);
        if catching {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
                else { "panic".to_string() };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        } else {
            old(info);
        }
    }));
}

/// Runs library code; a panic is a result.
pub fn caught<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    CATCH.with(|c| *c.borrow_mut() += 1);
    INSIDE.fetch_add(1, Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    INSIDE.fetch_sub(1, Ordering::SeqCst);
    CATCH.with(|c| *c.borrow_mut() -= 1);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Runs library code that must not panic.
pub fn real<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, Viol> {
    caught(f).map_err(|m| Viol::new(format!("{} panicked: {}", what, m)))
}

#[repr(C)]
struct Timespec { sec: i64, nsec: i64 }
#[repr(C)]
struct Rlimit { cur: u64, max: u64 }
extern "C" {
    fn clock_gettime(id: i32, ts: *mut Timespec) -> i32;
    fn setrlimit(res: i32, lim: *const Rlimit) -> i32;
}

pub fn cpu_ms() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(2, &mut t); }
    t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000
}

pub fn thread_cpu_us() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t); }
    t.sec as u64 * 1_000_000 + t.nsec as u64 / 1000
}

fn limit(bytes: u64) {
    // Sanitizers reserve far more than they use.
    if std::env::var_os("MON_NO_LIMIT").is_some() { return; }
    let l = Rlimit { cur: bytes, max: bytes };
    unsafe {
        setrlimit(9, &l); // address space
        setrlimit(4, &Rlimit { cur: 0, max: 0 }); // no core files
    }
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static CUR_CPU: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicBool = AtomicBool::new(false);

/// Processor time one case may take. Cases take well below a second.
/// Processor time for one case, before it counts as one that does not end.
pub fn case_cpu_ms() -> u64 {
    std::env::var("MON_CASE_CPU_S").ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(40) * 1000
}
const EXIT_VIOL: i32 = 10;
const EXIT_HANG: i32 = 97;
const EXIT_SLOW: i32 = 96;
/// How many threads are in the library.
static INSIDE: AtomicU64 = AtomicU64::new(0);

pub fn verif_dir() -> PathBuf {
    if let Ok(d) = std::env::var("VERIF_DIR") { return PathBuf::from(d); }
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed ^ 0x1234) ^ hash_bytes(id.as_bytes()) ^ mix(idx.wrapping_mul(0x9e37)))
}

/// The keys of listed findings of a property.
pub fn findings(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let s = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    for line in s.lines() {
        if let Some(rest) = line.strip_prefix("finding: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let k = it.next().unwrap_or("");
            let d = it.next().unwrap_or("");
            if p == format!("property={}", id) {
                if let Some(k) = k.strip_prefix("key=") { v.push((k.to_string(), d.to_string())); }
            }
        }
    }
    v
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_one(check: &Check, cx: &mut Cx) -> Res {
    cx.rng = Rng::new(case_seed(cx.seed, check.id, cx.idx));
    (check.run)(cx)
}

fn render(check: &Check, idx: u64, seed: u64, thorough: bool, v: &Viol) -> String {
    let mut s = String::from("{\n");
    let _ = write!(s, " \"property\": {},\n \"case\": {},\n \"seed\": {},\n \"tier\": {},\n \"what\": {}",
        js(check.id), idx, seed, js(if thorough { "thorough" } else { "quick" }), js(&v.what));
    for (k, d) in &v.detail { let _ = write!(s, ",\n {}: {}", js(k), js(d)); }
    s.push_str("\n}\n");
    s
}

pub fn scratch_dir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("mon-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn on_big_stack<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join()
        .unwrap_or_else(|_| std::process::exit(98))
}

/// One case alone. Exit 0: held, 10: violated, anything else: died.
pub fn case_main(check: &'static Check, idx: u64, seed: u64, thorough: bool, out: Option<PathBuf>) -> i32 {
    limit(3 << 30);
    watchdog();
    on_big_stack(move || {
        let scratch = scratch_dir();
        let mut cx = Cx { rng: Rng::new(0), idx, seed, thorough, st: Stats::default(), verbose: true, small: small(), scratch: scratch.clone() };
        CUR_CPU.store(cpu_ms(), Ordering::SeqCst);
        CUR.store(idx, Ordering::SeqCst);
        let r = run_one(check, &mut cx);
        DONE.store(true, Ordering::SeqCst);
        let _ = std::fs::remove_dir_all(&scratch);
        match r {
            Ok(()) => {
                if out.is_none() { println!("case {} of {} held", idx, check.id); for s in &cx.st.samples { println!("{}", s); } }
                0
            }
            Err(v) => {
                let t = render(check, idx, seed, thorough, &v);
                match out { Some(p) => { let _ = std::fs::write(p, t); } None => print!("{}", t) }
                EXIT_VIOL
            }
        }
    })
}

fn small() -> bool { std::env::var_os("MON_SMALL").is_some() }

fn watchdog() {
    let limit = case_cpu_ms();
    std::thread::spawn(move || {
        // Processor time of the case, and how much of it was seen in the library.
        let (mut case, mut last, mut inside) = (u64::MAX, 0, 0);
        loop {
            std::thread::sleep(Duration::from_millis(300));
            if DONE.load(Ordering::SeqCst) { return; }
            let a = CUR.load(Ordering::SeqCst);
            if a == u64::MAX { continue; }
            let c = CUR_CPU.load(Ordering::SeqCst);
            let now = cpu_ms();
            if a != case { case = a; last = c; inside = 0; }
            if INSIDE.load(Ordering::SeqCst) > 0 { inside += now.saturating_sub(last); }
            last = now;
            if CUR.load(Ordering::SeqCst) != a { continue; }
            if inside > limit { std::process::exit(EXIT_HANG); }
            // The monitor itself takes long.
            if now.saturating_sub(c) > 2 * limit + 1000 { std::process::exit(EXIT_SLOW); }
        }
    });
}

pub fn worker_main(check: &'static Check, shard: u64, shards: u64, cases: u64, seed: u64, thorough: bool,
    out: PathBuf, deadline_ms: u64, first: u64) -> i32
{
    limit(3 << 30);
    watchdog();
    on_big_stack(move || {
        use std::os::unix::fs::FileExt;
        let start = Instant::now();
        let pf = std::fs::File::create(out.join(format!("p{}", shard))).unwrap();
        let scratch = out.join(format!("s{}", shard));
        std::fs::create_dir_all(&scratch).unwrap();
        let listed = findings(check.id);
        let mut cx = Cx { rng: Rng::new(0), idx: 0, seed, thorough, st: Stats::default(), verbose: false, small: small(), scratch };
        let mut idx = first;
        let mut ran = 0u64;
        let mut code = 0;
        while idx < cases {
            if start.elapsed().as_millis() as u64 > deadline_ms { cx.count("stopped_at_deadline", 1); break; }
            let _ = pf.write_at(&idx.to_le_bytes(), 0);
            CUR_CPU.store(cpu_ms(), Ordering::SeqCst);
            CUR.store(idx, Ordering::SeqCst);
            cx.idx = idx;
            let r = run_one(check, &mut cx);
            ran += 1;
            if let Err(v) = r {
                if let Some(k) = &v.key {
                    if let Some(l) = listed.iter().find(|l| l.0 == *k) {
                        cx.st.known.insert(k.clone(), l.1.clone());
                        idx += shards;
                        continue;
                    }
                }
                let t = render(check, idx, seed, thorough, &v);
                let _ = std::fs::write(out.join(format!("v{}", shard)), t);
                code = EXIT_VIOL;
                break;
            }
            idx += shards;
        }
        CUR.store(u64::MAX, Ordering::SeqCst);
        for i in 0..14 {
            let (a, b) = (cx.st.kinds[0][i], cx.st.kinds[1][i]);
            cx.count(&format!("rules run: {}", crate::ast::KINDS[i]), a);
            cx.count(&format!("rules failed: {}", crate::ast::KINDS[i]), b);
        }
        let mut s = String::new();
        let _ = writeln!(s, "evaluations {}", cx.st.evaluations);
        let _ = writeln!(s, "cases {}", ran);
        for (k, v) in &cx.st.counts { let _ = writeln!(s, "count {} {}", v, k); }
        for x in &cx.st.samples { let _ = writeln!(s, "sample {}", js(x)); }
        for (k, d) in &cx.st.known { let _ = writeln!(s, "known {} {}", k, d); }
        let mut b = Vec::with_capacity(cx.st.distinct.len() * 8);
        for h in &cx.st.distinct { b.extend_from_slice(&h.to_le_bytes()); }
        let _ = std::fs::write(out.join(format!("d{}", shard)), b);
        let _ = std::fs::write(out.join(format!("r{}", shard)), s);
        DONE.store(true, Ordering::SeqCst);
        code
    })
}

pub fn check_main(check: &'static Check) -> i32 {
    let start = Instant::now();
    let env = |k: &str| std::env::var(k).unwrap_or_default();
    let seed: u64 = env("VERIF_SEED").parse().unwrap_or(1);
    let thorough = env("VERIF_TIER") == "thorough";
    let mut cases = if thorough { check.cases.1 } else { check.cases.0 };
    if let Ok(n) = env("MON_CASES").parse() { cases = n; }
    if let Ok(n) = env("MON_PERCENT").parse::<u64>() { cases = cases * n / 100; }
    let deadline: u64 = env("MON_DEADLINE_S").parse().unwrap_or(if thorough { 600 } else { 150 });
    let shards: u64 = env("MON_SHARDS").parse().unwrap_or(8);
    let dir = verif_dir();
    let out = std::env::temp_dir().join(format!("mon-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&out).unwrap();
    let exe = std::env::current_exe().unwrap();
    let worker = |s: u64, first: u64, deadline: u64| {
        std::process::Command::new(&exe)
            .args(["worker", check.id, &s.to_string(), &shards.to_string(), &cases.to_string(),
                &seed.to_string(), if thorough { "thorough" } else { "quick" },
                out.to_str().unwrap(), &(deadline * 1000).to_string(), &first.to_string()])
            .env("MALLOC_ARENA_MAX", "8")
            .stdin(std::process::Stdio::null()).spawn().unwrap()
    };
    let at_case = |i: usize| std::fs::read(out.join(format!("p{}", i))).ok().filter(|b| b.len() == 8)
        .map(|b| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]));
    let mut left_out = 0;
    let mut kids: Vec<_> = (0..shards).map(|s| worker(s, s, deadline)).collect();
    let mut codes: Vec<Option<i32>> = vec![None; shards as usize];
    let hard = Duration::from_secs(deadline + 100);
    let mut stop_since: Option<Instant> = None;
    loop {
        let mut running = false;
        for (i, k) in kids.iter_mut().enumerate() {
            if codes[i].is_none() {
                match k.try_wait() {
                    Ok(Some(st)) => {
                        use std::os::unix::process::ExitStatusExt;
                        let c = st.code().unwrap_or_else(|| 1000 + st.signal().unwrap_or(0));
                        if let (EXIT_SLOW, Some(idx), true) = (c, at_case(i), left_out < 4) {
                            // The rest without this case.
                            left_out += 1;
                            eprintln!("case {} takes the monitor too long", idx);
                            *k = worker(i as u64, idx + shards, deadline.saturating_sub(start.elapsed().as_secs()));
                            running = true;
                            continue;
                        }
                        codes[i] = Some(c);
                        if c != 0 { stop_since.get_or_insert(Instant::now()); }
                    }
                    Ok(None) => running = true,
                    Err(_) => codes[i] = Some(-1),
                }
            }
        }
        if !running { break; }
        // One shard found something: no need to wait for the others.
        let enough = stop_since.map_or(false, |t| t.elapsed() > Duration::from_millis(300));
        if enough || start.elapsed() > hard {
            for (i, k) in kids.iter_mut().enumerate() {
                if codes[i].is_none() {
                    let _ = k.kill();
                    let _ = k.wait();
                    codes[i] = Some(if enough { 0 } else { -2 });
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    // Verdict.
    let mut violation: Option<String> = None;
    let mut errors: Vec<String> = vec![];
    let replays = dir.join("replays");
    let _ = std::fs::create_dir_all(&replays);
    for (i, c) in codes.iter().enumerate() {
        let c = c.unwrap_or(-1);
        if c == 0 || violation.is_some() { continue; }
        if c == EXIT_VIOL {
            violation = std::fs::read_to_string(out.join(format!("v{}", i))).ok();
            if violation.is_none() { errors.push(format!("shard {} lost its report", i)); }
            continue;
        }
        if c == -2 { errors.push(format!("shard {} did not stop", i)); continue; }
        // Died or hung: confirm with the case alone.
        let idx = match at_case(i) {
            Some(x) => x,
            None => { errors.push(format!("shard {} died ({}) before a case", i, c)); continue; }
        };
        let vf = out.join("confirm");
        let st = std::process::Command::new(&exe)
            .args(["case", check.id, &idx.to_string(), &seed.to_string(),
                if thorough { "thorough" } else { "quick" }, vf.to_str().unwrap()])
            .stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        let code = st.as_ref().ok().and_then(|s| s.code());
        match code {
            Some(0) => errors.push(format!("shard {} ended with {} in case {}, which holds alone", i, c, idx)),
            Some(EXIT_VIOL) => violation = std::fs::read_to_string(&vf).ok(),
            Some(EXIT_SLOW) => errors.push(format!("case {} takes the monitor too long", idx)),
            other => {
                let what = if other == Some(EXIT_HANG) {
                    format!("the library did not return within {} s of processor time", case_cpu_ms() / 1000)
                } else {
                    format!("the process died ({:?}), for example from a stack overflow or an abort", st.map(|s| s.to_string()))
                };
                violation = Some(render(check, idx, seed, thorough, &Viol::new(what)));
            }
        }
    }
    // Merge what the workers observed.
    let mut evaluations = 0u64;
    let mut ran = 0u64;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    for i in 0..shards {
        let s = std::fs::read_to_string(out.join(format!("r{}", i))).unwrap_or_default();
        for line in s.lines() {
            let mut it = line.splitn(3, ' ');
            match it.next() {
                Some("evaluations") => evaluations += it.next().and_then(|x| x.parse().ok()).unwrap_or(0),
                Some("cases") => ran += it.next().and_then(|x| x.parse().ok()).unwrap_or(0),
                Some("count") => {
                    let n: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    let k = it.next().unwrap_or("").to_string();
                    let e = counts.entry(k.clone()).or_insert(0);
                    if k.starts_with("max ") { *e = (*e).max(n) } else { *e += n }
                }
                Some("sample") => if samples.len() < 6 { samples.push(line["sample ".len()..].to_string()) },
                Some("known") => {
                    let k = it.next().unwrap_or("").to_string();
                    known.insert(k, it.next().unwrap_or("").to_string());
                }
                _ => {}
            }
        }
        let b = std::fs::read(out.join(format!("d{}", i))).unwrap_or_default();
        for c in b.chunks_exact(8) {
            distinct.insert(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
        }
    }
    if left_out > 0 { counts.insert("cases left out because the monitor takes too long".into(), left_out); }
    let _ = std::fs::remove_dir_all(&out);
    for (k, d) in &known { println!("KNOWN-FINDING: property={} {} ({})", check.id, d, k); }
    if violation.is_none() && errors.is_empty() {
        for n in check.need {
            if counts.get(*n).cloned().unwrap_or(0) == 0 { errors.push(format!("nothing observed for `{}`", n)); }
        }
        if evaluations == 0 { errors.push("no execution observed".into()); }
    }
    let wall = start.elapsed().as_secs_f64();
    let mut e = String::from("{\n");
    let _ = write!(e, " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n",
        js(check.id), js(if thorough { "thorough" } else { "quick" }), seed);
    let _ = write!(e, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases\": {},\n  \"cases_planned\": {},\n  \"observed\": {{",
        evaluations, distinct.len(), js(check.rule), ran, cases);
    for (i, (k, v)) in counts.iter().enumerate() {
        let _ = write!(e, "{}\n   {}: {}", if i > 0 { "," } else { "" }, js(k), v);
    }
    let _ = write!(e, "\n  }},\n  \"known_findings\": [{}],\n  \"samples\": [", known.keys().map(|k| js(k)).collect::<Vec<_>>().join(", "));
    if samples.is_empty() { samples.push(js("none: stopped before the first sample")); }
    let _ = write!(e, "{}]\n }},\n", samples.join(",\n   "));
    let _ = write!(e, " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        check.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "), wall,
        if violation.is_some() { 1 } else { 0 });
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    let tmp = dir.join("evidence").join(format!(".{}.tmp", check.id));
    if std::fs::write(&tmp, e).and_then(|_| std::fs::rename(&tmp, dir.join("evidence").join(format!("{}.json", check.id)))).is_err() {
        errors.push("could not write evidence".into());
    }
    if let Some(v) = violation {
        let path = replays.join(format!("{}-{}-{:x}.json", check.id, seed, hash_bytes(v.as_bytes()) & 0xffffff));
        let _ = std::fs::write(&path, &v);
        eprintln!("{}", clip(&v, 6000));
        println!("VIOLATION property={} replay={}", check.id, path.display());
        let _ = std::io::stdout().flush();
        return 1;
    }
    if !errors.is_empty() {
        for x in &errors { eprintln!("INCONCLUSIVE property={} {}", check.id, x); }
        return 3;
    }
    println!("held: property={} cases={} evaluations={} distinct_nontrivial={} wall_s={:.1}",
        check.id, ran, evaluations, distinct.len(), wall);
    0
}
