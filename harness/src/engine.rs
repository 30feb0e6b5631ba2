//! Generic property-test engine: choice-stream cases, journaled workers, shrinking, known findings, evidence.
//!
//! A case is a function of a stream of bounded choices (`Src`). Random cases draw from a PRNG and record the
//! choices; replay and shrinking feed a recorded list back (missing choices read as 0).
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut next = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        let a = next();
        let b = next() | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r ^ (r >> 29)
    }
}
pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in data {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 31)
}
/// Seed of case `idx` of property `prop` under `seed`: independent of sharding.
pub fn case_seed(prop: &str, seed: u64, idx: u64) -> u64 {
    fnv(prop.as_bytes())
        ^ seed.wrapping_mul(0xD6E8_FEB8_6659_FD93)
        ^ idx.wrapping_mul(0xA076_1D64_78BD_642F).rotate_left(17)
}

// ---------------------------------------------------------------- choice stream
enum Mode {
    Random(Rng),
    Replay(Vec<u64>, usize),
}
pub struct Src {
    mode: Mode,
    /// every choice drawn: (value)
    pub rec: Vec<u64>,
    /// class labels of this case (distribution statistics)
    pub labels: Vec<&'static str>,
    /// counters for cases skipped because they are a recorded finding
    pub known: Vec<&'static str>,
    /// true if the case exercised what the property is about (see the rule of each check)
    pub nontrivial: bool,
    /// distinguishes cases: hash of the interesting part
    pub key: u64,
    /// human readable description of the case
    pub desc: String,
    /// size hint grows with the case number
    pub size: u64,
    /// number of comparisons performed in this case
    pub evals: u64,
    /// accumulated observation digest (used to compare builds)
    pub digest: u64,
}
impl Src {
    pub fn random(seed: u64, size: u64) -> Src {
        Src::with(Mode::Random(Rng::new(seed)), size)
    }
    pub fn replay(choices: &[u64], size: u64) -> Src {
        Src::with(Mode::Replay(choices.to_vec(), 0), size)
    }
    fn with(mode: Mode, size: u64) -> Src {
        Src { mode, rec: Vec::new(), labels: Vec::new(), known: Vec::new(), nontrivial: false, key: 0, desc: String::new(), size, evals: 0, digest: 0 }
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(r) => {
                let x = r.next();
                if max == u64::MAX { x } else { ((x as u128 * (max as u128 + 1)) >> 64) as u64 }
            }
            Mode::Replay(v, i) => {
                let x = v.get(*i).copied().unwrap_or(0);
                *i += 1;
                if x > max { if max == u64::MAX { x } else { x % (max + 1) } } else { x }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize { if n <= 1 { return 0; } self.upto(n as u64 - 1) as usize }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.upto((hi - lo) as u64) as i64 }
    pub fn byte(&mut self) -> u8 { self.upto(255) as u8 }
    pub fn bool(&mut self) -> bool { self.upto(1) == 1 }
    /// true with probability num/den; replaying zeros gives false
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.upto(den - 1) >= den - num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
    /// index drawn with the given weights (earlier entries are "simpler")
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.upto(total - 1);
        for (i, &k) in w.iter().enumerate() {
            if x < k { return i; }
            x -= k;
        }
        w.len() - 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
    /// long byte strings cost one choice: content is derived from it
    pub fn bulk(&mut self, n: usize) -> Vec<u8> {
        if n <= 24 { return self.bytes(n); }
        let s = self.upto(u32::MAX as u64);
        if s == 0 { return vec![0; n]; }
        let mut r = Rng::new(s);
        (0..n).map(|_| r.next() as u8).collect()
    }
    /// lengths biased to small values and to the boundaries of BER length forms
    pub fn len(&mut self, max: usize) -> usize {
        let c = self.weighted(&[50, 20, 12, 8, 6, 4]);
        let n = match c {
            0 => self.upto(6),
            1 => self.upto(24),
            2 => self.upto(140),
            3 => *self.pick(&[126u64, 127, 128, 129, 124, 125, 130, 123, 122, 121, 120]),
            4 => *self.pick(&[254u64, 255, 256, 257, 253, 252, 251, 250, 249, 248, 258]),
            _ => { if self.chance(1, 12) { *self.pick(&[65534u64, 65535, 65536, 65533, 65532, 65531, 65530, 65537]) } else { self.upto(1200) } }
        };
        (n as usize).min(max)
    }
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
    pub fn known(&mut self, l: &'static str) { self.known.push(l); }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.desc.len() < 4000 { if !self.desc.is_empty() { self.desc.push_str("; "); } self.desc.push_str(s.as_ref()); shorten(&mut self.desc, 8000); }
    }
    pub fn observe(&mut self, s: &str) { self.digest = self.digest.rotate_left(5) ^ fnv(s.as_bytes()); }
    pub fn set_key(&mut self, data: &[u8]) { self.key ^= fnv(data); }
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// stable identification of what failed: check/relation/type
    pub sig: String,
    pub msg: String,
}
pub type Outcome = Result<(), Fail>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> { Err(Fail { sig: sig.into(), msg: msg.into() }) }
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($m:tt)*) => { if !$c { return $crate::engine::fail($sig, format!($($m)*)); } };
}

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Src) -> Outcome,
    /// number of cases in the quick / thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub level: &'static str,
    /// fixed, exhaustively enumerated part: run once, by worker 0
    pub fixed: Option<fn(&mut Fixed) -> ()>,
}
/// Exhaustive / enumerated sub-checks.
#[derive(Default)]
pub struct Fixed {
    pub evaluations: u64,
    pub fails: Vec<(String, Fail)>,
    pub notes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub tier_thorough: bool,
    pub shard: u64,
    pub jobs: u64,
}
impl Fixed {
    pub fn check(&mut self, input: impl FnOnce() -> String, r: Outcome) {
        self.evaluations += 1;
        if let Err(mut f) = r { if f.msg.len() > 4000 { let mut i = 2000; while !f.msg.is_char_boundary(i) { i -= 1; } f.msg.truncate(i); f.msg.push_str(".."); } if self.fails.len() < 200 && self.fails.iter().filter(|x| x.1.sig == f.sig).count() < 2 { self.fails.push((input(), f)); } }
    }
    /// like `check`, a panic of the code under test being a failure of this input
    pub fn go(&mut self, input: impl FnOnce() -> String, f: impl FnOnce() -> Outcome) {
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => {
                let m = last_panic();
                if in_harness(&m) { eprintln!("HARNESS-ERROR in enumerated part: {m} {}", input()); std::process::exit(3); }
                let loc = m.split(": ").next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
                Err(Fail { sig: format!("panic@{}", loc.split(':').next().unwrap_or("")), msg: m })
            }
        };
        self.check(input, r);
    }
    /// the enumeration is split over the workers
    pub fn mine(&self, i: u64) -> bool { i % self.jobs.max(1) == self.shard }
    pub fn count(&mut self, k: &str, n: u64) { *self.notes.entry(k.to_string()).or_default() += n; }
}

// ---------------------------------------------------------------- running one case
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() { *g = format!("panic at {loc}: {msg}"); }
    }));
}
pub fn last_panic() -> String { LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default() }
/// cut a long text
pub fn shorten(t: &mut String, max: usize) { if t.len() > max { let mut i = max / 2; while !t.is_char_boundary(i) { i -= 1; } t.truncate(i); t.push_str(".."); } }
pub fn run_case(p: &Prop, src: &mut Src) -> Outcome { let r = run_case_(p, src); r.map_err(|mut f| { shorten(&mut f.msg, 8000); f }) }
fn run_case_(p: &Prop, src: &mut Src) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| (p.case)(src))) {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            if in_harness(&m) {
                // a panic in the harness itself is an error of the check, not a violation
                eprintln!("HARNESS-ERROR in case: {m}\n{}", src.desc);
                std::process::exit(3);
            }
            let loc = m.split(": ").next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
            Err(Fail { sig: format!("panic@{}", loc.split(':').next().unwrap_or("")), msg: m })
        }
    }
}

// ---------------------------------------------------------------- shrinking
fn shrink(p: &Prop, choices: Vec<u64>, size: u64, f0: Fail, tries: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, Fail)>, limit: Duration) -> (Vec<u64>, Fail) {
    let _ = (p, size);
    let start = Instant::now();
    let (mut best, mut bf) = (choices, f0);
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut changed = true;
    while changed && start.elapsed() < limit {
        changed = false;
        // delete spans
        let mut span = (best.len() / 2).max(1);
        while span >= 1 && start.elapsed() < limit {
            let mut i = 0;
            while i + span <= best.len() && start.elapsed() < limit {
                let mut c = best.clone();
                c.drain(i..i + span);
                match tries(&c) {
                    Some((r, f)) if better(&r, &best) => { best = r; bf = f; changed = true; }
                    _ => i += span.max(1),
                }
            }
            span /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() && start.elapsed() < limit {
            let v = best[i];
            if v > 0 {
                let mut cands = vec![0, v / 2, v - 1];
                cands.dedup();
                for nv in cands {
                    if nv >= v { continue; }
                    let mut c = best.clone();
                    c[i] = nv;
                    if let Some((r, f)) = tries(&c) { if better(&r, &best) { best = r; bf = f; changed = true; break; } }
                }
            }
            i += 1;
        }
    }
    (best, bf)
}

// ---------------------------------------------------------------- driver / worker
pub struct Config { pub tier: String, pub seed: u64, pub jobs: u64, pub root: PathBuf }
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
pub fn json_str(s: &str) -> String { esc(s) }

fn size_of_case(idx: u64, total: u64) -> u64 { 2 + (idx * 98) / total.max(1) }

#[derive(Default)]
struct Stats { evals: u64, cases: u64, nontrivial: u64, keys: HashSet<u64>, labels: BTreeMap<String, u64>, known: BTreeMap<String, u64>, samples: Vec<String>, fails: Vec<(u64, Vec<u64>, u64, Fail, String)>, digest: u64 }

/// Address-space limit: a runaway allocation aborts the worker (reported as a crash of the case) instead of the machine.
pub fn limit_memory() {
    #[repr(C)]
    struct RLimit { cur: u64, max: u64 }
    extern "C" { fn setrlimit(resource: i32, rlim: *const RLimit) -> i32; }
    let r = RLimit { cur: 4 << 30, max: 4 << 30 };
    unsafe { setrlimit(9, &r); }
}
/// CPU seconds used by a process
fn cpu_of(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) / 100)
}
/// worker: runs cases idx = shard, shard+jobs, ... and prints a line-based report on stdout
pub fn worker(p: &Prop, cfg: &Config, shard: u64, total: u64, start: u64, journal: &Path) -> i32 {
    install_panic_hook();
    limit_memory();
    use std::os::unix::fs::FileExt;
    let jf = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(journal).expect("journal");
    let mut st = Stats::default();
    let mut distinct = HashSet::new();
    let known = load_known(&cfg.root);
    let maxsample = 6;
    let mut idx = start;
    while idx % cfg.jobs != shard { idx += 1; }
    let mut fixed_json = String::new();
    if start == 0 {
        if let Some(f) = p.fixed {
            let _ = jf.write_all_at(&u64::MAX.to_le_bytes(), 0);
            let mut fx = Fixed { tier_thorough: cfg.tier == "thorough", shard, jobs: cfg.jobs, ..Default::default() };
            match catch_unwind(AssertUnwindSafe(|| { f(&mut fx) })) {
                Ok(()) => {}
                Err(_) => { let m = last_panic(); if in_harness(&m) { eprintln!("HARNESS-ERROR in enumerated part: {m}"); return 3; } fx.fails.push(("(enumerated part)".into(), Fail { sig: "panic".into(), msg: m })); }
            }
            st.evals += fx.evaluations;
            println!("FIXED {}", fx.evaluations);
            for (k, v) in &fx.notes { println!("FNOTE {} {}", v, k); }
            for s in fx.samples.iter().take(4) { println!("SAMPLE {}", esc(s)); }
            for (inp, fl) in &fx.fails { println!("FFAIL {}\t{}\t{}", esc(&fl.sig), esc(&fl.msg), esc(inp)); }
            fixed_json.push('x');
        }
    }
    let mut jbuf = [0u8; 8];
    while idx < total {
        jbuf.copy_from_slice(&idx.to_le_bytes());
        let _ = jf.write_all_at(&jbuf, 0);
        let size = size_of_case(idx, total);
        let mut src = Src::random(case_seed(p.id, cfg.seed, idx), size);
        let t0 = Instant::now();
        let r = run_case(p, &mut src);
        let dt = t0.elapsed();
        if dt > Duration::from_secs(20) { eprintln!("SLOW case {idx}: {:?} {}", dt, src.desc); }
        st.cases += 1;
        st.evals += src.evals;
        st.digest ^= src.digest.wrapping_mul(idx.wrapping_mul(2).wrapping_add(1));
        if src.nontrivial { st.nontrivial += 1; distinct.insert(if src.key != 0 { src.key } else { fnv(&src.rec.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()) }); }
        let mut seen = HashSet::new();
        for l in &src.labels { if seen.insert(*l) { *st.labels.entry(l.to_string()).or_default() += 1; } }
        for l in &src.known { *st.known.entry(l.to_string()).or_default() += 1; }
        if src.nontrivial && st.samples.len() < maxsample && (idx / cfg.jobs) % (1 + total / cfg.jobs / maxsample as u64) == 0 {
            let mut d: String = src.desc.chars().take(400).collect();
            if d.is_empty() { d = format!("choices {:?}", &src.rec[..src.rec.len().min(40)]); }
            st.samples.push(d);
        }
        if let Err(f) = r {
            if known.iter().any(|k| k.prop == p.id && k.sig == f.sig) { *st.known.entry(f.sig).or_default() += 1; idx += cfg.jobs; continue; }
            println!("FAIL {} {}\t{}\t{}\t{}", idx, size, esc(&f.sig), esc(&f.msg), esc(&src.desc));
            st.fails.push((idx, src.rec.clone(), size, f, src.desc.clone()));
            if st.fails.len() >= 12 { break; }
        }
        idx += cfg.jobs;
    }
    for s in &st.samples { println!("SAMPLE {}", esc(s)); }
    for (k, v) in &st.labels { println!("LABEL {} {}", v, k); }
    for (k, v) in &st.known { println!("KNOWN {} {}", v, k); }
    println!("KEYS {}", distinct.len());
    // distinct keys are merged by the driver through a file
    let kf = journal.with_extension("keys");
    let mut b = Vec::with_capacity(distinct.len() * 8);
    for k in &distinct { b.extend_from_slice(&k.to_le_bytes()); }
    let _ = std::fs::write(kf, b);
    println!("STATS {} {} {} {}", st.cases, st.evals, st.nontrivial, st.digest);
    println!("DONE");
    let _ = std::io::stdout().flush();
    0
}

/// a panic of the machinery itself; generated declarations (OUT_DIR/g_*.rs, derivegen) are code under test
pub fn in_harness(m: &str) -> bool { (m.contains("/verif/") && !m.contains("/out/g_")) || m.starts_with("panic at src/") }
/// run one replay file or one (seed, idx) case in this process; exit 0 ok, 1 fail
pub fn one(p: &Prop, choices: Option<Vec<u64>>, seed: u64, idx: u64, size: u64, verbose: bool) -> i32 {
    install_panic_hook();
    let mut src = match choices { Some(c) => Src::replay(&c, size), None => Src::random(case_seed(p.id, seed, idx), size) };
    let r = run_case(p, &mut src);
    if verbose { println!("case: {}", src.desc); println!("labels: {:?}", src.labels); }
    println!("CHOICES {}", src.rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    match r {
        Ok(()) => { println!("OK"); 0 }
        Err(f) => { println!("FAILSIG {}", esc(&f.sig)); println!("FAILMSG {}", esc(&f.msg)); println!("DESC {}", esc(&src.desc)); 1 }
    }
}

fn unesc(s: &str) -> String {
    let s = s.trim();
    let s = s.strip_prefix('"').and_then(|x| x.strip_suffix('"')).unwrap_or(s);
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' { o.push(c); continue; }
        match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some('r') => o.push('\r'), Some('u') => { let h: String = it.by_ref().take(4).collect(); if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) { o.push(c); } } Some(c) => o.push(c), None => {} }
    }
    o
}

pub struct Known { pub prop: String, pub sig: String, pub text: String }
pub fn load_known(root: &Path) -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            let l = l.trim();
            // finding: property=<id> sig=<signature> :: text
            if let Some(rest) = l.strip_prefix("finding:") {
                let (head, text) = rest.split_once("::").unwrap_or((rest, ""));
                let mut prop = String::new();
                let mut sig = String::new();
                for w in head.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") { prop = x.into(); }
                    if let Some(x) = w.strip_prefix("sig=") { sig = x.into(); }
                }
                v.push(Known { prop, sig, text: text.trim().to_string() });
            }
        }
    }
    v
}

pub fn drive(p: &Prop, cfg: &Config, cases: Option<u64>, extra: BTreeMap<String, String>) -> i32 {
    let t0 = Instant::now();
    let total = cases.unwrap_or(if cfg.tier == "thorough" { p.thorough } else { p.quick });
    let exe = std::env::current_exe().expect("exe");
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let known = load_known(&cfg.root);
    let limit = Duration::from_secs(if cfg.tier == "thorough" { 6 * 3600 } else { 700 });
    struct W { child: std::process::Child, shard: u64, journal: PathBuf, out: PathBuf, at: u64, cpu: u64 }
    let spawn = |shard: u64, start: u64, n: u64| -> W {
        let journal = scratch.join(format!("j{shard}_{n}"));
        let out = scratch.join(format!("o{shard}_{n}"));
        let f = std::fs::File::create(&out).expect("out");
        let child = Command::new(&exe)
            .args(["worker", p.id, &cfg.tier, &cfg.seed.to_string(), &cfg.jobs.to_string(), &shard.to_string(), &total.to_string(), &start.to_string()])
            .arg(&journal).arg(&cfg.root).stdin(Stdio::null()).stdout(f).stderr(Stdio::inherit()).spawn().expect("spawn worker");
        W { child, shard, journal, out, at: u64::MAX - 1, cpu: 0 }
    };
    let mut ws: Vec<W> = (0..cfg.jobs).map(|s| spawn(s, 0, 0)).collect();
    let mut outs: Vec<(PathBuf, PathBuf)> = Vec::new();
    let mut crashes: Vec<(u64, String)> = Vec::new();
    let mut respawns = 0u64;
    let mut err = None;
    let mut last_look = Instant::now();
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(15));
        // a case that burns CPU without ending is a hang
        if last_look.elapsed() > Duration::from_secs(2) {
            last_look = Instant::now();
            let mut k = 0;
            while k < ws.len() {
                let at = std::fs::read(&ws[k].journal).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap())).unwrap_or(u64::MAX - 1);
                let cpu = cpu_of(ws[k].child.id()).unwrap_or(0);
                if at != ws[k].at { ws[k].at = at; ws[k].cpu = cpu; }
                else if at != u64::MAX - 1 && cpu > ws[k].cpu + (if at < u64::MAX - 1 { 30 } else if cfg.tier == "thorough" { 7200 } else { 200 }) && ws[k].child.try_wait().ok().flatten().is_none() {
                    let mut w = ws.swap_remove(k);
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    outs.push((w.out.clone(), w.journal.with_extension("keys")));
                    crashes.push((at, "no result after 30 s of CPU time (hang)".into()));
                    respawns += 1;
                    if respawns < 3 && at < u64::MAX - 1 { ws.push(spawn(w.shard, at + 1, respawns)); }
                    continue;
                }
                k += 1;
            }
        }
        let mut i = 0;
        while i < ws.len() {
            match ws[i].child.try_wait() {
                Ok(Some(status)) => {
                    let w = ws.swap_remove(i);
                    outs.push((w.out.clone(), w.journal.with_extension("keys")));
                    if status.success() { continue; }
                    use std::os::unix::process::ExitStatusExt;
                    if let Some(sig) = status.signal() {
                        let idx = std::fs::read(&w.journal).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()));
                        if sig == 9 || sig == 15 || sig == 2 { err = Some(format!("worker killed by signal {sig} (case {idx:?})")); }
                        else if let Some(ix) = idx {
                            crashes.push((ix, format!("process killed by signal {sig}")));
                            respawns += 1;
                            if respawns < 6 && ix != u64::MAX { ws.push(spawn(w.shard, ix + 1, respawns)); }
                        } else { err = Some(format!("worker died by signal {sig} before its first case")); }
                    } else { err = Some(format!("worker exited with {status}")); }
                }
                Ok(None) => i += 1,
                Err(e) => { err = Some(e.to_string()); i += 1; }
            }
        }
        if t0.elapsed() > limit {
            for w in ws.iter_mut() {
                let idx = std::fs::read(&w.journal).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()));
                eprintln!("TIMEOUT: worker {} was at case {:?}", w.shard, idx);
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            err = Some("time limit reached (hang?)".into());
            break;
        }
        if err.is_some() && !ws.is_empty() {
            for w in ws.iter_mut() { let _ = w.child.kill(); let _ = w.child.wait(); outs.push((w.out.clone(), w.journal.with_extension("keys"))); }
            ws.clear();
        }
    }
    // ---- merge
    let mut st = Stats::default();
    let mut fixed_evals = 0u64;
    let mut fnotes: BTreeMap<String, u64> = BTreeMap::new();
    let mut fails: Vec<(Option<(u64, u64)>, Fail, String)> = Vec::new();
    let mut done = 0;
    for (o, k) in &outs {
        let text = std::fs::read_to_string(o).unwrap_or_default();
        for l in text.lines() {
            let (tag, rest) = l.split_once(' ').unwrap_or((l, ""));
            match tag {
                "STATS" => { let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap_or(0)).collect(); st.cases += v[0]; st.evals += v[1]; st.nontrivial += v[2]; st.digest ^= v[3]; }
                "LABEL" => { let (n, k) = rest.split_once(' ').unwrap(); *st.labels.entry(k.into()).or_default() += n.parse::<u64>().unwrap_or(0); }
                "KNOWN" => { let (n, k) = rest.split_once(' ').unwrap(); *st.known.entry(k.into()).or_default() += n.parse::<u64>().unwrap_or(0); }
                "FNOTE" => { let (n, k) = rest.split_once(' ').unwrap(); *fnotes.entry(k.into()).or_default() += n.parse::<u64>().unwrap_or(0); }
                "FIXED" => fixed_evals += rest.parse::<u64>().unwrap_or(0),
                "SAMPLE" => st.samples.push(rest.to_string()),
                "FAIL" => {
                    let parts: Vec<&str> = rest.split('\t').collect();
                    let mut h = parts[0].split(' ');
                    let idx = h.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    let size = h.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    fails.push((Some((idx, size)), Fail { sig: unesc(parts.get(1).unwrap_or(&"")), msg: unesc(parts.get(2).unwrap_or(&"")) }, unesc(parts.get(3).unwrap_or(&""))));
                }
                "FFAIL" => {
                    let parts: Vec<&str> = rest.split('\t').collect();
                    fails.push((None, Fail { sig: unesc(parts[0]), msg: unesc(parts.get(1).unwrap_or(&"")) }, unesc(parts.get(2).unwrap_or(&""))));
                }
                "DONE" => done += 1,
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(k) { for c in b.chunks_exact(8) { st.keys.insert(u64::from_le_bytes(c.try_into().unwrap())); } }
    }
    let _ = done;
    for (ix, m) in crashes {
        let size = size_of_case(ix, total);
        if ix == u64::MAX { fails.push((None, Fail { sig: "crash/enumerated".into(), msg: m }, "(enumerated part)".into())); }
        else { fails.push((Some((ix, size)), Fail { sig: if m.contains("hang") { "hang".into() } else { "crash".into() }, msg: m }, format!("case {ix}"))); }
    }
    fails.sort_by_key(|f| f.0.map(|x| x.0).unwrap_or(0));
    // ---- known findings
    let is_known = |sig: &str| known.iter().find(|k| k.prop == p.id && k.sig == sig);
    let mut code = 0;
    let mut reported = HashSet::new();
    let mut violations = Vec::new();
    for f in &fails {
        if is_known(&f.1.sig).is_some() { *st.known.entry(f.1.sig.clone()).or_default() += 1; }
        else if reported.insert(f.1.sig.clone()) { violations.push(f.clone()); }
    }
    let _ = std::fs::create_dir_all(cfg.root.join("evidence"));
    for (n, (idx, f, desc)) in violations.iter().enumerate().take(5) {
        code = 1;
        let file = cfg.root.join("evidence").join(format!("{}.replay{}.txt", p.id, n));
        let (mut choices, mut fl, mut ds, mut size) = (None, f.clone(), desc.clone(), 0u64); let _ = size;
        if let Some((ix, sz)) = idx {
            size = *sz;
            let run = |arg: &str| -> Option<(Vec<u64>, Fail, String)> {
                let tf = scratch.join("try.txt");
                std::fs::write(&tf, arg).ok()?;
                let mut ch = Command::new(&exe).args(["one", p.id]).arg(&tf).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
                let t = Instant::now();
                let mut st;
                loop {
                    st = ch.try_wait().ok()?;
                    if st.is_some() || t.elapsed() > Duration::from_secs(20) { break; }
                    std::thread::sleep(Duration::from_micros(500));
                }
                if st.is_none() { let _ = ch.kill(); let _ = ch.wait(); return None; }
                let mut o = String::new();
                use std::io::Read;
                ch.stdout.take()?.read_to_string(&mut o).ok()?;
                let mut sig = None; let mut msg = String::new(); let mut d = String::new(); let mut c = Vec::new();
                for l in o.lines() {
                    if let Some(x) = l.strip_prefix("FAILSIG ") { sig = Some(unesc(x)); }
                    if let Some(x) = l.strip_prefix("FAILMSG ") { msg = unesc(x); }
                    if let Some(x) = l.strip_prefix("DESC ") { d = unesc(x); }
                    if let Some(x) = l.strip_prefix("CHOICES ") { c = x.split(',').filter_map(|y| y.parse().ok()).collect(); }
                }
                use std::os::unix::process::ExitStatusExt;
                if let Some(s) = st.and_then(|s| s.signal()) { sig = Some("crash".into()); msg = format!("process killed by signal {s}");
                    c = arg.lines().find_map(|l| l.strip_prefix("choices ").map(|x| x.split(',').filter_map(|y| y.parse().ok()).collect())).unwrap_or_default(); }
                sig.map(|s| (c, Fail { sig: s, msg }, d))
            };
            let hdr = |sz: u64| format!("property {}\nprogram {} {}\nsize {}\n", p.id, cfg.seed, cfg.tier, sz);
            // in-process shrinking unless the case kills the process
            if f.sig == "hang" {
            } else if f.sig != "crash" {
                install_panic_hook();
                let mut s0 = Src::random(case_seed(p.id, cfg.seed, *ix), size);
                let r0 = run_case(p, &mut s0);
                if let Err(f0) = r0 {
                    let want = f0.sig.clone();
                    let mut tries = |c: &[u64]| -> Option<(Vec<u64>, Fail)> {
                        let mut s = Src::replay(c, size);
                        match run_case(p, &mut s) { Err(f) if f.sig == want => { let mut r = s.rec; while r.last() == Some(&0) { r.pop(); } Some((r, f)) } _ => None }
                    };
                    let (b, bf) = shrink(p, s0.rec.clone(), size, f0, &mut tries, Duration::from_secs(25));
                    let mut s = Src::replay(&b, size);
                    let _ = run_case(p, &mut s);
                    ds = s.desc.clone();
                    choices = Some(b); fl = bf;
                } else { fl.msg.push_str(" (did not reproduce in the driver)"); }
            } else if let Some((_, _, d)) = run(&format!("{}seed {}\nidx {}\n", hdr(size), cfg.seed, ix)) {
                // shrink the recorded choices by subprocess
                let s0 = { // record the choices without running the library: re-run in a child that dies is impossible, so use prefix replay
                    let o = Command::new(&exe).args(["record", p.id, &cfg.seed.to_string(), &ix.to_string(), &size.to_string()]).output().ok();
                    o.and_then(|o| String::from_utf8(o.stdout).ok()).unwrap_or_default()
                };
                let _ = d;
                let c0: Vec<u64> = s0.lines().rev().find_map(|l| l.strip_prefix("CHOICES ").map(|x| x.split(',').filter_map(|y| y.parse().ok()).collect())).unwrap_or_default();
                if !c0.is_empty() {
                    let fmt = |c: &[u64]| format!("{}choices {}\n", hdr(size), c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                    let mut tries = |c: &[u64]| -> Option<(Vec<u64>, Fail)> { run(&fmt(c)).filter(|r| r.1.sig == "crash").map(|r| (c.to_vec(), r.1)) };
                    if tries(&c0).is_some() { let (b, bf) = shrink(p, c0, size, f.clone(), &mut tries, Duration::from_secs(25)); choices = Some(b); fl = bf; }
                }
            }
            let mut t = hdr(size);
            match &choices { Some(c) => { let _ = writeln!(t, "choices {}", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); } None => { let _ = writeln!(t, "seed {}\nidx {}", cfg.seed, ix); } }
            let _ = write!(t, "# sig {}\n# {}\n# case: {}\n", fl.sig, fl.msg.replace('\n', "\n# "), ds.replace('\n', "\n# "));
            let _ = std::fs::write(&file, t);
        } else {
            let _ = std::fs::write(&file, format!("property {}\nfixed 1\n# sig {}\n# {}\n# case: {}\n", p.id, fl.sig, fl.msg.replace('\n', "\n# "), ds.replace('\n', "\n# ")));
        }
        println!("  {}: {}", fl.sig, fl.msg.chars().take(1500).collect::<String>());
        println!("  case: {}", ds.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, file.display());
    }
    for k in known.iter().filter(|k| k.prop == p.id) {
        if st.known.get(k.sig.as_str()).copied().unwrap_or(0) > 0 { println!("KNOWN-FINDING: property={} {} ({})", p.id, k.text, k.sig); }
    }
    // ---- evidence
    let mut j = String::new();
    let labels = st.labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    let kn = st.known.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    let fnn = fnotes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    st.samples.truncate(14);
    if st.samples.is_empty() { st.samples.push(esc("(no sample)")); }
    let ext = extra.iter().map(|(k, v)| format!(", {}: {}", esc(k), v)).collect::<String>();
    let _ = write!(j, "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"wall_s\": {:.3}, \"coverage\": {{\"evaluations\": {}, \"generated_cases\": {}, \"enumerated_evaluations\": {}, \"nontrivial_cases\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"distribution\": {{{}}}, \"enumerated\": {{{}}}, \"excluded_or_known\": {{{}}}, \"result_digest\": \"{:016x}\", \"samples\": [{}]{}}}, \"violations\": {}}}\n",
        esc(p.id), esc(&cfg.tier), cfg.seed, esc(p.level), t0.elapsed().as_secs_f64(), st.evals + fixed_evals, st.cases, fixed_evals, st.nontrivial, st.keys.len(), esc(p.rule), labels, fnn, kn, st.digest, st.samples.join(", "), ext, violations.len());
    let ef = cfg.root.join("evidence").join(format!("{}.json", p.id));
    if extra.contains_key("__digest_only") { println!("DIGEST {:016x}", st.digest); } else { let _ = std::fs::write(&ef, j); }
    let _ = std::fs::remove_dir_all(&scratch);
    if let Some(e) = err {
        if code == 0 { eprintln!("CHECK ERROR: {e}"); return 2; }
        eprintln!("note: {e}");
    }
    if code == 0 { println!("OK property={} cases={} nontrivial={} distinct={} enumerated={} wall={:.1}s", p.id, st.cases, st.nontrivial, st.keys.len(), fixed_evals, t0.elapsed().as_secs_f64()); }
    code
}

pub fn parse_replay(s: &str) -> (String, Option<Vec<u64>>, u64, u64, u64, bool) {
    let (mut p, mut c, mut seed, mut idx, mut size, mut fixed) = (String::new(), None, 0, 0, 10, false);
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property ") { p = x.trim().into(); }
        if let Some(x) = l.strip_prefix("choices ") { c = Some(x.trim().split(',').filter_map(|y| y.parse().ok()).collect()); }
        if let Some(x) = l.strip_prefix("choices") { if x.trim().is_empty() { c = Some(vec![]); } }
        if let Some(x) = l.strip_prefix("seed ") { seed = x.trim().parse().unwrap_or(0); }
        if let Some(x) = l.strip_prefix("idx ") { idx = x.trim().parse().unwrap_or(0); }
        if let Some(x) = l.strip_prefix("size ") { size = x.trim().parse().unwrap_or(0); }
        if l.starts_with("fixed 1") { fixed = true; }
    }
    (p, c, seed, idx, size, fixed)
}

pub fn main_with(props: &[Prop]) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("."));
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let Some(p) = find(&a[2]) else { eprintln!("unknown property"); return 2 };
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = a.get(3).cloned().unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let jobs = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            let cases = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok());
            let mut extra = BTreeMap::new();
            if let Ok(e) = std::env::var("VERIF_EXTRA") { extra.insert("configuration".into(), json_str(&e)); }
            if std::env::var("VERIF_DIGEST_ONLY").is_ok() { extra.insert("__digest_only".into(), "1".into()); }
            drive(p, &Config { tier, seed, jobs, root }, cases, extra)
        }
        Some("worker") => {
            let Some(p) = find(&a[2]) else { return 2 };
            let n = |i: usize| a[i].parse::<u64>().unwrap_or(0);
            let cfg = Config { tier: a[3].clone(), seed: n(4), jobs: n(5), root: PathBuf::from(&a[10]) };
            worker(p, &cfg, n(6), n(7), n(8), Path::new(&a[9]))
        }
        Some("one") | Some("replay") => {
            let file = if a[1] == "one" { &a[3] } else { &a[2] };
            let s = std::fs::read_to_string(file).unwrap_or_default();
            let (id, c, seed, idx, size, fixed) = parse_replay(&s);
            let Some(p) = find(&id) else { eprintln!("unknown property {id}"); return 2 };
            if fixed {
                install_panic_hook();
                let mut fx = Fixed::default();
                if let Some(f) = p.fixed { f(&mut fx); }
                for (i, fl) in &fx.fails { println!("{} {} {}", fl.sig, fl.msg, i); }
                return if fx.fails.is_empty() { 0 } else { 1 };
            }
            one(p, c, seed, idx, size, a[1] == "replay")
        }
        Some("record") => {
            // print the choices as they are drawn, so that they survive a crash
            let Some(p) = find(&a[2]) else { return 2 };
            let n = |i: usize| a[i].parse::<u64>().unwrap_or(0);
            RECORD.store(true, std::sync::atomic::Ordering::Relaxed);
            let mut s = Src::random(case_seed(p.id, n(3), n(4)), n(5));
            let _ = run_case(p, &mut s);
            0
        }
        Some("list") => { for p in props { println!("{} quick={} thorough={}", p.id, p.quick, p.thorough); } 0 }
        _ => { eprintln!("usage: vh check ID [tier] | replay FILE | list"); 2 }
    }
}
pub static RECORD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Call just before handing generated input to the library: in record mode prints the choices drawn so far.
pub fn checkpoint(src: &Src) {
    if RECORD.load(std::sync::atomic::Ordering::Relaxed) {
        println!("CHOICES {}", src.rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let _ = std::io::stdout().flush();
    }
}
