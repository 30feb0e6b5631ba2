//! C28: one case is run in this process, built without the logging features, and in servers built with them
//! (each fed the recorded choices of the case); the observations must be identical.
use crate::engine::*;
use crate::generic::*;
use crate::model::*;
use crate::obs::*;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// everything observable of one case, as lines
#[derive(Default)]
pub struct Obs { pub lines: Vec<String> }
impl Obs {
    fn put(&mut self, what: &str, f: impl FnOnce() -> String) {
        let t = match catch_unwind(AssertUnwindSafe(f)) { Ok(t) => t, Err(_) => { let m = last_panic(); if in_harness(&m) { eprintln!("HARNESS-ERROR in C28: {m}"); std::process::exit(3); } format!("PANIC {m}") } };
        self.lines.push(format!("{what}: {t}"));
    }
    fn digest(&self) -> u64 { self.lines.iter().fold(0u64, |a, l| a.rotate_left(7) ^ fnv(l.as_bytes())) }
}
fn perr_text(x: &ErrObs) -> String { format!("Err {:?} {} {} {:?}", x.kind, x.dbg, x.text, x.pos.as_ref().map(|p| (p.start, p.end))) }
fn encodings(obs: &mut Obs, o: &Ops, b: &Bx, c: u8, n: u32, at: usize) {
    for (rules, enc) in [("BER", &o.ber), ("DER", &o.der)] {
        let Some(enc) = enc else { continue };
        obs.put(rules, || { let m = (enc.meta)(&**b, false); format!("{:?} {:?} {:?} {} {} {} {:?}", m.vec, m.total, m.content, m.class, m.cons, m.tag, m.extra) });
        for what in 0..6u8 {
            obs.put(rules, || { let mut w = ScriptWriter::plain(); let r = (enc.w)(&**b, what, c, n, &mut w); format!("{what} {r:?} {}", hex(&w.out)) });
            obs.put(rules, || { let mut w = ScriptWriter { fail_at: Some(at), chunks: vec![3, 1], ..ScriptWriter::plain() }; let r = (enc.w)(&**b, what, c, n, &mut w); format!("failing writer {what} {r:?} {}", hex(&w.out)) });
        }
    }
}
/// run the library on the case drawn from `s`
pub fn observe(s: &mut Src, reg: Reg) -> Obs {
    let mut obs = Obs::default();
    let regs = reg();
    let o = start(s, regs);
    let hashed = any_kind(&o.kind, &|k| matches!(k, Kind::SetOf(_, true)));
    let (c, n, at) = (s.below(4) as u8, gen_tagnum(s, 2), s.below(12));
    if s.chance(1, 5) {
        // a built value and its encodings
        let v = gen_val(&o.kind, s);
        s.note(format!("{} value {v:?}", o.name)); s.set_key(format!("{} {v:?}", o.name).as_bytes()); s.label("encode a value");
        checkpoint(s);
        match catch_unwind(AssertUnwindSafe(|| (o.build)(&v))) {
            Ok(Some(b)) => { s.nontrivial(); if !hashed { encodings(&mut obs, o, &b, c, n, at); } }
            Ok(None) => obs.lines.push("not built".into()),
            Err(_) => obs.lines.push(format!("PANIC {}", last_panic())),
        }
        return obs;
    }
    let i = input(s, o, regs, &W_MIX);
    describe(s, o, &i);
    let other = s.chance(1, 3);
    let k = s.below(crate::extras::apis().len());
    checkpoint(s);
    for e in &o.entries {
        s.evals += 1;
        let mut kept = None;
        obs.put(e.name, || match run(o, e, i.buf, i.off) {
            Got::Err(x) => perr_text(&x),
            Got::Yes { v, obj, used, rem } => {
                let p = match &rem { Rem::I(x) => { let p = pos_of(x); (p.start, p.end) } Rem::S(_) => (0, 0) };
                let t = format!("{v:?} {used} {p:?}"); kept = obj; t
            }
        });
        let Some(b) = kept else { continue };
        s.nontrivial();
        if hashed { continue; }
        if let Some(f) = o.debug { obs.put("debug", || crate::extras::anon(f(&*b))); }
        if let Some(f) = o.display { obs.put("display", || f(&*b)); }
        if let Some(f) = o.to_static { obs.put("owned", || format!("{:?}", (o.val)(&*f(&*b)))); }
        encodings(&mut obs, o, &b, c, n, at);
    }
    if other {
        s.label("accessors, views, callbacks");
        let a = crate::extras::apis();
        for j in 0..16 { let x = &a[(k + j * 23) % a.len()]; s.evals += 1; obs.put(x.name, || { let r = (x.f)(i.buf, i.off); format!("{} {:?} {:?}", r.text, r.rem.map(|p| (p.0.start, p.0.end)), r.err.map(|p| (p.0.start, p.0.end, p.1))) }); }
    }
    obs
}

// ------------------------------------------------------------------ servers
struct Server { name: String, child: Child, tx: ChildStdin, rx: ChildStdout }
impl Drop for Server { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
fn spawn(spec: &str) -> Server {
    // name=program [arguments]
    let (name, cmd) = spec.split_once('=').expect("VERIF_SERVERS entry");
    let mut p = cmd.split(' ');
    let mut child = Command::new(p.next().unwrap()).args(p).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("server starts");
    let (tx, rx) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
    Server { name: name.to_string(), child, tx, rx }
}
impl Server {
    fn ask(&mut self, want: u8, size: u64, choices: &[u64]) -> std::io::Result<(u64, String, String)> {
        let mut m = vec![want];
        m.extend(size.to_le_bytes()); m.extend((choices.len() as u64).to_le_bytes());
        for c in choices { m.extend(c.to_le_bytes()); }
        self.tx.write_all(&m)?; self.tx.flush()?;
        let mut h = [0u8; 24]; self.rx.read_exact(&mut h)?;
        let n = |i: usize| u64::from_le_bytes(h[i..i + 8].try_into().unwrap());
        let mut t = vec![0u8; n(8) as usize]; self.rx.read_exact(&mut t)?;
        let mut d = vec![0u8; n(16) as usize]; self.rx.read_exact(&mut d)?;
        Ok((n(0), String::from_utf8_lossy(&t).into(), String::from_utf8_lossy(&d).into()))
    }
}
thread_local! { static SERVERS: RefCell<Vec<Option<Server>>> = const { RefCell::new(Vec::new()) }; }
fn specs() -> Vec<String> { std::env::var("VERIF_SERVERS").unwrap_or_default().split(';').filter(|x| !x.is_empty()).map(String::from).collect() }
/// `vh serve PROP [logger]`: answers requests with the digest (or all observations) of the case
pub fn serve(reg: Reg, logger: bool) -> i32 {
    install_panic_hook();
    limit_memory();
    if logger { install_logger(); }
    let (mut rx, mut tx) = (std::io::stdin().lock(), std::io::stdout());
    loop {
        let mut h = [0u8; 17];
        if rx.read_exact(&mut h).is_err() { return 0; }
        let n = |i: usize| u64::from_le_bytes(h[i..i + 8].try_into().unwrap());
        let mut c = vec![0u8; n(9) as usize * 8];
        if rx.read_exact(&mut c).is_err() { return 0; }
        let c: Vec<u64> = c.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
        let mut s = Src::replay(&c, n(1));
        let o = observe(&mut s, reg);
        let text = if h[0] == b't' { o.lines.join("\u{1}") } else { String::new() };
        let desc = if h[0] == b't' { format!("{} log records", records()) } else { String::new() };
        let mut m = o.digest().to_le_bytes().to_vec();
        m.extend((text.len() as u64).to_le_bytes()); m.extend((desc.len() as u64).to_le_bytes());
        m.extend(text.as_bytes()); m.extend(desc.as_bytes());
        if tx.write_all(&m).is_err() || tx.flush().is_err() { return 0; }
    }
}
static RECORDS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn records() -> u64 { RECORDS.load(std::sync::atomic::Ordering::Relaxed) }
/// formats every record and drops it
#[cfg(feature = "logger")]
fn install_logger() {
    struct Sink;
    impl log::Log for Sink {
        fn enabled(&self, _: &log::Metadata) -> bool { true }
        fn log(&self, r: &log::Record) { let t = format!("{} {}", r.level(), r.args()); if !t.is_empty() { RECORDS.fetch_add(1, std::sync::atomic::Ordering::Relaxed); } }
        fn flush(&self) {}
    }
    static SINK: Sink = Sink;
    log::set_logger(&SINK).expect("one logger"); log::set_max_level(log::LevelFilter::Trace);
}
#[cfg(not(feature = "logger"))]
fn install_logger() { panic!("built without the logger") }

pub fn c28(s: &mut Src, reg: Reg) -> Outcome {
    let here = observe(s, reg);
    let d = here.digest();
    let (rec, size) = (s.rec.clone(), s.size);
    SERVERS.with(|sv| {
        let mut sv = sv.borrow_mut();
        let sp = specs();
        if sp.is_empty() { eprintln!("HARNESS-ERROR: VERIF_SERVERS is not set"); std::process::exit(3); }
        while sv.len() < sp.len() { let k = sv.len(); sv.push(Some(spawn(&sp[k]))); }
        for (k, slot) in sv.iter_mut().enumerate() {
            if slot.is_none() { *slot = Some(spawn(&sp[k])); }
            let v = slot.as_mut().unwrap();
            let name = v.name.clone();
            s.evals += 1;
            match v.ask(b'd', size, &rec) {
                Err(_) => {
                    let st = v.child.wait().map(|x| x.to_string()).unwrap_or_default();
                    *slot = None;
                    if st.contains("exit status: 3") { eprintln!("HARNESS-ERROR in the server {name}"); std::process::exit(3); }
                    return fail(format!("dies/{name}"), format!("the build {name} dies ({st}) where the build without logging features gives: {}", short(&here.lines.join("; "))));
                }
                Ok((x, _, _)) if x == d => {}
                Ok(_) => {
                    let text = v.ask(b't', size, &rec).map(|x| x.1).unwrap_or_default();
                    let there: Vec<&str> = text.split('\u{1}').collect();
                    let at = (0..here.lines.len().max(there.len())).find(|k| here.lines.get(*k).map(|x| x.as_str()) != there.get(*k).copied());
                    let Some(at) = at else { return fail(format!("unstable/{name}"), "results change from one run to the next") };
                    let (a, b) = (here.lines.get(at).cloned().unwrap_or_default(), there.get(at).copied().unwrap_or("").to_string());
                    let what = a.split(':').next().unwrap_or("").to_string();
                    return fail(format!("differs/{name}/{what}"), format!("without logging features {}, with {name} {}", short(&a), short(&b)));
                }
            }
        }
        Ok(())
    })
}
fn short(t: &str) -> String { t.chars().take(700).collect() }
/// every build does log when asked to: a server that never logs compares nothing
pub fn c28_fixed(f: &mut Fixed) {
    if f.shard != 0 { return; }
    for sp in specs() {
        let mut v = spawn(&sp);
        let mut n = 0u64;
        for k in 0..200u64 { let mut s = Src::random(k, 20); let _ = observe(&mut s, crate::types::registry); if let Ok((_, _, d)) = v.ask(b't', 20, &s.rec) { n = d.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0); } f.evaluations += 1; }
        f.notes.insert(format!("log records of 200 cases, {}", v.name), n);
        if v.name.contains("logger installed") && n == 0 { eprintln!("HARNESS-ERROR: the build {} does not log", v.name); std::process::exit(3); }
    }
}
