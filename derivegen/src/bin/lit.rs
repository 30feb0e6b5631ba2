//! C29: literals of the generated program against a reference encoder and against run-time construction; refused
//! literals through one compilation of examples/probe.rs.
use asn1_rs::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;
use vh::engine::*;
use vh::ensure;
use vh::props::pf;
pub enum Lit { Abs(&'static str, &'static [u128], Oid<'static>), Rel(&'static str, &'static [u128], Oid<'static>), Raw(&'static str, &'static [u128], bool, &'static [u8]), Int(&'static str, u64, Integer<'static>), IntRaw(&'static str, u64, &'static [u8]) }
mod gen {
    #![allow(clippy::all)]
    use super::Lit;
    use asn1_rs::*;
    include!(concat!(env!("OUT_DIR"), "/g_lits.rs"));
    include!(concat!(env!("OUT_DIR"), "/g_probe_list.rs"));
}
fn lits() -> &'static [Lit] { static R: OnceLock<Vec<Lit>> = OnceLock::new(); R.get_or_init(|| { let mut v = vec![]; gen::lits(&mut v); v }) }
fn base128(v: u128, o: &mut Vec<u8>) { let n = (1..19).find(|n| 7 * n >= 128 || v >> (7 * n) == 0).unwrap_or(19); for i in (0..n).rev() { o.push((v >> (7 * i)) as u8 & 0x7f | if i > 0 { 0x80 } else { 0 }); } }
fn abs(a: &[u128]) -> Vec<u8> { let mut o = vec![]; if a == [0] { return vec![0]; } base128(a[0] * 40 + a[1], &mut o); for x in &a[2..] { base128(*x, &mut o); } o }
fn rel(a: &[u128]) -> Vec<u8> { let mut o = vec![]; for x in a { base128(*x, &mut o); } o }
fn int(n: u64) -> Vec<u8> { let b = n.to_be_bytes(); let k = b.iter().position(|x| *x != 0).unwrap_or(7); let mut v = b[k..].to_vec(); if v[0] >= 0x80 { v.insert(0, 0); } v }
fn tlv(t: u8, c: &[u8]) -> Vec<u8> { let mut o = vec![t]; if c.len() < 128 { o.push(c.len() as u8) } else if c.len() < 256 { o.extend([0x81, c.len() as u8]) } else { o.extend([0x82, (c.len() >> 8) as u8, c.len() as u8]) } o.extend_from_slice(c); o }
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn dotted(a: &[u128]) -> String { a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".") }
fn check(l: &Lit) -> Outcome {
    match l {
        Lit::Abs(t, a, o) => {
            let want = abs(a);
            ensure!(o.as_bytes() == &want[..], "oid/bytes", "oid!({t}) holds {:02x?}, its arcs encode as {want:02x?}", o.as_bytes());
            let buf = tlv(6, &want); let (_, d) = Oid::from_der(&buf).map_err(|e| Fail { sig: "oid/decode".into(), msg: format!("the encoding of {t} is refused: {e:?}") })?;
            ensure!(d == *o && *o == d && h(&d) == h(o), "oid/decoded", "oid!({t}) = {o:?} differs from the decoded value {d:?}");
            ensure!(d.to_string() == o.to_string(), "oid/text", "oid!({t}) prints {o}, the decoded value {d}");
            ensure!(o.to_der_vec().ok() == Some(tlv(6, &want)), "oid/encode", "oid!({t}) encodes as {:02x?}", o.to_der_vec());
            if let Ok(v) = a.iter().map(|x| u64::try_from(*x)).collect::<std::result::Result<Vec<_>, _>>() {
                // 2.(2^64-1) is one sub-identifier of more than 64 bits: refused at run time
                match Oid::from(&v) {
                    Ok(x) => { ensure!(x == *o && h(&x) == h(o) && x.as_bytes() == o.as_bytes(), "oid/from", "oid!({t}) = {o:?}, Oid::from gives {x:?}"); }
                    Err(e) => { ensure!(a.len() >= 2 && a[0] == 2 && a[1] > u64::MAX as u128 - 80, "oid/from", "Oid::from({v:?}) is refused: {e:?}"); return Ok(()); }
                }
                let x: Oid = dotted(a).parse().map_err(|e| Fail { sig: "oid/parse".into(), msg: format!("{} is refused: {e:?}", dotted(a)) })?;
                ensure!(x == *o, "oid/parse", "oid!({t}) = {o:?}, the text {} gives {x:?}", dotted(a));
                ensure!(a == &[0] || a == &[0, 0] || o.to_string() == dotted(a), "oid/display", "oid!({t}) prints {o}");
            }
        }
        Lit::Rel(t, a, o) => {
            let want = rel(a);
            ensure!(o.as_bytes() == &want[..], "rel/bytes", "oid!(rel {t}) holds {:02x?}, its arcs encode as {want:02x?}", o.as_bytes());
            let buf = tlv(13, &want); let (_, d) = Oid::from_der_relative(&buf).map_err(|e| Fail { sig: "rel/decode".into(), msg: format!("the encoding of {t} is refused: {e:?}") })?;
            ensure!(d == *o && *o == d && h(&d) == h(o), "rel/decoded", "oid!(rel {t}) = {o:?} differs from the decoded value {d:?}");
            ensure!(d.to_string() == o.to_string(), "rel/text", "oid!(rel {t}) prints {o}, the decoded value {d}");
            ensure!(o.to_der_vec().ok() == Some(tlv(13, &want)), "rel/encode", "oid!(rel {t}) encodes as {:02x?}", o.to_der_vec());
            if let Ok(v) = a.iter().map(|x| u64::try_from(*x)).collect::<std::result::Result<Vec<_>, _>>() {
                let x = Oid::from_relative(&v).map_err(|e| Fail { sig: "rel/from".into(), msg: format!("{v:?} is refused: {e:?}") })?;
                ensure!(x == *o && h(&x) == h(o), "rel/from", "oid!(rel {t}) = {o:?}, Oid::from_relative gives {x:?}");
                ensure!(*o != Oid::new(want.clone().into()), "rel/kind", "oid!(rel {t}) equals an absolute OID");
            }
        }
        Lit::Raw(t, a, r, b) => { let want = if *r { rel(a) } else { abs(a) }; ensure!(*b == &want[..], "raw/bytes", "oid!(raw {}{t}) = {b:02x?}, its arcs encode as {want:02x?}", if *r { "rel " } else { "" }); }
        Lit::Int(t, n, i) => {
            let want = int(*n);
            ensure!(i.to_der_vec().ok() == Some(tlv(2, &want)), "int/encode", "int!({t}) encodes as {:02x?}, {n} as {want:02x?}", i.to_der_vec());
            let x = Integer::from(*n);
            ensure!(x == *i && *i == x, "int/from", "int!({t}) = {i:?}, Integer::from gives {x:?}");
            ensure!(i.as_u64() == Ok(*n), "int/value", "int!({t}) reads back as {:?}", i.as_u64());
            let buf = tlv(2, &want); let (_, d) = Integer::from_der(&buf).map_err(|e| Fail { sig: "int/decode".into(), msg: format!("the encoding of {t} is refused: {e:?}") })?;
            ensure!(d == *i, "int/decoded", "int!({t}) = {i:?} differs from the decoded value {d:?}");
        }
        Lit::IntRaw(t, n, b) => { let want = int(*n); ensure!(*b == &want[..], "int/raw", "int!(raw {t}) = {b:02x?}, {n} encodes as {want:02x?}"); }
    }
    Ok(())
}
fn describe(l: &Lit) -> String { match l { Lit::Abs(t, ..) => format!("oid!({t})"), Lit::Rel(t, ..) => format!("oid!(rel {t})"), Lit::Raw(t, _, r, _) => format!("oid!(raw {}{t})", if *r { "rel " } else { "" }), Lit::Int(t, ..) => format!("int!({t})"), Lit::IntRaw(t, ..) => format!("int!(raw {t})") } }
/// the compiler's verdict on every line of g_probe.rs
fn probes(fx: &mut Fixed) {
    let root = env!("CARGO_MANIFEST_DIR");
    let o = std::process::Command::new("cargo").args(["build", "--offline", "--locked", "-q", "--example", "probe", "--message-format=json"]).current_dir(root).output();
    let Ok(o) = o else { eprintln!("HARNESS-ERROR cargo cannot be run for the refused literals"); std::process::exit(3) };
    let mut refused = vec![None::<String>; gen::PROBES.len()];
    let out = String::from_utf8_lossy(&o.stdout);
    let mut errors = 0;
    for l in out.lines().filter(|l| l.contains("\"level\":\"error\"")) {
        errors += 1;
        // every span of the message and of its expansion chain that lies in g_probe.rs names the line of a probe
        let mut rest = l;
        while let Some(p) = rest.find("g_probe.rs\"") {
            // fields of a span are in alphabetical order in no guaranteed way: take the nearest line_start after the file name
            rest = &rest[p + 11..];
            if let Some(q) = rest.find("\"line_start\":") { let n: String = rest[q + 13..].chars().take_while(|c| c.is_ascii_digit()).collect(); if let Ok(n) = n.parse::<usize>() { if n >= 1 && n <= refused.len() { let m = l.find("\"message\":\"").map(|x| l[x + 11..].chars().take(120).collect::<String>()).unwrap_or_default(); refused[n - 1].get_or_insert(m); } } }
        }
    }
    if errors == 0 && gen::PROBES.iter().any(|p| p.1) { eprintln!("HARNESS-ERROR the probe program gave no compiler messages: {}", String::from_utf8_lossy(&o.stderr)); std::process::exit(3) }
    for (i, (t, bad)) in gen::PROBES.iter().enumerate() {
        let r = &refused[i];
        let res = match (bad, r) {
            (true, None) => fail("accepts", format!("`{t}` compiles, no value is meant by it")),
            (false, Some(m)) => fail("refuses", format!("`{t}` does not compile: {m}")),
            _ => Ok(()),
        };
        fx.check(|| format!("{t} (line {} of g_probe.rs)", i + 1), res);
        fx.count(if *bad { "literals that must be refused" } else { "literals that must compile, in the same program" }, 1);
    }
}
pub fn fixed(fx: &mut Fixed) {
    if fx.shard == 0 { probes(fx); }
    for (i, l) in lits().iter().enumerate() { if fx.mine(i as u64) { fx.go(|| describe(l), || check(l)); fx.count("accepted literals", 1); } }
}
/// relations between literals and run-time values of other arcs
pub fn c29(s: &mut Src) -> Outcome {
    let all = lits();
    let l = &all[s.below(all.len())];
    s.note(describe(l)); s.set_key(describe(l).as_bytes());
    s.nontrivial();
    match l {
        Lit::Abs(t, a, o) | Lit::Rel(t, a, o) => {
            let r = matches!(l, Lit::Rel(..));
            // run-time value: the same arcs, cut, extended or one changed
            let mut b = a.to_vec();
            let what = s.below(4);
            match what { 0 => {} 1 => { let n = s.below(b.len()); b.truncate(n); } 2 => b.push(s.below(300) as u128), _ => { let i = s.below(b.len()); b[i] = b[i] ^ (1 << s.below(8)); } }
            let valid = if r { !b.is_empty() } else { b.len() >= 2 && b[0] <= 2 && (b[0] == 2 || b[1] < 40) && b[1] < BIG80 };
            if !valid { return Ok(()); }
            let bytes = if r { rel(&b) } else { abs(&b) };
            let x = if r { Oid::new_relative(bytes.into()) } else { Oid::new(bytes.into()) };
            s.evals += 1;
            ensure!((x == *o) == (b == *a) && (*o == x) == (b == *a), "eq", "{} == {x:?} is {}", describe(l), x == *o);
            ensure!(x != *o || h(&x) == h(o), "hash", "{} equals {x:?} with another hash", describe(l));
            // a single absolute arc stands for no arc sequence a prefix could be taken of
            if !r && a.len() >= 2 { ensure!(o.starts_with(&x) == a.starts_with(&b), "prefix", "{t} starts with {}: {}", dotted(&b), o.starts_with(&x)); }
        }
        Lit::Int(t, n, i) => {
            let m = match s.below(4) { 0 => *n, 1 => n.wrapping_add(1), 2 => n ^ (1 << s.below(64)), _ => s.upto(u64::MAX) };
            let x = Integer::from(m);
            s.evals += 1;
            ensure!((x == *i) == (m == *n), "int/eq", "int!({t}) == {x:?} is {}", x == *i);
        }
        _ => { check(l)?; }
    }
    Ok(())
}
const BIG80: u128 = u128::MAX - 80;
fn main() { std::process::exit(main_with(&[pf("C29", c29, fixed, 1_000_000, 8_000_000, "the program is generated: OID (absolute, relative, raw) and integer literals in all spellings, boundary and random arcs; each compiled literal is compared with a reference encoder, run-time construction and decoding; literals without a value, mixed with valid ones, are compiled in a second program and the compiler's verdict on each is compared; one case = one literal against a run-time value of equal, prefix, longer or changed arcs; non-trivial: all; distinct by literal")])) }
