//! OID and integer literals: g_lits.rs (accepted ones, with the arcs or number meant) and g_probe.rs (one literal a
//! line, refused and accepted mixed).
use super::Rng;
use std::fmt::Write as _;
const BIG: u128 = u128::MAX;
fn arc(r: &mut Rng, turn: &mut usize) -> u128 {
    *turn += 1;
    match *turn % 6 {
        0 => r.below(200) as u128,
        1 => [0u128, 1, 2, 39, 40, 47, 79, 80, 119, 126, 127, 128, 129, 255, 256, 840, 1000][r.below(17)],
        2 => { let k = 7 * (1 + r.below(18)); let b = 1u128 << k.min(127); [b - 1, b, b + 1, b | 1, b + 127, b + 128][r.below(6)] }
        3 => r.next() as u128,
        4 => { let k = r.below(128); ((r.next() as u128) << 64 | r.next() as u128) >> k }
        _ => [u32::MAX as u128, u64::MAX as u128, u64::MAX as u128 + 1, BIG, BIG - 1, BIG - 80, 65535, 65536, 0x8000_0000, 113549][r.below(10)],
    }
}
/// arcs of an absolute OID, valid
fn arcs(r: &mut Rng, t: &mut usize) -> Vec<u128> {
    let first = r.below(3) as u128;
    let second = if first < 2 { if r.chance(1, 3) { [0u128, 1, 38, 39][r.below(4)] } else { r.below(40) as u128 } } else { arc(r, t).min(BIG - 80) };
    let n = match r.below(8) { 0 => 0, 1 => 1, 7 => r.below(24), _ => r.below(7) };
    let mut v = vec![first, second];
    for _ in 0..n { v.push(arc(r, t)); }
    v
}
/// dotted text of arcs; spelling variants that denote the same arcs
fn text(r: &mut Rng, a: &[u128]) -> String {
    let mut v: Vec<String> = a.iter().map(|x| x.to_string()).collect();
    if r.chance(1, 8) && !v.is_empty() { let i = r.below(v.len()); v[i] = format!("0{}", v[i]); }
    if r.chance(1, 8) { v.join(" . ") } else { v.join(".") }
}
fn int(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.below(300) as u64,
        1 => { let k = r.below(64); (r.next() >> k) | 1 << (63 - k) }
        2 => { let b = 1u64 << r.below(64); [b.wrapping_sub(1), b, b.wrapping_add(1)][r.below(3)] }
        _ => { let b = 8 * r.below(8); [0x7fu64 << b, 0x80u64 << b, 0xff_u64 << b, (1u64 << b) - 1, u64::MAX, 0][r.below(6)] }
    }
}
fn int_text(r: &mut Rng, n: u64) -> String {
    match r.below(8) {
        0 => format!("{n:#x}"), 1 => format!("{n:#b}"), 2 => format!("{n:#o}"), 3 => format!("{n}u64"), 4 => format!("0{n}"),
        5 => { let s = n.to_string(); let mut o = String::new(); for (i, c) in s.chars().enumerate() { if i > 0 && (s.len() - i) % 3 == 0 { o.push('_'); } o.push(c); } o }
        _ => n.to_string(),
    }
}
fn list(a: &[u128]) -> String { format!("&[{}]", a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")) }
pub fn generate(r: &mut Rng, n: usize, out: &str) {
    let mut t = 0;
    let mut f = String::from("// generated\n");
    let (mut calls, mut body, mut k) = (String::new(), String::new(), 0usize);
    for i in 0..n {
        let line = match i % 8 {
            0 | 1 | 2 => { let a = if i == 0 { vec![0] } else { arcs(r, &mut t) }; let tx = text(r, &a); if i % 24 == 9 { format!("{{ const X: Oid<'static> = oid!({tx}); v.push(Lit::Abs({tx:?}, {}, X)); }}", list(&a)) } else { format!("v.push(Lit::Abs({tx:?}, {}, oid!({tx})));", list(&a)) } }
            3 | 4 => { let a: Vec<u128> = (0..1 + r.below(8)).map(|_| arc(r, &mut t)).collect(); let tx = text(r, &a); format!("v.push(Lit::Rel({tx:?}, {}, oid!(rel {tx})));", list(&a)) }
            5 => { let a = arcs(r, &mut t); let tx = text(r, &a); if r.chance(1, 2) { format!("v.push(Lit::Raw({tx:?}, {}, false, &oid!(raw {tx})));", list(&a)) } else { format!("{{ const X: &[u8] = &oid! {{raw {tx}}}; v.push(Lit::Raw({tx:?}, {}, false, X)); }}", list(&a)) } }
            6 => if i % 16 == 6 { let a: Vec<u128> = (0..1 + r.below(6)).map(|_| arc(r, &mut t)).collect(); let tx = text(r, &a); format!("v.push(Lit::Raw({tx:?}, {}, true, &oid!(raw rel {tx})));", list(&a)) } else { let x = int(r); let tx = int_text(r, x); format!("v.push(Lit::IntRaw({tx:?}, {x}, &int!(raw {tx})));") },
            _ => { let x = int(r); let tx = int_text(r, x); format!("v.push(Lit::Int({tx:?}, {x}, int!({tx})));") }
        };
        let _ = writeln!(body, "{line}");
        if i % 100 == 99 || i + 1 == n { let _ = write!(f, "fn lits{k}(v: &mut Vec<Lit>) {{\n{body}}}\n"); let _ = writeln!(calls, "lits{k}(v);"); body.clear(); k += 1; }
    }
    let _ = write!(f, "pub fn lits(v: &mut Vec<Lit>) {{\n{calls}}}\n");
    std::fs::write(format!("{out}/g_lits.rs"), f).unwrap();
    // ---- probes, one a line: (text, must be refused)
    let mut probes: Vec<(String, bool)> = Vec::new();
    let m = n / 8;
    for i in 0..m {
        let (body, bad) = match i % 12 {
            0 => { let mut a = arcs(r, &mut t); a[0] = 3 + if r.chance(1, 2) { 0 } else { arc(r, &mut t) % (1 << 100) }; (text(r, &a), true) }
            1 => { let mut a = arcs(r, &mut t); a[0] = r.below(2) as u128; a[1] = if r.chance(1, 2) { 40 } else { 40 + arc(r, &mut t) % (1 << 100) }; (text(r, &a), true) }
            2 => ((1 + arc(r, &mut t) % (1 << 100)).to_string(), true),
            3 => { let mut a = arcs(r, &mut t); a[0] = 2; a[1] = BIG - r.below(80) as u128; (text(r, &a), true) }
            4 => { let a = arcs(r, &mut t); let mut v: Vec<String> = a.iter().map(|x| x.to_string()).collect(); let j = r.below(v.len()); v[j] = format!("{}", [format!("{}u8", v[j]), format!("0x{}", v[j]), format!("\"{}\"", v[j]), format!("'{}'", v[j].chars().next().unwrap()), "true".into(), format!("-{}", 1 + r.below(9))][r.below(6)]); (v.join(" . "), true) }
            5 => { let mut a = arcs(r, &mut t); if a.len() < 3 { a.push(1); } let s = a.iter().map(|x| x.to_string()).collect::<Vec<_>>(); let mut s = s; let l = s.len(); s[l - 1] = format!("{l}e{}", r.below(3)); (s.join("."), true) }
            6 => { let a: Vec<u128> = (0..1 + r.below(4)).map(|_| arc(r, &mut t)).collect(); (format!("rel {}", text(r, &a)), false) }
            7 => { let a = arcs(r, &mut t); (text(r, &a), false) }
            8 => { let w = r.below(3); ([format!("#-{}", 1 + int(r) / 2), format!("#{}", u64::MAX as u128 + 1 + (arc(r, &mut t) >> 1)), format!("#{}.0", r.below(99))][w].clone(), true) }
            9 => { let x = int(r); (format!("#{}", int_text(r, x)), false) }
            10 => { let w = r.below(4); (["#\"5\"", "#true", "#'5'", "#1 + 1"][w].to_string(), true) }
            _ => { let w = r.below(3); (["", "rel", "rel 1.x"][w].to_string(), true) }
        };
        let line = match body.strip_prefix('#') {
            Some(x) => if r.chance(1, 2) { format!("pub fn p{i}() {{ let _ = int!({x}); }}") } else { format!("pub fn p{i}() {{ let _ = &int!(raw {x}); }}") },
            None if body.starts_with("rel") => format!("pub fn p{i}() {{ let _ = oid!({body}); }}"),
            None => if r.chance(1, 2) { format!("pub fn p{i}() {{ let _ = oid!({body}); }}") } else { format!("pub fn p{i}() {{ let _: &[u8] = &oid!(raw {body}); }}") },
        };
        probes.push((line, bad));
    }
    std::fs::write(format!("{out}/g_probe.rs"), probes.iter().map(|p| format!("{}\n", p.0)).collect::<String>()).unwrap();
    std::fs::write(format!("{out}/g_probe_list.rs"), format!("pub const PROBES: &[(&str, bool)] = &[\n{}];\n", probes.iter().map(|p| format!("({:?}, {}),\n", p.0, p.1)).collect::<String>())).unwrap();
}
