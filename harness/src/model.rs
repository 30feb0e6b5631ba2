//! Independent reference model: BER/DER reader and writer over a schema (`Kind`) and values (`Val`), written from
//! X.680/X.690 and the documented limits of the library, sharing no code with it.
use crate::engine::Src;
use num_bigint::BigInt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cs { Utf8, Ascii, Numeric, Printable, Visible, Bmp, Universal }

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Bool,
    Int { signed: bool, bits: u32 },
    Integer,
    Enumerated,
    Null,
    /// `borrowed`: the value must be a contiguous slice of the input (constructed forms cannot be returned)
    Octets { borrowed: bool },
    Bits,
    Oid,
    Str { cs: Cs, tag: u32, borrowed: bool },
    UtcTime,
    GenTime,
    Real,
    F32,
    Any,
    RawSeq,
    RawSet,
    SeqOf(Box<Kind>),
    /// `dedup`: equal elements collapse
    SetOf(Box<Kind>, bool),
    Array(Box<Kind>, usize),
    /// SEQUENCE (set=false) or SET of fields in order
    Fields { set: bool, fields: Vec<Kind> },
    Tagged { class: u8, tag: u32, explicit: bool, inner: Box<Kind> },
    Opt(Box<Kind>),
    /// DEFAULT value
    Def(Box<Kind>, Box<Val>),
    /// alternatives, Val::Choice(index, value)
    Choice(Vec<Kind>),
    /// declared enumeration: list of allowed values
    Enum(Vec<i64>),
    Pdv,
    Eoc,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Tm { pub year: u32, pub mon: u8, pub day: u8, pub h: u8, pub m: u8, pub s: u8, pub ms: Option<u16>, pub tz: Tz }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tz { Undef, Z, Off(i8, i8) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Bool(bool),
    Int(BigInt),
    Null,
    Bytes(Vec<u8>),
    Bits(Vec<bool>),
    /// (relative, content octets)
    Oid(bool, Vec<u8>),
    Str(String),
    Time(Tm),
    /// f64 bits (NaN normalised)
    F64(u64),
    List(Vec<Val>),
    /// sorted
    Set(Vec<Val>),
    None,
    Some(Box<Val>),
    Any { class: u8, cons: bool, tag: u32, content: Vec<u8> },
    Choice(usize, Box<Val>),
}
pub fn f64val(f: f64) -> Val { Val::F64(if f.is_nan() { f64::NAN.to_bits() } else if f == 0.0 { 0 } else { f.to_bits() }) }

// ------------------------------------------------------------------ header and TLV reading
#[derive(Clone, Debug, PartialEq)]
pub struct Hdr { pub class: u8, pub cons: bool, pub tag: u32, pub len: Option<usize>, pub hlen: usize,
    /// tag in the shortest form
    pub min_tag: bool,
    /// length in the shortest definite form
    pub min_len: bool }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HErr { Trunc, Bad }
pub fn read_hdr(b: &[u8]) -> Result<Hdr, HErr> {
    let b0 = *b.first().ok_or(HErr::Trunc)?;
    let (class, cons) = (b0 >> 6, b0 & 0x20 != 0);
    let mut p = 1;
    let mut tag = (b0 & 0x1f) as u64;
    let mut min_tag = true;
    if tag == 31 {
        tag = 0;
        let mut n = 0;
        loop {
            let c = *b.get(p).ok_or(HErr::Trunc)?;
            p += 1;
            if n == 0 && c == 0x80 { min_tag = false; }
            n += 1;
            tag = (tag << 7) | (c & 0x7f) as u64;
            if tag > u32::MAX as u64 { return Err(HErr::Bad); }
            if n > 5 { return Err(HErr::Bad); }
            if c & 0x80 == 0 { break; }
        }
        if tag < 31 { min_tag = false; }
    }
    let l0 = *b.get(p).ok_or(HErr::Trunc)?;
    p += 1;
    let (len, min_len) = if l0 < 0x80 { (Some(l0 as usize), true) } else if l0 == 0x80 {
        if !cons { return Err(HErr::Bad); }
        (None, false)
    } else if l0 == 0xff { return Err(HErr::Bad); } else {
        let n = (l0 & 0x7f) as usize;
        if b.len() < p + n { return Err(HErr::Trunc); }
        let mut v: u128 = 0;
        for &c in &b[p..p + n] { v = (v << 8) | c as u128; if v > u64::MAX as u128 { return Err(HErr::Bad); } }
        let min = v >= 0x80 && b[p] != 0;
        p += n;
        (Some(v as usize), min)
    };
    Ok(Hdr { class, cons, tag: tag as u32, len, hlen: p, min_tag, min_len })
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TErr { Trunc, Bad, Deep }
/// Content range and total length of the element at the start of `b`; indefinite content excludes the EOC.
pub fn read_tlv(b: &[u8], depth: usize) -> Result<(Hdr, std::ops::Range<usize>, usize), TErr> {
    let h = read_hdr(b).map_err(|e| match e { HErr::Trunc => TErr::Trunc, HErr::Bad => TErr::Bad })?;
    match h.len {
        Some(l) => {
            let end = h.hlen.checked_add(l).ok_or(TErr::Trunc)?;
            if end > b.len() { return Err(TErr::Trunc); }
            let r = h.hlen..end;
            Ok((h, r, end))
        }
        None => {
            if depth == 0 { return Err(TErr::Deep); }
            let mut p = h.hlen;
            loop {
                if b.len() >= p + 2 && b[p] == 0 && b[p + 1] == 0 { let r = h.hlen..p; return Ok((h, r, p + 2)); }
                let (_, _, n) = read_tlv(&b[p..], depth - 1)?;
                p += n;
            }
        }
    }
}
/// No verdict beyond this indefinite nesting depth (exact limits are checked by C17).
pub const SURE_DEPTH: usize = 40;

#[derive(Clone, Debug, PartialEq)]
pub enum R { Yes(Val, usize), No, Unk }
use R::*;

/// The model reports *why* a decode is uncertain to help diagnosing.
pub fn accepts(k: &Kind, h: &Hdr) -> bool {
    let uni = |t: u32| h.class == 0 && h.tag == t;
    match k {
        Kind::Bool => uni(1),
        Kind::Int { .. } | Kind::Integer => uni(2),
        Kind::Enumerated | Kind::Enum(_) => uni(10),
        Kind::Null => uni(5),
        Kind::Octets { .. } => uni(4),
        Kind::Bits => uni(3),
        Kind::Oid => uni(6) || uni(13),
        Kind::Str { tag, .. } => uni(*tag),
        Kind::UtcTime => uni(23),
        Kind::GenTime => uni(24),
        Kind::Real | Kind::F32 => uni(9),
        Kind::Any => true,
        Kind::RawSeq | Kind::SeqOf(_) | Kind::Array(..) => uni(16),
        Kind::RawSet | Kind::SetOf(..) => uni(17),
        Kind::Fields { set, .. } => uni(if *set { 17 } else { 16 }),
        Kind::Tagged { class, tag, .. } => h.class == *class && h.tag == *tag,
        Kind::Opt(k) | Kind::Def(k, _) => accepts(k, h),
        Kind::Choice(a) => a.iter().any(|k| accepts(k, h)),
        Kind::Pdv => uni(11),
        Kind::Eoc => uni(0),
    }
}
/// Decode one element (or optional element) from the start of `b`.
pub fn dec(k: &Kind, b: &[u8], der: bool) -> R {
    match k {
        Kind::Opt(i) => {
            if b.is_empty() { return Yes(Val::None, 0); }
            let Ok(h) = read_hdr(b) else { return No };
            if !h.min_tag { return Unk; }
            if !accepts(i, &h) { if der && h.len.is_none() { return Unk; } return Yes(Val::None, 0); }
            return match dec(i, b, der) { Yes(v, n) => Yes(Val::Some(Box::new(v)), n), r => r };
        }
        Kind::Def(i, d) => {
            if b.is_empty() { return Yes((**d).clone(), 0); }
            let Ok(h) = read_hdr(b) else { return No };
            if !h.min_tag { return Unk; }
            if !accepts(i, &h) { if der && h.len.is_none() { return Unk; } return Yes((**d).clone(), 0); }
            return dec(i, b, der);
        }
        _ => {}
    }
    let h = match read_hdr(b) { Ok(h) => h, Err(_) => return No };
    if !h.min_tag { return Unk; }
    if der && h.len.is_none() { return No; }
    if !accepts(k, &h) { return No; }
    let (h, r, total) = match read_tlv(b, SURE_DEPTH) { Ok(x) => x, Err(TErr::Deep) => return Unk, Err(_) => return No };
    let res = dec_content(k, &h, &b[r], der);
    if der && !h.min_len { return if res == No { No } else { Unk }; }
    match res { Yes(v, _) => Yes(v, total), r => r }
}
fn children<'b>(c: &'b [u8]) -> Result<Vec<(Hdr, &'b [u8], std::ops::Range<usize>)>, TErr> {
    let mut p = 0;
    let mut v = Vec::new();
    while p < c.len() {
        let (h, r, n) = read_tlv(&c[p..], SURE_DEPTH)?;
        v.push((h, &c[p..p + n], r));
        p += n;
    }
    Ok(v)
}
/// concatenated contents of a constructed string; Err(true) = unknown, Err(false) = invalid
fn segments(c: &[u8], tag: u32, depth: usize, out: &mut Vec<Vec<u8>>) -> Result<(), bool> {
    let ch = match children(c) { Ok(x) => x, Err(TErr::Deep) => return Err(true), Err(_) => return Err(false) };
    let mut unk = false;
    for (h, full, r) in ch {
        if h.class == 0 && h.tag == 0 { return Err(false); }
        if !h.min_tag { return Err(true); }
        if h.class != 0 || h.tag != tag { return Err(false); }
        if h.cons {
            if depth == 0 { return Err(true); }
            if r.is_empty() { unk = true; }
            segments(&full[r], tag, depth - 1, out)?;
        } else { out.push(full[r].to_vec()); }
    }
    if unk { Err(true) } else { Ok(()) }
}
pub fn charset_ok(cs: Cs, b: &[u8]) -> bool {
    match cs {
        Cs::Utf8 => std::str::from_utf8(b).is_ok(),
        Cs::Ascii => b.iter().all(|c| *c < 0x80),
        Cs::Numeric => b.iter().all(|c| c.is_ascii_digit() || *c == b' '),
        Cs::Printable => b.iter().all(|c| c.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(c)),
        Cs::Visible => b.iter().all(|c| (0x20..=0x7f).contains(c)),
        Cs::Bmp | Cs::Universal => true,
    }
}
/// text denoted by the octets of a string type: Yes(Some) text, Yes(None) unknown, Err invalid
pub fn text_of(cs: Cs, b: &[u8]) -> Result<Option<String>, ()> {
    match cs {
        Cs::Bmp => {
            if b.len() % 2 != 0 { return Err(()); }
            let u: Vec<u16> = b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
            match String::from_utf16(&u) { Ok(s) => Ok(if u.iter().any(|x| (0xd800..0xe000).contains(x)) { None } else { Some(s) }), Err(_) => Err(()) }
        }
        Cs::Universal => {
            if b.len() % 4 != 0 { return Err(()); }
            b.chunks(4).map(|c| char::from_u32(u32::from_be_bytes([c[0], c[1], c[2], c[3]])).ok_or(())).collect::<Result<String, ()>>().map(Some)
        }
        _ => { if !charset_ok(cs, b) { return Err(()); } String::from_utf8(b.to_vec()).map(Some).map_err(|_| ()) }
    }
}
pub fn octets_of(cs: Cs, s: &str) -> Vec<u8> {
    match cs {
        Cs::Bmp => s.encode_utf16().flat_map(|u| u.to_be_bytes()).collect(),
        Cs::Universal => s.chars().flat_map(|u| (u as u32).to_be_bytes()).collect(),
        _ => s.as_bytes().to_vec(),
    }
}
pub fn int_minimal(c: &[u8]) -> bool { !(c.len() > 1 && ((c[0] == 0 && c[1] & 0x80 == 0) || (c[0] == 0xff && c[1] & 0x80 != 0))) }
pub fn int_octets(v: &BigInt) -> Vec<u8> { v.to_signed_bytes_be() }
pub fn int_range(signed: bool, bits: u32) -> (BigInt, BigInt) {
    if signed { (-(BigInt::from(1) << (bits - 1)), (BigInt::from(1) << (bits - 1)) - 1) } else { (BigInt::from(0), (BigInt::from(1) << bits) - 1) }
}
pub fn oid_content_ok(c: &[u8]) -> bool {
    if c.is_empty() || c[c.len() - 1] & 0x80 != 0 { return false; }
    let mut start = true;
    for &b in c { if start && b == 0x80 { return false; } start = b & 0x80 == 0; }
    true
}
pub fn days_in(y: u32, m: u8) -> u8 {
    match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, 2 => if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 29 } else { 28 }, _ => 0 }
}
/// UTCTime / GeneralizedTime contents (X.680 46/47, X.690 11.7/11.8).
pub fn parse_time(gen: bool, b: &[u8], der: bool) -> R {
    let dig = |p: usize, n: usize| -> Option<u32> {
        let s = b.get(p..p + n)?;
        let mut v = 0;
        for c in s { if !c.is_ascii_digit() { return None; } v = v * 10 + (c - b'0') as u32; }
        Some(v)
    };
    let yl = if gen { 4 } else { 2 };
    let (Some(year), Some(mon), Some(day), Some(h)) = (dig(0, yl), dig(yl, 2), dig(yl + 2, 2), dig(yl + 4, 2)) else { return No };
    let mut p = yl + 6;
    let mut unk = false;
    let (mut m, mut s, mut ms, mut has_m, mut has_s) = (0, 0, None, false, false);
    if let Some(x) = dig(p, 2) {
        m = x; p += 2; has_m = true;
        if let Some(x) = dig(p, 2) { s = x; p += 2; has_s = true; }
    }
    if !has_m { if !gen { return No; } unk = true; }
    if gen && p < b.len() && (b[p] == b'.' || b[p] == b',') {
        if b[p] == b',' { unk = true; }
        if !has_s { unk = true; }
        p += 1;
        let st = p;
        let mut f = 0u32;
        while p < b.len() && b[p].is_ascii_digit() { if p - st < 9 { f = f * 10 + (b[p] - b'0') as u32; } p += 1; }
        let n = p - st;
        if n == 0 { return No; }
        if n > 3 { unk = true; }
        if der && b[p - 1] == b'0' { return No; }
        let mut f = f;
        for _ in n..3 { f *= 10; }
        ms = Some(f as u16);
    }
    let tz = match b.get(p) {
        None => { if !gen { return No; } if der { return No; } Tz::Undef }
        Some(b'Z') => { p += 1; Tz::Z }
        Some(c @ (b'+' | b'-')) => {
            let (Some(hh), Some(mm)) = (dig(p + 1, 2), dig(p + 3, 2)) else {
                // GeneralizedTime offsets may omit minutes
                return if gen && dig(p + 1, 2).is_some() && b.len() == p + 3 { Unk } else { No };
            };
            if hh > 23 || mm > 59 { return No; }
            if hh > 14 || (hh == 14 && mm > 0) { unk = true; }
            p += 5;
            if der { return if gen { No } else { Unk }; }
            let sg: i8 = if *c == b'-' { -1 } else { 1 };
            if hh == 0 { Tz::Off(0, sg * mm as i8) } else { Tz::Off(sg * hh as i8, mm as i8) }
        }
        _ => return No,
    };
    if p != b.len() { return No; }
    // the two-digit year of a UTCTime is 1950..2049
    let fy = if gen { year } else if year >= 50 { 1900 + year } else { 2000 + year };
    if mon == 0 || mon > 12 || day == 0 || day as u8 > days_in(fy, mon as u8) || h > 23 || m > 59 || s > 59 {
        if s == 60 || (h == 24 && m == 0 && s == 0) { return Unk; }
        return No;
    }
    if der && !has_s { return No; }
    if unk { return Unk; }
    Yes(Val::Time(Tm { year, mon: mon as u8, day: day as u8, h: h as u8, m: m as u8, s: s as u8, ms, tz }), b.len())
}
pub fn time_octets(gen: bool, t: &Tm) -> Vec<u8> {
    let mut s = if gen { format!("{:04}", t.year) } else { format!("{:02}", t.year) };
    s += &format!("{:02}{:02}{:02}{:02}{:02}", t.mon, t.day, t.h, t.m, t.s);
    if gen { if let Some(ms) = t.ms { if ms != 0 { let f = format!("{:03}", ms); s += "."; s += f.trim_end_matches('0'); } } }
    match t.tz { Tz::Undef => {} Tz::Z => s += "Z", Tz::Off(h, m) => { let neg = h < 0 || m < 0; s += if neg { "-" } else { "+" }; s += &format!("{:02}{:02}", h.unsigned_abs(), m.unsigned_abs()); } }
    s.into_bytes()
}
/// REAL contents in the forms every decoder must agree on.
pub fn dec_real(c: &[u8], der: bool) -> R {
    if c.is_empty() { return Yes(f64val(0.0), 0); }
    let f = c[0];
    if f & 0x80 != 0 {
        let base = (f >> 4) & 3;
        if base == 3 { return No; }
        let sf = ((f >> 2) & 3) as i64;
        let (el, st) = match f & 3 { 3 => { let Some(n) = c.get(1) else { return No }; if *n == 0 { return No; } (*n as usize, 2) } n => (n as usize + 1, 1) };
        if c.len() < st + el { return No; }
        let e = &c[st..st + el];
        let m = &c[st + el..];
        if m.is_empty() { return No; }
        // values beyond the size of the library's integers: the number need not be supported
        let sig = m.iter().skip_while(|x| **x == 0).count();
        if el > 4 || m.len() > 8 { return Unk; }
        let mut ev: i64 = if e[0] & 0x80 != 0 { -1 } else { 0 };
        for x in e { ev = (ev << 8) | *x as i64; }
        let mv = m.iter().fold(0u64, |a, x| (a << 8) | *x as u64);
        let ex = ev * [1, 3, 4][base as usize] + sf;
        if ex.abs() > 1 << 30 { return Unk; }
        if sig == 0 { return if der { Unk } else { Yes(f64val(0.0), c.len()) }; }
        if der && (base != 0 || sf != 0 || mv & 1 == 0 || m[0] == 0 || !int_minimal(e) || (f & 3 == 3 && el < 4)) { return Unk; }
        let v = round_pow2(mv, ex);
        // out of range of f64, or rounded twice
        if !v.is_finite() || v == 0.0 || (v.is_subnormal() && 64 - mv.leading_zeros() > 53) { return Unk; }
        return Yes(f64val(if f & 0x40 != 0 { -v } else { v }), c.len());
    }
    if f & 0x40 != 0 {
        if c.len() != 1 { return No; }
        return match f { 0x40 => Yes(f64val(f64::INFINITY), 1), 0x41 => Yes(f64val(f64::NEG_INFINITY), 1), 0x42 => Yes(f64val(f64::NAN), 1), 0x43 => Unk, _ => No };
    }
    let v = match dec_decimal(f, &c[1..]) { Some(Some(v)) => v, Some(None) => return Unk, None => return No };
    if der || !v.is_finite() { return Unk; }
    Yes(f64val(v), c.len())
}
/// `m * 2^e`, rounded to the nearest f64 (ties to even)
pub fn round_pow2(m: u64, e: i64) -> f64 {
    if m == 0 { return 0.0; }
    let msb = 63 - m.leading_zeros() as i64 + e;
    if msb > 1023 { return f64::INFINITY; }
    let lsb = (msb - 52).max(-1074);
    let q = if lsb <= e { (m as u128) << (e - lsb).min(60) } else {
        let sh = lsb - e;
        if sh > 66 { 0 } else { let (q, r, half) = ((m as u128) >> sh, (m as u128) & ((1u128 << sh) - 1), 1u128 << (sh - 1)); if r > half || (r == half && q & 1 == 1) { q + 1 } else { q } }
    };
    let p = if lsb < -1022 { f64::from_bits(1u64 << (lsb + 1074)) } else { f64::from_bits(((lsb + 1023) as u64) << 52) };
    q as f64 * p
}
/// decimal REAL text (ISO 6093 NR1, NR2, NR3): None malformed, Some(None) not decided
fn dec_decimal(nr: u8, t: &[u8]) -> Option<Option<f64>> {
    if !(1..=3).contains(&nr) { return None; }
    let mut p = t.iter().take_while(|b| **b == b' ').count();
    let mut o = String::new();
    if let Some(c @ (b'+' | b'-')) = t.get(p) { o.push(*c as char); p += 1; }
    let (mut digits, mut mark, mut exp, mut odd) = (0, false, false, false);
    while let Some(c) = t.get(p) { if c.is_ascii_digit() { o.push(*c as char); digits += 1; } else if matches!(c, b'.' | b',') && !mark { mark = true; o.push('.'); } else { break; } p += 1; }
    if digits == 0 { return None; }
    if let Some(c @ (b'E' | b'e')) = t.get(p) {
        odd |= *c == b'e'; exp = true; p += 1; o.push('e');
        if let Some(c @ (b'+' | b'-')) = t.get(p) { o.push(*c as char); p += 1; }
        let n = t[p..].iter().take_while(|b| b.is_ascii_digit()).count();
        if n == 0 { return None; }
        if n > 5 { odd = true; }
        o.push_str(std::str::from_utf8(&t[p..p + n]).ok()?); p += n;
    }
    if p != t.len() { return None; }
    match nr { 1 => if mark || exp { return None; }, 2 => { if exp { return None; } odd |= !mark; } _ => odd |= !exp }
    if odd { return Some(None); }
    let v: f64 = o.parse().ok()?;
    // too small for f64 although not zero: not decided
    if v == 0.0 && o.split('e').next().is_some_and(|m| m.bytes().any(|b| (b'1'..=b'9').contains(&b))) { return Some(None); }
    Some(Some(v))
}
pub fn dec_content(k: &Kind, h: &Hdr, c: &[u8], der: bool) -> R {
    let n = c.len();
    let prim = !h.cons;
    match k {
        Kind::Bool => { if !prim || n != 1 { return No; } if der && c[0] != 0 && c[0] != 0xff { return No; } Yes(Val::Bool(c[0] != 0), n) }
        Kind::Int { .. } | Kind::Integer => {
            if !prim || n == 0 { return No; }
            if der && !int_minimal(c) { return No; }
            let v = BigInt::from_signed_bytes_be(c);
            if let Kind::Int { signed, bits } = k { let (lo, hi) = int_range(*signed, *bits); if v < lo || v > hi { return No; } }
            Yes(Val::Int(v), n)
        }
        Kind::Enumerated => {
            if !prim || n == 0 { return No; }
            if der && !int_minimal(c) { return No; }
            let v = BigInt::from_signed_bytes_be(c);
            let (lo, hi) = int_range(false, 32);
            if v < lo || v > hi { return No; }
            Yes(Val::Int(v), n)
        }
        Kind::Enum(a) => {
            if !prim || n == 0 { return No; }
            if der && !int_minimal(c) { return No; }
            let v = BigInt::from_signed_bytes_be(c);
            if a.iter().any(|x| BigInt::from(*x) == v) { Yes(Val::Int(v), n) } else { No }
        }
        Kind::Null => { if !prim || n != 0 { No } else { Yes(Val::Null, 0) } }
        Kind::Octets { borrowed } => {
            if prim { return Yes(Val::Bytes(c.to_vec()), n); }
            if der { return No; }
            if *borrowed { return Unk; }
            let mut o = Vec::new();
            match segments(c, 4, 3, &mut o) { Ok(()) => Yes(Val::Bytes(o.concat()), n), Err(true) => Unk, Err(false) => No }
        }
        Kind::Bits => {
            let one = |c: &[u8], last: bool| -> Result<Vec<bool>, bool> {
                if c.is_empty() || c[0] > 7 || (c.len() == 1 && c[0] != 0) { return Err(false); }
                if !last && c[0] != 0 { return Err(true); }
                let mut v: Vec<bool> = c[1..].iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect();
                let keep = v.len() - c[0] as usize;
                if der && v[keep..].iter().any(|x| *x) { return Err(false); }
                v.truncate(keep);
                Ok(v)
            };
            if prim { return match one(c, true) { Ok(v) => Yes(Val::Bits(v), n), Err(true) => Unk, Err(false) => No }; }
            if der { return No; }
            let mut o = Vec::new();
            match segments(c, 3, 3, &mut o) {
                Ok(()) => {
                    let mut v = Vec::new();
                    let l = o.len();
                    let mut unk = false;
                    for (i, s) in o.iter().enumerate() { if s.is_empty() { return Unk; } match one(s, i + 1 == l) { Ok(x) => v.extend(x), Err(true) => unk = true, Err(false) => return No } }
                    if unk { Unk } else { Yes(Val::Bits(v), n) }
                }
                Err(true) => Unk, Err(false) => No,
            }
        }
        Kind::Oid => { if !prim || !oid_content_ok(c) { return No; } Yes(Val::Oid(h.class == 0 && h.tag == 13, c.to_vec()), n) }
        Kind::Str { cs, borrowed, .. } => {
            let d;
            let o: &[u8] = if prim { c } else {
                if der { return No; }
                if *borrowed { return Unk; }
                let mut o = Vec::new();
                match segments(c, 4, 3, &mut o) { Ok(()) => { d = o.concat(); &d } Err(true) => return Unk, Err(false) => return No }
            };
            match text_of(*cs, o) { Ok(Some(s)) => Yes(Val::Str(s), n), Ok(None) => Unk, Err(()) => No }
        }
        Kind::UtcTime | Kind::GenTime => { if !prim { return if der { No } else { Unk }; } parse_time(*k == Kind::GenTime, c, der) }
        Kind::Real => { if !prim { return No; } dec_real(c, der) }
        Kind::F32 => { if !prim { return No; } match dec_real(c, der) { Yes(Val::F64(b), n) => { let f = f64::from_bits(b); let g = f as f32; if f.is_finite() && (!g.is_finite() || (g == 0.0 && f != 0.0) || g.is_subnormal() || (g as f64 != f && f.to_bits() & 0x1fff_ffff == 0x1000_0000)) { Unk } else { Yes(f64val(g as f64), n) } } r => r } }
        Kind::Any => { if h.class == 0 && h.tag == 0 { return Unk; } Yes(Val::Any { class: h.class, cons: h.cons, tag: h.tag, content: c.to_vec() }, n) }
        Kind::RawSeq | Kind::RawSet => { if prim { return No; } Yes(Val::Bytes(c.to_vec()), n) }
        Kind::SeqOf(i) | Kind::SetOf(i, _) | Kind::Array(i, _) => {
            if prim { return No; }
            let mut v = Vec::new();
            let mut encs = Vec::new();
            let mut p = 0;
            let mut unk = false;
            while p < n {
                if let Ok(h) = read_hdr(&c[p..]) { if h.class == 0 && h.tag == 0 { return Unk; } }
                match dec(i, &c[p..], der) {
                    Yes(x, u) => { if u == 0 { return No; } encs.push(&c[p..p + u]); v.push(x); p += u; }
                    No => return No,
                    Unk => { unk = true; match read_tlv(&c[p..], SURE_DEPTH) { Ok((_, _, u)) => p += u, Err(TErr::Deep) => return Unk, Err(_) => return No } }
                }
            }
            if unk { return Unk; }
            match k {
                Kind::SetOf(_, dedup) => {
                    if der && encs.windows(2).any(|w| w[0] > w[1]) { return Unk; }
                    v.sort(); if *dedup { v.dedup(); } Yes(Val::Set(v), n) }
                Kind::Array(_, want) => { if v.len() != *want { No } else { Yes(Val::List(v), n) } }
                _ => Yes(Val::List(v), n),
            }
        }
        Kind::Fields { fields, .. } => {
            if prim { return No; }
            let mut v = Vec::new();
            let mut p = 0;
            let mut unk = false;
            for f in fields {
                if p < n { if let Ok(h) = read_hdr(&c[p..]) { if h.class == 0 && h.tag == 0 { return Unk; } } }
                match dec(f, &c[p..], der) { Yes(x, u) => {
                        if u > 0 && der { if let Kind::Def(_, d) = f { if **d == x { unk = true; } } }
                        v.push(x); p += u; }
                    No => return No,
                    Unk if matches!(f, Kind::Opt(_) | Kind::Def(..)) => return Unk,
                    Unk => { unk = true; match read_tlv(&c[p..], SURE_DEPTH) { Ok((_, _, u)) => p += u, _ => return Unk } } }
            }
            // elements after the last declared field are ignored by the library (documented): no verdict
            if unk || p < n { return Unk; }
            Yes(Val::List(v), n)
        }
        Kind::Tagged { explicit, inner, .. } => {
            if *explicit {
                if prim { return No; }
                if n == 0 { return match **inner { Kind::Opt(_) => Unk, _ => No }; }
                if let Ok(h) = read_hdr(c) { if h.class == 0 && h.tag == 0 { return Unk; } }
                match dec(inner, c, der) { Yes(v, u) => if u == n { Yes(v, n) } else { Unk }, r => r }
            } else {
                // the inner type sees the outer header
                if matches!(**inner, Kind::Opt(_) | Kind::Choice(_)) { return Unk; }
                dec_content(inner, h, c, der)
            }
        }
        Kind::Choice(a) => {
            for (i, k) in a.iter().enumerate() {
                if accepts(k, h) { return match dec_content(k, h, c, der) { Yes(v, n) => Yes(Val::Choice(i, Box::new(v)), n), r => r }; }
            }
            No
        }
        Kind::Pdv => {
            let f = Kind::Fields { set: false, fields: vec![exp(0, pdv_alts()), Kind::Opt(Box::new(imp(1, Kind::Str { cs: Cs::Ascii, tag: 7, borrowed: false }))), imp(2, Kind::Octets { borrowed: true })] };
            dec_content(&f, h, c, der)
        }
        Kind::Eoc => { if n == 0 && prim { Yes(Val::Null, 0) } else { No } }
        Kind::Opt(i) => match dec_content(i, h, c, der) { Yes(v, n) => Yes(Val::Some(Box::new(v)), n), r => r },
        Kind::Def(i, _) => dec_content(i, h, c, der),
    }
}
pub fn imp(tag: u32, inner: Kind) -> Kind { Kind::Tagged { class: 2, tag, explicit: false, inner: Box::new(inner) } }
pub fn exp(tag: u32, inner: Kind) -> Kind { Kind::Tagged { class: 2, tag, explicit: true, inner: Box::new(inner) } }
pub fn pdv_alts() -> Kind {
    Kind::Choice(vec![
        imp(0, Kind::Fields { set: false, fields: vec![imp(0, Kind::Oid), imp(1, Kind::Oid)] }),
        imp(1, Kind::Oid), imp(2, Kind::Integer),
        imp(3, Kind::Fields { set: false, fields: vec![imp(0, Kind::Integer), imp(1, Kind::Oid)] }),
        imp(4, Kind::Oid), imp(5, Kind::Null)])
}

// ------------------------------------------------------------------ writing
/// DER, or BER with random choices
pub enum Form<'s> { Der, Ber(&'s mut Src, Ber) }
#[derive(Clone, Copy)]
pub struct Ber { pub long_len: bool, pub indef: bool, pub segment: bool, pub depth: u32 }
impl Ber { pub const ALL: Ber = Ber { long_len: true, indef: true, segment: true, depth: 0 }; }
pub fn tag_octets(class: u8, cons: bool, tag: u32, out: &mut Vec<u8>) {
    let b0 = class << 6 | if cons { 0x20 } else { 0 };
    if tag < 31 { out.push(b0 | tag as u8); return; }
    out.push(b0 | 31);
    let mut sh = 28;
    while sh > 0 && tag >> sh == 0 { sh -= 7; }
    loop { let b = (tag >> sh) as u8 & 0x7f; if sh == 0 { out.push(b); break; } out.push(b | 0x80); sh -= 7; }
}
pub fn len_octets(n: usize, out: &mut Vec<u8>) {
    if n < 0x80 { out.push(n as u8); return; }
    let b = n.to_be_bytes();
    let z = b.iter().take_while(|x| **x == 0).count();
    out.push(0x80 | (8 - z) as u8);
    out.extend_from_slice(&b[z..]);
}
pub fn tlv(class: u8, cons: bool, tag: u32, content: &[u8]) -> Vec<u8> { wrap(class, cons, tag, content, &mut Form::Der) }
pub fn wrap(class: u8, cons: bool, tag: u32, content: &[u8], f: &mut Form) -> Vec<u8> {
    let mut o = Vec::with_capacity(content.len() + 8);
    tag_octets(class, cons, tag, &mut o);
    let mode = match f { Form::Der => 0, Form::Ber(s, b) => {
        let m = s.weighted(&[5, 3, 3]);
        if m == 1 && !b.long_len { 0 } else if m == 2 && !(b.indef && cons) { 0 } else { m } } };
    match (mode, f) {
        (1, Form::Ber(s, _)) => {
            let b = content.len().to_be_bytes();
            let z = b.iter().take_while(|x| **x == 0).count().min(7);
            let extra = s.below(5).min(z);
            let bytes = &b[z - extra..];
            if s.chance(1, 8) { let pad = s.below(20); o.push(0x80 | (bytes.len() + pad) as u8); o.extend(std::iter::repeat(0).take(pad)); o.extend_from_slice(bytes); }
            else { o.push(0x80 | bytes.len() as u8); o.extend_from_slice(bytes); }
            o.extend_from_slice(content);
        }
        (2, _) => { o.push(0x80); o.extend_from_slice(content); o.extend_from_slice(&[0, 0]); }
        _ => { len_octets(content.len(), &mut o); o.extend_from_slice(content); }
    }
    o
}
/// segmented (constructed) contents of a string value
fn segmented(bytes: &[u8], seg_tag: u32, bits_unused: Option<u8>, s: &mut Src, b: Ber, depth: u32) -> Vec<u8> {
    let n = s.upto(3) as usize + usize::from(!bytes.is_empty());
    // only the last segment may have unused bits, so it cannot be empty
    let lim = if bits_unused.map_or(false, |u| u > 0) { bytes.len() } else { bytes.len() + 1 };
    let mut cuts: Vec<usize> = (0..n.saturating_sub(1)).map(|_| s.below(lim)).collect();
    cuts.sort_unstable();
    let mut out = Vec::new();
    let mut st = 0;
    for i in 0..n {
        let en = if i + 1 == n { bytes.len() } else { cuts[i] };
        let part = &bytes[st..en];
        let unused = bits_unused.map(|u| if i + 1 == n { u } else { 0 });
        st = en;
        let nest = depth < 2 && s.chance(1, 5) && !part.is_empty();
        if nest {
            let inner = segmented(part, seg_tag, unused, s, b, depth + 1);
            out.extend(wrap(0, true, seg_tag, &inner, &mut Form::Ber(s, b)));
        } else {
            let mut c = Vec::new();
            if let Some(u) = unused { c.push(if part.is_empty() { 0 } else { u }); }
            c.extend_from_slice(part);
            out.extend(wrap(0, false, seg_tag, &c, &mut Form::Ber(s, b)));
        }
    }
    out
}
/// (constructed, contents) of a value
pub fn enc_content(k: &Kind, v: &Val, f: &mut Form) -> (bool, Vec<u8>) {
    match (k, v) {
        (Kind::Bool, Val::Bool(b)) => (false, vec![if *b { 0xff } else { 0 }]),
        (Kind::Int { .. } | Kind::Integer | Kind::Enumerated | Kind::Enum(_), Val::Int(i)) => (false, int_octets(i)),
        (Kind::Null, _) | (Kind::Eoc, _) => (false, vec![]),
        (Kind::Octets { borrowed }, Val::Bytes(b)) => string(b, 4, None, f, *borrowed),
        (Kind::Bits, Val::Bits(b)) => {
            let mut o = vec![0u8; b.len().div_ceil(8)];
            for (i, x) in b.iter().enumerate() { if *x { o[i / 8] |= 0x80 >> (i % 8); } }
            string(&o, 3, Some(((8 - b.len() % 8) % 8) as u8), f, false)
        }
        (Kind::Oid, Val::Oid(_, c)) => (false, c.clone()),
        (Kind::Str { cs, borrowed, .. }, Val::Str(s)) => string(&octets_of(*cs, s), 4, None, f, *borrowed),
        (Kind::UtcTime, Val::Time(t)) => (false, time_octets(false, t)),
        (Kind::GenTime, Val::Time(t)) => (false, time_octets(true, t)),
        (Kind::Real | Kind::F32, Val::F64(b)) => (false, real_octets(f64::from_bits(*b))),
        (Kind::Any, Val::Any { cons, content, .. }) => (*cons, raw_children(*cons, content, f)),
        (Kind::RawSeq | Kind::RawSet, Val::Bytes(b)) => (true, raw_children(true, b, f)),
        (Kind::SeqOf(i) | Kind::Array(i, _), Val::List(l)) => (true, l.iter().flat_map(|x| enc(i, x, f)).collect()),
        (Kind::SetOf(i, _), Val::Set(l)) => {
            let mut e: Vec<Vec<u8>> = l.iter().map(|x| enc(i, x, f)).collect();
            match f { Form::Der => e.sort(), Form::Ber(s, _) => { for j in (1..e.len()).rev() { let r = s.below(j + 1); e.swap(j, r); } } }
            (true, e.concat())
        }
        (Kind::Fields { fields, .. }, Val::List(l)) => (true, fields.iter().zip(l).flat_map(|(k, x)| enc(k, x, f)).collect()),
        (Kind::Tagged { explicit, inner, .. }, v) => if *explicit { (true, enc(inner, v, f)) } else { enc_content(inner, v, f) },
        (Kind::Pdv, Val::List(l)) => {
            let id = enc(&pdv_alts(), &l[0], f);
            let mut o = wrap(2, true, 0, &id, f);
            o.extend(enc(&Kind::Opt(Box::new(imp(1, Kind::Str { cs: Cs::Ascii, tag: 7, borrowed: false }))), &l[1], f));
            o.extend(enc(&imp(2, Kind::Octets { borrowed: true }), &l[2], f));
            (true, o)
        }
        (Kind::Choice(a), Val::Choice(i, v)) => enc_content(&a[*i], v, f),
        (k, v) => panic!("model: no contents for {k:?} {v:?}"),
    }
}
fn string(b: &[u8], seg_tag: u32, unused: Option<u8>, f: &mut Form, borrowed: bool) -> (bool, Vec<u8>) {
    if let Form::Ber(s, o) = f {
        if o.segment && !borrowed && s.chance(1, 3) {
            let o = *o;
            return (true, segmented(b, seg_tag, unused, s, o, 0));
        }
    }
    let mut c = Vec::with_capacity(b.len() + 1);
    if let Some(u) = unused { c.push(u); }
    c.extend_from_slice(b);
    (false, c)
}
/// re-encode raw constructed contents (length forms only)
fn raw_children(cons: bool, c: &[u8], f: &mut Form) -> Vec<u8> {
    if !cons || matches!(f, Form::Der) { return c.to_vec(); }
    let Ok(ch) = children(c) else { return c.to_vec() };
    let mut o = Vec::new();
    for (h, full, r) in ch {
        let inner = raw_children(h.cons, &full[r], f);
        if h.len.is_none() || !h.min_tag { o.extend_from_slice(full); continue; }
        o.extend(wrap(h.class, h.cons, h.tag, &inner, f));
    }
    o
}
/// normal form of raw contents: definite shortest lengths everywhere a nested TLV structure exists
pub fn norm_raw(cons: bool, c: &[u8]) -> Vec<u8> {
    if !cons { return c.to_vec(); }
    let Ok(ch) = children(c) else { return c.to_vec() };
    ch.into_iter().flat_map(|(h, full, r)| tlv(h.class, h.cons, h.tag, &norm_raw(h.cons, &full[r]))).collect()
}
/// values with raw contents (Any, raw sequences) in normal form
pub fn norm(k: &Kind, v: &Val) -> Val {
    match (k, v) {
        (Kind::Any, Val::Any { class, cons, tag, content }) => Val::Any { class: *class, cons: *cons, tag: *tag, content: norm_raw(*cons, content) },
        (Kind::RawSeq | Kind::RawSet, Val::Bytes(b)) => Val::Bytes(norm_raw(true, b)),
        (Kind::SeqOf(i) | Kind::Array(i, _), Val::List(l)) => Val::List(l.iter().map(|x| norm(i, x)).collect()),
        (Kind::SetOf(i, _), Val::Set(l)) => { let mut l: Vec<Val> = l.iter().map(|x| norm(i, x)).collect(); l.sort(); Val::Set(l) }
        (Kind::Fields { fields, .. }, Val::List(l)) => Val::List(fields.iter().zip(l).map(|(k, x)| norm(k, x)).collect()),
        (Kind::Tagged { inner, .. }, v) => norm(inner, v),
        (Kind::Opt(k), Val::Some(v)) => Val::Some(Box::new(norm(k, v))),
        (Kind::Def(k, _), v) => norm(k, v),
        (Kind::Choice(a), Val::Choice(i, v)) => Val::Choice(*i, Box::new(norm(&a[*i], v))),
        _ => v.clone(),
    }
}
pub fn kind_tag(k: &Kind, v: &Val) -> (u8, u32) {
    match k {
        Kind::Bool => (0, 1), Kind::Int { .. } | Kind::Integer => (0, 2), Kind::Enumerated | Kind::Enum(_) => (0, 10), Kind::Null => (0, 5),
        Kind::Octets { .. } => (0, 4), Kind::Bits => (0, 3), Kind::Oid => (0, if matches!(v, Val::Oid(true, _)) { 13 } else { 6 }),
        Kind::Str { tag, .. } => (0, *tag), Kind::UtcTime => (0, 23), Kind::GenTime => (0, 24), Kind::Real | Kind::F32 => (0, 9),
        Kind::Any => match v { Val::Any { class, tag, .. } => (*class, *tag), _ => (0, 5) },
        Kind::RawSeq | Kind::SeqOf(_) | Kind::Array(..) => (0, 16), Kind::RawSet | Kind::SetOf(..) => (0, 17),
        Kind::Fields { set, .. } => (0, if *set { 17 } else { 16 }),
        Kind::Tagged { class, tag, .. } => (*class, *tag),
        Kind::Opt(k) => match v { Val::Some(v) => kind_tag(k, v), _ => (0, 0) },
        Kind::Def(k, _) => kind_tag(k, v),
        Kind::Choice(a) => match v { Val::Choice(i, v) => kind_tag(&a[*i], v), _ => (0, 0) },
        Kind::Pdv => (0, 11), Kind::Eoc => (0, 0),
    }
}
pub fn enc(k: &Kind, v: &Val, f: &mut Form) -> Vec<u8> {
    match (k, v) {
        (Kind::Opt(_), Val::None) => return vec![],
        (Kind::Opt(i), Val::Some(x)) => return enc(i, x, f),
        (Kind::Def(_, d), v) if **d == *v => return vec![],
        (Kind::Def(i, _), v) => return enc(i, v, f),
        _ => {}
    }
    let (cons, c) = enc_content(k, v, f);
    let (class, tag) = kind_tag(k, v);
    wrap(class, cons, tag, &c, f)
}
pub fn der(k: &Kind, v: &Val) -> Vec<u8> { enc(k, v, &mut Form::Der) }
/// DER binary REAL
pub fn real_octets(f: f64) -> Vec<u8> {
    if f == 0.0 { return vec![]; }
    if f.is_nan() { return vec![0x42]; }
    if f.is_infinite() { return vec![if f > 0.0 { 0x40 } else { 0x41 }]; }
    let b = f.to_bits();
    let (neg, e, m) = (b >> 63 == 1, (b >> 52 & 0x7ff) as i64, b & ((1 << 52) - 1));
    let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    while m & 1 == 0 { m >>= 1; e += 1; }
    let eb = int_octets(&BigInt::from(e));
    let mut o = vec![0x80 | if neg { 0x40 } else { 0 } | (eb.len() as u8 - 1)];
    o.extend(eb);
    let mb = m.to_be_bytes();
    o.extend(mb.iter().skip_while(|x| **x == 0));
    o
}

// ------------------------------------------------------------------ values
pub fn gen_int(s: &mut Src, lo: &BigInt, hi: &BigInt) -> BigInt {
    let span: BigInt = hi - lo;
    let bits = span.bits();
    match s.weighted(&[4, 3, 3, 2]) {
        0 => { let v = BigInt::from(s.range(-130, 300)); if &v < lo { lo.clone() } else if &v > hi { hi.clone() } else { v } }
        1 => { // around powers of two
            let e = s.upto(bits) as u32;
            let mut v = (BigInt::from(1) << e) + s.range(-2, 2);
            if s.bool() { v = -v; }
            if &v < lo { lo.clone() } else if &v > hi { hi.clone() } else { v }
        }
        2 => { let d = BigInt::from(s.upto(3)); if s.bool() { hi - d } else { lo + d } }
        _ => { let n = (bits as usize).div_ceil(8); let n = s.below(n) + 1; let b = s.bytes(n); let v = BigInt::from_signed_bytes_be(&b); if &v < lo { if -&v <= *hi { -v } else { lo.clone() } } else if &v > hi { hi.clone() } else { v } }
    }
}
pub fn gen_char(s: &mut Src, cs: Cs) -> char {
    match cs {
        Cs::Numeric => *s.pick(&['0', '1', '5', '9', ' ', '7']),
        Cs::Printable => *s.pick(&['a', 'Z', '0', ' ', '\'', '(', ')', '+', ',', '-', '.', '/', ':', '=', '?', 'm', 'A', 'z', '9']),
        Cs::Ascii => (s.upto(127) as u8) as char,
        Cs::Visible => (s.range(0x20, 0x7e) as u8) as char,
        Cs::Bmp => { let c = s.weighted(&[4, 2, 2]); match c { 0 => (s.range(0x20, 0x7e) as u8) as char, 1 => *s.pick(&['\u{0}', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{feff}', '\u{fffe}']), _ => char::from_u32(s.upto(0xd7ff) as u32).unwrap_or('a') } }
        Cs::Utf8 | Cs::Universal => { let c = s.weighted(&[4, 2, 2, 1]); match c { 0 => (s.range(0x20, 0x7e) as u8) as char, 1 => *s.pick(&['\u{0}', '\u{7f}', '\u{80}', '\u{ff}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{feff}']), 2 => char::from_u32(s.upto(0xd7ff) as u32).unwrap_or('a'), _ => char::from_u32(0x10000 + s.upto(0xfffff) as u32).unwrap_or('b') } }
    }
}
pub fn gen_text(s: &mut Src, cs: Cs) -> String {
    let n = s.len(400);
    if n > 24 { let c = gen_char(s, cs); let d = gen_char(s, cs); return (0..n).map(|i| if i % 3 == 1 { d } else { c }).collect(); }
    (0..n).map(|_| gen_char(s, cs)).collect()
}
pub fn gen_oid_content(s: &mut Src, relative: bool) -> Vec<u8> {
    let n = if relative { 1 + s.below(6) } else { 1 + s.below(8) };
    let mut o = Vec::new();
    for i in 0..n {
        let v: u128 = match s.weighted(&[5, 3, 2, 1]) { 0 => s.upto(200) as u128, 1 => { let e = s.upto(63); (1u128 << e).saturating_sub(s.upto(1) as u128) } 2 => s.upto(u32::MAX as u64) as u128, _ => s.upto(u64::MAX - 200) as u128 };
        let v = if i == 0 && !relative { v.min(u64::MAX as u128 - 100) } else { v };
        base128(v, &mut o);
    }
    o
}
pub fn base128(v: u128, o: &mut Vec<u8>) {
    let mut t = vec![(v & 0x7f) as u8];
    let mut v = v >> 7;
    while v > 0 { t.push((v & 0x7f) as u8 | 0x80); v >>= 7; }
    t.reverse();
    o.extend(t);
}
pub fn gen_time(s: &mut Src, gen: bool) -> Tm {
    let year = if gen { match s.weighted(&[4, 2, 1]) { 0 => s.range(1950, 2049) as u32, 1 => s.upto(9999) as u32, _ => *s.pick(&[0, 1, 1600, 1900, 1999, 2000, 2100, 9999]) } } else { s.upto(99) as u32 };
    let fy = if gen { year } else if year >= 50 { 1900 + year } else { 2000 + year };
    let mon = 1 + s.upto(11) as u8;
    let dm = days_in(fy, mon);
    let day = if s.chance(1, 3) { dm } else { 1 + s.upto(dm as u64 - 1) as u8 };
    let ms = if gen && s.chance(1, 2) { Some(*s.pick(&[1u16, 9, 10, 50, 99, 100, 120, 500, 999, 123, 7, 990])) } else { None };
    Tm { year, mon, day, h: s.upto(23) as u8, m: s.upto(59) as u8, s: s.upto(59) as u8, ms, tz: Tz::Z }
}
/// a random well-formed element (minimal headers)
pub fn gen_tree(s: &mut Src, depth: u32) -> Vec<u8> {
    let class = *s.pick(&[0u8, 2, 2, 1, 3]);
    let tag = gen_tagnum(s, class);
    let cons = depth > 0 && s.chance(1, 3);
    let c = if cons { let n = s.below(4); (0..n).flat_map(|_| gen_tree(s, depth - 1)).collect() } else { let n = s.upto(8) as usize; s.bytes(n) };
    tlv(class, cons || (class == 0 && (tag == 16 || tag == 17) && false), tag, &c)
}
pub fn gen_tagnum(s: &mut Src, class: u8) -> u32 {
    let t = match s.weighted(&[6, 2, 1]) { 0 => s.upto(30) as u32, 1 => *s.pick(&[31u32, 30, 32, 63, 64, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456]), _ => { if s.bool() { u32::MAX - s.upto(2) as u32 } else { s.upto(u32::MAX as u64) as u32 } } };
    if class == 0 && t == 0 { 4 } else { t }
}
pub fn gen_val(k: &Kind, s: &mut Src) -> Val {
    match k {
        Kind::Bool => Val::Bool(s.bool()),
        Kind::Int { signed, bits } => { let (lo, hi) = int_range(*signed, *bits); Val::Int(gen_int(s, &lo, &hi)) }
        Kind::Integer => { let big: BigInt = BigInt::from(1) << 300u32; Val::Int(gen_int(s, &-big.clone(), &big)) }
        Kind::Enumerated => { let (lo, hi) = int_range(false, 32); Val::Int(gen_int(s, &lo, &hi)) }
        Kind::Enum(a) => Val::Int(BigInt::from(*s.pick(a))),
        Kind::Null | Kind::Eoc => Val::Null,
        Kind::Octets { .. } => { let n = s.len(3000); Val::Bytes(s.bulk(n)) }
        Kind::Bits => { let n = s.len(1100); let b = s.bulk(n.div_ceil(8)); let n = if n > 24 { n - s.upto(9) as usize } else { n }; Val::Bits((0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()) }
        Kind::Oid => { let r = s.chance(1, 4); Val::Oid(r, gen_oid_content(s, r)) }
        Kind::Str { cs, .. } => Val::Str(gen_text(s, *cs)),
        Kind::UtcTime => Val::Time(gen_time(s, false)),
        Kind::GenTime => Val::Time(gen_time(s, true)),
        Kind::Real => { let v = gen_f64(s); f64val(v) }
        Kind::F32 => f64val(gen_f32(s) as f64),
        Kind::Any => { let class = *s.pick(&[0u8, 2, 1, 3]); let tag = gen_tagnum(s, class); let cons = s.chance(2, 5); let content = if cons { let n = s.below(4); (0..n).flat_map(|_| gen_tree(s, 2)).collect() } else { let n = s.len(400); s.bulk(n) }; Val::Any { class, cons, tag, content } }
        Kind::RawSeq | Kind::RawSet => { let n = s.below(5); Val::Bytes((0..n).flat_map(|_| gen_tree(s, 3)).collect()) }
        Kind::SeqOf(i) => { let n = gen_count(s, i); Val::List((0..n).map(|_| gen_val(i, s)).collect()) }
        Kind::Array(i, n) => Val::List((0..*n).map(|_| gen_val(i, s)).collect()),
        Kind::SetOf(i, d) => { let n = gen_count(s, i); let mut v: Vec<Val> = (0..n).map(|_| gen_val(i, s)).collect(); v.sort(); if *d { v.dedup(); } Val::Set(v) }
        Kind::Fields { fields, .. } => Val::List(fields.iter().map(|f| gen_val(f, s)).collect()),
        // an IMPLICIT tag replaces the tag which tells relative from absolute OIDs
        Kind::Tagged { explicit: false, inner, .. } if **inner == Kind::Oid => Val::Oid(false, gen_oid_content(s, false)),
        Kind::Tagged { inner, .. } => gen_val(inner, s),
        Kind::Opt(i) => if s.chance(2, 3) { Val::Some(Box::new(gen_val(i, s))) } else { Val::None },
        Kind::Def(i, d) => if s.chance(2, 3) { gen_val(i, s) } else { (**d).clone() },
        Kind::Choice(a) => { let i = s.below(a.len()); Val::Choice(i, Box::new(gen_val(&a[i], s))) }
        Kind::Pdv => Val::List(vec![gen_val(&pdv_alts(), s), gen_val(&Kind::Opt(Box::new(Kind::Str { cs: Cs::Ascii, tag: 7, borrowed: false })), s), gen_val(&Kind::Octets { borrowed: true }, s)]),
    }
}
fn gen_count(s: &mut Src, i: &Kind) -> usize {
    let heavy = matches!(i, Kind::SeqOf(_) | Kind::SetOf(..) | Kind::Fields { .. } | Kind::Any | Kind::Choice(_));
    match s.weighted(&[6, 3, 1]) { 0 => s.upto(3) as usize, 1 => s.upto(8) as usize, _ => s.upto(if heavy { 8 } else { 60 }) as usize }
}
pub fn gen_f32(s: &mut Src) -> f32 {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => s.range(-1000, 1000) as f32 * 0.25,
        1 => { let m = s.upto(0xff_ffff) as f32; let e = s.range(-100, 100) as i32; (if s.bool() { -m } else { m }) * 2f32.powi(e) }
        2 => *s.pick(&[0.0, 1.0, -1.0, 0.5, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN_POSITIVE, 3.25]),
        _ => { let f = f32::from_bits(s.upto(u32::MAX as u64) as u32); f }
    }
}
pub fn gen_f64(s: &mut Src) -> f64 {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => s.range(-100000, 100000) as f64 * 0.125,
        1 => { let m = s.upto((1 << 53) - 1) as f64; let e = s.range(-200, 200) as i32; (if s.bool() { -m } else { m }) * 2f64.powi(e) }
        2 => *s.pick(&[0.0, 1.0, -1.0, 0.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 3.25, 123456.789, 0.1]),
        _ => f64::from_bits(s.upto(u64::MAX)),
    }
}
/// true if the kind contains a subterm satisfying `p`
pub fn any_kind(k: &Kind, p: &dyn Fn(&Kind) -> bool) -> bool {
    if p(k) { return true; }
    match k {
        Kind::SeqOf(i) | Kind::SetOf(i, _) | Kind::Array(i, _) | Kind::Opt(i) | Kind::Def(i, _) | Kind::Tagged { inner: i, .. } => any_kind(i, p),
        Kind::Fields { fields: f, .. } | Kind::Choice(f) => f.iter().any(|k| any_kind(k, p)),
        _ => false,
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{x:02x}")).collect();
    if b.len() > 200 { s += &format!("..({} bytes, digest {:016x})", b.len(), crate::engine::fnv(b)); }
    s
}
