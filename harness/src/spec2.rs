//! C12 character strings, C13 bit and octet strings, C14 times, C15 reals.
use crate::engine::*;
use crate::gen::*;
use crate::gen::Class as GClass;
use crate::generic::*;
use crate::model::*;
use crate::obs::*;
use crate::spec::*;
use crate::types::*;
use asn1_rs::*;
use bitvec::order::Msb0;
use bitvec::slice::BitSlice;
use bitvec::view::BitView;
use num_bigint::BigInt;
use std::borrow::Cow;
use std::sync::OnceLock;

// ================================================================== C12 character strings
fn strs() -> &'static [&'static Ops] { static F: OnceLock<Vec<&'static Ops>> = OnceLock::new(); family(&F, |o| matches!(leaf(&o.kind), Kind::Str { .. }) && !matches!(o.kind, Kind::SeqOf(_) | Kind::SetOf(..) | Kind::Fields { .. } | Kind::Opt(_))) }
fn leaf(k: &Kind) -> &Kind { match k { Kind::Tagged { inner, .. } | Kind::Opt(inner) => leaf(inner), k => k } }
macro_rules! each_str { ($m:ident) => { $m!(Utf8String, Cs::Utf8, 12, as_raw); $m!(NumericString, Cs::Numeric, 18, as_raw); $m!(PrintableString, Cs::Printable, 19, as_raw); $m!(TeletexString, Cs::Visible, 20, as_raw); $m!(VideotexString, Cs::Visible, 21, as_raw);
    $m!(Ia5String, Cs::Ascii, 22, as_raw); $m!(GraphicString, Cs::Ascii, 25, as_raw); $m!(VisibleString, Cs::Visible, 26, as_raw); $m!(GeneralString, Cs::Ascii, 27, as_raw); $m!(ObjectDescriptor, Cs::Ascii, 7, as_raw); $m!(UniversalString, Cs::Universal, 28, none); $m!(BmpString, Cs::Bmp, 30, none); } }
macro_rules! raw_str { (as_raw, $x:expr, $want:expr) => { $x.as_raw_str() == $want }; (none, $x:expr, $want:expr) => { { let _: Option<&str> = $want; true } } }
/// character set tests against the reference
fn charset(b: &'static [u8]) -> Outcome {
    macro_rules! t { ($t:ident, $cs:expr, $n:literal, as_raw) => {
        ensure!($t::test_valid_charset(b).is_ok() == text_of($cs, b).is_ok(), concat!("charset/", stringify!($t)), "{}: test_valid_charset({}) = {:?}", stringify!($t), hex(b), $t::test_valid_charset(b));
    }; ($t:ident, $cs:expr, $n:literal, none) => {} }
    each_str!(t);
    ensure!(BmpString::test_valid_charset(b).is_ok() == text_of(Cs::Bmp, b).is_ok(), "charset/BmpString", "BmpString: test_valid_charset({}) = {:?}", hex(b), BmpString::test_valid_charset(b));
    Ok(())
}
/// all ways of holding one text in every type whose set contains it
fn text_api(t: &str, ev: &mut u64) -> Outcome {
    let st = keep_str(t);
    macro_rules! t { ($t:ident, $cs:expr, $tag:literal, $raw:ident) => {{
        let oct = octets_of($cs, t);
        if text_of($cs, &oct).as_ref().map(|x| x.as_deref().unwrap_or(t)) == Ok(t) {
            *ev += 8;
            let n = stringify!($t);
            let (a, b, c) = ($t::new(st), $t::from(st), $t::from(t.to_string()));
            for (how, x) in [("new", &a), ("From<&str>", &b), ("From<String>", &c)] {
                ensure!(x.as_ref() == t && x.string() == t, format!("text/{n}"), "{n} {how} of {t:?} holds {:?}", x.as_ref());
                for (m, e) in [("DER", x.to_der_vec()), ("BER", x.to_ber_vec())] { ensure!(e.as_ref().ok() == Some(&tlv(0, false, $tag, &oct)), format!("encode/{n}"), "{n} {t:?} in {m}: {:?}, contents are {}", e.as_ref().map(|v| hex(v)), hex(&oct)); }
            }
            ensure!(a == b && b == c && raw_str!($raw, a, Some(st)) && raw_str!($raw, c, None), format!("eq/{n}"), "{n} {t:?}: the constructors disagree");
            let k = keep(&tlv(0, false, $tag, &oct));
            match ($t::from_der(k), $t::from_ber(k)) { (Ok((r, x)), Ok((r2, y))) => ensure!(r.is_empty() && r2.is_empty() && x.as_ref() == t && y.as_ref() == t && x == a && a == y, format!("back/{n}"), "{n} {t:?} comes back as {:?} / {:?}", x.as_ref(), y.as_ref()), (x, y) => return fail(format!("back/{n}"), format!("{n} {t:?}: own encoding does not decode: {:?} {:?}", x.err().map(nerr), y.err().map(nerr))) }
        }
    }} }
    each_str!(t);
    for e in [t.to_string().to_der_vec(), st.to_der_vec(), t.to_string().to_ber_vec(), st.to_ber_vec()] { ensure!(e.as_ref().ok() == Some(&tlv(0, false, 12, t.as_bytes())), "encode/str", "{t:?} encodes as {e:?}"); }
    Ok(())
}
const TAGS: [(u32, Cs); 12] = [(12, Cs::Utf8), (18, Cs::Numeric), (19, Cs::Printable), (20, Cs::Visible), (21, Cs::Visible), (22, Cs::Ascii), (25, Cs::Ascii), (26, Cs::Visible), (27, Cs::Ascii), (28, Cs::Universal), (30, Cs::Bmp), (7, Cs::Ascii)];
/// segments of `c` as nested OCTET STRINGs
fn segmented(s: &mut Src, c: &[u8], depth: u32, o: &mut Vec<u8>) {
    let n = 1 + s.below(4);
    let mut p = 0;
    for i in 0..n {
        let e = if i + 1 == n { c.len() } else { p + s.below(c.len() - p + 1) };
        let part = &c[p..e]; p = e;
        if depth > 0 && s.chance(1, 4) { let mut x = Vec::new(); segmented(s, part, depth - 1, &mut x); if s.bool() { o.extend([0x24, 0x80]); o.extend(x); o.extend([0, 0]); } else { o.extend(tlv(0, true, 4, &x)); } }
        else { o.extend(tlv(0, false, 4, part)); }
    }
}
pub fn c12(s: &mut Src) -> Outcome {
    match s.weighted(&[6, 3, 2, 2]) {
        0 => fam_case(s, strs()),
        1 => {
            arena_reset();
            let cs = *s.pick(&[Cs::Utf8, Cs::Ascii, Cs::Numeric, Cs::Printable, Cs::Visible, Cs::Bmp, Cs::Universal]);
            let t = gen_text(s, cs);
            s.note(format!("text {t:?}")); s.set_key(t.as_bytes()); s.label("text through every type");
            if !t.is_empty() { s.nontrivial(); }
            checkpoint(s);
            let mut ev = 0; let r = text_api(&t, &mut ev); s.evals += ev; r
        }
        2 => {
            arena_reset();
            let (tag, _) = *s.pick(&TAGS);
            let b = spicy_content(s, tag);
            s.note(format!("charset tests on {}", hex(&b))); s.set_key(&b); s.label("charset tests"); s.nontrivial();
            checkpoint(s); s.evals += 12;
            charset(keep(&b))
        }
        _ => { // segmented text, read through every entry point of its type and as "any string"
            arena_reset();
            let (tag, cs) = *s.pick(&TAGS);
            let t = gen_text(s, cs); let mut c = octets_of(cs, &t);
            if s.chance(1, 5) { c = spicy_content(s, tag); }
            let prim = s.chance(1, 4);
            let b = if prim { tlv(0, false, tag, &c) } else { let mut x = Vec::new(); segmented(s, &c, 3, &mut x); if s.bool() { let mut o = Vec::new(); tag_octets(0, true, tag, &mut o); o.push(0x80); o.extend(x); o.extend([0, 0]); o } else { tlv(0, true, tag, &x) } };
            let i = place(s, GClass::ValidBer, b);
            s.note(format!("string {tag} <- {}", hex(i.elem()))); s.set_key(i.rest()); s.label(if prim { "primitive any-string" } else { "segmented" }); s.nontrivial();
            checkpoint(s);
            for o in strs() { if matches!(&o.kind, Kind::Str { tag: t2, .. } if *t2 == tag) { value_diff(s, o, &i)?; } }
            if tag != 7 {
                let want = text_of(cs, &c);
                match (&want, Any::parse_ber(Input::from(i.rest()))) {
                    (_, Err(e)) => return fail("any-string", format!("{}: {:?}", hex(i.elem()), nerr(e))),
                    (Ok(None), _) => {}
                    (Err(_), Ok((_, a))) => { // what is not even UTF-8, or has the wrong width, cannot be given as text
                        if std::str::from_utf8(&c).is_err() || matches!(cs, Cs::Bmp | Cs::Universal) { ensure!(a.as_any_string().is_err() && (a.as_any_str().is_err()), "any-string", "{}: as_any_string {:?}", hex(i.elem()), a.as_any_string()); } }
                    (Ok(Some(w)), Ok((_, a))) => {
                        s.evals += 2;
                        ensure!(a.as_any_string().as_ref() == Ok(w), "any-string", "{}: as_any_string gives {:?}, the text is {w:?}", hex(i.elem()), a.as_any_string());
                        let r = a.as_any_str();
                        if prim && !matches!(cs, Cs::Bmp | Cs::Universal) { ensure!(r.ok() == Some(&w[..]), "any-str", "{}: as_any_str gives {:?}, the text is {w:?}", hex(i.elem()), a.as_any_str()); }
                        else if let Ok(r) = r { ensure!(r == &w[..], "any-str", "{}: as_any_str gives {r:?}, the text is {w:?}", hex(i.elem())); }
                    }
                }
            }
            Ok(())
        }
    }
}
pub fn c12_fixed(fx: &mut Fixed) {
    let all: Vec<&'static Ops> = strs().iter().copied().filter(|o| matches!(o.kind, Kind::Str { .. })).collect();
    let tag = |o: &Ops| if let Kind::Str { tag, cs, .. } = &o.kind { (*tag, *cs) } else { (0, Cs::Utf8) };
    let mut n = 0u64;
    // every octet alone, first, last and in the middle
    for b in 0..=255u8 {
        if !fx.mine(b as u64) { continue; }
        arena_reset();
        for c in [vec![b], vec![b'0', b], vec![b, b'0'], vec![b'1', b'2', b, b'3']] { let k = keep(&c); fx.go(|| format!("charset {}", hex(&c)), || charset(k)); for o in &all { n += 1; fixed_diff(fx, o, &tlv(0, false, tag(o).0, &c)); } }
    }
    // two-octet contents: all UTF-16 code units, all two-octet UTF-8
    for u in 0..=65535u32 {
        if !fx.mine(u as u64) { continue; }
        if u % 32 == fx.shard as u32 % 32 { arena_reset(); }
        let c = (u as u16).to_be_bytes();
        for o in &all { let (t, cs) = tag(o); if cs == Cs::Bmp || cs == Cs::Utf8 {
            n += 1; fixed_diff(fx, o, &tlv(0, false, t, &c));
            if cs == Cs::Bmp && (u & 0xf800 == 0xd800 || u % 16 == 0) { for p in [[0xd8u8, 0], [0xdc, 0], [0, 0x41]] { n += 2; fixed_diff(fx, o, &tlv(0, false, t, &[p[0], p[1], c[0], c[1]])); fixed_diff(fx, o, &tlv(0, false, t, &[c[0], c[1], p[0], p[1]])); } }
        } if cs == Cs::Universal { // every plane boundary and surrogate
            n += 1; fixed_diff(fx, o, &tlv(0, false, t, &[0, 0, c[0], c[1]])); if fx.tier_thorough || u % 5 == 0 { fixed_diff(fx, o, &tlv(0, false, t, &[0, (u % 18) as u8, c[0], c[1]])); fixed_diff(fx, o, &tlv(0, false, t, &[c[0], c[1], 0, 0x41])); } } }
        if fx.tier_thorough || u % 3 == 0 { if let Some(ch) = char::from_u32(u) { let mut ev = 0; let t = ch.to_string(); fx.go(|| format!("text {t:?}"), || text_api(&t, &mut ev)); } }
        if u < 0x1100 { if let Some(ch) = char::from_u32(u << 8 | 0xfd) { let mut ev = 0; let t = ch.to_string(); fx.go(|| format!("text {t:?}"), || text_api(&t, &mut ev)); } }
    }
    // three- and four-octet UTF-8
    let lead: Vec<u8> = if fx.tier_thorough { (0xc0..=0xff).collect() } else { vec![0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5] };
    for l in lead { for a in 0x70..=0xffu8 { if !fx.mine(a as u64) { continue; } arena_reset(); for b in [0x00u8, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0] { for o in &all { let (t, cs) = tag(o); if cs == Cs::Utf8 { n += 2; fixed_diff(fx, o, &tlv(0, false, t, &[l, a, b])); fixed_diff(fx, o, &tlv(0, false, t, &[l, a, b, 0x80])); } } } } }
    fx.count("contents decoded", n);
    long_diff(fx, strs());
    let mut k = 0u64;
    for n in [129usize, 257, 1025, 4097, 8193, 66000] { for base in ["0 90", "aZ'?", "é", "€", "\u{10348}", "a\u{10348}é€"] {
        k += 1; if !fx.mine(k) { continue; }
        arena_reset();
        let b = base.repeat(n / base.len() + 1).into_bytes(); let l = b.len();
        let mut all = vec![b.clone()];
        for (p, x) in [(l - 1, 0xffu8), (l - 1, 0x00), (l - 1, 0x80), (l - 2, b'*'), (l / 2, 0x81), (l / 2, b'@'), (0, 0x9f)] { let mut c = b.clone(); c[p] = x; all.push(c); }
        for c in all { let c = keep(&c); fx.go(|| format!("charset {}", hex(c)), || charset(c)); if let Ok(t) = std::str::from_utf8(c) { if n < 5000 { let mut ev = 0; fx.go(|| format!("text of {l} octets"), || text_api(t, &mut ev)); } } }
    } }
}

// ================================================================== C13 bit strings, octet strings
fn bits_fam() -> &'static [&'static Ops] { static F: OnceLock<Vec<&'static Ops>> = OnceLock::new(); family(&F, |o| matches!(leaf(&o.kind), Kind::Bits | Kind::Octets { .. }) && !matches!(o.kind, Kind::SeqOf(_) | Kind::SetOf(..) | Kind::Fields { .. } | Kind::Opt(_))) }
fn pack(b: &[bool]) -> (u8, Vec<u8>) { let mut o = vec![0u8; b.len().div_ceil(8)]; for (i, x) in b.iter().enumerate() { if *x { o[i / 8] |= 0x80 >> (i % 8); } } (((8 - b.len() % 8) % 8) as u8, o) }
fn bits_report(how: &str, x: &BitString, b: &[bool]) -> Outcome {
    let (u, packed) = pack(b);
    let show = || format!("{how}: {} bits", b.len());
    ensure!(x.len() == b.len() && x.is_empty() == b.is_empty(), format!("len/{how}"), "{}: reports {} bits", show(), x.len());
    ensure!(x.as_bitslice().len() == b.len() && x.as_bitslice().iter().zip(b).all(|(p, q)| *p == *q), format!("bits/{how}"), "{}: as_bitslice differs from {}", show(), hex(&packed));
    for i in 0..b.len() + 9 { ensure!(x.is_set(i) == (i < b.len() && b[i]), format!("is_set/{how}"), "{}: is_set({i}) = {} in {}", show(), x.is_set(i), hex(&packed)); }
    ensure!(!x.is_set(usize::MAX), format!("is_set/{how}"), "{}", show());
    let raw = x.as_raw_slice();
    let mask = |v: &[u8]| { let mut v = v.to_vec(); if u > 0 { if let Some(l) = v.last_mut() { *l &= 0xff << u; } } v };
    ensure!(raw.len() == packed.len() && mask(raw) == packed && x.as_ref() == raw, format!("raw/{how}"), "{}: as_raw_slice {}, bits are {}", show(), hex(raw), hex(&packed));
    let mut c = vec![u]; c.extend(&packed);
    let want = tlv(0, false, 3, &c);
    for (m, e) in [("DER", x.to_der_vec()), ("BER", x.to_ber_vec())] { ensure!(e.as_ref().ok() == Some(&want), format!("encode/{how}/{m}"), "{}: encodes as {:?}, should be {}", show(), e.as_ref().map(|v| hex(v)), hex(&want)); }
    let _ = format!("{x:?}");
    Ok(())
}
fn bits_case(b: &[bool], junk: u8, off: usize, flips: &[usize], ev: &mut u64) -> Outcome {
    let (u, packed) = pack(b);
    let mut dirty = packed.clone();
    if u > 0 { if let Some(l) = dirty.last_mut() { *l |= junk & ((1 << u) - 1); } }
    // bit slice starting anywhere in its first byte, with other bits around it
    let mut buf = vec![junk; (off + b.len()).div_ceil(8) + 1];
    let sl: &mut BitSlice<u8, Msb0> = buf.view_bits_mut();
    for (i, x) in b.iter().enumerate() { sl.set(off + i, *x); }
    let part = &sl[off..off + b.len()];
    let mut c = vec![u]; c.extend(&dirty);
    let el = keep(&tlv(0, false, 3, &c));
    let cut = if b.len() >= 8 { (flips.first().copied().unwrap_or(0) % (b.len() / 8)) * 8 } else { 0 };
    let (u2, tail) = pack(&b[cut..]);
    let seg = { let mut x = Vec::new(); let mut h = vec![0u8]; h.extend(pack(&b[..cut]).1); let mut t = vec![u2]; t.extend(tail); x.extend(tlv(0, false, 3, &h)); x.extend(tlv(0, false, 3, &t)); let mut o = vec![0x23, 0x80]; o.extend(x); o.extend([0, 0]); o };
    let seg = keep(&seg);
    let dec = |n: &str, k: &'static [u8]| match BitString::from_ber(k) { Ok((r, x)) if r.is_empty() => Ok(x), Ok((r, _)) => fail(format!("decode/{n}"), format!("{}: {} octets left", hex(k), r.len())), Err(e) => fail(format!("decode/{n}"), format!("{}: {:?}", hex(k), nerr(e))) };
    let mut xs = vec![("new", BitString::new(u, &packed)), ("new, other bits set", BitString::new(u, &dirty)), ("From<&BitSlice>", BitString::from(part)), ("decoded", dec("primitive", el)?), ("segmented", dec("segmented", seg)?)];
    let d = xs[0].1.clone(); xs.push(("clone", d));
    for (n, x) in &xs { *ev += 1; bits_report(n, x, b)?; ensure!(*x == xs[0].1 && xs[0].1 == *x, format!("eq/{n}"), "{n}: {} bits {} not equal to the same bits built with new", b.len(), hex(&packed)); }
    // changing bits
    let mut m = b.to_vec();
    for f in flips { if m.is_empty() { break; } let i = f % m.len(); m[i] = !m[i]; for (_, x) in xs.iter_mut() { let v = m[i]; x.as_mut_bitslice().set(i, v); } }
    for (n, x) in &xs { *ev += 1; bits_report(&format!("{n}, bits changed"), x, &m)?; ensure!((*x == BitString::new(u, &packed)) == (m == b), "eq/changed", "{n}: comparison after changing bits {flips:?} of {}", hex(&packed)); }
    Ok(())
}
fn octets_case(b: &[u8], segs: &[u8], ev: &mut u64) -> Outcome {
    let k = keep(b);
    let el = keep(&tlv(0, false, 4, b));
    let x = OctetString::new(k);
    let seg = keep(segs);
    let mut xs = vec![("new", OctetString::new(k)), ("From<&[u8]>", OctetString::from(k))];
    for (n, e) in [("decoded", el), ("segmented", seg)] { match OctetString::from_ber(e) { Ok((r, x)) if r.is_empty() => xs.push((n, x)), r => return fail(format!("octets/{n}"), format!("{} does not decode: {:?}", hex(e), r.map(|x| x.0.len()).map_err(nerr))) } }
    for (n, x) in &xs {
        *ev += 1;
        ensure!(x.as_ref() == b && x.as_cow().as_ref() == b, format!("octets/{n}"), "{n}: {} octets became {}", hex(b), hex(x.as_ref()));
        for e in [x.to_der_vec(), x.to_ber_vec()] { ensure!(e.as_ref().ok() == Some(&el.to_vec()), format!("octets-encode/{n}"), "{n}: {} encodes as {:?}", hex(b), e.as_ref().map(|v| hex(v))); }
        ensure!(*x == xs[0].1, format!("octets-eq/{n}"), "{n}: {}", hex(b));
    }
    for (n, x) in xs { let c = x.into_cow(); ensure!(c.as_ref() == b, format!("octets/{n}"), "{n}: into_cow of {} gives {}", hex(b), hex(&c)); }
    ensure!(k.to_der_vec().ok() == Some(el.to_vec()) && k.to_ber_vec().ok() == Some(el.to_vec()), "octets-encode/slice", "slice {} encodes as {:?}", hex(b), k.to_der_vec());
    let mut o = b.to_vec(); o.push(1); ensure!(OctetString::new(keep(&o)) != x, "octets-eq", "{}", hex(b));
    Ok(())
}
pub fn c13(s: &mut Src) -> Outcome {
    match s.weighted(&[5, 4, 2]) {
        0 => fam_case(s, bits_fam()),
        1 => {
            arena_reset();
            let n = match s.weighted(&[5, 3, 1]) { 0 => s.below(30), 1 => s.below(100), _ => s.below(2200) };
            let by = s.bulk(n.div_ceil(8)); let b: Vec<bool> = (0..n).map(|i| by[i / 8] >> (7 - i % 8) & 1 == 1).collect();
            let junk = s.byte(); let off = s.below(24); let nf = s.below(4); let flips: Vec<usize> = (0..nf).map(|_| s.below(5000)).collect();
            s.note(format!("{n} bits {} junk {junk:02x} offset {off} flips {flips:?}", hex(&by))); s.set_key(&by); s.set_key(&[n as u8, off as u8]); s.label("bits built");
            if n > 0 { s.nontrivial(); }
            checkpoint(s);
            let mut ev = 0; let r = bits_case(&b, junk, off, &flips, &mut ev); s.evals += ev; r
        }
        _ => {
            arena_reset();
            let n = s.len(1500); let b = s.bulk(n);
            let mut x = Vec::new(); segmented(s, &b, 3, &mut x);
            let seg = if s.bool() { tlv(0, true, 4, &x) } else { let mut o = vec![0x24, 0x80]; o.extend(x); o.extend([0, 0]); o };
            s.note(format!("octets {} as {}", hex(&b), hex(&seg))); s.set_key(&seg); s.label("octets"); if n > 0 { s.nontrivial(); }
            checkpoint(s);
            let mut ev = 0; let r = octets_case(&b, &seg, &mut ev); s.evals += ev; r
        }
    }
}
pub fn c13_fixed(fx: &mut Fixed) {
    let fam: Vec<&'static Ops> = bits_fam().iter().copied().filter(|o| o.kind == Kind::Bits).collect();
    let mut n = 0u64;
    for u in 0..=255u8 {
        if !fx.mine(u as u64) { continue; }
        arena_reset();
        for o in &fam { fixed_diff(fx, o, &tlv(0, false, 3, &[u])); fixed_diff(fx, o, &tlv(0, false, 3, &[])); n += 2;
            for b in 0..=255u8 { n += 1; fixed_diff(fx, o, &tlv(0, false, 3, &[u, b])); if u < 10 { for c in 0..=255u8 { if fx.tier_thorough || c & 7 == 0 || c < 8 || b % 16 == 0 { n += 1; fixed_diff(fx, o, &tlv(0, false, 3, &[u, b, c])); } } arena_reset(); } } }
    }
    fx.count("contents decoded", n);
    long_diff(fx, bits_fam());
    // all bit strings of up to 12 (16) bits, at every alignment
    let mut m = 0u64; let mut ev = 0;
    for len in 0..=if fx.tier_thorough { 16usize } else { 11 } { for v in 0..1u32 << len { m += 1; if !fx.mine(m) { continue; } if m % 64 == fx.shard { arena_reset(); } let b: Vec<bool> = (0..len).map(|i| v >> i & 1 == 1).collect(); let off = (v as usize + len) % 9; fx.go(|| format!("{len} bits {v:x} offset {off}"), || bits_case(&b, if v & 1 == 0 { 0xff } else { 0x5a }, off, &[v as usize], &mut ev)); } }
    fx.count("bit strings built", m);
    // lengths next to the powers of two
    let mut l = 0u64;
    let sizes: &[usize] = if fx.tier_thorough { &[31, 32, 127, 128, 129, 255, 256, 4095, 4096, 8190, 8191, 8192, 8193, 8200, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131072, (1 << 20) + 1, (1 << 24) - 1, 1 << 24] } else { &[31, 32, 127, 128, 129, 255, 256, 4096, 8190, 8191, 8192, 8193, 8200, 16384, 32768, 65534, 65535, 65536, 65537] };
    for &n in sizes { for u in [0u8, 1, 7] {
        l += 1; if !fx.mine(l) { continue; } arena_reset();
        let b: Vec<bool> = (0..n * 8 - u as usize).map(|i| (i * 7 + i / 11) % 3 == 0).collect();
        fx.go(|| format!("{n} octets, {u} bits unused"), || if n < 1 << 20 { bits_case(&b, 0xff, n % 9, &[n * 8 - 9, n], &mut ev) } else { let (u, p) = pack(&b); bits_report("long", &BitString::new(u, &p), &b) });
        if u == 0 && n < 1 << 20 { let c: Vec<u8> = (0..n).map(|i| (i * 31 + i / 256) as u8).collect(); let seg = tlv(0, true, 4, &[tlv(0, false, 4, &c[..n / 2]), tlv(0, true, 4, &tlv(0, false, 4, &c[n / 2..]))].concat()); fx.go(|| format!("{n} octets"), || octets_case(&c, &seg, &mut ev)); }
    } }
    arena_reset();
    fx.count("long strings built", l);
    // documented refusal of a number of unused bits that is no such number
    let mut w = 0u64;
    for u in 0..=255u8 { for n in 0..4usize { w += 1; if !fx.mine(w) { continue; } let bytes = vec![0xa5u8; n];
        let ok = u < 8 && u as usize <= n * 8;
        fx.go(|| format!("BitString::new({u}, {n} octets)"), || { let r = std::panic::catch_unwind(|| { let b = BitString::new(u, &bytes); b.len() }).ok(); ensure!(r == if ok { Some(n * 8 - u as usize) } else { None }, "new/refusal", "BitString::new({u}, {n} octets): {r:?} bits (None: refused)"); Ok(()) });
    } }
    fx.count("unused bit counts", w);
}

// ================================================================== C14 times
fn times() -> &'static [&'static Ops] { static F: OnceLock<Vec<&'static Ops>> = OnceLock::new(); family(&F, |o| matches!(leaf(&o.kind), Kind::UtcTime | Kind::GenTime) && !matches!(o.kind, Kind::SeqOf(_) | Kind::SetOf(..) | Kind::Fields { .. } | Kind::Opt(_))) }
/// days since 1970-01-01 in the proleptic Gregorian calendar
fn days(y: i64, m: i64, d: i64) -> i64 {
    let mut n = 0i64;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    // whole years before y, from year 0
    let cnt = |y: i64| if y <= 0 { 0 } else { 365 * y + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 + 1 };
    n += cnt(y) - cnt(1970);
    for k in 1..m { n += days_in(y as u32, k as u8) as i64; }
    let _ = leap;
    n + d - 1
}
/// seconds since the epoch, the year being taken as it is
fn instant(t: &Tm, year: i64) -> i64 {
    let off = match t.tz { Tz::Off(h, m) => { let (h, m) = (h as i64, m as i64); h * 3600 + if h < 0 { -m.abs() * 60 } else { m * 60 } } _ => 0 };
    days(year, t.mon as i64, t.day as i64) * 86400 + t.h as i64 * 3600 + t.m as i64 * 60 + t.s as i64 - off
}
fn full_year(gen: bool, y: u32) -> i64 { if gen { y as i64 } else if y >= 50 { 1900 + y as i64 } else { 2000 + y as i64 } }
fn valid(gen: bool, t: &Tm) -> bool {
    let (oh, om) = if let Tz::Off(h, m) = t.tz { (h.unsigned_abs(), m.unsigned_abs()) } else { (0, 0) };
    t.year <= if gen { 9999 } else { 99 } && t.mon >= 1 && t.mon <= 12 && t.day >= 1 && t.day <= days_in(full_year(gen, t.year) as u32, t.mon) && t.h < 24 && t.m < 60 && t.s < 60 && t.ms.unwrap_or(0) < 1000 && oh < 24 && om < 60
}
/// a time built with fields out of range: it has no calendar instant and no encoding
fn time_invalid(gen: bool, t: &Tm) -> Outcome {
    let dt = dt_of(t);
    let show = format!("{} {t:?}", if gen { "GeneralizedTime" } else { "UTCTime" });
    // the year is that of an adjusted UTCTime for 29 February; larger years are calendar years all the same
    #[cfg(feature = "base")]
    {
        let y = if gen { t.year as i64 } else { full_year(gen, t.year) };
        let fields = t.mon < 1 || t.mon > 12 || t.day < 1 || t.day > days_in(y as u32, t.mon) || t.h > 23 || t.m > 59 || t.s > 59 || t.ms.unwrap_or(0) > 999;
        if fields {
            if gen { if let Ok(d) = GeneralizedTime::new(dt.clone()).utc_datetime() { return fail("invalid/utc_datetime", format!("{show}: utc_datetime gives {d}")); } }
            else {
                if let Ok(d) = UtcTime::new(dt.clone()).utc_adjusted_datetime() { return fail("invalid/utc_adjusted_datetime", format!("{show}: utc_adjusted_datetime gives {d}")); }
                if let Ok(d) = UtcTime::new(dt.clone()).timestamp() { return fail("invalid/timestamp", format!("{show}: timestamp gives {d}")); }
            }
        } else { let _ = dt.to_datetime(); if !gen { let _ = (UtcTime::new(dt.clone()).utc_adjusted_datetime().is_ok(), UtcTime::new(dt.clone()).timestamp().is_ok()); } }
    }
    let (d, b) = if gen { let x = GeneralizedTime::new(dt.clone()); (x.to_der_vec(), x.to_ber_vec()) } else { let x = UtcTime::new(dt.clone()); (x.to_der_vec(), x.to_ber_vec()) };
    for (m, e) in [("DER", d), ("BER", b)] { if let Ok(v) = e { return fail(format!("invalid/encode/{}", if gen { "GeneralizedTime" } else { "UtcTime" }), format!("{show} encodes in {m} as {:?}", String::from_utf8_lossy(v.get(2..).unwrap_or(&[])))); } }
    let _ = format!("{dt}");
    Ok(())
}
/// a valid time held by the library: calendar conversions and encodings
fn time_api(gen: bool, t: &Tm, ev: &mut u64) -> Outcome {
    let dt = dt_of(t);
    *ev += 4;
    let show = format!("{} {t:?}", if gen { "GeneralizedTime" } else { "UTCTime" });
    let n = if gen { "GeneralizedTime" } else { "UtcTime" };
    let ms = t.ms.unwrap_or(0) as i64;
    // printed form: date, time, fraction without trailing zeroes, zone
    {
        let frac = if gen && ms > 0 { format!(".{}", format!("{ms:03}").trim_end_matches('0')) } else { String::new() };
        let zone = match t.tz { Tz::Z => "Z".to_string(), Tz::Undef => if gen { String::new() } else { "Z".into() }, Tz::Off(h, m) => format!("{}{:02}{:02}", if h < 0 || m < 0 { '-' } else { '+' }, h.unsigned_abs(), m.unsigned_abs()) };
        let want = format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}{frac}{zone}", t.year, t.mon, t.day, t.h, t.m, t.s);
        let got = if gen { GeneralizedTime::new(dt.clone()).to_string() } else { UtcTime::new(dt.clone()).to_string() };
        ensure!(got == want, format!("display/{n}"), "{show} prints as {got}, its fields are {want}");
    }
    #[cfg(feature = "base")]
    {
        let offs = match t.tz { Tz::Off(h, m) => { let (h, m) = (h as i32, m as i32); h * 3600 + if h < 0 { -m.abs() * 60 } else { m * 60 } } _ => 0 };
        macro_rules! cal { ($r:expr, $year:expr, $what:literal) => { match $r {
            Ok(d) => ensure!(d.unix_timestamp() == instant(t, $year) && d.year() as i64 == $year && u8::from(d.month()) == t.mon && d.day() == t.day && d.hour() == t.h && d.minute() == t.m && d.second() == t.s && d.millisecond() as i64 == ms && d.nanosecond() as i64 == ms * 1_000_000 && d.offset().whole_seconds() == offs,
                concat!("calendar/", $what), "{show}: {} gives {d}, instant {}", $what, instant(t, $year)),
            Err(e) => return fail(concat!("calendar/", $what), format!("{show}: {} fails: {e:?}", $what)),
        } } }
        cal!(dt.to_datetime(), t.year as i64, "to_datetime");
        if gen { cal!(GeneralizedTime::new(dt.clone()).utc_datetime(), t.year as i64, "utc_datetime"); }
        else {
            // 29 February of a year that is not a leap year when read as 0..99 cannot be given unadjusted
            cal!(UtcTime::new(dt.clone()).utc_datetime(), t.year as i64, "utc_datetime");
            cal!(UtcTime::new(dt.clone()).utc_adjusted_datetime(), full_year(gen, t.year), "utc_adjusted_datetime");
            let ts = UtcTime::new(dt.clone()).timestamp();
            ensure!(ts.as_ref().ok() == Some(&instant(t, full_year(gen, t.year))), "calendar/timestamp", "{show}: timestamp {ts:?}, instant {}", instant(t, full_year(gen, t.year)));
        }
    }
    // encoding: same instant, DER form
    let y = full_year(gen, t.year);
    let (lo, hi) = if gen { (0, 9999) } else { (1950, 2049) };
    let i = instant(t, y);
    let fits = i >= days(lo, 1, 1) * 86400 && i < days(hi, 12, 31) * 86400 + 86400;
    let (d, b) = if gen { let x = GeneralizedTime::new(dt.clone()); (x.to_der_vec(), x.to_ber_vec()) } else { let x = UtcTime::new(dt.clone()); (x.to_der_vec(), x.to_ber_vec()) };
    for (m, e) in [("DER", d), ("BER", b)] {
        match e {
            Err(e) => ensure!(!fits, format!("encode/{n}"), "{show}: {m} encoding fails: {e:?}"),
            Ok(v) => {
                ensure!(fits, format!("encode-out-of-range/{n}"), "{show}: the instant has no {n} in UTC, encoded as {}", String::from_utf8_lossy(&v[2..]));
                let c = v.get(2..).unwrap_or(&[]);
                // local time without zone has no well-defined UTC form: the fields must be kept
                match parse_time(gen, c, true) {
                    R::Yes(Val::Time(t2), _) => {
                        ensure!(v[0] == if gen { 24 } else { 23 } && v[1] as usize == c.len(), format!("encode/{n}"), "{show}: {}", hex(&v));
                        ensure!(instant(&t2, full_year(gen, t2.year)) == i && t2.ms.unwrap_or(0) as i64 == if gen { ms } else { 0 } && t2.tz == Tz::Z, format!("encode/{n}"), "{show} encodes in {m} as {}, another instant", String::from_utf8_lossy(c));
                    }
                    r => return fail(format!("encode/{n}"), format!("{show} encodes in {m} as {:?}, not a valid DER time ({r:?})", String::from_utf8_lossy(c))),
                }
            }
        }
    }
    Ok(())
}
fn time_text(gen: bool, c: &'static [u8]) -> Outcome {
    let want = parse_time(gen, c, false);
    let got = if gen { GeneralizedTime::from_bytes(c).map(|x| tm_of(&x.0)) } else { UtcTime::from_bytes(c).map(|x| tm_of(&x.0)) };
    let n = if gen { "GeneralizedTime" } else { "UtcTime" };
    match (&want, &got) {
        (R::Unk, _) | (R::No, Err(_)) => {}
        (R::Yes(Val::Time(t), _), Ok(g)) if t == g => {}
        _ => return fail(format!("from_bytes/{n}"), format!("{n}::from_bytes({:?}) gives {got:?}, the text denotes {want:?}", String::from_utf8_lossy(c))),
    }
    if let Ok(t) = got { if valid(gen, &t) { let mut e = 0; time_api(gen, &t, &mut e)?; } else { return fail(format!("from_bytes/{n}"), format!("{n}::from_bytes({:?}) gives the invalid time {t:?}", String::from_utf8_lossy(c))); } }
    Ok(())
}
pub fn c14(s: &mut Src) -> Outcome {
    match s.weighted(&[4, 3, 3]) {
        0 => fam_case(s, times()),
        1 => {
            arena_reset();
            let gen = s.bool(); let c = gen_time_content(s, gen);
            s.note(format!("{} text {:?}", if gen { "GeneralizedTime" } else { "UTCTime" }, String::from_utf8_lossy(&c))); s.set_key(&c); s.set_key(&[gen as u8]); s.label("text");
            if parse_time(gen, &c, false) != R::Unk { s.nontrivial(); }
            let k = keep(&c); checkpoint(s); s.evals += 1;
            time_text(gen, k)
        }
        _ => {
            arena_reset();
            let gen = s.bool(); let mut t = gen_time(s, gen);
            if s.chance(1, 3) { t.mon = *s.pick(&[1u8, 12, 2, 3]); t.day = match t.mon { 1 | 3 => 1, 12 => 31, _ => days_in(full_year(gen, t.year) as u32, 2) }; t.h = *s.pick(&[0u8, 23, 12]); if s.bool() { t.year = if gen { *s.pick(&[0u32, 9999, 1, 2000, 1900, 2100, 1999]) } else { *s.pick(&[0u32, 99, 49, 50, 48, 51, 1]) }; if t.mon == 2 { t.day = days_in(full_year(gen, t.year) as u32, 2); } } }
            t.tz = match s.weighted(&[2, 5, 1]) { 0 => Tz::Z, 1 => { let h = s.range(-23, 23) as i8; let m = *s.pick(&[0i8, 30, 59, 1, 45]); Tz::Off(h, if h == 0 && s.bool() { -m } else { m }) } _ => Tz::Undef };
            if s.chance(1, 6) {
                match s.below(8) { 0 => t.year = if gen { *s.pick(&[10000u32, 10001, 12024, 99999, u32::MAX]) } else { *s.pick(&[100u32, 101, 1950, 2024, 10000, u32::MAX]) }, 1 => t.mon = *s.pick(&[0u8, 13, 14, 255]), 2 => t.day = *s.pick(&[0u8, 31, 32, 255]), 3 => t.day = days_in(full_year(gen, t.year) as u32, t.mon) + 1, 4 => t.h = *s.pick(&[24u8, 25, 255]), 5 => t.m = *s.pick(&[60u8, 61, 255]), 6 => t.s = *s.pick(&[60u8, 61, 255]), _ => { if s.bool() { t.ms = Some(*s.pick(&[1000u16, 1001, 9999, 65535])) } else { t.tz = *s.pick(&[Tz::Off(24, 0), Tz::Off(-24, 0), Tz::Off(127, 0), Tz::Off(-128, -128), Tz::Off(23, 60)]) } } }
            }
            if !valid(gen, &t) {
                s.note(format!("{} {t:?}", if gen { "GeneralizedTime" } else { "UTCTime" })); s.set_key(s.desc.clone().as_bytes()); s.label("no such time"); s.nontrivial();
                checkpoint(s); s.evals += 4;
                return time_invalid(gen, &t);
            }
            s.note(format!("{} {t:?}", if gen { "GeneralizedTime" } else { "UTCTime" })); s.set_key(s.desc.clone().as_bytes()); s.label("calendar"); s.nontrivial();
            checkpoint(s);
            let mut ev = 0; let r = time_api(gen, &t, &mut ev); s.evals += ev; r
        }
    }
}
pub fn c14_fixed(fx: &mut Fixed) {
    let mut n = 0u64;
    let mut go = |fx: &mut Fixed, gen: bool, c: &[u8], entries: bool| { n += 1; if !fx.mine(n) { return; } let k = keep(c); fx.go(|| format!("{} {:?}", if gen { "GeneralizedTime" } else { "UTCTime" }, String::from_utf8_lossy(c)), || time_text(gen, k)); if entries { for o in times() { if o.kind == if gen { Kind::GenTime } else { Kind::UtcTime } { fixed_diff(fx, o, &tlv(0, false, if gen { 24 } else { 23 }, c)); } } } if n % 256 < 8 { arena_reset(); } };
    let ys: Vec<u32> = if fx.tier_thorough { (0..=9999).collect() } else { vec![0, 1, 3, 4, 49, 50, 99, 100, 400, 1582, 1600, 1700, 1899, 1900, 1949, 1950, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2049, 2050, 2096, 2100, 2400, 9996, 9999] };
    for gen in [false, true] {
        for y in ys.iter().copied().chain(if gen { 0..0 } else { 0..100 }) { if !gen && y > 99 { continue; } let y = if gen { format!("{y:04}") } else { format!("{y:02}") };
            for m in 0..=13 { for d in 0..=32 { if fx.tier_thorough && gen && y.len() == 4 && d > 1 && d < 28 { continue; } go(fx, gen, format!("{y}{m:02}{d:02}235959Z").as_bytes(), m <= 2); if d == 1 || d >= 28 { go(fx, gen, format!("{y}{m:02}{d:02}003000+0100").as_bytes(), false); go(fx, gen, format!("{y}{m:02}{d:02}233000-0031").as_bytes(), false); } } } }
        let y = if gen { "2024" } else { "24" };
        for h in 0..=25 { for m in 0..=61 { go(fx, gen, format!("{y}0229{h:02}{m:02}00Z").as_bytes(), true); go(fx, gen, format!("{y}0229{h:02}{m:02}Z").as_bytes(), true); } }
        for m in 0..=61 { for s in 0..=99 { go(fx, gen, format!("{y}060712{m:02}{s:02}Z").as_bytes(), s > 57); } }
        for sg in ['+', '-'] { for h in 0..=25 { for m in 0..=99 { go(fx, gen, format!("{y}0301003000{sg}{h:02}{m:02}").as_bytes(), m % 30 < 2); go(fx, gen, format!("{y}12312330{sg}{h:02}{m:02}").as_bytes(), m % 30 < 2); } } }
        // every digit string as fraction, with every kind of zone
        for w in 0..=4usize { for v in 0..10u32.pow(w as u32) { let f = if w == 0 { String::new() } else { format!("{v:0w$}") }; for z in ["Z", "", "+0130"] { go(fx, gen, format!("{y}0101000000.{f}{z}").as_bytes(), w < 4); } go(fx, gen, format!("{y}0101000000,{f}Z").as_bytes(), w < 3); } }
        // one octet replaced, removed or inserted
        for base in [format!("{y}0714123456Z"), format!("{y}0714123456-0330"), format!("{y}07141234Z"), format!("{y}0714123456.789Z"), format!("{y}0714123456")] { let base = base.into_bytes(); for i in 0..=base.len() { let mut c = base.clone(); c.truncate(i); go(fx, gen, &c, true); for b in 0..=255u8 { let mut c = base.clone(); c.insert(i, b); go(fx, gen, &c, true); if i < base.len() { let mut c = base.clone(); c[i] = b; go(fx, gen, &c, true); } } if i < base.len() { let mut c = base.clone(); c.remove(i); go(fx, gen, &c, true); } } }
    }
    fx.count("time texts", n);
}

// ================================================================== C15 reals
fn reals() -> &'static [&'static Ops] { static F: OnceLock<Vec<&'static Ops>> = OnceLock::new(); family(&F, |o| matches!(leaf(&o.kind), Kind::Real | Kind::F32) && !matches!(o.kind, Kind::SeqOf(_) | Kind::SetOf(..) | Kind::Fields { .. } | Kind::Opt(_))) }
fn same(a: f64, b: f64) -> bool { (a.is_nan() && b.is_nan()) || a == b }
/// finite f = m * 2^e with m odd (or 0)
fn split(f: f64) -> (i64, i64) { if f == 0.0 { return (0, 0); } let b = f.to_bits(); let (e, m) = ((b >> 52 & 0x7ff) as i64, (b & ((1 << 52) - 1)) as i64); let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) }; let z = m.trailing_zeros(); ((m >> z) * if b >> 63 == 1 { -1 } else { 1 }, e + z as i64) }
/// number denoted by binary REAL contents, as m * 2^e with m odd
fn binary_value(c: &[u8]) -> Option<(BigInt, BigInt)> {
    let f = *c.first()?;
    if f & 0x80 == 0 { return None; }
    let (el, st) = match f & 3 { 3 => (*c.get(1)? as usize, 2), n => (n as usize + 1, 1) };
    if el == 0 { return None; }
    let e = BigInt::from_signed_bytes_be(c.get(st..st + el)?) * match f >> 4 & 3 { 0 => 1, 1 => 3, 2 => 4, _ => return None } + (f >> 2 & 3);
    let m = BigInt::from_bytes_be(num_bigint::Sign::Plus, c.get(st + el..)?);
    if m == BigInt::from(0) { return Some((m, BigInt::from(0))); }
    let z = m.trailing_zeros()?;
    let m = m >> z;
    Some((if f & 0x40 != 0 { -m } else { m }, e + z))
}
fn real_value(f: f64, ev: &mut u64) -> Outcome {
    *ev += 6;
    let r = Real::new(f);
    ensure!(same(r.f64(), f) && same(f64::from(Real::from(f)), f), "new", "Real::new({f:e}).f64() = {:e}", r.f64());
    ensure!(same(r.f32() as f64, f as f32 as f64), "new/f32", "Real::new({f:e}).f32() = {:e}", r.f32());
    ensure!(r.is_infinite() == f.is_infinite() && (r.is_finite() == f.is_finite()), "predicates", "Real::new({f:e}) is_finite {} is_infinite {}", r.is_finite(), r.is_infinite());
    let g = f as f32;
    ensure!(same(Real::from(g).f64(), g as f64) && same(f32::from(Real::from(g)) as f64, g as f64), "from/f32", "Real::from({g:e}) = {:e}", Real::from(g).f64());
    for (n, want, e) in [("Real DER", f, Real::new(f).to_der_vec()), ("Real BER", f, Real::new(f).to_ber_vec()), ("f64 DER", f, f.to_der_vec()), ("f64 BER", f, f.to_ber_vec()), ("f32 DER", g as f64, g.to_der_vec()), ("f32 BER", g as f64, g.to_ber_vec())] {
        let v = match e { Ok(v) => v, Err(e) => return fail(format!("encode/{n}"), format!("{want:e} as {n}: {e:?}")) };
        let k = keep(&v);
        let c = k.get(2..).unwrap_or(&[]);
        ensure!(v.len() >= 2 && v[0] == 9 && v[1] as usize == c.len(), format!("encode/{n}"), "{want:e} as {n}: {}", hex(&v));
        if want != 0.0 && want.is_finite() && want.abs() > 1e-300 || !want.is_finite() || want == 0.0 {
            match dec_real(c, false) { R::Yes(Val::F64(b), _) => ensure!(same(f64::from_bits(b), want), format!("encode/{n}"), "{want:e} as {n}: contents {} denote {:e}", hex(c), f64::from_bits(b)), R::Unk => {} r => return fail(format!("encode/{n}"), format!("{want:e} as {n}: contents {} are malformed ({r:?})", hex(c))) }
        }
        macro_rules! back { ($t:ty, $conv:expr, $from:ident) => { match <$t>::$from(k) { Ok((r, x)) => { let y: f64 = $conv(x); ensure!(r.is_empty() && same(y, want), format!("back/{n}"), "{want:e} as {n} ({}) decodes as {} {y:e}", hex(c), stringify!($t)) } Err(e) => return fail(format!("back/{n}"), format!("{want:e} as {n} ({}) does not decode as {}: {:?}", hex(c), stringify!($t), nerr(e))) } } }
        back!(Real, |x: Real| x.f64(), from_ber); back!(Real, |x: Real| x.f64(), from_der); back!(f64, |x| x, from_ber); back!(f64, |x| x, from_der);
        if (want as f32) as f64 == want || want.is_nan() { back!(f32, |x| x as f64, from_ber); back!(f32, |x| x as f64, from_der); }
    }
    Ok(())
}
/// Real::binary with any mantissa, exponent and encoding base
fn real_binary(m: f64, e: i32, base: u8, ev: &mut u64) -> Outcome {
    *ev += 2;
    let (mi, me) = split(m);
    let r = Real::binary(m, 2, e).with_enc_base(base);
    let want = { let v = round_pow2(mi.unsigned_abs(), me + e as i64); if mi < 0 { -v } else { v } };
    let show = format!("Real::binary({m:e}, 2, {e}) in base {base}");
    ensure!(same(r.f64(), want), "binary/f64", "{show}: f64() = {:e}, the number is {want:e}", r.f64());
    let (want_m, want_e) = (BigInt::from(mi), if mi == 0 { BigInt::from(0) } else { BigInt::from(me + e as i64) });
    for (n, enc) in [("DER", r.to_der_vec()), ("BER", r.to_ber_vec())] {
        let v = match enc { Ok(v) => v, Err(x) => return fail("binary/encode", format!("{show}: {n}: {x:?}")) };
        let k = keep(&v); let c = k.get(2..).unwrap_or(&[]);
        let got = if c.is_empty() { Some((BigInt::from(0), BigInt::from(0))) } else { binary_value(c) };
        ensure!(v[0] == 9 && v[1] as usize == c.len() && got == Some((want_m.clone(), want_e.clone())), "binary/encode", "{show}: {n} contents {} denote {got:?}, the number is {want_m} * 2^{want_e}", hex(c));
        // the decoder keeps the exponent in 32 bits
        let l = match base { 8 => 3, 16 => 4, _ => 1 };
        if mi != 0 && i32::try_from((me + e as i64).div_euclid(l) * l).is_err() { continue; }
        match Real::from_ber(k) {
            Ok((rest, Real::Binary { mantissa, base: 2, exponent, .. })) => { let (x, y) = split(mantissa); ensure!(rest.is_empty() && BigInt::from(x) == want_m && BigInt::from(y + exponent as i64) == want_e, "binary/back", "{show}: {} decodes as {mantissa:e} * 2^{exponent}", hex(c)) }
            Ok((_, Real::Zero)) => ensure!(mi == 0, "binary/back", "{show}: {} decodes as zero", hex(c)),
            Ok((_, x)) => return fail("binary/back", format!("{show}: {} decodes as {x:?}", hex(c))),
            Err(x) => return fail("binary/back", format!("{show}: {} does not decode: {:?}", hex(c), nerr(x))),
        }
    }
    Ok(())
}
/// a base 10 REAL with any finite mantissa, whole or not
fn real_decimal(m: f64, e: i32, ev: &mut u64) -> Outcome {
    *ev += 2;
    let r = Real::Binary { mantissa: m, base: 10, exponent: e, enc_base: 10 };
    let want: f64 = format!("{m}e{e}").parse().unwrap_or(f64::NAN);
    ensure!(same(r.f64(), want), "decimal/f64", "{m} * 10^{e}: f64() = {:e}", r.f64());
    for (n, enc) in [("DER", r.to_der_vec()), ("BER", r.to_ber_vec())] {
        let v = match enc { Ok(v) => v, Err(x) => return fail("decimal/encode", format!("{m} * 10^{e} {n}: {x:?}")) };
        let k = keep(&v); let h = match v.get(1) { Some(&l) if l > 0x80 => 2 + (l & 0x7f) as usize, _ => 2 }; let c = k.get(h..).unwrap_or(&[]);
        let txt = std::str::from_utf8(c.get(1..).unwrap_or(&[])).unwrap_or("");
        ensure!(c.is_empty() && m == 0.0 || (c.first() == Some(&3) && same(txt.parse().unwrap_or(f64::NAN), want)), "decimal/encode", "{m} * 10^{e} {n}: contents {txt:?}");
        match Real::from_ber(k) { Ok((_, x)) => ensure!(same(x.f64(), want), "decimal/back", "{m} * 10^{e}: {txt:?} decodes as {:e}", x.f64()), Err(x) => return fail("decimal/back", format!("{m} * 10^{e}: {txt:?}: {:?}", nerr(x))) }
    }
    Ok(())
}
pub fn c15(s: &mut Src) -> Outcome {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => fam_case(s, reals()),
        1 => { arena_reset(); let f = gen_f64(s); let f = if s.chance(1, 4) { gen_f32(s) as f64 } else { f }; s.note(format!("value {f:e}")); s.set_key(&f.to_be_bytes()); s.label("value"); if f != 0.0 { s.nontrivial(); } checkpoint(s); let mut ev = 0; let r = real_value(f, &mut ev); s.evals += ev; r }
        2 => { arena_reset(); let m = loop_finite(s); let e = match s.weighted(&[4, 3, 1, 4]) { 0 => s.range(-200, 200), 1 => s.range(-70000, 70000), 2 => s.range(-(1 << 29), 1 << 29), _ => *s.pick(&[1022i64, 1023, 1024, 1025, 2046, 2047, 2048, 2098, 3069, 3070, -1021, -1022, -1023, -1024, -969, -970, -1074, -1075, -1990, -1991, -1992, -2045, -2046, -2047, -2098, -2960]) + if s.chance(1, 3) { s.range(-3, 3) } else { 0 } } as i32;
            // a mantissa that brings the number back among the doubles
            let m = if e.abs() > 900 && e.abs() < 3100 && s.chance(3, 4) { let t = s.range(-1080, 1023) - e as i64; let (fr, t) = (s.upto((1 << 52) - 1), t.clamp(-1074, 1023)); let x = if t < -1022 { f64::from_bits((fr | 1) >> (-1022 - t)) } else { f64::from_bits(((t + 1023) as u64) << 52 | match s.below(3) { 0 => 0, 1 => fr, _ => fr << 45 & ((1 << 52) - 1) }) }; if s.bool() { -x } else { x } } else { m }; let b = *s.pick(&[2u8, 8, 16]); s.note(format!("binary {m:e} * 2^{e} base {b}")); s.set_key(s.desc.clone().as_bytes()); s.label("binary"); if m != 0.0 { s.nontrivial(); } checkpoint(s); let mut ev = 0; let r = real_binary(m, e, b, &mut ev); s.evals += ev; r }
        _ => { arena_reset(); let d = s.upto(15) as u32; let m = s.upto(10u64.pow(d)) as i64 as f64 * if s.bool() { -1.0 } else { 1.0 }; let e = s.range(-280, 280) as i32;
            // a mantissa with digits after the mark, of any magnitude
            let (m, e) = match s.below(3) { 0 => { let k = s.range(-30, 30) as i32; (format!("{m}e{k}").parse::<f64>().unwrap_or(m), e) } 1 => { let f = loop_finite(s); if f == 0.0 { (m, e) } else { let k = f.abs().log10() as i32; (f, (s.range(-300, 300) as i32 - k).clamp(-600, 600)) } } _ => (m, e) }; s.note(format!("decimal {m} * 10^{e}")); s.set_key(s.desc.clone().as_bytes()); s.label("decimal"); s.nontrivial(); checkpoint(s); let mut ev = 0; let r = real_decimal(m, e, &mut ev); s.evals += ev; r }
    }
}
fn loop_finite(s: &mut Src) -> f64 { let f = gen_f64(s); if f.is_finite() { f } else { 1.0 } }
pub fn c15_fixed(fx: &mut Fixed) {
    let mut n = 0u64;
    let mut go = |fx: &mut Fixed, c: &[u8]| { n += 1; if !fx.mine(n) { return; } for o in reals() { if matches!(o.kind, Kind::Real | Kind::F32) { fixed_diff(fx, o, &tlv(0, false, 9, c)); } } if n % 128 < 8 { arena_reset(); } };
    for a in 0..=255u8 {
        go(fx, &[a]);
        for b in 0..=255u8 { go(fx, &[a, b]); for m in [0u8, 1, 2, 5, 0xff] { if a & 0x80 != 0 && (m == 5 || fx.tier_thorough || b % 8 == 7) { go(fx, &[a, b, m]); go(fx, &[a, b, m, 0x80]); go(fx, &[a, 1, b, m]); go(fx, &[a, 0xff, b, m]); go(fx, &[a, 2, 0xff, b, m]); } } }
    }
    // every decimal text of up to 3 (4) characters from the alphabet, in every form
    let al = b"019+-.,Ee ";
    for nr in 0..=4u8 { for l in 0..=if fx.tier_thorough { 5u32 } else { 4 } { for v in 0..10usize.pow(l) { let mut c = vec![nr]; let mut v = v; for _ in 0..l { c.push(al[v % 10]); v /= 10; } go(fx, &c); } } }
    for t in ["1E-5", "-12.5E+3", "+0.001E2", "123456789012345678901234567890E-10", "1.", ".5", "-.5E0", "5.E1", "4.9E-324", "1.7976931348623157E308", "0.1E0", "inf", "nan", "NaN", "infinity", "1_0", "0x10", "1E5 ", "1 E5", "1E 5", "--1", "1e5", "١"] { for nr in 1..=3u8 { let mut c = vec![nr]; c.extend(t.bytes()); go(fx, &c); } }
    fx.count("contents decoded", n);
    let mut m = 0u64; let mut ev = 0;
    for x in 0..if fx.tier_thorough { 1 << 20 } else { 1 << 15 } { m += 1; if !fx.mine(m) { continue; } if m % 512 < 8 { arena_reset(); } let f = f32::from_bits((x as u32) << if fx.tier_thorough { 12 } else { 17 }) as f64; fx.go(|| format!("value {f:e}"), || real_value(f, &mut ev)); }
    for e in 0..2047u64 { for fr in [0u64, 1, (1 << 52) - 1, 0x5_5555_5555_5555, 1 << 51] { m += 1; if !fx.mine(m) { continue; } if m % 512 < 8 { arena_reset(); } let f = f64::from_bits(e << 52 | fr | (m & 1) << 63); fx.go(|| format!("value {f:e}"), || real_value(f, &mut ev)); fx.go(|| format!("binary {f:e}"), || { real_binary(f, (e as i32 - 1023) * 3, 2, &mut ev)?; real_binary(f, -(e as i32), 8, &mut ev)?; real_binary(f, e as i32, 16, &mut ev) }); } }
    for e in [0i32, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 8388607, 8388608, -8388608, -8388609, 1 << 29, -(1 << 29), i32::MAX, i32::MIN, i32::MAX - 60, i32::MIN + 60] { for f in [1.0f64, -3.0, 0.75, 1e15, 5e-324, f64::MAX] { for b in [2u8, 8, 16] { m += 1; if fx.mine(m) { fx.go(|| format!("binary {f:e} * 2^{e} base {b}"), || real_binary(f, e, b, &mut ev)); } } } }
    fx.count("values", m);
    let _ = Cow::Borrowed("");
}
