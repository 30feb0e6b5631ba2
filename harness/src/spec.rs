//! Checks specific to one part of the library: dedicated models, dedicated entry points and enumerated parts.
use crate::engine::*;
use crate::gen::*;
use crate::generic::*;
use crate::model::*;
use crate::obs::*;
use crate::types::*;
use asn1_rs::*;
use asn1_rs::Class;
use crate::gen::Class as GClass;
use num_bigint::BigInt;
use std::sync::OnceLock;

// ------------------------------------------------------------------ decoding against the model, for a family of types
pub fn family(cell: &'static OnceLock<Vec<&'static Ops>>, p: fn(&Ops) -> bool) -> &'static [&'static Ops] { cell.get_or_init(|| registry().iter().filter(|o| p(o)).collect()) }
/// the value seen by each entry point is the one the contents denote; BER rules decide what is malformed for both modes
pub fn value_diff(s: &mut Src, o: &Ops, i: &Inp) -> Outcome {
    let opt = Kind::Opt(Box::new(o.kind.clone()));
    let k = |e: &Entry| if e.optional && !is_opt(&o.kind) { &opt } else { &o.kind };
    for e in &o.entries {
        let b = dec(k(e), i.rest(), false);
        if !e.der { against(s, o, e, i, &b)?; continue; }
        let d = dec(k(e), i.rest(), true);
        match (&d, &b) {
            (R::Yes(..), _) | (_, R::No) => against(s, o, e, i, &d)?,
            // valid BER, not valid DER (or undecided): the restriction itself is C07's subject, the value is not
            (_, R::Yes(v, n)) => { s.evals += 1; if let Got::Yes { v: v2, used, .. } = run(o, e, i.buf, i.off) { ensure!(v == &v2 && used == *n, format!("value/{}/{}", o.name, e.name), "{} {}: {} denotes {v:?} ({n} bytes), decoded {v2:?} ({used} bytes)", o.name, e.name, hex(i.rest())); } }
            _ => {}
        }
    }
    Ok(())
}
pub const W_SPEC: [u64; 8] = [3, 3, 7, 2, 2, 1, 0, 0];
pub fn fam_case(s: &mut Src, fam: &[&'static Ops]) -> Outcome {
    arena_reset();
    let o = *s.pick(fam);
    let i = input(s, o, registry(), &W_SPEC);
    s.label(i.class.name());
    s.note(format!("{} <- {}|{}|{} ({})", o.name, hex(&i.buf[..i.off]), hex(i.elem()), hex(&i.buf[i.off + i.elen..]), i.class.name()));
    s.set_key(i.rest()); s.set_key(o.name.as_bytes());
    checkpoint(s);
    if dec(&o.kind, i.rest(), false) != R::Unk { s.nontrivial(); }
    value_diff(s, o, &i)
}
/// every entry point of `o` on one element placed alone
pub fn fixed_diff(fx: &mut Fixed, o: &Ops, el: &[u8]) {
    let buf = keep(el);
    fx.go(|| format!("{} <- {}", o.name, hex(el)), || { let mut s = Src::replay(&[], 1); let i = Inp { class: GClass::Spicy, buf, off: 0, elen: buf.len() }; value_diff(&mut s, o, &i) });
}

/// long contents of every type of a family, whole and with one octet that may not belong there
pub fn long_diff(fx: &mut Fixed, fam: &[&'static Ops]) {
    let sizes: &[usize] = if fx.tier_thorough { &[128, 255, 257, 511, 513, 1023, 1025, 2049, 4095, 4096, 4097, 8193, 16385, 32769, 65535, 65537, 70000] } else { &[130, 513, 1025, 4097, 8193, 66000] };
    let mut k = 0u64;
    for o in fam { for &n in sizes {
        k += 1; if !fx.mine(k) { continue; }
        for v in crate::generic::long_vals(&o.kind, n) {
            arena_reset();
            let d = der(&o.kind, &v);
            fixed_diff(fx, o, &d);
            if d.len() < 100 { continue; }
            for (p, x) in [(d.len() - 1, 0xffu8), (d.len() - 1, 0x00), (d.len() - 3, 0x81), (d.len() / 2, 0xff), (d.len() / 2 + 1, 0x00), (d.len() * 3 / 4, 0x80), (d.len() - 2, 0xdc)] { let mut b = d.clone(); b[p] = x; fixed_diff(fx, o, &b); }
        }
    } }
    arena_reset();
    fx.count("long contents decoded", k);
}
// ================================================================== C03 headers
#[derive(Debug, PartialEq, Clone)]
struct H { class: u8, cons: bool, tag: u32, len: Option<usize> }
fn h_of(h: &Header) -> H { H { class: h.class() as u8, cons: h.constructed(), tag: h.tag().0, len: match h.length() { Length::Definite(n) => Some(n), Length::Indefinite => None } } }
fn at(b: &'static [u8], o: usize) -> Input<'static> { use nom::Input as _; Input::from(b).take_from(o) }
fn tag_len_octets(h: &H) -> (Vec<u8>, Vec<u8>) {
    let mut t = Vec::new();
    tag_octets(h.class, h.cons, h.tag, &mut t);
    let mut l = Vec::new();
    match h.len { Some(n) => len_octets(n, &mut l), None => l.push(0x80) }
    (t, l)
}
pub fn header_decode(s: &mut Src, buf: &'static [u8], off: usize) -> Outcome {
    let b = &buf[off..];
    let m = read_hdr(b);
    let r: [(&str, bool, Result<(Header<'static>, Option<Pos>, usize), ErrObs>); 4] = [
        ("Header::from_ber", false, Header::from_ber(b).map(|(r, h)| (h, None, r.len())).map_err(nerr)),
        ("Header::from_der", true, Header::from_der(b).map(|(r, h)| (h, None, r.len())).map_err(nerr)),
        ("Header::parse_ber", false, Header::parse_ber(at(buf, off)).map(|(r, h)| (h, Some(pos_of(&r)), r.len())).map_err(nerr)),
        ("Header::parse_der", true, Header::parse_der(at(buf, off)).map(|(r, h)| (h, Some(pos_of(&r)), r.len())).map_err(nerr)),
    ];
    for (name, der, g) in &r {
        s.evals += 1;
        let want = match &m { Err(_) => None, Ok(h) if *der && h.len.is_none() => None, Ok(h) => Some(h) };
        match (want, g) {
            (None, Err(_)) => {}
            (None, Ok((h, _, rl))) => return fail(format!("accepts/{name}"), format!("{name} on {}: accepted as {:?} ({} octets), the octets are no valid header", hex(b), h_of(h), b.len() - (*rl).min(b.len()))),
            // over-long tag forms: not required to be accepted
            (Some(w), Err(e)) => ensure!(!w.min_tag, format!("rejects/{name}"), "{name} on {}: rejected ({}), the octets denote {w:?}", hex(b), e.dbg),
            (Some(w), Ok((h, p, rl))) => {
                let wh = H { class: w.class, cons: w.cons, tag: w.tag, len: w.len };
                ensure!(h_of(h) == wh, format!("fields/{name}"), "{name} on {}: {:?}, the octets denote {wh:?}", hex(b), h_of(h));
                ensure!(*rl == b.len() - w.hlen, format!("consumed/{name}"), "{name} on {}: {rl} octets left of {}, header has {}", hex(b), b.len(), w.hlen);
                if let Some(p) = p { ensure!(p.start == off + w.hlen && p.end == buf.len() && p.ptr == buf.as_ptr() as usize + p.start, format!("remaining/{name}"), "{name} on {}: remaining {}..{}", hex(b), p.start, p.end); }
                if let Some(t) = h.raw_tag() { let tl = w.hlen - len_of_len(&b[..w.hlen]); ensure!(t == &b[..tl], format!("raw-tag/{name}"), "{name} on {}: raw tag {}, identifier octets are {}", hex(b), hex(t), hex(&b[..tl])); }
                if let Some(rh) = h.raw_header() { ensure!(rh.as_bytes2() == &b[..w.hlen], format!("raw-header/{name}"), "{name} on {}: raw header {}", hex(b), hex(rh.as_bytes2())); }
                let st = ToStatic::to_static(h);
                ensure!(h_of(&st) == wh && st == *h, format!("owned/{name}"), "{name} on {}: owned copy is {:?}", hex(b), h_of(&st));
                ensure!(h.is_primitive() != w.cons && h.is_constructed() == w.cons && h.is_universal() == (w.class == 0) && h.is_application() == (w.class == 1) && h.is_contextspecific() == (w.class == 2) && h.is_private() == (w.class == 3)
                    && h.assert_primitive().is_ok() != w.cons && h.assert_constructed().is_ok() == w.cons && h.assert_primitive_inner().is_ok() != w.cons && h.assert_constructed_inner().is_ok() == w.cons
                    && h.assert_definite().is_ok() == w.len.is_some() && h.assert_definite_inner().is_ok() == w.len.is_some() && h.length().is_definite() == w.len.is_some() && h.length().is_null() == (w.len == Some(0))
                    && h.length().definite().ok() == w.len && h.length().definite_inner().ok() == w.len && h.length().assert_definite().is_ok() == w.len.is_some() && h.length().assert_definite_inner().is_ok() == w.len.is_some()
                    && h.assert_class(h.class()).is_ok() && h.assert_tag(h.tag()).is_ok() && h.assert_tag(Tag(w.tag ^ 1)).is_err() && h.assert_class(cls(w.class ^ 1)).is_err() && h.tag().assert_eq_inner(h.tag()).is_ok() && h.tag().assert_eq_inner(Tag(w.tag ^ 1)).is_err()
                    && h.assert_primitive_input(&at(buf, off)).is_ok() != w.cons && h.assert_constructed_input(&at(buf, off)).is_ok() == w.cons,
                    "predicates", "{name} on {}: predicates of the header disagree with {wh:?}", hex(b));
            }
        }
    }
    // contents following the header
    if let (Ok(w), Ok((_, h))) = (&m, Header::parse_ber(at(buf, off))) {
        let body = &b[w.hlen..];
        let c = buf.len() - body.len();
        let want = match w.len { Some(n) => if n <= body.len() { Some((n, n)) } else { None }, None => read_tlv(b, 60).ok().map(|(_, r, n)| (r.len(), n - w.hlen)) };
        let dw = if w.len.is_some() { want } else { None };
        let got: [(&str, Option<(usize, usize)>, Result<(Input, Input), ErrObs>); 6] = [
            ("Header::parse_ber_content", want, h.parse_ber_content(at(buf, c)).map_err(nerr)), ("Header::parse_der_content", dw, h.parse_der_content(at(buf, c)).map_err(nerr)),
            ("Any::parse_ber_content", want, Any::parse_ber_content(at(buf, c), &h).map_err(nerr)), ("Any::parse_der_content", dw, Any::parse_der_content(at(buf, c), &h).map_err(nerr)),
            ("ber_get_content", want, ber_get_content(&h, at(buf, c)).map_err(nerr)), ("der_get_content", dw, der_get_content(&h, at(buf, c)).map_err(nerr)),
        ];
        for (name, want, g) in got {
            s.evals += 1;
            match (want, g) {
                (None, Err(_)) => {}
                (Some(_), Err(e)) if w.len.is_none() => { ensure!(!shallow(b) || !w.min_tag, format!("content-rejects/{name}"), "{name} on {}: {}", hex(b), e.dbg); }
                (Some((n, _)), Err(e)) => return fail(format!("content-rejects/{name}"), format!("{name} on {}: {n} octets of contents rejected: {}", hex(b), e.dbg)),
                (None, Ok((_, d))) => return fail(format!("content-accepts/{name}"), format!("{name} on {}: contents {} returned, there are not enough octets", hex(b), hex(d.as_bytes2()))),
                (Some((n, used)), Ok((r, d))) => { ensure!(d.as_bytes2() == &body[..n] && r.len() == body.len() - used && (d.start(), r.start()) == (c, c + used), format!("content/{name}"), "{name} on {}: contents {} ({} left), should be {} ({} left)", hex(b), hex(d.as_bytes2()), r.len(), hex(&body[..n]), body.len() - used); }
            }
        }
    }
    Ok(())
}
/// indefinite nesting shallow enough for the documented limit of `parse_ber_content` (8)
fn shallow(b: &[u8]) -> bool { read_tlv(b, 6).is_ok() }
fn len_of_len(h: &[u8]) -> usize { // h = exactly one header
    let mut p = 1;
    if h[0] & 31 == 31 { while h[p] & 0x80 != 0 { p += 1; } p += 1; }
    h.len() - p
}
pub fn cls(c: u8) -> Class { match c & 3 { 0 => Class::Universal, 1 => Class::Application, 2 => Class::ContextSpecific, _ => Class::Private } }
#[allow(deprecated)]
fn header_encode(h: &H, evals: &mut u64) -> Outcome {
    let (t, l) = tag_len_octets(h);
    let full: Vec<u8> = [&t[..], &l[..]].concat();
    let len = match h.len { Some(n) => Length::Definite(n), None => Length::Indefinite };
    let hd = Header::new(cls(h.class), h.cons, Tag(h.tag), len);
    let built = Header::new_simple(Tag(5)).with_class(cls(h.class)).with_constructed(h.cons).with_tag(Tag(h.tag)).with_length(len);
    ensure!(h_of(&hd) == *h && h_of(&built) == *h, "built-fields", "header built from {h:?} reads as {:?} / {:?}", h_of(&hd), h_of(&built));
    if ![8, 11, 29].contains(&h.tag) {
        let want = H { class: 0, cons: h.tag == 16 || h.tag == 17, tag: h.tag, len: Some(0) };
        for (n, x) in [("new_simple", Header::new_simple(Tag(h.tag))), ("From<Tag>", Header::from(Tag(h.tag)))] { ensure!(h_of(&x) == want && x.raw_tag().is_none() && x.raw_header().is_none(), format!("default-fields/{n}"), "{n} of tag {}: {:?}, should be {want:?}", h.tag, h_of(&x)); }
    }
    // sums of lengths
    if let Some(a) = h.len.filter(|a| *a < 1 << 62) {
        let (b, i) = ((h.tag as usize).wrapping_mul(0x9e37) % (1 << 40), Length::Indefinite);
        let (la, lb, want) = (Length::Definite(a), Length::from(b), Length::Definite(a + b));
        let mut acc = la; acc += lb; let mut acc2 = la; acc2 += b; let mut acc3 = la; acc3 += i; let mut acc4 = i; acc4 += la; let mut acc5 = i; acc5 += b;
        let v = [la, lb, Length::Definite(1)]; let vi = [la, i, lb];
        ensure!(la + lb == want && la + b == want && b + la == want && acc == want && acc2 == want && v.iter().sum::<Length>() == Length::Definite(a + b + 1) && v.into_iter().sum::<Length>() == Length::Definite(a + b + 1)
            && la + i == i && i + la == i && i + b == i && b + i == i && acc3 == i && acc4 == i && acc5 == i && vi.iter().sum::<Length>() == i && vi.into_iter().sum::<Length>() == i, "length-sum", "sums of lengths {a}, {b}: {:?} {:?} {:?} {acc:?} {acc2:?} {:?}", la + lb, la + b, b + la, v.iter().sum::<Length>());
        ensure!(la.is_null() == (a == 0) && la.is_definite() && !i.is_null() && !i.is_definite() && i.definite().is_err() && la.definite() == Ok(a), "length-view", "views of length {a}");
    }
    // header writers
    let mut w = Vec::new();
    let outs: Vec<(&str, Result<(Vec<u8>, usize), String>)> = vec![
        ("ber_write_header", hd.ber_write_header(&mut w).map(|n| (std::mem::take(&mut w), n)).map_err(|e| format!("{e:?}"))),
        ("ber_encode", { let mut w = Vec::new(); hd.ber_encode(&mut w).map(|n| (w, n)).map_err(|e| format!("{e:?}")) }),
        ("write_ber", { let mut w = Vec::new(); hd.write_ber(&mut w).map(|n| (w, n)).map_err(|e| format!("{e:?}")) }),
        ("to_ber_vec", hd.to_ber_vec().map(|v| { let n = v.len(); (v, n) }).map_err(|e| format!("{e:?}"))),
    ];
    let douts: Vec<(&str, Result<(Vec<u8>, usize), String>)> = vec![
        ("der_write_header", { let mut w = Vec::new(); hd.der_write_header(&mut w).map(|n| (w, n)).map_err(|e| format!("{e:?}")) }),
        ("der_encode", { let mut w = Vec::new(); hd.der_encode(&mut w).map(|n| (w, n)).map_err(|e| format!("{e:?}")) }),
        ("write_der", { let mut w = Vec::new(); hd.write_der(&mut w).map(|n| (w, n)).map_err(|e| format!("{e:?}")) }),
        ("to_der_vec_raw", hd.to_der_vec_raw().map(|v| { let n = v.len(); (v, n) }).map_err(|e| format!("{e:?}"))),
        ("to_der_vec", hd.to_der_vec().map(|v| { let n = v.len(); (v, n) }).map_err(|e| format!("{e:?}"))),
    ];
    for (name, o) in outs.iter().chain(if h.len.is_some() { &douts[..] } else { &[] }) {
        *evals += 1;
        match o { Ok((v, n)) => ensure!(*v == full && *n == full.len(), format!("octets/{name}"), "{name} of {h:?}: {} (returned {n}), shortest form is {}", hex(v), hex(&full)), Err(e) => return fail(format!("octets/{name}"), format!("{name} of {h:?} failed: {e}")) }
    }
    if h.len.is_some() || h.cons {
        let k = keep(&full);
        match Header::from_ber(k) { Ok((r, g)) => ensure!(h_of(&g) == *h && r.is_empty(), "back", "{h:?} encodes as {} which decodes as {:?}", hex(&full), h_of(&g)), Err(e) => return fail("back", format!("{h:?} encodes as {} which does not decode: {:?}", hex(&full), nerr(e))) }
    }
    // encoders
    macro_rules! enc { ($name:literal, $t:ty, $c:expr, $k:expr, $g:expr) => {{
        let mut e = <$t as BerEncoder>::new(); let mut a = Vec::new(); let mut b = Vec::new(); let mut c = Vec::new();
        let (x, y, z) = (e.write_tag_generic(cls(h.class), h.cons, Tag(h.tag), &mut a), e.write_length(len, &mut b), e.write_tag_info(cls(h.class), h.cons, Tag(h.tag), &mut c));
        let mut info = Vec::new(); tag_octets($c, $k, $g, &mut info);
        *evals += 1;
        ensure!(x.ok() == Some(t.len()) && a == t && y.ok() == Some(l.len()) && b == l && z.ok() == Some(info.len()) && c == info, concat!("encoder/", $name), "{} for {h:?}: identifier {}, length {}, info {}", $name, hex(&a), hex(&b), hex(&c));
    }} }
    enc!("BerGenericEncoder", BerGenericEncoder, h.class, h.cons, h.tag);
    enc!("Constructed", Constructed, h.class, true, h.tag);
    enc!("ConstructedIndefinite", ConstructedIndefinite, h.class, true, h.tag);
    enc!("Primitive", Primitive<19>, 0, false, 19);
    enc!("Primitive(long)", Primitive<300>, 0, false, 300);
    // announced lengths
    ensure!(ber_tag_length(Tag(h.tag)) == t.len(), "tag-length", "ber_tag_length({}) = {}, identifier has {} octets", h.tag, ber_tag_length(Tag(h.tag)), t.len());
    ensure!(ber_length_length(len).ok() == Some(l.len()), "length-length", "ber_length_length({len:?}) = {:?}, the length takes {} octets", ber_length_length(len), l.len());
    ensure!(ber_header_length(Tag(h.tag), len).ok() == Some(full.len()), "header-length", "ber_header_length({}, {len:?}) = {:?}, header has {} octets", h.tag, ber_header_length(Tag(h.tag), len), full.len());
    if h.len.unwrap_or(0) < 1 << 62 { ensure!(ber_total_length(Tag(h.tag), len) == match h.len { Some(n) => Length::Definite(n + full.len()), None => Length::Indefinite }, "total-length", "ber_total_length({}, {len:?}) = {:?}", h.tag, ber_total_length(Tag(h.tag), len)); }
    *evals += 4;
    Ok(())
}
fn gen_len(s: &mut Src) -> usize {
    match s.weighted(&[4, 3, 2, 1]) { 0 => s.below(300), 1 => { let e = s.upto(63) as u32; ((1u64 << e).wrapping_add(s.upto(2)).wrapping_sub(1)) as usize } 2 => s.upto(1 << 26) as usize, _ => s.upto(u64::MAX) as usize }
}
pub fn c03(s: &mut Src) -> Outcome {
    arena_reset();
    if s.chance(1, 4) {
        let class = s.below(4) as u8; let cons = s.bool(); let tag = gen_tagnum(s, class);
        let len = if s.chance(1, 8) { None } else { Some(gen_len(s)) };
        let h = H { class, cons, tag, len };
        s.note(format!("encode {h:?}")); s.set_key(format!("{h:?}").as_bytes());
        s.label("header encoded");
        if tag > 30 || len != Some(0) { s.nontrivial(); }
        checkpoint(s);
        let mut ev = 0; let r = header_encode(&h, &mut ev); s.evals += ev; return r;
    }
    // octets: identifier forms x length forms x contents, possibly cut or damaged
    let mut b = Vec::new();
    let class = s.below(4) as u8; let cons = s.bool();
    match s.weighted(&[5, 2, 2, 1]) {
        0 => { let t = gen_tagnum(s, class); tag_octets(class, cons, t, &mut b) }
        1 => { b.push(class << 6 | if cons { 0x20 } else { 0 } | 31); let n = s.below(7); for _ in 0..n { b.push(0x80 | *s.pick(&[0u8, 1, 0x0f, 0x10, 0x7f, 0x40])); } b.push(s.byte() & 0x7f); }
        2 => { b.push(class << 6 | if cons { 0x20 } else { 0 } | 31); for _ in 0..s.below(3) { b.push(0x80); } let t = gen_tagnum(s, class); base128(t as u128, &mut b); }
        _ => { let n = s.below(6); b.extend(s.bytes(n)); }
    }
    let body_len = s.below(20);
    match s.weighted(&[4, 3, 2, 1, 2]) {
        0 => len_octets(body_len, &mut b),
        1 => { let v = if s.chance(2, 3) { body_len } else { gen_len(s) }; let e = v.to_be_bytes(); let z = v.leading_zeros() as usize / 8; let extra = match s.weighted(&[4, 1, 1]) { 0 => s.below(3), 1 => s.below(12), _ => s.below(119) }; let k = (8 - z).max(1) + extra; b.push(0x80 | k as u8); for _ in 0..k.saturating_sub(8) { b.push(0); } let k = k.min(8); b.extend_from_slice(&e[8 - k..]); }
        2 => b.push(0x80),
        3 => { b.push(*s.pick(&[0xffu8, 0xfe, 0x88, 0x89, 0x81])); let n = s.below(10); b.extend(s.bytes(n)); }
        _ => { let n = s.below(10); b.extend(s.bytes(n)); }
    }
    match s.weighted(&[3, 2, 1]) { 0 => { let x = s.bulk(body_len); b.extend(x); } 1 => { let n = s.below(4); for _ in 0..n { let t = gen_tree(s, 2); b.extend(t); } b.extend([0, 0]); } _ => { let d = 1 + s.below(60); for _ in 0..d { b.extend([0xa0, 0x80]); } for _ in 0..=d { b.extend([0, 0]); } } }
    if s.chance(1, 6) { let n = s.below(b.len() + 1); b.truncate(n); }
    let i = place(s, GClass::Hostile, b);
    s.note(format!("decode {}|{}", hex(&i.buf[..i.off]), hex(i.rest()))); s.set_key(i.rest());
    s.nontrivial();
    s.label(match read_hdr(i.rest()) { Ok(h) => if h.len.is_none() { "indefinite" } else if h.tag > 30 { "long tag" } else if !h.min_len { "long length" } else { "short" }, Err(HErr::Trunc) => "truncated", Err(HErr::Bad) => "invalid" });
    checkpoint(s);
    header_decode(s, i.buf, i.off)
}
pub fn c03_fixed(fx: &mut Fixed) {
    // all octet pairs as a header, alone and with every kind of tail; all triples with a long-form lead-in
    let mut n = 0u64;
    let mut go = |fx: &mut Fixed, b: &[u8]| { n += 1; let k = keep(b); fx.go(|| format!("decode {}", hex(b)), || { let mut s = Src::replay(&[], 1); header_decode(&mut s, k, 0) }); if n % 4096 == 0 { arena_reset(); } };
    for a in 0..=255u8 {
        if !fx.mine(a as u64) { continue; }
        go(fx, &[a]);
        for b in 0..=255u8 {
            go(fx, &[a, b]);
            go(fx, &[a, b, 0, 0]);
            if fx.tier_thorough || a & 31 == 31 || b & 0x80 != 0 { for c in 0..=255u8 { if fx.tier_thorough || c < 4 || c >= 0xfc || c & 0x3f < 2 { go(fx, &[a, b, c]); go(fx, &[a, b, c, 5, 6, 7]); } } }
        }
    }
    fx.count("headers decoded", n);
    // all small tag numbers and lengths, and all neighbourhoods of powers of two
    let mut ev = 0; let mut m = 0u64;
    let mut tags: Vec<u32> = (0..if fx.tier_thorough { 1 << 21 } else { 40000 }).collect();
    for e in 7..32u32 { for d in 0..5u32 { tags.push((1u32 << e).wrapping_add(d).wrapping_sub(2)); } }
    for t in tags { if !fx.mine(t as u64) { continue; } let h = H { class: (t % 4) as u8, cons: t & 8 != 0, tag: t, len: Some((t % 131) as usize) }; m += 1; fx.go(|| format!("encode {h:?}"), || header_encode(&h, &mut ev)); if m % 4096 == 0 { arena_reset(); } }
    let mut lens: Vec<usize> = (0..if fx.tier_thorough { 1 << 20 } else { 70000 }).collect();
    for e in 7..64u32 { for d in 0..5usize { lens.push((1usize << e).wrapping_add(d).wrapping_sub(2)); } }
    lens.push(usize::MAX);
    for l in lens { if !fx.mine(l as u64) { continue; } let h = H { class: (l % 4) as u8, cons: true, tag: (l % 40) as u32, len: Some(l) }; m += 1; fx.go(|| format!("encode {h:?}"), || header_encode(&h, &mut ev)); if m % 4096 == 0 { arena_reset(); } }
    fx.count("headers encoded", m);
    for c in 0..=255u8 { let r = Class::try_from(c); fx.check(|| format!("class {c}"), if c < 4 { if r.as_ref().ok().map(|x| *x as u8) == Some(c) { Ok(()) } else { fail("class", format!("Class::try_from({c}) = {r:?}")) } } else if r.is_err() { Ok(()) } else { fail("class", format!("Class::try_from({c}) = {r:?}")) }); }
}

// ================================================================== C10 integers
fn ints() -> &'static [&'static Ops] { static F: OnceLock<Vec<&'static Ops>> = OnceLock::new(); family(&F, |o| matches!(o.kind, Kind::Int { .. } | Kind::Integer | Kind::Enumerated) || o.name == "Ti<u32,0>" || o.name == "PrivImplicit<Integer,4294967295>" || o.name == "Ti<Tx<i64,1>,2>") }
macro_rules! each_int { ($m:ident) => { $m!(u8, as_u8, from_u8); $m!(u16, as_u16, from_u16); $m!(u32, as_u32, from_u32); $m!(u64, as_u64, from_u64); $m!(u128, as_u128, from_u128); $m!(usize, as_usize, from_usize); $m!(i8, as_i8, from_i8); $m!(i16, as_i16, from_i16); $m!(i32, as_i32, from_i32); $m!(i64, as_i64, from_i64); $m!(i128, as_i128, from_i128); $m!(isize, as_isize, from_isize); } }
/// every accessor of an INTEGER with contents `c` (not empty)
pub fn int_value(c: &'static [u8]) -> Outcome {
    let v = BigInt::from_signed_bytes_be(c);
    let i = Integer::new(c);
    let min = int_octets(&v);
    ensure!(i.as_ref() == c && i.as_raw_slice() == Some(c), "raw", "Integer::new({}) holds {}", hex(c), hex(i.as_ref()));
    #[cfg(feature = "base")]
    {
        ensure!(i.as_bigint() == v, "as_bigint", "contents {}: as_bigint {}, value {v}", hex(c), i.as_bigint());
        match i.as_biguint() { Ok(u) => ensure!(BigInt::from(u.clone()) == v, "as_biguint", "contents {}: as_biguint {u}, value {v}", hex(c)), Err(e) => ensure!(v < BigInt::from(0), "as_biguint", "contents {}: as_biguint fails ({e:?}) for {v}", hex(c)) }
    }
    macro_rules! conv { ($t:ty, $as:ident, $from:ident) => {
        let want = <$t>::try_from(&v).ok();
        ensure!(i.$as().ok() == want, concat!("convert/", stringify!($t)), "contents {} (value {v}): {} gives {:?}", hex(c), stringify!($as), i.$as());
        ensure!(<$t>::try_from(i.clone()).ok() == want, concat!("convert/", stringify!($t)), "contents {} (value {v}): TryFrom to {} gives {:?}", hex(c), stringify!($t), <$t>::try_from(i.clone()));
        let a = i.any();
        ensure!(<$t>::try_from(&a).ok() == want, concat!("convert/", stringify!($t)), "contents {} (value {v}): TryFrom<&Any> to {} gives {:?}", hex(c), stringify!($t), <$t>::try_from(&a));
        if let Some(x) = want {
            ensure!(Integer::$from(x).as_ref() == &min[..] && Integer::from(x).as_ref() == &min[..], concat!("from/", stringify!($t)), "{v}: from {} holds {} / {}", stringify!($t), hex(Integer::$from(x).as_ref()), hex(Integer::from(x).as_ref()));
            ensure!(Integer::$from(x) == i && i == Integer::$from(x), concat!("eq/", stringify!($t)), "{v}: Integer from {} differs from contents {}", stringify!($t), hex(c));
            let d = x.to_der_vec().map_err(|e| format!("{e:?}"));
            ensure!(d.as_ref().ok() == Some(&tlv(0, false, 2, &min)) && x.to_ber_vec().ok() == Some(tlv(0, false, 2, &min)), concat!("encode/", stringify!($t)), "{v} as {} encodes as {:?}, shortest contents are {}", stringify!($t), d, hex(&min));
        }
    } }
    each_int!(conv);
    for (n, e) in [("DER", i.to_der_vec()), ("BER", i.to_ber_vec())] { ensure!(e.as_ref().ok() == Some(&tlv(0, false, 2, &min)), format!("encode/Integer/{n}"), "contents {} ({v}) encode in {n} as {e:?}", hex(c)); }
    for d in [-1i64, 1] { let o = keep(&int_octets(&(&v + d))); ensure!(Integer::new(o) != i, "eq", "Integer {} == {}", hex(o), hex(c)); }
    let o = keep(&int_octets(&-&v)); ensure!((Integer::new(o) == i) == (v == BigInt::from(0)), "eq", "Integer {} == {}", hex(o), hex(c));
    // a generic element
    let a = Any::new(Header::new(Class::Universal, false, Tag::Integer, Length::Definite(c.len())), Input::from(c));
    macro_rules! anyas { ($t:ty, $as:ident, $into:ident) => { let want = <$t>::try_from(&v).ok(); ensure!(a.$as().ok() == want && a.clone().$into().ok() == want, concat!("any/", stringify!($t)), "contents {} (value {v}): Any::{} gives {:?}, Any::{} {:?}", hex(c), stringify!($as), a.$as(), stringify!($into), a.clone().$into()); } }
    anyas!(u8, as_u8, u8); anyas!(u16, as_u16, u16); anyas!(u32, as_u32, u32); anyas!(u64, as_u64, u64); anyas!(u128, as_u128, u128); anyas!(i8, as_i8, i8); anyas!(i16, as_i16, i16); anyas!(i32, as_i32, i32); anyas!(i64, as_i64, i64); anyas!(i128, as_i128, i128);
    ensure!(a.as_integer().ok().map(|x| BigInt::from_signed_bytes_be(x.as_ref())) == Some(v.clone()) && a.clone().integer().ok().map(|x| BigInt::from_signed_bytes_be(x.as_ref())) == Some(v.clone()), "any/Integer", "contents {}: Any::as_integer {:?}", hex(c), a.as_integer());
    ensure!(a.as_enumerated().ok().map(|x| x.0) == u32::try_from(&v).ok() && a.clone().enumerated().ok().map(|x| x.0) == u32::try_from(&v).ok(), "any/Enumerated", "contents {}: Any::as_enumerated {:?}", hex(c), a.as_enumerated());
    if let Ok(x) = u32::try_from(&v) { let e = Enumerated::new(x); ensure!(e.to_der_vec().ok() == Some(tlv(0, false, 10, &min)) && e.to_ber_vec().ok() == Some(tlv(0, false, 10, &min)), "encode/Enumerated", "Enumerated {v} encodes as {:?}", e.to_der_vec()); }
    Ok(())
}
fn const_arrays(b: &[u8]) -> Outcome {
    macro_rules! ca { ($($n:literal)*) => { $( if b.len() >= $n { let a: [u8; $n] = b[..$n].try_into().unwrap(); let v = BigInt::from_bytes_be(num_bigint::Sign::Plus, &a); let i = Integer::from_const_array(a); ensure!(i.as_ref() == &int_octets(&v)[..], concat!("const-array/", $n), "from_const_array({}) holds {}, value {v}", hex(&a), hex(i.as_ref())); } )* } }
    ca!(1 2 3 4 5 7 8 9 15 16 17 20 33);
    Ok(())
}
pub fn c10(s: &mut Src) -> Outcome {
    match s.weighted(&[5, 5, 1]) {
        0 => fam_case(s, ints()),
        1 => {
            arena_reset();
            let big: BigInt = BigInt::from(1) << *s.pick(&[15u32, 40, 70, 135, 300]);
            let v = gen_int(s, &-big.clone(), &big);
            let mut c = int_octets(&v);
            if s.chance(1, 2) { let n = s.below(4); let f = if v < BigInt::from(0) { 0xff } else { 0 }; for _ in 0..n { c.insert(0, f); } }
            if s.chance(1, 5) { let n = s.bytes(c.len()); c = n; }
            s.note(format!("INTEGER contents {}", hex(&c))); s.set_key(&c);
            if c.len() > 1 { s.nontrivial(); }
            s.label(if v < BigInt::from(0) { "negative" } else { "non-negative" });
            let k = keep(&c);
            checkpoint(s);
            s.evals += 70;
            int_value(k)
        }
        _ => { arena_reset(); let b = { let n = s.below(34); let z = s.below(n + 1); let mut b = vec![0u8; z]; b.extend(s.bytes(n - z)); if s.chance(1, 4) { for x in b.iter_mut().take(z) { *x = 0xff; } } b }; s.note(format!("const arrays of {}", hex(&b))); s.set_key(&b); s.nontrivial(); s.label("const array"); s.evals += 13; const_arrays(&b) }
    }
}
pub fn c10_fixed(fx: &mut Fixed) {
    long_diff(fx, ints());
    let mut m = 0u64;
    let fam: Vec<&'static Ops> = ints().iter().copied().filter(|o| !matches!(o.kind, Kind::Tagged { .. })).collect();
    for x in 0..65536u32 {
        if !fx.mine(x as u64) { continue; }
        let c2 = (x as u16).to_be_bytes();
        let mut cs: Vec<Vec<u8>> = vec![c2.to_vec()];
        if x < 256 { cs.push(vec![x as u8]); }
        if fx.tier_thorough { for p in [0u8, 0xff, 0x7f, 0x80, 1] { cs.push(vec![p, c2[0], c2[1]]); } }
        for c in cs {
            m += 1;
            let k = keep(&c);
            fx.go(|| format!("INTEGER contents {}", hex(&c)), || int_value(k));
            // small types: through every decoding entry point as well
            for o in &fam { if fx.tier_thorough || c.len() == 1 || x % 7 == 0 || matches!(o.kind, Kind::Int { bits: 8, .. } | Kind::Int { bits: 16, .. }) { fixed_diff(fx, o, &tlv(0, false, if o.kind == Kind::Enumerated { 10 } else { 2 }, &c)); } }
            if m % 64 == 0 { arena_reset(); }
        }
    }
    fx.count("one- and two-octet contents", m);
    // boundaries of every type, one below to one above, with 0 to 3 octets of padding
    let mut n = 0u64;
    for bits in [7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128] { for neg in [false, true] { for d in -3i64..=3 { for pad in 0..4 {
        let mut v: BigInt = (BigInt::from(1) << bits) + d; if neg { v = -v; }
        let mut c = int_octets(&v); for _ in 0..pad { c.insert(0, if neg { 0xff } else { 0 }); }
        n += 1; if !fx.mine(n) { continue; }
        let k = keep(&c);
        fx.go(|| format!("INTEGER contents {}", hex(&c)), || int_value(k));
        for o in &fam { fixed_diff(fx, o, &tlv(0, false, if o.kind == Kind::Enumerated { 10 } else { 2 }, &c)); }
    } } } }
    for o in &fam { for cons in [false, true] { fixed_diff(fx, o, &tlv(0, cons, if o.kind == Kind::Enumerated { 10 } else { 2 }, &[])); fixed_diff(fx, o, &tlv(0, true, if o.kind == Kind::Enumerated { 10 } else { 2 }, &[1])); } }
    fx.count("type boundaries", n);
}

// ================================================================== C11 object identifiers
use num_bigint::BigUint;
fn oids() -> &'static [&'static Ops] { static F: OnceLock<Vec<&'static Ops>> = OnceLock::new(); family(&F, |o| o.kind == Kind::Oid || o.name == "Tx<Tx<Ti<Oid,5>,4>,2>") }
fn base128_big(v: &BigUint, o: &mut Vec<u8>) { let d = v.to_radix_be(128); let n = d.len(); o.extend(d.iter().enumerate().map(|(i, x)| if i + 1 < n { x | 0x80 } else { *x })); }
/// contents of the identifier with these arcs, if the ASN.1 rules allow them
fn oid_octets(rel: bool, arcs: &[BigUint]) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    let rest = if rel { if arcs.is_empty() { return None; } arcs } else {
        if arcs.len() < 2 || arcs[0] > BigUint::from(2u8) || (arcs[0] < BigUint::from(2u8) && arcs[1] >= BigUint::from(40u8)) { return None; }
        base128_big(&(&arcs[0] * 40u8 + &arcs[1]), &mut o);
        &arcs[2..]
    };
    for a in rest { base128_big(a, &mut o); }
    Some(o)
}
fn text(arcs: &[BigUint]) -> String { arcs.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(".") }
struct Mini { child: std::process::Child, tx: std::process::ChildStdin, rx: std::io::BufReader<std::process::ChildStdout> }
impl Drop for Mini { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static MINI: std::cell::RefCell<Option<Mini>> = const { std::cell::RefCell::new(None) }; }
/// the build with default features (`mini`, path in VERIF_MINI) answers for one identifier
fn default_build(content: &[u8], rel: bool) -> Option<String> {
    use std::io::{BufRead, Write};
    let path = std::env::var("VERIF_MINI").ok()?;
    MINI.with(|m| {
        let mut m = m.borrow_mut();
        let x = m.get_or_insert_with(|| {
            let mut child = std::process::Command::new(&path).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("mini starts");
            let (tx, rx) = (child.stdin.take().unwrap(), std::io::BufReader::new(child.stdout.take().unwrap()));
            Mini { child, tx, rx }
        });
        let mut l = String::new();
        let ok = writeln!(x.tx, "{} {}", if rel { "rel" } else { "oid" }, content.iter().map(|b| format!("{b:02x}")).collect::<String>()).and_then(|_| x.tx.flush()).and_then(|_| x.rx.read_line(&mut l)).is_ok();
        if !ok || l.is_empty() { *m = None; return Some("no answer".into()); }
        Some(l.trim_end().to_string())
    })
}
/// everything an identifier reports about itself
fn oid_reports(how: &str, o: &Oid, rel: bool, arcs: &[BigUint], content: &[u8]) -> Outcome {
    // contents of one zero octet: the library reads them as the single arc 0 (recorded finding)
    let zero = !rel && content == [0];
    let z = if zero && arcs.len() == 2 { "/0.0" } else { "" };
    let t = text(arcs);
    ensure!(o.as_bytes() == content && DynTagged::tag(o) == if rel { Tag::RelativeOid } else { Tag::Oid }, format!("contents/{how}"), "{how} {t}: holds {} (tag {:?}), contents are {}", hex(o.as_bytes()), DynTagged::tag(o), hex(content));
    ensure!(o.to_id_string() == t, format!("text/to_id_string{z}"), "{how} {t}: to_id_string gives {}", o.to_id_string());
    let disp = if rel { format!("rel. {t}") } else { t.clone() };
    ensure!(o.to_string() == disp && format!("{o:?}") == format!("OID({disp})"), "text/Display", "{how} {t}: Display gives {o}, Debug {o:?}");
    // (a sub-identifier holding two arcs can exceed u64 by at most 80 although its arcs do not: either answer is fine there)
    let big = arcs.iter().any(|a| a.bits() > 64);
    let edge = !rel && arcs.len() > 1 && arcs[1].bits() <= 64 && (&arcs[1] + 80u8).bits() > 64;
    // without bigint: dotted text when every arc fits into 64 bits, else the contents in hexadecimal
    if content.iter().fold(0u8, |a, b| a.wrapping_mul(31).wrapping_add(*b)) % 4 == 0 { if let Some(got) = default_build(content, rel) {
        let raw = content.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ");
        let line = |t: &str, n: &str| { let d = if rel { format!("rel. {t}") } else { t.to_string() }; format!("{t}|{d}|OID({d})|{n}") };
        let (small, large) = (line(&t, &format!("{} {t}", arcs.len())), line(&raw, "none"));
        ensure!(if edge { got == small || got == large } else if big { got == large } else { got == small }, format!("default-build{z}"), "{how} {t}: built with default features it reports {got:?}, should be {:?}", if big { large } else { small });
    } }
    macro_rules! walk { ($it:expr, $n:literal, $conv:expr) => {{
        let mut it = $it; let mut got: Vec<BigUint> = Vec::new();
        loop {
            let left = arcs.len() as i64 - got.len() as i64;
            ensure!(it.len() as i64 == left && it.size_hint() == (it.len(), Some(it.len())), concat!("count/", $n), "{how} {t}: {} announces {} arcs after {} of {}", $n, it.len(), got.len(), arcs.len());
            match it.next() { Some(a) => got.push($conv(a)), None => break }
            if got.len() > arcs.len() { break; }
        }
        ensure!(got == arcs, concat!("arcs/", $n), "{how} {t}: {} yields {}", $n, text(&got));
        ensure!(it.next().is_none() && it.next().is_none() && it.len() == 0, concat!("fused/", $n), "{how} {t}: {} yields more after its end", $n);
    }} }
    walk!(o.iter_bigint(), "iter_bigint", |a| a);
    match o.iter() { Some(it) => { ensure!(!big, "arcs/iter", "{how} {t}: iter() is available although an arc exceeds u64"); walk!(it, "iter", BigUint::from) } None => ensure!(big || edge, "arcs/iter", "{how} {t}: iter() gives None although every arc fits in u64") }
    for (n, e) in [("DER", o.to_der_vec()), ("BER", o.to_ber_vec())] { ensure!(e.as_ref().ok() == Some(&tlv(0, false, if rel { 13 } else { 6 }, content)), format!("encode/{n}"), "{how} {t}: encodes as {e:?}"); }
    let own = o.to_owned(); let st = o.clone().to_owned();
    ensure!(own == *o && st == *o && own.as_bytes() == content && o.clone().into_cow().as_ref() == content, "copies", "{how} {t}: copies are {own} {st}");
    Ok(())
}
fn oid_case(rel: bool, arcs: &[BigUint], evals: &mut u64) -> Outcome {
    let t = text(arcs);
    let want = oid_octets(rel, arcs);
    let small: Option<Vec<u64>> = arcs.iter().map(|a| u64::try_from(a).ok()).collect();
    let single = arcs.len() == 1 && arcs[0] == BigUint::from(0u8);
    if let Some(v) = &small {
        *evals += 2;
        let b = if rel { Oid::from_relative(v) } else { Oid::from(v) };
        match (&b, &want) {
            (Ok(o), Some(c)) => oid_reports(if rel { "from_relative" } else { "from" }, o, rel, arcs, c)?,
            // documented special case: the single arc 0 stands for contents 00
            (Ok(o), None) if single && !rel => oid_reports("from", o, rel, arcs, &[0])?,
            (Ok(o), None) => return fail("builds-invalid", format!("arcs {t} were accepted and became {o}")),
            // first sub-identifier beyond u64: not representable by this constructor
            (Err(_), Some(_)) => ensure!(!rel && v[0] == 2 && v[1] > u64::MAX - 80, "refuses-valid", "arcs {t}: {:?}", b),
            (Err(_), None) => {}
        }
        if !rel {
            let p = t.parse::<Oid>();
            ensure!(p.as_ref().ok() == b.as_ref().ok(), "from_str", "{t:?} parses as {p:?}, the arcs build {b:?}");
        }
    } else if !rel { *evals += 1; ensure!(t.parse::<Oid>().is_err(), "from_str", "{t:?} was parsed although an arc exceeds u64: {:?}", t.parse::<Oid>()); }
    // through the encoding, whatever the arc size
    if let Some(c) = &want {
        let k = keep(&tlv(0, false, if rel { 13 } else { 6 }, c));
        for (n, r) in [("from_ber", Oid::from_ber(k)), ("from_der", Oid::from_der(k))] {
            *evals += 1;
            match r { Ok((r, o)) => { ensure!(r.is_empty(), "decode", "{n} of {t}"); oid_reports(n, &o, rel, arcs, c)? } Err(e) => return fail(format!("decode/{n}"), format!("{t} ({}): {:?}", hex(k), nerr(e))) }
        }
        let raw = if rel { Oid::new_relative(std::borrow::Cow::Borrowed(keep(c))) } else { Oid::new(std::borrow::Cow::Borrowed(keep(c))) };
        oid_reports("new", &raw, rel, arcs, c)?;
    }
    Ok(())
}
/// relative entry points on arbitrary octets
fn relative(s: &mut Src, i: &Inp) -> Outcome {
    let b = i.rest();
    let k = Kind::Oid;
    for der in [false, true] {
        let want = match (read_hdr(b), dec(&k, b, der)) { (Ok(h), R::Yes(v, n)) if h.class == 0 && h.tag == 13 => R::Yes(v, n), (Ok(h), R::Unk) if h.class == 0 && h.tag == 13 => R::Unk, _ => R::No };
        let gs = [
            ("from_relative", if der { Oid::from_der_relative(b) } else { Oid::from_ber_relative(b) }.map(|(r, o)| (r.len(), o)).map_err(|e| nerr(e).dbg)),
            ("Any::relative_oid", if der { Any::from_der(b) } else { Any::from_ber(b) }.map_err(|e| nerr(e).dbg).and_then(|(r, a)| { if der { Oid::check_constraints(&a).map_err(|e| format!("{e:?}"))?; } a.relative_oid().map(|o| (r.len(), o)).map_err(|e| format!("{e:?}")) })),
            ("Any::as_relative_oid", if der { Any::from_der(b) } else { Any::from_ber(b) }.map_err(|e| nerr(e).dbg).and_then(|(r, a)| { if der { Oid::check_constraints(&a).map_err(|e| format!("{e:?}"))?; } a.as_relative_oid().map(|o| (r.len(), o.to_owned())).map_err(|e| format!("{e:?}")) })),
        ];
        for (n, g) in gs {
            s.evals += 1;
            match (&want, &g) {
                (R::Unk, _) | (R::No, Err(_)) => {}
                (R::Yes(Val::Oid(r, c), used), Ok((left, o))) => ensure!(*r && o.as_bytes() == &c[..] && *left == b.len() - used && DynTagged::tag(o) == Tag::RelativeOid, format!("relative/{n}"), "{n} on {}: {o:?}", hex(b)),
                _ => return fail(format!("relative/{n}"), format!("{n} (der={der}) on {}: {g:?}, reference says {want:?}", hex(b))),
            }
        }
    }
    Ok(())
}
fn gen_arc(s: &mut Src) -> BigUint {
    match s.weighted(&[5, 4, 3, 2, 1]) {
        0 => BigUint::from(s.upto(130)),
        1 => BigUint::from(s.upto(100_000)),
        2 => { let e = s.upto(64) as u32; let d = s.upto(2); ((BigUint::from(1u8) << e) + d).clone() - if s.bool() { 1u8 } else { 0 } }
        3 => { let e = 7 * (1 + s.upto(18)) as u32; let d = s.upto(2); (BigUint::from(1u8) << e) + d - 1u8 }
        _ => { let n = 1 + s.below(20); BigUint::from_bytes_be(&s.bytes(n)) }
    }
}
pub fn c11(s: &mut Src) -> Outcome {
    arena_reset();
    match s.weighted(&[6, 3, 2, 2, 2]) {
        0 => {
            let rel = s.chance(1, 4);
            let n = match s.weighted(&[6, 2, 1]) { 0 => 2 + s.below(5), 1 => s.below(3), _ => s.below(20) };
            let mut arcs: Vec<BigUint> = Vec::new();
            for i in 0..n { let a = if !rel && i == 0 && s.chance(9, 10) { BigUint::from(s.upto(3)) } else if !rel && i == 1 && s.chance(1, 2) { BigUint::from(s.upto(48)) } else if !rel && i == 1 && s.chance(1, 8) { BigUint::from(u64::MAX - s.upto(90)) } else { gen_arc(s) }; arcs.push(a); }
            s.note(format!("{}{}", if rel { "rel " } else { "" }, text(&arcs))); s.set_key(text(&arcs).as_bytes()); s.set_key(&[rel as u8]);
            s.label(if rel { "relative" } else { "absolute" });
            if arcs.len() > 1 { s.nontrivial(); }
            checkpoint(s);
            let mut ev = 0; let r = oid_case(rel, &arcs, &mut ev); s.evals += ev; r
        }
        1 => fam_case(s, oids()),
        2 => { // dotted text
            let n = 1 + s.below(5); let mut t = String::new();
            for i in 0..n { if i > 0 { t.push(*s.pick(&['.', '.', '.', '.', '.', ',', ' '])); } match s.weighted(&[8, 1, 1, 1, 1, 1]) { 0 => t.push_str(&s.upto(if i == 0 { 2 } else { 300 }).to_string()), 1 => t.push_str(&gen_arc(s).to_string()), 2 => {} 3 => { t.push('-'); t.push_str(&s.upto(9).to_string()); } 4 => { t.push('0'); t.push_str(&s.upto(99).to_string()); } _ => t.push(*s.pick(&['x', '²', '٣', '+', ' ', '\0', '_'])) } }
            s.note(format!("text {t:?}")); s.set_key(t.as_bytes()); s.label("text"); s.nontrivial();
            checkpoint(s); s.evals += 1;
            let parts: Vec<&str> = t.split('.').collect();
            let arcs: Option<Vec<u64>> = parts.iter().map(|p| if !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit()) { p.parse().ok() } else { None }).collect();
            let p = t.parse::<Oid>();
            match (&arcs, &p) {
                (Some(a), Ok(o)) => { let b: Vec<BigUint> = a.iter().map(|x| BigUint::from(*x)).collect(); let c = oid_octets(false, &b).unwrap_or_else(|| vec![0]); ensure!(a.len() > 1 || a == &[0], "from_str", "{t:?} parsed as {o}"); oid_reports("parse", o, false, &b, &c) }
                (Some(a), Err(_)) => { let b: Vec<BigUint> = a.iter().map(|x| BigUint::from(*x)).collect(); ensure!(oid_octets(false, &b).is_none() || a[1] > u64::MAX - 80, "from_str", "{t:?} was rejected: {p:?}"); Ok(()) }
                // an explicit plus sign is a matter of taste
                (None, Ok(o)) => { ensure!(t.contains('+') && o.to_id_string() == t.replace('+', ""), "from_str", "{t:?} was parsed as {o}"); Ok(()) }
                (None, Err(_)) => Ok(()),
            }
        }
        3 => { // prefixes
            let rel = s.chance(1, 4);
            let lo = if rel { 1 } else { 2 };
            let na = lo + s.below(5); let mut a: Vec<BigUint> = (0..na).map(|_| BigUint::from(s.upto(200) * if s.chance(1, 4) { 100 } else { 1 })).collect();
            if !rel { a[0] = BigUint::from(s.upto(2)); a[1] = BigUint::from(s.upto(39)); }
            let mut b = a.clone();
            match s.below(4) { 0 => { let k = lo + s.below(b.len() - lo + 1); b.truncate(k); } 1 => { let i = s.below(b.len()); b[i] = BigUint::from(s.upto(2)); } 2 => { let x = gen_arc(s); b.push(x); } _ => { let i = b.len() - 1; if i >= lo { b[i] = &b[i] >> 7; } } }
            let (Some(ca), Some(cb)) = (oid_octets(rel, &a), oid_octets(rel, &b)) else { return Ok(()) };
            let mk = |c: &[u8]| if rel { Oid::new_relative(std::borrow::Cow::Owned(c.to_vec())) } else { Oid::new(std::borrow::Cow::Owned(c.to_vec())) };
            s.note(format!("{} starts_with {}", text(&a), text(&b))); s.set_key(&ca); s.set_key(&cb); s.nontrivial(); s.label("prefix");
            checkpoint(s); s.evals += 4;
            let (x, y) = (mk(&ca), mk(&cb));
            ensure!(x.starts_with(&y) == a.starts_with(&b) && y.starts_with(&x) == b.starts_with(&a), "starts_with", "{x} starts_with {y}: {}; reverse: {}", x.starts_with(&y), y.starts_with(&x));
            ensure!((x == y) == (a == b) && x.starts_with(&x), "eq", "{x} == {y}: {}", x == y);
            Ok(())
        }
        _ => {
            let c = match s.weighted(&[3, 2, 1]) { 0 => gen_oid_content(s, true), 1 => spicy_content(s, 6), _ => vec![] };
            let mut b = tlv(if s.chance(1, 6) { 2 } else { 0 }, s.chance(1, 6), if s.chance(1, 5) { 6 } else { 13 }, &c);
            if s.chance(1, 6) { mutate_bytes(s, &mut b); }
            if s.chance(1, 6) { if let Some(mut n) = parse_nodes(&b, 5).and_then(|v| v.into_iter().next()) { mutate_node(s, &mut n); b.clear(); write_node(&n, &mut b); } }
            let i = place(s, GClass::Spicy, b);
            s.note(format!("relative <- {}", hex(i.rest()))); s.set_key(i.rest()); s.label("relative decode"); s.nontrivial();
            checkpoint(s);
            relative(s, &i)
        }
    }
}
pub fn c11_fixed(fx: &mut Fixed) {
    let mut n = 0u64; let mut ev = 0;
    let mut go = |fx: &mut Fixed, rel: bool, a: &[u128]| { n += 1; if !fx.mine(n) { return; } let b: Vec<BigUint> = a.iter().map(|x| BigUint::from(*x)).collect(); fx.go(|| format!("{}{}", if rel { "rel " } else { "" }, text(&b)), || oid_case(rel, &b, &mut ev)); if n % 512 == 0 { arena_reset(); } };
    let hi = if fx.tier_thorough { 40_000u128 } else { 700 };
    for l in [33usize, 64, 65, 128, 129, 255, 256, 257, 1024, 3000] { for m in [1u128, 100, 1 << 40, 1 << 64] { let mut a: Vec<u128> = (0..l as u128).map(|i| (i * 37 + i / 5) * m).collect(); a[0] = 2; go(fx, false, &a); go(fx, true, &a); } }
    for a in 0..5u128 { for b in 0..hi { go(fx, false, &[a, b]); go(fx, false, &[a, b, 5]); go(fx, true, &[a, b]); } }
    for a in 0..=hi { go(fx, true, &[a]); go(fx, false, &[a]); go(fx, false, &[1, 2, a, 3]); }
    for e in 1..100u32 { for d in 0..5u128 { let v = (1u128 << e) + d; let v = v.saturating_sub(2); for p in [&[0u128, 39][..], &[2, 999], &[1, 0, 7]] { let mut x = p.to_vec(); x.push(v); go(fx, false, &x); x.push(1); go(fx, false, &x); } go(fx, false, &[2, v]); go(fx, false, &[2, v, v]); go(fx, false, &[1, v]); go(fx, false, &[v, 1]); go(fx, true, &[v]); go(fx, true, &[v, 0, v]); } }
    for d in 0..90u128 { go(fx, false, &[2, u64::MAX as u128 - d]); go(fx, false, &[2, u64::MAX as u128 + d, 1]); }
    go(fx, false, &[]); go(fx, true, &[]);
    fx.count("arc sequences", n);
    // all one- and two-octet contents
    let mut m = 0u64;
    for x in 0..65536u32 { if !fx.mine(x as u64) { continue; } let c = (x as u16).to_be_bytes(); m += 1; for o in oids() { fixed_diff(fx, o, &tlv(0, false, 6, &c)); fixed_diff(fx, o, &tlv(0, false, 13, &c)); if x < 256 { fixed_diff(fx, o, &tlv(0, false, 6, &c[1..])); } } if x % 64 == fx.shard as u32 { arena_reset(); } }
    fx.count("two-octet contents", m);
    long_diff(fx, oids());
}
