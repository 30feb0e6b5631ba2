//! C17 nesting, C18 tagged types, C19 optional elements, C22 sequence views, C23 DER sets.
use crate::engine::*;
use crate::gen::Class as GClass;
use crate::gen::*;
use crate::generic::*;
use crate::model::*;
use crate::obs::*;
use crate::spec::*;
use crate::types::*;
use asn1_rs::nom::Parser;
use asn1_rs::Class;
use asn1_rs::*;
use std::collections::{BTreeSet, HashSet};
use std::convert::TryFrom;
use std::time::Instant;

fn at(b: &'static [u8], o: usize) -> Input<'static> { use nom::Input as _; Input::from(b).take_from(o) }
fn cls_of(c: u8) -> Class { Class::try_from(c).unwrap() }

// ================================================================== C17 nesting
/// random element with deep definite and indefinite nesting; returns octets
fn nest(s: &mut Src, depth: u32, fork: u32) -> Vec<u8> {
    let class = s.below(4) as u8;
    if depth == 0 {
        return match s.below(6) {
            0 => vec![4, 2, 0, 0], 1 => vec![0x05, 0], 2 => vec![0x80, 0], 3 => vec![0x1f, 0x1f, 1, 0x80], 4 => vec![0x30, 0],
            _ => { let n = s.below(5); let mut b = vec![2, n as u8]; b.extend(s.bytes(n)); b }
        };
    }
    let mut c = Vec::new();
    let before = if fork > 0 { s.below(2) } else { 0 };
    for _ in 0..before { let d = s.below(depth as usize) as u32; c.extend(nest(s, d.min(4), fork - 1)); }
    c.extend(nest(s, depth - 1, fork));
    if fork > 0 && s.chance(1, 4) { c.extend(nest(s, 0, 0)); }
    let mut o = Vec::new();
    let t = if class == 0 { *s.pick(&[16u32, 17, 4, 3, 12]) } else { *s.pick(&[0u32, 1, 30, 31, 200]) };
    tag_octets(class, true, t, &mut o);
    if s.chance(3, 4) { o.push(0x80); o.extend(c); o.extend([0, 0]); } else { len_octets(c.len(), &mut o); o.extend(c); }
    o
}
/// one element through the content readers with every depth limit, and through the generic readers
fn depth_case(s: &mut Src, buf: &'static [u8], off: usize, limits: &[usize]) -> Outcome {
    let b = &buf[off..];
    let Ok(h0) = read_hdr(b) else { return Ok(()) };
    for &d in limits {
        s.evals += 1;
        let (rest, h) = match Header::parse_ber(at(buf, off)) { Ok(x) => x, Err(e) => return fail("header", format!("{}: {:?}", hex(b), nerr(e))) };
        let m = if d == 0 { None } else { read_tlv(b, d - 1).ok() };
        let r = BerMode::get_object_content(&h, rest.clone(), d);
        // with no room for this element the reader must refuse; with room it reads exactly the element
        match (&m, r) {
            (None, Err(_)) => {}
            (Some((_, r, n)), Ok((rem, c))) => {
                let (p, q) = (pos_of(&rem), pos_of(&c));
                ensure!(p.start == off + n && q.start == off + r.start && q.len == r.len() && c.as_bytes2() == &b[r.clone()] && rem.as_bytes2() == &b[*n..], "content", "{} with limit {d}: contents at {}..{}, rest at {}; should be {:?} and {n}", hex(b), q.start, q.end, p.start, r);
            }
            (None, Ok((_, c))) => return fail("accepts-deep", format!("{} with limit {d}: read {} octets of contents, the element {}", hex(b), c.len(), if d > 0 && read_tlv(b, 400).is_ok() { "nests deeper than the limit" } else { "is incomplete or malformed" })),
            (Some(_), Err(e)) => return fail("rejects", format!("{} with limit {d}: rejected ({:?}), the element nests within the limit", hex(b), nerr(e))),
        }
        // the same limits apply behind the default readers
        if d == MAX_RECURSION {
            let want = m.map(|(_, r, n)| (b[r].to_vec(), n));
            let got: [(&str, std::result::Result<(Vec<u8>, usize), ErrObs>); 5] = [
                ("Any::parse_ber", Any::parse_ber(at(buf, off)).map(|(r, a)| (a.as_bytes().to_vec(), b.len() - r.len())).map_err(nerr)),
                ("Any::from_ber", Any::from_ber(b).map(|(r, a)| (a.as_bytes().to_vec(), b.len() - r.len())).map_err(nerr)),
                ("ber_get_content", ber_get_content(&h, rest.clone()).map(|(r, c)| (c.as_bytes2().to_vec(), b.len() - r.len())).map_err(nerr)),
                ("AnyIterator", AnyIterator::<BerMode>::new(at(buf, off)).next().map(|x| x.map(|(i, a)| (a.as_bytes().to_vec(), b.len() - i.len())).map_err(|e| perr(e))).unwrap_or_else(|| Err(perr("nothing")))),
                ("Option<Any>", <Option<Any>>::parse_ber(at(buf, off)).map_err(nerr).and_then(|(r, a)| a.map(|a| (a.as_bytes().to_vec(), b.len() - r.len())).ok_or_else(|| perr("absent")))),
            ];
            for (n, g) in got {
                s.evals += 1;
                if n == "AnyIterator" { // reports the item, not what follows it
                    ensure!(g.as_ref().ok().map(|x| &x.0) == want.as_ref().map(|x| &x.0), format!("default-limit/{n}"), "{n} on {}: {:?}, should be {want:?}", hex(b), g); continue; }
                ensure!(g.as_ref().ok() == want.as_ref(), format!("default-limit/{n}"), "{n} on {}: {:?}, should be {want:?}", hex(b), g);
            }
        }
        if h0.len.is_some() && d > 0 {
            let r = DerMode::get_object_content(&h, rest.clone(), d);
            let want = b.get(h0.hlen..h0.hlen.saturating_add(h0.len.unwrap_or(0)));
            ensure!(r.as_ref().ok().map(|(_, c)| c.as_bytes2()) == want, "der-content", "{} as DER with limit {d}: {:?}", hex(b), r.map(|x| x.1.len()).map_err(nerr));
        } else if d > 0 { ensure!(DerMode::get_object_content(&h, rest.clone(), d).is_err(), "der-content", "{}: indefinite length read as DER", hex(b)); }
    }
    Ok(())
}
/// indefinite levels needed below the top element
fn levels(b: &[u8]) -> Option<usize> { (0..400).find(|d| read_tlv(b, *d).is_ok()) }
pub fn c17(s: &mut Src) -> Outcome {
    arena_reset();
    match s.weighted(&[6, 2, 2]) {
        0 => {
            let depth = match s.weighted(&[4, 3, 2]) { 0 => s.below(12), 1 => 40 + s.below(20), _ => s.below(120) } as u32;
            let mut el = nest(s, depth, 2);
            if s.chance(1, 3) { mutate_bytes(s, &mut el); }
            let i = place(s, GClass::ValidBer, el);
            let lv = levels(i.rest());
            let mut limits = vec![MAX_RECURSION, s.below(70), 1];
            if let Some(l) = lv { limits.extend([l, l + 1, l + 2]); }
            s.note(format!("{} levels of {depth}, limits {limits:?}: {}|{}", lv.map(|l| l as i64).unwrap_or(-1), hex(&i.buf[..i.off]), hex(i.rest()))); s.set_key(i.rest());
            s.label(match lv { None => "malformed", Some(l) if l < MAX_RECURSION => "within the default limit", _ => "beyond the default limit" });
            if depth > 0 { s.nontrivial(); }
            checkpoint(s);
            if read_hdr(i.rest()).is_err() { return Ok(()); }
            depth_case(s, i.buf, i.off, &limits)
        }
        1 => { // segmented strings: the decoder follows four levels, refuses far deeper ones
            let k = s.below(12);
            let bits = s.chance(1, 3);
            let str_tag = if bits { 3 } else { *s.pick(&[4u32, 12, 22, 19]) };
            let seg = if bits { 3u32 } else { 4 };
            let n = 1 + s.below(4);
            let text: Vec<u8> = if bits { let mut v = vec![0]; v.extend(s.bytes(n)); v } else { b"Az09"[..n].to_vec() };
            let mut el = tlv(0, false, if k == 0 { str_tag } else { seg }, &text);
            for j in 0..k { let t = if j + 1 == k { str_tag } else { seg }; let mut o = Vec::new(); tag_octets(0, true, t, &mut o); if s.bool() { o.push(0x80); o.extend(el); o.extend([0, 0]); } else { len_octets(el.len(), &mut o); o.extend(el); } el = o; }
            let i = place(s, GClass::ValidBer, el);
            s.note(format!("string {str_tag} in {k} levels: {}", hex(i.elem()))); s.set_key(i.rest()); s.label(if k <= 4 { "segments within the limit" } else { "segments beyond the limit" }); s.nontrivial();
            checkpoint(s);
            for o in registry() {
                let t = match &o.kind { Kind::Octets { borrowed: false } => 4, Kind::Bits => 3, Kind::Str { tag, borrowed: false, .. } => *tag, _ => continue };
                if t != str_tag { continue; }
                for e in o.entries.iter().filter(|e| !e.der) {
                    s.evals += 1;
                    let g = run(o, e, i.buf, i.off);
                    ensure!(g.ok() == (k <= 4), format!("segments/{}", o.name), "{} {}: {} ({k} levels of segments): {}", o.name, e.name, hex(i.elem()), g.short());
                    if let Got::Yes { v, used, .. } = &g {
                        let want = match &o.kind { Kind::Octets { .. } => Val::Bytes(text.clone()), Kind::Bits => Val::Bits(text[1..].iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect()), _ => Val::Str(String::from_utf8(text.clone()).unwrap()) };
                        let v = if e.optional { match v { Val::Some(x) => (**x).clone(), v => v.clone() } } else { v.clone() };
                        ensure!(v == want && *used == i.elen, format!("segments/{}", o.name), "{} {}: {} gives {v:?}", o.name, e.name, hex(i.elem()));
                    }
                }
            }
            Ok(())
        }
        _ => { // every type, hostile nesting: an answer, quickly
            let reg = registry();
            let o = s.pick(reg);
            let unit: &[u8] = *s.pick::<&[u8]>(&[&[0x30u8, 0x80][..], &[0x24, 0x80], &[0x23, 0x80], &[0xa0, 0x80], &[0x31, 0x80], &[0x2c, 0x80], &[0x30, 0x80, 0x04, 0x00], &[0x24, 0x80, 0x04, 0x01, 0x41], &[0x3f, 0x81, 0x00, 0x80]]);
            let n = match s.below(3) { 0 => 40 + s.below(20), 1 => s.below(400), _ => 2000 + s.below(4000) };
            let mut b = Vec::new();
            // start with the type's own tag so that its reader is entered
            let (c, t) = { let v = gen_val(&o.kind, s); let d = der(&o.kind, &v); read_hdr(&d).map(|h| (h.class, h.tag)).unwrap_or((0, 16)) };
            tag_octets(c, true, t, &mut b); b.push(0x80);
            for _ in 0..n { b.extend(unit); }
            if s.bool() { for _ in 0..=n { b.extend([0, 0]); } }
            let buf = keep(&b);
            s.note(format!("{} <- {} units of {} ({} octets)", o.name, n, hex(unit), buf.len())); s.set_key(buf); s.set_key(o.name.as_bytes()); s.label("deep input to every type"); s.nontrivial();
            checkpoint(s);
            for e in &o.entries { s.evals += 1; let _ = run(o, e, buf, 0); }
            Ok(())
        }
    }
}
pub fn c17_fixed(fx: &mut Fixed) {
    // exact limit of every reader, chains of each container
    let mut n = 0;
    for d in 0..130usize {
        if !fx.mine(d as u64) { continue; }
        for unit in [&[0x30u8, 0x80][..], &[0x24, 0x80], &[0xa3, 0x80], &[0x3f, 0x81, 0x00, 0x80], &[0x30, 0x80, 0x04, 0x02, 0, 0], &[0x31, 0x80, 0x05, 0x00]] { for leaf in [&[][..], &[4, 2, 0, 0]] {
            arena_reset();
            let mut b = unit.repeat(d + 1); b.extend(leaf); for _ in 0..=d { b.extend([0, 0]); } b.extend([0, 0]);
            let k = keep(&b); n += 1;
            fx.go(|| format!("{} levels of {}", d + 1, hex(unit)), || { let mut s = Src::replay(&[], 1); depth_case(&mut s, k, 0, &[MAX_RECURSION, d, d + 1, d + 2, d + 3, 1000]) });
        } }
    }
    // huge inputs: depth and size must not exhaust the stack, and the time stays near-linear
    let reg = registry();
    let shapes: Vec<(&str, fn(usize) -> Vec<u8>)> = vec![
        ("indefinite nesting", |n| [0x30u8, 0x80].repeat(n)),
        ("closed indefinite nesting", |n| { let mut b = [0x30u8, 0x80].repeat(n); b.extend(vec![0; 2 * n]); b }),
        ("indefinite string nesting", |n| [0x24u8, 0x80].repeat(n)),
        ("definite nesting", |n| nest_def(n, 0x30)), ("definite string nesting", |n| nest_def(n, 0x24)), ("definite bit string nesting", |n| nest_def(n, 0x23)), ("definite tag nesting", |n| nest_def(n, 0xa0)),
        ("many small elements", |n| { let mut c = vec![]; for _ in 0..n { c.extend([2, 1, 5]); } tlv(0, true, 16, &c) }),
        ("many small segments", |n| { let mut c = vec![]; for _ in 0..n { c.extend([4, 1, 0x41]); } tlv(0, true, 4, &c) }),
        ("many empty segments", |n| { let mut c = vec![]; for _ in 0..n { c.extend([4, 0]); } tlv(0, true, 4, &c) }),
        ("many end-of-contents", |n| { let mut c = vec![0x30, 0x80]; c.extend(vec![0; 2 * n]); c }),
        ("long identifier", |n| { let mut c = vec![0x1f]; c.extend(vec![0x80; n]); c.push(1); c.extend([0, 0]); c }),
        ("long object identifier", |n| tlv(0, false, 6, &[vec![0x81u8; n], vec![1]].concat())), ("many arcs", |n| tlv(0, false, 6, &vec![1u8; n])),
        ("long integer", |n| tlv(0, false, 2, &vec![0x7fu8; n])), ("padded integer", |n| tlv(0, false, 2, &vec![0u8; n])), ("long real", |n| tlv(0, false, 9, &[vec![3u8], vec![b'1'; n]].concat())),
        ("siblings of indefinite", |n| { let mut c = vec![0x30, 0x80]; for _ in 0..n / 2 { c.extend([0x30, 0x80, 0, 0]); } c.extend([0, 0]); c }),
    ];
    let big = if fx.tier_thorough { 1_000_000 } else { 120_000 };
    for (j, (name, f)) in shapes.iter().enumerate() {
        if !fx.mine(j as u64) { continue; }
        arena_reset();
        let b = keep(&f(big));
        let hd = read_hdr(b).map(|h| (h.class, h.tag)).unwrap_or((0, 0));
        for o in reg {
            // own container tag over the same inside, besides the input as it is
            let own = { let mut o2 = Vec::new(); let mut s = Src::replay(&[], 3); let v = gen_val(&o.kind, &mut s); if let Ok(h) = read_hdr(&der(&o.kind, &v)) { if (h.class, h.tag) != hd && b[0] & 0x1f != 0x1f { tag_octets(h.class, b[0] & 0x20 != 0, h.tag, &mut o2); o2.extend(&b[1..]); } } if o2.is_empty() { None } else { Some(keep(&o2)) } };
            for x in [Some(b), own].into_iter().flatten() { for e in &o.entries {
                n += 1;
                fx.go(|| format!("{} {} on {} octets: {name}", o.name, e.name, x.len()), || {
                    let t = Instant::now(); let _ = run(o, e, x, 0); let d = t.elapsed();
                    ensure!(d.as_secs() < 20, format!("slow/{}", o.name), "{} {}: {name} of {} octets took {d:?}", o.name, e.name, x.len()); Ok(()) });
            } }
            if j % 4 == 0 { arena_trim(); }
        }
    }
    fx.count("deep and large inputs", n);
}
fn arena_trim() {}
fn nest_def(n: usize, tag: u8) -> Vec<u8> {
    // built from the inside out in one pass: lengths are those of what is inside
    let mut hdrs: Vec<Vec<u8>> = Vec::new(); let mut len = 3usize;
    for _ in 0..n { let mut h = vec![tag]; len_octets(len, &mut h); len += h.len(); hdrs.push(h); }
    let mut o = Vec::with_capacity(len);
    for h in hdrs.iter().rev() { o.extend(h); }
    o.extend([4, 1, 0x41]); o
}

// ================================================================== C18 tagged types
pub struct TagOps { name: &'static str, kind: fn() -> Kind, run: fn(&mut Src, u8, u32, bool, &Inp) -> Outcome, enc: fn(&mut Src, u8, u32, &Val) -> Outcome }
fn tcmp(s: &mut Src, who: &str, what: &str, want: &R, got: std::result::Result<(Val, usize), ErrObs>, i: &Inp) -> Outcome {
    s.evals += 1;
    match (want, &got) {
        (R::Unk, _) | (R::No, Err(_)) => Ok(()),
        (R::Yes(v, n), Ok((v2, n2))) => { ensure!(v == v2 && n == n2, format!("value/{who}"), "{who} {what} on {}: gives {v2:?} ({n2} octets), it is {v:?} ({n} octets)", hex(i.rest())); Ok(()) }
        (R::Yes(v, _), Err(e)) => fail(format!("rejects/{who}"), format!("{who} {what} on {}: {e:?}, it is {v:?}", hex(i.rest()))),
        (R::No, Ok((v, _))) => fail(format!("accepts/{who}"), format!("{who} {what} on {}: gives {v:?}, it is not such an element", hex(i.rest()))),
    }
}
fn t_run<T>(s: &mut Src, class: u8, tag: u32, explicit: bool, i: &Inp) -> Outcome
where T: LibTy + FromBer<'static, Error> + FromDer<'static, Error> + TryFrom<Any<'static>, Error = Error> + CheckDerConstraints + Tagged + std::fmt::Debug {
    let b = i.rest();
    let cl = cls_of(class); let tg = Tag(tag);
    let what = format!("[{class}/{tag}] {}", if explicit { "EXPLICIT" } else { "IMPLICIT" });
    let k = Kind::Tagged { class, tag, explicit, inner: Box::new(T::kind()) };
    let (wb, mut wd) = (dec(&k, b, false), dec(&k, b, true));
    // padded ENUMERATED contents in DER: a recorded finding of C07
    if wd == R::No && wb != R::No && T::kind() == Kind::Enumerated { wd = R::Unk; }
    let hd = read_hdr(b).ok();
    let used = |r: &[u8]| b.len() - r.len();
    type O = std::result::Result<(Val, usize), ErrObs>;
    let mut v: Vec<(&str, bool, O)> = Vec::new();
    macro_rules! tp { ($k:ident) => {{
        let f = |x: nom::IResult<&'static [u8], TaggedParser<'static, $k, T, Error>, Error>| -> O { x.map(|(r, t)| { (t.as_ref().val(), used(r)) }).map_err(nerr) };
        v.push(("TaggedParser::parse_ber", false, f(TaggedParser::<$k, T, Error>::parse_ber(cl, tg, b))));
        v.push(("TaggedParser::parse_der", true, f(TaggedParser::<$k, T, Error>::parse_der(cl, tg, b))));
        v.push(("builder ber_parser", false, f(TaggedParserBuilder::<$k, Error>::new().with_class(cl).with_tag(tg).ber_parser::<T>().parse(b))));
        v.push(("builder der_parser", true, f(TaggedParserBuilder::<$k, Error>::default().with_tag(tg).with_class(cl).der_parser::<T>().parse(b))));
        // as an option: a tagged parser takes any element
        for (n, r, o) in [("from_ber", TaggedParser::<$k, T, Error>::from_ber(b), <Option<TaggedParser<$k, T, Error>>>::from_ber(b)), ("from_der", TaggedParser::<$k, T, Error>::from_der(b), <Option<TaggedParser<$k, T, Error>>>::from_der(b))] {
            let same = match (&r, &o) { _ if b.is_empty() => matches!(&o, Ok((rest, None)) if rest.is_empty()), (Ok((x, t)), Ok((y, Some(u)))) => x.len() == y.len() && t.as_ref().val() == u.as_ref().val() && t.header.tag() == u.header.tag(), (Err(_), Err(_)) => true, _ => false };
            ensure!(same, "parser-option", "TaggedParser::{n} on {}: {:?}, as an option {:?}", hex(b), r.map(|(x, t)| (x.len(), t.as_ref().val())), o.map(|(x, t)| (x.len(), t.map(|t| t.as_ref().val()))));
        }
        // header seen with the value
        for (n, r) in [("from_ber", TaggedParser::<$k, T, Error>::from_ber(b)), ("from_der", TaggedParser::<$k, T, Error>::from_der(b))] { if let (Ok((_, t)), Some(h)) = (r, &hd) {
            ensure!(t.class() as u8 == h.class && t.tag().0 == h.tag && t.header.constructed() == h.cons && t.assert_class(cls_of(h.class)).is_ok() && t.assert_tag(Tag(h.tag)).is_ok() && t.assert_tag(Tag(h.tag ^ 1)).is_err() && DynTagged::class(&t) as u8 == h.class && DynTagged::tag(&t).0 == h.tag && DynTagged::constructed(&t) == h.cons, "parser-header", "TaggedParser::{n} on {}: header {:?}", hex(b), t.header);
        } }
    }} }
    if explicit { tp!(Explicit) } else { tp!(Implicit) }
    let e = |b: &'static [u8], d: bool| -> ParseResult<'static, T, Error> { if d { T::from_der(b) } else { T::from_ber(b) } };
    let im = |h: Header<'static>, d: &'static [u8], der: bool| -> ParseResult<'static, T, Error> {
        let a = Any::from_header_and_data(h, d).with_class(T::CLASS).with_tag(T::TAG);
        if der { T::check_constraints(&a).map_err(nom::Err::Error)?; }
        T::try_from(a).map(|t| (&b[..0], t)).map_err(nom::Err::Error)
    };
    let cons = hd.as_ref().map_or(false, |h| h.cons);
    if explicit {
        v.push(("TaggedValue builder", false, TaggedParserBuilder::<Explicit>::explicit().with_class(cl).with_tag(tg).ber_parser::<T>().parse(b).map(|(r, t)| (t.inner.val(), used(r))).map_err(nerr)));
        let same_class = hd.as_ref().map_or(true, |h| h.class == class);
        if same_class {
            v.push(("parse_der_tagged_explicit", true, parse_der_tagged_explicit::<_, T, Error>(tag).parse(b).map(|(r, t)| (t.inner.val(), used(r))).map_err(nerr)));
            if cons || hd.is_none() { v.push(("parse_der_tagged_explicit_g", true, parse_der_tagged_explicit_g::<_, T, _, Error>(tg, |d, _h| T::from_der(d)).parse(b).map(|(r, t)| (t.val(), used(r))).map_err(nerr))); }
        }
        if cons || hd.is_none() {
            v.push(("from_ber_and_then", false, TaggedParser::<Explicit, T, Error>::from_ber_and_then(cl, tag, b, |d| T::from_ber(d)).map(|(r, t)| (t.val(), used(r))).map_err(nerr)));
            v.push(("from_der_and_then", true, TaggedParser::<Explicit, T, Error>::from_der_and_then(cl, tag, b, |d| T::from_der(d)).map(|(r, t)| (t.val(), used(r))).map_err(nerr)));
            v.push(("Any::from_ber_and_then", false, Any::from_ber_and_then(cl, tag, b, |d| T::from_ber(d)).map(|(r, t)| (t.val(), used(r))).map_err(nerr)));
            v.push(("Any::from_der_and_then", true, Any::from_der_and_then(cl, tag, b, |d| T::from_der(d)).map(|(r, t)| (t.val(), used(r))).map_err(nerr)));
        }
    } else {
        v.push(("TaggedValue builder", true, TaggedParserBuilder::<Implicit>::implicit().with_class(cl).with_tag(tg).der_parser::<T>().parse(b).map(|(r, t)| (t.inner.val(), used(r))).map_err(nerr)));
        if hd.as_ref().map_or(true, |h| h.class == class) {
            v.push(("parse_der_tagged_implicit", true, parse_der_tagged_implicit::<_, T, Error>(tg).parse(b).map(|(r, t)| (t.inner.val(), used(r))).map_err(nerr)));
            v.push(("parse_der_tagged_implicit_g", true, parse_der_tagged_implicit_g::<_, T, _, Error>(tag, |d, t, h| { if t != tg || h.tag() != T::TAG || h.class() != T::CLASS { return Err(nom::Err::Error(Error::InvalidTag)); } im(h, d, true) }).parse(b).map(|(r, t)| (t.val(), used(r))).map_err(nerr)));
        }
    }
    for (n, d, g) in v { tcmp(s, n, &format!("{} {what}", std::any::type_name::<T>()), if d { &wd } else { &wb }, g, i)?; }
    // optional: none when the next element has another tag number, error when the class differs
    let p = if class == 2 && tag % 2 == 0 { if tag % 4 == 0 { OptTaggedParser::from(tag) } else { OptTaggedParser::from(Tag(tag)) } } else if tag % 2 == 0 { OptTaggedParser::new(cl, tg) } else { match class { 0 => OptTaggedParser::universal(tag), 1 => OptTaggedParser::application(tag), 2 => OptTaggedParser::tagged(tag), _ => OptTaggedParser::private(tag) } };
    for d in [false, true] {
        let w = if d { &wd } else { &wb };
        let any_ok = read_tlv(b, SURE_DEPTH).is_ok() && !(d && hd.as_ref().map_or(false, |h| h.len.is_none()));
        let o = R::Yes(Val::None, 0);
        let sure = hd.as_ref().map_or(true, |h| h.min_tag && h.len.is_some() && (h.min_len || !d));
        let w = if b.is_empty() { &o } else if !sure { &R::Unk } else if !any_ok { &R::No } else if hd.as_ref().map_or(false, |h| h.tag != tag) { &o } else if explicit && !cons { &R::Unk } else { w };
        // which of the two modes reads the outer element does not matter to the function given the header and contents
        let h2 = |h: Header, dd: &'static [u8]| -> ParseResult<'static, Val, Error> { if h.tag() != tg || h.class() != cl || h.constructed() != cons { return Err(nom::Err::Error(Error::InvalidTag)); } let h = Header::new(h.class(), h.constructed(), h.tag(), h.length()); if explicit { e(dd, d).map(|(r, t)| (r, t.val())) } else { im(h, dd, d).map(|(r, t)| (r, t.val())) } };
        let g = if d { p.parse_der(b, h2) } else { p.parse_ber(b, h2) };
        let g = g.map(|(r, o)| match o { None => (Val::None, used(r)), Some(v) => (v, used(r)) }).map_err(nerr);
        tcmp(s, if d { "OptTaggedParser::parse_der" } else { "OptTaggedParser::parse_ber" }, &format!("{} {what}", std::any::type_name::<T>()), w, g, i)?;
    }
    Ok(())
}
fn t_enc<T>(s: &mut Src, class: u8, tag: u32, v: &Val) -> Outcome
where T: LibTy + ToBer + ToDer + DynTagged + BerParser<'static> + std::fmt::Debug {
    let mk = || T::build(v);
    if mk().is_none() { return Ok(()); }
    let cl = cls_of(class);
    let k = T::kind();
    let inner = match mk().map(|x| x.to_der_vec()) { Some(Ok(x)) if matches!(k, Kind::Real) => x, _ => der(&k, v) };
    let cons = inner[0] & 0x20 != 0;
    let want_e = tlv(class, true, tag, &inner);
    let want_i = { let (_, r, _) = read_tlv(&inner, 100).unwrap(); tlv(class, cons, tag, &inner[r]) };
    let set = any_kind(&k, &|k| matches!(k, Kind::SetOf(_, true)));
    let x = mk().unwrap();
    let show = format!("[{class}/{tag}] {} {v:?}", std::any::type_name::<T>());
    macro_rules! chk { ($how:expr, $want:expr, $o:expr) => {{
        let o = $o; let want: &Vec<u8> = $want;
        for (m, e, l) in [("DER", o.to_der_vec(), o.der_total_len()), ("BER", o.to_ber_vec(), o.ber_total_len())] {
            s.evals += 1;
            if set { continue; }
            ensure!(e.as_ref().ok() == Some(want), format!("encode/{}", $how), "{} of {show} in {m}: {:?}, should be {}", $how, e.as_ref().map(|x| hex(x)), hex(want));
            ensure!(l == Length::Definite(want.len()), format!("length/{}", $how), "{} of {show} in {m}: announces {l:?}, encodes {} octets", $how, want.len());
        }
        let mut w = Vec::new(); let (c, k2, t) = o.der_tag_info(); let n = o.der_write_header(&mut w); let h = read_hdr(want).unwrap();
        ensure!(c as u8 == class && t.0 == tag && k2 == h.cons && n.as_ref().ok() == Some(&h.hlen) && w == want[..h.hlen], format!("header/{}", $how), "{} of {show}: header {:?} {} (constructed {k2}), should be {}", $how, n, hex(&w), hex(&want[..h.hlen]));
    }} }
    chk!("explicit()", &want_e, AsTaggedExplicit::<<T as BerParser<'static>>::Error>::explicit(mk().unwrap(), cl, tag));
    chk!("implicit()", &want_i, AsTaggedImplicit::<<T as BerParser<'static>>::Error>::implicit(mk().unwrap(), cl, cons, tag));
    chk!("TaggedParser::new_explicit", &want_e, TaggedParser::<Explicit, T, Error>::new_explicit(cl, tag, mk().unwrap()));
    chk!("TaggedParser::new_implicit", &want_i, TaggedParser::<Implicit, T, Error>::new_implicit(cl, cons, tag, mk().unwrap()));
    if !set {
        for (m, want) in [("explicit", &want_e), ("implicit", &want_i)] { for d in [false, true] {
            let mut w = Vec::new();
            let n = match (m, d) { ("explicit", false) => x.ber_encode_tagged_explicit(cl, tag, &mut w), ("explicit", true) => x.der_encode_tagged_explicit(cl, tag, &mut w), (_, false) => x.ber_encode_tagged_implicit(cl, tag, &mut w), _ => x.der_encode_tagged_implicit(cl, tag, &mut w) };
            s.evals += 1;
            ensure!(n.as_ref().ok() == Some(&want.len()) && &w == want, format!("encode_tagged_{m}"), "{show}: {m} tagged encoding is {:?} {}, should be {}", n, hex(&w), hex(want));
        } }
    }
    Ok(())
}
macro_rules! tag_ops { ($($t:ty),* $(,)?) => { vec![$(TagOps { name: stringify!($t), kind: <$t as LibTy>::kind, run: t_run::<$t>, enc: t_enc::<$t> }),*] } }
fn tag_list() -> &'static [TagOps] {
    static L: std::sync::OnceLock<Vec<TagOps>> = std::sync::OnceLock::new();
    L.get_or_init(|| tag_ops![u32, i16, u128, bool, Integer<'static>, OctetString<'static>, BitString, Utf8String<'static>, BmpString<'static>, PrintableString<'static>, String, UtcTime, GeneralizedTime, Sequence<'static>, Set<'static>, Vec<u16>, SequenceOf<bool>, Null, Enumerated, SetOf<u8>, BTreeSet<u32>, Real])
}
pub fn c18(s: &mut Src) -> Outcome {
    arena_reset();
    match s.weighted(&[5, 3, 3, 2]) {
        3 => crate::generic::tagged_agrees(s, registry),
        0 => {
            let t = s.pick(tag_list());
            let class = *s.pick(&[2u8, 2, 1, 3, 0]);
            let tag = match s.below(4) { 0 => s.below(4) as u32, 1 => *s.pick(&[30u32, 31, 127, 128, 16383, 16384, u32::MAX]), 2 => s.below(31) as u32, _ => gen_tagnum(s, 2) }.max(if class == 0 { 1 } else { 0 });
            let explicit = s.bool();
            let kind = Kind::Tagged { class, tag, explicit, inner: Box::new((t.kind)()) };
            // now and then an element for another tag, class, form, or the bare inner element
            let gk = match s.below(8) { 0 => Kind::Tagged { class, tag, explicit: !explicit, inner: Box::new((t.kind)()) }, 1 => Kind::Tagged { class: (class + 1 + s.below(3) as u8) % 4, tag, explicit, inner: Box::new((t.kind)()) }, 2 => Kind::Tagged { class, tag: tag ^ 1 << s.below(8), explicit, inner: Box::new((t.kind)()) }, 3 => (t.kind)(), _ => kind };
            let others = [&(t.kind)()];
            let (c, el) = element(s, &gk, &others, &[4, 3, 3, 3, 1, 1, 0, 0]);
            let i = if s.chance(1, 40) { Inp { class: c, buf: keep(&[]), off: 0, elen: 0 } } else { place(s, c, el) };
            s.label(c.name()); s.note(format!("{} [{class}/{tag}] explicit {explicit} <- {}", t.name, hex(i.rest()))); s.set_key(i.rest()); s.set_key(t.name.as_bytes()); s.set_key(&[class, tag as u8, explicit as u8]);
            s.nontrivial();
            checkpoint(s);
            (t.run)(s, class, tag, explicit, &i)
        }
        1 => {
            let t = s.pick(tag_list());
            let class = s.below(4) as u8;
            let tag = gen_tagnum(s, 2);
            let v = gen_val(&(t.kind)(), s);
            s.note(format!("{} {v:?} tagged [{class}/{tag}]", t.name)); s.set_key(format!("{v:?}{class}{tag}").as_bytes()); s.label("encoded"); s.nontrivial();
            checkpoint(s);
            (t.enc)(s, class, tag, &v)
        }
        _ => { static F: std::sync::OnceLock<Vec<&'static Ops>> = std::sync::OnceLock::new(); fam_case(s, family(&F, |o| any_kind(&o.kind, &|k| matches!(k, Kind::Tagged { .. })))) }
    }
}
/// every class and a sweep of tag numbers: tagged encodings of one value decode only under their own class, number and form
pub fn c18_fixed(fx: &mut Fixed) {
    let tags: Vec<u32> = (0..140).chain([255, 256, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456, u32::MAX - 1, u32::MAX]).collect();
    let mut n = 0;
    for (j, t) in tags.iter().enumerate() {
        if !fx.mine(j as u64) { continue; }
        arena_reset();
        for class in 0..4u8 { for (name, inner) in [("u32", vec![2u8, 1, 5]), ("OctetString", vec![4, 2, 0, 0]), ("Sequence", vec![0x30, 2, 5, 0])] { for explicit in [true, false] {
            let el = if explicit { tlv(class, true, *t, &inner) } else { tlv(class, inner[0] & 0x20 != 0, *t, &inner[2..]) };
            let op = tag_list().iter().find(|o| o.name.starts_with(name)).unwrap();
            for (c2, t2) in [(class, *t), ((class + 1) % 4, *t), (class, t ^ 1), (class, t ^ 0x80), (class, t.wrapping_add(1 << 7))] {
                if c2 == 0 && t2 == 0 || class == 0 && *t == 0 { continue; }
                n += 1;
                let k = keep(&el);
                fx.go(|| format!("{name} [{c2}/{t2}] <- {}", hex(&el)), || { let mut s = Src::replay(&[], 1); (op.run)(&mut s, c2, t2, explicit, &Inp { class: GClass::Spicy, buf: k, off: 0, elen: k.len() }) });
            }
        } } }
    }
    fx.count("tag, class and form combinations", n);
}

// ================================================================== C19 optional elements
pub fn c19(s: &mut Src) -> Outcome {
    arena_reset();
    let reg = registry();
    match s.weighted(&[6, 2, 2]) {
        0 => { // every optional entry point of every type
            let o = s.pick(reg);
            let w: [u64; 8] = [3, 2, 4, 3, 1, 6, 1, 1];
            let mut i = input(s, o, reg, &w);
            if s.chance(1, 20) { i = Inp { class: GClass::Other, buf: keep(&i.buf[..i.off]), off: i.off, elen: 0 }; }
            s.label(if i.rest().is_empty() { "empty input" } else { i.class.name() });
            s.note(format!("{} OPTIONAL <- {}|{}", o.name, hex(&i.buf[..i.off]), hex(i.rest()))); s.set_key(i.rest()); s.set_key(o.name.as_bytes());
            checkpoint(s);
            let opt = if is_opt(&o.kind) { o.kind.clone() } else { Kind::Opt(Box::new(o.kind.clone())) };
            let (b, d) = (dec(&opt, i.rest(), false), dec(&opt, i.rest(), true));
            if b != R::Unk { s.nontrivial(); }
            for e in o.entries.iter().filter(|e| e.optional || is_opt(&o.kind)) {
                let m = if e.der { &d } else { &b };
                // DER restrictions on the value are C07's subject
                let m = match (e.der, m, &b) { (true, R::No, R::Yes(..)) => &R::Unk, (_, m, _) => m };
                s.label(match m { R::Yes(Val::None, _) => "absent", R::Yes(..) => "present", R::No => "malformed", R::Unk => "undecided" });
                against(s, o, e, &i, m)?;
                // without consuming anything
                if let (R::Yes(Val::None, 0), Got::Yes { rem: Rem::I(r), .. }) = (m, run(o, e, i.buf, i.off)) { ensure!(pos_of(&r).start == i.off && r.len() == i.rest().len(), format!("absent-consumes/{}", o.name), "{} {}: absent, remaining input is {}..{}", o.name, e.name, pos_of(&r).start, pos_of(&r).end); }
            }
            Ok(())
        }
        1 => { // encoding
            let have: Vec<usize> = (0..reg.len()).filter(|i| matches!(reg[*i].kind, Kind::Opt(_))).collect();
            let o = &reg[*s.pick(&have)];
            let Kind::Opt(inner) = &o.kind else { return Ok(()) };
            let v = if s.chance(1, 3) { Val::None } else { Val::Some(Box::new(gen_val(inner, s))) };
            let want = match &v { Val::Some(x) => der(inner, x), _ => vec![] };
            s.note(format!("{} {v:?}", o.name)); s.set_key(format!("{}{v:?}", o.name).as_bytes()); s.label(if want.is_empty() { "absent encoded" } else { "present encoded" }); s.nontrivial();
            checkpoint(s);
            let Some(x) = (o.build)(&v) else { return Ok(()) };
            for (m, e) in [("DER", &o.der), ("BER", &o.ber)] { if let Some(e) = e { for by_ref in [false, true] {
                s.evals += 1;
                let me = (e.meta)(&*x, by_ref);
                ensure!(me.vec.as_ref().ok() == Some(&want), format!("encode/{}/{m}", o.name), "{}: {v:?} encodes as {:?}, should be {}", o.name, me.vec.map(|x| hex(&x)), hex(&want));
                ensure!(me.total == Some(want.len()), format!("length/{}/{m}", o.name), "{}: {v:?} announces {:?} octets in {m}, writes {}", o.name, me.total, want.len());
                for what in [0u8, 5] { let mut w = ScriptWriter::plain(); let r = if by_ref { (e.w_ref)(&*x, what, 2, 3, &mut w) } else { (e.w)(&*x, what, 2, 3, &mut w) }; ensure!(r == Ok(want.len()) && w.out == want, format!("write/{}/{m}", o.name), "{}: writing {v:?} in {m} ({what}): {r:?} {}", o.name, hex(&w.out)); }
                if want.is_empty() { for what in [1u8, 2] { let mut w = ScriptWriter::plain(); let r = (e.w)(&*x, what, 2, 3, &mut w); ensure!(r == Ok(0) && w.out.is_empty(), format!("absent-writes/{}/{m}", o.name), "{}: absent value writes {} ({r:?})", o.name, hex(&w.out)); } ensure!(me.content == Some(0), format!("absent-length/{}/{m}", o.name), "{}: absent value announces {:?} octets of contents", o.name, me.content); }
            } } }
            Ok(())
        }
        _ => { // optional members followed by other elements: each one is taken exactly when its tag comes next
            let mut c = Vec::new();
            let a = if s.bool() { Some(s.byte()) } else { None };
            let b = if s.bool() { let n = s.below(5); Some(s.bytes(n)) } else { None };
            let x: Vec<i8> = { let n = s.below(4); (0..n).map(|_| s.byte() as i8).collect() };
            let t = s.bool(); let d = if s.bool() { Some(s.below(4) as u32) } else { None };
            let enc_len = |o: &mut Vec<u8>, s: &mut Src, el: Vec<u8>| if s.chance(1, 4) { let (h, r, _) = read_tlv(&el, 5).unwrap(); tag_octets(h.class, h.cons, h.tag, o); o.push(0x82); o.extend((r.len() as u16).to_be_bytes()); o.extend(&el[r]); } else { o.extend(el) };
            if let Some(a) = a { let e = tlv(2, true, 0, &der(&u8::kind(), &a.val())); enc_len(&mut c, s, e); }
            if let Some(b) = &b { let e = tlv(2, false, 1, b); enc_len(&mut c, s, e); }
            if let Some(d) = d { let e = der(&u32::kind(), &d.val()); enc_len(&mut c, s, e); }
            let e = der(&<Vec<i8>>::kind(), &x.val()); enc_len(&mut c, s, e);
            let e = der(&bool::kind(), &t.val()); enc_len(&mut c, s, e);
            let k = keep(&c);
            s.note(format!("optional run {}", hex(k))); s.set_key(k); s.label("run of optional elements"); s.nontrivial();
            checkpoint(s);
            s.evals += 4;
            let want = (a, b.clone(), d, x.clone(), t);
            fn err<E: std::fmt::Debug>(w: &str, e: E, k: &[u8]) -> Outcome { fail(format!("run/{w}"), format!("{w}: {} does not decode: {e:?}", hex(k))) }
            macro_rules! chain { ($w:literal, $m:ident, $start:expr, $ok:ty) => {{
                let r = (|| -> std::result::Result<_, nom::Err<_>> {
                    let i = $start;
                    let (i, a) = <Option<Tx<u8, 0>>>::$m(i)?;
                    let (i, b) = <Option<Ti<OctetString, 1>>>::$m(i)?;
                    let (i, n) = <Option<BitString>>::$m(i)?;
                    let (i, d) = <Option<u32>>::$m(i)?;
                    let (i, x) = <Vec<i8>>::$m(i)?;
                    let (i, t) = bool::$m(i)?;
                    let (i, z) = <Option<Oid>>::$m(i)?;
                    let rl: &$ok = &i;
                    Ok(((a.map(|x| x.into_inner()), b.map(|x| x.into_inner().as_ref().to_vec()), d, x, t), n.is_none() && z.is_none() && rl.len() == 0))
                })();
                match r { Ok((g, rest)) => ensure!(g == want && rest, concat!("run/", $w), "{}: {} gives {g:?} ({rest}), should be {want:?}", $w, hex(k)), Err(e) => return err($w, nerr::<_>(e), k) }
            }} }
            chain!("parse_ber", parse_ber, Input::from(k), Input);
            chain!("parse_der", parse_der, Input::from(k), Input);
            {
                let r = (|| -> std::result::Result<_, nom::Err<Error>> {
                    let (i, a) = OptTaggedExplicit::<u8, Error, 0>::from_der(k)?;
                    let (i, b) = OptTaggedImplicit::<OctetString, Error, 1>::from_der(i)?;
                    let (i, d) = <Option<u32>>::from_der(i)?;
                    let (i, x) = <Vec<i8>>::from_der(i)?;
                    let (i, t) = bool::from_der(i)?;
                    Ok(((a.map(|x| x.into_inner()), b.map(|x| x.into_inner().as_ref().to_vec()), d, x, t), i.is_empty()))
                })();
                match r { Ok((g, rest)) => ensure!(g == want && rest, "run/from_der", "from_der: {} gives {g:?}, should be {want:?}", hex(k)), Err(e) => return err("from_der", nerr(e), k) }
            }
            {
                let r = (|| -> std::result::Result<_, nom::Err<Error>> {
                    let (i, a) = <Option<Tx<u8, 0>>>::from_ber(k)?;
                    let (i, b) = <Option<Ti<OctetString, 1>>>::from_ber(i)?;
                    let (i, d) = <Option<u32>>::from_ber(i)?;
                    let (i, x) = <Vec<i8>>::from_ber(i)?;
                    let (i, t) = bool::from_ber(i)?;
                    Ok(((a.map(|x| x.into_inner()), b.map(|x| x.into_inner().as_ref().to_vec()), d, x, t), i.is_empty()))
                })();
                match r { Ok((g, rest)) => ensure!(g == want && rest, "run/from_ber", "from_ber: {} gives {g:?}, should be {want:?}", hex(k)), Err(e) => return err("from_ber", nerr(e), k) }
            }
            Ok(())
        }
    }
}

// ================================================================== C22 views of one constructed element
type Views = Vec<(&'static str, bool, std::result::Result<Vec<Val>, String>)>;
pub struct SeqOps { name: &'static str, kind: fn() -> Kind, views: fn(&Inp, bool, &'static [u8], &mut Views) -> Outcome, model: fn(&mut Src) -> Outcome }
fn drain<T: LibTy, E: std::fmt::Debug>(n: &str, it: &mut dyn Iterator<Item = std::result::Result<T, E>>, limit: usize, one_error: bool) -> std::result::Result<(Vec<Val>, Option<String>), Fail> {
    let mut v = Vec::new(); let mut err = None;
    for _ in 0..limit + 3 {
        match it.next() {
            None => { for _ in 0..3 { if it.next().is_some() { return Err(Fail { sig: format!("after-end/{n}"), msg: format!("{n}: yields an element after its end") }); } } return Ok((v, err)); }
            Some(Ok(t)) => { if err.is_some() && one_error { return Err(Fail { sig: format!("after-error/{n}"), msg: format!("{n}: yields an element after an error") }); } v.push(t.val()); }
            Some(Err(e)) => { if err.is_some() && one_error { return Err(Fail { sig: format!("after-error/{n}"), msg: format!("{n}: yields a second error") }); } if err.is_none() { err = Some(format!("{e:?}")); } }
        }
    }
    Err(Fail { sig: format!("endless/{n}"), msg: format!("{n}: more items than the contents hold") })
}
fn v_views<T>(i: &Inp, set: bool, content: &'static [u8], v: &mut Views) -> Outcome
where T: LibTy + FromBer<'static, Error> + FromDer<'static, Error> + BerParser<'static, Error = BerError<Input<'static>>> + DerParser<'static, Error = BerError<Input<'static>>> + TryFrom<Any<'static>, Error = Error> + CheckDerConstraints + DerAutoDerive + Tagged + std::fmt::Debug {
    let b = i.rest();
    let p = || at(i.buf, i.off);
    fn vals<T: LibTy>(x: impl IntoIterator<Item = T>) -> Vec<Val> { x.into_iter().map(|t| t.val()).collect() }
    fn se<E: ErrInfo>(e: nom::Err<E>) -> String { format!("{:?}", nerr(e)) }
    let lim = content.len() + 2;
    // typed and generic collections
    macro_rules! own { ($n:literal, $der:literal, $e:expr) => { { let r = $e; v.push(($n, $der, r)); } } }
    if !set {
        own!("Vec::parse_ber", false, <Vec<T>>::parse_ber(p()).map(|x| vals(x.1)).map_err(se));
        own!("Vec::from_ber", false, <Vec<T>>::from_ber(b).map(|x| vals(x.1)).map_err(se));
        own!("Vec::parse_der", true, <Vec<T>>::parse_der(p()).map(|x| vals(x.1)).map_err(se));
        own!("Vec::from_der", true, <Vec<T> as FromDer<Error>>::from_der(b).map(|x| vals(x.1)).map_err(se));
        own!("SequenceOf::parse_ber", false, <SequenceOf<T>>::parse_ber(p()).map(|x| vals(x.1.into_vec())).map_err(se));
        own!("SequenceOf::parse_der", true, <SequenceOf<T>>::parse_der(p()).map(|x| vals(Vec::from(x.1))).map_err(se));
        own!("SequenceOf::from_ber", false, <SequenceOf<T>>::from_ber(b).map(|x| vals(x.1.into_iter_owned())).map_err(se));
        own!("SequenceOf::from_der", true, <SequenceOf<T> as FromDer<Error>>::from_der(b).map(|x| vals(x.1.into_vec())).map_err(se));
        own!("AnySequence+TryFrom", false, AnySequence::parse_ber(p()).map_err(se).and_then(|x| x.1.iter().map(|a| T::try_from(Any::new(a.header.clone(), a.data.clone())).map(|t| t.val()).map_err(|e| format!("{e:?}"))).collect()));
        own!("AnySequence+check+TryFrom", true, AnySequence::parse_der(p()).map_err(se).and_then(|x| x.1.iter().map(|a| { T::check_constraints(a).map_err(|e| format!("{e:?}"))?; T::try_from(Any::new(a.header.clone(), a.data.clone())).map(|t| t.val()).map_err(|e| format!("{e:?}")) }).collect()));
        own!("from_ber_and_then", false, Sequence::from_ber_and_then::<_, _, Error>(b, |d| Ok((&d[..0], SequenceIterator::<T, BerMode>::new(d).collect::<std::result::Result<Vec<T>, Error>>().map_err(nom::Err::Error)?))).map(|x| vals(x.1)).map_err(se));
        own!("from_der_and_then", true, Sequence::from_der_and_then::<_, _, Error>(b, |d| Ok((&d[..0], SequenceIterator::<T, DerMode>::new(d).collect::<std::result::Result<Vec<T>, Error>>().map_err(nom::Err::Error)?))).map(|x| vals(x.1)).map_err(se));
        own!("parse_ber_and_then", false, Sequence::parse_ber_and_then::<_, _, BerError<Input>>(p(), |_h, d| AnyIterator::<BerMode>::new(d).try_parse_collect::<Vec<T>, T>()).map(|x| vals(x.1)).map_err(se));
        own!("parse_der_and_then", true, Sequence::parse_der_and_then::<_, _, BerError<Input>>(p(), |_h, d| AnyIterator::<DerMode>::new(d).try_parse_collect::<Vec<T>, T>()).map(|x| vals(x.1)).map_err(se));
    } else {
        own!("SetOf::parse_ber", false, <SetOf<T>>::parse_ber(p()).map(|x| vals(x.1.into_vec())).map_err(se));
        own!("SetOf::parse_der", true, <SetOf<T>>::parse_der(p()).map(|x| vals(Vec::from(x.1))).map_err(se));
        own!("SetOf::from_ber", false, <SetOf<T>>::from_ber(b).map(|x| vals(x.1.into_vec())).map_err(se));
        own!("SetOf::from_der", true, <SetOf<T> as FromDer<Error>>::from_der(b).map(|x| vals(x.1.into_vec())).map_err(se));
        own!("set from_ber_and_then", false, Set::from_ber_and_then::<_, _, Error>(b, |d| Ok((&d[..0], SetIterator::<T, BerMode>::new(d).collect::<std::result::Result<Vec<T>, Error>>().map_err(nom::Err::Error)?))).map(|x| vals(x.1)).map_err(se));
        own!("set from_der_and_then", true, Set::from_der_and_then::<_, _, Error>(b, |d| Ok((&d[..0], SetIterator::<T, DerMode>::new(d).collect::<std::result::Result<Vec<T>, Error>>().map_err(nom::Err::Error)?))).map(|x| vals(x.1)).map_err(se));
        own!("set parse_ber_and_then", false, Set::parse_ber_and_then::<_, _, BerError<Input>>(p(), |_h, d| AnyIterator::<BerMode>::new(d).try_parse_collect::<Vec<T>, T>()).map(|x| vals(x.1)).map_err(se));
        own!("set parse_der_and_then", true, Set::parse_der_and_then::<_, _, BerError<Input>>(p(), |_h, d| AnyIterator::<DerMode>::new(d).try_parse_collect::<Vec<T>, T>()).map(|x| vals(x.1)).map_err(se));
    }
    // the raw container and everything it offers
    macro_rules! raw { ($ty:ident, $ber_of:ident, $der_of:ident, $der_into:ident, $der_into_ref:ident) => {{
        for mode in [false, true] {
            let c = if mode { $ty::parse_der(p()).map(|x| x.1).map_err(se) } else { $ty::parse_ber(p()).map(|x| x.1).map_err(se) };
            let c = match c { Ok(c) => c, Err(e) => { v.push((concat!(stringify!($ty), " itself"), mode, Err(e))); continue } };
            // borrowed views need a container that lives as long as what they give back
            let c: &'static $ty<'static> = Box::leak(Box::new(c));
            LEAK.with(|l| l.borrow_mut().push(c as *const $ty as *mut $ty as usize));
            ensure!(c.as_ref() == content && c.as_raw_slice().map_or(true, |x| x == content), concat!("content/", stringify!($ty)), "{}: holds {} instead of {}", stringify!($ty), hex(c.as_ref()), hex(content));
            if !mode {
                v.push((concat!(stringify!($ty), "::ber_iter"), false, res(drain("ber_iter", &mut c.ber_iter::<T, Error>(), lim, true)?)));
                v.push((concat!(stringify!($ty), "::ber_*_of"), false, c.$ber_of::<T, Error>().map(vals).map_err(|e| format!("{e:?}"))));
            }
            if mode {
                v.push((concat!(stringify!($ty), "::der_iter"), true, res(drain("der_iter", &mut c.der_iter::<T, Error>(), lim, true)?)));
                v.push((concat!(stringify!($ty), "::der_*_of"), true, c.$der_of::<T, Error>().map(vals).map_err(|e| format!("{e:?}"))));
                v.push((concat!(stringify!($ty), "::into_der_*_of_ref"), true, $ty::new(std::borrow::Cow::Borrowed(content)).$der_into_ref::<T, Error>().map(vals).map_err(|e| format!("{e:?}"))));
            }
            v.push((concat!(stringify!($ty), "::and_then"), mode, $ty::new(std::borrow::Cow::Borrowed(content)).and_then::<_, _, Error>(|d| match d { std::borrow::Cow::Borrowed(d) => all_of::<T>(d, mode), std::borrow::Cow::Owned(o) => all_of::<T>(Box::leak(o.into_boxed_slice()), mode) }).map(|x| x.1).map_err(se)));
            v.push((concat!(stringify!($ty), "::parse"), mode, c.parse::<_, _, Error>(|d| all_of::<T>(d, mode)).map(|x| x.1).map_err(se)));
            v.push((concat!(stringify!($ty), "::parse_into"), mode, $ty::new(std::borrow::Cow::Borrowed(content)).parse_into::<_, _, Error>(|d| all_of::<T>(d, mode)).map(|x| x.1).map_err(se)));
        }
    }} }
    if set { raw!(Set, ber_set_of, der_set_of, into_der_set_of, into_der_set_of_ref); } else { raw!(Sequence, ber_sequence_of, der_sequence_of, into_der_sequence_of, into_der_sequence_of_ref); }
    // iterators over the contents; a container that is not itself acceptable in a mode is reported by the entries above
    let co = i.off + (content.as_ptr() as usize - b.as_ptr() as usize);
    let ci = || { use nom::Input as _; Input::from(i.buf).take_from(co).take(content.len()) };
    for (n, mode) in [("SequenceIterator BER", false), ("SequenceIterator DER", true)] { let d = if mode { drain(n, &mut SequenceIterator::<T, DerMode>::new(content), lim, true)? } else { drain(n, &mut SequenceIterator::<T, BerMode>::new(content), lim, true)? }; prefix::<T>(n, &d, content, mode)?; }
    for (n, mode) in [("SequenceIteratorInput BER", false), ("SequenceIteratorInput DER", true)] { let d = if mode { drain(n, &mut SequenceIteratorInput::<T, DerMode, BerError<Input>>::new(ci()), lim, true)? } else { drain(n, &mut SequenceIteratorInput::<T, BerMode, BerError<Input>>::new(ci()), lim, true)? }; prefix::<T>(n, &d, content, mode)?; }
    any_iter(i, content, co)
}
thread_local! { static LEAK: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) }; }
trait IntoOwned { type I; fn into_iter_owned(self) -> Self::I; }
impl<T> IntoOwned for SequenceOf<T> { type I = std::vec::IntoIter<T>; fn into_iter_owned(self) -> Self::I { let v: Vec<T> = self.into(); v.into_iter() } }
fn res(x: (Vec<Val>, Option<String>)) -> std::result::Result<Vec<Val>, String> { match x.1 { None => Ok(x.0), Some(e) => Err(e) } }
fn all_of<T: LibTy + for<'a> FromBerDer<'a>>(d: &[u8], der: bool) -> ParseResult<'_, Vec<Val>, Error> {
    let mut v = Vec::new(); let mut d = d;
    while !d.is_empty() { let (r, t) = T::either(d, der)?; v.push(t); d = r; }
    Ok((d, v))
}
/// one value decoded from a slice of any lifetime, observed at once
pub trait FromBerDer<'a> { fn either(d: &'a [u8], der: bool) -> ParseResult<'a, Val, Error>; }
impl<'a, T: LibTy + FromBer<'static, Error> + FromDer<'static, Error>> FromBerDer<'a> for T {
    fn either(d: &'a [u8], der: bool) -> ParseResult<'a, Val, Error> {
        let k = keep(d);
        let r = if der { T::from_der(k) } else { T::from_ber(k) };
        r.map(|(r, t)| (&d[d.len() - r.len()..], t.val()))
    }
}
/// what an iterator gave is what the elements, decoded one by one, give up to the first that does not decode
fn prefix<T: LibTy + FromBer<'static, Error> + FromDer<'static, Error>>(n: &str, got: &(Vec<Val>, Option<String>), content: &'static [u8], der: bool) -> Outcome {
    let mut want = Vec::new(); let mut p = 0; let mut bad = false;
    while p < content.len() { match T::either(&content[p..], der) { Ok((r, t)) => { want.push(t); let q = content.len() - r.len(); if q == p { bad = true; break; } p = q; } Err(_) => { bad = true; break; } } }
    ensure!(got.0 == want && got.1.is_some() == bad, format!("iterator/{n}"), "{n} over {}: {:?} then {:?}; the elements are {want:?}{}", hex(content), got.0, got.1, if bad { " and one that does not decode" } else { "" });
    Ok(())
}
/// generic iterator: extents, positions, one error at most
fn any_iter(i: &Inp, content: &'static [u8], co: usize) -> Outcome {
    use nom::Input as _;
    let ci = || Input::from(i.buf).take_from(co).take(content.len());
    for der in [false, true] {
        let mut want = Vec::new(); let mut p = 0; let mut bad = false;
        while p < content.len() { match read_tlv(&content[p..], MAX_RECURSION - 1) { Ok((h, r, n)) if !(der && h.len.is_none()) => { want.push((p..p + n, h, p + r.start..p + r.end)); p += n; } _ => { bad = true; break; } } }
        let mut got: Vec<(Pos, Any)> = Vec::new(); let mut err = 0;
        let mut a = AnyIterator::<BerMode>::new(ci()); let mut b = AnyIterator::<DerMode>::new(ci());
        for _ in 0..content.len() + 6 {
            match if der { b.next() } else { a.next() } { None => {} Some(Ok((x, y))) => { ensure!(err == 0, "after-error/AnyIterator", "AnyIterator over {}: an element after an error", hex(content)); got.push((pos_of(&x), y)); } Some(Err(_)) => err += 1 }
        }
        ensure!(err == bad as usize && got.len() == want.len(), "any-iterator", "AnyIterator (DER {der}) over {}: {} elements and {err} errors, there are {} elements{}", hex(content), got.len(), want.len(), if bad { " and a malformed one" } else { "" });
        for ((w, x), (e, h, r)) in got.iter().zip(&want) {
            ensure!(w.start == co + e.start && w.end == co + e.end && w.len == e.len(), "any-iterator/span", "AnyIterator over {}: item extends over {}..{}, should be {e:?} (from {co})", hex(content), w.start, w.end);
            let q = pos_of(&x.data);
            ensure!(x.header.class() as u8 == h.class && x.tag().0 == h.tag && x.header.constructed() == h.cons && q.start == co + r.start && q.len == r.len() && x.as_bytes() == &content[r.clone()], "any-iterator/item", "AnyIterator over {}: item {:?} at {}..{}, should be {h:?} at {r:?}", hex(content), x.header, q.start, q.end);
        }
        let all = |r: nom::IResult<Input<'static>, Vec<Any<'static>>, BerError<Input<'static>>>| r.map(|(rem, v)| (pos_of(&rem).start - co, v.iter().map(any_val).collect::<Vec<_>>()));
        let g = all(if der { AnyIterator::<DerMode>::new(ci()).try_collect::<Vec<Any>>() } else { AnyIterator::<BerMode>::new(ci()).try_collect::<Vec<Any>>() });
        let w: Vec<Val> = got.iter().map(|x| any_val(&x.1)).collect();
        match g { Ok(g) => ensure!(!bad && g == (content.len(), w), "try_collect", "try_collect over {}: {g:?}", hex(content)), Err(e) => ensure!(bad, "try_collect", "try_collect over {}: {:?}", hex(content), nerr(e)) }
    }
    Ok(())
}
/// collections as lists: random operations against a plain vector, then encoded
fn v_model<T>(s: &mut Src) -> Outcome
where T: LibTy + ToBer + ToDer + DynTagged + Tagged + Clone + std::fmt::Debug + PartialEq {
    let k = T::kind();
    let mut log = String::new();
    let n = 1 + s.below(12);
    let (mut seq, mut set, mut model): (SequenceOf<T>, SetOf<T>, Vec<Val>) = (SequenceOf::new(vec![]), SetOf::new(vec![]), vec![]);
    for _ in 0..n {
        match s.weighted(&[6, 2, 1, 1, 1]) {
            0 => { let v = gen_val(&k, s); if let (Some(a), Some(b)) = (T::build(&v), T::build(&v)) { log += "push "; seq.push(a); set.push(b); model.push(v); } }
            1 => { log += "pop "; let v = model.pop(); let (a, b) = (AsMut::<[T]>::as_mut(&mut seq).len(), set.len()); let mut x = seq.into_vec(); let mut y: Vec<T> = set.into(); ensure!(a == x.len() && b == y.len(), "collection/len", "lengths {a} {b}"); let (p, q) = (x.pop().map(|t| t.val()), y.pop().map(|t| t.val())); ensure!(p == v && q == v, "collection/pop", "{log}: {p:?} {q:?}, should be {v:?}"); seq = SequenceOf::new(x); set = y.into_iter().collect(); }
            2 => { if model.len() > 1 { let (i, j) = (s.below(model.len()), s.below(model.len())); log += "swap "; model.swap(i, j); seq.as_mut().swap(i, j); set.as_mut().swap(i, j); } }
            3 => { log += "reverse "; model.reverse(); seq.reverse(); set.reverse(); }
            _ => { log += "rebuild "; seq = seq.into_vec().into_iter().collect(); set = set.into_vec().into_iter().collect(); }
        }
        let (a, b): (Vec<Val>, Vec<Val>) = (seq.iter().map(T::val).collect(), set.iter().map(T::val).collect());
        ensure!(a == model && b == model && seq.len() == model.len() && seq.as_ref().first().map(T::val) == model.first().cloned() && set.as_ref().len() == model.len(), "collection/content", "after {log}: {a:?} {b:?}, should be {model:?}");
    }
    s.note(format!("{} list: {log}{model:?}", std::any::type_name::<T>())); s.set_key(format!("{model:?}").as_bytes()); if !model.is_empty() { s.nontrivial(); }
    s.evals += n as u64;
    let list = Val::List(model.clone());
    let want = der(&Kind::SeqOf(Box::new(k.clone())), &list);
    let any_set = any_kind(&k, &|k| matches!(k, Kind::SetOf(_, true)));
    if any_set { return Ok(()); }
    let vec: Vec<T> = seq.iter().cloned().collect();
    let mut e: Vec<(&str, SerializeResult<Vec<u8>>)> = vec![("SequenceOf DER", seq.to_der_vec()), ("SequenceOf BER", seq.to_ber_vec()), ("Vec DER", vec.to_der_vec()), ("Vec BER", vec.to_ber_vec()), ("slice DER", vec.as_slice().to_vec().to_der_vec()),
        ("from_iter_to_der", Sequence::from_iter_to_der(vec.iter()).and_then(|x| x.to_der_vec())), ("from_iter_to_der BER", Sequence::from_iter_to_der(vec.iter()).and_then(|x| x.to_ber_vec()))];
    macro_rules! arr { ($($n:literal)*) => { $( if vec.len() == $n { if let Ok(a) = <[T; $n]>::try_from(vec.clone()) { e.push(("array DER", a.to_der_vec())); e.push(("array BER", a.to_ber_vec())); } } )* } }
    arr!(0 1 2 3 4);
    for (n, x) in e { s.evals += 1; ensure!(x.as_ref().ok() == Some(&want), format!("encode/{n}"), "{n} of {list:?}: {:?}, should be {}", x.as_ref().map(|v| hex(v)), hex(&want)); }
    // a set built from the elements in this order keeps what it is given
    let want = tlv(0, true, 17, &model.iter().flat_map(|v| der(&k, v)).collect::<Vec<u8>>());
    let x = Set::from_iter_to_der(vec.iter()).and_then(|x| x.to_der_vec());
    let mut sorted: Vec<Vec<u8>> = model.iter().map(|v| der(&k, v)).collect(); sorted.sort();
    let want2 = tlv(0, true, 17, &sorted.concat());
    ensure!(x.as_ref().ok() == Some(&want) || x.as_ref().ok() == Some(&want2), "encode/Set::from_iter_to_der", "Set::from_iter_to_der of {list:?}: {:?}", x.as_ref().map(|v| hex(v)));
    Ok(())
}
macro_rules! seq_ops { ($($t:ty),* $(,)?) => { vec![$(SeqOps { name: stringify!($t), kind: <$t as LibTy>::kind, views: v_views::<$t>, model: v_model::<$t> }),*] } }
fn seq_list() -> &'static [SeqOps] { static L: std::sync::OnceLock<Vec<SeqOps>> = std::sync::OnceLock::new(); L.get_or_init(|| seq_ops![u32, i64, bool, u8, String, i16, Integer<'static>, BitString]) }
fn container(s: &mut Src, k: &Kind, set: bool, valid: bool) -> (Vec<u8>, usize) {
    let n = if s.chance(1, 300) { *s.pick(&[50usize, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1025]) } else { s.below(6) };
    let mut c = Vec::new();
    for _ in 0..n { let v = gen_val(k, s); if s.chance(1, 3) { let e = enc(k, &v, &mut Form::Ber(s, Ber::ALL)); c.extend(e); } else { c.extend(der(k, &v)); } }
    if !valid { match s.below(6) {
        0 => { let (_, e) = element(s, k, &[&Kind::Bool, &Kind::Null], &[0, 0, 3, 3, 1, 3, 1, 0]); let p = if s.bool() { 0 } else { c.len() }; c.splice(p..p, e); }
        1 => { let l = c.len(); c.truncate(s.below(l + 1)); }
        2 => c.extend([0, 0]),
        3 => mutate_bytes(s, &mut c),
        4 => { let x = s.byte(); c.push(x); }
        _ => { let e = gen_tree(s, 2); c.extend(e); let v = gen_val(k, s); c.extend(der(k, &v)); }
    } }
    let t = if set { 0x31 } else { 0x30 };
    let mut o = vec![t];
    match s.below(5) { 0 => { o.push(0x80); o.extend(&c); o.extend([0, 0]); } 1 => { o.extend([0x84]); o.extend((c.len() as u32).to_be_bytes()); o.extend(&c); } _ => { len_octets(c.len(), &mut o); o.extend(&c); } }
    (o, n)
}
pub fn c22(s: &mut Src) -> Outcome {
    arena_reset();
    let t = s.pick(seq_list());
    let k = (t.kind)();
    match s.weighted(&[6, 2, 3]) {
        0 => {
            let set = s.chance(1, 3); let valid = s.chance(1, 2);
            let (el, _) = container(s, &k, set, valid);
            let i = place(s, if valid { GClass::ValidBer } else { GClass::Tree }, el);
            s.note(format!("{} of {} <- {}|{}", if set { "SET" } else { "SEQUENCE" }, t.name, hex(&i.buf[..i.off]), hex(i.rest()))); s.set_key(i.rest()); s.set_key(t.name.as_bytes()); s.label(i.class.name());
            // sometimes under another identifier
            let i = if s.chance(1, 8) { let mut b = i.buf.to_vec(); if i.elen > 0 { let m = *s.pick(&[0x20u8, 0x40, 0x80, 0x01]); b[i.off] ^= m; } s.note(format!("identifier {:02x}", b.get(i.off).copied().unwrap_or(0))); Inp { buf: keep(&b), ..i } } else { i };
            checkpoint(s);
            if s.chance(1, 3) { crate::extras::agree(s, i.buf, i.off, if set { crate::extras::SETS } else { crate::extras::SEQUENCES })?; }
            let Ok((h, r, n)) = read_tlv(i.rest(), SURE_DEPTH) else { return Ok(()) };
            if !h.cons || h.class != 0 || h.tag != if set { 17 } else { 16 } { return Ok(()); }
            let content = &i.rest()[r];
            let lk = Kind::SeqOf(Box::new(k.clone()));
            let model = |der: bool| dec_content(&lk, &h, content, der);
            let (b, d) = (model(false), model(true));
            let mut v: Views = Vec::new();
            let rv = (t.views)(&i, set, content, &mut v);
            LEAK.with(|l| { for p in l.borrow_mut().drain(..) { unsafe { if set { drop(Box::from_raw(p as *mut Set<'static>)); } else { drop(Box::from_raw(p as *mut Sequence<'static>)); } } } });
            rv?;
            let _ = n;
            if b != R::Unk { s.nontrivial(); }
            for der in [false, true] {
                let m = if der { &d } else { &b };
                let ok_header = !(der && (h.len.is_none() || !h.min_len));
                let mut first: Option<(&str, &std::result::Result<Vec<Val>, String>)> = None;
                for (n, dm, g) in &v {
                    if *dm != der { continue; }
                    s.evals += 1;
                    if der && h.len.is_none() { ensure!(g.is_err(), format!("indefinite-in-der/{n}"), "{n}: {} accepted as DER", hex(i.elem())); continue; }
                    if ok_header || g.is_ok() { match (m, g) {
                        (R::Yes(Val::List(w), _), Ok(x)) => ensure!(x == w, format!("view/{n}"), "{n} of {} on {}: elements {x:?}, they are {w:?}", t.name, hex(i.elem())),
                        (R::Yes(w, _), Err(e)) if ok_header => return fail(format!("view-rejects/{n}"), format!("{n} of {} on {}: {e}, the elements are {w:?}", t.name, hex(i.elem()))),
                        (R::No, Ok(x)) if !(der && b != R::No && t.name == "Enumerated") => return fail(format!("view-accepts/{n}"), format!("{n} of {} on {}: elements {x:?}, one is malformed or of another type", t.name, hex(i.elem()))),
                        _ => {}
                    } }
                    // in what the reference leaves open, the views still agree (two families: slice and positioned decoders)
                    if ok_header && !(der && b != d) { match &first { None => first = Some((n, g)), Some((n0, g0)) => ensure!(g.is_ok() == g0.is_ok() && g.as_ref().ok() == g0.as_ref().ok(), "views-differ", "{} of {}: {n0} gives {g0:?}, {n} gives {g:?}", hex(i.elem()), t.name) } }
                }
            }
            Ok(())
        }
        1 => { s.label("list operations"); checkpoint(s); (t.model)(s) }
        _ => { static F: std::sync::OnceLock<Vec<&'static Ops>> = std::sync::OnceLock::new(); fam_case(s, family(&F, |o| matches!(o.kind, Kind::SeqOf(_) | Kind::SetOf(..) | Kind::Array(..) | Kind::Fields { .. } | Kind::RawSeq | Kind::RawSet))) }
    }
}

// ================================================================== C23 DER sets
fn set_case<T>(s: &mut Src) -> Outcome
where T: LibTy + ToDer + ToBer + DynTagged + Ord + Clone + std::hash::Hash + Eq + std::fmt::Debug + FromDer<'static, Error> + DerParser<'static, Error = BerError<Input<'static>>> + BerParser<'static, Error = BerError<Input<'static>>> + TryFrom<Any<'static>, Error = Error> + CheckDerConstraints + DerAutoDerive {
    let k = T::kind();
    let n = if s.chance(1, 400) { *s.pick(&[60usize, 64, 65, 100, 128, 255, 256, 257, 400, 700]) } else { match s.below(4) { 0 => s.below(3), 1 => s.below(40), _ => s.below(9) } };
    let mut vs: Vec<Val> = Vec::new();
    for _ in 0..n { let v = if !vs.is_empty() && s.chance(1, 8) { vs[s.below(vs.len())].clone() } else { gen_val(&k, s) }; if T::build(&v).is_some() { vs.push(v); } }
    let mut perm: Vec<usize> = (0..vs.len()).collect();
    for i in (1..perm.len()).rev() { let j = s.below(i + 1); perm.swap(i, j); }
    s.note(format!("{} {vs:?} order {perm:?}", std::any::type_name::<T>())); s.set_key(format!("{vs:?}").as_bytes()); if vs.len() > 1 { s.nontrivial(); s.label("several elements"); } else { s.label("at most one element"); }
    checkpoint(s);
    let name = std::any::type_name::<T>();
    let items = |order: &[usize]| -> Vec<T> { order.iter().map(|i| T::build(&vs[*i]).unwrap()).collect() };
    let ident: Vec<usize> = (0..vs.len()).collect();
    let mut encs: Vec<Vec<u8>> = vs.iter().map(|v| der(&k, v)).collect(); encs.sort();
    let want = tlv(0, true, 17, &encs.concat());
    encs.dedup(); let want_u = tlv(0, true, 17, &encs.concat());
    macro_rules! chk { ($n:expr, $want:expr, $x:expr) => {{
        let x = $x; s.evals += 1;
        let e = x.to_der_vec();
        ensure!(e.as_ref().ok() == Some($want), format!("order/{}", $n), "{} of {name} {vs:?} in order {perm:?}: {:?}, in ascending order it is {}", $n, e.as_ref().map(|v| hex(v)), hex($want));
        ensure!(x.der_total_len() == Length::Definite($want.len()), format!("length/{}", $n), "{} of {name}: announces {:?}", $n, x.der_total_len());
        let mut w = ScriptWriter::plain(); w.chunks = vec![1, 3]; let r = x.der_encode(&mut w); ensure!(r.as_ref().ok() == Some(&$want.len()) && &w.out == $want, format!("write/{}", $n), "{} of {name}: {r:?} {}", $n, hex(&w.out));
        let mut w = Vec::new(); let r = x.der_encode_tagged_implicit(Class::ContextSpecific, 3, &mut w); let want_i = { let mut o = $want.clone(); o[0] = 0xa3; o }; ensure!(r.is_ok() && w == want_i, format!("implicit/{}", $n), "{} of {name} implicitly tagged: {}", $n, hex(&w));
    }} }
    for o in [&ident, &perm] {
        chk!("SetOf", &want, SetOf::new(items(o)));
        chk!("SetOf", &want, items(o).into_iter().collect::<SetOf<T>>());
        chk!("BTreeSet", &want_u, items(o).into_iter().collect::<BTreeSet<T>>());
    }
    // built step by step
    let mut b = BTreeSet::new(); for x in items(&perm) { b.insert(x); }
    chk!("BTreeSet", &want_u, b);
    let mut so = SetOf::new(vec![]); for x in items(&perm) { so.push(x); }
    chk!("SetOf", &want, so);
    // within another element
    let inner: Vec<SetOf<T>> = vec![SetOf::new(items(&perm)), SetOf::new(items(&ident))];
    let e = inner.to_der_vec(); let w2 = tlv(0, true, 16, &[want.clone(), want.clone()].concat());
    ensure!(e.as_ref().ok() == Some(&w2), "order/nested", "SEQUENCE of two orders of one set of {name}: {:?}", e.map(|v| hex(&v)));
    // generic sets and hashed sets
    let k2 = keep(&want_u);
    match AnySet::<std::collections::hash_map::RandomState>::parse_der(Input::from(k2)) { Ok((_, x)) => { let e = x.to_der_vec(); ensure!(e.as_ref().ok() == Some(&want_u), "order/AnySet", "AnySet read from {} encodes as {:?}", hex(&want_u), e.map(|v| hex(&v))); } Err(e) => return fail("decode/AnySet", format!("{}: {:?}", hex(&want_u), nerr(e))) }
    let hs: HashSet<T> = items(&perm).into_iter().collect();
    let e = hs.to_der_vec();
    let uns = e.as_ref().ok() != Some(&want_u);
    if uns { // recorded finding: only the order may be wrong
        let mut got: Vec<Vec<u8>> = Vec::new(); let mut p = 0; let ev = e.unwrap_or_default(); let c = read_tlv(&ev, 5).map(|x| ev[x.1].to_vec()).unwrap_or_default();
        while p < c.len() { match read_tlv(&c[p..], 5) { Ok((_, _, n)) => { got.push(c[p..p + n].to_vec()); p += n; } Err(_) => break } }
        got.sort();
        ensure!(got == encs, "content/HashSet", "HashSet of {name} {vs:?} encodes as {}", hex(&ev));
        return known(s, format!("HashSet {:?} is not encoded in ascending order: {}", vs, hex(&ev)));
    }
    // and back
    let k1 = keep(&want);
    let mut sv = vs.clone(); sv.sort();
    let same = |v: Val| v == Val::Set(sv.clone());
    let mut du = sv.clone(); du.dedup();
    macro_rules! back { ($n:expr, $r:expr, $w:expr) => { match $r { Ok((_, x)) => ensure!($w(x.val()), format!("back/{}", $n), "{}: {} decodes as {:?}", $n, hex(&want), x.val()), Err(e) => return fail(format!("back/{}", $n), format!("{}: {} does not decode: {:?}", $n, hex(&want), nerr(e))) } } }
    if any_kind(&k, &|k| matches!(k, Kind::Real)) { return Ok(()); }
    back!("SetOf::from_der", <SetOf<T> as FromDer<Error>>::from_der(k1), same);
    back!("SetOf::parse_der", <SetOf<T>>::parse_der(Input::from(k1)), same);
    back!("BTreeSet::from_der", <BTreeSet<T> as FromDer<Error>>::from_der(k2), |v| v == Val::Set(du.clone()));
    back!("HashSet::from_der", <HashSet<T> as FromDer<Error>>::from_der(k2), |v| v == Val::Set(du.clone()));
    Ok(())
}
fn known(_s: &mut Src, m: String) -> Outcome { fail("order/HashSet", m) }
pub fn c23(s: &mut Src) -> Outcome {
    arena_reset();
    match s.below(6) { 0 => set_case::<u32>(s), 1 => set_case::<i64>(s), 2 => set_case::<String>(s), 3 => set_case::<i128>(s), 4 => set_case::<bool>(s), _ => set_case::<u8>(s) }
}
