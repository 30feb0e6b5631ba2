//! Generators of input bytes: valid encodings, meaning-preserving rewrites, near-valid mutations, hostile bytes.
use crate::engine::Src;
use crate::model::*;
use num_bigint::BigInt;

/// Mutable element tree with an explicit length form.
#[derive(Clone, Debug)]
pub struct Node { pub class: u8, pub cons: bool, pub tag: u32, pub form: LenForm, pub body: Body,
    /// long-form tag with this many leading 0x80 octets (or long form for a low tag)
    pub tag_pad: Option<u8> }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LenForm { Min, Long(u8), Indef, Raw(i64) }
#[derive(Clone, Debug)]
pub enum Body { Prim(Vec<u8>), Kids(Vec<Node>) }
pub fn parse_nodes(b: &[u8], depth: u32) -> Option<Vec<Node>> {
    let mut p = 0;
    let mut v = Vec::new();
    while p < b.len() {
        let (h, r, n) = read_tlv(&b[p..], 60).ok()?;
        let c = &b[p..p + n][r];
        let body = match (h.cons && depth > 0).then(|| parse_nodes(c, depth - 1)).flatten() { Some(k) => Body::Kids(k), None => Body::Prim(c.to_vec()) };
        v.push(Node { class: h.class, cons: h.cons, tag: h.tag, form: if h.len.is_none() { LenForm::Indef } else if h.min_len { LenForm::Min } else { LenForm::Long(1) }, body, tag_pad: None });
        p += n;
    }
    Some(v)
}
pub fn write_node(n: &Node, o: &mut Vec<u8>) {
    let c = match &n.body { Body::Prim(b) => b.clone(), Body::Kids(k) => { let mut c = Vec::new(); for x in k { write_node(x, &mut c); } c } };
    match n.tag_pad {
        None => tag_octets(n.class, n.cons, n.tag, o),
        Some(p) => { o.push(n.class << 6 | if n.cons { 0x20 } else { 0 } | 31); for _ in 0..p { o.push(0x80); } base128(n.tag as u128, o); }
    }
    match n.form {
        LenForm::Min => len_octets(c.len(), o),
        LenForm::Long(extra) => { let b = c.len().to_be_bytes(); let z = b.iter().take_while(|x| **x == 0).count().min(7); let e = 8 - z + extra as usize; let e = e.clamp(1, 126); o.push(0x80 | e as u8); for _ in 0..e.saturating_sub(8) { o.push(0); } let k = e.min(8); o.extend_from_slice(&b[8 - k..]); }
        LenForm::Indef => { o.push(0x80); o.extend_from_slice(&c); o.extend_from_slice(&[0, 0]); return; }
        LenForm::Raw(d) => len_octets((c.len() as i64 + d).max(0) as usize, o),
    }
    o.extend_from_slice(&c);
}
fn count(n: &Node) -> usize { 1 + match &n.body { Body::Kids(k) => k.iter().map(count).sum(), _ => 0 } }
fn nth<'a>(n: &'a mut Node, i: &mut usize) -> Option<&'a mut Node> {
    if *i == 0 { return Some(n); }
    *i -= 1;
    if let Body::Kids(k) = &mut n.body { for x in k { if let Some(r) = nth(x, i) { return Some(r); } } }
    None
}
/// contents likely to sit on an accept/reject boundary of some type
pub fn spicy_content(s: &mut Src, tag: u32) -> Vec<u8> {
    match tag {
        1 => match s.below(4) { 0 => vec![], 1 => vec![s.byte()], 2 => vec![0xff], _ => { let n = s.below(4); s.bytes(n) } },
        2 | 10 => { // integers around padding boundaries
            let mut o = Vec::new();
            let pad = s.below(4);
            let p = if s.bool() { 0xff } else { 0 };
            for _ in 0..pad { o.push(p); }
            let n = match s.weighted(&[5, 3, 1]) { 0 => s.below(4), 1 => *s.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17]), _ => s.below(40) };
            for i in 0..n { o.push(if i == 0 { *s.pick(&[0x80u8, 0x7f, 0, 0xff, 1, 0x81]) } else if s.chance(1, 3) { *s.pick(&[0u8, 0xff]) } else { s.byte() }); }
            o
        }
        3 => { let u = match s.weighted(&[6, 1, 1]) { 0 => s.upto(8) as u8, 1 => s.byte(), _ => 0 }; let n = s.below(5); let mut o = vec![u]; o.extend(s.bytes(n)); if s.chance(1, 10) { o.clear(); } if s.chance(1, 3) && o.len() > 1 { let l = o.len() - 1; o[l] &= 0xffu8.checked_shl(o[0] as u32).unwrap_or(0); } o }
        5 | 0 => { let n = s.below(3); s.bytes(n) }
        6 | 13 => { let r = tag == 13; let mut o = gen_oid_content(s, r); match s.weighted(&[5, 2, 2, 1, 1, 1]) { 1 => o.insert(0, 0x80), 2 => { let l = o.len() - 1; o[l] |= 0x80; } 3 => { let i = s.below(o.len() + 1); o.insert(i, 0x80); } 4 => o.clear(), 5 => { for _ in 0..s.below(12) { o.push(0xff); } o.push(0x7f); } _ => {} } o }
        9 => gen_real_content(s),
        23 | 24 => gen_time_content(s, tag == 24),
        30 => { let n = s.below(9); let mut o = s.bytes(n); if s.bool() { for b in o.iter_mut().step_by(2) { *b = *s.pick(&[0u8, 0, 0xd8, 0xdb, 0xdc, 0xdf, 0xff, 4]); } } o }
        28 => { let n = s.below(3); let mut o = Vec::new(); for _ in 0..n { let c: u32 = *s.pick(&[0x41u32, 0, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffffffff, 0x20ac]); o.extend(c.to_be_bytes()); } if s.chance(1, 4) { let k = s.below(4); o.extend(s.bytes(k)); } o }
        12 => { let mut o = gen_text(s, Cs::Utf8).into_bytes(); o.truncate(60); match s.weighted(&[3, 1, 1, 1, 1]) { 1 => { let x = s.byte(); o.push(x); } 2 => { o.pop(); } 3 => o.extend(*s.pick(&[&[0xc0u8, 0x80][..], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98, 0x80], &[0xff]])), 4 => { if !o.is_empty() { let i = s.below(o.len()); o[i] = s.byte(); } } _ => {} } o }
        18 | 19 | 20 | 21 | 22 | 25 | 26 | 27 | 7 => { let cs = match tag { 18 => Cs::Numeric, 19 => Cs::Printable, 20 | 21 | 26 => Cs::Visible, _ => Cs::Ascii }; let mut o = gen_text(s, cs).into_bytes(); o.truncate(40); if s.chance(1, 2) { let i = s.below(o.len() + 1); o.insert(i, s.byte()); } o }
        _ => { let n = s.below(12); s.bytes(n) }
    }
}
pub fn gen_time_content(s: &mut Src, gen: bool) -> Vec<u8> {
    let mut t = gen_time(s, gen);
    if s.chance(1, 3) { t.day = *s.pick(&[28u8, 29, 30, 31, 32, 0]); t.mon = *s.pick(&[2u8, 4, 6, 9, 11, 12, 1, 13, 0]); }
    if s.chance(1, 6) { t.h = *s.pick(&[23u8, 24, 0, 25]); }
    if s.chance(1, 6) { t.m = *s.pick(&[59u8, 60, 99]); }
    if s.chance(1, 6) { t.s = *s.pick(&[59u8, 60, 61]); }
    t.ms = None;
    t.tz = Tz::Undef;
    let mut o = time_octets(gen, &t);
    if s.chance(1, 6) { o.truncate(o.len() - 2); }
    if gen && s.chance(1, 2) { o.push(if s.chance(1, 8) { b',' } else { b'.' }); let n = s.below(5); for _ in 0..n { o.push(b'0' + s.below(10) as u8); } }
    match s.weighted(&[5, 4, 2, 1]) {
        0 => o.push(b'Z'),
        1 => { let sg = *s.pick(&[b'+', b'-']); o.push(sg); let h = s.upto(15); let m = *s.pick(&[0u64, 30, 45, 59, 60, 99]); o.extend(format!("{h:02}{m:02}").bytes()); if s.chance(1, 8) { o.pop(); } }
        2 => {}
        _ => { let x = s.byte(); o.push(x); }
    }
    if s.chance(1, 8) { let i = s.below(o.len()); o[i] = *s.pick(&[b' ', b'/', b':', b'+', b'-', b'a', b'Z', b'0', b'9', 0xb0, b'.']); }
    if s.chance(1, 14) { let i = s.below(o.len()); o.remove(i); }
    if s.chance(1, 14) { let i = s.below(o.len() + 1); o.insert(i, *s.pick(&[b'0', b'9', b'Z', b' ', b'.'])); }
    o
}
pub fn gen_real_content(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[8, 3, 4, 2]) {
        0 => {
            let base = s.below(4) as u8; let sf = s.below(4) as u8; let neg = s.bool();
            let el = match s.weighted(&[4, 3, 1, 2]) { 0 => 1usize, 1 => 2, 2 => 3, _ => 1 + s.below(5) };
            let f3 = el > 3 || s.chance(1, 6);
            let mut o = vec![0x80 | if neg { 0x40 } else { 0 } | if base == 3 && !s.chance(1, 4) { 0 } else { base << 4 } | sf << 2 | if f3 { 3 } else { el as u8 - 1 }];
            if f3 { o.push(el as u8); }
            let e = s.range(-260, 260);
            let e = if s.chance(1, 6) { s.range(-70000, 70000) } else { e };
            let eb = e.to_be_bytes();
            o.extend_from_slice(&eb[8 - el.min(8)..]);
            let n = match s.weighted(&[6, 2, 1]) { 0 => 1 + s.below(3), 1 => s.below(8), _ => s.below(12) };
            let mut m = s.bytes(n);
            if s.chance(1, 6) { m.insert(0, 0); }
            o.extend(m);
            if s.chance(1, 16) { let l = s.below(o.len()); o.truncate(l); }
            o
        }
        1 => vec![*s.pick(&[0x40u8, 0x41, 0x42, 0x43, 0x44, 0x7f, 0x40])],
        2 => { // decimal
            let nr = *s.pick(&[1u8, 2, 3, 3, 0, 4]);
            let mut t = String::new();
            if s.chance(1, 4) { t.push(' '); }
            match s.below(4) { 0 => t.push('-'), 1 => t.push('+'), _ => {} }
            let d = s.below(12); for _ in 0..d { t.push((b'0' + s.below(10) as u8) as char); }
            if nr != 1 && s.chance(4, 5) || s.chance(1, 10) { t.push(if s.chance(1, 5) { ',' } else { '.' }); let d = s.below(5); for _ in 0..d { t.push((b'0' + s.below(10) as u8) as char); } }
            if nr == 3 && s.chance(5, 6) || s.chance(1, 12) { t.push(if s.chance(1, 5) { 'e' } else { 'E' }); match s.below(3) { 0 => t.push('-'), 1 => t.push('+'), _ => {} } let d = 1 + s.below(2); for _ in 0..d { t.push((b'0' + s.below(10) as u8) as char); } }
            let mut o = vec![nr]; o.extend(t.bytes());
            if s.chance(1, 10) { let i = s.below(o.len()); o[i] = s.byte(); }
            o
        }
        _ => { let n = s.below(10); s.bytes(n) }
    }
}
/// one random structural edit somewhere in the tree
pub fn mutate_node(s: &mut Src, root: &mut Node) {
    let total = count(root);
    let mut i = if s.chance(1, 3) { 0 } else { s.below(total) };
    let Some(n) = nth(root, &mut i) else { return };
    match s.weighted(&[4, 4, 3, 3, 3, 3, 2, 4, 2, 2, 2]) {
        0 => { // contents on a boundary for the tag
            let t = if n.class == 0 { n.tag } else { *s.pick(&[2u32, 4, 1, 3, 6, 12, 24]) };
            let c = spicy_content(s, t);
            if !n.cons || s.chance(1, 4) { n.body = Body::Prim(c); }
            else if let Body::Kids(k) = &mut n.body { let p = s.below(k.len() + 1); k.insert(p, Node { class: 0, cons: false, tag: t, form: LenForm::Min, body: Body::Prim(c), tag_pad: None }); }
        }
        1 => n.form = match s.below(4) { 0 => LenForm::Long(s.below(4) as u8), 1 => LenForm::Indef, 2 => LenForm::Raw(*s.pick(&[-1i64, 1, -2, 2, 1000, 1 << 33, -100])), _ => LenForm::Long(s.below(20) as u8) },
        2 => n.tag = match s.below(3) { 0 => n.tag.wrapping_add(1), 1 => n.tag.wrapping_sub(1) & 0x1f, _ => { let c = n.class; if s.chance(1, 8) { 0 } else { gen_tagnum(s, c) } } },
        3 => n.class = s.below(4) as u8,
        4 => { n.cons = !n.cons; }
        5 => { // edit raw contents
            if let Body::Prim(b) = &mut n.body {
                match s.below(4) { 0 => { let i = s.below(b.len() + 1); b.insert(i, s.byte()); } 1 => { if !b.is_empty() { let i = s.below(b.len()); b.remove(i); } } 2 => { if !b.is_empty() { let i = s.below(b.len()); b[i] ^= 1 << s.below(8); } } _ => { if !b.is_empty() { let i = s.below(b.len()); b[i] = *s.pick(&[0u8, 0xff, 0x80, 0x7f, 1]); } } }
            } else if let Body::Kids(k) = &mut n.body { if !k.is_empty() { let i = s.below(k.len()); k.remove(i); } }
        }
        6 => { // duplicate / swap / add children
            if let Body::Kids(k) = &mut n.body {
                if k.is_empty() { k.push(Node { class: 0, cons: false, tag: 5, form: LenForm::Min, body: Body::Prim(vec![]), tag_pad: None }); }
                else if s.bool() { let i = s.below(k.len()); let x = k[i].clone(); let j = s.below(k.len() + 1); k.insert(j, x); }
                else { let (i, j) = (s.below(k.len()), s.below(k.len())); k.swap(i, j); }
            }
        }
        7 => { // segment a primitive
            if let Body::Prim(b) = &n.body {
                let t = if n.class == 0 && n.tag == 3 { 3 } else { 4 };
                let cut = s.below(b.len() + 1);
                let seg = |c: &[u8]| Node { class: 0, cons: false, tag: t, form: LenForm::Min, body: Body::Prim(c.to_vec()), tag_pad: None };
                let (mut a, c) = (b[..cut].to_vec(), b[cut..].to_vec());
                let mut c = c;
                if t == 3 && s.chance(5, 6) { if let Some(u) = b.first() { if !a.is_empty() { a[0] = 0; } else { a = vec![0]; } if cut > 0 { c.insert(0, *u); } } }
                let kids = if s.chance(1, 6) { vec![] } else { vec![seg(&a), seg(&c)] };
                n.cons = true; n.body = Body::Kids(kids);
            }
        }
        8 => n.tag_pad = Some(s.below(4) as u8),
        9 => { // end-of-contents look-alike among the children
            let e = match s.below(5) { 0 => Node { class: 0, cons: false, tag: 0, form: LenForm::Min, body: Body::Prim(vec![]), tag_pad: None }, 1 => Node { class: 2, cons: false, tag: 0, form: LenForm::Min, body: Body::Prim(vec![]), tag_pad: None }, 2 => Node { class: 0, cons: false, tag: 0, form: LenForm::Long(0), body: Body::Prim(vec![]), tag_pad: None }, 3 => Node { class: 0, cons: true, tag: 0, form: LenForm::Min, body: Body::Prim(vec![]), tag_pad: None }, _ => Node { class: 0, cons: false, tag: 0, form: LenForm::Min, body: Body::Prim(vec![0]), tag_pad: None } };
            if let Body::Kids(k) = &mut n.body { let i = s.below(k.len() + 1); k.insert(i, e); } else if let Body::Prim(b) = &mut n.body { if n.cons { write_node(&e, b); } }
        }
        _ => { // wrap in one more level
            let x = n.clone();
            *n = Node { class: x.class, cons: true, tag: x.tag, form: if s.bool() { LenForm::Min } else { LenForm::Indef }, body: Body::Kids(vec![x]), tag_pad: None };
        }
    }
}
pub fn mutate_bytes(s: &mut Src, b: &mut Vec<u8>) {
    let n = 1 + s.below(3);
    for _ in 0..n {
        let l = b.len();
        match s.below(6) {
            0 if l > 0 => { let i = s.below(l.min(64)); b[i] ^= 1 << s.below(8); }
            1 if l > 0 => { let i = s.below(l.min(64)); b[i] = s.byte(); }
            2 if l > 0 => { let k = s.below(l + 1); b.truncate(k); }
            3 => { let i = s.below(l.min(64) + 1); let v = *s.pick(&[0u8, 0x80, 0xff, 0x30, 0x7f, 1, 0x84, 0xa0]); b.insert(i, v); }
            4 if l > 0 => { let i = s.below(l.min(64)); b.remove(i); }
            _ => { let x = s.byte(); b.push(x); }
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class { ValidDer, ValidBer, Spicy, Tree, Bytes, Other, Random, Hostile, Long }
impl Class { pub fn name(self) -> &'static str { match self { Class::ValidDer => "valid DER", Class::ValidBer => "valid BER", Class::Spicy => "boundary contents", Class::Tree => "mutated structure", Class::Bytes => "mutated bytes", Class::Other => "other type", Class::Random => "random element", Class::Hostile => "random bytes", Class::Long => "long contents" } } }
/// hostile header/length/nesting constructions
pub fn hostile(s: &mut Src) -> Vec<u8> {
    match s.below(6) {
        0 => { let n = s.below(40); s.bytes(n) }
        1 => { let n = 1 + s.below(120); let unit = *s.pick(&[&[0x30u8, 0x80][..], &[0x24, 0x80], &[0xa0, 0x80], &[0x30, 0x80, 0x04, 0x00], &[0x31, 0x80]]); let mut o = unit.repeat(n); if s.bool() { for _ in 0..n { o.extend([0, 0]); } } o }
        2 => { let n = 1 + s.below(60); let mut o = vec![]; for _ in 0..n { let t = *s.pick(&[0x30u8, 0x24, 0xa0, 0x23]); o = { let mut x = vec![t]; len_octets(o.len(), &mut x); x.extend(o); x }; } o }
        3 => { let mut o = vec![*s.pick(&[0x02u8, 0x30, 0x04, 0x24, 0x1f, 0x3f, 0xff])]; let n = s.below(128); o.push(0x80 | n as u8); let k = s.below(20); let f = *s.pick(&[0u8, 0xff, 1]); o.extend(std::iter::repeat(f).take(k)); let m = s.below(8); o.extend(s.bytes(m)); o }
        4 => { let mut o = vec![*s.pick(&[0x1fu8, 0x3f, 0xbf, 0xff])]; let n = s.below(12); for _ in 0..n { o.push(*s.pick(&[0xffu8, 0x80, 0x81, 0x8f, 0x90])); } o.push(s.byte() & 0x7f); let m = s.below(6); o.extend(s.bytes(m)); o }
        _ => { let n = s.below(600); s.bulk(n) }
    }
}
pub fn element(s: &mut Src, k: &Kind, others: &[&Kind], weights: &[u64; 8]) -> (Class, Vec<u8>) {
    const C: [Class; 8] = [Class::ValidDer, Class::ValidBer, Class::Spicy, Class::Tree, Class::Bytes, Class::Other, Class::Random, Class::Hostile];
    let c = C[s.weighted(weights)];
    let base = |s: &mut Src| { let v = gen_val(k, s); if s.chance(1, 3) { let mut q = Vec::new(); std::mem::swap(&mut q, &mut enc(k, &v, &mut Form::Ber(s, Ber::ALL))); q } else { der(k, &v) } };
    let b = match c {
        Class::ValidDer => { let v = gen_val(k, s); der(k, &v) }
        Class::ValidBer => { let v = gen_val(k, s); enc(k, &v, &mut Form::Ber(s, Ber::ALL)) }
        Class::Spicy => { let v = gen_val(k, s); let d = der(k, &v);
            match parse_nodes(&d, 12).and_then(|v| v.into_iter().next()) {
                Some(mut n) => { spice_leaf(s, k, &mut n); let mut o = Vec::new(); write_node(&n, &mut o); o }
                None => { let t = leaf_tag(k); let c = spicy_content(s, t); tlv(0, false, t, &c) } } }
        Class::Tree => { let b = base(s); match parse_nodes(&b, 12).and_then(|v| v.into_iter().next()) { Some(mut n) => { let m = 1 + s.below(3); for _ in 0..m { mutate_node(s, &mut n); } let mut o = Vec::new(); write_node(&n, &mut o); o } None => b } }
        Class::Bytes => { let mut b = base(s); mutate_bytes(s, &mut b); b }
        Class::Other => { if others.is_empty() { gen_tree(s, 3) } else { let i = s.below(others.len()); let v = gen_val(others[i], s); der(others[i], &v) } }
        Class::Random => gen_tree(s, 4),
        Class::Hostile | Class::Long => hostile(s),
    };
    (c, b)
}
/// universal tag of the first leaf type
pub fn leaf_tag(k: &Kind) -> u32 {
    match k {
        Kind::Bool => 1, Kind::Int { .. } | Kind::Integer => 2, Kind::Enumerated | Kind::Enum(_) => 10, Kind::Null => 5, Kind::Octets { .. } => 4, Kind::Bits => 3, Kind::Oid => 6,
        Kind::Str { tag, .. } => *tag, Kind::UtcTime => 23, Kind::GenTime => 24, Kind::Real | Kind::F32 => 9,
        Kind::Opt(i) | Kind::Def(i, _) | Kind::SeqOf(i) | Kind::SetOf(i, _) | Kind::Array(i, _) | Kind::Tagged { inner: i, .. } => leaf_tag(i),
        Kind::Choice(a) | Kind::Fields { fields: a, .. } => a.first().map(leaf_tag).unwrap_or(2),
        _ => 2,
    }
}
/// follow the schema down to one primitive and replace its contents by boundary contents for its type
fn spice_leaf(s: &mut Src, k: &Kind, n: &mut Node) {
    match k {
        Kind::Opt(i) | Kind::Def(i, _) => return spice_leaf(s, i, n),
        Kind::Tagged { explicit, inner, .. } => { if *explicit { if let Body::Kids(c) = &mut n.body { if let Some(x) = c.first_mut() { return spice_leaf(s, inner, x); } } } else { return spice_leaf(s, inner, n); } }
        Kind::SeqOf(i) | Kind::SetOf(i, _) | Kind::Array(i, _) => { if let Body::Kids(c) = &mut n.body { if !c.is_empty() { let j = s.below(c.len()); return spice_leaf(s, i, &mut c[j]); } } }
        Kind::Choice(a) => { for x in a { if matches!(x, Kind::Tagged { class, tag, .. } if *class == n.class && *tag == n.tag) || (n.class == 0 && leaf_tag(x) == n.tag) { return spice_leaf(s, x, n); } } }
        Kind::Fields { fields, .. } => { if let Body::Kids(c) = &mut n.body { if !c.is_empty() {
            let j = s.below(c.len());
            // find a field able to hold this child
            let h = Hdr { class: c[j].class, cons: c[j].cons, tag: c[j].tag, len: None, hlen: 0, min_tag: true, min_len: true };
            if let Some(f) = fields.iter().find(|f| accepts(f, &h)) { return spice_leaf(s, f, &mut c[j]); } } } }
        Kind::Pdv | Kind::Any | Kind::RawSeq | Kind::RawSet | Kind::Eoc => {}
        leaf => { let mut t = leaf_tag(leaf); if t == 6 && n.class == 0 && n.tag == 13 { t = 13; } let c = spicy_content(s, t); n.body = Body::Prim(c); n.cons = false; return; }
    }
    mutate_node(s, n);
}
pub fn big(i: i64) -> BigInt { BigInt::from(i) }
