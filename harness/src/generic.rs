//! Properties checked over every registered type (library types and derived types alike).
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;

pub type Reg = fn() -> &'static [Ops];
pub enum Got { Yes { v: Val, obj: Option<Bx>, used: usize, rem: Rem }, Err(ErrObs) }
impl Got {
    pub fn short(&self) -> String { match self { Got::Yes { v, used, .. } => { let mut s = format!("Ok({v:?}, used {used})"); if s.len() > 400 { let mut i = 400; while !s.is_char_boundary(i) { i -= 1; } s.truncate(i); s.push_str(".."); } s } Got::Err(e) => format!("Err({:?} {})", e.kind, e.dbg) } }
    pub fn ok(&self) -> bool { matches!(self, Got::Yes { .. }) }
}
pub fn is_opt(k: &Kind) -> bool { matches!(k, Kind::Opt(_) | Kind::Def(..)) }
/// run one entry point on buf[off..]
pub fn run(o: &Ops, e: &Entry, buf: &'static [u8], off: usize) -> Got {
    match (e.run)(buf, off) {
        Err(x) => Got::Err(x),
        Ok((obj, rem)) => {
            let rl = rem.bytes().len();
            let used = (buf.len() - off).wrapping_sub(rl);
            let v = match &obj { None => Val::None, Some(b) => { let v = (o.val)(&**b); if e.optional && !is_opt(&o.kind) { Val::Some(Box::new(v)) } else { v } } };
            Got::Yes { v, obj, used, rem }
        }
    }
}
pub struct Inp { pub class: Class, pub buf: &'static [u8], pub off: usize, pub elen: usize }
impl Inp { pub fn elem(&self) -> &'static [u8] { &self.buf[self.off..self.off + self.elen] } pub fn rest(&self) -> &'static [u8] { &self.buf[self.off..] } }
pub fn input(s: &mut Src, o: &Ops, reg: &'static [Ops], w: &[u64; 8]) -> Inp {
    let others = [&s.pick(reg).kind, &s.pick(reg).kind];
    if s.chance(1, LONG) { if let Some(el) = long_element(s, &o.kind) { return place(s, Class::Long, el); } }
    let (class, el) = element(s, &o.kind, &others, w);
    place(s, class, el)
}
pub fn place(s: &mut Src, class: Class, el: Vec<u8>) -> Inp {
    let np = if s.chance(1, 2) { s.below(5) } else { 0 };
    let mut b = s.bytes(np);
    let off = b.len();
    let elen = el.len();
    b.extend(el);
    match s.weighted(&[4, 3, 2, 1]) {
        0 => {}
        1 => { let n = s.below(6); b.extend(s.bytes(n)); }
        2 => b.extend([0, 0]),
        _ => { let t = gen_tree(s, 2); b.extend(t); }
    }
    Inp { class, buf: keep(&b), off, elen }
}
pub fn start(s: &mut Src, reg: &'static [Ops]) -> &'static Ops { arena_reset(); s.pick(reg) }
pub fn describe(s: &mut Src, o: &Ops, i: &Inp) { s.label(i.class.name()); s.note(format!("{} <- {}|{}|{} ({})", o.name, hex(&i.buf[..i.off]), hex(i.elem()), hex(&i.buf[i.off + i.elen..]), i.class.name())); s.set_key(i.rest()); s.set_key(o.name.as_bytes()); }
pub const W_MIX: [u64; 8] = [3, 3, 3, 4, 3, 1, 1, 1];
pub const W_HOSTILE: [u64; 8] = [2, 2, 3, 5, 5, 1, 2, 4];
pub const W_VALID: [u64; 8] = [6, 6, 1, 2, 1, 0, 0, 0];
pub const W_DER: [u64; 8] = [6, 1, 6, 5, 2, 1, 0, 0];

/// use a decoded value every way its type allows
pub fn exercise(s: &mut Src, o: &Ops, b: &Bx) {
    let x = &**b;
    if let Some(f) = o.debug { s.evals += 1; let _ = f(x); }
    if let Some(f) = o.display { let _ = f(x); }
    if let Some(f) = o.hash { let _ = f(x); }
    if let Some(f) = o.eq { let _ = f(x, x); }
    if let Some(f) = o.cmp { let _ = f(x, x); }
    if let Some(f) = o.clone { let _ = f(x); }
    if let Some(f) = o.to_static { let y = f(x); let _ = (o.val)(&*y); }
    if let Some(f) = o.tagged { let _ = f(x); }
    for e in [&o.ber, &o.der].into_iter().flatten() {
        let _ = (e.meta)(x, false);
        for w in 0..6 { let mut sw = ScriptWriter::plain(); let _ = (e.w)(x, w, 2, 1000, &mut sw); s.evals += 1; }
    }
}
// ------------------------------------------------------------------ C01
pub fn c01(s: &mut Src, reg: Reg) -> Outcome {
    let o = start(s, reg());
    let i = input(s, o, reg(), &W_HOSTILE);
    describe(s, o, &i);
    checkpoint(s);
    let mut acc = 0;
    for e in &o.entries {
        s.evals += 1;
        if let Got::Yes { obj: Some(b), .. } = run(o, e, i.buf, i.off) { acc += 1; if acc <= 3 { exercise(s, o, &b); } }
    }
    crate::extras::poke(s, i.rest());
    if i.elen > 2 { s.nontrivial(); }
    s.label(if acc > 0 { "accepted" } else { "rejected" });
    Ok(())
}
// ------------------------------------------------------------------ C02
/// unhandled forms inside which the extent is not decided by the reference reader
pub fn c02(s: &mut Src, reg: Reg) -> Outcome {
    let o = start(s, reg());
    let i = input(s, o, reg(), &W_VALID);
    describe(s, o, &i);
    checkpoint(s);
    let suffix = { let n = 1 + s.below(5); s.bytes(n) };
    let cuts: Vec<usize> = (0..4).map(|_| s.below(i.elen.max(1))).collect();
    for e in &o.entries {
        let optional = e.optional || is_opt(&o.kind);
        s.evals += 1;
        let Got::Yes { v, used, rem, .. } = run(o, e, i.buf, i.off) else { continue };
        let rb = rem.bytes();
        ensure!(used <= i.buf.len() - i.off && rb.as_ptr() as usize == i.buf.as_ptr() as usize + i.off + used, format!("remaining-not-suffix/{}/{}", o.name, e.name), "{} {}: remaining is not the suffix of the input", o.name, e.name);
        if used > 0 && used < i.buf.len() - i.off { s.nontrivial(); s.label("accepted with bytes after it"); }
        let ext = match read_tlv(i.rest(), 200) { Ok((_, _, n)) => Some(n), Err(_) => None };
        if optional && used == 0 { ensure!(matches!(v, Val::None) || matches!(o.kind, Kind::Def(..)), format!("optional-consumed-nothing/{}", e.name), "{} {}: value {v:?} without consuming", o.name, e.name); }
        else { ensure!(Some(used) == ext, format!("consumed/{}/{}", o.name, e.name), "{} {}: consumed {used}, the element is {ext:?} bytes: {}", o.name, e.name, hex(i.rest())); }
        // other bytes after it
        let mut b2 = i.buf[..i.off + used].to_vec();
        // an absent optional element depends on the next tag: keep the following element, change what is after
        if used == 0 { b2 = i.buf.to_vec(); }
        b2.extend_from_slice(&suffix);
        let b2 = keep(&b2);
        s.evals += 1;
        if used > 0 || !i.rest().is_empty() {
            match run(o, e, b2, i.off) { Got::Yes { v: v2, used: u2, .. } if v2 == v && u2 == used => {} g => return fail(format!("suffix/{}/{}", o.name, e.name), format!("{} {}: with another suffix {}: {} instead of {v:?} used {used}", o.name, e.name, hex(b2), g.short())) }
        }
        // strict prefixes
        for c in &cuts {
            if *c >= used { continue; }
            let b3 = keep(&i.buf[..i.off + c]);
            s.evals += 1;
            match run(o, e, b3, i.off) {
                Got::Err(_) => {}
                Got::Yes { v: Val::None, used: 0, .. } if optional && *c == 0 => {}
                Got::Yes { used: 0, .. } if matches!(o.kind, Kind::Def(..)) && *c == 0 => {}
                g => return fail(format!("prefix/{}/{}", o.name, e.name), format!("{} {}: strict prefix {} of {} decodes: {}", o.name, e.name, hex(&b3[i.off..]), hex(&i.rest()[..used]), g.short())),
            }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ C04
fn has_nan(v: &Val) -> bool { match v { Val::F64(b) => f64::from_bits(*b).is_nan(), Val::List(l) | Val::Set(l) => l.iter().any(has_nan), Val::Some(x) | Val::Choice(_, x) => has_nan(x), _ => false } }
pub fn buildable(s: &mut Src, reg: &'static [Ops]) -> (&'static Ops, Val, Bx) {
    arena_reset();
    loop {
        let o = s.pick(reg);
        if o.ber.is_none() && o.der.is_none() { if s.rec.len() > 200 { panic!("no encodable type drawn"); } continue; }
        let v = any_size(s, &o.kind);
        match (o.build)(&v) { Some(b) => return (o, v, b), None => panic!("harness: cannot build {} from {v:?}", o.name) }
    }
}
fn note_val(s: &mut Src, o: &Ops, v: &Val) { let mut t = format!("{} = {v:?}", o.name); if t.len() > 600 { let mut i = 600; while !t.is_char_boundary(i) { i -= 1; } t.truncate(i); t.push_str(".."); } s.note(&t); s.set_key(t.as_bytes()); }
fn trivial(v: &Val) -> bool { match v { Val::Null | Val::None | Val::Bool(_) => true, Val::Bytes(b) => b.is_empty(), Val::Str(b) => b.is_empty(), Val::List(b) | Val::Set(b) => b.iter().all(trivial), Val::Some(x) | Val::Choice(_, x) => trivial(x), _ => false } }
pub fn c04(s: &mut Src, reg: Reg) -> Outcome {
    let (o, v, b) = buildable(s, reg());
    note_val(s, o, &v);
    if !trivial(&v) { s.nontrivial(); }
    checkpoint(s);
    roundtrips(s, o, &v, &b)
}
/// one case in so many is a long one
pub const LONG: u64 = 1500;
/// different values of a type
fn distinct(k: &Kind, n: usize) -> Vec<Val> {
    match k {
        Kind::Int { bits, signed } => { let m = if *bits < 16 { 1usize << (*bits - *signed as u32) } else { 32768 }; (0..n.min(m)).map(|i| Val::Int((i * 7 % m).into())).collect() }
        Kind::Integer => (0..n).map(|i| Val::Int((i * 7 % 32768).into())).collect(),
        Kind::Str { .. } => (0..n).map(|i| Val::Str((i * 7 % 32768).to_string())).collect(),
        Kind::Octets { .. } => (0..n).map(|i| Val::Bytes(((i * 7 % 32768) as u16).to_be_bytes().to_vec())).collect(),
        _ => vec![],
    }
}
fn long_size(s: &mut Src) -> usize { match s.below(9) { 8 => *s.pick(&[65535usize, 65536, 65537, 66000]), 6 | 7 => *s.pick(&[1000usize, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000, 16384]), 4 | 5 => *s.pick(&[127usize, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513]), _ => s.range(100, 900) as usize } }
pub fn long_val(s: &mut Src, k: &Kind) -> Option<Val> { let n = long_size(s); let mut vs = long_vals(k, n); if vs.is_empty() { return None; } let i = s.below(vs.len()); Some(vs.swap_remove(i)) }
/// mostly small values, sometimes a long one
pub fn any_size(s: &mut Src, k: &Kind) -> Val { if s.chance(1, LONG) { if let Some(v) = long_val(s, k) { s.label("long value"); return v; } } gen_val(k, s) }
/// a long element, whole or with one octet changed, often next to its end
pub fn long_element(s: &mut Src, k: &Kind) -> Option<Vec<u8>> {
    let v = long_val(s, k)?;
    let mut b = der(k, &v);
    if b.len() < 8000 && s.bool() { b = enc(k, &v, &mut Form::Ber(s, Ber::ALL)); }
    if b.is_empty() { return Some(b); }
    let l = b.len();
    let at = |s: &mut Src| -> usize { match s.below(4) { 0 => l - 1 - s.below(l.min(6)), 1 => l / 2 + s.below(l / 2 + 1).min(l - l / 2 - 1), 2 => l - l / 4 + s.below(9).min(l / 4).saturating_sub(1), _ => s.below(l) }.min(l - 1) };
    match s.below(6) {
        0 | 1 | 2 => {}
        3 => { let i = at(s); b[i] ^= 1 << s.below(8); }
        4 => { let i = at(s); b[i] = *s.pick(&[0u8, 0xff, 0x80, 0x7f]); }
        _ => { let i = at(s); b.truncate(i); }
    }
    Some(b)
}
/// values whose contents take about `n` octets, one per place where a long part can stand
pub fn long_vals(k: &Kind, n: usize) -> Vec<Val> {
    let small = |k: &Kind| gen_val(k, &mut Src::replay(&[], 1));
    let fill = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 31 + i / 256 + 1) as u8).collect() };
    match k {
        Kind::Integer => vec![Val::Int(num_bigint::BigInt::from_signed_bytes_be(&fill(n))), Val::Int(-num_bigint::BigInt::from_signed_bytes_be(&fill(n))), Val::Int((num_bigint::BigInt::from(1) << (8 * n - 1)) - 1u32), Val::Int(-(num_bigint::BigInt::from(1) << (8 * n - 1)))],
        Kind::Octets { .. } => vec![Val::Bytes(fill(n))],
        Kind::Bits => vec![Val::Bits((0..8 * (n - 1)).map(|i| (i / 3) % 2 == 0).collect()), Val::Bits((0..8 * (n - 1) - 3).map(|i| i % 5 == 0).collect())],
        Kind::Oid => vec![Val::Oid(false, (0..n.min(9000)).map(|i| if i == 0 { 0x2a } else if i + 1 == n.min(9000) { 0x41 } else { 0x81 + (i % 0x7f) as u8 }).collect()), Val::Oid(false, (0..n).map(|i| (i % 0x60) as u8 + 1).collect())],
        Kind::Str { cs, .. } => vec![Val::Str(match cs { Cs::Utf8 => "aé€\u{10348}", Cs::Bmp => "é€a", Cs::Universal => "€\u{10348}", _ => "0 90" }.chars().cycle().take(match cs { Cs::Bmp => n / 2, Cs::Universal => n / 4, Cs::Utf8 => n * 2 / 5, _ => n }).collect()), Val::Str("0123".chars().cycle().take(match cs { Cs::Bmp => n / 2, Cs::Universal => n / 4, _ => n }).collect())],
        Kind::Any => vec![Val::Any { class: 0, cons: false, tag: 4, content: fill(n) }],
        Kind::RawSeq | Kind::RawSet => vec![Val::Bytes(tlv(0, false, 4, &fill(n - 4)))],
        Kind::SeqOf(i) => { let mut r: Vec<Val> = long_vals(i, n).into_iter().map(|v| Val::List(vec![small(i), v, small(i)])).collect(); let e = der(i, &small(i)).len().max(2); if n <= 70000 { r.push(Val::List(vec![small(i); n / e])); } r }
        Kind::SetOf(i, _) => { let mut r: Vec<Val> = long_vals(i, n).into_iter().map(|v| Val::Set(vec![v])).collect(); let mut l = distinct(i, n / 4); if l.len() > 2 { l.sort(); l.dedup(); r.push(Val::Set(l)); } r }
        Kind::Array(i, m) if *m > 0 => long_vals(i, n).into_iter().map(|v| { let mut l = vec![small(i); *m]; l[0] = v; Val::List(l) }).collect(),
        Kind::Fields { fields, .. } => { let base: Vec<Val> = fields.iter().map(small).collect(); (0..fields.len()).flat_map(|i| long_vals(&fields[i], n).into_iter().map(|v| { let mut l = base.clone(); l[i] = v; Val::List(l) }).collect::<Vec<_>>()).collect() }
        Kind::Tagged { inner, .. } => long_vals(inner, n),
        Kind::Opt(i) => long_vals(i, n).into_iter().map(|v| Val::Some(Box::new(v))).collect(),
        Kind::Def(i, _) => long_vals(i, n),
        Kind::Choice(a) => (0..a.len()).flat_map(|i| long_vals(&a[i], n).into_iter().map(|v| Val::Choice(i, Box::new(v))).collect::<Vec<_>>()).collect(),
        _ => vec![],
    }
}
/// every type with long contents, next to the lengths where the header grows
pub fn long_fixed(fx: &mut Fixed, reg: Reg, f: fn(&mut Src, &Ops, &Val, &Bx) -> Outcome) {
    let sizes: &[usize] = if fx.tier_thorough { &[125, 126, 127, 128, 129, 253, 254, 255, 256, 257, 4096, 8191, 8192, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 100_000] } else { &[127, 128, 255, 256, 65535, 65536] };
    let mut k = 0u64;
    let mut run = |fx: &mut Fixed, o: &'static Ops, n: usize| {
        k += 1; if !fx.mine(k) { return; }
        for v in long_vals(&o.kind, n) { arena_reset(); let Some(b) = (o.build)(&v) else { continue }; fx.go(|| format!("{} with {n} octets of contents", o.name), || f(&mut Src::replay(&[], 1), o, &v, &b).map_err(|mut e| { if e.msg.len() > 500 { let mut i = 500; while !e.msg.is_char_boundary(i) { i -= 1; } e.msg.truncate(i); e.msg.push_str(".."); } e })); }
        arena_reset();
    };
    for o in reg() { if o.ber.is_none() && o.der.is_none() { continue; } for &n in sizes { run(fx, o, n); } }
    // the next octet of the length, on a few types
    for o in reg() { if matches!(o.kind, Kind::Octets { .. } | Kind::Bits) || (fx.tier_thorough && matches!(o.kind, Kind::Str { cs: Cs::Utf8, .. } | Kind::Any | Kind::RawSeq)) { if o.ber.is_none() && o.der.is_none() { continue; } for n in [(1usize << 24) - 1, 1 << 24] { if fx.tier_thorough || (n == 1 << 24 && o.name == "OctetString") { run(fx, o, n); } } } }
    fx.count("long values", k);
}
pub fn roundtrips(s: &mut Src, o: &Ops, v: &Val, b: &Bx) -> Outcome {
    let v = v.clone();
    let got = (o.val)(&**b);
    ensure!(got == v, format!("build/{}", o.name), "{}: built from {v:?}, reads back as {got:?}", o.name);
    for (der, enc) in [(true, &o.der), (false, &o.ber)] {
        let Some(enc) = enc else { continue };
        let m = (enc.meta)(&**b, false);
        let bytes = match m.vec { Ok(x) => x, Err(e) => return fail(format!("encode-error/{}/{}", o.name, if der { "DER" } else { "BER" }), format!("{}: encoding {v:?} failed: {e}", o.name)) };
        let suffix = s.below(3); let mut all = bytes.clone(); all.extend(s.bytes(suffix));
        let all = keep(&all);
        for e in o.entries.iter().filter(|e| e.der == der) {
            s.evals += 1;
            // a value that encodes to nothing cannot be followed by unrelated bytes
            let buf = if bytes.is_empty() { &all[..0] } else { all };
            match run(o, e, buf, 0) {
                Got::Yes { v: v2, used, obj, .. } => {
                    let want = if e.optional && !is_opt(&o.kind) { Val::Some(Box::new(v.clone())) } else { v.clone() };
                    ensure!(v2 == want && used == bytes.len(), format!("roundtrip/{}/{}", o.name, e.name), "{} {}: {v:?} encodes as {} which decodes as {v2:?} (used {used})", o.name, e.name, hex(&bytes));
                    if let (Some(eq), Some(x)) = (o.eq, &obj) {
                        if !has_nan(&v) && !any_kind(&o.kind, &|k| matches!(k, Kind::Any | Kind::Real | Kind::SetOf(_, false))) { s.evals += 1; ensure!(eq(&**b, &**x) && eq(&**x, &**b), format!("roundtrip-eq/{}/{}", o.name, e.name), "{} {}: decoded value of {} is not equal to the original {v:?}", o.name, e.name, hex(&bytes)); }
                    }
                }
                Got::Err(x) => { if bytes.is_empty() && !is_opt(&o.kind) { continue; } return fail(format!("roundtrip/{}/{}", o.name, e.name), format!("{} {}: {v:?} encodes as {} which does not decode: {x:?}", o.name, e.name, hex(&bytes))); }
            }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ C05
fn is_any(k: &Kind) -> bool { matches!(k, Kind::Any) }
pub fn c05(s: &mut Src, reg: Reg) -> Outcome {
    if s.chance(1, 25) { return crate::extras::indefinite(s, false); }
    if s.chance(1, 60) { return crate::extras::any_built(s); }
    let (o, v, b) = if s.chance(1, 5) {
        // values obtained by decoding (other internal representations than built ones)
        let o = start(s, reg()); let i = input(s, o, reg(), &W_VALID);
        let mut r = None;
        for e in &o.entries { if let Got::Yes { obj: Some(b), v, .. } = run(o, e, i.buf, i.off) { if !is_opt(&o.kind) || v != Val::None { r = Some((o, (o.val)(&*b), b)); break; } } }
        match r { Some(x) => x, None => return Ok(()) }
    } else { buildable(s, reg()) };
    note_val(s, o, &v);
    checkpoint(s);
    encode_agrees(s, o, &v, &b)
}
pub fn encode_agrees(s: &mut Src, o: &Ops, v: &Val, b: &Bx) -> Outcome {
    let (c, n) = (s.below(4) as u8, gen_tagnum(s, 2));
    for (rules, enc) in [("DER", &o.der), ("BER", &o.ber)] {
        let Some(enc) = enc else { continue };
        for by_ref in [false, true] {
            let w = if by_ref { enc.w_ref } else { enc.w };
            let m = (enc.meta)(&**b, by_ref);
            let sig = |x: &str| format!("{x}/{}/{rules}{}", o.name, if by_ref { "/&" } else { "" });
            let mut outs: Vec<(WRes, Vec<u8>)> = Vec::new();
            for what in 0..6u8 { let mut sw = ScriptWriter::plain(); let r = w(&**b, what, c, n, &mut sw); s.evals += 1; outs.push((r, sw.out)); }
            let Ok(vec) = &m.vec else {
                // not encodable: every other entry point must refuse as well
                ensure!(outs[0].0.is_err() && outs[5].0.is_err(), sig("error-disagree"), "{} {rules}: to_vec failed but encode succeeded for {v:?}", o.name);
                continue;
            };
            for (what, name) in [(0usize, "encode"), (5, "write")] {
                match &outs[what] { (Ok(k), out) => { ensure!(*k == out.len(), sig("returned"), "{} {rules} {name} returned {k}, wrote {} bytes", o.name, out.len()); ensure!(out == vec, sig("entry-disagree"), "{} {rules} {name} wrote {}, vector form {} for {v:?}", o.name, hex(out), hex(vec)); }
                    (Err(e), _) => return fail(sig("entry-disagree"), format!("{} {rules} {name} failed ({e}), vector form succeeded", o.name)) }
            }
            ensure!(m.total == Some(vec.len()), sig("total-len"), "{} {rules}: total length {:?}, encoding is {} bytes: {} for {v:?}", o.name, m.total, vec.len(), hex(vec));
            if let Some((l, raw)) = &m.extra { ensure!(l.as_ref() == Ok(&vec.len()), sig("to_der_len"), "{}: to_der_len {l:?}, encoding is {} bytes", o.name, vec.len());
                ensure!(raw.as_ref() == Ok(vec), sig("to_der_vec_raw"), "{}: to_der_vec_raw {:?}, to_der_vec {}", o.name, raw.as_ref().map(|x| hex(x)), hex(vec)); }
            if *v == Val::None || (vec.is_empty() && matches!(o.kind, Kind::Def(..))) {
                ensure!(vec.is_empty() && m.content == Some(0), sig("absent"), "{} {rules}: absent value writes {} and announces {:?}", o.name, hex(vec), m.content);
                continue;
            }
            let h = match read_hdr(vec) { Ok(h) => h, Err(e) => return fail(sig("malformed"), format!("{} {rules}: output {} has no valid header ({e:?})", o.name, hex(vec))) };
            let whole = read_tlv(vec, 60).map(|x| x.2);
            ensure!(whole == Ok(vec.len()), sig("malformed"), "{} {rules}: output {} is not one element ({whole:?}) for {v:?}", o.name, hex(vec));
            if vec.len() > 2 { s.nontrivial(); }
            ensure!((h.class, h.cons, h.tag) == (m.class, m.cons, m.tag), sig("tag-info"), "{} {rules}: announced {:?}, header is class {} cons {} tag {}", o.name, (m.class, m.cons, m.tag), h.class, h.cons, h.tag);
            if let Some(f) = o.tagged { let t = f(&**b); if !is_any(&o.kind) { ensure!((h.class, h.cons, h.tag) == t, sig("dyn-tag"), "{} {rules}: class, form and tag reported {t:?}, header is class {} cons {} tag {} for {v:?}", o.name, h.class, h.cons, h.tag); } }
            ensure!(h.len.is_some() || rules == "BER", sig("indefinite"), "{} DER output has indefinite length", o.name);
            if h.len.is_none() { continue; }
            ensure!(h.min_len && h.min_tag, sig("header-form"), "{} {rules}: header of {} is not in the shortest form", o.name, hex(vec));
            let (hd, ct) = vec.split_at(h.hlen);
            ensure!(m.content == Some(ct.len()), sig("content-len"), "{} {rules}: content length {:?}, content is {} bytes ({}) for {v:?}", o.name, m.content, ct.len(), hex(vec));
            for (what, name, want) in [(1usize, "header", hd), (2, "content", ct)] {
                match &outs[what] { (Ok(k), out) => { ensure!(*k == out.len(), sig("returned"), "{} {rules} write {name} returned {k}, wrote {} bytes", o.name, out.len()); ensure!(out == want, sig("part-disagree"), "{} {rules} write {name}: {}, expected {} for {v:?}", o.name, hex(out), hex(want)); }
                    (Err(e), _) => return fail(sig("part-disagree"), format!("{} {rules} write {name} failed: {e}", o.name)) }
            }
            let want = tlv(c, true, n, vec);
            let wanti = tlv(c, h.cons, n, ct);
            for (what, name, want) in [(3usize, "explicit", want), (4, "implicit", wanti)] {
                if what == 4 && is_any(&o.kind) { /* same rule */ }
                match &outs[what] { (Ok(k), out) => { ensure!(*k == out.len(), sig("returned"), "{} {rules} {name} returned {k}, wrote {} bytes", o.name, out.len()); ensure!(*out == want, sig(name), "{} {rules} {name} [{c} {n}]: {}, expected {} for {v:?}", o.name, hex(out), hex(&want)); }
                    (Err(e), _) => return fail(sig(name), format!("{} {rules} {name} failed: {e}", o.name)) }
            }
        }
    }
    Ok(())
}
/// C18: the tagging writers against the value's own encoding, wrapped or with its identifier replaced; decoded again by
/// the generic reader
pub fn tagged_agrees(s: &mut Src, reg: Reg) -> Outcome {
    let (o, v, b) = if s.chance(1, 3) {
        let o = start(s, reg()); let i = input(s, o, reg(), &W_VALID);
        let mut r = None;
        for e in &o.entries { if let Got::Yes { obj: Some(b), v, .. } = run(o, e, i.buf, i.off) { if !is_opt(&o.kind) || v != Val::None { r = Some((o, (o.val)(&*b), b)); break; } } }
        match r { Some(x) => x, None => return Ok(()) }
    } else { buildable(s, reg()) };
    note_val(s, o, &v);
    s.label("tagging writers");
    checkpoint(s);
    let (c, n) = (s.below(4) as u8, gen_tagnum(s, 2));
    for (rules, enc) in [("DER", &o.der), ("BER", &o.ber)] {
        let Some(enc) = enc else { continue };
        for by_ref in [false, true] {
            let Ok(own) = (enc.meta)(&*b, by_ref).vec else { continue };
            let Ok((h, r, used)) = read_tlv(&own, 60) else { continue };
            if h.len.is_none() || used != own.len() { continue; }
            s.nontrivial();
            for (what, name, want) in [(3u8, "explicit", tlv(c, true, n, &own)), (4, "implicit", tlv(c, h.cons, n, &own[r.clone()]))] {
                s.evals += 1;
                let mut sw = ScriptWriter::plain();
                let x = if by_ref { (enc.w_ref)(&*b, what, c, n, &mut sw) } else { (enc.w)(&*b, what, c, n, &mut sw) };
                ensure!(x == Ok(want.len()) && sw.out == want, format!("encode-tagged-{name}/{}/{rules}", o.name), "{} {rules} {name} [{c} {n}] of {v:?}: {x:?} {}, the value encodes as {}, so it should be {}", o.name, hex(&sw.out), hex(&own), hex(&want));
            }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ C06
/// every length and tag of the element (recursively through constructed contents) in the shortest definite form
fn minimal(b: &[u8], depth: u32) -> bool {
    let Ok((h, r, n)) = read_tlv(b, 60) else { return false };
    if n != b.len() || !h.min_len || !h.min_tag { return false; }
    if !h.cons || depth == 0 { return true; }
    let c = &b[r];
    let mut p = 0;
    while p < c.len() { match read_tlv(&c[p..], 60) { Ok((_, _, k)) => { if !minimal(&c[p..p + k], depth - 1) { return false; } p += k; } Err(_) => return true } }
    true
}
pub fn c06(s: &mut Src, reg: Reg) -> Outcome {
    let o = start(s, reg());
    let Some(enc) = &o.der else { return Ok(()) };
    let i = input(s, o, reg(), &W_DER);
    describe(s, o, &i);
    checkpoint(s);
    for e in o.entries.iter().filter(|e| e.der) {
        s.evals += 1;
        let Got::Yes { v, obj: Some(b), used, .. } = run(o, e, i.buf, i.off) else { continue };
        if used == 0 { continue; }
        let el = &i.rest()[..used];
        if !minimal(el, 30) { s.label("accepted, non-minimal header"); continue; }
        let m = dec(&o.kind, el, true);
        // order / multiplicity of sets, ignored trailing elements and explicit default values: see the statement
        if any_kind(&o.kind, &|k| matches!(k, Kind::SetOf(..))) && (m == R::Unk || set_has_dup(&o.kind, el)) { s.label("accepted, unordered set"); continue; }
        // REAL: the rules are about normalised base-2 forms (the others are not DER), and f32/f64 do not keep the base
        if any_kind(&o.kind, &|k| matches!(k, Kind::F32)) || o.name.contains("f64") || (m == R::Unk && any_kind(&o.kind, &|k| matches!(k, Kind::Real))) { continue; }
        // a mantissa of more than 53 bits is read as the nearest f64
        if any_kind(&o.kind, &|k| matches!(k, Kind::Real)) && matches!(&m, R::Yes(v, _) if der(&o.kind, v) != el) { s.label("accepted, REAL rounded"); continue; }
        if any_kind(&o.kind, &|k| matches!(k, Kind::Fields { .. } | Kind::Tagged { explicit: true, .. })) && m == R::Unk { s.label("accepted, surplus contents"); continue; }
        s.nontrivial();
        s.label("accepted, minimal headers");
        let got = (enc.meta)(&*b, false).vec;
        ensure!(got.as_deref() == Ok(el), format!("reencode/{}{}", o.name, c06_known(o, el, got.as_deref().unwrap_or(&[]))), "{} {}: {} decodes as {v:?}, which encodes as {}", o.name, e.name, hex(el), match &got { Ok(x) => hex(x), Err(e) => e.clone() });
    }
    Ok(())
}
fn set_has_dup(k: &Kind, el: &[u8]) -> bool {
    // conservative: any two equal sibling elements anywhere
    let _ = k;
    fn walk(n: &[Node]) -> bool { let mut seen = std::collections::HashSet::new(); n.iter().any(|a| { let mut x = Vec::new(); write_node(a, &mut x); !seen.insert(x) || if let Body::Kids(k) = &a.body { walk(k) } else { false } }) }
    any_kind(k, &|k| matches!(k, Kind::SetOf(_, true))) && parse_nodes(el, 10).map(|n| walk(&n)).unwrap_or(false)
}
/// recorded deviations are kept apart by their cause
fn padded(o: &Ops, el: &[u8]) -> &'static str { match read_tlv(el, 5) { Ok((_, r, _)) if o.name == "Enumerated" && !int_minimal(&el[r.clone()]) => "/padded", _ => "" } }
fn c06_known(o: &Ops, el: &[u8], got: &[u8]) -> &'static str {
    let k = &o.kind;
    if o.name == "Enumerated" { return padded(o, el); }
    fn utc(n: &[Node]) -> bool { n.iter().any(|n| match &n.body { Body::Prim(c) => !(c.len() == 13 && c.last() == Some(&b'Z')), Body::Kids(x) => utc(x) }) }
    if any_kind(k, &|k| matches!(k, Kind::UtcTime)) { if let Some(n) = parse_nodes(el, 10) { if utc(&n) { return "/utctime-offset"; } } }
    if o.name.contains("HashSet") && el.len() == got.len() {
        let kids = |b: &[u8]| -> Option<Vec<Vec<u8>>> { let n = parse_nodes(b, 1)?.pop()?; if let Body::Kids(k) = n.body { let mut v: Vec<Vec<u8>> = k.iter().map(|n| { let mut o = Vec::new(); write_node(n, &mut o); o }).collect(); v.sort(); Some(v) } else { None } };
        if kids(el).is_some() && kids(el) == kids(got) { return "/hash-order"; }
    }
    ""
}
// ------------------------------------------------------------------ C07
pub fn c07(s: &mut Src, reg: Reg) -> Outcome {
    let o = start(s, reg());
    let i = input(s, o, reg(), &W_DER);
    describe(s, o, &i);
    checkpoint(s);
    let base = dec(&o.kind, i.rest(), true);
    let opt = if is_opt(&o.kind) { base.clone() } else { dec(&Kind::Opt(Box::new(o.kind.clone())), i.rest(), true) };
    s.label(match base { R::Yes(..) => "model: valid DER", R::No => "model: invalid", R::Unk => "model: unspecified" });
    if base != R::Unk { s.nontrivial(); }
    for e in o.entries.iter().filter(|e| e.der) { against(s, o, e, &i, if e.optional { &opt } else { &base })?; }
    Ok(())
}
pub fn against(s: &mut Src, o: &Ops, e: &Entry, i: &Inp, want: &R) -> Outcome {
    s.evals += 1;
    let g = run(o, e, i.buf, i.off);
    match (want, &g) {
        (R::Unk, _) => Ok(()),
        (R::Yes(v, n), Got::Yes { v: v2, used, .. }) => { ensure!(v == v2 && *n == used.to_owned(), format!("value/{}/{}", o.name, e.name), "{} {}: {} denotes {v:?} ({n} bytes), decoded {}", o.name, e.name, hex(i.rest()), g.short()); Ok(()) }
        (R::No, Got::Err(_)) => Ok(()),
        (R::Yes(v, n), Got::Err(_)) => fail(format!("rejects-valid/{}/{}", o.name, e.name), format!("{} {}: {} is valid ({v:?}, {n} bytes) but rejected: {}", o.name, e.name, hex(i.rest()), g.short())),
        (R::No, Got::Yes { .. }) => fail(format!("accepts-invalid/{}/{}{}", o.name, e.name, padded(o, i.rest())), format!("{} {}: {} is not a valid encoding but accepted: {}", o.name, e.name, hex(i.rest()), g.short())),
    }
}
// ------------------------------------------------------------------ C08
pub fn c08(s: &mut Src, reg: Reg) -> Outcome {
    let o = start(s, reg());
    let i = input(s, o, reg(), &W_DER);
    describe(s, o, &i);
    checkpoint(s);
    for e in o.entries.iter().filter(|e| e.der) {
        s.evals += 1;
        let Got::Yes { v, used, .. } = run(o, e, i.buf, i.off) else { continue };
        if used > 0 { s.nontrivial(); s.label("accepted as DER"); }
        for f in o.entries.iter().filter(|f| !f.der && f.optional == e.optional) {
            match run(o, f, i.buf, i.off) { Got::Yes { v: v2, used: u2, .. } if v2 == v && u2 == used => {} g => return fail(format!("der-not-ber/{}/{}+{}", o.name, e.name, f.name), format!("{}: {} gives {v:?} used {used} with {}, but {} with {}", o.name, hex(i.rest()), e.name, g.short(), f.name)) }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ C09
pub fn c09(s: &mut Src, reg: Reg) -> Outcome {
    let o = start(s, reg());
    let i = input(s, o, reg(), &W_MIX);
    describe(s, o, &i);
    checkpoint(s);
    for der in [false, true] {
        let es: Vec<&Entry> = o.entries.iter().filter(|e| e.der == der).collect();
        let Some(base) = es.iter().find(|e| !e.optional) else { continue };
        let g = run(o, base, i.buf, i.off);
        if g.ok() { s.nontrivial(); s.label(if der { "accepted as DER" } else { "accepted as BER" }); }
        for e in es.iter() {
            s.evals += 1;
            if e.name == base.name { continue; }
            let h = run(o, e, i.buf, i.off);
            let agree = match (&g, &h) {
                (Got::Yes { v, used, .. }, Got::Yes { v: v2, used: u2, .. }) => used == u2 && if e.optional && !is_opt(&o.kind) { Val::Some(Box::new(v.clone())) == *v2 } else { v == v2 },
                (Got::Err(_), Got::Err(_)) => if e.optional { !i.rest().is_empty() } else { true },
                // the optional form reports absence only when there is no element of the type
                (Got::Err(_), Got::Yes { v: Val::None, used: 0, .. }) if e.optional => i.rest().is_empty() || read_hdr(i.rest()).map(|h| !accepts(&o.kind, &h)).unwrap_or(false),
                _ => false,
            };
            ensure!(agree, format!("entries/{}/{}+{}{}", o.name, base.name, e.name, padded(o, i.rest())), "{} on {}: {} gives {}, {} gives {}", o.name, hex(i.rest()), base.name, g.short(), e.name, h.short());
        }
    }
    // the remaining ways: accessors and views of a generic element, content parsers, container callbacks, header readers
    if s.chance(1, 6) { s.label("accessors, views, callbacks"); crate::extras::agree(s, i.buf, i.off, crate::extras::groups())?; }
    Ok(())
}
// ------------------------------------------------------------------ C16
pub fn c16(s: &mut Src, reg: Reg) -> Outcome {
    let o = start(s, reg());
    let v = any_size(s, &o.kind);
    let d = der(&o.kind, &v);
    let ber = Ber { long_len: s.chance(3, 4), indef: s.chance(3, 4), segment: s.chance(3, 4), depth: 0 };
    let e1 = enc(&o.kind, &v, &mut Form::Ber(s, ber));
    s.note(format!("{}: {} rewritten as {}", o.name, hex(&d), hex(&e1)));
    s.set_key(&e1); s.set_key(o.name.as_bytes());
    if d.is_empty() { return Ok(()); }
    if e1 != d { s.nontrivial(); }
    checkpoint(s);
    let want = norm(&o.kind, &v);
    let bd = place(s, Class::ValidDer, d);
    let be = place(s, Class::ValidBer, e1);
    for e in o.entries.iter().filter(|e| !e.der) {
        for i in [&bd, &be] {
            s.evals += 1;
            match run(o, e, i.buf, i.off) {
                Got::Yes { v: got, used, .. } => {
                    let got = match got { Val::Some(x) if e.optional && !is_opt(&o.kind) => *x, x => x };
                    let got = norm(&o.kind, &got);
                    ensure!(got == want && used == i.elen, format!("ber-value/{}/{}", o.name, e.name), "{} {}: {} denotes {want:?}, decoded {got:?} (used {used} of {})", o.name, e.name, hex(i.rest()), i.elen);
                }
                Got::Err(x) => return fail(format!("ber-rejected/{}/{}", o.name, e.name), format!("{} {}: {} denotes {want:?}, rejected: {x:?}", o.name, e.name, hex(i.rest()))),
            }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ C24
pub fn c24(s: &mut Src, reg: Reg) -> Outcome {
    if s.chance(1, 25) { return crate::extras::indefinite(s, true); }
    let (o, v, b) = buildable(s, reg());
    note_val(s, o, &v);
    checkpoint(s);
    let (c, n) = (s.below(4) as u8, gen_tagnum(s, 2));
    let nch = s.below(4);
    let chunks: Vec<usize> = (0..nch).map(|_| 1 + s.below(6)).collect();
    let interrupt = if s.chance(1, 2) { 0 } else { 1 + 1 + s.below(3) };
    let kind = s.below(3) as u8;
    for (rules, enc) in [("DER", &o.der), ("BER", &o.ber)] {
        let Some(enc) = enc else { continue };
        for (w, r) in [(enc.w, ""), (enc.w_ref, "/&")] {
            for what in 0..6u8 {
                let name = ["encode", "header", "content", "explicit", "implicit", "write"][what as usize];
                let sig = |x: &str| format!("{x}/{}/{rules}/{name}{r}", o.name);
                let mut full = ScriptWriter::plain();
                if w(&*b, what, c, n, &mut full).is_err() { continue; }
                let full = full.out;
                let mut sw = ScriptWriter { chunks: chunks.clone(), interrupt, ..ScriptWriter::plain() };
                let res = w(&*b, what, c, n, &mut sw);
                s.evals += 1;
                if full.len() > 1 && (!chunks.is_empty() || interrupt > 0) { s.nontrivial(); }
                ensure!(res == Ok(full.len()) && sw.out == full, sig("short-writes"), "{} {rules} {name}: with short writes {chunks:?}, interrupts {interrupt}: {res:?}, wrote {}, expected {}", o.name, hex(&sw.out), hex(&full));
                if full.is_empty() { continue; }
                let at = s.below(full.len());
                let mut sw = ScriptWriter { chunks: chunks.clone(), interrupt, fail_at: Some(at), fail_kind: kind, ..ScriptWriter::plain() };
                let res = w(&*b, what, c, n, &mut sw);
                s.evals += 1;
                s.nontrivial();
                ensure!(res.is_err(), sig("failing-writer-ok"), "{} {rules} {name}: writer failed after {at} of {} bytes (kind {kind}), reported {res:?}", o.name, full.len());
                ensure!(full.starts_with(&sw.out), sig("not-a-prefix"), "{} {rules} {name}: writer failed after {at} bytes, received {} which is no prefix of {}", o.name, hex(&sw.out), hex(&full));
            }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ C25
pub fn c25(s: &mut Src, reg: Reg) -> Outcome {
    arena_reset();
    if s.chance(1, 12) { return crate::extras::header_owned(s); }
    if s.chance(1, 8) { return crate::extras::derive_owned(s); }
    let regs = reg();
    let have: Vec<usize> = (0..regs.len()).filter(|i| regs[*i].to_static.is_some()).collect();
    let o = &regs[*s.pick(&have)];
    let i = input(s, o, regs, &W_VALID);
    describe(s, o, &i);
    checkpoint(s);
    let f = o.to_static.unwrap();
    for e in &o.entries {
        let Got::Yes { obj: Some(b), .. } = run(o, e, i.buf, i.off) else { continue };
        s.evals += 1;
        let v = (o.val)(&*b);
        if !trivial(&v) { s.nontrivial(); }
        let y = f(&*b);
        ensure!((o.val)(&*y) == v, format!("owned-value/{}", o.name), "{}: owned copy of {v:?} is {:?}", o.name, (o.val)(&*y));
        if let Some(eq) = o.eq { if !has_nan(&v) { ensure!(eq(&*b, &*y) && eq(&*y, &*b), format!("owned-eq/{}", o.name), "{}: owned copy differs from {v:?}", o.name); } }
        if let Some(h) = o.hash { ensure!(h(&*b) == h(&*y), format!("owned-hash/{}", o.name), "{}: hash of the owned copy differs for {v:?}", o.name); }
        if let Some(d) = o.debug { ensure!(d(&*b) == d(&*y) || any_kind(&o.kind, &|k| matches!(k, Kind::SetOf(..))), format!("owned-print/{}", o.name), "{}: prints {} / {}", o.name, d(&*b), d(&*y)); }
        if let Some(d) = o.display { ensure!(d(&*b) == d(&*y), format!("owned-print/{}", o.name), "{}: prints {} / {}", o.name, d(&*b), d(&*y)); }
        if let Some(t) = o.tagged { ensure!(t(&*b) == t(&*y), format!("owned-tag/{}", o.name), "{}: tags {:?} / {:?}", o.name, t(&*b), t(&*y)); }
        for enc in [&o.der, &o.ber].into_iter().flatten() { let (a, c) = ((enc.meta)(&*b, false).vec, (enc.meta)(&*y, false).vec); ensure!(a == c || any_kind(&o.kind, &|k| matches!(k, Kind::SetOf(_, true))), format!("owned-encode/{}", o.name), "{}: encodes as {:?} / {:?}", o.name, a.map(|x| hex(&x)), c.map(|x| hex(&x))); }
    }
    Ok(())
}
// ------------------------------------------------------------------ C26
pub fn c26(s: &mut Src, reg: Reg) -> Outcome {
    arena_reset();
    if s.chance(1, 8) { return crate::extras::header_eq(s); }
    let regs = reg();
    let have: Vec<usize> = (0..regs.len()).filter(|i| regs[*i].eq.is_some()).collect();
    let o = &regs[*s.pick(&have)];
    let eq = o.eq.unwrap();
    // a small pool of values: fresh, decoded from rewrites of one another, built, owned copies, near misses
    let mut pool: Vec<(Bx, String)> = Vec::new();
    let v = gen_val(&o.kind, s);
    if let Some(b) = (o.build)(&v) { pool.push((b, "built".into())); }
    let n = 2 + s.below(3);
    let mut notes = String::new();
    for j in 0..n {
        let v2 = if j < 2 || s.chance(1, 2) { v.clone() } else { gen_val(&o.kind, s) };
        let mut bytes = if s.bool() { der(&o.kind, &v2) } else { enc(&o.kind, &v2, &mut Form::Ber(s, Ber::ALL)) };
        if s.chance(1, 4) { if let Some(mut nd) = parse_nodes(&bytes, 8).and_then(|x| x.into_iter().next()) { mutate_node(s, &mut nd); let mut t = Vec::new(); write_node(&nd, &mut t); bytes = t; } }
        let i = place(s, Class::ValidBer, bytes);
        let e = s.pick(&o.entries);
        if let Got::Yes { obj: Some(b), .. } = run(o, e, i.buf, i.off) {
            notes += &format!("{} ", hex(i.elem()));
            if let Some(f) = o.to_static { pool.push((f(&*b), format!("owned {} of {}", e.name, hex(i.elem())))); }
            if let Some(f) = o.clone { pool.push((f(&*b), format!("clone {} of {}", e.name, hex(i.elem())))); }
            pool.push((b, format!("{} of {}", e.name, hex(i.elem()))));
        }
    }
    s.note(format!("{}: {}", o.name, notes)); s.set_key(notes.as_bytes()); s.set_key(o.name.as_bytes());
    checkpoint(s);
    if pool.len() >= 2 { s.nontrivial(); }
    let name = o.name;
    for (a, na) in &pool {
        let va = (o.val)(&**a);
        s.evals += 1;
        ensure!(has_nan(&va) || eq(&**a, &**a), format!("reflexive/{name}"), "{name}: {na} is not equal to itself");
        for (b, nb) in &pool {
            let vb = (o.val)(&**b);
            s.evals += 1;
            let r = eq(&**a, &**b);
            ensure!(r == eq(&**b, &**a), format!("symmetric/{name}"), "{name}: {na} == {nb} is {r}, reversed it is not");
            if r {
                ensure!(va == vb || matches!(o.kind, Kind::Real) , format!("equal-values/{name}"), "{name}: {na} and {nb} are equal but read as {va:?} and {vb:?}");
                if let Some(h) = o.hash { s.label("equal pair hashed"); ensure!(h(&**a) == h(&**b), format!("hash/{name}"), "{name}: {na} == {nb} but their hashes differ"); }
            } else if !has_nan(&va) && va == vb && plain_eq(&o.kind) { return fail(format!("same-value-unequal/{name}"), format!("{name}: {na} and {nb} hold the same value {va:?} but compare unequal")); }
            if let Some(c) = o.cmp {
                let x = c(&**a, &**b);
                s.label("ordered pair");
                ensure!(x == c(&**b, &**a).reverse(), format!("antisymmetric/{name}"), "{name}: order of {na} and {nb} is not antisymmetric");
                ensure!((x == std::cmp::Ordering::Equal) == r, format!("order-eq/{name}"), "{name}: {na} vs {nb}: cmp {x:?}, eq {r}");
                if let Some(p) = o.pcmp { ensure!(p(&**a, &**b) == Some(x), format!("partial-order/{name}"), "{name}: partial_cmp disagrees with cmp for {na}, {nb}"); }
                for (d, nd) in &pool { if x != std::cmp::Ordering::Greater && c(&**b, &**d) != std::cmp::Ordering::Greater { ensure!(c(&**a, &**d) != std::cmp::Ordering::Greater, format!("transitive/{name}"), "{name}: {na} <= {nb} <= {nd} but not {na} <= {nd}"); } }
            }
            for (d, nd) in &pool { if r && eq(&**b, &**d) { ensure!(eq(&**a, &**d), format!("transitive-eq/{name}"), "{name}: {na} == {nb} == {nd} but {na} != {nd}"); } }
        }
    }
    Ok(())
}
/// types whose equality is defined by the abstract value
fn plain_eq(k: &Kind) -> bool { !any_kind(k, &|k| matches!(k, Kind::Any | Kind::RawSeq | Kind::RawSet | Kind::SetOf(..) | Kind::Real | Kind::F32 | Kind::Bool)) }
// ------------------------------------------------------------------ C27
pub fn c27(s: &mut Src, reg: Reg) -> Outcome {
    let o = start(s, reg());
    let i = input(s, o, reg(), &W_MIX);
    describe(s, o, &i);
    checkpoint(s);
    for e in o.entries.iter().filter(|e| !e.slice) {
        s.evals += 1;
        match run(o, e, i.buf, i.off) {
            Got::Yes { used, rem: Rem::I(r), .. } => {
                let p = pos_of(&r);
                ensure!(p.start == i.off + used && p.end == i.buf.len() && p.len == p.end - p.start && p.ptr == i.buf.as_ptr() as usize + p.start, format!("remaining-position/{}/{}", o.name, e.name), "{} {}: remaining is at {}..{} ({} bytes), should be {}..{}", o.name, e.name, p.start, p.end, p.len, i.off + used, i.buf.len());
                if i.off > 0 { s.nontrivial(); }
                s.label("remaining checked");
            }
            Got::Yes { .. } => {}
            Got::Err(x) => if let Some(p) = x.pos { s.nontrivial(); s.label("error position checked"); check_pos(&p, i.buf, &format!("{}/{}", o.name, e.name), &x.dbg, &x.text)?; },
        }
    }
    crate::extras::positions(s, i.buf, i.off)?;
    crate::extras::spans(s, i.buf, i.off)
}
pub fn check_pos(p: &Pos, buf: &[u8], who: &str, what: &str, text: &str) -> Outcome {
    let within = p.start <= p.end && p.end <= buf.len() && p.len == p.end - p.start;
    let shown = p.len == 0 && p.start <= buf.len() || p.ptr == buf.as_ptr() as usize + p.start;
    ensure!(within && shown, format!("error-position/{who}"), "{who}: error {what} at {}..{} ({} bytes shown{}), input has {} bytes; {text}", p.start, p.end, p.len, if shown { "" } else { " from elsewhere" }, buf.len());
    Ok(())
}
