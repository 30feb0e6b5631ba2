use std::sync::OnceLock;
use vh::engine::*;
use vh::ensure;
use vh::generic as g;
use vh::model::*;
use vh::obs::*;
use vh::props::p;
fn structs() -> &'static [Ops] { static R: OnceLock<Vec<Ops>> = OnceLock::new(); R.get_or_init(|| { let mut v = vec![]; crate::gen_types::structs(&mut v); v }) }
fn others() -> &'static [Ops] { static R: OnceLock<Vec<Ops>> = OnceLock::new(); R.get_or_init(|| { let mut v = vec![]; crate::gen_types::others(&mut v); v }) }
fn decl(text: &str) -> String {
    crate::gen_types::DECLS.iter().filter(|d| text.split(|c: char| !c.is_alphanumeric()).any(|w| w == d.0)).map(|d| format!("\n{}", d.1)).take(2).collect()
}
/// BER and DER entry points against the reference model
fn model(s: &mut Src, reg: g::Reg) -> Outcome {
    let o = g::start(s, reg());
    let der = s.bool();
    let i = g::input(s, o, reg(), if der { &g::W_DER } else { &g::W_MIX });
    g::describe(s, o, &i);
    checkpoint(s);
    let base = dec(&o.kind, i.rest(), der);
    let opt = dec(&Kind::Opt(Box::new(o.kind.clone())), i.rest(), der);
    s.label(match base { R::Yes(..) => "model: valid", R::No => "model: invalid", R::Unk => "model: unspecified" });
    if base != R::Unk { s.nontrivial(); }
    for e in o.entries.iter().filter(|e| e.der == der) { g::against(s, o, e, &i, if e.optional { &opt } else { &base })?; }
    mapped(s, o, &i, der)
}
/// the first field that the contents do not satisfy; None if unspecified, Some(None) if they all do or the element itself is wrong
fn first_bad(k: &Kind, b: &[u8], der: bool) -> Option<Option<usize>> {
    let Kind::Fields { fields, .. } = k else { return None };
    let (h, c) = match read_tlv(b, SURE_DEPTH) { Ok((h, c, _)) => (h, c), Err(TErr::Deep) => return None, Err(_) => return Some(None) };
    if !h.min_tag { return None; }
    if !accepts(k, &h) || !h.cons { return Some(None); }
    if der && h.len.is_none() { return Some(None); }
    let mut rest = &b[c];
    for (i, f) in fields.iter().enumerate() { match dec(f, rest, der) { R::Yes(_, n) => rest = &rest[n..], R::No => return Some(Some(i)), R::Unk => return None } }
    Some(None)
}
/// with a custom error type, the error of a field with `map_err` went through its function, and no other error did
fn mapped(s: &mut Src, o: &Ops, i: &g::Inp, der: bool) -> Outcome {
    let Some((_, custom, m)) = crate::gen_types::MAPPED.iter().find(|m| m.0 == o.name) else { return Ok(()) };
    let Some(bad) = first_bad(&o.kind, i.rest(), der) else { return Ok(()) };
    s.label(match bad { Some(k) if m[k] => "custom error: mapped field", Some(_) => "custom error: other field", None => "custom error: no field" });
    // (the constraints of the older derives are checked apart, with the error of the library)
    for e in o.entries.iter().filter(|e| e.der == der && e.name != "Any+check+TryFrom") {
        s.evals += 1;
        let g::Got::Err(x) = g::run(o, e, i.buf, i.off) else { continue };
        if x.kind == EKind::Incomplete || x.dbg.contains("Incomplete") { continue; }
        if !custom { ensure!(!bad.map_or(false, |k| m[k]) || x.dbg == "Unsupported", format!("map_err/{}/{}", o.name, e.name), "{} {}: {} fails with {}, the first field not satisfied is {bad:?}, mapped fields {m:?}", o.name, e.name, hex(i.elem()), x.dbg); continue; }
        let got: Option<usize> = x.dbg.find("Mapped(").and_then(|p| x.dbg[p + 7..].split(',').next()?.parse().ok());
        let want = bad.filter(|k| m[*k]);
        ensure!(got == want, format!("map_err/{}/{}", o.name, e.name), "{} {}: {} fails with {}, the first field not satisfied is {bad:?}, mapped fields {m:?}", o.name, e.name, hex(i.elem()), x.dbg);
    }
    Ok(())
}
/// encoded octets against the reference encoder
fn encoded(s: &mut Src, reg: g::Reg) -> Outcome {
    let (o, v, b) = g::buildable(s, reg());
    s.note(format!("{} = {v:?}", o.name)); s.set_key(format!("{} {v:?}", o.name).as_bytes());
    s.nontrivial();
    checkpoint(s);
    if let Some(e) = &o.der {
        s.evals += 1;
        let want = der(&o.kind, &v);
        let got = (e.meta)(&*b, false).vec;
        // REAL has several encodings of one number (C15): only the others are compared octet by octet
        if !any_kind(&o.kind, &|k| matches!(k, Kind::Real)) { ensure!(got.as_deref() == Ok(&want[..]), format!("der-bytes/{}", o.name), "{}: {v:?} encodes as {:?}, its declaration asks for {}", o.name, got.map(|x| hex(&x)), hex(&want)); }
    }
    if let Some(e) = &o.ber {
        s.evals += 1;
        let got = (e.meta)(&*b, false).vec;
        let Ok(x) = &got else { return fail(format!("ber-bytes/{}", o.name), format!("{}: {v:?} does not encode: {got:?}", o.name)) };
        // an element equal to its DEFAULT may be written in BER: compared through the reference decoder
        let d = dec(&o.kind, x, false);
        ensure!(matches!(&d, R::Yes(w, n) if norm(&o.kind, w) == norm(&o.kind, &v) && *n == x.len()), format!("ber-bytes/{}", o.name), "{}: {v:?} encodes as {}, which denotes {d:?}", o.name, hex(x));
    }
    g::encode_agrees(s, o, &v, &b)
}
fn case(s: &mut Src, reg: g::Reg) -> Outcome {
    let w = s.weighted(&[30, 16, 10, 8, 6, 5, 5, 4, 4, 3, 3, 3]);
    let r = match w {
        0 => model(s, reg), 1 => encoded(s, reg), 2 => g::c04(s, reg), 3 => g::c16(s, reg), 4 => g::c02(s, reg), 5 => g::c09(s, reg), 6 => g::c08(s, reg),
        7 => g::c06(s, reg), 8 => g::c27(s, reg), 9 => g::c24(s, reg), 10 => if reg().iter().any(|o| o.to_static.is_some()) { g::c25(s, reg) } else { g::c02(s, reg) }, _ => g::c01(s, reg),
    };
    // a UTCTime with an offset is accepted in DER and written back with Z: a finding about UtcTime (C06), not about the derives
    let r = match r { Err(f) if f.sig.starts_with("reencode/") && f.sig.ends_with("/utctime-offset") => Ok(()), r => r };
    r.map_err(|f| Fail { msg: format!("{}{}", f.msg, decl(&f.sig)), sig: f.sig })
}
fn c20(s: &mut Src) -> Outcome { case(s, structs) }
fn c21(s: &mut Src) -> Outcome { case(s, others) }
pub fn props() -> Vec<Prop> {
    vec![
        p("C20", c20, 2_000_000, 40_000_000, "the program is generated: structs covering the derive grammar (sequence and set; parser, slice and combined derives; plain, optional, default, explicit and implicit fields of every class; nested derived types). One case = one value encoded, or one input (valid, rewritten, mutated) decoded, through every entry point of one struct, against the reference model of its declaration; non-trivial: the model decides, or a value encoded; distinct by (type, bytes or value)"),
        p("C21", c21, 4_000_000, 40_000_000, "as C20 for enums and newtypes: untagged, explicit, implicit, custom-tag choices; enumerations with custom discriminants; aliases, old and new derives; non-trivial: the model decides, or a value encoded; distinct by (type, bytes or value)"),
    ]
}
