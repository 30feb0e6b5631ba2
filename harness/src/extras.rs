//! Library entry points outside the type registry: headers, generic elements and their typed accessors, containers
//! with callbacks, iterators, tagged helpers. Each call gives an outcome (text, key, positions).
//! Calls of one group read the same thing and must agree.
use crate::engine::*;
use crate::model::hex;
use crate::obs::*;
use asn1_rs::*;
use std::fmt::Debug;
fn at(b: &'static [u8], o: usize) -> Input<'static> { use nom::Input as _; Input::from(b).take_from(o) }
pub struct Out {
    /// everything observable, for comparing builds
    pub text: String,
    /// what calls of one group must agree on: None when rejected
    pub key: Option<String>,
    /// the call does not apply to this input (an accessor for another type's tag)
    pub skip: bool,
    /// remaining input and where it must start; error position
    pub rem: Option<(Pos, Option<usize>)>,
    pub err: Option<(Pos, String)>,
}
/// the text without memory addresses (bit slices print theirs)
pub fn anon(t: String) -> String {
    let mut t = t; let mut at = 0;
    while let Some(p) = t[at..].find("addr: 0x") { let p = at + p + 6; let e = t[p..].find(',').map_or(t.len(), |e| p + e); t.replace_range(p..e, "-"); at = p; }
    t
}
fn yes(key: String, text: String) -> Out { let (key, text) = (anon(key), anon(text)); Out { text, key: Some(key), skip: false, rem: None, err: None } }
fn no(text: String) -> Out { Out { text, key: None, skip: false, rem: None, err: None } }
fn skip() -> Out { Out { text: "n/a".into(), key: None, skip: true, rem: None, err: None } }
fn val<T: Debug, E: Debug>(r: std::result::Result<T, E>) -> Out { match r { Ok(t) => yes(format!("{t:?}"), format!("{t:?}")), Err(e) => no(format!("Err({e:?})")) } }
/// positioned result; the key holds the value and the octets used
fn pos<T: Debug>(r: nom::IResult<Input<'static>, T, BerError<Input<'static>>>, b: &'static [u8], o: usize) -> Out {
    match r {
        Ok((rem, t)) => { let used = (b.len() - o).wrapping_sub(rem.len()); let mut x = yes(format!("{t:?} {used}"), format!("{t:?} rem {:?}", rem)); x.rem = Some((pos_of(&rem), Some(b.len().wrapping_sub(rem.len())))); x }
        Err(e) => { let e = nerr(e); let mut x = no(format!("{:?} {} {}", e.kind, e.dbg, e.text)); x.err = e.pos.map(|p| (p, e.dbg)); x }
    }
}
fn sl<T: Debug>(r: nom::IResult<&'static [u8], T, Error>, b: &'static [u8], o: usize) -> Out {
    match r { Ok((rem, t)) => yes(format!("{t:?} {}", (b.len() - o).wrapping_sub(rem.len())), format!("{t:?} rem {rem:02x?}")), Err(e) => { let e = nerr(e); no(format!("{:?} {}", e.kind, e.dbg)) } }
}
pub struct Api { pub name: &'static str, pub group: &'static str, pub f: fn(&'static [u8], usize) -> Out }
type R<'a, T> = nom::IResult<Input<'a>, T, BerError<Input<'a>>>;
fn any_ber(b: &'static [u8], o: usize) -> Option<(Input<'static>, Any<'static>)> { Any::parse_ber(at(b, o)).ok() }
fn any_der(b: &'static [u8], o: usize) -> Option<(Input<'static>, Any<'static>)> { Any::parse_der(at(b, o)).ok() }
/// elements of a content, as text
fn elems_slice(d: &'static [u8], der: bool) -> nom::IResult<&'static [u8], Vec<String>, Error> {
    let mut v = vec![]; let mut i = d;
    while !i.is_empty() { let (r, a) = if der { Any::from_der(i)? } else { Any::from_ber(i)? }; v.push(show(&a)); i = r; }
    Ok((i, v))
}
fn elems(d: Input<'static>, der: bool) -> R<'static, Vec<String>> {
    let mut v = vec![]; let mut i = d;
    while !i.is_empty() { let (r, a) = if der { Any::parse_der(i)? } else { Any::parse_ber(i)? }; v.push(show(&a)); i = r; }
    Ok((i, v))
}
fn show(a: &Any) -> String { format!("{:?} {} {:?} {}", a.class(), a.tag().0, a.header.constructed(), hex(a.as_bytes())) }
fn ok_iter<'a>(it: impl Iterator<Item = std::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>>) -> std::result::Result<Vec<String>, String> { it.map(|r| r.map(|x| show(&x.1)).map_err(|e| format!("{e:?}"))).collect() }
pub fn apis() -> &'static [Api] {
    static A: std::sync::OnceLock<Vec<Api>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let mut v: Vec<Api> = vec![];
        macro_rules! api { ($name:expr, $group:expr, $f:expr) => { v.push(Api { name: $name, group: $group, f: $f }) } }
        // ---- typed accessors of a generic element
        macro_rules! acc { ($($as:ident $into:ident $t:ty;)*) => { $(
            api!(stringify!($as), concat!("accessor ", stringify!($into)), |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !<$t as DynTagged>::accept_header(&a.header) { let _ = a.$as(); return skip() } val(a.$as()) });
            api!(stringify!($into), concat!("accessor ", stringify!($into)), |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !<$t as DynTagged>::accept_header(&a.header) { let _ = a.$into(); return skip() } val(a.$into()) });
            api!(concat!("from_ber_content ", stringify!($into)), concat!("accessor ", stringify!($into)), |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !<$t as DynTagged>::accept_header(&a.header) { return skip() } val(<$t>::from_ber_content(&a.header, a.data.clone()).map(|x| x.1)) });
            api!(concat!("as_optional ", stringify!($into)), concat!("accessor ", stringify!($into)), |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !<$t as DynTagged>::accept_header(&a.header) { return skip() } match a.as_optional::<$t>() { Ok(Some(x)) => val::<_, Error>(Ok(x)), Ok(None) => no("None".into()), Err(e) => no(format!("{e:?}")) } });
            api!(concat!("as_optional, other tag ", stringify!($into)), concat!("absent ", stringify!($into)), |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; let r = a.as_optional::<$t>().map(|x| x.is_some()); if <$t as DynTagged>::accept_header(&a.header) || a.tag() == <$t as Tagged>::TAG || a.class() != Class::Universal { return skip() } val(r) });
            api!(concat!("absent ", stringify!($into)), concat!("absent ", stringify!($into)), |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if <$t as DynTagged>::accept_header(&a.header) || a.tag() == <$t as Tagged>::TAG || a.class() != Class::Universal { return skip() } val::<_, Error>(Ok(false)) });
        )* } }
        acc! { as_bitstring bitstring BitString; as_bmpstring bmpstring BmpString; as_bool bool bool; as_boolean boolean Boolean; as_embedded_pdv embedded_pdv EmbeddedPdv;
            as_enumerated enumerated Enumerated; as_generalizedtime generalizedtime GeneralizedTime; as_generalstring generalstring GeneralString; as_graphicstring graphicstring GraphicString; as_i8 i8 i8; as_i16 i16 i16; as_i32 i32 i32; as_i64 i64 i64; as_i128 i128 i128;
            as_ia5string ia5string Ia5String; as_integer integer Integer; as_null null Null; as_numericstring numericstring NumericString; as_objectdescriptor objectdescriptor ObjectDescriptor; as_octetstring octetstring OctetString; as_real real Real;
            as_printablestring printablestring PrintableString; as_sequence sequence Sequence; as_set set Set; as_str str &str; as_string string String; as_teletexstring teletexstring TeletexString; as_u8 u8 u8; as_u16 u16 u16; as_u32 u32 u32; as_u64 u64 u64; as_u128 u128 u128;
            as_universalstring universalstring UniversalString; as_utctime utctime UtcTime; as_utf8string utf8string Utf8String; as_videotexstring videotexstring VideotexString; as_visiblestring visiblestring VisibleString; }
        api!("as_anysequence", "accessor anysequence", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !AnySequence::accept_header(&a.header) { return skip() } val(a.as_anysequence()) });
        api!("anysequence", "accessor anysequence", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !AnySequence::accept_header(&a.header) { return skip() } val(a.anysequence()) });
        api!("AnySequence::parse_ber", "accessor anysequence", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !AnySequence::accept_header(&a.header) { return skip() } val(AnySequence::parse_ber(at(b, o)).map(|x| x.1)) });
        api!("as_oid", "accessor oid", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !Oid::accept_header(&a.header) { return skip() } val(a.as_oid()) });
        api!("oid", "accessor oid", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !Oid::accept_header(&a.header) { return skip() } val(a.oid()) });
        api!("Oid::try_from", "accessor oid", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !Oid::accept_header(&a.header) { return skip() } val(Oid::try_from(a)) });
        api!("as_relative_oid", "accessor relative_oid", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; val(a.as_relative_oid()) });
        api!("relative_oid", "accessor relative_oid", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; val(a.relative_oid()) });
        api!("as_endofcontent", "accessor eoc", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !EndOfContent::accept_header(&a.header) { return skip() } val(a.as_endofcontent()) });
        api!("EndOfContent::try_from", "accessor eoc", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; if !EndOfContent::accept_header(&a.header) { return skip() } val(EndOfContent::try_from(a)) });
        api!("as_any_str", "", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; val(a.as_any_str()) });
        api!("as_any_string", "", |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; val(a.as_any_string()) });
        // ---- tagged views of a generic element against the tagged readers
        macro_rules! tagged { ($t:ty, $c:ident, $n:expr) => {
            api!(concat!("as_tagged_explicit ", stringify!($t), " ", stringify!($c), " ", $n), concat!("explicit ", stringify!($t), " ", stringify!($c), " ", $n), |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; val(a.as_tagged_explicit::<$t, Error, { Class::$c as u8 }, $n>().map(|x| x.into_inner())) });
            api!(concat!("TaggedValue explicit ", stringify!($t), " ", stringify!($c), " ", $n), concat!("explicit ", stringify!($t), " ", stringify!($c), " ", $n), |b, o| if any_ber(b, o).is_none() { skip() } else { val(<TaggedValue<$t, Error, Explicit, { Class::$c as u8 }, $n>>::from_ber(&b[o..]).map(|x| x.1.into_inner())) });
            api!(concat!("as_tagged_implicit ", stringify!($t), " ", stringify!($c), " ", $n), concat!("implicit ", stringify!($t), " ", stringify!($c), " ", $n), |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; val(a.as_tagged_implicit::<$t, Error, { Class::$c as u8 }, $n>().map(|x| x.into_inner())) });
            api!(concat!("TaggedValue implicit ", stringify!($t), " ", stringify!($c), " ", $n), concat!("implicit ", stringify!($t), " ", stringify!($c), " ", $n), |b, o| if any_ber(b, o).is_none() { skip() } else { val(<TaggedValue<$t, Error, Implicit, { Class::$c as u8 }, $n>>::from_ber(&b[o..]).map(|x| x.1.into_inner())) });
        } }
        tagged!(u32, ContextSpecific, 0); tagged!(Utf8String, ContextSpecific, 1); tagged!(Integer, ContextSpecific, 0); tagged!(bool, Application, 1); tagged!(OctetString, Private, 2); tagged!(u16, Application, 0);
        // ---- content of a generic element
        macro_rules! content { ($t:ty) => {
            api!(concat!("parse_content_ber ", stringify!($t)), concat!("content ber ", stringify!($t)), |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; val(a.parse_content_ber::<$t>().map(|x| format!("{x:?}"))) });
            api!(concat!("from_ber on content ", stringify!($t)), concat!("content ber ", stringify!($t)), |b, o| { let Some((_, a)) = any_ber(b, o) else { return skip() }; val(<$t>::from_ber(a.as_bytes()).map(|x| format!("{x:?}"))) });
            api!(concat!("parse_content_der ", stringify!($t)), concat!("content der ", stringify!($t)), |b, o| { let Some((_, a)) = any_der(b, o) else { return skip() }; val(a.parse_content_der::<$t>().map(|x| format!("{x:?}"))) });
            api!(concat!("from_der on content ", stringify!($t)), concat!("content der ", stringify!($t)), |b, o| { let Some((_, a)) = any_der(b, o) else { return skip() }; val(<$t>::from_der(a.as_bytes()).map(|x| format!("{x:?}"))) });
        } }
        content!(u32); content!(OctetString); content!(Any); content!(Utf8String); content!(bool);
        // ---- containers read with a callback, views and iterators (whatever the header: wrong tags, classes, primitive)
        macro_rules! container { ($t:ident, $iter:ident, $so_b:ident, $so_d:ident, $into_b:ident, $into_d:ident, $ref_d:ident) => {
            api!(concat!(stringify!($t), "::from_ber_and_then"), concat!("elements ber ", stringify!($t)), |b, o| sl($t::from_ber_and_then(&b[o..], |d| elems_slice(d, false)), b, o));
            api!(concat!(stringify!($t), "::parse_ber_and_then"), concat!("elements ber ", stringify!($t)), |b, o| pos($t::parse_ber_and_then(at(b, o), |_h, d| elems(d, false)), b, o));
            api!(concat!(stringify!($t), "::from_ber + elements"), concat!("elements ber ", stringify!($t)), |b, o| sl($t::from_ber(&b[o..]).and_then(|(r, s)| s.and_then(|d| match d { std::borrow::Cow::Borrowed(d) => elems_slice(d, false), _ => Err(nom::Err::Error(Error::LifetimeError)) }).map(|x| (r, x.1))), b, o));
            api!(concat!(stringify!($t), "::from_ber + parse_into"), concat!("elements ber ", stringify!($t)), |b, o| sl($t::from_ber(&b[o..]).and_then(|(r, s)| s.parse_into(|d: &'static [u8]| elems_slice(d, false)).map(|x| (r, x.1))), b, o));
            api!(concat!(stringify!($t), "::from_ber + iterator"), concat!("elements ber ", stringify!($t)), |b, o| sl($t::from_ber(&b[o..]).and_then(|(r, s)| { let x = s.ber_iter::<Any, Error>().map(|x| x.map(|a| show(&a))).collect::<std::result::Result<Vec<_>, _>>().map_err(nom::Err::Error)?; Ok((r, x)) }), b, o));
            api!(concat!(stringify!($t), "::from_ber + into"), concat!("numbers ber ", stringify!($t)), |b, o| sl($t::from_ber(&b[o..]).and_then(|(r, s)| { let x: Vec<i64> = container!(@into $t, s, $into_b).map_err(nom::Err::Error)?; Ok((r, x)) }), b, o));
            api!(concat!(stringify!($t), "::from_ber + owned, into"), concat!("numbers ber ", stringify!($t)), |b, o| sl($t::from_ber(&b[o..]).and_then(|(r, s)| { let s = s.to_static(); let x: Vec<i64> = container!(@into $t, s, $into_b).map_err(nom::Err::Error)?; Ok((r, x)) }), b, o));
            api!(concat!(stringify!($t), "::from_ber + of"), concat!("numbers ber ", stringify!($t)), |b, o| sl($t::from_ber(&b[o..]).and_then(|(r, s)| { let x: Vec<i64> = s.$so_b::<i64, Error>().map_err(nom::Err::Error)?; Ok((r, x)) }), b, o));
            api!(concat!(stringify!($t), "::from_der + into"), concat!("numbers der ", stringify!($t)), |b, o| sl($t::from_der(&b[o..]).and_then(|(r, s)| { let x: Vec<i64> = container!(@into $t, s, $into_d).map_err(nom::Err::Error)?; Ok((r, x)) }), b, o));
            api!(concat!(stringify!($t), "::from_der + owned, into"), concat!("numbers der ", stringify!($t)), |b, o| sl($t::from_der(&b[o..]).and_then(|(r, s)| { let s = s.to_static(); let x: Vec<i64> = container!(@into $t, s, $into_d).map_err(nom::Err::Error)?; Ok((r, x)) }), b, o));
            api!(concat!(stringify!($t), "::from_der + of"), concat!("numbers der ", stringify!($t)), |b, o| sl($t::from_der(&b[o..]).and_then(|(r, s)| { let x: Vec<i64> = s.$so_d::<i64, Error>().map_err(nom::Err::Error)?; Ok((r, x)) }), b, o));
            api!(concat!(stringify!($t), "::from_der + of ref"), concat!("numbers der ", stringify!($t)), |b, o| sl($t::from_der(&b[o..]).and_then(|(r, s)| { let x: Vec<i64> = s.$ref_d::<i64, Error>().map_err(nom::Err::Error)?; Ok((r, x)) }), b, o));
            api!(concat!(stringify!($t), "::from_der_and_then"), concat!("elements der ", stringify!($t)), |b, o| sl($t::from_der_and_then(&b[o..], |d| elems_slice(d, true)), b, o));
            api!(concat!(stringify!($t), "::parse_der_and_then"), concat!("elements der ", stringify!($t)), |b, o| pos($t::parse_der_and_then(at(b, o), |_h, d| elems(d, true)), b, o));
            api!(concat!(stringify!($t), "::parse_der + elements"), concat!("elements der ", stringify!($t)), |b, o| match $t::parse_der(at(b, o)) { Ok((r, s)) => match s.parse_into(|d: &'static [u8]| elems_slice(d, true)) { Ok((_, x)) => pos(Ok((r, x)), b, o), Err(e) => no(format!("{e:?}")) }, Err(e) => pos::<Vec<String>>(Err(e), b, o) });
            api!(concat!(stringify!($t), "::from_der + iterator"), concat!("elements der ", stringify!($t)), |b, o| sl($t::from_der(&b[o..]).and_then(|(r, s)| { let x = s.der_iter::<Any, Error>().map(|x| x.map(|a| show(&a))).collect::<std::result::Result<Vec<_>, _>>().map_err(nom::Err::Error)?; Ok((r, x)) }), b, o));
            api!(concat!(stringify!($t), " header + iter_elements ber"), concat!("elements ber ", stringify!($t)), |b, o| { let Some((r, a)) = any_ber(b, o) else { return no("no element".into()) }; if !$t::accept_header(&a.header) || !a.header.constructed() { return no("other".into()) } let x = ok_iter(a.iter_elements::<BerMode>()); match x { Ok(x) => pos(Ok((r, x)), b, o), Err(e) => no(e) } });
            api!(concat!(stringify!($t), " header + iter_elements der"), concat!("elements der ", stringify!($t)), |b, o| { let Some((r, a)) = any_der(b, o) else { return no("no element".into()) }; if !$t::accept_header(&a.header) || !a.header.constructed() { return no("other".into()) } let x = ok_iter(a.iter_elements::<DerMode>()); match x { Ok(x) => pos(Ok((r, x)), b, o), Err(e) => no(e) } });
        };
        (@into Sequence, $s:expr, $f:ident) => { $s.$f::<i64, i64, Error>() };
        (@into Set, $s:expr, $f:ident) => { $s.$f::<i64, Error>() };
        }
        container!(Sequence, SequenceIterator, ber_sequence_of, der_sequence_of, into_ber_sequence_of, into_der_sequence_of, into_der_sequence_of_ref);
        container!(Set, SetIterator, ber_set_of, der_set_of, into_ber_set_of, into_der_set_of, into_der_set_of_ref);
        // ---- headers and contents
        api!("Header::from_ber", "header ber", |b, o| sl(Header::from_ber(&b[o..]).map(|(r, h)| (r, hd(&h))), b, o));
        api!("Header::parse_ber", "header ber", |b, o| pos(Header::parse_ber(at(b, o)).map(|(r, h)| (r, hd(&h))), b, o));
        api!("Header::from_der", "header der", |b, o| sl(Header::from_der(&b[o..]).map(|(r, h)| (r, hd(&h))), b, o));
        api!("Header::parse_der", "header der", |b, o| pos(Header::parse_der(at(b, o)).map(|(r, h)| (r, hd(&h))), b, o));
        api!("Header + parse_ber_content", "content ber", |b, o| match Header::parse_ber(at(b, o)) { Ok((r, h)) => pos(h.parse_ber_content(r).map(|(r, d)| (r, hex(d.as_bytes2()))), b, o), Err(e) => pos::<String>(Err(e), b, o) });
        api!("Header + Any::parse_ber_content", "content ber", |b, o| match Header::parse_ber(at(b, o)) { Ok((r, h)) => pos(Any::parse_ber_content(r, &h).map(|(r, d)| (r, hex(d.as_bytes2()))), b, o), Err(e) => pos::<String>(Err(e), b, o) });
        api!("Header + parse_der_content", "content der", |b, o| match Header::parse_der(at(b, o)) { Ok((r, h)) => pos(h.parse_der_content(r).map(|(r, d)| (r, hex(d.as_bytes2()))), b, o), Err(e) => pos::<String>(Err(e), b, o) });
        api!("Header + Any::parse_der_content", "content der", |b, o| match Header::parse_der(at(b, o)) { Ok((r, h)) => pos(Any::parse_der_content(r, &h).map(|(r, d)| (r, hex(d.as_bytes2()))), b, o), Err(e) => pos::<String>(Err(e), b, o) });
        api!("Any::parse_der content", "content der", |b, o| pos(Any::parse_der(at(b, o)).map(|(r, a)| (r, hex(a.as_bytes()))), b, o));
        api!("Header + ber_get_content", "element content ber", |b, o| match Header::parse_ber(at(b, o)) { Ok((r, h)) => pos(ber_get_content(&h, r).map(|(r, d)| (r, hex(d.as_bytes2()))), b, o), Err(e) => pos::<String>(Err(e), b, o) });
        api!("Any::parse_ber content", "element content ber", |b, o| pos(Any::parse_ber(at(b, o)).map(|(r, a)| (r, hex(a.as_bytes()))), b, o));
        api!("Any::from_ber content", "element content ber", |b, o| sl(Any::from_ber(&b[o..]).map(|(r, a)| (r, hex(a.as_bytes()))), b, o));
        api!("Header + der_get_content", "content der", |b, o| match Header::parse_der(at(b, o)) { Ok((r, h)) => pos(der_get_content(&h, r).map(|(r, d)| (r, hex(d.as_bytes2()))), b, o), Err(e) => pos::<String>(Err(e), b, o) });
        api!("Header asserts", "", |b, o| match Header::parse_ber(at(b, o)) { Ok((_, h)) => yes(String::new(), format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?}", h.assert_primitive(), h.assert_constructed(), h.assert_definite(), h.assert_class(Class::Universal), h.assert_tag(Tag(2)), h.raw_tag(), h.is_universal())), Err(_) => skip() });
        // ---- tagged helpers
        api!("OptTaggedParser ber", "", |b, o| sl(OptTaggedParser::from(0u32).parse_ber(&b[o..], |h, d| Ok::<_, nom::Err<Error>>((d, (hd(&h), hex(d))))), b, o));
        api!("OptTaggedParser der", "", |b, o| sl(OptTaggedParser::from(1u32).parse_der(&b[o..], |h, d| Ok::<_, nom::Err<Error>>((d, (hd(&h), hex(d))))), b, o));
        v
    })
}
fn hd(h: &Header) -> String { format!("{:?} {} {} {:?} {:?} {:?}", h.class(), h.constructed(), h.tag().0, h.length(), h.raw_tag().map(hex), h.raw_header().map(|x| hex(x.as_bytes2()))) }
/// C01: some of the calls on one input
pub fn poke(s: &mut Src, b: &'static [u8]) {
    let a = apis();
    let k = s.below(a.len());
    for j in 0..8 { let x = &a[(k + j * 23) % a.len()]; s.evals += 1; let _ = (x.f)(b, 0); }
}
/// C27: positions reported by the calls
pub fn positions(s: &mut Src, buf: &'static [u8], off: usize) -> Outcome {
    let a = apis();
    let k = s.below(a.len());
    for j in 0..8 {
        let x = &a[(k + j * 23) % a.len()]; s.evals += 1;
        let r = (x.f)(buf, off);
        if let Some((p, Some(start))) = &r.rem { ensure!(p.start == *start && p.end == buf.len() && p.len == p.end - p.start && p.ptr == buf.as_ptr() as usize + p.start, format!("remaining-position/{}", x.name), "{}: remaining is at {}..{} ({} bytes), should be {start}..{}", x.name, p.start, p.end, p.len, buf.len()); }
        if let Some((p, what)) = &r.err { crate::generic::check_pos(p, buf, x.name, what, &r.text)?; }
    }
    Ok(())
}
/// C26: equality of headers, built and decoded: class, tag and constructed form; length and tag octets only when both sides have them
pub fn header_eq(s: &mut Src) -> Outcome {
    use std::borrow::Cow;
    use std::hash::{Hash, Hasher};
    let n = 3 + s.below(5);
    let mut pool: Vec<(Header<'static>, String)> = Vec::new();
    let (mut class, mut cons, mut tag, mut len) = (s.below(4) as u8, s.bool(), s.below(40) as u32, s.below(4));
    let mut notes = String::new();
    for _ in 0..n {
        match s.below(6) { 0 => class = s.below(4) as u8, 1 => cons = !cons, 2 => tag = [tag, tag.wrapping_add(1), 31, 127, 128, 16, 17, 0, 5, u32::MAX][s.below(10)], 3 | 4 => len = [0, 0, 1, 2, 127, 128, 300][s.below(7)], _ => {} }
        let indef = cons && s.chance(1, 5);
        let mut b = Vec::new();
        crate::model::tag_octets(class, cons, tag, &mut b);
        let tl = b.len();
        if indef { b.push(0x80) } else { crate::model::len_octets(len, &mut b) }
        if s.chance(1, 4) && !indef && len < 128 { b.truncate(tl); b.extend([0x81, len as u8]); }
        let b: &'static [u8] = keep(&b);
        let how = s.below(4);
        let h = if how < 2 {
            match Header::from_ber(b) { Ok((_, h)) => if how == 1 && s.bool() { h.to_static() } else { h }, Err(_) => continue }
        } else {
            let c = Class::try_from(class).unwrap();
            let l = if indef { Length::Indefinite } else { Length::Definite(len) };
            let h = Header::new(c, cons, Tag(tag), l);
            match s.below(3) { 0 => h.with_raw_tag(Some(Cow::Borrowed(&b[..tl]))), 1 => h.with_raw_tag(Some(Cow::Owned(vec![0x1f, 0x80, tag as u8]))), _ => h }
        };
        let what = format!("{:?}/{}/{}/{:?}/raw {:?}", h.class(), h.constructed(), h.tag().0, h.length(), h.raw_tag());
        notes += &what; notes.push(' ');
        pool.push((h, what));
    }
    s.set_key(notes.as_bytes());
    s.note(format!("headers {notes}"));
    if pool.len() >= 2 { s.nontrivial(); }
    let set = |l: Length| !matches!(l, Length::Definite(0));
    let hash = |h: &Header| { let mut x = std::collections::hash_map::DefaultHasher::new(); h.hash(&mut x); x.finish() };
    for (a, na) in &pool { for (b, nb) in &pool {
        s.evals += 1;
        let want = a.class() == b.class() && a.constructed() == b.constructed() && a.tag() == b.tag()
            && (!set(a.length()) || !set(b.length()) || a.length() == b.length())
            && (a.raw_tag().is_none() || b.raw_tag().is_none() || a.raw_tag() == b.raw_tag());
        ensure!((a == b) == want, "header-eq", "headers {na} and {nb}: equality is {}, documented comparison gives {want}", a == b);
        if want { ensure!(hash(a) == hash(b), "header-hash", "headers {na} and {nb} are equal, hashes differ"); }
    } }
    Ok(())
}
/// C09/C22: calls of one group agree on one input
pub fn agree(s: &mut Src, buf: &'static [u8], off: usize, groups: &[&str]) -> Outcome {
    for g in groups {
        let mut first: Option<(&str, Out)> = None;
        for x in apis().iter().filter(|x| x.group == *g) {
            s.evals += 1;
            let r = (x.f)(buf, off);
            if r.skip { continue; }
            if r.key.is_some() { s.nontrivial(); }
            match &first {
                None => first = Some((x.name, r)),
                Some((n, f)) => ensure!(f.key == r.key, format!("calls-agree/{g}/{}", x.name), "{n} gives {}, {} gives {}", cut(&f.text), x.name, cut(&r.text)),
            }
        }
    }
    Ok(())
}
fn cut(t: &str) -> String { t.chars().take(500).collect() }
pub const SEQUENCES: &[&str] = &["elements ber Sequence", "elements der Sequence", "numbers ber Sequence", "numbers der Sequence"];
pub const SETS: &[&str] = &["elements ber Set", "elements der Set", "numbers ber Set", "numbers der Set"];
pub fn groups() -> &'static [&'static str] {
    static G: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    G.get_or_init(|| { let mut v: Vec<&str> = vec![]; for a in apis() { if !a.group.is_empty() && !v.contains(&a.group) { v.push(a.group); } } v })
}
/// C27: positions of generic elements, their headers, contents and iterator items, at every depth; and of plain input
/// operations against ranges of the buffer
pub fn spans(s: &mut Src, buf: &'static [u8], off: usize) -> Outcome {
    fn show(p: &Pos) -> String { format!("{}..{} ({} bytes)", p.start, p.end, p.len) }
    fn at_range(i: &Input<'static>, a: usize, b: usize, buf: &'static [u8], what: &str, mode: &str) -> Outcome {
        let p = pos_of(i);
        ensure!(p.start == a && p.end == b && p.len == b - a && (p.ptr == buf.as_ptr() as usize + a || a == b), format!("position/{what}"), "{mode} {what} is at {}{}, should be {a}..{b} of {}", show(&p), if p.ptr == buf.as_ptr() as usize + a { "" } else { ", bytes from elsewhere" }, hex(buf));
        Ok(())
    }
    fn header_at(h: &Header<'static>, a: usize, hlen: usize, buf: &'static [u8], mode: &str) -> Outcome {
        if let Some(r) = h.raw_header() { at_range(r, a, a + hlen, buf, "raw header", mode)?; }
        Ok(())
    }
    fn level(s: &mut Src, buf: &'static [u8], a: usize, b: usize, der: bool, depth: usize) -> Outcome {
        use nom::Input as _;
        let mode = if der { "DER" } else { "BER" };
        let input = Input::from(buf).take_from(a).take(b - a);
        at_range(&input, a, b, buf, "sub-input", mode)?;
        let mut it: Box<dyn Iterator<Item = std::result::Result<(Input<'static>, Any<'static>), BerError<Input<'static>>>>> =
            if der { Box::new(AnyIterator::<DerMode>::new(input)) } else { Box::new(AnyIterator::<BerMode>::new(input)) };
        let mut p = a;
        while p < b {
            s.evals += 1;
            match (crate::model::read_tlv(&buf[p..b], asn1_rs::MAX_RECURSION - 1), it.next()) {
                (Ok((h, r, n)), Some(Ok((span, any)))) => {
                    at_range(&span, p, p + n, buf, "iterator item", mode)?;
                    at_range(&any.data, p + r.start, p + r.end, buf, "item content", mode)?;
                    header_at(&any.header, p, h.hlen, buf, mode)?;
                    if p > 0 { s.nontrivial(); }
                    let step = if der { Any::parse_der(Input::from(buf).take_from(p).take(b - p)) } else { Any::parse_ber(Input::from(buf).take_from(p).take(b - p)) };
                    match step {
                        Ok((rem, x)) => { at_range(&rem, p + n, b, buf, "remaining", mode)?; at_range(&x.data, p + r.start, p + r.end, buf, "content", mode)?; header_at(&x.header, p, h.hlen, buf, mode)?; }
                        Err(e) => { let e = nerr(e); return fail("position/parsed once", format!("{mode}: iterator reads an element of {} at {p}, the parser does not: {}", hex(buf), e.dbg)); }
                    }
                    if h.cons && depth < 6 { s.label("nested positions"); level(s, buf, p + r.start, p + r.end, der, depth + 1)?; }
                    p += n;
                }
                (_, Some(Err(e))) => { crate::generic::check_pos(&pos_of(e.input()), buf, "AnyIterator", &format!("{:?}", e.inner()), &format!("{e}"))?; break; }
                _ => break,
            }
        }
        Ok(())
    }
    for der in [false, true] { level(s, buf, off, buf.len(), der, 0)?; }
    // headers and contents by themselves
    for der in [false, true] {
        let (mode, r) = if der { ("DER", Header::parse_der(at(buf, off))) } else { ("BER", Header::parse_ber(at(buf, off))) };
        if let (Ok((rem, h)), Ok(w)) = (r, crate::model::read_hdr(&buf[off..])) {
            at_range(&rem, off + w.hlen, buf.len(), buf, "after header", mode)?; header_at(&h, off, w.hlen, buf, mode)?;
            let c = if der { h.parse_der_content(rem.clone()) } else { h.parse_ber_content(rem.clone()) };
            if let Ok((after, c)) = c { let n = c.len(); at_range(&c, off + w.hlen, off + w.hlen + n, buf, "header content", mode)?; let e = off + w.hlen + n + if w.len.is_none() { 2 } else { 0 }; at_range(&after, e, buf.len(), buf, "after content", mode)?; }
            let c = if der { Any::parse_der_content(rem, &h) } else { Any::parse_ber_content(rem, &h) };
            if let Ok((after, c)) = c { let n = c.len(); at_range(&c, off + w.hlen, off + w.hlen + n, buf, "element content", mode)?; let e = off + w.hlen + n + if w.len.is_none() { 2 } else { 0 }; at_range(&after, e, buf.len(), buf, "after element content", mode)?; }
        }
    }
    // operations on an input
    use nom::{AsBytes as _, Input as _};
    let v = buf.to_vec(); let mut arr = [0u8; 7]; for (x, y) in arr.iter_mut().zip(buf) { *x = *y; }
    for (i, d) in [(Input::from(&v), &v[..]), (Input::from(&arr), &arr[..]), (Input::from_slice(buf), buf), (Input::new(&buf[off..], off..buf.len()), &buf[off..])] {
        let st = if d.as_ptr() == buf[off..].as_ptr() && d.len() == buf.len() - off { off } else { 0 };
        ensure!(i.start() == st && i.end() == st + d.len() && i.as_bytes2() == d, "input/from", "input made from {} covers {}..{}", hex(d), i.start(), i.end());
    }
    let mut i = Input::from(buf); let (mut a, mut b) = (0, buf.len());
    for _ in 0..s.below(6) {
        let l = b - a; let k = s.below(l + 1);
        match s.below(6) {
            0 => { i = i.take(k); b = a + k; }
            1 => { i = i.take_from(k); a += k; }
            2 => { let (x, y) = i.take_split(k); at_range(&x, a + k, b, buf, "take_split rest", "input")?; at_range(&y, a, a + k, buf, "take_split start", "input")?; if s.bool() { i = x; a += k; } else { i = y; b = a + k; } }
            3 => { let v = if l > 0 { buf[a + s.below(l)] } else { 0 }; ensure!(i.position(|x| x == v) == buf[a..b].iter().position(|x| *x == v), "input/position", "position of {v:#x} in {}", hex(&buf[a..b])); }
            4 => { i = i.const_clone(); }
            _ => { let (x, want) = (i.slice_index(k), k); ensure!(x == Ok(want), "input/slice_index", "slice_index({k}) of {l} bytes: {x:?}"); let x = i.slice_index(l + 1 + k); ensure!(x == Err(nom::Needed::new(k + 1)), "input/slice_index", "slice_index({}) of {l} bytes: {x:?}", l + 1 + k); }
        }
        at_range(&i, a, b, buf, "operation result", "input")?;
        ensure!(i.len() == b - a && i.input_len() == b - a && i.is_empty() == (a == b) && i.span() == &(a..b) && i.start() == a && i.end() == b && i.as_ref() == &buf[a..b] && i.as_bytes() == &buf[a..b] && i.clone().into_bytes() == &buf[a..b] && i.iter_elements().eq(buf[a..b].iter().cloned()) && i.iter_indices().map(|x| x.0).eq(0..b - a) && format!("{i}") == format!("Input(start={a} end={b})"), "input/view", "views of {i:?}, should be {a}..{b}");
    }
    Ok(())
}
/// C25: owned copies of headers, whatever the form of the tag and length octets
pub fn header_owned(s: &mut Src) -> Outcome {
    use std::hash::{Hash, Hasher};
    let (class, cons, tag) = (s.below(4) as u8, s.bool(), crate::model::gen_tagnum(s, 2));
    let len = *s.pick(&[0usize, 1, 5, 127, 128, 300, 70000]);
    let mut b = Vec::new();
    if s.chance(1, 3) { let pad = 1 + s.below(3); b.push(class << 6 | (cons as u8) << 5 | 31); b.extend(std::iter::repeat(0x80).take(pad)); let mut t = Vec::new(); crate::model::tag_octets(class, cons, tag.max(31), &mut t); b.extend(&t[1..]); } else { crate::model::tag_octets(class, cons, tag, &mut b); }
    let tl = b.len();
    if cons && s.chance(1, 4) { b.push(0x80) } else { crate::model::len_octets(len, &mut b) }
    if s.chance(1, 4) && b.len() == tl + 1 { let l = b.pop().unwrap(); if l < 128 { b.extend([0x82, 0, l]) } else { b.push(l) } }
    s.set_key(&b); s.note(format!("header {}", hex(&b))); s.label("header");
    crate::engine::checkpoint(s);
    let b = keep(&b);
    let built = Header::new(Class::try_from(class).unwrap(), cons, Tag(tag), Length::Definite(len));
    let mut v: Vec<(&str, Header)> = vec![("built", built.clone()), ("built with raw tag", built.with_raw_tag(Some(b[..tl].into())))];
    for (n, r) in [("from_ber", Header::from_ber(b)), ("from_der", Header::from_der(b))] { if let Ok((_, h)) = r { s.nontrivial(); v.push((n, h)); } }
    let hash = |h: &Header| { let mut x = std::collections::hash_map::DefaultHasher::new(); h.hash(&mut x); x.finish() };
    for (n, h) in &v {
        let o: Header<'static> = h.to_static();
        s.evals += 1;
        ensure!((o.class(), o.constructed(), o.tag(), o.length(), o.raw_tag()) == (h.class(), h.constructed(), h.tag(), h.length(), h.raw_tag()) && &o == h && hash(&o) == hash(h), "owned/Header", "{n} of {}: {h:?}, its owned copy is {o:?}", hex(b));
        let (x, y) = ((h.to_ber_vec().ok(), h.to_der_vec().ok()), (o.to_ber_vec().ok(), o.to_der_vec().ok()));
        ensure!(x == y, "owned-encode/Header", "{n} of {}: encodes as {x:?}, its owned copy as {y:?}", hex(b));
    }
    Ok(())
}
mod owned {
    use asn1_rs::*;
    use std::borrow::Cow;
    #[derive(ToStatic, Debug, PartialEq, Clone)]
    pub struct Named<'a> { pub a: u8, pub b: u8, pub c: i64, pub d: Cow<'a, str>, pub e: Option<Cow<'a, [u8]>>, pub f: Vec<Cow<'a, str>>, pub g: bool, pub h: bool, pub i: Option<u32>, pub j: Option<u32> }
    #[derive(ToStatic, Debug, PartialEq, Clone)]
    pub struct Tuple<'a>(pub Cow<'a, [u8]>, pub Cow<'a, [u8]>, pub u128, pub Box<i128>, pub String, pub Option<Box<Header<'a>>>);
    #[derive(ToStatic, Debug, PartialEq, Clone)]
    pub struct Unit;
    #[derive(ToStatic, Debug, Clone)]
    pub struct Two<'a, 'b> { pub x: Sequence<'a>, pub y: Set<'b>, pub z: Header<'b>, pub n: Named<'a>, pub t: Tuple<'b>, pub u: Unit }
    #[derive(ToStatic, Debug, PartialEq, Clone)]
    pub enum Choice<'a, 'b> { Unit, Other, One(Cow<'a, str>), Alike(Cow<'a, str>), Pair(u32, u32), Swapped(u32, u32), Named { lo: u16, hi: u16, text: Cow<'b, str>, rest: Vec<Cow<'a, [u8]>> }, Nested(Box<Tuple<'a>>, Option<Sequence<'b>>) }
    // read from a SEQUENCE, owned, written again
    #[derive(asn1_rs::Sequence, ToStatic, Debug, Clone)]
    pub struct Read<'a> { pub a: u8, pub b: u32, pub c: asn1_rs::Sequence<'a>, #[optional] pub d: Option<asn1_rs::Set<'a>>, pub e: Vec<u16>, pub f: bool, #[tag_explicit(1)] #[optional] pub g: Option<i64> }
    // a set has no equality
    impl PartialEq for Two<'_, '_> { fn eq(&self, o: &Self) -> bool { self.x == o.x && self.y.as_ref() == o.y.as_ref() && self.z == o.z && self.n == o.n && self.t == o.t && self.u == o.u } }
    impl PartialEq for Read<'_> { fn eq(&self, o: &Self) -> bool { self.a == o.a && self.b == o.b && self.c == o.c && self.d.as_ref().map(|x| x.as_ref()) == o.d.as_ref().map(|x| x.as_ref()) && self.e == o.e && self.f == o.f && self.g == o.g } }
}
/// C25: owned copies of structs and enums deriving the conversion
pub fn derive_owned(s: &mut Src) -> Outcome {
    use self::owned::{Choice as Ch, *};
    use std::borrow::Cow;
    let raw = s.bytes(24);
    let text: &'static str = std::str::from_utf8(keep(&crate::model::gen_text(s, crate::model::Cs::Utf8).into_bytes())).unwrap();
    let raw: &'static [u8] = keep(&raw);
    let txt = |s: &mut Src| -> Cow<'static, str> { let n: Vec<usize> = text.char_indices().map(|c| c.0).chain([text.len()]).collect(); let (a, b) = (*s.pick(&n), *s.pick(&n)); let t = &text[a.min(b)..a.max(b)]; if s.bool() { Cow::Borrowed(t) } else { Cow::Owned(t.into()) } };
    let bin = |s: &mut Src| -> Cow<'static, [u8]> { let (a, b) = (s.below(25), s.below(25)); let t = &raw[a.min(b)..a.max(b)]; if s.bool() { Cow::Borrowed(t) } else { Cow::Owned(t.into()) } };
    let hd = |s: &mut Src| -> Header<'static> { let h = Header::new(Class::try_from(s.below(4) as u8).unwrap(), s.bool(), Tag(s.below(1000) as u32), if s.chance(1, 4) { Length::Indefinite } else { Length::Definite(s.below(9)) }); if s.bool() { h.with_raw_tag(Some(Cow::Borrowed(&raw[..1 + s.below(4)]))) } else { h } };
    let opt = |s: &mut Src| if s.bool() { Some(s.byte() as u32) } else { None };
    let named = |s: &mut Src| Named { a: s.byte(), b: s.byte(), c: s.upto(u64::MAX) as i64, d: txt(s), e: if s.bool() { Some(bin(s)) } else { None }, f: (0..s.below(3)).map(|_| txt(s)).collect(), g: s.bool(), h: s.bool(), i: opt(s), j: opt(s) };
    let tuple = |s: &mut Src| Tuple(bin(s), bin(s), s.upto(u64::MAX) as u128 * 3, Box::new(s.upto(u64::MAX) as i64 as i128 * 5), txt(s).into(), if s.bool() { Some(Box::new(hd(s))) } else { None });
    let seq = |s: &mut Src| Sequence::new(bin(s));
    s.label("derived");
    crate::engine::checkpoint(s);
    macro_rules! same { ($v:expr, $t:ty) => {{
        let v = $v;
        let (key, shown) = (format!("{v:?}"), format!("{v:#?}"));
        s.set_key(key.as_bytes()); s.note(key.clone()); s.nontrivial(); s.evals += 1;
        let o: $t = v.to_static();
        let back: $t = (&v).to_static().to_static();
        ensure!(o == v && v == o && back == o, concat!("owned/", stringify!($t)), "{v:?}: owned copy is {o:?}");
        drop(v);
        ensure!(format!("{o:?}") == key && format!("{o:#?}") == shown, concat!("owned-print/", stringify!($t)), "{key}: owned copy prints {o:?}");
        o
    }} }
    match s.below(5) {
        0 => { same!(named(s), Named<'static>); }
        1 => { same!(tuple(s), Tuple<'static>); }
        2 => { same!(Two { x: seq(s), y: Set::new(bin(s)), z: hd(s), n: named(s), t: tuple(s), u: Unit }, Two<'static, 'static>); }
        3 => { same!(match s.below(8) {
            0 => Ch::Unit, 1 => Ch::Other, 2 => Ch::One(txt(s)), 3 => Ch::Alike(txt(s)), 4 => Ch::Pair(s.byte() as u32, s.byte() as u32), 5 => Ch::Swapped(s.byte() as u32, s.byte() as u32),
            6 => Ch::Named { lo: s.byte() as u16, hi: s.byte() as u16, text: txt(s), rest: (0..s.below(3)).map(|_| bin(s)).collect() },
            _ => Ch::Nested(Box::new(tuple(s)), if s.bool() { Some(seq(s)) } else { None }) }, Ch<'static, 'static>); }
        _ => {
            use crate::model::tlv;
            let el = |s: &mut Src| { let n = s.below(4); let b = s.bytes(n); tlv(0, false, 2, &[&[1], &b[..]].concat()) };
            let mut c = [tlv(0, false, 2, &[s.below(128) as u8]), tlv(0, false, 2, &[0, 128 + s.below(128) as u8, s.byte()])].concat();
            let (x, y) = (el(s), el(s)); c.extend(tlv(0, true, 16, &[x, y].concat()));
            if s.bool() { let x = el(s); c.extend(tlv(0, true, 17, &x)); }
            let v: Vec<u8> = (0..s.below(4)).flat_map(|_| tlv(0, false, 2, &[s.below(128) as u8])).collect(); c.extend(tlv(0, true, 16, &v));
            c.extend(tlv(0, false, 1, &[if s.bool() { 255 } else { 0 }]));
            if s.bool() { c.extend(tlv(2, true, 1, &tlv(0, false, 2, &[s.byte()]))); }
            let b = tlv(0, true, 16, &c);
            for der in [false, true] {
                let mut buf = b.clone().into_boxed_slice();
                let (o, key, enc) = {
                    let (r, used) = if der { Read::parse_der(Input::from(&buf[..])).map(|(r, v)| (v, r.len())) } else { Read::parse_ber(Input::from(&buf[..])).map(|(r, v)| (v, r.len())) }.map_err(|e| crate::engine::Fail { sig: "owned-read".into(), msg: format!("{}: {e:?}", hex(&b)) })?;
                    ensure!(used == 0, "owned-read", "{}: {used} octets left", hex(&b));
                    let o: Read<'static> = r.to_static();
                    s.set_key(&b); s.note(hex(&b)); s.nontrivial(); s.evals += 1;
                    ensure!(o == r && r == o, "owned/Read", "{}: {r:?}, its owned copy is {o:?}", hex(&b));
                    (o, format!("{r:?}"), (r.to_ber_vec().ok(), r.to_der_vec().ok()))
                };
                // the input is overwritten, then gone
                for x in buf.iter_mut() { *x = !*x }
                drop(buf);
                ensure!(format!("{o:?}") == key, "owned-independent/Read", "{}: owned copy of {key} prints {o:?} once the input is gone", hex(&b));
                ensure!((o.to_ber_vec().ok(), o.to_der_vec().ok()) == enc && enc.1.as_deref() == Some(&b[..]), "owned-encode/Read", "{}: encodes as {enc:?}", hex(&b));
            }
        }
    }
    // object identifiers have an owned form of their own
    let rel = s.chance(1, 3);
    let c = keep(&crate::model::gen_oid_content(s, rel));
    let o = if rel { Oid::new_relative(Cow::Borrowed(c)) } else { Oid::new(Cow::Borrowed(c)) };
    let w: Oid<'static> = o.to_owned();
    s.evals += 1;
    ensure!(w == o && w.as_bytes() == c && format!("{w} {w:?} {:?}", w.to_der_vec()) == format!("{o} {o:?} {:?}", o.to_der_vec()), "owned/Oid", "{}: {o:?}, owned {w:?}", hex(c));
    Ok(())
}
/// C05, C24: lists written with indefinite length, alone, nested and inside other values
pub fn indefinite(s: &mut Src, writers: bool) -> Outcome {
    use crate::model::{len_octets, read_hdr, read_tlv, tag_octets, tlv};
    s.label("indefinite length");
    let item = |s: &mut Src| -> u32 { s.upto(u32::MAX as u64) as u32 >> *s.pick(&[0u32, 8, 16, 24, 28]) };
    let list = |s: &mut Src| -> Vec<u32> { let n = s.len(6); (0..n).map(|_| item(s)).collect() };
    let oct = |l: &Vec<u32>| -> Vec<u8> { l.iter().flat_map(|i| tlv(0, false, 2, &crate::model::int_octets(&num_bigint::BigInt::from(*i)))).collect() };
    let ind = |c: &[u8]| -> Vec<u8> { let mut v = vec![0x30, 0x80]; v.extend(c); v.extend([0, 0]); v };
    let (l, ll): (Vec<u32>, Vec<Vec<u32>>) = (list(s), { let n = s.below(4); (0..n).map(|_| list(s)).collect() });
    let (class, tag) = (s.below(4) as u8, crate::model::gen_tagnum(s, 2));
    s.note(format!("{l:?} {ll:?} as class {class} tag {tag}")); s.set_key(format!("{l:?}{ll:?}{class}/{tag}").as_bytes());
    if !l.is_empty() { s.nontrivial(); }
    crate::engine::checkpoint(s);
    let c = Class::try_from(class).unwrap();
    // value, its type when read back, its exact encoding if there is only one
    macro_rules! check { ($name:literal, $v:expr, $read:ty, $expect:expr, $same:expr) => {{
        let v = $v; s.evals += 1;
        let out = v.to_ber_vec().map_err(|e| crate::engine::Fail { sig: concat!("indefinite/", $name).into(), msg: format!("{v:?}: {e}") })?;
        let h = read_hdr(&out).ok();
        let whole = read_tlv(&out, 60).map(|x| x.2);
        ensure!(whole == Ok(out.len()), concat!("malformed/", $name), "{v:?} is written {}, not one element ({whole:?})", hex(&out));
        let expect: Option<Vec<u8>> = $expect;
        ensure!(expect.as_ref().map_or(true, |e| *e == out), concat!("indefinite/", $name), "{v:?} is written {}, should be {:?}", hex(&out), expect.map(|x| hex(&x)));
        let h = h.unwrap();
        let (k, cons, t) = v.ber_tag_info();
        ensure!((k as u8, cons, t.0) == (h.class, h.cons, h.tag) && (DynTagged::class(&v), DynTagged::constructed(&v), DynTagged::tag(&v)) == (k, cons, t), concat!("tag-info/", $name), "{v:?}: announces {:?}, is written {}", (k, cons, t), hex(&out));
        let (mut header, mut content) = (Vec::new(), Vec::new());
        let (n, m) = (v.ber_write_header(&mut header).ok(), v.ber_write_content(&mut content).ok());
        ensure!(n == Some(header.len()) && m == Some(content.len()), concat!("returned/", $name), "{v:?}: header returned {n:?} for {}, content {m:?} for {}", hex(&header), hex(&content));
        let indef = h.len.is_none();
        let parts = [&header[..], &content, if indef { &[0, 0] } else { &[] }].concat();
        ensure!(parts == out, concat!("parts/", $name), "{v:?}: header {} and content {}, encoding {}", hex(&header), hex(&content), hex(&out));
        ensure!(v.ber_content_len() == if indef { Length::Indefinite } else { Length::Definite(content.len()) } && v.ber_total_len() == if indef { Length::Indefinite } else { Length::Definite(out.len()) }, concat!("length/", $name), "{v:?}: announces content {:?}, total {:?}, encoding {}", v.ber_content_len(), v.ber_total_len(), hex(&out));
        // as tagged
        let mut outs: Vec<(&str, SerializeResult<usize>, Vec<u8>)> = Vec::new();
        let mut w = Vec::new(); let r = v.ber_encode(&mut w); outs.push(("encode", r, w));
        let mut w = Vec::new(); let r = v.write_ber(&mut w); outs.push(("write", r, w));
        let mut w = Vec::new(); let r = (&v).ber_encode(&mut w); outs.push(("encode by reference", r, w));
        for (n, r, w) in &outs { ensure!(r.as_ref().ok() == Some(&w.len()) && *w == out, concat!("entry-disagree/", $name), "{v:?}: {n} wrote {} and returned {r:?}, vector form {}", hex(w), hex(&out)); }
        for explicit in [true, false] {
            let mut w = Vec::new();
            let r = if explicit { v.ber_encode_tagged_explicit(c, tag, &mut w) } else { v.ber_encode_tagged_implicit(c, tag, &mut w) };
            ensure!(r.as_ref().ok() == Some(&w.len()), concat!("returned/", $name), "{v:?}: tagged, explicit {explicit}, returned {r:?} for {}", hex(&w));
            let inner: &[u8] = if explicit { &out } else { &content };
            let mut e = Vec::new(); tag_octets(class, true, tag, &mut e);
            let mut e2 = e.clone(); len_octets(inner.len(), &mut e); e.extend(inner);
            e2.push(0x80); e2.extend(inner); e2.extend([0, 0]);
            ensure!(w == e || w == e2, concat!("tagged/", $name), "{v:?}: tagged, explicit {explicit}, class {class} tag {tag}: {}, vector form {}", hex(&w), hex(&out));
        }
        let k = keep(&[&out[..], &[1, 2]].concat());
        match <$read>::parse_ber(Input::from(k)) { Ok((rem, x)) => ensure!(rem.len() == 2 && $same(&x), concat!("read-back/", $name), "{v:?} is written {}, read back as {x:?} leaving {}", hex(&out), rem.len()), Err(e) => return fail(concat!("read-back/", $name), format!("{v:?} is written {}, read back: {e:?}", hex(&out))) }
        if writers {
            let chunks: Vec<usize> = if s.bool() { let n = 1 + s.below(3); (0..n).map(|_| 1 + s.below(5)).collect() } else { vec![] };
            let interrupt = if s.bool() { 2 + s.below(3) } else { 0 };
            let mut sw = ScriptWriter { chunks: chunks.clone(), interrupt, ..ScriptWriter::plain() };
            let r = v.ber_encode(&mut sw);
            ensure!(r.as_ref().ok() == Some(&out.len()) && sw.out == out, concat!("short-writes/", $name), "{v:?}: with short writes {chunks:?}, interrupts {interrupt}: {r:?}, wrote {}", hex(&sw.out));
            for at in [s.below(out.len()), out.len() - 1, out.len() - 2] {
                let mut sw = ScriptWriter { chunks: chunks.clone(), interrupt, fail_at: Some(at), fail_kind: s.below(3) as u8, ..ScriptWriter::plain() };
                let r = v.ber_encode(&mut sw);
                ensure!(r.is_err() && out.starts_with(&sw.out), concat!("failing-writer-ok/", $name), "{v:?}: writer failed after {at} of {} bytes: {r:?}, wrote {}", out.len(), hex(&sw.out));
            }
        }
    }} }
    let iv = |l: &Vec<u32>| IndefiniteVec(l.clone());
    match s.below(6) {
        0 => check!("IndefiniteVec<u32>", iv(&l), Vec<u32>, Some(ind(&oct(&l))), |x: &Vec<u32>| *x == l),
        1 => check!("IndefiniteVec<IndefiniteVec<u32>>", IndefiniteVec(ll.iter().map(iv).collect()), Vec<Vec<u32>>, Some(ind(&ll.iter().flat_map(|l| ind(&oct(l))).collect::<Vec<_>>())), |x: &Vec<Vec<u32>>| *x == ll),
        2 => check!("IndefiniteVec<Vec<u32>>", IndefiniteVec(ll.clone()), Vec<Vec<u32>>, Some(ind(&ll.iter().flat_map(|l| tlv(0, true, 16, &oct(l))).collect::<Vec<_>>())), |x: &Vec<Vec<u32>>| *x == ll),
        3 => check!("Vec<IndefiniteVec<u32>>", ll.iter().map(iv).collect::<Vec<_>>(), Vec<Vec<u32>>, None, |x: &Vec<Vec<u32>>| *x == ll),
        4 => check!("SetOf<IndefiniteVec<u32>>", SetOf::from_iter(ll.iter().map(iv)), SetOf<Vec<u32>>, None, |x: &SetOf<Vec<u32>>| { let (mut a, mut b) = (x.to_vec(), ll.clone()); a.sort(); b.sort(); a == b }),
        _ => check!("TaggedExplicit<IndefiniteVec<u32>>", TaggedExplicit::<IndefiniteVec<u32>, Error, 3>::explicit(iv(&l)), TaggedExplicit<Vec<u32>, BerError<Input<'static>>, 3>, None, |x: &TaggedExplicit<Vec<u32>, BerError<Input<'static>>, 3>| *x.as_ref() == l),
    }
    Ok(())
}
/// C05: generic elements built from a tag and contents
pub fn any_built(s: &mut Src) -> Outcome {
    use crate::model::tlv;
    let tag = if s.bool() { s.below(31) as u32 } else { crate::model::gen_tagnum(s, 2) };
    let n = *s.pick(&[0usize, 1, 2, 5, 127, 128, 300]);
    let b = keep(&s.bulk(n));
    s.label("built element"); s.note(format!("tag {tag}, {n} octets")); s.set_key(&[tag as u8, (tag >> 8) as u8]); s.set_key(b); s.nontrivial(); s.evals += 1;
    crate::engine::checkpoint(s);
    let a = Any::from_tag_and_data(Tag(tag), Input::from(b));
    let cons = a.header.constructed();
    let e = tlv(0, cons, tag, b);
    ensure!(matches!(tag, 16 | 17) == cons || tag == 8 || tag == 11, "built-form", "element with tag {tag} is built with constructed {cons}");
    ensure!((a.class(), a.tag(), a.header.length(), a.as_bytes()) == (Class::Universal, Tag(tag), Length::Definite(n), b), "built", "element built with tag {tag} and {n} octets is {a:?}");
    let mut w = Vec::new();
    let r = a.der_encode(&mut w).ok();
    let got = (a.to_der_vec().ok(), a.to_ber_vec().ok(), r, a.ber_content_len(), a.ber_total_len());
    ensure!(got == (Some(e.clone()), Some(e.clone()), Some(e.len()), Length::Definite(n), Length::Definite(e.len())) && w == e, "built-encode", "element built with tag {tag} and {n} octets: {got:?}, should be {}", hex(&e));
    let k = keep(&e);
    match Any::parse_der(Input::from(k)) { Ok((rem, x)) => ensure!(rem.is_empty() && x.header == a.header && x.as_bytes() == b && x.tag() == a.tag() && x.class() == a.class(), "built-read", "element built with tag {tag}: read back {x:?}"), Err(x) => if tag != 0 { return fail("built-read", format!("{}: {x:?}", hex(&e))) } }
    ensure!(&*Sequence::new(b.into()).into_content() == b && &*Set::new(b.into()).into_content() == b && Sequence::new(b.into()).to_der_vec().ok() == Some(tlv(0, true, 16, b)) && Set::new(b.into()).to_der_vec().ok() == Some(tlv(0, true, 17, b)), "built-content", "contents {} are not kept", hex(b));
    Ok(())
}
