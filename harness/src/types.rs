//! `LibTy` for every library type under test, and the registry of types the generic properties run over.
use crate::model::*;
use crate::obs::*;
use crate::ops;
use asn1_rs::*;
use num_bigint::BigInt;
use std::borrow::Cow;
use std::collections::{BTreeSet, HashSet};
use std::convert::TryFrom;
use std::sync::OnceLock;

macro_rules! lib {
    ($t:ty, $kind:expr, |$x:ident| $val:expr, |$v:pat_param| $build:expr) => {
        impl LibTy for $t {
            fn kind() -> Kind { $kind }
            fn val(&self) -> Val { let $x = self; $val }
            #[allow(unreachable_patterns)]
            fn build(v: &Val) -> Option<Self> { match v { $v => $build, _ => None } }
        }
    };
}
lib!(bool, Kind::Bool, |x| Val::Bool(*x), |Val::Bool(b)| Some(*b));
lib!(Boolean, Kind::Bool, |x| Val::Bool(x.bool()), |Val::Bool(b)| Some(Boolean::new(if *b { 0xff } else { 0 })));
macro_rules! ints { ($($t:ty, $s:expr;)*) => { $( lib!($t, Kind::Int { signed: $s, bits: <$t>::BITS }, |x| Val::Int(BigInt::from(*x)), |Val::Int(i)| <$t>::try_from(i.clone()).ok()); )* } }
ints! { u8, false; u16, false; u32, false; u64, false; u128, false; i8, true; i16, true; i32, true; i64, true; i128, true; usize, false; isize, true; }
lib!(Integer<'static>, Kind::Integer, |x| Val::Int(BigInt::from_signed_bytes_be(x.as_ref())), |Val::Int(i)| Some(Integer::new(keep(&int_octets(i)))));
lib!(Enumerated, Kind::Enumerated, |x| Val::Int(BigInt::from(x.0)), |Val::Int(i)| u32::try_from(i.clone()).ok().map(Enumerated::new));
lib!(Null, Kind::Null, |_x| Val::Null, |Val::Null| Some(Null::new()));
lib!((), Kind::Null, |_x| Val::Null, |Val::Null| Some(()));
lib!(EndOfContent, Kind::Eoc, |_x| Val::Null, |Val::Null| Some(EndOfContent::new()));
lib!(OctetString<'static>, Kind::Octets { borrowed: false }, |x| Val::Bytes(x.as_ref().to_vec()), |Val::Bytes(b)| Some(OctetString::new(keep(b))));
lib!(&'static [u8], Kind::Octets { borrowed: true }, |x| Val::Bytes(x.to_vec()), |Val::Bytes(b)| Some(keep(b)));
lib!(BitString, Kind::Bits, |x| Val::Bits(x.as_bitslice().iter().map(|b| *b).collect()), |Val::Bits(b)| Some(build_bits(b)));
pub fn build_bits(b: &[bool]) -> BitString {
    let mut o = vec![0u8; b.len().div_ceil(8)];
    for (i, x) in b.iter().enumerate() { if *x { o[i / 8] |= 0x80 >> (i % 8); } }
    BitString::new(((8 - b.len() % 8) % 8) as u8, &o)
}
lib!(Oid<'static>, Kind::Oid, |x| Val::Oid(DynTagged::tag(x) == Tag::RelativeOid, x.as_bytes().to_vec()), |Val::Oid(r, c)| Some(if *r { Oid::new_relative(Cow::Borrowed(keep(c))) } else { Oid::new(Cow::Borrowed(keep(c))) }));
macro_rules! strs { ($($t:ident, $cs:expr, $tag:expr;)*) => { $( lib!($t<'static>, Kind::Str { cs: $cs, tag: $tag, borrowed: false }, |x| Val::Str(x.string()), |Val::Str(s)| Some($t::new(keep_str(s)))); )* } }
strs! { Utf8String, Cs::Utf8, 12; NumericString, Cs::Numeric, 18; PrintableString, Cs::Printable, 19; TeletexString, Cs::Visible, 20; VideotexString, Cs::Visible, 21;
    Ia5String, Cs::Ascii, 22; GraphicString, Cs::Ascii, 25; VisibleString, Cs::Visible, 26; GeneralString, Cs::Ascii, 27; UniversalString, Cs::Universal, 28; BmpString, Cs::Bmp, 30; ObjectDescriptor, Cs::Ascii, 7; }
lib!(String, Kind::Str { cs: Cs::Utf8, tag: 12, borrowed: false }, |x| Val::Str(x.clone()), |Val::Str(s)| Some(s.clone()));
lib!(&'static str, Kind::Str { cs: Cs::Utf8, tag: 12, borrowed: true }, |x| Val::Str(x.to_string()), |Val::Str(s)| Some(keep_str(s)));
pub fn tm_of(d: &ASN1DateTime) -> Tm {
    Tm { year: d.year, mon: d.month, day: d.day, h: d.hour, m: d.minute, s: d.second, ms: d.millisecond, tz: match d.tz { ASN1TimeZone::Undefined => Tz::Undef, ASN1TimeZone::Z => Tz::Z, ASN1TimeZone::Offset(h, m) => Tz::Off(h, m) } }
}
pub fn dt_of(t: &Tm) -> ASN1DateTime {
    ASN1DateTime::new(t.year, t.mon, t.day, t.h, t.m, t.s, t.ms, match t.tz { Tz::Undef => ASN1TimeZone::Undefined, Tz::Z => ASN1TimeZone::Z, Tz::Off(h, m) => ASN1TimeZone::Offset(h, m) })
}
lib!(UtcTime, Kind::UtcTime, |x| Val::Time(tm_of(&x.0)), |Val::Time(t)| Some(UtcTime::new(dt_of(t))));
lib!(GeneralizedTime, Kind::GenTime, |x| Val::Time(tm_of(&x.0)), |Val::Time(t)| Some(GeneralizedTime::new(dt_of(t))));
lib!(Real, Kind::Real, |x| f64val(x.f64()), |Val::F64(b)| Some(Real::new(f64::from_bits(*b))));
lib!(f64, Kind::Real, |x| f64val(*x), |Val::F64(b)| Some(f64::from_bits(*b)));
lib!(f32, Kind::F32, |x| f64val(*x as f64), |Val::F64(b)| Some(f64::from_bits(*b) as f32));
pub fn any_val(a: &Any) -> Val { Val::Any { class: a.class() as u8, cons: a.header.constructed(), tag: a.tag().0, content: a.as_bytes().to_vec() } }
pub fn any_build(v: &Val) -> Option<Any<'static>> {
    match v { Val::Any { class, cons, tag, content } => { let c = keep(content); Some(Any::new(Header::new(Class::try_from(*class).ok()?, *cons, Tag(*tag), Length::Definite(c.len())), Input::from(c))) } _ => None }
}
lib!(Any<'static>, Kind::Any, |x| any_val(x), |v| any_build(v));
lib!(Sequence<'static>, Kind::RawSeq, |x| Val::Bytes(x.as_ref().to_vec()), |Val::Bytes(b)| Some(Sequence::new(Cow::Borrowed(keep(b)))));
lib!(Set<'static>, Kind::RawSet, |x| Val::Bytes(x.as_ref().to_vec()), |Val::Bytes(b)| Some(Set::new(Cow::Borrowed(keep(b)))));
lib!(AnySequence<'static>, Kind::SeqOf(Box::new(Kind::Any)), |x| Val::List(x.iter().map(any_val).collect()), |Val::List(l)| l.iter().map(any_build).collect::<Option<Vec<_>>>().map(AnySequence::new));
fn sorted(mut v: Vec<Val>, dedup: bool) -> Val { v.sort(); if dedup { v.dedup(); } Val::Set(v) }
lib!(AnySet<'static>, Kind::SetOf(Box::new(Kind::Any), true), |x| sorted(x.iter().map(any_val).collect(), true), |Val::Set(l)| l.iter().map(any_build).collect::<Option<HashSet<_>>>().map(AnySet::new));
impl<T: LibTy> LibTy for Vec<T> {
    fn kind() -> Kind { Kind::SeqOf(Box::new(T::kind())) }
    fn val(&self) -> Val { Val::List(self.iter().map(T::val).collect()) }
    fn build(v: &Val) -> Option<Self> { match v { Val::List(l) => l.iter().map(T::build).collect(), _ => None } }
}
impl<T: LibTy> LibTy for SequenceOf<T> {
    fn kind() -> Kind { Kind::SeqOf(Box::new(T::kind())) }
    fn val(&self) -> Val { Val::List(self.as_ref().iter().map(T::val).collect()) }
    fn build(v: &Val) -> Option<Self> { match v { Val::List(l) => l.iter().map(T::build).collect::<Option<Vec<T>>>().map(SequenceOf::new), _ => None } }
}
impl<T: LibTy> LibTy for SetOf<T> {
    fn kind() -> Kind { Kind::SetOf(Box::new(T::kind()), false) }
    fn val(&self) -> Val { sorted(self.as_ref().iter().map(T::val).collect(), false) }
    fn build(v: &Val) -> Option<Self> { match v { Val::Set(l) => l.iter().map(T::build).collect::<Option<Vec<T>>>().map(SetOf::new), _ => None } }
}
impl<T: LibTy + Ord> LibTy for BTreeSet<T> {
    fn kind() -> Kind { Kind::SetOf(Box::new(T::kind()), true) }
    fn val(&self) -> Val { sorted(self.iter().map(T::val).collect(), false) }
    fn build(v: &Val) -> Option<Self> { match v { Val::Set(l) => l.iter().map(T::build).collect(), _ => None } }
}
impl<T: LibTy + Eq + std::hash::Hash> LibTy for HashSet<T> {
    fn kind() -> Kind { Kind::SetOf(Box::new(T::kind()), true) }
    fn val(&self) -> Val { sorted(self.iter().map(T::val).collect(), false) }
    fn build(v: &Val) -> Option<Self> { match v { Val::Set(l) => l.iter().map(T::build).collect(), _ => None } }
}
impl<T: LibTy, const N: usize> LibTy for [T; N] {
    fn kind() -> Kind { Kind::Array(Box::new(T::kind()), N) }
    fn val(&self) -> Val { Val::List(self.iter().map(T::val).collect()) }
    fn build(v: &Val) -> Option<Self> { match v { Val::List(l) => l.iter().map(T::build).collect::<Option<Vec<T>>>().and_then(|v| v.try_into().ok()), _ => None } }
}
macro_rules! tup { ($($t:ident $i:tt),+) => {
    impl<$($t: LibTy),+> LibTy for ($($t,)+) {
        fn kind() -> Kind { Kind::Fields { set: false, fields: vec![$($t::kind()),+] } }
        fn val(&self) -> Val { Val::List(vec![$(self.$i.val()),+]) }
        fn build(v: &Val) -> Option<Self> { match v { Val::List(l) => Some(($($t::build(l.get($i)?)?,)+)), _ => None } }
    }
} }
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3, E 4);
impl<T: LibTy> LibTy for Option<T> {
    fn kind() -> Kind { Kind::Opt(Box::new(T::kind())) }
    fn val(&self) -> Val { match self { None => Val::None, Some(x) => Val::Some(Box::new(x.val())) } }
    fn build(v: &Val) -> Option<Self> { match v { Val::None => Some(None), Val::Some(x) => T::build(x).map(Some), _ => None } }
}
impl<T: LibTy, E: 'static, const C: u8, const N: u32> LibTy for TaggedValue<T, E, Explicit, C, N> {
    fn kind() -> Kind { Kind::Tagged { class: C, tag: N, explicit: true, inner: Box::new(T::kind()) } }
    fn val(&self) -> Val { self.as_ref().val() }
    fn build(v: &Val) -> Option<Self> { T::build(v).map(TaggedValue::explicit) }
}
impl<T: LibTy, E: 'static, const C: u8, const N: u32> LibTy for TaggedValue<T, E, Implicit, C, N> {
    fn kind() -> Kind { Kind::Tagged { class: C, tag: N, explicit: false, inner: Box::new(T::kind()) } }
    fn val(&self) -> Val { self.as_ref().val() }
    fn build(v: &Val) -> Option<Self> { T::build(v).map(TaggedValue::implicit) }
}
lib!(EmbeddedPdv<'static>, Kind::Pdv, |x| {
    let id = match &x.identification {
        PdvIdentification::Syntaxes { s_abstract, s_transfer } => (0, Val::List(vec![s_abstract.val(), s_transfer.val()])),
        PdvIdentification::Syntax(o) => (1, o.val()), PdvIdentification::PresentationContextId(i) => (2, i.val()),
        PdvIdentification::ContextNegotiation { presentation_context_id, presentation_syntax } => (3, Val::List(vec![presentation_context_id.val(), presentation_syntax.val()])),
        PdvIdentification::TransferSyntax(o) => (4, o.val()), PdvIdentification::Fixed => (5, Val::Null) };
    Val::List(vec![Val::Choice(id.0, Box::new(id.1)), match &x.data_value_descriptor { Some(d) => Val::Some(Box::new(d.val())), None => Val::None }, Val::Bytes(x.data_value.to_vec())])
}, |Val::List(l)| {
    let Val::Choice(i, v) = &l[0] else { return None };
    let two = |v: &Val| match v { Val::List(x) => (x[0].clone(), x[1].clone()), _ => panic!() };
    Some(EmbeddedPdv {
        identification: match i { 0 => { let (a, b) = two(v); PdvIdentification::Syntaxes { s_abstract: Oid::build(&a)?, s_transfer: Oid::build(&b)? } }
            1 => PdvIdentification::Syntax(Oid::build(v)?), 2 => PdvIdentification::PresentationContextId(Integer::build(v)?),
            3 => { let (a, b) = two(v); PdvIdentification::ContextNegotiation { presentation_context_id: Integer::build(&a)?, presentation_syntax: Oid::build(&b)? } }
            4 => PdvIdentification::TransferSyntax(Oid::build(v)?), _ => PdvIdentification::Fixed },
        data_value_descriptor: match &l[1] { Val::Some(d) => Some(ObjectDescriptor::build(d)?), _ => None },
        data_value: match &l[2] { Val::Bytes(b) => keep(b), _ => return None },
    })
});

pub type Tx<T, const N: u32> = TaggedExplicit<T, Error, N>;
pub type Ti<T, const N: u32> = TaggedImplicit<T, Error, N>;
pub fn registry() -> &'static [Ops] {
    static R: OnceLock<Vec<Ops>> = OnceLock::new();
    R.get_or_init(|| {
        let mut v = Vec::new();
        reg_prim(&mut v); reg_str(&mut v); reg_seq(&mut v); reg_set(&mut v); reg_tag(&mut v); reg_opt(&mut v);
        v
    })
}
macro_rules! regs { ($v:ident; $($n:literal: $t:ty $(, $o:ident)?;)*) => { $( $v.push(ops!($n, $t $(, $o)?)); )* } }
fn reg_prim(v: &mut Vec<Ops>) {
    regs! { v;
        "bool": bool; "Boolean": Boolean; "u8": u8; "u16": u16; "u32": u32; "u64": u64; "u128": u128; "i8": i8; "i16": i16; "i32": i32; "i64": i64; "i128": i128; "usize": usize; "isize": isize;
        "Integer": Integer<'static>; "Enumerated": Enumerated; "Null": Null; "()": (); "OctetString": OctetString<'static>; "&[u8]": &'static [u8];
        "BitString": BitString; "Oid": Oid<'static>; "UtcTime": UtcTime; "GeneralizedTime": GeneralizedTime; "Real": Real; "f32": f32; "f64": f64; "Any": Any<'static>, noopt; "EndOfContent": EndOfContent;
    }
}
fn reg_str(v: &mut Vec<Ops>) {
    regs! { v;
        "Utf8String": Utf8String<'static>; "NumericString": NumericString<'static>; "PrintableString": PrintableString<'static>; "TeletexString": TeletexString<'static>;
        "VideotexString": VideotexString<'static>; "Ia5String": Ia5String<'static>; "GraphicString": GraphicString<'static>; "VisibleString": VisibleString<'static>;
        "GeneralString": GeneralString<'static>; "UniversalString": UniversalString<'static>; "BmpString": BmpString<'static>; "ObjectDescriptor": ObjectDescriptor<'static>;
        "String": String; "&str": &'static str;
    }
}
fn reg_seq(v: &mut Vec<Ops>) {
    regs! { v;
        "Sequence": Sequence<'static>; "Set": Set<'static>; "AnySequence": AnySequence<'static>;
        "Vec<u32>": Vec<u32>; "Vec<Vec<u8>>": Vec<Vec<u8>>; "Vec<OctetString>": Vec<OctetString<'static>>; "Vec<Any>": Vec<Any<'static>>;
        "SequenceOf<i16>": SequenceOf<i16>; "SequenceOf<SequenceOf<Utf8String>>": SequenceOf<SequenceOf<Utf8String<'static>>>;
        "[u32;2]": [u32; 2]; "[Vec<bool>;3]": [Vec<bool>; 3];
        "(u16,)": (u16,); "(u32,OctetString)": (u32, OctetString<'static>); "(bool,BitString,Option<u8>)": (bool, BitString, Option<u8>);
        "(Option<Tx<u8,0>>,Option<Ti<OctetString,1>>,Vec<i8>,String,Oid)": (Option<Tx<u8, 0>>, Option<Ti<OctetString<'static>, 1>>, Vec<i8>, String, Oid<'static>);
        "EmbeddedPdv": EmbeddedPdv<'static>;
    }
}
fn reg_set(v: &mut Vec<Ops>) {
    regs! { v;
        "AnySet": AnySet<'static>; "SetOf<u32>": SetOf<u32>; "SetOf<OctetString>": SetOf<OctetString<'static>>; "SetOf<Vec<u8>>": SetOf<Vec<u8>>;
        "BTreeSet<u32>": BTreeSet<u32>; "BTreeSet<String>": BTreeSet<String>;
        "HashSet<u32>": HashSet<u32>; "HashSet<String>": HashSet<String>;
    }
}
fn reg_tag(v: &mut Vec<Ops>) {
    regs! { v;
        "Tx<u32,0>": Tx<u32, 0>; "Ti<u32,0>": Ti<u32, 0>; "Tx<OctetString,30>": Tx<OctetString<'static>, 30>; "Ti<OctetString,31>": Ti<OctetString<'static>, 31>;
        "Tx<Vec<u16>,1>": Tx<Vec<u16>, 1>; "Ti<Vec<u16>,1>": Ti<Vec<u16>, 1>; "Ti<Sequence,3>": Ti<Sequence<'static>, 3>;
        "AppExplicit<Utf8String,127>": TaggedValue<Utf8String<'static>, Error, Explicit, { Class::APPLICATION }, 127>;
        "AppImplicit<BitString,128>": TaggedValue<BitString, Error, Implicit, { Class::APPLICATION }, 128>;
        "PrivExplicit<bool,16384>": TaggedValue<bool, Error, Explicit, { Class::PRIVATE }, 16384>;
        "PrivImplicit<Integer,4294967295>": TaggedValue<Integer<'static>, Error, Implicit, { Class::PRIVATE }, 4294967295>;
        "Tx<Tx<Ti<Oid,5>,4>,2>": Tx<Tx<Ti<Oid<'static>, 5>, 4>, 2>;
        "Ti<Tx<i64,1>,2>": Ti<Tx<i64, 1>, 2>;
        "Tx<Any,7>": Tx<Any<'static>, 7>;
        "Tx<GeneralizedTime,9>": Tx<GeneralizedTime, 9>; "Ti<UtcTime,9>": Ti<UtcTime, 9>; "Ti<BmpString,2>": Ti<BmpString<'static>, 2>; "Ti<SetOf<u8>,6>": Ti<SetOf<u8>, 6>;
        "Vec<Tx<u8,0>>": Vec<Tx<u8, 0>>; "Vec<Ti<Ia5String,2>>": Vec<Ti<Ia5String<'static>, 2>>;
    }
}
fn reg_opt(v: &mut Vec<Ops>) {
    regs! { v;
        "Option<u32>": Option<u32>, noopt; "Option<OctetString>": Option<OctetString<'static>>, noopt; "Option<Vec<bool>>": Option<Vec<bool>>, noopt;
        "Option<Tx<u8,0>>": Option<Tx<u8, 0>>, noopt; "Option<Ti<Utf8String,1>>": Option<Ti<Utf8String<'static>, 1>>, noopt;
    }
}
