//! Uniform access to the library: every type under test becomes an `Ops` table of monomorphic functions.
//! Optional abilities (a trait the type may or may not implement) are detected by autoref specialization, so the
//! table always reflects what the library offers for that type.
use crate::model::{Kind, Val};
use asn1_rs::*;
use nom::Err as NErr;
use std::any::Any as Dyn;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::io::{self, Write};
use std::marker::PhantomData;

// ------------------------------------------------------------------ buffers that live for one case
thread_local! { static ARENA: RefCell<Vec<Box<[u8]>>> = const { RefCell::new(Vec::new()) }; }
/// Copy of `b` that stays alive until the next `arena_reset` (called at the start of every case).
pub fn keep(b: &[u8]) -> &'static [u8] {
    let bx: Box<[u8]> = b.to_vec().into_boxed_slice();
    let p: *const [u8] = &*bx;
    ARENA.with(|a| a.borrow_mut().push(bx));
    unsafe { &*p }
}
pub fn keep_str(s: &str) -> &'static str { std::str::from_utf8(keep(s.as_bytes())).unwrap() }
pub fn arena_reset() { ARENA.with(|a| a.borrow_mut().clear()); }

// ------------------------------------------------------------------ observations
#[derive(Clone, Debug, PartialEq)]
pub enum EKind { Incomplete, Error, Failure }
#[derive(Clone, Debug)]
pub struct ErrObs { pub kind: EKind, pub pos: Option<Pos>, pub text: String, pub dbg: String }
#[derive(Clone, Debug, PartialEq)]
pub struct Pos { pub start: usize, pub end: usize, pub ptr: usize, pub len: usize }
pub fn pos_of(i: &Input) -> Pos { Pos { start: i.start(), end: i.end(), ptr: i.as_bytes2().as_ptr() as usize, len: i.len() } }
pub trait ErrInfo: std::fmt::Debug { fn pos(&self) -> Option<Pos>; fn text(&self) -> String; fn what(&self) -> String; }
impl ErrInfo for BerError<Input<'static>> {
    fn pos(&self) -> Option<Pos> { Some(pos_of(self.input())) }
    fn text(&self) -> String { format!("{self}") }
    fn what(&self) -> String { format!("{:?}", self.inner()) }
}
impl ErrInfo for Error { fn pos(&self) -> Option<Pos> { None } fn text(&self) -> String { format!("{self}") } fn what(&self) -> String { format!("{self:?}") } }
/// a custom error type, as declared with `#[error]`, which remembers the field whose `#[map_err]` it went through
#[derive(Debug)]
pub enum CErr { Ber(String, Pos), Old(String), Nom(String, Pos), Mapped(usize, Box<CErr>) }
impl CErr { pub fn at<const K: usize, E: Into<CErr>>(e: E) -> CErr { CErr::Mapped(K, Box::new(e.into())) } }
impl From<BerError<Input<'_>>> for CErr { fn from(e: BerError<Input>) -> Self { CErr::Ber(format!("{:?}", e.inner()), pos_of(e.input())) } }
impl From<Error> for CErr { fn from(e: Error) -> Self { CErr::Old(format!("{e:?}")) } }
impl<'a> asn1_rs::nom::error::ParseError<Input<'a>> for CErr { fn from_error_kind(i: Input<'a>, k: asn1_rs::nom::error::ErrorKind) -> Self { CErr::Nom(format!("{k:?}"), pos_of(&i)) } fn append(_: Input<'a>, _: asn1_rs::nom::error::ErrorKind, e: Self) -> Self { e } }
impl std::fmt::Display for CErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.what()) } }
impl ErrInfo for CErr {
    fn pos(&self) -> Option<Pos> { match self { CErr::Ber(_, p) | CErr::Nom(_, p) => Some(p.clone()), CErr::Old(_) => None, CErr::Mapped(_, e) => e.pos() } }
    fn text(&self) -> String { format!("{self:?}") }
    fn what(&self) -> String { match self { CErr::Ber(s, _) | CErr::Old(s) | CErr::Nom(s, _) => s.clone(), CErr::Mapped(k, e) => format!("Mapped({k}, {})", e.what()) } }
}
pub fn nerr<E: ErrInfo>(e: NErr<E>) -> ErrObs {
    match e {
        NErr::Incomplete(n) => ErrObs { kind: EKind::Incomplete, pos: None, text: String::new(), dbg: format!("Incomplete({n:?})") },
        NErr::Error(e) => ErrObs { kind: EKind::Error, pos: e.pos(), text: e.text(), dbg: e.what() },
        NErr::Failure(e) => ErrObs { kind: EKind::Failure, pos: e.pos(), text: e.text(), dbg: e.what() },
    }
}
pub fn perr<E: std::fmt::Debug>(e: E) -> ErrObs { ErrObs { kind: EKind::Error, pos: None, text: String::new(), dbg: format!("{e:?}") } }
pub enum Rem { I(Input<'static>), S(&'static [u8]) }
impl Rem {
    pub fn bytes(&self) -> &'static [u8] { match self { Rem::I(i) => i.as_bytes2(), Rem::S(s) => s } }
}
pub type Bx = Box<dyn Dyn>;
/// (value or None, remaining)
pub type ERes = Result<(Option<Bx>, Rem), ErrObs>;
#[derive(Clone, Copy)]
pub struct Entry { pub name: &'static str, pub der: bool, pub optional: bool,
    /// slice-based (FromBer/FromDer) or positioned (Input)
    pub slice: bool,
    pub run: fn(&'static [u8], usize) -> ERes }
fn at(b: &'static [u8], o: usize) -> Input<'static> { use nom::Input as _; Input::from(b).take_from(o) }
fn bx<T: 'static>(t: T) -> Option<Bx> { Some(Box::new(t)) }

fn e_parse_ber<T>(b: &'static [u8], o: usize) -> ERes where T: BerParser<'static> + 'static, T::Error: ErrInfo { T::parse_ber(at(b, o)).map(|(r, t)| (bx(t), Rem::I(r))).map_err(nerr) }
fn e_parse_der<T>(b: &'static [u8], o: usize) -> ERes where T: DerParser<'static> + 'static, T::Error: ErrInfo { T::parse_der(at(b, o)).map(|(r, t)| (bx(t), Rem::I(r))).map_err(nerr) }
fn e_parse_ber_opt<T>(b: &'static [u8], o: usize) -> ERes where T: BerParser<'static> + 'static, T::Error: ErrInfo { T::parse_ber_optional(at(b, o)).map(|(r, t)| (t.and_then(bx), Rem::I(r))).map_err(nerr) }
fn e_parse_der_opt<T>(b: &'static [u8], o: usize) -> ERes where T: DerParser<'static> + 'static, T::Error: ErrInfo { T::parse_der_optional(at(b, o)).map(|(r, t)| (t.and_then(bx), Rem::I(r))).map_err(nerr) }
fn e_input_ber<T>(b: &'static [u8], o: usize) -> ERes where T: BerParser<'static> + 'static, T::Error: ErrInfo {
    let (r, (h, d)) = T::parse_ber_as_input(at(b, o)).map_err(nerr)?;
    let (_, t) = T::from_ber_content(&h, d).map_err(nerr)?;
    Ok((bx(t), Rem::I(r)))
}
fn e_input_der<T>(b: &'static [u8], o: usize) -> ERes where T: DerParser<'static> + 'static, T::Error: ErrInfo {
    let (r, (h, d)) = T::parse_der_as_input(at(b, o)).map_err(nerr)?;
    let (_, t) = T::from_der_content(&h, d).map_err(nerr)?;
    Ok((bx(t), Rem::I(r)))
}
fn e_opt_parse_ber<T>(b: &'static [u8], o: usize) -> ERes where T: BerParser<'static> + 'static, T::Error: ErrInfo { <Option<T>>::parse_ber(at(b, o)).map(|(r, t)| (t.and_then(bx), Rem::I(r))).map_err(nerr) }
fn e_opt_parse_der<T>(b: &'static [u8], o: usize) -> ERes where T: DerParser<'static> + 'static, T::Error: ErrInfo { <Option<T>>::parse_der(at(b, o)).map(|(r, t)| (t.and_then(bx), Rem::I(r))).map_err(nerr) }
fn e_from_ber<T>(b: &'static [u8], o: usize) -> ERes where T: FromBer<'static, Error> + 'static { T::from_ber(&b[o..]).map(|(r, t)| (bx(t), Rem::S(r))).map_err(nerr) }
fn e_from_der<T>(b: &'static [u8], o: usize) -> ERes where T: FromDer<'static, Error> + 'static { T::from_der(&b[o..]).map(|(r, t)| (bx(t), Rem::S(r))).map_err(nerr) }
fn e_from_ber_c<T>(b: &'static [u8], o: usize) -> ERes where T: FromBer<'static, CErr> + 'static { T::from_ber(&b[o..]).map(|(r, t)| (bx(t), Rem::S(r))).map_err(nerr) }
fn e_from_der_c<T>(b: &'static [u8], o: usize) -> ERes where T: FromDer<'static, CErr> + 'static { T::from_der(&b[o..]).map(|(r, t)| (bx(t), Rem::S(r))).map_err(nerr) }
fn e_opt_from_ber<T>(b: &'static [u8], o: usize) -> ERes where T: FromBer<'static, Error> + DynTagged + 'static { <Option<T>>::from_ber(&b[o..]).map(|(r, t)| (t.and_then(bx), Rem::S(r))).map_err(nerr) }
fn e_opt_from_der<T>(b: &'static [u8], o: usize) -> ERes where T: FromDer<'static, Error> + DynTagged + 'static { <Option<T>>::from_der(&b[o..]).map(|(r, t)| (t.and_then(bx), Rem::S(r))).map_err(nerr) }
fn e_any_ber<T>(b: &'static [u8], o: usize) -> ERes where T: TryFrom<Any<'static>> + 'static, T::Error: std::fmt::Debug {
    let (r, a) = Any::parse_ber(at(b, o)).map_err(nerr)?;
    Ok((bx(T::try_from(a).map_err(perr)?), Rem::I(r)))
}
fn e_anyref_ber<T>(b: &'static [u8], o: usize) -> ERes where T: for<'b> TryFrom<&'b Any<'static>> + 'static {
    let (r, a) = Any::from_ber(&b[o..]).map_err(nerr)?;
    Ok((bx(T::try_from(&a).map_err(|_| perr("conversion failed"))?), Rem::S(r)))
}
fn e_any_der<T>(b: &'static [u8], o: usize) -> ERes where T: TryFrom<Any<'static>> + CheckDerConstraints + 'static, T::Error: std::fmt::Debug {
    let (r, a) = Any::parse_der(at(b, o)).map_err(nerr)?;
    T::check_constraints(&a).map_err(perr)?;
    Ok((bx(T::try_from(a).map_err(perr)?), Rem::I(r)))
}

// ------------------------------------------------------------------ writers
#[derive(Clone, Debug)]
pub struct ScriptWriter {
    pub out: Vec<u8>,
    /// sizes of successive accepted chunks, cycled; empty = accept everything
    pub chunks: Vec<usize>,
    /// return Interrupted before every n-th write
    pub interrupt: usize,
    /// fail once this many bytes have been accepted
    pub fail_at: Option<usize>,
    /// 0: Err(Other), 1: Ok(0), 2: Err(WouldBlock)
    pub fail_kind: u8,
    pub calls: usize,
    pub failed: bool,
}
impl ScriptWriter {
    pub fn plain() -> Self { ScriptWriter { out: Vec::new(), chunks: vec![], interrupt: 0, fail_at: None, fail_kind: 0, calls: 0, failed: false } }
}
impl Write for ScriptWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 { return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")); }
        let mut n = buf.len();
        if !self.chunks.is_empty() { n = n.min(self.chunks[self.calls % self.chunks.len()].max(1)); }
        if let Some(f) = self.fail_at {
            let room = f.saturating_sub(self.out.len());
            if room == 0 {
                self.failed = true;
                return match self.fail_kind { 0 => Err(io::Error::new(io::ErrorKind::Other, "injected")), 1 => Ok(0), _ => Err(io::Error::new(io::ErrorKind::WouldBlock, "injected")) };
            }
            n = n.min(room);
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub type WRes = Result<usize, String>;
/// what to write: 0 encode, 1 header, 2 content, 3 explicit, 4 implicit, 5 write_*
pub type EncW = fn(&dyn Dyn, u8, u8, u32, &mut ScriptWriter) -> WRes;
pub struct EncMeta { pub content: Option<usize>, pub total: Option<usize>, pub class: u8, pub cons: bool, pub tag: u32, pub vec: Result<Vec<u8>, String>,
    /// DER only: (to_der_len, to_der_vec_raw)
    pub extra: Option<(Result<usize, String>, Result<Vec<u8>, String>)> }
pub type EncM = fn(&dyn Dyn, bool) -> EncMeta;
#[derive(Clone, Copy)]
pub struct Enc { pub meta: EncM, pub w: EncW, pub w_ref: EncW }
fn cl(c: u8) -> Class { Class::try_from(c).unwrap() }
fn ln(l: Length) -> Option<usize> { match l { Length::Definite(n) => Some(n), Length::Indefinite => None } }
fn es<T>(r: SerializeResult<T>) -> Result<T, String> { r.map_err(|e| format!("{e:?}")) }
fn g<T: 'static>(x: &dyn Dyn) -> &T { x.downcast_ref::<T>().expect("type") }
fn ber_w<T: ToBer>(t: &T, what: u8, c: u8, n: u32, w: &mut ScriptWriter) -> WRes {
    es(match what { 0 => t.ber_encode(w), 1 => t.ber_write_header(w), 2 => t.ber_write_content(w), 3 => t.ber_encode_tagged_explicit(cl(c), n, w), 4 => t.ber_encode_tagged_implicit(cl(c), n, w), _ => t.write_ber(w) })
}
fn der_w<T: ToDer>(t: &T, what: u8, c: u8, n: u32, w: &mut ScriptWriter) -> WRes {
    es(match what { 0 => t.der_encode(w), 1 => t.der_write_header(w), 2 => t.der_write_content(w), 3 => t.der_encode_tagged_explicit(cl(c), n, w), 4 => t.der_encode_tagged_implicit(cl(c), n, w), _ => t.write_der(w) })
}
fn ber_meta<T: ToBer>(t: &T) -> EncMeta {
    let (c, k, tag) = t.ber_tag_info();
    EncMeta { content: ln(t.ber_content_len()), total: ln(t.ber_total_len()), class: c as u8, cons: k, tag: tag.0, vec: es(t.to_ber_vec()), extra: None }
}
#[allow(deprecated)]
fn der_meta<T: ToDer>(t: &T) -> EncMeta {
    let (c, k, tag) = t.der_tag_info();
    EncMeta { content: ln(t.der_content_len()), total: ln(t.der_total_len()), class: c as u8, cons: k, tag: tag.0, vec: es(t.to_der_vec()), extra: Some((t.to_der_len().map_err(|e| format!("{e:?}")), es(t.to_der_vec_raw()))) }
}

// ------------------------------------------------------------------ the table
pub trait LibTy: Sized + 'static { fn kind() -> Kind; fn val(&self) -> Val; fn build(v: &Val) -> Option<Self>; }
pub struct Ops {
    pub name: &'static str,
    pub kind: Kind,
    pub val: fn(&dyn Dyn) -> Val,
    pub build: fn(&Val) -> Option<Bx>,
    pub entries: Vec<Entry>,
    pub ber: Option<Enc>,
    pub der: Option<Enc>,
    pub to_static: Option<fn(&dyn Dyn) -> Bx>,
    pub eq: Option<fn(&dyn Dyn, &dyn Dyn) -> bool>,
    pub hash: Option<fn(&dyn Dyn) -> u64>,
    pub cmp: Option<fn(&dyn Dyn, &dyn Dyn) -> std::cmp::Ordering>,
    pub pcmp: Option<fn(&dyn Dyn, &dyn Dyn) -> Option<std::cmp::Ordering>>,
    pub clone: Option<fn(&dyn Dyn) -> Bx>,
    pub debug: Option<fn(&dyn Dyn) -> String>,
    pub display: Option<fn(&dyn Dyn) -> String>,
    pub tagged: Option<fn(&dyn Dyn) -> (u8, bool, u32)>,
}
pub struct W<T>(pub PhantomData<T>);
pub mod yes {
    use super::*;
    fn en(name: &'static str, der: bool, optional: bool, slice: bool, run: fn(&'static [u8], usize) -> ERes) -> Entry { Entry { name, der, optional, slice, run } }
    // The trait is implemented for `W<T>` under the bound and, one auto-reference further, for every `&W<T>`.
    macro_rules! two {
        ($y:ident, $n:ident, $m:ident, $ret:ty, [$($b:tt)*], $t:ident => $body:expr, $no:expr) => {
            pub trait $y { fn $m(&self) -> $ret; }
            impl<$t: 'static> $y for W<$t> where $($b)* { fn $m(&self) -> $ret { $body } }
            pub trait $n { fn $m(&self) -> $ret; }
            impl<$t: 'static> $n for &W<$t> { fn $m(&self) -> $ret { $no } }
        };
    }
    two!(YB, NB, p_ber, Vec<Entry>, [T: BerParser<'static>, T::Error: ErrInfo], T => vec![
        en("parse_ber", false, false, false, e_parse_ber::<T>), en("parse_ber_optional", false, true, false, e_parse_ber_opt::<T>), en("parse_ber_as_input+content", false, false, false, e_input_ber::<T>)], vec![]);
    two!(YB2, NB2, p_ber_o, Vec<Entry>, [T: BerParser<'static>, T::Error: ErrInfo], T => vec![en("Option::parse_ber", false, true, false, e_opt_parse_ber::<T>)], vec![]);
    two!(YD, ND, p_der, Vec<Entry>, [T: DerParser<'static>, T::Error: ErrInfo], T => vec![
        en("parse_der", true, false, false, e_parse_der::<T>), en("parse_der_optional", true, true, false, e_parse_der_opt::<T>), en("parse_der_as_input+content", true, false, false, e_input_der::<T>)], vec![]);
    two!(YD2, ND2, p_der_o, Vec<Entry>, [T: DerParser<'static>, T::Error: ErrInfo], T => vec![en("Option::parse_der", true, true, false, e_opt_parse_der::<T>)], vec![]);
    two!(YFB, NFB, f_ber, Vec<Entry>, [T: FromBer<'static, Error>], T => vec![en("from_ber", false, false, true, e_from_ber::<T>)], vec![]);
    two!(YFD, NFD, f_der, Vec<Entry>, [T: FromDer<'static, Error>], T => vec![en("from_der", true, false, true, e_from_der::<T>)], vec![]);
    two!(YFBC, NFBC, f_ber_c, Vec<Entry>, [T: FromBer<'static, CErr>], T => vec![en("from_ber", false, false, true, e_from_ber_c::<T>)], vec![]);
    two!(YFDC, NFDC, f_der_c, Vec<Entry>, [T: FromDer<'static, CErr>], T => vec![en("from_der", true, false, true, e_from_der_c::<T>)], vec![]);
    two!(YOB, NOB, o_ber, Vec<Entry>, [T: FromBer<'static, Error> + DynTagged], T => vec![en("Option::from_ber", false, true, true, e_opt_from_ber::<T>)], vec![]);
    two!(YOD, NOD, o_der, Vec<Entry>, [T: FromDer<'static, Error> + DynTagged], T => vec![en("Option::from_der", true, true, true, e_opt_from_der::<T>)], vec![]);
    two!(YAB, NAB, a_ber, Vec<Entry>, [T: TryFrom<Any<'static>>, T::Error: std::fmt::Debug], T => vec![en("Any+TryFrom", false, false, false, e_any_ber::<T>)], vec![]);
    two!(YAR, NAR, r_ber, Vec<Entry>, [T: for<'b> TryFrom<&'b Any<'static>>], T => vec![en("&Any+TryFrom", false, false, true, e_anyref_ber::<T>)], vec![]);
    two!(YAD, NAD, a_der, Vec<Entry>, [T: TryFrom<Any<'static>> + CheckDerConstraints, T::Error: std::fmt::Debug], T => vec![en("Any+check+TryFrom", true, false, false, e_any_der::<T>)], vec![]);
    two!(YEB, NEB, enc_ber, Option<Enc>, [T: ToBer], T => Some(Enc { meta: |x, r| if r { ber_meta(&g::<T>(x)) } else { ber_meta(g::<T>(x)) }, w: |x, a, c, n, w| ber_w(g::<T>(x), a, c, n, w), w_ref: |x, a, c, n, w| ber_w(&g::<T>(x), a, c, n, w) }), None);
    two!(YED, NED, enc_der, Option<Enc>, [T: ToDer], T => Some(Enc { meta: |x, r| if r { der_meta(&g::<T>(x)) } else { der_meta(g::<T>(x)) }, w: |x, a, c, n, w| der_w(g::<T>(x), a, c, n, w), w_ref: |x, a, c, n, w| der_w(&g::<T>(x), a, c, n, w) }), None);
    two!(YST, NST, st, Option<fn(&dyn Dyn) -> Bx>, [T: ToStatic<Owned = T>], T => Some(|x| Box::new(g::<T>(x).to_static())), None);
    two!(YEQ, NEQ, eq, Option<fn(&dyn Dyn, &dyn Dyn) -> bool>, [T: PartialEq], T => Some(|a, b| g::<T>(a) == g::<T>(b)), None);
    two!(YHA, NHA, hash, Option<fn(&dyn Dyn) -> u64>, [T: Hash], T => Some(|a| { let mut h = std::collections::hash_map::DefaultHasher::new(); g::<T>(a).hash(&mut h); h.finish() }), None);
    two!(YCM, NCM, cmp, Option<fn(&dyn Dyn, &dyn Dyn) -> std::cmp::Ordering>, [T: Ord], T => Some(|a, b| g::<T>(a).cmp(g::<T>(b))), None);
    two!(YPC, NPC, pcmp, Option<fn(&dyn Dyn, &dyn Dyn) -> Option<std::cmp::Ordering>>, [T: PartialOrd], T => Some(|a, b| g::<T>(a).partial_cmp(g::<T>(b))), None);
    two!(YCL, NCL, cln, Option<fn(&dyn Dyn) -> Bx>, [T: Clone], T => Some(|a| Box::new(g::<T>(a).clone())), None);
    two!(YDB, NDB, dbg, Option<fn(&dyn Dyn) -> String>, [T: std::fmt::Debug], T => Some(|a| format!("{:?}", g::<T>(a))), None);
    two!(YDI, NDI, dis, Option<fn(&dyn Dyn) -> String>, [T: std::fmt::Display], T => Some(|a| format!("{}", g::<T>(a))), None);
    two!(YDT, NDT, dtag, Option<fn(&dyn Dyn) -> (u8, bool, u32)>, [T: DynTagged], T => Some(|a| { let t = g::<T>(a); (t.class() as u8, t.constructed(), t.tag().0) }), None);
}
#[macro_export]
macro_rules! ops {
    ($name:expr, $t:ty) => { $crate::ops!(@ $name, $t, true) };
    ($name:expr, $t:ty, noopt) => { $crate::ops!(@ $name, $t, false) };
    (@ $name:expr, $t:ty, $opt:expr) => {{
        #[allow(unused_imports)]
        use $crate::obs::yes::*;
        let w = $crate::obs::W::<$t>(std::marker::PhantomData);
        #[allow(unused_mut)]
        let mut entries: Vec<$crate::obs::Entry> = Vec::new();
        entries.extend((&w).p_ber()); entries.extend((&w).p_der());
        // types with a custom error type come with that error only
        for (x, c) in [((&w).f_ber(), (&w).f_ber_c()), ((&w).f_der(), (&w).f_der_c())] { if x.is_empty() { entries.extend(c) } else { entries.extend(x) } }
        entries.extend((&w).a_ber()); entries.extend((&w).r_ber()); entries.extend((&w).a_der());
        if $opt { entries.extend((&w).p_ber_o()); entries.extend((&w).p_der_o()); entries.extend((&w).o_ber()); entries.extend((&w).o_der()); }
        // the raw-input form needs a header: it has no notion of an absent element
        if matches!(<$t as $crate::obs::LibTy>::kind(), $crate::model::Kind::Opt(_) | $crate::model::Kind::Def(..)) { entries.retain(|e| !e.name.contains("as_input")); }
        $crate::obs::Ops {
            name: $name, kind: <$t as $crate::obs::LibTy>::kind(),
            val: |x| <$t as $crate::obs::LibTy>::val(x.downcast_ref::<$t>().expect("type")),
            build: |v| <$t as $crate::obs::LibTy>::build(v).map(|t| Box::new(t) as $crate::obs::Bx),
            entries, ber: (&w).enc_ber(), der: (&w).enc_der(), to_static: (&w).st(), eq: (&w).eq(), hash: (&w).hash(), cmp: (&w).cmp(), pcmp: (&w).pcmp(),
            clone: (&w).cln(), debug: (&w).dbg(), display: (&w).dis(), tagged: (&w).dtag(),
        }
    }};
}
