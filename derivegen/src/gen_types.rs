//! The generated declarations.
#![allow(unused_imports, dead_code, non_snake_case, unused_variables, clippy::all)]
use asn1_rs::*;
use std::collections::BTreeSet;
use vh::model::{Kind, Val};
use vh::obs::{CErr, LibTy, Ops};
fn tg(class: u8, tag: u32, explicit: bool, inner: Kind) -> Kind { Kind::Tagged { class, tag, explicit, inner: Box::new(inner) } }
fn opt(k: Kind) -> Kind { Kind::Opt(Box::new(k)) }
fn def(k: Kind, v: Val) -> Kind { Kind::Def(Box::new(k), Box::new(v)) }
fn parse_field<'a, T>(i: Input<'a>) -> nom::IResult<Input<'a>, T, BerError<Input<'a>>> where T: DerParser<'a, Error = BerError<Input<'a>>> { T::parse_der(i) }
fn map_ber<'a>(e: BerError<Input<'a>>) -> BerError<Input<'a>> { BerError::new(e.input().clone(), InnerError::Unsupported) }
include!(concat!(env!("OUT_DIR"), "/g_types.rs"));
