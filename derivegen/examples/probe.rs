//! Literals and declarations that must be refused, compiled by the C29 check (which expects the errors).
#![allow(warnings)]
use asn1_rs::*;
include!(concat!(env!("OUT_DIR"), "/g_probe.rs"));
fn main() {}
