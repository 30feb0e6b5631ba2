//! The property table of the main harness.
use crate::engine::*;
use crate::generic as g;
use crate::spec as sp;
use crate::spec2 as s2;
use crate::spec3 as s3;
use crate::types::registry;
pub fn pf(id: &'static str, case: fn(&mut Src) -> Outcome, fixed: fn(&mut Fixed), quick: u64, thorough: u64, rule: &'static str) -> Prop { Prop { id, case, quick, thorough, rule, level: "exploration", fixed: Some(fixed) } }
pub fn p(id: &'static str, case: fn(&mut Src) -> Outcome, quick: u64, thorough: u64, rule: &'static str) -> Prop { Prop { id, case, quick, thorough, rule, level: "exploration", fixed: None } }
pub const GEN: &str = "inputs are drawn per type from: valid DER, random BER rewrites, boundary contents, structure-aware mutations, byte mutations, other types' encodings, random elements, hostile headers; ";
pub fn props() -> Vec<Prop> {
    vec![
        p("C01", |s| g::c01(s, registry), 1_200_000, 30_000_000, "one case = one input decoded through every entry point of one type, decoded values exercised (print, compare, copy, re-encode); non-trivial: at least 3 octets; distinct by (type, bytes)"),
        p("C02", |s| g::c02(s, registry), 900_000, 20_000_000, "one case = one input, every entry point, re-run with another suffix and up to 4 truncations; non-trivial: accepted with bytes left over; distinct by (type, bytes)"),
        pf("C03", sp::c03, sp::c03_fixed, 6_000_000, 100_000_000, "one case = header octets (all tag and length forms, damaged or cut) read through every header entry point and content reader, or header fields written by every header writer; non-trivial: all decodes, encodes other than a zero-length low tag; distinct by bytes or fields"),
        pf("C04", |s| g::c04(s, registry), |f| g::long_fixed(f, registry, g::roundtrips), 1_500_000, 40_000_000, "one case = one generated value encoded (BER, DER) and decoded through every entry point; non-trivial: not null/boolean/empty; distinct by value"),
        pf("C05", |s| g::c05(s, registry), |f| g::long_fixed(f, registry, g::encode_agrees), 1_500_000, 40_000_000, "one case = one value (built, or decoded from BER), all encoding entry points of the value and of a reference to it; non-trivial: more than 2 octets; distinct by value"),
        p("C06", |s| g::c06(s, registry), 2_000_000, 60_000_000, "one case = one input decoded by every DER entry point and re-encoded; non-trivial: accepted with shortest-form headers; distinct by (type, bytes)"),
        p("C07", |s| g::c07(s, registry), 2_000_000, 60_000_000, "one case = one input decoded by every DER entry point and by the reference model; non-trivial: the model decides (accept with value, or reject); distinct by (type, bytes)"),
        p("C08", |s| g::c08(s, registry), 1_500_000, 40_000_000, "one case = one input, every DER entry point against every BER entry point; non-trivial: accepted as DER; distinct by (type, bytes)"),
        p("C09", |s| g::c09(s, registry), 1_500_000, 40_000_000, "one case = one input, all BER entry points against each other and all DER entry points against each other; non-trivial: accepted; distinct by (type, bytes)"),
        pf("C10", sp::c10, sp::c10_fixed, 4_000_000, 50_000_000, "one case = INTEGER/ENUMERATED element through every entry point of one integer type, or contents octets through every accessor and conversion; non-trivial: model decides, or more than one octet; distinct by (type, bytes)"),
        pf("C11", sp::c11, sp::c11_fixed, 3_000_000, 60_000_000, "one case = an arc sequence built, encoded, decoded, printed, iterated; dotted text; a pair of prefixes; or octets through the OID and relative-OID entry points; non-trivial: at least 2 arcs, or octets the model decides; distinct by arcs or bytes"),
        pf("C12", s2::c12, s2::c12_fixed, 2_500_000, 60_000_000, "one case = octets through every entry point of one string type, a text through every type whose set contains it, character set tests, or a segmented string; non-trivial: model decides, or text not empty; distinct by (type, bytes)"),
        pf("C13", s2::c13, s2::c13_fixed, 1_500_000, 40_000_000, "one case = octets through every entry point of a bit/octet string type, or bits/octets held in every possible way, reported, changed, encoded; non-trivial: model decides, or not empty; distinct by (type, bytes)"),
        pf("C14", s2::c14, s2::c14_fixed, 3_000_000, 80_000_000, "one case = octets through every entry point of a time type, a time text, or a calendar time with any offset converted and encoded; non-trivial: model decides; distinct by (type, bytes)"),
        pf("C15", s2::c15, s2::c15_fixed, 2_000_000, 50_000_000, "one case = REAL contents through every entry point of Real, f32 and f64, a number held and encoded in every way, or mantissa/exponent/base written in binary or decimal; non-trivial: model decides, number not zero; distinct by (type, bytes)"),
        p("C16", |s| g::c16(s, registry), 1_500_000, 40_000_000, "one case = one value, its DER form and a random meaning-preserving BER rewrite (long/padded/indefinite lengths, segmentation) through every BER entry point; non-trivial: the rewrite differs from the DER form; distinct by bytes"),
        pf("C17", s3::c17, s3::c17_fixed, 400_000, 10_000_000, "one case = one element with random nesting of definite and indefinite lengths read under several depth limits and through the default readers, a segmented string of random nesting, or many nested/unterminated shapes; non-trivial: nested; distinct by bytes"),
        pf("C18", s3::c18, s3::c18_fixed, 3_000_000, 60_000_000, "one case = one element against every tagged reader and wrapper for a random class, tag and inner type, one value through every tagged writer, or octets through the tagged types of the registry; non-trivial: model decides; distinct by (type, bytes)"),
        p("C19", s3::c19, 4_000_000, 80_000_000, "one case = octets (present, absent, malformed, empty) through every optional reader of one type, plain and tagged, or a present/absent value through every writer; non-trivial: model decides; distinct by (type, bytes)"),
        p("C22", s3::c22, 1_500_000, 30_000_000, "one case = one SEQUENCE or SET through every container, generic view and iterator, a list under random operations, or octets through the container types of the registry; non-trivial: model decides; distinct by (type, bytes)"),
        p("C23", s3::c23, 700_000, 15_000_000, "one case = one multiset of elements in two orders through every set collection and writer, decoded back; non-trivial: at least two elements; distinct by elements"),
        p("C24", |s| g::c24(s, registry), 500_000, 12_000_000, "one case = one value written through every encoding entry point with a random short-write/interrupt schedule and one failure point; non-trivial: at least 2 octets and a fault or short write; distinct by value"),
        p("C25", |s| g::c25(s, registry), 600_000, 15_000_000, "one case = one input decoded by every entry point and copied to its owned form; non-trivial: value not null/boolean/empty; distinct by (type, bytes)"),
        p("C26", |s| g::c26(s, registry), 700_000, 20_000_000, "one case = a pool of up to a dozen values of one type (built, decoded from rewrites and near misses, clones, owned copies), all pairs and triples; non-trivial: at least 2 values; distinct by inputs"),
        p("C27", |s| g::c27(s, registry), 1_500_000, 40_000_000, "one case = one input at a random offset of a larger buffer; positions of remaining input, errors, headers and iterator items checked against the buffer; non-trivial: offset > 0 or an error; distinct by (type, bytes)"),
        pf("C28", |s| crate::diff::c28(s, registry), crate::diff::c28_fixed, 100_000, 8_000_000, "one case = one input through every entry point (values, printing, owned copies, encodings, failing writers), accessors and callbacks, or a built value through every encoder; run in the build without logging features and in three configurations with them, observations compared; non-trivial: something decoded or built; distinct by (type, bytes)"),
    ]
}
