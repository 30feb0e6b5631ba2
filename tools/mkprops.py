#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "src/asn1_types/"
prop("C01", "Parsing arbitrary bytes never panics, aborts or runs away",
 "Decoding any byte string as any supported type, in BER or DER, through any decoding entry point, returns a value or an error: it never panics, overflows the stack, overflows arithmetic or fails to terminate. The same holds for using what was decoded: printing it, converting it, iterating over it, comparing, copying or re-encoding it.",
 ["inputs"], "every byte string (random, mutated valid encodings, hostile headers, truncated, deeply nested) x every type x {BER, DER} x {input API, slice API, generic-element conversions, iterators, tagged helpers, derived types} and follow-up calls on every decoded value",
 "unit tests feed a few hundred hand-written encodings; the claim is over all byte strings and every follow-up operation, and overflow checks only fire on values the samples do not contain",
 ["src/header.rs","src/ber/parser.rs","src/from_ber.rs","src/from_der.rs",T+"*.rs","derive/src/*.rs"],
 [("length and tag readers bound-check every read","src/header.rs parse_header"),("content extraction with bounded recursion","src/ber/parser.rs"),("per-type content decoders",T)],
 ["return value / unwinding / process exit of each public decoding function"])
prop("C02", "A parser consumes exactly one element and nothing else",
 "When decoding succeeds, the bytes reported as remaining are exactly the input after one complete element (identifier, length and contents, including the end-of-contents octets for indefinite length). Bytes after the element never change the decoded value or the amount consumed, and no strict prefix of the consumed element decodes successfully.",
 ["inputs"], "all accepted inputs for every type and mode, all appended suffixes, all truncation points",
 "tests assert an empty remainder on fixed encodings; independence from arbitrary suffixes and failure at every truncation point is a universally quantified relation between runs",
 ["src/ber/parser.rs","src/header.rs","src/from_ber.rs","src/from_der.rs",T+"any.rs","src/input.rs"],
 [("content split",  "src/ber/parser.rs get_object_content"),("streaming take","src/header.rs")],
 ["(remaining, value) returned by parse functions"])
prop("C03", "Identifier and length octets are decoded and encoded exactly",
 "Decoding the header of an element yields exactly the class, constructed bit, tag number and length its octets denote, for short and long tag forms and short, long and indefinite length forms, and rejects headers that are truncated, use a reserved length form, are indefinite on a primitive element, or do not fit the representable range. Encoding a header writes the shortest form octets for its fields, and decoding those gives the same fields back; DER never accepts an indefinite length.",
 ["inputs"], "all header byte strings and all (class, constructed, tag number, length) combinations",
 "the space of headers is 2^100+; tests sample a few short ones and never cross most of the length-of-length and tag-width boundaries",
 ["src/header.rs","src/length.rs","src/tag.rs","src/class.rs","src/to_ber/generic.rs","src/to_ber.rs"],
 [("header decoder","src/header.rs parse_header"),("header encoder","src/to_ber/encoder.rs, generic.rs"),("length helpers","src/to_ber.rs ber_header_length")],
 ["Header accessors, bytes produced by header encoding"])
prop("C04", "Encoding a value and decoding it back gives the same value",
 "For every type that can be both encoded and decoded, encoding any representable value in BER or DER succeeds and decoding those bytes with the same rules yields an equal value with nothing left over.",
 ["inputs"], "every value of every encodable type (scalars, strings, times, reals, OIDs, bit strings, collections, nested and tagged values) x {BER, DER}",
 "round trips are tested on a handful of literals per type; boundary lengths, non-ASCII text, extreme numbers, sub-second times and nested containers are not",
 ["src/to_ber.rs","src/to_der.rs","src/to_ber/*.rs",T+"*.rs"],
 [("content writers","ber_write_content / der_write_content of each type"),("content decoders","from_ber_content / from_der_content of each type")],
 ["encoder output bytes, decoder result"])
prop("C05", "Announced lengths always match the bytes actually written",
 "For any value, the announced content length and total length equal the number of bytes the encoder writes, and every encoding function returns exactly the number of bytes it wrote. The output of any encoding entry point is one well-formed element whose header matches the value's announced class, tag and constructed bit, and all entry points (vector, writer, explicit or implicit re-tagging) agree.",
 ["inputs"], "every value of every encodable type, content sizes across all length-form boundaries up to 16 MiB+, x {BER, DER} x every encoding entry point",
 "tests compare complete encodings of small literals, so the length prediction code is only exercised in short form",
 ["src/to_ber.rs","src/to_der.rs","src/length.rs","src/to_ber/*.rs",T+"*.rs","derive/src/container.rs"],
 [("length prediction","ber_content_len/der_content_len, ber_header_length"),("generic encoder","src/to_ber/generic.rs")],
 ["return values of *_content_len, *_total_len, *_write_*, *_encode*, output bytes"])
prop("C06", "Re-encoding a decoded DER element reproduces its bytes",
 "If an element with minimal header octets (sets: elements in ascending order; REAL: normalised base-2 form that a double holds exactly) is accepted by the DER decoder of a type, re-encoding the decoded value in DER yields the identical bytes, so distinct accepted encodings always decode to distinct values. This holds for all types that can be decoded and re-encoded, including nested ones.",
 ["inputs"], "all byte strings accepted by DER decoders with shortest-form headers, for every re-encodable type",
 "tests round-trip values, not inputs: whether some odd input is accepted and then normalised differently cannot be settled by samples",
 [T+"*.rs","src/from_der.rs","src/to_der.rs"],
 [("DER content checks","from_der_content of each type, CheckDerConstraints"),("DER writers","der_write_content")],
 ["decoder acceptance, encoder bytes"])
prop("C07", "DER decoders enforce the DER restrictions and accept all valid DER",
 "DER decoding rejects every encoding that violates a DER restriction of the type: indefinite lengths, constructed string types, booleans other than 00/FF, non-minimal or empty integers, non-empty NULL, bit strings with non-zero unused bits or an impossible unused count. It accepts every encoding that satisfies them, with the value the content denotes, and it rejects elements of a different type or of the wrong primitive/constructed form.",
 ["inputs"], "all contents and headers for every primitive type, compared with an independently written reference decoder",
 "negative tests exist for one or two bad encodings per type; the accept/reject boundary is a predicate over all contents",
 ["src/from_der.rs",T+"boolean.rs",T+"integer.rs",T+"bitstring.rs",T+"octetstring.rs",T+"null.rs",T+"enumerated.rs",T+"strings/*.rs"],
 [("DER constraints","CheckDerConstraints implementations"),("content decoders","from_der_content")],
 ["accept/reject and decoded value"])
prop("C08", "Everything valid as DER is read identically as BER",
 "Any element accepted by the DER decoder of a type is also accepted by the BER decoder of that type, with an equal value and the same bytes remaining.",
 ["inputs"], "all byte strings accepted by a DER decoder, for every type and entry point",
 "the two decoders are separate code paths per type; tests check each on separate samples",
 ["src/from_ber.rs","src/from_der.rs",T+"*.rs"],
 [("two decoder implementations per type","from_ber_content vs from_der_content")],
 ["(remaining, value) of both decoders"])
prop("C09", "All ways of decoding the same bytes agree",
 "For the same bytes and rules, decoding through positioned inputs, plain slices, a generic element followed by conversion, the optional form, and the raw-input form all agree on acceptance, on the decoded value and on the bytes consumed.",
 ["inputs"], "all byte strings x every type x every pair of decoding entry points",
 "each entry point is a separately written or macro-generated path; tests exercise mostly one of them per type",
 ["src/from_ber.rs","src/from_der.rs",T+"any.rs",T+"optional.rs","src/input.rs"],
 [("slice wrappers","wrap_ber_parser and blanket FromBer/FromDer"),("generic element conversions",T+"any.rs")],
 ["results of the different entry points"])
prop("C10", "Integers decode and encode exactly; out-of-range is an error",
 "Decoding an INTEGER or ENUMERATED gives exactly the two's-complement value of its contents when that value fits the requested integer type, and an error otherwise: never a truncated, wrapped or sign-changed value. Encoding writes the shortest two's-complement contents of the value, and every arbitrary-precision accessor or conversion agrees with it.",
 ["inputs"], "all content byte strings (up to tens of bytes) x all fixed-width integer types and the arbitrary-precision type, all integer values x {BER, DER}",
 "tests pin a few boundary values per width; sign-extension and padding bugs show only for particular width/content-length combinations",
 [T+"integer.rs",T+"enumerated.rs","src/const_int.rs","impl/src/lib.rs"],
 [("array decoders","decode_array_uintN/intN"),("trimming on encode","integer.rs to_ber/to_der")],
 ["decoded value, encoded bytes, conversion results"])
prop("C11", "Object identifiers keep exactly their arcs",
 "Building an OID from arcs or from dotted text, encoding, decoding, printing and iterating always preserve exactly the given sequence of arcs, for every first arc, second arc and arc size the OID type accepts; arcs it cannot represent are rejected, never altered. Prefix tests, relative OIDs and reported arc counts agree with the arc sequence.",
 ["inputs"], "all arc sequences (arcs up to 2^64-1 and beyond, every first/second arc), all content byte strings, x {BER, DER, text, iterator, prefix test}",
 "tests use well-known OIDs, nearly all with small arcs under 1.2 and 2.5",
 [T+"oid.rs","impl/src/lib.rs"],
 [("base-128 writer/reader",T+"oid.rs encode_relative / SubIdentifierIterator"),("first two arcs packing",T+"oid.rs")],
 ["Oid constructors, to_string, iter, encoders/decoders"])
prop("C12", "Character strings respect their character set and keep their text",
 "Decoding a character string type accepts exactly the contents that belong to that type's character set and encoding, and returns exactly the text they denote; everything else is an error. Encoding any text of the set and decoding it again returns the same text, including the two-byte and four-byte string types.",
 ["inputs"], "all contents (every byte value, every code point, odd lengths, surrogates, segmented BER forms) for all character string types x {BER, DER}",
 "tests use one ASCII literal per type and almost no non-ASCII, odd-length or segmented contents",
 [T+"strings.rs",T+"strings/*.rs",T+"object_descriptor.rs"],
 [("charset checks","TestValidCharset implementations"),("transcoding","bmpstring.rs, universalstring.rs")],
 ["decoded text / error, encoded bytes"])
prop("C13", "Bit strings and octet strings keep exactly their bits and bytes",
 "A BIT STRING value built from bits, bytes or a bit slice reports exactly those bits, encodes them with the right unused-bit count and zero padding, and decodes to the same bits; an OCTET STRING keeps exactly its bytes. Segmented BER forms decode to the concatenation of their segments. A bit string cannot be built with more than 7 unused bits or more unused bits than it has.",
 ["inputs"], "all bit sequences and byte strings (every length mod 8, unaligned slices, empty), all segmentations, x {BER, DER}",
 "tests use two or three aligned literals",
 [T+"bitstring.rs",T+"octetstring.rs","src/ber/appendable.rs","src/ber/mod.rs"],
 [("unused bits handling",T+"bitstring.rs"),("segment reassembly","src/ber/mod.rs, appendable.rs")],
 ["bits/bytes accessors, encoded bytes"])
prop("C14", "Times decode to the instant they denote and survive re-encoding",
 "Decoding a UTCTime or GeneralizedTime yields exactly the calendar fields, fraction and zone offset written in it; contents that are not a valid time (impossible date or time field, malformed fraction or offset, stray bytes) are rejected. Encoding a time value writes well-formed contents denoting the same instant, and conversion to calendar date-times agrees with the fields. The printed form shows the same date, time, fraction and zone.",
 ["inputs"], "all time strings (grammar-generated valid and near-valid) and all representable time values, x {BER, DER}",
 "tests pin about ten literals; leap days, every fraction width, offsets and field boundaries are not covered",
 [T+"utctime.rs",T+"generalizedtime.rs","src/datetime.rs"],
 [("field decoders","src/datetime.rs decode_decimal"),("date validation","src/datetime.rs"),("writers",T+"utctime.rs, generalizedtime.rs")],
 ["ASN1DateTime fields, utc_datetime, encoded bytes"])
prop("C15", "REAL values decode to the number they denote and round-trip",
 "Decoding a REAL yields the number its contents denote in every supported form (special values, binary with any base, scale factor, sign and exponent form, and decimal text), rounded to the nearest double where needed, and rejects malformed contents. Encoding any finite or special value whose exponent fits 32 bits and decoding it gives the same number back.",
 ["inputs"], "all REAL contents in binary and decimal forms, all floating-point values, x {BER, DER}",
 "tests cover a dozen literals; exponent widths, scale factors, bases 8/16 and extreme exponents are a large product space",
 [T+"real.rs",T+"real/*.rs"],
 [("binary form decoder",T+"real.rs"),("f32/f64 codecs",T+"real/")],
 ["Real value as f64, encoded bytes"])
prop("C16", "Equivalent BER encodings of one value decode to the same value",
 "Rewriting a valid encoding without changing its meaning, by using longer length forms, indefinite lengths on constructed elements at any depth, or segmenting string types, changes neither acceptance by the BER decoder nor the decoded value; only the element's own encoding form may be reflected.",
 ["inputs"], "all values of all types x all meaning-preserving rewrites of their encodings (within the documented segmentation and nesting limits)",
 "requires a metamorphic relation over a space of rewrites; tests include a few literal indefinite encodings",
 ["src/ber/parser.rs","src/ber/mod.rs","src/from_ber.rs",T+"sequence/*.rs",T+"set/*.rs",T+"optional.rs"],
 [("indefinite content extraction","src/ber/parser.rs ber_skip_object_content"),("segment reassembly","src/ber/mod.rs")],
 ["decoded value"])
prop("C17", "Nesting is bounded: too deep is an error, never a crash",
 "Indefinite-length nesting up to the documented limits decodes, deeper nesting is rejected with an error, and neither nesting depth nor input size can exhaust the stack or make decoding take more than time proportional to a small power of the input size. End-of-contents octets terminate exactly the element they belong to.",
 ["inputs"], "all nesting depths (0..100000) and shapes of definite/indefinite mixes, all placements of end-of-contents and of look-alike elements",
 "tests have one or two recursion examples at a fixed depth",
 ["src/ber/parser.rs","src/ber/mod.rs",T+"any.rs"],
 [("recursion limit","src/ber/parser.rs MAX_RECURSION"),("EOC detection","src/ber/parser.rs ber_skip_object_content")],
 ["accept/reject, content extent"])
prop("C18", "Tagged types wrap and unwrap exactly their tag",
 "An explicitly or implicitly tagged value (any class and tag number) encodes as that tag around, or in place of, the inner value's encoding, and decodes to the same inner value only when class, tag and constructed form match. Tagged helpers, builders and generic wrappers agree with each other and with the plain inner type.",
 ["inputs"], "all inner types and values x all classes and tag numbers x {explicit, implicit} x {BER, DER} x all helper entry points; all mismatching headers",
 "tests use tag 0..3 with integers; tag widths, classes, constructed inner types and mismatches form a product space",
 [T+"tagged.rs",T+"tagged/*.rs","src/to_ber.rs","src/to_der.rs"],
 [("tag checks",T+"tagged/explicit.rs, implicit.rs, parser.rs"),("re-tagging encoders","*_encode_tagged_explicit/implicit")],
 ["decoded inner value or error, encoded bytes"])
prop("C19", "Optional elements are taken when present and left alone when absent",
 "Decoding an optional element returns the value exactly when the next element carries its tag, returns none without consuming anything when input is empty or the next element has another tag, and reports an error when the element is present but malformed. Encoding an absent value writes nothing and announces length zero; a present value encodes as if it were not optional.",
 ["inputs"], "all inputs x all optional types (plain, tagged, nested containers) x {BER, DER} x {plain optional, tagged optional, optional helper}",
 "tests cover one integer present/absent; the distinction absent/malformed/present over all inputs is not sampled",
 [T+"optional.rs",T+"tagged/optional.rs","src/from_ber.rs","src/from_der.rs"],
 [("optional decoders",T+"optional.rs, parse_*_optional"),("optional encoders",T+"optional.rs")],
 ["returned option and remaining bytes, encoded bytes"])
prop("C20", "Derived SEQUENCE and SET codecs implement their declaration",
 "For any struct using the sequence or set derives with any mix of plain, tagged (explicit or implicit, any class), optional and default fields, encoding yields one constructed element holding the fields in declared order under their declared tags, with correct lengths, and decoding it returns an equal struct. Decoding rejects a missing mandatory field, a wrong tag or class, a primitive container, or malformed field contents, and absent optional/default fields take none or the default. The DER encoding omits a field equal to its declared default. A custom error type and per-field map_err functions change only the error: the failing field's error goes through its own function, and the same inputs are accepted.",
 ["programs", "inputs"], "all struct declarations in the supported attribute grammar x all field values x all present/absent combinations and corruptions of the encodings",
 "the derive output depends on the declaration; tests compile about fifteen structs and run one or two values through each",
 ["derive/src/container.rs","derive/src/sequence.rs","derive/src/set.rs","derive/src/options.rs"],
 [("field parser generation","derive/src/container.rs get_field_berparser"),("encoder generation","derive/src/container.rs gen_tober")],
 ["bytes and values through the generated codecs"])
prop("C21", "Derived CHOICE, ENUMERATED and alias codecs implement their declaration",
 "For any enum or newtype using the choice, enumerated or alias derives, each alternative encodes under its own tag (declared, automatic, or that of its type) with correct lengths and decodes back to the same alternative, and inputs matching no alternative, or no declared enumeration value, are rejected. An alias encodes and decodes exactly like the type it wraps.",
 ["programs", "inputs"], "all choice/enumerated/alias declarations (untagged, explicit, implicit, custom tags, custom discriminants) x all values x all input tags",
 "the derive output depends on the declaration; tests compile a handful of enums",
 ["derive/src/choice.rs","derive/src/enumerated.rs","derive/src/alias.rs"],
 [("variant dispatch","derive/src/choice.rs"),("discriminant mapping","derive/src/enumerated.rs")],
 ["bytes and values through the generated codecs"])
prop("C22", "Sequences, sets, tuples and iterators expose the same elements",
 "Decoding a constructed element as a vector, array, tuple, typed sequence/set, generic sequence/set or through an iterator yields the same elements in the same order (sets: the same collection), or all report an error when an element is malformed or of the wrong type. Iterators visit each element exactly once and never yield more elements after an error or the end.",
 ["inputs"], "all element lists (0..64 elements, nested, malformed at any position) x all container and iterator types x {BER, DER, definite, indefinite}",
 "tests iterate over two-element lists; agreement between a dozen container types over arbitrary, including malformed, contents is a relation between runs",
 [T+"sequence.rs",T+"sequence/*.rs",T+"set.rs",T+"set/*.rs",T+"iterator.rs"],
 [("iterators",T+"iterator.rs, sequence/iterator.rs, set/iterator.rs"),("container decoders",T+"sequence/vec.rs, array.rs, tuple.rs, set/*.rs")],
 ["element lists, errors"])
prop("C23", "DER encoding of a set does not depend on element order",
 "DER-encoding a set-of collection writes its elements in ascending order of their encodings, so any two collections holding the same elements, whatever their insertion order or internal hashing, produce identical bytes, and decoding them gives back the same set.",
 ["inputs","histories"], "all element multisets x all insertion orders and hash states x all set collection types",
 "hash iteration order varies from run to run and between insert histories; a test with a couple of elements cannot settle it",
 [T+"set/hashset.rs",T+"set/btreeset.rs",T+"set/set_of.rs"],
 [("set writers","der_write_content of the set types")],
 ["encoded bytes"])
prop("C24", "A failing or partial writer never yields a falsely successful encoding",
 "When the output writer accepts only part of each write, or is interrupted, the bytes it receives are still exactly the encoding; when it fails at any point or runs out of room, the encoding call returns an error and what was written is a prefix of the encoding.",
 ["fault_sequences"], "every failure position and every short-write/interrupt schedule x every encodable type and entry point x {BER, DER}",
 "tests only write to growable vectors, which never fail or write partially",
 ["src/to_ber.rs","src/to_der.rs","src/to_ber/*.rs",T+"*.rs"],
 [("writes go through the io::Write contract","*_write_content, *_encode")],
 ["Result of encode calls, bytes received by the writer"])
prop("C25", "Owned copies are equal to and independent of the borrowed value",
 "Converting any decoded value to its owned, unborrowed form gives an equal value that prints and re-encodes to the same bytes, and stays so after the original input is gone.",
 ["inputs"], "all decoded values of all types with an owned form, including derived structs and enums",
 "tests convert two or three literals",
 ["src/tostatic.rs","derive/src/tostatic.rs",T+"*.rs","src/header.rs"],
 [("ToStatic implementations",T),("derived ToStatic","derive/src/tostatic.rs")],
 ["equality, re-encoding"])
prop("C26", "Equality, hashing and ordering of values are consistent",
 "For decoded or constructed values, equality is reflexive and symmetric, equal values hash alike, and where an order is defined it is a total order consistent with equality. Borrowed and owned forms of the same value compare equal.",
 ["inputs"], "all pairs and triples of values of every comparable type, including values decoded from different encodings",
 "laws over pairs and triples cannot be settled by examples; existing tests check none of them",
 ["src/header.rs",T+"any.rs",T+"oid.rs",T+"integer.rs",T+"bitstring.rs",T+"strings.rs",T+"utctime.rs",T+"generalizedtime.rs","src/input.rs"],
 [("Eq/Hash/Ord implementations","src/header.rs, derived elsewhere")],
 ["==, Hash output, cmp"])
prop("C27", "Positions reported for values and errors are true positions in the input",
 "The position attached to decoded headers, contents, remaining input and iterator items always designates exactly the bytes shown, at their true offset in the original input; the position attached to an error lies within the original input and shows bytes really present there.",
 ["inputs"], "all inputs (valid and malformed), all starting offsets, all nesting depths, x {BER, DER}",
 "tests check the span of one or two results; error locations are not checked at all",
 ["src/input.rs","src/error.rs",T+"any.rs","src/header.rs",T+"iterator.rs"],
 [("span bookkeeping","src/input.rs")],
 ["span and bytes of inputs carried by results and errors"], state=[("span","offsets of a piece of input in the original buffer","src/input.rs")])
prop("C28", "Logging features do not change any result",
 "Building with the debugging/tracing features or without them yields identical results: the same acceptance, values, consumed bytes, errors and encodings for every input.",
 ["configurations","inputs"], "{no logging features, debug, debug+trace with a logger installed} x all inputs of the other checks",
 "the tests run one feature set at a time and never compare them",
 ["src/debug.rs","Cargo.toml","src/from_ber.rs","src/from_der.rs"],
 [("tracing wrappers","src/debug.rs trace_input, trace, trace_generic")],
 ["digest of all results under each configuration"])
prop("C29", "Compile-time OID and integer literals equal their run-time construction",
 "The literal macros for object identifiers, relative object identifiers and integers produce, for every literal they accept, exactly the value that run-time construction or decoding gives for the same arcs or number, and reject literals that no value represents.",
 ["programs"], "all dotted OID literals (absolute, relative, raw forms) and integer literals in source programs",
 "tests compile four or five fixed literals",
 ["impl/src/lib.rs",T+"oid.rs",T+"integer.rs"],
 [("literal encoders","impl/src/lib.rs encode_oid, encode_int"),("macros",T+"oid.rs oid!, integer.rs int!")],
 ["bytes of the literal values"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
