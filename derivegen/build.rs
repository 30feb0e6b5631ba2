//! Generates the program under test: declarations using the library's derives, with the schema of each (as the
//! reference model reads it), plus OID / integer literals. Everything is a function of VERIF_SEED and VERIF_TIER.
use std::fmt::Write as _;
mod lits;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB); z ^ (z >> 31) }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn chance(&mut self, a: u64, b: u64) -> bool { self.next() % b < a }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}
#[derive(Clone, PartialEq, Debug)]
enum Acc { Any, Tags(Vec<(u8, u32)>) }
impl Acc {
    fn overlaps(&self, o: &Acc) -> bool { match (self, o) { (Acc::Tags(a), Acc::Tags(b)) => a.iter().any(|x| b.contains(x)), _ => true } }
}
#[derive(Clone, Debug)]
struct T {
    ty: String, acc: Acc,
    /// may carry an implicit tag
    imp: bool,
    /// works with the slice-based derives
    slice: bool,
    eq: bool, clone: bool, stat: bool,
    /// has a compile-time known universal tag
    tagged: bool,
    defs: Vec<String>,
    depth: u32,
}
impl T {
    fn lt(&self) -> bool { self.ty.contains("'a") }
}
fn st(ty: &str) -> String { ty.replace("'a", "'static") }
fn pool() -> Vec<T> {
    let mut v = Vec::new();
    let mut p = |ty: &str, tags: &[u32], flags: &str, defs: &[&str]| {
        v.push(T { ty: ty.into(), acc: if tags.is_empty() { Acc::Any } else { Acc::Tags(tags.iter().map(|t| (0, *t)).collect()) },
            imp: !flags.contains('x'), slice: !flags.contains('n'), eq: !flags.contains('e'), clone: flags.contains('c'), stat: flags.contains('s'), tagged: !flags.contains('d'),
            defs: defs.iter().map(|s| s.to_string()).collect(), depth: 0 })
    };
    p("bool", &[1], "cs", &["true", "false"]);
    for t in ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"] { p(t, &[2], "cs", &["0", "1", "127", "100"]); }
    p("Integer<'a>", &[2], "c", &["Integer::from(5u8)", "Integer::from(-300i32)"]);
    p("Enumerated", &[10], "n", &["Enumerated::new(3)"]);
    p("Null", &[5], "", &["Null::new()"]);
    p("()", &[5], "c", &[]);
    p("OctetString<'a>", &[4], "", &["OctetString::new(b\"abc\")", "OctetString::new(b\"\")"]);
    p("&'a [u8]", &[4], "c", &["&[1u8, 2, 3][..]"]);
    p("BitString", &[3], "c", &["BitString::new(4, &[0xf0])"]);
    p("Oid<'a>", &[6, 13], "cd", &["oid!(1.2.840.113549)"]);
    p("Utf8String<'a>", &[12], "", &["Utf8String::new(\"x\u{e9}\")"]);
    p("NumericString<'a>", &[18], "", &["NumericString::new(\"42\")"]);
    p("PrintableString<'a>", &[19], "", &["PrintableString::new(\"Ab\")"]);
    p("TeletexString<'a>", &[20], "", &[]);
    p("VideotexString<'a>", &[21], "", &[]);
    p("Ia5String<'a>", &[22], "", &["Ia5String::new(\"\")"]);
    p("GraphicString<'a>", &[25], "", &[]);
    p("VisibleString<'a>", &[26], "", &[]);
    p("GeneralString<'a>", &[27], "", &[]);
    p("UniversalString<'a>", &[28], "", &["UniversalString::new(\"u\")"]);
    p("BmpString<'a>", &[30], "", &["BmpString::new(\"b\")"]);
    p("ObjectDescriptor<'a>", &[7], "", &[]);
    p("String", &[12], "cs", &["String::from(\"dflt\")", "String::new()"]);
    p("&'a str", &[12], "c", &["\"dflt\""]);
    p("UtcTime", &[23], "", &[]);
    p("GeneralizedTime", &[24], "", &[]);
    p("Real", &[9], "", &["Real::from(1.5)"]);
    p("Any<'a>", &[], "xcd", &[]);
    p("Vec<u32>", &[16], "cs", &["vec![1, 2]", "Vec::new()"]);
    p("Vec<OctetString<'a>>", &[16], "", &[]);
    p("Vec<Vec<i16>>", &[16], "cs", &[]);
    p("SequenceOf<i16>", &[16], "", &[]);
    p("SequenceOf<Utf8String<'a>>", &[16], "", &[]);
    p("Sequence<'a>", &[16], "cs", &[]);
    p("SetOf<u8>", &[17], "", &[]);
    p("BTreeSet<u32>", &[17], "c", &["BTreeSet::new()"]);
    p("[u32; 2]", &[16], "nc", &["[3, 4]"]);
    p("AnySequence<'a>", &[16], "ne", &[]);
    p("Set<'a>", &[17], "ces", &[]);
    v
}
/// a tagged wrapper used as the type of a field
fn wrap(r: &mut Rng, t: &T, slice: bool) -> T {
    let n = *r.pick(&[0u32, 1, 2, 3, 5, 30, 31, 127, 128]);
    let expl = !t.imp || (slice && !t.tagged) || r.chance(1, 2);
    let (c, cn) = *r.pick(&[(2u8, ""), (2, ""), (1, "APPLICATION"), (3, "PRIVATE")]);
    let ty = if cn.is_empty() { format!("{}<{}, Error, {n}>", if expl { "TaggedExplicit" } else { "TaggedImplicit" }, t.ty) }
        else { format!("TaggedValue<{}, Error, {}, {{ Class::{cn} }}, {n}>", t.ty, if expl { "Explicit" } else { "Implicit" }) };
    T { ty, acc: Acc::Tags(vec![(c, n)]), imp: false, slice: t.slice, eq: t.eq, clone: false, stat: false, tagged: true, defs: vec![], depth: t.depth }
}
struct Field { attrs: String, ty: String, kind: String, acc: Acc, optional: bool, eq: bool, clone: bool, stat: bool }
const CLASSES: [(u8, &str); 4] = [(2, ""), (1, "APPLICATION "), (3, "PRIVATE "), (0, "UNIVERSAL ")];
const NUMS: [u32; 14] = [0, 1, 2, 3, 4, 5, 7, 15, 30, 31, 32, 127, 128, 16384];
struct Gen { r: Rng, turn: usize, fturn: usize, cturn: usize, mapped: String, code: String, decls: Vec<(String, String)>, structs: Vec<String>, others: Vec<String>, pool: Vec<T>, nbase: usize, next: usize }
impl Gen {
    fn kind_of(ty: &str) -> String { format!("<{} as LibTy>::kind()", st(ty)) }
    /// one base type, sometimes wrapped in a list or a tagged type
    fn base(&mut self, slice: bool, implicit: bool) -> T {
        loop {
            let nested = !slice && self.pool.len() > self.nbase && self.r.chance(1, 4);
            let t = if nested { let k = self.pool.len() - self.nbase; let i = self.nbase + self.r.below(k); self.pool[i].clone() } else { let i = self.r.below(self.nbase); self.pool[i].clone() };
            if (slice && !t.slice) || (implicit && !t.imp) || (slice && implicit && !t.tagged) || t.acc == Acc::Any { continue; }
            if !slice && t.depth > 0 && self.r.chance(1, 5) {
                let (ty, tag, clone) = (format!("Vec<{}>", t.ty), 16, t.clone);
                return T { ty, acc: Acc::Tags(vec![(0, tag)]), imp: true, slice: false, eq: t.eq, clone, stat: t.stat, tagged: true, defs: vec![], depth: t.depth + 1 };
            }
            return t;
        }
    }
    fn tag(&mut self, avoid: &[(u8, u32)]) -> (u8, &'static str, u32) {
        loop {
            self.turn += 1;
            let (c, cn) = if self.r.chance(1, 2) { CLASSES[0] } else { CLASSES[self.turn % 4] };
            let n = if c == 0 { *self.r.pick(&[33u32, 40, 127, 128, 1000]) } else if self.r.chance(1, 40) { 65535 } else { *self.r.pick(&NUMS) };
            if !avoid.contains(&(c, n)) { return (c, cn, n); }
        }
    }
    fn field(&mut self, slice: bool, avoid: &[(u8, u32)], custom: Option<&str>) -> Field {
        // field forms in turn, so that each appears whatever the seed
        self.fturn += 1;
        let form = self.fturn % 13;
        if let Some(p) = custom { let t = self.base(false, false); let t = if t.ty.starts_with('&') { T { ty: "u16".into(), acc: Acc::Tags(vec![(0, 2)]), eq: true, clone: true, ..t } } else { t };
            return Field { attrs: format!("#[asn1(parse = \"{p}\")] "), kind: Self::kind_of(&t.ty), ty: t.ty.clone(), acc: t.acc, optional: false, eq: t.eq, clone: t.clone, stat: t.stat }; }
        let plain = |t: &T, attrs: &str, opt: bool| Field { attrs: attrs.into(), ty: if opt { format!("Option<{}>", t.ty) } else { t.ty.clone() },
            kind: if opt { format!("opt({})", Self::kind_of(&t.ty)) } else { Self::kind_of(&t.ty) }, acc: t.acc.clone(), optional: opt, eq: t.eq, clone: t.clone, stat: t.stat };
        match form {
            0 | 1 => { let t = self.base(slice, false); plain(&t, "", false) }
            2 => { let t = self.base(slice, false); plain(&t, if self.r.chance(1, 2) { "#[optional] " } else { "" }, true) }
            3 => { let b = self.base(slice, false); let t = wrap(&mut self.r, &b, slice); let t = if t.slice || !slice { t } else { b }; let o = self.r.chance(1, 3); plain(&t, "", o) }
            4 | 5 => { // untagged default
                let t = loop { let t = self.base(slice, false); if !t.defs.is_empty() { break t; } };
                let d = self.r.pick(&t.defs).clone();
                Field { attrs: format!("#[default({d})] "), kind: format!("{{ let d: {} = {d}; def({}, d.val()) }}", st(&t.ty), Self::kind_of(&t.ty)), ty: t.ty.clone(), acc: t.acc.clone(), optional: true, eq: t.eq, clone: t.clone, stat: t.stat }
            }
            _ => {
                let implicit = form % 2 == 0;
                let what = match form { 6 | 7 => 0, 8 | 9 => 1, _ => 2 };
                let mut any = false;
                let t = if what == 2 { loop { let t = self.base(slice, implicit); if !t.defs.is_empty() { break t; } } }
                    else if what == 0 && !implicit && !slice && self.r.chance(1, 8) { any = true; self.pool.iter().find(|t| t.ty.starts_with("Any<")).unwrap().clone() }
                    else { self.base(slice, implicit) };
                let _ = any;
                let (c, cn, n) = self.tag(avoid);
                let tg = format!("#[tag_{}({cn}{n})] ", if implicit { "implicit" } else { "explicit" });
                let k = format!("tg({c}, {n}, {}, {})", !implicit, Self::kind_of(&t.ty));
                let acc = Acc::Tags(vec![(c, n)]);
                match what {
                    0 => Field { attrs: tg, kind: k, ty: t.ty.clone(), acc, optional: false, eq: t.eq, clone: t.clone, stat: t.stat },
                    1 => { let o = if self.r.chance(1, 2) { format!("#[optional] {tg}") } else { format!("{tg}#[optional] ") };
                        Field { attrs: o, kind: format!("opt({k})"), ty: format!("Option<{}>", t.ty), acc, optional: true, eq: t.eq, clone: t.clone, stat: t.stat } }
                    _ => { let d = self.r.pick(&t.defs).clone();
                        let o = match self.r.below(3) { 0 => format!("#[default({d})] {tg}"), 1 => format!("{tg}#[default({d})] "), _ => format!("#[optional] {tg}#[default({d})] ") };
                        Field { attrs: o, kind: format!("{{ let d: {} = {d}; def({k}, d.val()) }}", st(&t.ty)), ty: t.ty.clone(), acc, optional: true, eq: t.eq, clone: t.clone, stat: t.stat } }
                }
            }
        }
    }
    fn emit(&mut self, name: &str, decl: String, imp: String, is_struct: bool, sty: &str) {
        let _ = writeln!(self.code, "{decl}\n{imp}");
        self.decls.push((name.to_string(), decl));
        let reg = format!("v.push(vh::ops!(\"{name}\", {sty}));");
        if is_struct { self.structs.push(reg) } else { self.others.push(reg) }
    }
    fn structure(&mut self, style: usize, set: bool) {
        let n = if self.r.chance(1, 25) { 0 } else { 1 + self.r.below(6) };
        let slice = matches!(style, 2 | 3 | 5);
        let custom = matches!(style, 6);
        let mut fs: Vec<Field> = Vec::new();
        for k in 0..n {
            let mut avoid: Vec<(u8, u32)> = Vec::new();
            for f in &fs { if let Acc::Tags(t) = &f.acc { avoid.extend(t.iter().copied()); } }
            let mut tries = 0;
            loop {
                tries += 1;
                let cu = if custom && k % 3 == 1 { Some(*self.r.pick(&["DerParser::parse_der", "|input| DerParser::parse_der(input)", "parse_field"])) } else { None };
                // an element of any type may only come last
                let f = if k == n - 1 && k > 0 && !slice && self.r.chance(1, 14) && !fs.last().unwrap().optional { let t = self.pool.iter().find(|t| t.ty.starts_with("Any<")).unwrap().clone(); Field { attrs: String::new(), kind: Self::kind_of(&t.ty), ty: t.ty, acc: Acc::Any, optional: false, eq: true, clone: true, stat: false } } else { self.field(slice, &avoid, cu) };
                // an optional field must be distinguishable from everything up to the next mandatory one
                let mut ok = true;
                for g in fs.iter().rev() { if !g.optional { break; } if g.acc.overlaps(&f.acc) { ok = false; } }
                if ok || tries > 200 { if ok { fs.push(f); } break; }
            }
        }
        let name = format!("S{}", self.next); self.next += 1;
        let lt = fs.iter().any(|f| f.ty.contains("'a"));
        // two lifetimes
        let two = !slice && !custom && fs.iter().filter(|f| f.ty.contains("'a")).count() > 1 && self.r.chance(1, 3);
        if two { let f = fs.iter_mut().rev().find(|f| f.ty.contains("'a")).unwrap(); f.ty = f.ty.replace("'a", "'b"); }
        let gen = if two { "<'a, 'b>" } else if lt { "<'a>" } else { "" };
        let (eq, clone, stat) = (fs.iter().all(|f| f.eq), fs.iter().all(|f| f.clone), fs.iter().all(|f| f.stat));
        let w = if set { "Set" } else { "Sequence" };
        let mut d = String::new();
        let _ = writeln!(d, "#[derive(Debug{}{})]", if eq { ", PartialEq" } else { "" }, if clone { ", Clone" } else { "" });
        if stat && self.r.chance(2, 3) { d.push_str("#[derive(ToStatic)]\n"); }
        let mut enc = true;
        let mut cerr = "";
        // a custom error type; the error of some fields is mapped
        self.cturn += 1;
        if style < 4 && self.cturn % 4 == 0 {
            enc = false; cerr = "#[error(CErr)]\n";
            let mut m = Vec::new();
            for (k, f) in fs.iter_mut().enumerate() { let y = self.r.chance(1, 2); m.push(y); if y { let a = format!("#[map_err(CErr::at::<{k}, _>)] "); f.attrs = if self.r.chance(1, 2) { format!("{a}{}", f.attrs) } else { format!("{}{a}", f.attrs) }; } }
            let _ = writeln!(self.mapped, "({name:?}, true, &{m:?}),");
        } else if matches!(style, 0 | 1) && self.cturn % 4 == 2 {
            let mut m = Vec::new();
            for f in fs.iter_mut() { let y = self.r.chance(1, 2); m.push(y); if y { f.attrs = format!("#[map_err({})] {}", ["map_ber", "|e: BerError<Input<'_>>| BerError::new(e.input().clone(), InnerError::Unsupported)"][self.r.below(2)], f.attrs); } }
            let _ = writeln!(self.mapped, "({name:?}, false, &{m:?}),");
        }
        match style {
            0 => { let _ = writeln!(d, "#[derive({w})]"); match self.r.below(3) { 0 => {} 1 => d.push_str("#[asn1(parse = \"BER, DER\", encode = \"BER, DER\")]\n"), _ => d.push_str("#[asn1(parse = \"DER,BER\")]\n") } }
            1 => { let _ = writeln!(d, "#[derive(BerParser{w})]\n#[derive(DerParser{w})]\n#[derive(ToBer{w}, ToDer{w})]"); }
            2 => { let _ = writeln!(d, "#[derive(Ber{w}, ToBer{w}, ToDer{w})]"); }
            3 => { let _ = writeln!(d, "#[derive(Der{w}, ToDer{w})]"); }
            4 => { let _ = writeln!(d, "#[derive({w})]\n#[asn1(parse = \"{}\", encode = \"{}\")]", ["BER", "DER", "BER, DER"][self.r.below(3)], ["BER", "DER", "", "DER,BER"][self.r.below(4)]); enc = false; }
            5 => { let _ = writeln!(d, "#[derive(Ber{w})]\n#[derive(BerParser{w})]\n#[derive(DerParser{w})]\n#[derive(ToDer{w})]"); enc = false; }
            _ => { let _ = writeln!(d, "#[derive({w})]\n#[asn1(parse = \"DER\", encode = \"DER\")]"); enc = false; }
        }
        let _ = writeln!(d, "{cerr}pub struct {name}{gen} {{");
        // names that the generated code might use itself
        const NAMES: [&str; 24] = ["version", "header", "input", "any", "tag", "class", "len", "writer", "total_len", "res", "data", "content", "value", "t", "e", "err", "length", "self_", "r#type", "r#match", "buf", "bytes", "obj", "Type"];
        let mut names: Vec<String> = Vec::new();
        for k in 0..fs.len() { let c = if self.r.chance(1, 3) { self.r.pick(&NAMES).to_string() } else { format!("f{k}") }; names.push(if names.contains(&c) || (custom && (c == "input" || c == "header")) { format!("f{k}") } else { c }); }
        for (f, nm) in fs.iter().zip(&names) { let _ = writeln!(d, "    {}pub {nm}: {},", f.attrs, f.ty); }
        d.push('}');
        let sg = if two { "<'static, 'static>" } else if lt { "<'static>" } else { "" };
        let imp = format!("impl LibTy for {name}{sg} {{\n fn kind() -> Kind {{ Kind::Fields {{ set: {set}, fields: vec![{}] }} }}\n fn val(&self) -> Val {{ Val::List(vec![{}]) }}\n #[allow(unused_variables)] fn build(v: &Val) -> Option<Self> {{ match v {{ Val::List(l) => Some({name} {{ {} }}), _ => None }} }}\n}}",
            fs.iter().map(|f| f.kind.clone()).collect::<Vec<_>>().join(", "), names.iter().map(|n| format!("LibTy::val(&self.{n})")).collect::<Vec<_>>().join(", "),
            names.iter().enumerate().map(|(i, n)| format!("{n}: LibTy::build(l.get({i})?)?")).collect::<Vec<_>>().join(", "));
        let ty = format!("{name}{}", if two { "<'a, 'a>" } else { gen });
        self.emit(&name, d, imp, true, &st(&ty));
        if enc && matches!(style, 0 | 1) { let depth = 1 + fs.len() as u32 / 100; self.pool.push(T { ty, acc: Acc::Tags(vec![(0, if set { 17 } else { 16 })]), imp: true, slice: false, eq, clone, stat: false, tagged: true, defs: vec![], depth }); }
    }
    fn choice(&mut self, style: usize) {
        let n = 1 + self.r.below(6);
        let (tagged, implicit) = match style { 0 | 3 => (false, false), 1 | 4 => (true, false), _ => (true, true) };
        let mut vs: Vec<(T, Option<u32>)> = Vec::new();
        let mut tags: Vec<u32> = Vec::new();
        let mut cur = 0u32;
        // a high number, a lower one, then automatic numbering
        let zigzag = style < 3 && tagged && self.r.chance(2, 5);
        let n = if zigzag { n.max(3) } else { n };
        for k in 0..n {
            for _ in 0..100 {
                let mut t = self.base(false, implicit);
                if !tagged && self.r.chance(1, 4) { t = wrap(&mut self.r, &t, false); }
                if !tagged { if vs.iter().any(|v| v.0.acc.overlaps(&t.acc)) { continue; } vs.push((t, None)); break; }
                let explicit_tag = if zigzag { match k { 0 => Some(8 + self.r.below(40) as u32), 1 => Some(self.r.below(5) as u32), _ => None } } else if style < 3 && self.r.chance(2, 5) { Some(if cur > 3 && self.r.chance(1, 2) { self.r.below(cur.min(40) as usize - 1) as u32 } else { *self.r.pick(&NUMS) + self.r.below(3) as u32 + if self.r.chance(1, 20) { 4294900000 } else { 0 } }) } else { None };
                let explicit_tag = if style < 3 && k == n - 1 && self.r.chance(1, 10) { Some(u32::MAX) } else { explicit_tag };
                let tag = explicit_tag.unwrap_or(cur);
                if tags.contains(&tag) { continue; }
                tags.push(tag); cur = tag.wrapping_add(1); vs.push((t, explicit_tag)); break;
            }
        }
        let name = format!("C{}", self.next); self.next += 1;
        let lt = vs.iter().any(|v| v.0.lt());
        let gen = if lt { "<'a>" } else { "" };
        let (eq, clone, stat) = (vs.iter().all(|f| f.0.eq), vs.iter().all(|f| f.0.clone), vs.iter().all(|f| f.0.stat));
        let mut d = String::new();
        let _ = writeln!(d, "#[derive(Debug{}{})]", if eq { ", PartialEq" } else { "" }, if clone { ", Clone" } else { "" });
        if stat && self.r.chance(2, 3) { d.push_str("#[derive(ToStatic)]\n"); }
        let mut full = true;
        if style < 3 { d.push_str("#[derive(Choice)]\n"); match self.r.below(5) { 0 => d.push_str("#[asn1(parse = \"BER, DER\", encode = \"BER, DER\")]\n"), 1 => { let _ = writeln!(d, "#[asn1(parse = \"{}\", encode = \"{}\")]", ["BER", "DER"][self.r.below(2)], ["BER", "DER", ""][self.r.below(3)]); full = false; } _ => {} } }
        else { full = false; d.push_str("#[derive(BerParserChoice)]\n#[derive(DerParserChoice)]\n"); }
        self.cturn += 1;
        if style < 3 && self.cturn % 4 == 1 { full = false; d.push_str("#[error(CErr)]\n"); }
        if tagged { d.push_str(if implicit { "#[tagged_implicit]\n" } else { "#[tagged_explicit]\n" }); }
        let _ = writeln!(d, "pub enum {name}{gen} {{");
        for (i, (t, tag)) in vs.iter().enumerate() { let _ = writeln!(d, "    {}V{i}({}),", tag.map(|x| format!("#[tag({x})] ")).unwrap_or_default(), t.ty); }
        d.push('}');
        let sg = if lt { "<'static>" } else { "" };
        let kinds: Vec<String> = vs.iter().enumerate().map(|(i, v)| if tagged { format!("tg(2, {}, {}, {})", tags[i], !implicit, Self::kind_of(&v.0.ty)) } else { Self::kind_of(&v.0.ty) }).collect();
        let imp = format!("impl LibTy for {name}{sg} {{\n fn kind() -> Kind {{ Kind::Choice(vec![{}]) }}\n fn val(&self) -> Val {{ match self {{ {} }} }}\n fn build(v: &Val) -> Option<Self> {{ match v {{ {} _ => None }} }}\n}}", kinds.join(", "),
            (0..vs.len()).map(|i| format!("{name}::V{i}(x) => Val::Choice({i}, Box::new(LibTy::val(x))),")).collect::<String>(), (0..vs.len()).map(|i| format!("Val::Choice({i}, x) => LibTy::build(&**x).map({name}::V{i}),")).collect::<String>());
        let ty = format!("{name}{gen}");
        self.emit(&name, d, imp, false, &st(&ty));
        if full {
            let acc = if tagged { Acc::Tags(tags.iter().map(|t| (2, *t)).collect()) } else { let mut a = Vec::new(); for v in &vs { if let Acc::Tags(t) = &v.0.acc { a.extend(t.iter().copied()); } } Acc::Tags(a) };
            self.pool.push(T { ty, acc, imp: false, slice: false, eq, clone, stat: false, tagged: false, defs: vec![], depth: 1 });
        }
    }
    fn enumerated(&mut self) {
        let n = 1 + self.r.below(7);
        let name = format!("E{}", self.next); self.next += 1;
        let mut vals: Vec<u32> = Vec::new();
        let mut d = String::from("#[derive(Debug, PartialEq, Clone, Copy)]\n#[derive(Enumerated)]\n");
        let mut full = true;
        if self.r.chance(1, 5) { let _ = writeln!(d, "#[asn1(parse = \"{}\", encode = \"{}\")]", ["BER", "DER"][self.r.below(2)], ["BER", "DER", ""][self.r.below(3)]); full = false; }
        let repr = *self.r.pick(&["", "u8", "u16", "u32"]);
        self.cturn += 1;
        if self.cturn % 4 == 2 { full = false; d.push_str("#[error(CErr)]\n"); }
        if !repr.is_empty() { let _ = writeln!(d, "#[repr({repr})]"); }
        let max = match repr { "u8" => 255u32, "u16" => 65535, "" => i32::MAX as u32, _ => u32::MAX };
        let _ = writeln!(d, "pub enum {name} {{");
        let mut cur = 0u32;
        for i in 0..n {
            let explicit = self.r.chance(1, 2);
            if explicit { for _ in 0..50 { let c = (*self.r.pick(&[0u32, 1, 2, 3, 5, 127, 128, 129, 200, 255, 256, 1000, 32767, 32768, 65535, 8388607, 8388608, 0x7fff_ffff, 0x8000_0000, u32::MAX - 8])).min(max - 8); if !vals.contains(&c) { cur = c; break; } } if i == n - 1 && self.r.chance(1, 3) { cur = max; } }
            while vals.contains(&cur) { cur += 1; }
            let same = vals.last().map(|l| l + 1 == cur).unwrap_or(cur == 0);
            let _ = writeln!(d, "    V{i}{},", if same && !explicit { String::new() } else if self.r.chance(1, 4) { format!(" = {cur:#x}") } else { format!(" = {cur}") });
            vals.push(cur); cur = cur.wrapping_add(1);
        }
        d.push('}');
        let imp = format!("impl LibTy for {name} {{\n fn kind() -> Kind {{ Kind::Enum(vec![{}]) }}\n fn val(&self) -> Val {{ Val::Int(match self {{ {} }}.into()) }}\n fn build(v: &Val) -> Option<Self> {{ match v {{ Val::Int(i) => {{ {} None }} _ => None }} }}\n}}", vals.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(", "),
            vals.iter().enumerate().map(|(i, v)| format!("{name}::V{i} => {v}u32,")).collect::<String>(), vals.iter().enumerate().map(|(i, v)| format!("if *i == {v}u32.into() {{ return Some({name}::V{i}); }}")).collect::<String>());
        self.emit(&name.clone(), d, imp, false, &name);
        if full { self.pool.push(T { ty: name.clone(), acc: Acc::Tags(vec![(0, 10)]), imp: true, slice: false, eq: true, clone: true, stat: false, tagged: false, defs: vec![format!("{name}::V0")], depth: 1 }); }
    }
    fn alias(&mut self, style: usize, any: bool) {
        let any = any || self.r.chance(1, 8);
        let t = loop {
            let t = if any { self.pool.iter().find(|t| t.ty.starts_with("Any<")).unwrap().clone() } else { self.base(style > 1, false) };
            // the older derives need a type with a fixed tag
            if style > 0 && !(t.tagged || any) { continue; }
            // (a type whose name starts with Any is taken for Any by them, and does not compile)
            if style > 0 && !any && t.ty.starts_with("Any") { continue; }
            if style == 1 && t.depth > 0 && !t.ty.starts_with('S') { continue; }
            break t;
        };
        let name = format!("A{}", self.next); self.next += 1;
        let lt = t.lt(); let gen = if lt { "<'a>" } else { "" };
        let mut d = String::new();
        let _ = writeln!(d, "#[derive(Debug{}{})]", if t.eq { ", PartialEq" } else { "" }, if t.clone { ", Clone" } else { "" });
        if t.stat && self.r.chance(2, 3) { d.push_str("#[derive(ToStatic)]\n"); }
        let mut full = true;
        match style {
            0 => { self.cturn += 1; d.push_str("#[derive(Alias)]\n"); if self.cturn % 3 == 0 { full = false; d.push_str("#[error(CErr)]\n"); } if self.r.chance(1, 5) { let _ = writeln!(d, "#[asn1(parse = \"{}\", encode = \"{}\")]", ["BER", "DER"][self.r.below(2)], ["BER", "DER", ""][self.r.below(3)]); full = false; } }
            1 => { full = false; d.push_str("#[derive(BerParserAlias)]\n#[derive(DerParserAlias)]\n"); }
            2 => { full = false; d.push_str("#[derive(BerAlias)]\n"); }
            _ => { full = false; d.push_str("#[derive(DerAlias)]\n"); }
        }
        let _ = write!(d, "pub struct {name}{gen}(pub {});", t.ty);
        let sg = if lt { "<'static>" } else { "" };
        let imp = format!("impl LibTy for {name}{sg} {{ fn kind() -> Kind {{ {} }} fn val(&self) -> Val {{ LibTy::val(&self.0) }} fn build(v: &Val) -> Option<Self> {{ LibTy::build(v).map({name}) }} }}", Self::kind_of(&t.ty));
        let ty = format!("{name}{gen}");
        self.emit(&name, d, imp, false, &st(&ty));
        if full && !any { self.pool.push(T { ty, slice: false, stat: false, defs: vec![], depth: 1, tagged: false, ..t }); }
    }
}
fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-env-changed=VERIF_TIER");
    println!("cargo:rerun-if-env-changed=DG_TYPES");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=lits.rs");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let n: usize = std::env::var("DG_TYPES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 500 } else { 110 });
    let out = std::env::var("OUT_DIR").unwrap();
    let mut g = Gen { r: Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ 77), turn: 0, fturn: 0, cturn: 0, mapped: String::new(), code: String::new(), decls: vec![], structs: vec![], others: vec![], nbase: pool().len(), pool: pool(), next: 0 };
    for i in 0..n {
        match i % 11 {
            0 => { let k = (i / 11) % 5; g.choice([0, 2, 1, 3, 4 + (i / 55) % 2][k]) }
            1 => g.structure(0, false),
            2 => { let k = i / 11; if k % 3 == 2 { g.choice(k % 3) } else { g.enumerated() } }
            3 => g.structure(1, i % 2 == 0),
            4 => { let k = (i / 11) % 6; g.alias([0, 0, 1, 0, 2, 3][k], k == 1) }
            5 => g.structure(0, true),
            6 => g.structure(2, (i / 11) % 2 == 0),
            7 => g.structure(3, (i / 11) % 2 == 1),
            8 => g.choice((i / 11) % 3),
            9 => g.structure([4, 5, 6][(i / 11) % 3], (i / 33) % 2 == 0),
            _ => g.structure(0, false),
        }
    }
    let mut f = String::from("// generated\n");
    f += &g.code;
    let _ = write!(f, "pub fn structs(v: &mut Vec<Ops>) {{\n{}\n}}\npub fn others(v: &mut Vec<Ops>) {{\n{}\n}}\n", g.structs.join("\n"), g.others.join("\n"));
    let _ = write!(f, "pub const DECLS: &[(&str, &str)] = &[\n{}];\n", g.decls.iter().map(|(a, b)| format!("({a:?}, {b:?}),\n")).collect::<String>());
    let _ = write!(f, "/// structs with a custom error type (or the error of the library), and the fields whose error is mapped\npub const MAPPED: &[(&str, bool, &[bool])] = &[\n{}];\n", g.mapped);
    std::fs::write(format!("{out}/g_types.rs"), f).unwrap();
    lits::generate(&mut Rng(seed ^ 0x29), if thorough { 24_000 } else { 4_800 }, &out);
}
