//! One request per line: `oid|rel HEX` (contents octets). One answer per line: text, Display, Debug, arcs as u64.
use asn1_rs::Oid;
use std::borrow::Cow;
use std::io::{BufRead, Write};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { return };
        let r = std::panic::catch_unwind(|| {
            let (kind, h) = l.split_once(' ').unwrap_or((&l, ""));
            let c: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            let o = if kind == "rel" { Oid::new_relative(Cow::Owned(c)) } else { Oid::new(Cow::Owned(c)) };
            let arcs = o.iter().map(|i| { let n = i.len(); (n, i.map(|a| a.to_string()).collect::<Vec<_>>().join(".")) });
            format!("{}|{o}|{o:?}|{}", o.to_id_string(), match arcs { Some((n, a)) => format!("{n} {a}"), None => "none".into() })
        });
        if writeln!(out, "{}", r.unwrap_or_else(|_| "panic".into())).and_then(|_| out.flush()).is_err() { return; }
    }
}
