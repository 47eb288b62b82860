//! Spaces of the properties that concern MIME (compiled with the `mime` feature).
use super::*;
use crate::engine::{fp, Ctx, Verdict};
use crate::model;
use crate::obs;
use crate::oracle::{expect, ask, tree, TREE_DEPTH};
use email_parser::mime::{ContentType, Entity, RawEntity};
use email_parser::prelude::*;
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::Arc;

pub fn spaces(p: &str, d: D, m: &Check, md: &Check) -> Vec<Space> {
    match p {
        "C15" => c15(d, m),
        "C16" => c16(d, m, md),
        "C17" => c17(d, m, md),
        "C18" => c18(d, m, md),
        "C19" => c19(d, m),
        "C20" => c20(d, m),
        "C21" => c21(d, md),
        "C24" => c24(d),
        "C27" => c27(d),
        _ => vec![],
    }
}
fn all() -> Vec<u8> {
    (0..=255).collect()
}
pub const CHARSETS: [&str; 19] = [
    "utf-8", "us-ascii", "iso-8859-1", "iso-8859-2", "iso-8859-3", "iso-8859-4", "iso-8859-5", "iso-8859-6", "iso-8859-7", "iso-8859-8", "iso-8859-9",
    "iso-8859-10", "iso-8859-11", "iso-8859-13", "iso-8859-14", "iso-8859-15", "iso-8859-16", "iso-6937", "gb2312",
];
fn ct(g: G) -> G {
    field("Content-Type", g)
}
fn cd(g: G) -> G {
    field("Content-Disposition", g)
}
/// a message with these header lines (each ending in CRLF) and this body
fn msg(h: G, body: G) -> G {
    cat(vec![head(), h, l("\r\n"), body])
}
fn part_of(g: G) -> G {
    cat(vec![head(), l("Content-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\n"), g, l("\r\n--b--\r\n")])
}
/// the bytes of `g`'s members, each rewritten by f
fn mapped(g: G, f: impl Fn(&[u8], &mut Vec<u8>) + Send + Sync + 'static) -> G {
    let g = Fast::new(&g);
    fun(g.n, move |i, o| {
        let mut b = Vec::new();
        g.put(i, &mut b);
        f(&b, o)
    })
}
fn b64(b: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            o.push(if k > c.len() { b'=' } else { A[(v >> (18 - 6 * k) & 63) as usize] });
        }
    }
    o
}
fn hexed(mark: u8, upper: bool) -> impl Fn(&[u8], &mut Vec<u8>) + Send + Sync + Clone + 'static {
    move |b, o| {
        for c in b {
            o.push(mark);
            let s = if upper { format!("{:02X}", c) } else { format!("{:02x}", c) };
            o.extend_from_slice(s.as_bytes());
        }
    }
}

// ---------------------------------------------------------------- C15 encoded words
fn c15(d: D, m: &Check) -> Vec<Space> {
    let names = ["Subject", "Comments", "Content-Description", "X-Any"];
    let text = |g: &G| any_field(&names, g);
    let phr = |g: &G| alt(vec![field("Keywords", g.clone()), field("To", cat(vec![g.clone(), l("<a@b>")])), field("To", cat(vec![g.clone(), l(":a@b;")])), field("Sender", cat(vec![g.clone(), l("<a@b>")]))]);
    let both = |g: &G| alt(vec![text(g), phr(g)]);
    let t = tb(&[b"=?", b"utf-8", b"*en", b"?", b"q", b"B", b"=C3=A9", b"QQ==", b"?=", b" ", b"_", b"a"]);
    let shaped = cat(vec![
        ts(&["utf-8", "UTF-8", "us-ascii", "iso-8859-1", "ISO-8859-15", "iso-6937", "gb2312", "koi8-r", "", "utf 8", "utf-8.", "x", "a[b"]),
        ts(&["", "*en", "*", "*en*fr", "*en-US", "*(x)"]),
        l("?"),
        ts(&["q", "Q", "b", "B", "x", "", "qq", "q "]),
        l("?"),
        ts(&["a", "", "=C3=A9", "=c3=a9", "=E9", "_", "a_b", "=", "=4", "=G1", "a=", "a b", "a?b", "QQ==", "QQ", "w6k=", "6Q==", "=80", "====", "QUJD", "Q!UJD", "=0D=0A", "=3F=3D", "/+==", "=5F", "\u{e9}", "=FF=FE", "=20", "~"]),
        ts(&["?=", "?", "=", "? =", "?=x", "?==?utf-8?q?b?="]),
    ]);
    let enc_a = "=?utf-8?q?a?=";
    let items = ts(&[enc_a, "=?iso-8859-1?b?6Q==?=", "b", " ", "\r\n ", "\t", "=?x?q?a?=", "(c)", "\"q\"", "=?utf-8?q?_?=", "=?utf-8*en?Q?=C3=A9?="]);
    let small = ts(&[enc_a, " ", "\r\n ", "b", "=?utf-8?b?Yw==?=", "=?", "\t "]);
    let w = "=?utf-8*en?Q?a=C3=A9_b?=";
    vec![
        space("subject: token sequences", field("Subject", seq(t.clone(), 0, d(5, 6))), m),
        space("text and phrases: token sequences", both(&seq(t.clone(), 0, d(3, 4))), m),
        space("inside a word: token sequences", both(&cat(vec![l("=?"), seq(t, 0, d(3, 4)), l("?=")])), m),
        space("charset x language x encoding x text x end", alt(vec![field("Subject", cat(vec![l("=?"), shaped.clone()])), field("Keywords", cat(vec![l("=?"), shaped.clone()]))]), m),
        space("adjacent words in text", text(&seq(items.clone(), 0, d(4, 5))), m),
        space("adjacent words in phrases", phr(&seq(items, 0, d(4, 5))), m),
        space("words after comments and spaces in phrases", phr(&cat(vec![seq(ts(&["(c)", " ", "\r\n ", "(=?utf-8?q?a?=)", "b"]), 0, 3), ts(&[enc_a, "=?utf-8?b?w6k=?=", "=?x?q?a?=", "=?utf-8?q?a", "\"=?utf-8?q?a?=\""]), seq(ts(&["(c)", " ", "\t", "b", enc_a, "=?utf-8?q?_?="]), 0, d(3, 4))])), m),
        space("long runs of adjacent words", field("Subject", seq(small, 0, d(6, 8))), m),
        space("one byte changed anywhere", both(&cat(vec![ts(&["", " ", "x "]), near(w.as_bytes()), ts(&["", " y"])])), m),
        space("one byte changed anywhere (two)", both(&cat(vec![ts(&["", " ", "x "]), near2(w.as_bytes()), ts(&["", " y"])])), m),
        space("two marks inserted anywhere", both(&insert2(w.as_bytes(), &[b"?", b"=", b" ", b"*", b"_", b"?=", b"=?", b"\r\n "])), m),
        space("pieces of two words", both(&pieces(b" =?utf-8?q?a?= =?iso-8859-1*x?B?6Q==?= b")), m),
        space("every pair of bytes as q text", both(&cat(vec![l("=?utf-8?q?"), bytes(), bytes(), l("?=")])), m),
        space("every escape", field("Subject", cat(vec![l("=?iso-8859-1?q?"), ts(&["", "a"]), l("="), bytes(), bytes(), ts(&["", "b"]), l("?=")])), m),
        space("every pair of bytes as b text", field("Subject", cat(vec![l("=?iso-8859-1?b?Q"), bytes(), bytes(), ts(&["=", "D", ""]), l("?=")])), m),
        space("every byte as charset, language or encoding", both(&alt(vec![
            cat(vec![l("=?utf-8"), bytes(), l("?q?a?=")]), cat(vec![l("=?"), bytes(), l("utf-8?q?a?=")]),
            cat(vec![l("=?utf-8*"), bytes(), bytes(), l("?q?a?=")]), cat(vec![l("=?utf-8?"), bytes(), l("?a?=")]),
        ])), m),
        space("lengths", both(&alt(vec![
            cat(vec![l("=?utf-8?q?"), pump(ts(&["a", "=C3=A9", "_", "=", "=C3", "=5f"]), upto(d, 200, 1500)), l("?=")]),
            cat(vec![l("=?utf-8?b?"), pump(ts(&["A", "QUJD", "QQ==", "="]), upto(d, 200, 1500)), l("?=")]),
            pump(ts(&[" =?utf-8?q?a?=", "=?utf-8?q?a?=", "\r\n =?utf-8?b?w6k=?=", " =?utf-8?q?a?= b"]), upto(d, 120, 800)),
        ])), m),
        space("casings of the charset name and the encoding", text(&cat(vec![l("=?"), alt("utf-8|gb2312|us-ascii|iso-8859-7".split('|').map(casings).collect()), l("?"), ts(&["q?a?=", "Q?a?=", "b?QQ==?=", "B?QQ==?="])])), m),
    ]
}

// ---------------------------------------------------------------- C16 charsets
/// input = charset name, 0 byte, content: the text entity with that content
fn text_entity() -> Check {
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let z = input.iter().position(|c| *c == 0).unwrap();
        let name = String::from_utf8_lossy(&input[..z]).into_owned();
        let content = input[z + 1..].to_vec();
        let got = ctx.imp(|| {
            let mut parameters = HashMap::new();
            parameters.insert(Cow::Borrowed("charset"), Cow::Borrowed(name.as_str()));
            let e = RawEntity {
                mime_type: ContentType::Text,
                subtype: Cow::Borrowed("plain"),
                description: None,
                id: None,
                parameters,
                #[cfg(feature = "content-disposition")]
                disposition: None,
                value: Cow::Borrowed(&content),
                additional_headers: vec![],
            };
            let mut a = obs::Audit::new(vec![]);
            let r = obs::parsed_entity(&e.parse(), &mut a);
            (r, a.bad_utf8)
        });
        let (got, bad_utf8) = match got {
            Ok(g) => g,
            Err(e) => return Verdict { outcome: fp(&e), bad: Some(e), class: 5 },
        };
        let want = ctx.model(|| match model::charset_decode(&name.to_lowercase(), &content) {
            None => model::EntRes::Unknown,
            Some(None) => model::EntRes::Err,
            Some(Some(t)) => model::EntRes::Text("plain".into(), t),
        });
        let bad = if bad_utf8 {
            Some(format!("text of charset {} is not UTF-8", name))
        } else if got != want {
            Some(format!("text in charset {}, bytes {:?}:\n  expected {:?}\n  got      {:?}", name, content, want, got))
        } else {
            None
        };
        Verdict { bad, outcome: fp(&got), class: 4 }
    })
}
fn c16(d: D, m: &Check, md: &Check) -> Vec<Space> {
    let te = text_entity();
    let ent = |cs: &G, b: G| cat(vec![cs.clone(), l("\0"), b]);
    let csets = ts(&CHARSETS);
    let near = ts(&["iso-8859-12", "iso-8859-0", "iso-8859-", "iso-8859-17", "iso-8859-1x", "utf8", "utf-8 ", " utf-8", "utf-7", "utf-16", "ascii", "latin1", "gb18030", "gbk", "gb-2312", "iso6937", "iso-6937-2", "windows-1252", "ISO-8859-1", "UTF-8", "Utf-8", "GB2312", "US-ASCII", "", "koi8-r", "iso_8859-1"]);
    let u8b: Vec<u8> = vec![0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];
    let u8g = alt(u8b.iter().map(|c| l([*c])).collect());
    // through a header: =?cs?q?=XX..?= ; =?cs?b?..?= ; ;a*=cs''%XX..
    let q = |cs: &str, g: G| field("Subject", cat(vec![l(format!("=?{}?q?", cs)), mapped(g, hexed(b'=', true)), l("?=")]));
    let b = |cs: &str, g: G| field("To", cat(vec![l(format!("=?{}?b?", cs)), mapped(g, |b, o| o.extend_from_slice(&b64(b))), l("?=<a@b>")]));
    let p = |cs: &str, g: G| ct(cat(vec![l(format!("text/plain;a*={}''", cs)), mapped(g, hexed(b'%', false))]));
    let p2 = |cs: &str, g: G| ct(cat(vec![l("text/plain;a*1*="), mapped(g, hexed(b'%', true)), l(format!(";a*0*={}'x'y", cs))]));
    let body = |cs: &str, g: G| msg(l(format!("Content-Type: text/x; charset={}\r\nContent-Transfer-Encoding: base64\r\n", cs)), mapped(g, |b, o| o.extend_from_slice(&b64(b))));
    let pt = |cs: &str, g: G| part_of(cat(vec![l(format!("Content-Type: text/x; charset=\"{}\"\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\n", cs)), mapped(g, hexed(b'=', true))]));
    let routes = |cs: &str, g: G| -> G { alt(vec![q(cs, g.clone()), b(cs, g.clone()), p(cs, g.clone()), p2(cs, g.clone()), body(cs, g.clone()), pt(cs, g)]) };
    let every = |g: &G| alt(CHARSETS.iter().map(|c| routes(c, g.clone())).collect());
    let singles = cat(vec![ts(&["", "A"]), bytes(), ts(&["", "z"])]);
    let multi = |g: &G| alt(["utf-8", "us-ascii", "gb2312", "iso-6937", "iso-8859-1"].iter().map(|c| routes(c, g.clone())).collect());
    let mut v = vec![
        space("text entity: every charset x every byte pair", ent(&csets, cat(vec![bytes(), bytes()])), &te),
        space("text entity: every charset x every byte between others", ent(&csets, cat(vec![ts(&["", "a", "ab"]), bytes(), ts(&["", "z", "yz"])])), &te),
        space("text entity: charset names", ent(&near, ts(&["", "a", "\u{e9}"])), &te),
        space("text entity: names in every casing", ent(&alt("utf-8|us-ascii|iso-8859-1|iso-8859-16|iso-6937|gb2312".split('|').map(casings).collect()), tb(&[b"a", b"\xe9", b"\xb0\xa1"])), &te),
        space("utf-8: sequences of boundary bytes", ent(&ts(&["utf-8", "us-ascii"]), seq(u8g.clone(), 0, d(3, 4))), &te),
        space("utf-8: four boundary bytes after a lead byte", ent(&l("utf-8"), cat(vec![G::Byte(0xe0, 0xf7), u8g.clone(), u8g.clone(), u8g.clone()])), &te),
        space("utf-8: every 3-byte sequence with a lead byte", ent(&l("utf-8"), cat(vec![G::Byte(0xe0, 0xef), G::Byte(0x7f, 0xc0), G::Byte(0x7f, 0xc0)])), &te),
        space("iso-6937: accent, letter, next", ent(&l("iso-6937"), cat(vec![G::Byte(0xbf, 0xd1), bytes(), tb(&[b"", b"A", b"\xc1", b"\xff"])])), &te),
        space("gb2312: row, cell, next", ent(&l("gb2312"), cat(vec![G::Byte(0x7e, 0xff), bytes(), tb(&[b"", b"A", b"\xb0\xa1", b"\xb0"])])), &te),
        space("every route x every charset x every byte", every(&singles), md),
        space("routes: utf-8 boundary sequences", multi(&seq(u8g.clone(), 0, d(2, 3))), md),
        space("routes: charset names", alt(near_names().iter().map(|c| routes(c, tb(&[b"a", b"\xe9"]))).collect()), md),
        space("routes: names in every casing", alt(["utf-8", "iso-8859-5", "gb2312"].iter().map(|n| {
            let c = casings(n);
            alt(vec![field("Subject", cat(vec![l("=?"), c.clone(), l("?q?=C3=A9?=")])), ct(cat(vec![l("text/plain;a*="), c.clone(), l("''%C3%A9")])), ct(cat(vec![l("text/plain;a*0*="), c.clone(), l("''%C3;a*1*=%A9")])), msg(cat(vec![l("Content-Type: text/x; charset="), c, l("\r\n")]), l("\u{e9}"))])
        }).collect()), md),
        space("ways of naming the charset", alt(["utf-8", "iso-8859-1", "gb2312"].iter().map(|n| {
            let w = cat(vec![ts(&["Content-Type: text/x;", "Content-Type: TEXT/x; a=b; ", "Content-Type: image/x;"]), ways("charset", n), ts(&["", ";c=\"d\"", " (z) "]), l("\r\n")]);
            let b = tb(&[b"a", b"\xc3\xa9", b"\xb0\xa1"]);
            alt(vec![msg(w.clone(), b.clone()), part_of(cat(vec![w, l("\r\n"), b]))])
        }).collect()), md),
        space("lengths of text", ent(&csets, pump(tb(&[b"a", b"\xe9", b"\xb0\xa1", b"\xc1", b"\xc3\xa9", b"\x80", b"\xc2a"]), upto(d, 200, 2000))), &te),
    ];
    if d(0, 1) == 1 {
        v.push(space("every route x every charset x every byte pair", every(&cat(vec![bytes(), bytes()])), md));
        v.push(space("utf-8: every 4-byte sequence class", ent(&l("utf-8"), cat(vec![G::Byte(0xef, 0xf8), bytes(), G::Byte(0x7e, 0xc1), G::Byte(0x7e, 0xc1)])), &te));
        v.push(space("iso-6937 and gb2312: boundary sequences", ent(&ts(&["iso-6937", "gb2312"]), seq(tb(&[b"A", b"\x7f", b"\x80", b"\xa0", b"\xa1", b"\xb0", b"\xbf", b"\xc0", b"\xc1", b"\xcf", b"\xd0", b"\xf7", b"\xf8", b"\xfe", b"\xff", b" ", b"e"]), 0, 5)), &te));
    } else {
        v.push(space("routes: multi-byte charsets x every byte pair", alt(["utf-8", "gb2312", "iso-6937"].iter().map(|c| alt(vec![q(c, cat(vec![bytes(), bytes()])), p(c, cat(vec![bytes(), bytes()]))])).collect()), m));
    }
    v
}
fn near_names() -> Vec<&'static str> {
    vec!["iso-8859-12", "iso-8859-17", "utf8", "utf-7", "ascii", "latin1", "gb18030", "windows-1252", "ISO-8859-1", "UTF-8", "GB2312", "koi8-r", "iso_8859-1", "iso-8859-1x", "x"]
}

// ---------------------------------------------------------------- C17, C18 codecs
#[cfg(feature = "benchmarking")]
fn codec(name: &'static str) -> Check {
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let b = input.to_vec();
        let got = match ctx.imp(|| match name {
            "base64" => decode_base64(b).ok(),
            _ => Some(decode_qp(b)),
        }) {
            Ok(g) => g,
            Err(e) => return Verdict { outcome: fp(&e), bad: Some(e), class: 5 },
        };
        let want = ctx.model(|| match name {
            "base64" => model::base64(input),
            _ => Some(model::qp_decode(input)),
        });
        let bad = if got != want { Some(format!("{} decoding:\n  expected {:?}\n  got      {:?}", name, want, got)) } else { None };
        Verdict { bad, outcome: fp(&got), class: if got.is_some() { 1 } else { 0 } }
    })
}
/// Without the codec exported: the same through a message.
#[cfg(not(feature = "benchmarking"))]
fn codec(name: &'static str) -> Check {
    let m = oracle::message(false);
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let mut b = HEAD.as_bytes().to_vec();
        b.extend_from_slice(format!("Content-Transfer-Encoding: {}\r\n\r\n", if name == "base64" { "base64" } else { "quoted-printable" }).as_bytes());
        b.extend_from_slice(input);
        m(ctx, &b)
    })
}
/// The input is encoded here, independently of the library, and must come back unchanged.
fn round_trip(enc: impl Fn(&[u8]) -> Vec<u8> + Send + Sync + 'static, cte: &'static str) -> Check {
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let mut b = format!("{}Content-Transfer-Encoding: {}\r\n\r\n", HEAD, cte).into_bytes();
        b.extend_from_slice(&enc(input));
        let got = match ask(ctx, &b, false, true) {
            Ok(g) => g.res,
            Err(e) => return Verdict { outcome: fp(&e), bad: Some(e), class: 5 },
        };
        let value = match &got {
            model::Res::Ok(o) => o.ent.as_ref().map(|e| e.value.clone()),
            _ => None,
        };
        let bad = if value.as_deref() != Some(input) {
            Some(format!("{} of {:?} came back as {:?}", cte, input, value.as_ref()))
        } else {
            None
        };
        Verdict { bad, outcome: fp(&value), class: 4 }
    })
}
fn wrapped(v: Vec<u8>, n: usize) -> Vec<u8> {
    v.chunks(n).collect::<Vec<_>>().join(&b"\r\n"[..])
}
fn c17(d: D, m: &Check, md: &Check) -> Vec<Space> {
    let c = codec("base64");
    let t = tb(&[b"A", b"Q", b"/", b"+", b"=", b"\r\n", b"-", b"9", b"z", b"\x80"]);
    let al: Vec<G> = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".iter().map(|c| l([*c])).collect();
    let a = alt(al);
    let rt = |n: usize| round_trip(move |b| wrapped(b64(b), n), "base64");
    let some = tb(&[b"\0", b"A", b"\x7f", b"\x80", b"\xff", b"\x0f", b"\xf0", b"\x3f", b"\xfc", b"\r", b"\n"]);
    let ctx = |g: &G| alt(vec![
        msg(l("Content-Transfer-Encoding: base64\r\n"), g.clone()),
        part_of(cat(vec![l("Content-Transfer-Encoding: BASE64\r\n\r\n"), g.clone()])),
        field("Subject", cat(vec![l("=?iso-8859-1?b?"), g.clone(), l("?=")])),
        field("Keywords", cat(vec![l("=?utf-8?B?"), g.clone(), l("?=")])),
    ]);
    let sample = b64(b"any carnal pleas\0\xff\x80ure.");
    let q3 = cat(vec![a.clone(), a.clone(), a.clone()]);
    let mut v = vec![
        space("token sequences", seq(t.clone(), 0, d(6, 7)), &c),
        space("symbol sequences", seq(tb(&[b"A", b"b", b"=", b"!", b"\r\n"]), 0, d(8, 10)), &c),
        space("every byte pair after a symbol", cat(vec![l("Q"), bytes(), bytes(), ts(&["", "=", "==", "D", "DD"])]), &c),
        space("one-byte quanta", cat(vec![a.clone(), a.clone(), l("==")]), &c),
        space("two-byte quanta", cat(vec![q3.clone(), l("=")]), &c),
        space("three-byte quanta, first three symbols", cat(vec![q3.clone(), ts(&["A", "/", "k"])]), &c),
        space("three-byte quanta, last three symbols", cat(vec![ts(&["A", "/", "k"]), q3]), &c),
        space("round trip: up to 2 bytes", seq(bytes(), 0, 2), &rt(76)),
        space("round trip: boundary bytes", seq(some, 0, d(4, 5)), &rt(4)),
        space("round trip: 3 bytes", cat(vec![G::Byte(b'a', b'd'), bytes(), bytes()]), &rt(3)),
        space("round trip: lengths", pump(bytes(), upto(d, 30, 120)), &rt(76)),
        space("round trip: long lengths", pump(tb(&[b"a", b"\xff\0\x80", b"xyz12"]), upto(d, 600, 3000)), &rt(76)),
        space("round trip: odd line lengths", pump(tb(&[b"a", b"\xff\0\x80", b"xyz12"]), upto(d, 200, 600)), &rt(5)),
        space("one byte changed", near(&sample), &c),
        space("one byte changed (two)", near2(&sample), &c),
        space("junk inserted twice", insert2(&sample, &[b"\r\n", b" ", b"=", b"-", b"\xff", b"Q", b"=="]), &c),
        space("pieces", pieces(&sample), &c),
        space("concatenated encodings", seq(ts(&["QQ==", "QUI=", "QUJD", "=", "\r\n", "Q", "QQ=", " "]), 0, d(5, 6)), &c),
        space("in every place: token sequences", ctx(&seq(t, 0, d(4, 5))), md),
        space("in every place: one byte changed", ctx(&near(&sample)), md),
        space("as a multipart", cat(vec![head(), l("Content-Type: multipart/mixed; boundary=b\r\nContent-Transfer-Encoding: base64\r\n\r\n"), mapped(seq(tb(&[b"--b\r\n", b"--b--\r\n", b"\r\n", b"x", b"Content-ID: <a@b>\r\n"]), 0, d(5, 6)), |b, o| o.extend_from_slice(&wrapped(b64(b), 20)))]), md),
    ];
    if d(0, 1) == 1 {
        v.push(space("every quantum", cat(vec![a.clone(), a.clone(), a.clone(), a]), &c));
        v.push(space("message: every byte pair", ctx(&cat(vec![l("Q"), bytes(), bytes(), l("=")])), m));
    }
    v
}
fn qp_encode(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut col = 0;
    for c in b {
        if col >= 70 {
            o.extend_from_slice(b"=\r\n");
            col = 0;
        }
        if (33..=126).contains(c) && *c != b'=' {
            o.push(*c);
            col += 1;
        } else {
            o.extend_from_slice(format!("={:02X}", c).as_bytes());
            col += 3;
        }
    }
    o
}
fn qp_all(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for (i, c) in b.iter().enumerate() {
        if i % 3 == 2 {
            o.extend_from_slice(b"=\r\n");
        }
        o.extend_from_slice(format!("={:02x}", c).as_bytes());
    }
    o
}
fn c18(d: D, m: &Check, md: &Check) -> Vec<Space> {
    let c = codec("qp");
    let t = tb(&[b"=", b"\r\n", b"A", b"3", b"d", b"g", b" ", b"_", b"\x80", b"\r", b"\n", b"=3D"]);
    let rt = round_trip(qp_encode, "quoted-printable");
    let rt2 = round_trip(qp_all, "quoted-printable");
    let sample = b"caf=C3=A9 =\r\n x=3D1\t=0A.\r\nz=20";
    let ctx = |g: &G| alt(vec![
        msg(l("Content-Transfer-Encoding: quoted-printable\r\n"), g.clone()),
        part_of(cat(vec![l("Content-Transfer-Encoding: Quoted-Printable\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n"), g.clone()])),
        field("Subject", cat(vec![l("=?iso-8859-1?q?"), g.clone(), l("?=")])),
        field("Keywords", cat(vec![l("=?utf-8?Q?"), g.clone(), l("?=")])),
    ]);
    let some = tb(&[b"\0", b"A", b" ", b"\t", b"=", b"\x7f", b"\x80", b"\xff", b"\r", b"\n", b"_", b"?"]);
    let mut v = vec![
        space("token sequences", seq(t.clone(), 0, d(5, 6)), &c),
        space("escape symbols", seq(tb(&[b"=", b"4", b"1", b"f", b"\r\n"]), 0, d(8, 9)), &c),
        space("every escape", cat(vec![ts(&["", "a"]), l("="), bytes(), bytes(), ts(&["", "b", "="])]), &c),
        space("every byte pair", cat(vec![ts(&["", "a"]), bytes(), bytes(), ts(&["", "z"])]), &c),
        space("truncated escapes", cat(vec![seq(ts(&["a", "=41", "=\r\n"]), 0, 2), ts(&["=", "=4", "=\r", "==", "=\n", "=4=", "=\r="])]), &c),
        space("round trip: up to 2 bytes", seq(bytes(), 0, 2), &rt),
        space("round trip, everything escaped: up to 2 bytes", seq(bytes(), 0, 2), &rt2),
        space("round trip: boundary bytes", seq(some.clone(), 0, d(4, 5)), &rt),
        space("round trip, everything escaped: boundary bytes", seq(some, 0, d(4, 5)), &rt2),
        space("round trip: lengths", pump(tb(&[b"a", b"\xff\0\x80", b"= \r\n", b" "]), upto(d, 200, 800)), &rt),
        space("one byte changed", near(sample), &c),
        space("one byte changed (two)", near2(sample), &c),
        space("two insertions", insert2(sample, &[b"=", b"\r\n", b"\r", b"\n", b"4", b" ", b"\xff", b"=\r\n"]), &c),
        space("pieces", pieces(sample), &c),
        space("in every place: token sequences", ctx(&seq(t, 0, d(4, 5))), md),
        space("in every place: every escape", ctx(&cat(vec![l("="), bytes(), bytes()])), md),
        space("in every place: one byte changed", ctx(&near(sample)), md),
        space("as a multipart", cat(vec![head(), l("Content-Type: multipart/mixed; boundary=b\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\n"), seq(tb(&[b"--b\r\n", b"--b--\r\n", b"\r\n", b"x", b"=2D-b\r\n", b"--=\r\nb", b"=0D=0A", b"Content-ID: <a@b>\r\n"]), 0, d(5, 6))]), md),
        space("other encodings leave the body alone", msg(cat(vec![l("Content-Transfer-Encoding: "), ts(&["7bit", "8bit", "binary", "8BIT", "x", "7bits", "base", "quoted"]), l("\r\n")]), seq(tb(&[b"=41", b"=", b"\r\n", b"\x80", b"Q==", b"\0", b"\n"]), 0, d(4, 5))), md),
    ];
    if d(0, 1) == 1 {
        v.push(space("three bytes after an escape", cat(vec![l("="), bytes(), tb(&[b"4", b"\n", b"g", b"="]), bytes()]), &c));
        v.push(space("message: every byte pair", ctx(&cat(vec![bytes(), bytes()])), m));
    }
    v
}

// ---------------------------------------------------------------- C19 Content-Type and parameters
fn raw_params() -> Vec<&'static str> {
    vec![
        ";a=b", ";A=x", ";a=\"q;\"", ";b=z", ";a*0=m", ";a*1=n", ";a*2=\"o p\"", ";a*0*=utf-8'en'%C3%A9", ";a*0*=ISO-8859-1''%e9%2541", ";a*1*=%C3%A9x", ";a*1*=\"%41 %\"", ";a*0*=x''%41", ";a*1*=%e9",
        ";a*=utf-8''%41'", ";a*=utf-8'%41", ";a*0*=bad", ";a*01=k", ";a*256=k", ";a**=k", ";a*x=k", ";*0=k", ";a*0*1=k", ";b*0=t", ";b*1*=%41", ";b*3=u", ";a*=gb2312''%b0%a1", ";a*00=w",
    ]
}
fn params_in(d: D, ctx: &dyn Fn(G) -> G, prefix: &str, m: &Check) -> Vec<Space> {
    let t = ts(&[";", "a", "=", "*", "0", "'", "%41", "\"q\"", " ", "(c)", "utf-8", "\r\n "]);
    let raw = ts(&raw_params());
    let c = |g: G| ctx(cat(vec![l(prefix), g]));
    let pct = tb(&[b"%", b"4", b"1", b"C3", b"%A9", b"g", b"'", b"%C3"]);
    let all = all();
    vec![
        space(format!("{}: parameter token sequences", prefix), c(seq(t.clone(), 0, d(5, 6))), m),
        space(format!("{}: every choice of parameters", prefix), c(seq(raw.clone(), 0, d(3, 4))), m),
        space(format!("{}: after the name", prefix), c(cat(vec![l(";a"), seq(t, 0, d(4, 5))])), m),
        space(format!("{}: percent text", prefix), c(cat(vec![ts(&[";a*=utf-8''", ";a*0*=iso-8859-1'x'", ";a*0*=koi8-r''", ";a*0*=us-ascii''z;a*1*="]), seq(pct, 0, d(4, 5))])), m),
        space(format!("{}: every percent escape", prefix), c(cat(vec![l(";a*=iso-8859-1''"), ts(&["", "%"]), l("%"), bytes(), bytes(), ts(&["", "1"])])), m),
        space(format!("{}: every pair of bytes as value", prefix), c(cat(vec![ts(&[";a=", ";a*0=", ";a=\"", ";a*=utf-8''"]), bytes(), bytes(), ts(&["", "\""])])), m),
        space(format!("{}: every pair of bytes as name", prefix), c(cat(vec![l(";"), bytes(), bytes(), l("=v")])), m),
        space(format!("{}: one byte changed", prefix), c(near(b"; a=b ;c=\"d \\\" e\"; f*0*=utf-8'x'%C3%A9; f*1=g\r\n ; f*2*=%41 (c)")), m),
        space(format!("{}: one byte changed (two)", prefix), c(near2(b"; a=b ;c=\"d \\\" e\"; f*0*=utf-8'x'%C3%A9; f*1=g\r\n ; f*2*=%41 (c)")), m),
        // the same values as they come with and without a copy of the text
        space(format!("{}: values in quotes", prefix), c(seq(cat(vec![ts(&[";a*=", ";a*0*=", ";a*0=", ";A*1*=", ";a*1=", ";a="]), ts(&["utf-8'x'%41", "\"utf-8'x'%41\"", "\"utf-8'x'\\%41\"", "\"ISO-8859-1'\\x'%e9\\\"\"", "\"utf-8''\r\n %41 z\"", "\"\\u\\tf-8'\\'%C3\\%A9\"", "\"utf-8'\\x%41\"", "\"\\utf-8\"", "b", "\"c\\\"%42\""])]), 1, d(3, 3))), m),
        space(format!("{}: values in quotes, one byte changed", prefix), c(alt(vec![near(b";a*=\"Utf-8'x'\\%41%C3%a9\""), near(b";b*1*=\"\\%42\";b*0*=\"iso-8859-1'\\e'\\%e9\r\n z\"")])), m),
        space(format!("{}: two insertions", prefix), c(insert2(b";a*0*=utf-8''%41;a*1=b", &[b"*", b"'", b"%", b"\"", b" ", b";", b"=", b"0", b"(c)"])), m),
        space(format!("{}: number of pieces", prefix), c(fun(6 * d(300, 400) as u64, |i, o| {
            let (n, k) = (i / 6, i % 6);
            for j in 0..n {
                let j = if k >= 3 { n - 1 - j } else { j }; // in reverse order too
                let star = match k % 3 { 0 => "", 1 => "*", _ => if j % 2 == 0 { "*" } else { "" } };
                let v = if j == 0 && star == "*" { "utf-8''a" } else { "%41b" };
                o.extend_from_slice(format!(";n*{}{}={}", j, star, v).as_bytes());
            }
        })), m),
        space(format!("{}: one piece missing or twice", prefix), c(fun(12 * 12 * 12, |i, o| {
            let (n, gap, dup) = (i % 12, i / 12 % 12, i / 144);
            for j in 0..=n {
                if j != gap {
                    o.extend_from_slice(format!(";n*{}=v{}", j, j).as_bytes());
                }
                if j == dup {
                    o.extend_from_slice(format!(";n*{}*=w%41", j).as_bytes());
                }
            }
        })), m),
        space(format!("{}: piece numbers", prefix), c(cat(vec![l(";a*0=x;a*"), fun(1000, |i, o| o.extend_from_slice(i.to_string().as_bytes())), ts(&["", "*"]), l("=y;a*1=z")])), m),
        space(format!("{}: number of parameters", prefix), c(alt(vec![
            pump(ts(&[";a=b", "; c=\"d\"\r\n ", ";e*=utf-8''%41"]), upto(d, 200, 1500)),
            fun(d(200, 1000) as u64, |i, o| for j in 0..i { o.extend_from_slice(format!(";p{}=v{}", j, j).as_bytes()) }),
        ])), m),
        space(format!("{}: value lengths", prefix), c(alt(vec![
            cat(vec![l(";a="), pump(ts(&["b", "cd"]), upto(d, 200, 1500))]),
            cat(vec![l(";a=\""), pump(ts(&["b", " c", "\\d", "\r\n e"]), upto(d, 200, 1500)), l("\"")]),
            cat(vec![l(";a*=utf-8''"), pump(ts(&["b", "%41", "%", "%C3%A9", "%2"]), upto(d, 200, 1500))]),
            cat(vec![l(";"), pump(ts(&["b", "C"]), upto(d, 200, 1500)), l("=v")]),
        ])), m),
    ]
}
fn c19(d: D, m: &Check) -> Vec<Space> {
    let t = ts(&["text", "/", "plain", ";", "a", "=", "*", "0", "'", "%41", "\"q\"", " ", "(c)"]);
    let types = ts(&["text", "image", "audio", "video", "application", "message", "multipart", "font", "x-text", "tex", "textual", "texts", "text1", "t", "multi", "applications", "x-multipart", "imag", "messages", "message-x", "videos", "audi", "\"text\"", "", "text*", "text-x"]);
    let subs = ts(&["plain", "PLAIN", "html", "x.y+z", "vnd.a-b", "", "\"q\"", "p*", "a'b", "p/q", "p q", "mixed"]);
    let all = all();
    let mut v = vec![
        space("token sequences", ct(seq(t, 0, d(4, 5))), m),
        space("type x subtype x spacing", ct(cat(vec![ts(&["", " ", "(c)", "\r\n "]), types, ts(&["/", " / ", "", "//", "\\"]), subs, ts(&["", " ", " ;a=b", "; charset=utf-8", ";", " (x)", " (x) (y)", "\r\n ", " x"])])), m),
        space("every pair of bytes in the type", ct(cat(vec![ts(&["", "t", "text"]), bytes(), bytes(), l("/plain")])), m),
        space("every pair of bytes in the subtype", ct(cat(vec![l("text/"), bytes(), bytes(), ts(&["", "x"])])), m),
        space("one byte changed", ct(near(b" text/plain; charset=\"utf-8\"")), m),
        space("one byte changed (two)", ct(near2(b" text/plain; charset=\"utf-8\"")), m),
        space("in a part: one byte changed", part_of(cat(vec![l("Content-Type:"), near(b" image/png; name*0*=utf-8''%41; name*1=b"), l("\r\n\r\nx")])), &oracle::message(true)),
        space("in a part: one byte changed (two)", part_of(cat(vec![l("Content-Type:"), near2(b" image/png; name*0*=utf-8''%41; name*1=b"), l("\r\n\r\nx")])), &oracle::message(true)),
        space("known types with one byte changed", ct(alt(["text", "image", "audio", "video", "application", "message", "multipart"].iter().map(|n| cat(vec![near(n.as_bytes()), l("/x")])).collect())), m),
    ];
    v.extend(params_in(d, &|g| ct(g), "text/plain", m));
    v
}

// ---------------------------------------------------------------- C20 the other MIME fields
fn c20(d: D, m: &Check) -> Vec<Space> {
    let all = all();
    let md = oracle::message(true);
    let cte = |g: G| field("Content-Transfer-Encoding", g);
    let ver = |g: G| field("MIME-Version", g);
    let full_dt = "1 Jan 2020 10:20 +0000";
    let mut v = vec![
        space("transfer encodings", msg(cat(vec![l("Content-Transfer-Encoding:"), ts(&["", " ", "(c)", "\r\n "]), ts(&["7bit", "8bit", "binary", "base64", "quoted-printable", "7bits", "base64x", "x-uu", "8bi", "quoted", "", "\"7bit\"", "7 bit", "binary;x", "9bit", "BaSe64", "quoted-printables"]), ts(&["", " ", " (x)", " (x)(y)", "\r\n ", ";", " x"]), l("\r\n")]), ts(&["QUJD", "=41", "Q", ""])), &md),
        space("transfer encodings: one byte changed", cte(alt(["7bit", "8bit", "binary", "base64", "quoted-printable"].iter().map(|n| near(n.as_bytes())).collect())), &md),
        space("transfer encodings in a part", part_of(cat(vec![l("Content-Transfer-Encoding:"), alt(["7bit", "8bit", "binary", "base64", "quoted-printable"].iter().map(|n| edits1(n.as_bytes(), b"aB1 ;x-")).collect()), l("\r\n\r\nQUJD=41")])), &md),
        space("versions: token sequences", ver(seq(ts(&["1", ".", "0", " ", "(c)", "255", "256", "a", "00", "\r\n "]), 0, d(5, 6))), m),
        space("versions: every number", ver(alt(vec![cat(vec![fun(1100, |i, o| o.extend_from_slice(i.to_string().as_bytes())), l(".0")]), cat(vec![l("1."), fun(1100, |i, o| o.extend_from_slice(i.to_string().as_bytes()))])])), m),
        space("versions: one byte changed", ver(near(b" (a) 1.0 (b) ")), m),
        space("versions: one byte changed (two)", ver(near2(b" (a) 1.0 (b) ")), m),
        space("descriptions", field("Content-Description", seq(ts(&["a", " ", "\r\n ", "=?utf-8?q?=C3=A9?=", "(c)", "\"q\"", ";", "=?"]), 0, d(5, 6))), m),
        space("ids", field("Content-ID", seq(ts(&["<", ">", "@", "a", ".", " ", "(c)", "[x]"]), 0, d(5, 6))), m),
        space("defaults: which fields are there", cat(vec![head(), arrangements(&["Content-Type: text/html\r\n", "Content-Type: bad\r\n", "Content-Type: image/x; charset=utf-8\r\n", "Content-Transfer-Encoding: 8bit\r\n", "Content-Transfer-Encoding: bad bad\r\n", "Content-ID: <a@b>\r\n", "Content-ID: bad\r\n", "Content-Description: d\r\n", "Content-Disposition: inline\r\n", "Content-Disposition: bad;\r\n", "MIME-Version: 1.0\r\n", "Content-Language: fr\r\n"], 0, d(3, 4)), ts(&["", "\r\n", "\r\nb\u{e9}dy"])]), &md),
        space("defaults: which fields are there, in a part", part_of(cat(vec![arrangements(&["Content-Type: text/html\r\n", "Content-Type: bad\r\n", "Content-Type: image/x; charset=utf-8\r\n", "Content-Transfer-Encoding: 8bit\r\n", "Content-Transfer-Encoding: base64\r\n", "Content-Transfer-Encoding: bad bad\r\n", "Content-ID: <a@b>\r\n", "Content-ID: bad\r\n", "Content-Description: d\r\n", "Content-Disposition: inline\r\n", "Content-Disposition: bad;\r\n", "MIME-Version: 1.0\r\n", "Content-Language: fr\r\n", "From: a@b\r\n"], 0, d(3, 4)), ts(&["", "\r\n", "\r\nQUJD"])])), &md),
        space("MIME lines of every shape, two or three of them", {
            let sh: Vec<String> = shapes().into_iter().filter(|x| x.starts_with("Content-") || x.starts_with("MIME") || x.starts_with("X-")).collect();
            let sr: Vec<&str> = sh.iter().map(|s| s.as_str()).collect();
            let some: Vec<&str> = if d(0, 1) == 1 { sr.clone() } else { sr.iter().copied().step_by(2).collect() };
            let b = tb(&[b"", b"\r\nw6k=", b"\r\n--b\r\nX: y\r\n\r\n=C3=A9\xe9\r\n--b b\r\n\r\nx\r\n--b b--\r\n--b--"]);
            alt(vec![
                cat(vec![head(), arrangements(&sr, 2, 2), b.clone()]),
                cat(vec![head(), arrangements(&some, 3, 3), b.clone()]),
                part_of(cat(vec![arrangements(&sr, 2, 2), tb(&[b"", b"\r\nw6k=", b"\r\n--b b\r\n\r\nx\r\n--b b--"])])),
            ])
        }, &md),
        space("MIME lines of every shape in a big entity", {
            let sh: Vec<String> = shapes().into_iter().filter(|x| x.starts_with("Content-") || x.starts_with("MIME") || x.starts_with("X-")).collect();
            let one = || ts(&sh.iter().map(|s| s.as_str()).collect::<Vec<_>>());
            let fill = || alt(vec![pump(l("X: y\r\n"), [120, 700, 11_000]), cat(vec![l("X:"), pump(l(" y"), [120, 1_030, 33_000]), l("\r\n")])]);
            let text = || cat(vec![l("\r\n"), pump(ts(&["w6k=", "=C3=A9 \r\n"]), [75, 300, 17_000])]);
            let lines = || alt(vec![cat(vec![one(), fill(), l("\r\nw6k=")]), cat(vec![fill(), one(), l("\r\nw6k=")]), cat(vec![one(), text()])]);
            alt(vec![cat(vec![head(), lines()]), part_of(lines()), part_of(cat(vec![ts(&["", "X: y\r\n", "Content-Type: text/x; charset=utf-8\r\n", "Content-Transfer-Encoding: base64\r\n"]), l("\r\nxyzt\r\n--b\r\n"), lines(), l("\r\n--b\r\n\r\nlast")]))])
        }, &md),
        space("default charset decides how the body reads", msg(ts(&["", "Content-Type: text/plain\r\n", "Content-Type: text/plain; charset=us-ascii\r\n", "Content-Type: text/plain; charset=x\r\n", "Content-Type: text\r\n", "content-type: multipart/mixed\r\n", "Content-Type: message/rfc822\r\n"]), seq(tb(&[b"a", b"\xe9", b"\xc3\xa9", b"\r\n", b"\0", b"\n"]), 0, d(4, 5))), &md),
    ];
    if DISP {
        let kinds = ts(&["inline", "attachment", "form-data", "INLINE", "inlinex", "in", "attachments", "attachment-x", "", "\"inline\"", "x"]);
        let pars = [";filename=f", "; FileName=\"g h\"", ";filename=\"\"", ";filename*=utf-8''%41", ";filename*0=a", ";filenames=x", ";size=12", ";creation-date=\"1 Jan 2020 10:20 +0000\"", ";read-date=\"2 Jan 2020 10:20 +0000\" ", ";modification-date=\"3 Jan 2020 10:20 +0000\"", ";creation-date=\"bad\"", ";creation-date=1", ";read-date=\"x", ";x*0=a;x*1=b", ";y*=utf-8''%C3%A9", "; x=\"q\"", ";modification-date=\"\"", ";bad", ";filename", ";creation-dates=\"1 Jan 2020 10:20 +0000\""];
        let names = ["filename", "creation-date", "modification-date", "read-date", "size", "filename*", "filename*0", "filename*0*", "filename*1", "name"];
        v.extend([
            space("dispositions: kind x two parameters", cd(cat(vec![ts(&["", " ", "(c)"]), kinds, seq(ts(&pars), 0, d(2, 2)), ts(&["", " ", " (x) "])])), m),
            space("dispositions: every choice of parameters", cd(cat(vec![l("inline"), seq(ts(&pars), 0, d(3, 4))])), m),
            space("dispositions: token sequences", cd(cat(vec![l("inline"), seq(ts(&[";", "filename", "=", "f", "\"", "*", "0", "read-date", "1 Jan 2020 10:20 +0000", " ", "(c)", "utf-8''%41"]), 0, d(5, 6))])), m),
            space("ways of giving a parameter", cd(alt(vec![
                cat(vec![ts(&["inline;", "Attachment; a=b; "]), alt(vec![ways("filename", "report.txt"), ways("filename", "ab"), ways("size", "12")]), ts(&["", ";c=\"d\"", " (z) "])]),
                cat(vec![l("attachment;"), alt(["creation-date", "modification-date", "read-date"].iter().map(|n| cat(vec![ways(n, "1 Jan 2020 10:20 +0000"), ts(&["", ";c=d"])])).collect())]),
            ])), m),
            // which of several values counts
            space("dispositions: parameters given again", cd(cat(vec![l("attachment"), seq(cat(vec![ts(&[";creation-date=", ";Modification-Date=", "; read-date=", ";filename=", ";size=", ";filename*="]), ts(&["\"1 Jan 2020 10:20 +0000\"", "\"2 Feb 2021 11:21:22 -0130\"", "f", "utf-8''g"])]), 1, d(3, 4))])), m),
            space("dispositions: one byte changed", cd(near(format!(" attachment; filename=\"a b\";\r\n creation-date=\"{}\"; x*0*=utf-8''%41", full_dt).as_bytes())), m),
            space("dispositions: one byte changed (two)", cd(near2(format!(" attachment; filename=\"a b\";\r\n creation-date=\"{}\"; x*0*=utf-8''%41", full_dt).as_bytes())), m),
            space("dispositions: kinds with one byte changed", cd(alt(vec![cat(vec![near(b"inline"), ts(&["", ";filename=f"])]), near(b"attachment")])), m),
            space("dispositions: names with one byte changed", cd(alt(vec![cat(vec![l("x;"), near(b"filename"), l("=f")]), cat(vec![l("x;"), alt(["creation-date", "modification-date", "read-date"].iter().map(|n| near(n.as_bytes())).collect()), l("=\"1 Jan 2020 10:20 +0000\"")])])), m),
            space("dispositions: name x value", cd(cat(vec![ts(&["inline", "attachment;a=b"]), l(";"), ts(&names), ts(&["=", " =", "= "]), ts(&["f", "\"f\"", "\"\"", "", "\"1 Jan 2020 10:20 +0000\"", "1", "\"(c) 1 Jan 2020 10:20 +0000\"", "\"Wed, 1 Jan 2020 10:20 +0000 (c) \"", "utf-8''%41", "\"utf-8''%41\"", "\"a\\\"b\""]), ts(&["", ";filename=g", ";b=c"])])), m),
            space("file names: every pair of bytes", cd(cat(vec![ts(&["x;filename=", "x;filename=\"", "inline;filename=\"a\\"]), bytes(), bytes(), ts(&["", "\"", "b\""])])), m),
            space("dispositions in a part: one byte changed", part_of(cat(vec![l("Content-Disposition:"), near(b" attachment; filename=\"a b\"; size=1"), l("\r\n\r\nx")])), &md),
        ]);
        if d(0, 1) == 1 {
            v.extend(params_in(d, &|g| cd(g), "inline", m));
        } else {
            let mut p = params_in(d, &|g| cd(g), "inline", m);
            p.retain(|s| s.name.contains("every choice") || s.name.contains("percent text") || s.name.contains("one piece"));
            v.extend(p);
        }
    }
    v
}

// ---------------------------------------------------------------- C21 multiparts
/// Ways of saying that the parameter `n` is `v` (of two characters or more): as a token, in quotes, escaped,
/// folded, extended, in pieces, and some that nearly say it.
fn ways(n: &str, v: &str) -> G {
    let (a, b) = v.split_at(1);
    let all: String = v.bytes().map(|c| format!("%{:02x}", c)).collect();
    let esc: String = v.chars().map(|c| format!("\\{}", c)).collect();
    let mut w = vec![];
    for name in [n.to_string(), n.to_uppercase(), format!("{}{}", &n[..1].to_uppercase(), &n[1..])] {
        let n = &name;
        for x in [v.to_string(), format!("\"{}\"", v), format!("\"\\{}{}\"", a, b), format!("\"{}\"", esc), format!("\"{}\\{}\"", a, b), format!("\"{}\r\n {}\"", a, b), format!("\" {} \"", v), format!("\"{}\\\"\"", v), format!("'{}'", v), format!("(x){} (y)", v), format!("\r\n {}", v), format!("\"\"{}", v), v.to_uppercase(), all.clone()] {
            w.push(format!("{}={}", n, x));
        }
        for x in [v.to_string(), all.clone(), format!("{}{}", a, all.split_at(3).1)] {
            for (cs, lang) in [("utf-8", ""), ("US-ASCII", "en"), ("iso-8859-1", "x"), ("gb2312", ""), ("koi8-r", ""), ("", "")] {
                w.push(format!("{}*={}'{}'{}", n, cs, lang, x));
                w.push(format!("{}*=\"{}'{}'{}\"", n, cs, lang, x));
                w.push(format!("{}*=\"{}'\\{}'{}\"", n, cs, if lang == "" { "e" } else { lang }, x));
                w.push(format!("{}*0*={}'{}'{}", n, cs, lang, x));
                w.push(format!("{}*0*=\"{}'{}'\\{}\"", n, cs, lang, x));
            }
        }
        for x in ["@*0=A;@*1=B", "@*1=B;@*0=A", "@*0=\"\\A\";@*1=\"\\B\"", "@*0=\"A\";@*1=\"B\"", "@*0*=utf-8''A;@*1*=B", "@*0*=utf-8''A;@*1=B", "@*1*=\"B\";@*0*=\"utf-8''\\A\"", "@*0=A;@*1*=B", "@*0=A;@*2=B", "@*1=AB", "@*0=A;@=B", "@*0=AB;@=zz", "@=zz;@=AB", "@=AB;@=zz", "@*=utf-8'A;@=AB", "@*0*=A;@*1*=B", "@*0=A;x=y;@*1=B", "@*0=;@*1=A;@*2=B"] {
            w.push(x.replace('A', a).replace('B', b).replace('@', n));
        }
    }
    let r: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
    ts(&r)
}
fn multi(params: &str, body: G) -> G {
    cat(vec![head(), l(format!("Content-Type: multipart/mixed; {}\r\n\r\n", params)), body])
}
fn c21(d: D, md: &Check) -> Vec<Space> {
    let t = ts(&["--b\r\n", "--b--\r\n", "--b--", "\r\n", "--b", "x", "--bb\r\n", "H:v\r\n", "-", " "]);
    let raw = ts(&["-", "b", "\r", "\n", "\r\n", "x"]);
    let outer_inner = |o: &str, i: &str| -> Vec<String> {
        vec![format!("--{}\r\n", o), format!("--{}--\r\n", o), format!("--{}\r\n", i), format!("--{}--\r\n", i), "\r\n".into(), "x\r\n".into(), format!("Content-Type: multipart/alternative; boundary=\"{}\"\r\n", i)]
    };
    let nest = |o: &'static str, i: &'static str, n: usize| -> G {
        let lines = outer_inner(o, i);
        let lr: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
        multi(&format!("boundary=\"{}\"", o), seq(ts(&lr), 0, n))
    };
    let part_lines = ts(&["Content-Type: text/html\r\n", "Content-Transfer-Encoding: base64\r\n", "X: y\r\n", "\r\n", "QUJD", "bad line\r\n", "\r\n--b\r\n", "Content-ID: <a@b>\r\n", "Content-Type: bad\r\n"]);
    let bchars = alt(b"0123456789ABCXYZabcxyz'()+_,-./:=? ".iter().map(|c| l([*c])).collect());
    let all_ = all();
    let sample: &[u8] = b"pre\r\n--b\r\nContent-ID: <a@b>\r\n\r\none\r\n--b\r\n\r\ntwo\r\n\r\n--b--\r\nepi\r\n--b\r\n\r\nno\r\n--b--\r\n";
    // a boundary chosen by the generator, used in the parameter and the delimiters
    let with_boundary = |g: G, body: fn(&[u8], &mut Vec<u8>)| -> G {
        mapped(g, move |b, o| {
            o.extend_from_slice(HEAD.as_bytes());
            o.extend_from_slice(b"Content-Type: multipart/x; boundary=\"");
            o.extend_from_slice(b);
            o.extend_from_slice(b"\"\r\n\r\n");
            body(b, o);
        })
    };
    fn two_parts(b: &[u8], o: &mut Vec<u8>) {
        for s in [&b"--"[..], b, b"\r\n\r\none\r\n--", b, b"\r\n\r\ntwo -- ", b, b"\r\n--", b, b"--\r\n"] {
            o.extend_from_slice(s);
        }
    }
    fn lookalikes(b: &[u8], o: &mut Vec<u8>) {
        for s in [&b"--"[..], b, b"x\r\n--", b, b"\r\n\r\n--x", b, b"\r\n-", b, b"\r\n--", &b[..b.len().saturating_sub(1)], b"\r\n --", b, b"\r\n--", b, b"-\r\n--", b, b"--x\r\n--", b, b"--\r\n"] {
            o.extend_from_slice(s);
        }
    }
    let mut v = vec![
        space("token sequences", multi("boundary=b", seq(t.clone(), 0, d(5, 7))), md),
        space("token sequences inside", multi("boundary=b", cat(vec![l("--b\r\n"), seq(t.clone(), 0, d(4, 5)), l("\r\n--b--\r\n")])), md),
        space("token sequences after the first part", multi("boundary=b", cat(vec![l("p\r\n--b\r\n\r\none"), seq(t, 0, d(5, 6))])), md),
        space("raw symbols", multi("boundary=b", cat(vec![ts(&["", "--b\r\n"]), seq(raw.clone(), 0, d(6, 7)), ts(&["", "\r\n--b--\r\n"])])), md),
        space("part lines", multi("boundary=b", cat(vec![l("--b\r\n"), seq(part_lines, 0, d(5, 6)), l("\r\n--b--")])), md),
        space("nested: outer b, inner c", nest("b", "c", d(6, 7)), md),
        space("nested: inner extends outer", nest("b", "bb", d(5, 7)), md),
        space("nested: outer extends inner", nest("b-", "b", d(5, 7)), md),
        space("nested: inner looks like a closing outer", nest("b", "b--", d(5, 7)), md),
        space("nested: the same boundary", nest("b", "b", d(5, 7)), md),
        space("boundaries of up to two characters", with_boundary(seq(bchars.clone(), 0, 2), two_parts), md),
        space("boundaries of up to two characters, lookalikes", with_boundary(seq(bchars, 1, 2), lookalikes), md),
        space("boundary lengths", with_boundary(pump(ts(&["a", "-", "=x", "a ", "--a"]), upto1(d, 120, 400)), two_parts), md),
        space("boundary lengths, lookalikes", with_boundary(pump(ts(&["a", "-", "ab"]), upto1(d, 120, 400)), lookalikes), md),
        space("boundaries made of dashes and repeats", with_boundary(seq(ts(&["-", "a", "=", "b"]), 0, d(5, 7)), lookalikes), md),
        space("no boundary", cat(vec![head(), l("Content-Type: multipart/"), ts(&["mixed", "MIXED; x=y", "alternative; boundary", "mixed; boundary=\"\"", "mixed; boundary*0=b; boundary*1=c", "mixed; boundary*=utf-8''%62", "digest; BOUNDARY=b", "mixed; boundary=B"]), l("\r\n\r\n"), ts(&["", "--\r\n\r\n----\r\n", "--b\r\n\r\nx\r\n--b--\r\n", "--bc\r\n\r\nx\r\n--bc--", "--\r\nx\r\n--\r\ny\r\n----"])]), md),
        space("ways of giving the boundary", cat(vec![head(), l("Content-Type: multipart/x;"), alt(vec![ways("boundary", "bc"), ways("boundary", "b=c"), ways("boundary", "b'c"), ways("boundary", "--")]), ts(&["", ";c=\"d\"", " (z) "]), l("\r\n\r\n"), ts(&["--bc\r\n\r\nx\r\n--bc--", "--b=c\r\n\r\nx\r\n--b=c--", "--b'c\r\n\r\nx\r\n--b'c--", "----\r\n\r\nx\r\n------", "--b c\r\n\r\nx\r\n--b c--", "--\r\n\r\nx\r\n----", "--BC\r\n\r\nx\r\n--BC--\r\n--bc\r\n"])]), md),
        space("one byte changed", multi("boundary=b", near(sample)), md),
        space("one byte changed (two)", multi("boundary=b", near2(sample)), md),
        space("two insertions", multi("boundary=b", insert2(b"--b\r\n\r\none\r\n--b\r\n\r\ntwo\r\n--b--\r\n", &[b"\r\n", b"\r", b"\n", b"-", b" ", b"--b", b"b", b"\r\n--b\r\n", b"\r\n--b--"])), md),
        space("pieces", multi("boundary=b", pieces(sample)), md),
        space("tokens in place of up to 4 bytes", multi("boundary=b", insert_token(sample, &[b"", b"\r\n", b"--", b"--b\r\n", b"\r\n--b--\r\n", b"\r\n--b", b"\0", b"\xff", b"\t"], 4)), md),
        space("number of parts", multi("boundary=b", cat(vec![ts(&["", "pre\r\n"]), pump(ts(&["--b\r\n\r\nx\r\n", "--b\r\nH:v\r\n\r\n", "--b\r\n"]), upto(d, 150, 1000)), ts(&["--b--", "--b--\r\n", "", "--b\r\n\r\nlast\r\n--b--\r\n"])])), md),
        space("sizes of a part", multi("boundary=b", cat(vec![l("--b\r\n\r\n"), pump(tb(&[b"a", b"\r\n", b"\r", b"-", b"\n--b\r\n", b"--b", b"\xff"]), upto(d, 300, 2000)), l("\r\n--b--")])), md),
        space("sizes of the preamble and the epilogue", multi("boundary=b", cat(vec![pump(ts(&["a", "\r\n", "-"]), upto(d, 60, 200)), ts(&["", "\r\n"]), l("--b\r\n\r\nx\r\n--b--"), ts(&["", "\r\n"]), pump(ts(&["a", "\r\n", "-"]), [0usize, 1, 2, 3, 50])])), md),
        space("every byte around delimiters", multi("boundary=b", alt(vec![
            cat(vec![bytes(), l("--b\r\n\r\nx\r\n--b--\r\n")]),
            cat(vec![bytes(), bytes(), l("--b\r\n\r\nx\r\n--b--\r\n")]),
            cat(vec![l("--b"), bytes(), bytes(), l("\r\nx\r\n--b--\r\n")]),
            cat(vec![l("--b\r\n\r\nx"), bytes(), bytes(), l("--b--\r\n")]),
            cat(vec![l("--b\r\n\r\nx\r\n--b"), bytes(), bytes(), ts(&["", "\r\n"])]),
            cat(vec![l("--b\r\n\r\nx\r\n--b--"), bytes(), bytes()]),
            cat(vec![l("--b\r\n"), bytes(), bytes(), l("\r\n--b--")]),
            cat(vec![l("--b\r\n\r\nx\r\n-"), bytes(), bytes(), l("--\r\n--b--")]),
        ])), md),
        space("contents of a part: every byte pair", multi("boundary=b", cat(vec![l("--b\r\n\r\n"), bytes(), bytes(), l("\r\n--b--")])), md),
    ];
    let deep = d(6, 7) as u64; // one beyond what the oracle unfolds would not be compared
    v.push(space("chains of nested multiparts", fun(deep * 64, move |i, o| {
        let (n, shape) = (i % deep + 1, i / deep);
        o.extend_from_slice(HEAD.as_bytes());
        for k in 0..n {
            let b = "b".repeat(k as usize + 1);
            let pre = ["", "pre\r\n", "\r\n", "--bbbbbbbbbbbb\r\n"][(shape % 4) as usize];
            o.extend_from_slice(format!("Content-Type: multipart/mixed; boundary={}\r\n\r\n{}--{}\r\n", b, pre, b).as_bytes());
        }
        o.extend_from_slice(b"Content-Type: text/plain; charset=utf-8\r\n\r\nleaf");
        for k in (0..n).rev() {
            let b = "b".repeat(k as usize + 1);
            let more = ["", "\r\n--@\r\n\r\nsibling", "\r\n--@\r\nX:y\r\n", "\r\n"][(shape / 4 % 4) as usize].replace('@', &b);
            let end = ["", "\r\n", "\r\nepilogue", "\r\n\r\n"][(shape / 16 % 4) as usize];
            o.extend_from_slice(format!("{}\r\n--{}--{}", more, b, end).as_bytes());
        }
    }), md));
    v
}

// ---------------------------------------------------------------- C24 owned copies
/// Owned copies of what a message holds: equal to the original, without a single borrow left, and still
/// the same when the message's buffer is gone. Composite types are message and multipart.
fn owned() -> Check {
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let data = ctx.guard.lay(input, true);
        let data: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(data.as_ptr() as *mut u8, data.len()) };
        let got = ctx.imp(|| {
            let mut bad = None;
            let mut seen = String::new();
            let mut kept: Vec<(String, Box<dyn Fn() -> String>)> = vec![];
            {
                let data: &[u8] = unsafe { std::slice::from_raw_parts(data.as_ptr(), data.len()) };
                if let Ok(e) = Email::parse(data) {
                    let mut ents: Vec<RawEntity> = vec![];
                    if let Ok(Entity::Multipart { content, .. }) = e.mime_entity.parse() {
                        for c in content {
                            // what borrows from the outer value is looked at through a clone of it
                            let mut c2 = c.clone();
                            c2.value = Cow::Owned(vec![]);
                            ents.push(unsafe { std::mem::transmute::<RawEntity, RawEntity>(c2) });
                        }
                    }
                    ents.push(e.mime_entity.clone());
                    for x in &ents {
                        let t = x.mime_type.clone();
                        let composite = matches!(t, ContentType::Message | ContentType::Multipart);
                        if t.is_composite_type() != composite {
                            bad = Some(format!("is_composite_type of {:?} is {}", t, !composite));
                        }
                        let o: ContentType<'static> = t.clone().into_owned();
                        if o != t || o.is_composite_type() != composite {
                            bad = Some(format!("owned copy of {:?} is {:?}", t, o));
                        }
                        let mut a = obs::Audit::new(vec![]);
                        let s = obs::ctype_name(&o, &mut a);
                        if a.borrowed > 0 {
                            bad = Some(format!("owned copy of {:?} borrows", t));
                        }
                        kept.push((s, Box::new(move || obs::ctype_name(&o, &mut obs::Audit::new(vec![])))));
                        #[cfg(feature = "content-disposition")]
                        if let Some(dsp) = &x.disposition {
                            let o: email_parser::mime::Disposition<'static> = dsp.clone().into_owned();
                            let mut a = obs::Audit::new(vec![]);
                            let s = format!("{:?}", obs::disposition(&o, &mut a));
                            if &o != dsp {
                                bad = Some(format!("owned copy of {:?} is {:?}", dsp, o));
                            }
                            if a.borrowed > 0 {
                                bad = Some(format!("owned copy of {:?} borrows", dsp));
                            }
                            let k: email_parser::mime::DispositionType<'static> = dsp.disposition_type.clone().into_owned();
                            if k != dsp.disposition_type {
                                bad = Some(format!("owned copy of {:?} is {:?}", dsp.disposition_type, k));
                            }
                            kept.push((s, Box::new(move || format!("{:?}", obs::disposition(&o, &mut obs::Audit::new(vec![]))))));
                        }
                    }
                }
            }
            data.fill(b'#');
            for (s, f) in kept {
                let now = f();
                if now != s {
                    bad = Some(format!("an owned copy changed with the buffer: {} became {}", s, now));
                }
                seen.push_str(&s);
            }
            (bad, seen)
        });
        match got {
            Ok((bad, seen)) => Verdict { bad, outcome: fp(&seen), class: 4 },
            Err(e) => Verdict { outcome: fp(&e), bad: Some(e), class: 5 },
        }
    })
}
/// The same for values built by hand: input = text of the unknown variant; every variant is tried.
fn owned_values() -> Check {
    use email_parser::mime::ContentTransferEncoding as E;
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let s = String::from_utf8_lossy(input).into_owned();
        let got = ctx.imp(|| {
            let mut bad = None;
            let cows = || vec![Cow::Borrowed(s.as_str()), Cow::Owned(s.clone())];
            let mut es = vec![E::SevenBit, E::HeightBit, E::Binary, E::QuotedPrintable, E::Base64];
            es.extend(cows().into_iter().map(E::Unknown));
            for e in es {
                let o: E<'static> = e.clone().into_owned();
                if o != e || matches!(o, E::Unknown(Cow::Borrowed(_))) {
                    bad = Some(format!("owned copy of {:?} is {:?}", e, o));
                }
            }
            let mut tys = vec![ContentType::Text, ContentType::Image, ContentType::Audio, ContentType::Video, ContentType::Application, ContentType::Message, ContentType::Multipart];
            tys.extend(cows().into_iter().map(ContentType::Unknown));
            for t in tys {
                let o: ContentType<'static> = t.clone().into_owned();
                let composite = matches!(t, ContentType::Message | ContentType::Multipart);
                if o != t || matches!(o, ContentType::Unknown(Cow::Borrowed(_))) {
                    bad = Some(format!("owned copy of {:?} is {:?}", t, o));
                }
                if t.is_composite_type() != composite || o.is_composite_type() != composite {
                    bad = Some(format!("is_composite_type of {:?} is {}", t, !composite));
                }
            }
            bad
        });
        match got {
            Ok(bad) => Verdict { outcome: fp(&input), bad, class: 4 },
            Err(e) => Verdict { outcome: fp(&e), bad: Some(e), class: 5 },
        }
    })
}
/// Dispositions built by hand. Input: bytes giving which dates are set, day name, day, month, year (two bytes),
/// hour, minute, second, sign, zone hour, zone minute, kind, file name (a character, or none), number of others.
#[cfg(feature = "content-disposition")]
fn owned_dispositions() -> Check {
    use email_parser::mime::{Disposition, DispositionType as T};
    use email_parser::time::*;
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let b = |i: usize| input.get(i).copied().unwrap_or(0);
        let name: String = match b(13) {
            0 => String::new(),
            c => format!("{}{}", c as char, "f".repeat(b(14) as usize)),
        };
        let others: Vec<(String, String)> = (0..b(15)).map(|i| (format!("n{}", i), if i % 3 == 0 { String::new() } else { format!("v{}", i) })).collect();
        let got = ctx.imp(|| {
            let date = |k: usize| {
                use Day::*;
                use Month::*;
                DateTime {
                    day_name: [None, Some(Monday), Some(Tuesday), Some(Wednesday), Some(Thursday), Some(Friday), Some(Saturday), Some(Sunday)][(b(1) as usize + if b(1) > 0 { k } else { 0 }) % 8].clone(),
                    date: Date { day: b(2), month: [January, February, March, April, May, June, July, August, September, October, November, December][(b(3) as usize + k) % 12].clone(), year: b(4) as usize * 256 + b(5) as usize + k },
                    time: TimeWithZone { time: Time { hour: b(6), minute: b(7), second: b(8) }, zone: Zone { sign: b(9) == 0, hour_offset: b(10), minute_offset: b(11) } },
                }
            };
            let kinds = [T::Inline, T::Attachment, T::Unknown(Cow::Borrowed(name.as_str())), T::Unknown(Cow::Owned(name.clone()))];
            let dsp = Disposition {
                disposition_type: kinds[b(12) as usize % 4].clone(),
                filename: if b(13) == 0 && b(14) == 0 { None } else if b(12) > 3 { Some(Cow::Owned(name.clone())) } else { Some(Cow::Borrowed(name.as_str())) },
                creation_date: if b(0) & 1 > 0 { Some(date(0)) } else { None },
                modification_date: if b(0) & 2 > 0 { Some(date(1)) } else { None },
                read_date: if b(0) & 4 > 0 { Some(date(2)) } else { None },
                unstructured: others.iter().map(|(k, v)| (Cow::Borrowed(k.as_str()), if b(12) > 3 { Cow::Owned(v.clone()) } else { Cow::Borrowed(v.as_str()) })).collect(),
            };
            let o: Disposition<'static> = dsp.clone().into_owned();
            let mut a = obs::Audit::new(vec![]);
            let (x, y) = (obs::disposition(&dsp, &mut obs::Audit::new(vec![])), obs::disposition(&o, &mut a));
            if o != dsp || x != y {
                return Some(format!("owned copy of {:?} is {:?}", dsp, o));
            }
            if a.borrowed > 0 {
                return Some(format!("owned copy of {:?} borrows", dsp));
            }
            None
        });
        match got {
            Ok(bad) => Verdict { outcome: fp(&input), bad, class: 4 },
            Err(e) => Verdict { outcome: fp(&e), bad: Some(e), class: 5 },
        }
    })
}
fn c24(d: D) -> Vec<Space> {
    let c = owned();
    let types = ts(&["text", "image", "audio", "video", "application", "message", "multipart", "x-foo", "X-Foo", "Message", "messages", "font"]);
    let disp = ts(&["", "Content-Disposition: inline\r\n", "Content-Disposition: attachment; filename=f\r\n", "Content-Disposition: X-Other; filename=\"a \\\"b\"; read-date=\"1 Jan 2020 10:20 +0000\"; x=y\r\n", "Content-Disposition: y; creation-date=\"1 Jan 2020 10:20 +0000\"; modification-date=\"2 Jan 2020 10:20 +0000\"; a*=utf-8''%41; b=\"\"\r\n"]);
    let pars = ts(&["", "; a=b", "; boundary=b; c=\"d e\"", "; n*0*=utf-8''%C3%A9; n*1=z", "; N=V"]);
    let heads = cat(vec![l("Content-Type: "), types, ts(&["/x", "/PlAin"]), pars, l("\r\n"), disp.clone(), ts(&["", "Content-Description: d e\r\n", "Content-ID: <a@b>\r\n"])]);
    let mut v = vec![
        space("values built by hand", alt(vec![ts(&["", "x", "\u{e9}t\u{e9}", "a b"]), seq(G::Byte(32, 126), 1, 2), pump(l("ab"), upto(d, 200, 2000))]), &owned_values()),
        space("top-level entities", cat(vec![head(), heads.clone(), l("\r\nbody")]), &c),
        space("parts", part_of(cat(vec![heads.clone(), l("\r\nbody")])), &c),
        space("parts of an encoded multipart", cat(vec![head(), l("Content-Type: multipart/x; boundary=b\r\nContent-Transfer-Encoding: base64\r\n\r\n"), mapped(cat(vec![l("--b\r\n"), heads, l("\r\nx\r\n--b--")]), |b, o| o.extend_from_slice(&b64(b)))]), &c),
    ];
    #[cfg(feature = "content-disposition")]
    {
        let (b, k) = (|lo, hi| G::Byte(lo, hi), |x: u8| l([x]));
        let o = owned_dispositions();
        v.push(space("hand-made dispositions: every day", cat(vec![b(0, 7), b(0, 7), b(0, 31), b(0, 11), tb(&[b"\x00\x00", b"\x07\xe4"])]), &o));
        v.push(space("hand-made dispositions: every time", cat(vec![tb(&[b"\x01", b"\x02", b"\x04", b"\x07"]), l(b"\x01\x01\x00\x07\xd0"), b(0, 24), b(0, 60), tb(&[b"\x00", b"\x3b", b"\x3c"])]), &o));
        v.push(space("hand-made dispositions: every zone", cat(vec![tb(&[b"\x01", b"\x02", b"\x04", b"\x07"]), l(b"\x01\x01\x00\x07\xd0\x0a\x14\x3b"), b(0, 1), b(0, 99), b(0, 99)]), &o));
        v.push(space("hand-made dispositions: every year", cat(vec![tb(&[b"\x01", b"\x02", b"\x04", b"\x07"]), tb(&[b"\x00\x01\x00", b"\x05\x1d\x01"]), bytes(), bytes()]), &o));
        let day = l(b"\x01\x01\x00\x07\xd0\x0a\x14\x3b\x00\x00\x00");
        v.push(space("hand-made dispositions: kinds, names, others", cat(vec![b(0, 7), day.clone(), b(0, 7), tb(&[b"\0", b"a", b"\"", b" ", b"\xe9"]), tb(&[b"\0", b"\x01", b"\x3f", b"\xff"]), b(0, 20)]), &o));
        v.push(space("hand-made dispositions: file names and numbers of others", alt(vec![
            cat(vec![tb(&[b"\x00", b"\x07"]), day.clone(), b(0, 7), bytes(), bytes(), k(0)]),
            cat(vec![tb(&[b"\x00", b"\x07"]), day, b(0, 7), tb(&[b"\0", b"a"]), k(1), bytes()]),
        ]), &o));
    }
    let limit = d(60_000, 2_000_000) as u64;
    for (from, s) in [("C20", c20(&|q, _| q, &c)), ("C19", c19(&|q, _| q, &c)), ("C21", c21(&|q, _| q, &c))] {
        v.extend(s.into_iter().filter(|s| Arc::ptr_eq(&s.check, &c) && s.g.count() <= limit).map(|mut s| {
            s.name = format!("{}/{}", from, s.name);
            s
        }));
    }
    if DISP {
        v.push(space("dispositions: one byte changed", cd(near(b" Attachment; filename=\"a \\\" b\"; size=1; x*0=y; x*1=z")), &c));
        v.push(space("dispositions: parameters", cd(cat(vec![ts(&["inline", "attachment", "other"]), seq(ts(&[";filename=f", ";filename=\"g h\"", ";size=12", ";creation-date=\"1 Jan 2020 10:20 +0000\"", ";modification-date=\"3 Jan 2020 10:20 +0000\"", ";read-date=\"2 Jan 2020 10:20 +0000\"", ";y*=utf-8''%C3%A9", ";Q=\"q\\\"r\"", ";z=1"]), 0, d(4, 5))])), &c));
    }
    v
}

// ---------------------------------------------------------------- C27 an entity reads the same wherever it stands
/// input = MIME header lines, empty line, content. The entity as a whole message, as a part, as a part of
/// a part, and as a part of an encoded multipart: same fields, same parsed content, and as the model says.
fn context_free() -> Check {
    let cfg = crate::model::Cfg::current();
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        if matches!(input.first(), Some(b' ') | Some(b'\t')) {
            // would continue the header line in front of it
            return Verdict { bad: None, outcome: 0, class: 5 };
        }
        let part = |b: &str, x: &[u8]| -> Vec<u8> { [&format!("--{}\r\n", b).into_bytes()[..], x, format!("\r\n--{}--\r\n", b).as_bytes()].concat() };
        let mh = |b: &str| format!("Content-Type: multipart/mixed; boundary={}\r\n", b).into_bytes();
        let h = HEAD.as_bytes();
        let inner = part("zq2", input);
        let forms: Vec<(usize, Vec<u8>)> = vec![
            (0, [h, input].concat()),
            (1, [h, &mh("zq1")[..], b"\r\n", &part("zq1", input)].concat()),
            (2, [h, &mh("zq1")[..], b"\r\n", &part("zq1", &[&mh("zq2")[..], b"\r\n", &inner].concat())].concat()),
            (1, [h, &mh("zq1")[..], b"Content-Transfer-Encoding: base64\r\n\r\n", &b64(&part("zq1", input))].concat()),
            (2, [h, &mh("zq1")[..], b"\r\n", &part("zq1", &[&mh("zq2")[..], b"Content-Transfer-Encoding: quoted-printable\r\n\r\n", &qp_encode(&inner)].concat())].concat()),
        ];
        let mut outs: Vec<Option<(model::Ent, oracle::Tree)>> = vec![];
        let mut mtop = None;
        for (depth, text) in &forms {
            let got = match ask(ctx, text, true, true) {
                Ok(a) => a,
                Err(e) => return Verdict { outcome: fp(&e), bad: Some(e), class: 5 },
            };
            let mut cur = match (&got.res, &got.tree) {
                (model::Res::Ok(o), Some(t)) => {
                    let mut e = o.ent.clone().unwrap();
                    if *depth == 0 {
                        e.additional = o.unknown.clone();
                    }
                    Some((e, t.clone()))
                }
                _ => None,
            };
            for _ in 0..*depth {
                cur = cur.and_then(|(_, t)| match &t.res {
                    model::EntRes::Multipart(_, c) if c.len() == 1 => Some((c[0].clone(), t.parts[0].clone())),
                    _ => None,
                });
            }
            outs.push(cur);
            if *depth == 0 {
                mtop = Some(expect(ctx, &cfg, text, true));
            }
        }
        let mut bad = None;
        for (i, o) in outs.iter().enumerate().skip(1) {
            if *o != outs[0] {
                bad = Some(format!("the entity reads differently in context {}:\n  as a message {:?}\n  there        {:?}", i, outs[0], o));
                break;
            }
        }
        if bad.is_none() {
            let want = match mtop.unwrap() {
                (model::Res::Ok(o), Some(t)) => {
                    let mut e = o.ent.unwrap();
                    e.additional = o.unknown;
                    Some((e, t))
                }
                _ => None,
            };
            if want != outs[0] {
                bad = Some(format!("the entity:\n  expected {:?}\n  got      {:?}", want, outs[0]));
            }
        }
        Verdict { bad, outcome: fp(&outs[0]), class: if outs[0].is_some() { 1 } else { 0 } }
    })
}
fn c27(d: D) -> Vec<Space> {
    let c = context_free();
    let _ = TREE_DEPTH;
    let _ = tree;
    let ctypes = ts(&["", "Content-Type: text/html; charset=iso-8859-1\r\n", "Content-Type: TEXT/Plain; charset=\"utf-8\"; format=flowed\r\n", "Content-Type: image/png; name*0*=utf-8''%C3; name*1*=%A9\r\n", "Content-Type: bad\r\n", "Content-Type: multipart/digest; boundary=in\r\n", "Content-Type: x-y/z (c)\r\n"]);
    let ctes = ts(&["", "Content-Transfer-Encoding: base64\r\n", "Content-Transfer-Encoding: quoted-printable\r\n", "Content-Transfer-Encoding: BINARY\r\n", "Content-Transfer-Encoding: x-other\r\n", "Content-Transfer-Encoding: 7 bit\r\n"]);
    let other = ts(&["", "Content-ID: <a@b>\r\n", "Content-ID: bad\r\n", "Content-Description: d =?utf-8?q?=C3=A9?=\r\n e\r\n", "Content-Disposition: attachment; filename=\"f g\"; x=y\r\n", "Content-Disposition: bad;\r\n", "Content-Language: en\r\nX-Y: z\r\n"]);
    let bodies = tb(&[b"", b"text", b"QUJD\r\nRA==", b"a=3Db=\r\nc", b"\xe9t\xe9", b"--in\r\n\r\np1\r\n--in--\r\n", b"--in\r\nContent-Type: text/x; charset=gb2312\r\n\r\n\xb0\xa1\r\n--in--", b"\r\n\r\n"]);
    let lines = ["Content-Type: text/html; charset=utf-8\r\n", "Content-Transfer-Encoding: base64\r\n", "Content-ID: <a@b>\r\n", "Content-Description: x\r\n", "Content-Disposition: inline\r\n", "X: y\r\n", "Content-Type:bad\r\n", "Content-X:\r\n"];
    // each line at most once: a later duplicate is refused in a message and wins in a part
    let once = |n: u64, body: &'static [u8]| -> G {
        let k = lines.len() as u64;
        fun((0..=n).map(|j| k.pow(j as u32)).sum(), move |mut i, o| {
            let mut len = 0;
            while i >= k.pow(len) {
                i -= k.pow(len);
                len += 1;
            }
            let mut used = [false; 8];
            for _ in 0..len {
                let j = (i % k) as usize;
                i /= k;
                if !used[j] {
                    used[j] = true;
                    o.extend_from_slice(lines[j].as_bytes());
                }
            }
            o.extend_from_slice(body);
        })
    };
    vec![
        space("type x encoding x other x content", cat(vec![ctypes, ctes, other, l("\r\n"), bodies]), &c),
        space("header lines in every order", once(d(4, 5) as u64, b"\r\nQUJD"), &c),
        space("one byte changed", near(b"Content-Type: text/plain; charset=utf-8; a*=utf-8''%41\r\nContent-Disposition: inline; filename=f\r\n\r\nx\xc3\xa9"), &c),
        space("one byte changed (two)", near2(b"Content-Type: text/plain; charset=utf-8; a*=utf-8''%41\r\nContent-Disposition: inline; filename=f\r\n\r\nx\xc3\xa9"), &c),
        space("one byte changed: encodings", near(b"Content-Transfer-Encoding: quoted-printable\r\nContent-ID: <a@b>\r\nX-Y: a\r\n b\r\n\r\na=3D"), &c),
        space("one byte changed: encodings (two)", near2(b"Content-Transfer-Encoding: quoted-printable\r\nContent-ID: <a@b>\r\nX-Y: a\r\n b\r\n\r\na=3D"), &c),
        space("two insertions", insert2(b"Content-Type: text/plain; charset=utf-8\r\nX: y\r\n\r\nab", &[b" ", b"\r\n", b"(c)", b";", b"=", b"\"", b"\xc3"]), &c),
        space("contents", cat(vec![ts(&["Content-Type: text/plain; charset=utf-8\r\n\r\n", "Content-Transfer-Encoding: base64\r\n\r\n", "Content-Transfer-Encoding: quoted-printable\r\n\r\n", "\r\n"]), seq(tb(&[b"a", b"\r\n", b"=", b"QUJD", b"\xc3\xa9", b"-", b"\0", b"\r", b"\n"]), 0, d(4, 5))]), &c),
        space("lengths", cat(vec![ts(&["Content-Type: text/plain; charset=utf-8\r\n\r\n", "Content-Transfer-Encoding: base64\r\n\r\n", "Content-Transfer-Encoding: quoted-printable\r\n\r\n"]), pump(tb(&[b"a", b"QUJD", b"=41", b"\r\n"]), upto(d, 150, 1000))]), &c),
    ]
}

// ---------------------------------------------------------------- pieces other properties use
pub fn decoder_bytes(d: D, c: &Check) -> Vec<Space> {
    let any = cat(vec![bytes(), bytes()]);
    let mut v = vec![
        space("decoders: every byte pair in a q word of a charset", alt(["utf-8", "iso-6937", "gb2312", "iso-8859-6"].iter().map(|cs| field("Subject", cat(vec![l(format!("=?{}?q?", cs)), mapped(any.clone(), hexed(b'=', true)), l("?=")]))).collect()), c),
        space("decoders: every byte in every charset as a parameter", alt(CHARSETS.iter().map(|cs| ct(cat(vec![l(format!("text/plain;a*={}''", cs)), mapped(cat(vec![ts(&["", "a"]), bytes(), tb(&[b"", b"b", b"\xff"])]), hexed(b'%', true))]))).collect()), c),
        space("decoders: text in every charset", alt(CHARSETS.iter().map(|cs| msg(l(format!("Content-Type: text/x; charset={}\r\n", cs)), cat(vec![ts(&["", "a"]), bytes(), tb(&[b"", b"b", b"\xff", b"\xc1"])]))).collect()), c),
        space("decoders: base64 bodies", msg(l("Content-Transfer-Encoding: base64\r\n"), seq(tb(&[b"Q", b"=", b"\r\n", b"!", b"\xff", b"/"]), 0, d(6, 7))), c),
        space("decoders: quoted-printable bodies", msg(l("Content-Type: text/plain; charset=utf-8\r\nContent-Transfer-Encoding: quoted-printable\r\n"), seq(tb(&[b"=", b"C", b"3", b"\r\n", b"\r", b"\xff", b"=A9"]), 0, d(5, 6))), c),
        space("decoders: parameters", ct(cat(vec![l("text/plain"), seq(ts(&raw_params()), 0, d(2, 3))])), c),
        space("decoders: percent text", ct(cat(vec![l("a/b;c*=utf-8'"), seq(tb(&[b"%", b"C3", b"'", b"%A9", b"1", b"\"", b"%%"]), 0, d(5, 6))])), c),
        space("decoders: words", field("Subject", seq(tb(&[b"=?", b"utf-8", b"?", b"q", b"b", b"?=", b"=C3", b" ", b"=", b"Q", b"\xc3"]), 0, d(4, 5))), c),
        space("decoders: multiparts", multi("boundary=b", seq(tb(&[b"--b", b"\r\n", b"--", b"\xff", b"x", b"Content-Type: multipart/y; boundary=b\r\n\r\n", b"--b--\r\n"]), 0, d(5, 6))), c),
        space("decoders: odd boundaries", cat(vec![head(), l("Content-Type: multipart/mixed; boundary=\""), seq(tb(&[b"b", b"-", b" ", b"\\\"", b"\r\n "]), 0, d(3, 4)), l("\"\r\n\r\n"), ts(&["--\r\n\r\n----\r\n", "--b\r\n\r\n--b--", "\r\n--b-\r\n\r\nx\r\n--b---\r\n", "--", "\r\n--"])]), c),
    ];
    v.push(space("decoders: piece numbers", ct(cat(vec![l("a/b"), fun(12, |i, o| {
        let (n, e) = ([1, 2, 255, 256, 257, 300][(i % 6) as usize], i / 6);
        for j in 0..n {
            o.extend_from_slice(format!(";n*{}{}={}", j, if e == 1 { "*" } else { "" }, if j == 0 && e == 1 { "utf-8''%C3" } else { "%A9" }).as_bytes());
        }
    })])), c));
    v
}
pub fn text_outputs(d: D, c: &Check) -> Vec<Space> {
    vec![
        space("outputs: description, id, names and values", alt(vec![
            field("Content-Description", seq(tb(&[b"\xc3", b"\xa9", b"a", b" ", b"=?utf-8?q?=C3?=", b"=?utf-8?q?=C3=A9?=", b"=?us-ascii?q?=E9?="]), 0, d(5, 6))),
            ct(cat(vec![l("text/plain;a=\""), seq(tb(&[b"\xc3", b"\\\xa9", b"\\a", b"b", b" "]), 0, d(4, 5)), l("\"")])),
            cd(cat(vec![l("inline;filename=\""), seq(tb(&[b"\xc3", b"\\\xa9", b"\\a", b"b", b" "]), 0, d(4, 5)), l("\"")])),
            ct(cat(vec![bytes(), bytes(), l("/x")])),
            cd(cat(vec![bytes(), bytes()])),
        ]), c),
        space("outputs: parts", part_of(cat(vec![ts(&["", "Content-Type: text/plain; charset=utf-8\r\n\r\n", "X:"]), seq(tb(&[b"\xc3", b"\xa9", b"a", b"\r\n", b":"]), 0, d(5, 6))])), c),
    ]
}
pub fn plain_mime(d: D, _c: &Check) -> Vec<Space> {
    let c = &oracle::no_copy_deep();
    let ctypes = ts(&["", "Content-Type: text/plain\r\n", "Content-Type: text/html; charset=utf-8\r\n", "Content-Type: x-y/z; a=b; c=\"d e\"\r\n", "Content-Type: image/png; name=f\r\n"]);
    let others = ts(&["", "Content-ID: <a.b@c.d>\r\n", "Content-Description: some text here\r\n", "Content-Transfer-Encoding: 8bit\r\n", "Content-Transfer-Encoding: binary\r\n", "MIME-Version: 1.0\r\n", "Content-Language: fr en\r\n"]);
    let disp = if DISP { ts(&["", "Content-Disposition: inline\r\n", "Content-Disposition: attachment; filename=\"f g.txt\"; size=12; read-date=\"1 Jan 2020 10:20 +0000\"\r\n", "Content-Disposition: x-other; filename=f\r\n"]) } else { l("") };
    let bodies = tb(&[b"", b"text\r\n", b"\xc3\xa9t\xc3\xa9", b"a\r\nb\r\n"]);
    vec![
        space("MIME fields", cat(vec![head(), ctypes.clone(), others.clone(), disp.clone(), l("\r\n"), bodies.clone()]), c),
        space("parts", cat(vec![head(), l("Content-Type: multipart/mixed; boundary=zq\r\n\r\npre\r\n--zq\r\n"), ctypes.clone(), others.clone(), disp.clone(), l("\r\n"), bodies.clone(), l("\r\n--zq\r\n\r\nsecond\r\n--zq--\r\n")]), c),
        space("parts of parts", cat(vec![head(), l("Content-Type: multipart/mixed; boundary=zq\r\n\r\n--zq\r\nContent-Type: multipart/x; boundary=\"in ner\"\r\n\r\n--in ner\r\n"), ctypes, others, disp, l("\r\n"), bodies, l("\r\n--in ner--\r\n--zq--\r\n")]), c),
        space("parameters", ct(cat(vec![l("text/plain"), seq(ts(&["; a=b", ";\r\n\tc=\"d e\"", "; f-g=h.i", ";j=\"k\""]), 0, d(4, 6))])), c),
        space("lengths of MIME values", alt(vec![
            ct(cat(vec![l("text/plain"), pump(ts(&["; a=b", ";c=\"d e\""]), upto(d, 200, 2000))])),
            ct(cat(vec![l("text/plain;a="), pump(ts(&["b", "."]), upto1(d, 200, 2000))])),
            ct(cat(vec![l("text/plain;a=\""), pump(ts(&["b", " c"]), upto(d, 200, 2000)), l("\"")])),
            ct(cat(vec![l("text/"), pump(ts(&["b", "x-"]), upto1(d, 200, 2000))])),
            ct(cat(vec![l("text/plain;"), pump(ts(&["b", "x-"]), upto1(d, 200, 2000)), l("=c")])),
            ct(cat(vec![pump(ts(&["b", "x-"]), upto1(d, 200, 2000)), l("/plain")])),
            msg(l("Content-Type: multipart/mixed; boundary=zq\r\n"), cat(vec![pump(ts(&["--zq\r\n\r\nx\r\n", "--zq\r\nContent-ID: <a@b>\r\nX: y\r\n\r\nx\r\n"]), upto1(d, 100, 1000)), l("--zq--")])),
            msg(l("Content-Type: multipart/mixed; boundary=zq\r\n"), cat(vec![l("--zq\r\n\r\n"), pump(ts(&["x", "y z\r\n", "--z"]), upto(d, 200, 1000)), l("\r\n--zq--")])),
            msg(ts(&["Content-Type: text/plain; charset=utf-8\r\n", "Content-Type: text/plain; charset=us-ascii\r\n", ""]), pump(ts(&["x", "y z\r\n"]), upto(d, 200, 2000))),
            msg(ts(&["Content-Type: text/plain; charset=utf-8\r\n", "Content-Type: text/x; charset=UTF-8\r\n"]), pump(ts(&["\u{e9}", "\u{20ac}a"]), upto(d, 200, 2000))),
        ]), c),
        space("bodies of any bytes", msg(ts(&["Content-Type: application/x\r\n", "Content-Transfer-Encoding: 8bit\r\nContent-Type: a/b\r\n"]), seq(tb(&[b"\0", b"\xff", b"a", b"\r\n", b"=41", b"\n"]), 0, d(5, 6))), c),
    ]
}
