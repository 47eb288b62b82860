//! The spaces explored for each property.
use crate::engine::{space, Check, Space};
use crate::gen::*;
use crate::oracle;

const MIME: bool = cfg!(feature = "mime");
#[allow(dead_code)]
const DISP: bool = cfg!(feature = "content-disposition");

/// The two fields every message needs, in their plainest form.
pub const HEAD: &str = "From: a@b.c\r\nDate: 1 Jan 2020 10:20 +0000\r\n";
const SPECIAL: &[u8] = b"\x00\t\n\r \"()*,./:;<=>?@A[\\]_a~\x7f\x80\xc3\xff";

fn head() -> G {
    l(HEAD)
}
/// one field after the two mandatory ones, then a body
fn field(name: &str, body: G) -> G {
    cat(vec![head(), l(name), l(":"), body, l("\r\n\r\nx")])
}
/// one field before the mandatory ones
fn field_first(name: &str, body: G) -> G {
    cat(vec![l(name), l(":"), body, l("\r\n"), head(), l("\r\nx")])
}
fn from_field(body: G) -> G {
    cat(vec![l("From:"), body, l("\r\nDate: 1 Jan 2020 10:20 +0000\r\nSender: s@t\r\n\r\nx")])
}
fn resent(name: &str, body: G) -> G {
    cat(vec![l("Received:a;1 Jan 2020 10:20 +0000\r\nResent-"), l(name), l(":"), body, l("\r\n"), head(), l("\r\nx")])
}
fn any_field(names: &[&str], body: &G) -> G {
    alt(names.iter().map(|n| field(n, body.clone())).collect())
}

pub fn spaces(prop: &str, tier: &str) -> Vec<Space> {
    // `d(q, t)`: a bound in the quick and in the thorough tier; where the spaces are small the quick tier has the
    // bounds of the thorough one, too
    let small = ["C04", "C05", "C07", "C08", "C09", "C12", "C13", "C16", "C17", "C18", "C19", "C24", "C27"];
    let deep = tier == "thorough" || tier == "quick" && small.contains(&prop);
    let d = |q: usize, t: usize| if deep { t } else { q };
    let m = oracle::message(false);
    let md = oracle::message(true);
    let mut v = match prop {
        "C01" => c01(&d),
        "C02" => c02(&d),
        "C03" => c03(&d),
        "C04" => c04(&d, &m),
        "C05" => c05(&d, &m),
        "C06" => c06(&d, &m),
        "C07" => c07(&d, &md),
        "C08" => c08(&d, &m),
        "C09" => c09(&d, &m),
        "C10" => c10(&d, &m),
        "C11" => c11(&d, &m),
        "C12" => c12(&d, &m),
        "C13" => c13(&d, &m),
        "C14" => c14(&d, &m),
        "C22" => c22(&d, &md, tier == "brief"),
        "C23" => c23(&d),
        "C28" => c28(&d),
        "C26" => c26(&d),
        _ => mime::spaces(prop, &d, &m, &md),
    };
    // the spaces of the properties that this one has to do with
    let near = NEAR.iter().find(|n| n.0 == prop).map_or(&[][..], |n| n.1);
    v.extend(match tier {
        "quick" => borrowed_spaces(&md, 60_000, near),
        "thorough" if !near.is_empty() => borrowed_spaces(&md, 1_000_000, MESSAGES).into_iter().filter(|s| !s.name.starts_with(prop)).collect(),
        _ => vec![],
    });
    v
}
const NEAR: &[(&str, &[&str])] = &[
    ("C04", &["C05", "C17", "C18", "C21"]),
    ("C05", &["C04", "C06", "C08", "C14", "C20"]),
    ("C06", &["C05", "C07", "C10", "C13"]),
    ("C07", &["C05", "C15", "C16", "C19", "C20"]),
    ("C08", &["C05", "C09", "C15", "C20"]),
    ("C09", &["C08", "C10", "C11", "C12", "C13", "C14", "C19", "C20"]),
    ("C10", &["C06", "C11", "C14"]),
    ("C11", &["C10", "C12", "C14"]),
    ("C12", &["C09", "C11", "C14", "C20"]),
    ("C13", &["C09", "C14", "C20"]),
    ("C14", &["C09", "C10", "C13"]),
    ("C15", &["C08", "C10", "C16"]),
    ("C16", &["C15", "C17", "C18", "C19"]),
    ("C17", &["C04", "C15", "C18", "C21"]),
    ("C18", &["C04", "C15", "C17", "C21"]),
    ("C19", &["C09", "C16", "C20", "C21"]),
    ("C20", &["C09", "C12", "C13", "C15", "C19"]),
    ("C21", &["C04", "C17", "C18", "C19"]),
];
type D<'a> = &'a dyn Fn(usize, usize) -> usize;

/// How often a piece is repeated: every number below the bound of the tier, then the neighbours of the round
/// numbers, in both bases, at which limits, counters and buffers tend to sit.
fn upto(d: D, quick: usize, thorough: usize) -> Vec<usize> {
    let n = d(quick, thorough);
    let mut v: Vec<usize> = (0..n).collect();
    for r in [50, 64, 100, 128, 200, 250, 256, 300, 400, 500, 512, 600, 700, 750, 800, 900, 998, 1000, 1024, 1200, 1500, 1536, 2000, 2048, 2500, 3000, 4000, 4096, 5000, 8000, 8192, 10_000, 16_384, 20_000, 32_768, 50_000, 65_536] {
        v.extend([r - 1, r, r + 1].into_iter().filter(|x| *x >= n));
    }
    v.extend([99_999, 100_000, 100_001, 131_071, 131_072, 131_073]);
    let most = d(70_000, 140_000);
    v.retain(|x| *x <= most);
    v.sort_unstable();
    v.dedup();
    v
}
fn upto1(d: D, quick: usize, thorough: usize) -> Vec<usize> {
    upto(d, quick, thorough)[1..].to_vec()
}

/// The spaces of messages that other properties explore, in their quick bounds, under another check: those
/// with at most `limit` members.
fn borrowed_spaces(c: &Check, limit: u64, from: &[&str]) -> Vec<Space> {
    // (the longest repetitions are left to the check whose own space it is)
    let quick = |q: usize, _: usize| q.min(5_000);
    let mut v = vec![];
    for p in from {
        let s = match *p {
            "C04" => c04(&quick, c),
            "C05" => c05(&quick, c),
            "C06" => c06(&quick, c),
            "C07" => c07(&quick, c),
            "C08" => c08(&quick, c),
            "C09" => c09(&quick, c),
            "C10" => c10(&quick, c),
            "C11" => c11(&quick, c),
            "C12" => c12(&quick, c),
            "C13" => c13(&quick, c),
            "C14" => c14(&quick, c),
            p => mime::spaces(p, &quick, c, c),
        };
        for mut s in s {
            // those with a check of their own do not hold messages
            if std::sync::Arc::ptr_eq(&s.check, c) && s.g.count() <= limit {
                s.name = format!("{}/{}", p, s.name);
                v.push(s);
            }
        }
    }
    v
}
const MESSAGES: &[&str] = &["C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"];

fn c26(d: D) -> Vec<Space> {
    let ct: &[u8] = b"From:a@b\r\nDate:1 Jan 2020 10:20 +0000\r\nContent-Type:";
    let h: &[u8] = b"From:a@b\r\nDate:1 Jan 2020 10:20 +0000\r\n";
    let j = |a: &[u8], b: &[u8]| [a, b].concat();
    let mut places: Vec<(Vec<u8>, Vec<u8>)> = vec![(vec![], vec![]), (vec![], j(b"\r\n", h)), (h.to_vec(), b"\r\nx".to_vec())];
    for f in ["From", "To", "Sender", "Bcc", "Date", "Subject", "X", "References", "Message-ID", "Keywords", "Return-Path", "Received", "MIME-Version", "Content-Type", "Content-Disposition", "Content-Transfer-Encoding", "Content-ID", "Content-Description"] {
        let mut inner: Vec<(&str, &str)> = vec![("", "")];
        inner.extend(match f {
            "From" | "To" | "Sender" | "Bcc" => vec![("", "a@b"), ("\"", "\"@b"), ("G:", ";"), ("N ", "<a@b>"), ("<", ">"), ("<a@", ">"), ("a@[", "]"), ("a@", ""), ("\"", "\" <a@b>"), ("=?utf-8?q?", "?= <a@b>"), ("=?utf-8?b?", "?= <a@b>"), ("a@b,", ""), ("(", ") a@b")],
            "Date" => vec![("", "1 Jan 2020 10:20 +0000"), ("1 Jan 2", " 10:20 +0000"), ("1", "Jan 2020 10:20 +0000"), ("1 Jan 2020 10:20 +0000", "")],
            "Subject" | "Content-Description" | "X" => vec![("=?utf-8?q?", "?="), ("=?utf-8?b?", "?="), ("=?iso-8859-1?q?", "?="), ("=?", "?q?a?="), ("a", "")],
            "Keywords" => vec![("\"", "\""), ("=?utf-8?q?", "?="), ("a", ",b")],
            "References" | "Message-ID" | "Content-ID" => vec![("<", "@b>"), ("<a@", ">"), ("<a@[", "]>"), ("<a@b>", "")],
            "Return-Path" => vec![("<", ">"), ("", "<>")],
            "Received" => vec![("", ";1 Jan 2020 10:20 +0000"), ("a", ";1 Jan 2020 10:20 +0000"), ("\"", "\";1 Jan 2020 10:20 +0000"), ("<a@", ">;1 Jan 2020 10:20 +0000")],
            "MIME-Version" => vec![("", "1.0"), ("1.0", ""), ("1", ".0")],
            "Content-Type" | "Content-Disposition" => vec![("a/b", ""), ("inline", ""), ("inline;a=\"", "\""), ("a/b;a=\"", "\""), ("a/b;a*=utf-8''", ""), ("a/b;a*=iso-8859-1''", ""), ("a/b;a*0*=utf-8''", ";a*1=x"), ("a/b;a*=\"utf-8''", "\""), ("a/b;a", "=x"), ("inline;read-date=\"", "1 Jan 2020 10:20 +0000\""), ("a/b;a=b", "")],
            _ => vec![("", "base64"), ("base64", "")],
        });
        for (a, z) in inner {
            places.push((format!("{}:{}", f, a).into_bytes(), j(format!("{}\r\n", z).as_bytes(), &j(h, b"\r\nx"))));
            if f.starts_with("Content") {
                places.push(([ct, b"multipart/x;boundary=b\r\n\r\n--b\r\n", format!("{}:{}", f, a).as_bytes()].concat(), format!("{}\r\n\r\nx\r\n--b--", z).into_bytes()));
                places.push(([h, b"Content-Transfer-Encoding:8bit\r\n", ct, b"multipart/x;boundary=b\r\nContent-Transfer-Encoding:quoted-printable\r\n\r\n--b\r\n", format!("{}:{}", f, a).as_bytes()].concat()[h.len() + 32..].to_vec(), format!("{}\r\n\r\nx\r\n--b--", z).into_bytes()));
            }
        }
    }
    for cte in ["7bit", "quoted-printable", "base64"] {
        let e = format!("\r\nContent-Transfer-Encoding:{}\r\n\r\n", cte);
        for ty in ["text/plain;charset=utf-8", "text/plain;charset=iso-8859-1", "text/plain;charset=gb2312", "text/plain;charset=iso-6937", "x/y"] {
            places.push(([ct, ty.as_bytes(), e.as_bytes()].concat(), vec![]));
        }
        if cte == "base64" { continue }
        for (a, z) in [("", ""), ("--b\r\n", "\r\n--b--"), ("--b\r\n\r\n", "\r\n--b--"), ("--b\r\n\r\n", ""), ("--b--", "")] {
            places.push(([ct, b"multipart/x;boundary=b", e.as_bytes(), a.as_bytes()].concat(), z.as_bytes().to_vec()));
        }
    }
    let mut pp = pump_pieces();
    pp.extend([&b"\xc3\xa9"[..], b"\xe9", b"%C3%A9", b"%", b"?", b"_", b"QUJD", b"QUJD\r\n", b"\r\n--b\r\n\r\nx", b"\r\n--b\r\nX:y\r\n\r\nx", b"\r\n--c", b"\r\n--", b"-", b"Received:a;1 Jan 2020 10:20 +0000\r\n", b"Resent-To:a@b\r\n", b"\r", b"\n", b">", b"\\\"", b"\" \"", b":", b";", b",", b"Content-Type:a/b;c=d\r\n"]);
    // pieces with a running number
    pp.extend([&b";n\xfd=v"[..], b";n*\xfd=v", b";n*\xfd*=%41", b";N\xfd*0=v;n\xfd*1=w", b"X\xfd:y\r\n", b"<i\xfd@d>", b"a\xfd@b,", b"w\xfd ", b"G\xfd:a@b;,", b"=?utf-8?q?\xfd?= "]);
    let few: Vec<&[u8]> = if d(0, 1) == 1 { pp.clone() } else { pp.iter().copied().step_by(2).chain([&b"("[..], b"\\", b"=?utf-8?q?a?= ", b";a=b", b"a@b,", b"%41"]).collect() };
    let two = seq(tb(&few), 2, 2);
    // whole header lines
    let mut lines: Vec<Vec<u8>> = known_names().iter().flat_map(|(n, g, b)| [format!("{}:{}\r\n", n, g), format!("{}:{}\r\n", n, b)]).map(|l| l.into_bytes()).collect();
    lines.extend(["Resent-From:a@b\r\n", "Resent-Date:1 Jan 2020 10:20 +0000\r\n", "Comments: \r\n", "X\u{1}:y\r\n", "Y:\r\n z\r\n"].iter().map(|l| l.as_bytes().to_vec()));
    lines.push(b"Subject\xfd: s\r\n".to_vec());
    let line = alt(lines.iter().map(|x| l(x)).collect());
    let mut one: Vec<G> = pp.iter().map(|x| l(x)).collect();
    one.push(line.clone());
    let one = alt(one);
    let twice = tb(&[b"(", b")", b"<", b">", b"\"", b"\\", b"[", b"]", b":", b";", b"@", b",", b"a", b" ", b".", b"\r\n ", b"=?", b"?=", b"=?utf-8?q?a?=", b"%41", b";a=b", b"\r\n--b\r\n\r\nx", b"X:y\r\n", b"Received:a;1 Jan 2020 10:20 +0000\r\n"]);
    let s = |a: &Vec<u8>, p: &G, z: &Vec<u8>| cat(vec![l(a), l(b"\xfe"), p.clone(), l(b"\xfe"), l(z)]);
    let all = |p: &G| alt(places.iter().map(|(a, z)| s(a, p, z)).collect());
    let heads = [(vec![], vec![]), (vec![], h.to_vec()), (h.to_vec(), b"\r\nx".to_vec()), (b"Received:a;1 Jan 2020 10:20 +0000\r\n".to_vec(), j(h, b"\r\nx")),
        ([ct, b"multipart/x;boundary=b\r\n\r\n--b\r\n"].concat(), b"\r\nx\r\n--b--".to_vec())];
    let in_heads = |p: &G| alt(heads.iter().map(|(a, z)| s(a, p, z)).collect());
    let apart = alt(places.iter().map(|(a, z)| cat(vec![l(a), l(b"\xfe"), twice.clone(), l(b"\xfe"), ts(&["", "a"]), l(b"\xfe"), twice.clone(), l(b"\xfe"), l(z)])).collect());
    #[cfg(feature = "work")]
    return {
        let (w, ww) = (oracle::linear_work(13), oracle::linear_work(d(37, 121)));
        vec![
            space("work: one piece repeated in every place", all(&one), &ww),
            space("work: header lines repeated", in_heads(&line), &ww),
            space("work: two header lines taking turns", in_heads(&cat(vec![line.clone(), line.clone()])), &w),
            space("work: two runs of pieces in every place", apart, &w),
            space("work: two pieces taking turns in every place", all(&two), &w),
        ]
    };
    #[cfg(not(feature = "work"))]
    {
        let _ = two;
        let c = oracle::linear_time();
        let mut v = vec![
            space("time: one piece repeated in every place", all(&one), &c),
            space("time: header lines repeated", in_heads(&line), &c),
        ];
        if d(0, 1) == 1 {
            v.push(space("time: two runs of pieces in every place", apart, &c));
        }
        v
    }
}
// ---------------------------------------------------------------- C28 the low-level field list
fn c28(d: D) -> Vec<Space> {
    let c = oracle::low();
    let all: Vec<u8> = (0..=255).collect();
    let mut v = vec![];
    for (i, r) in rich().iter().enumerate() {
        v.push(space(format!("message {}: one byte changed anywhere", i), near(r), &c));
        v.push(space(format!("message {}: pieces and cut-outs", i), pieces(r), &c));
    }
    for (i, r) in corpus().iter().enumerate() {
        v.push(space(format!("corpus {}: one byte changed", i), edits1(r, if d(0, 1) == 1 { &all } else { SPECIAL }), &c));
        v.push(space(format!("corpus {}: pieces and cut-outs", i), pieces(r), &c));
    }
    if MIME {
        v.push(space("versions", field("MIME-Version", alt(vec![
            cat(vec![fun(300, |i, o| o.extend_from_slice(i.to_string().as_bytes())), l("."), ts(&["0", "1", "255", "256", "007"])]),
            cat(vec![ts(&["0", "1", "255", "256", "007"]), l("."), fun(300, |i, o| o.extend_from_slice(i.to_string().as_bytes()))]),
            cat(vec![ts(&["", " ", "(c)", "\r\n "]), ts(&["1.0", "2.1", "1 .0", "1. 0", "1", ".0", "1.0.0", "1.0a"]), ts(&["", " ", "(c)", "\r\n "])]),
        ])), &c));
        v.push(space("transfer encodings", field("Content-Transfer-Encoding", cat(vec![ts(&["", " ", "(c)"]), alt(vec!["7bit|8bit|binary|base64|quoted-printable|x-uu|9bit".split('|').map(casings).collect::<Vec<_>>()].concat()), ts(&["", " ", "x", ";"])])), &c));
    }
    v.extend(borrowed_spaces(&c, d(120_000, 10_000_000) as u64, &["C05", "C06", "C14", "C04", "C08", "C07", "C20", "C19", "C10", "C12", "C13", "C15", "C09", "C11", "C16", "C21"]));
    v
}

// ---------------------------------------------------------------- C10 addresses
pub const RICH_TO: &str = "Mr. \"Q x\" (c) <a.b@c.d>, G : m@n, \"o\"@[p] ; ,\r\n <x@y>";
fn c10(d: D, m: &Check) -> Vec<Space> {
    let toks: &[&str] = if MIME {
        &["a", " ", ",", "<", ">", "@", ":", ";", "\"q\"", "\"\"", ".", "(c)", "[d]", "=?utf-8?q?e?="]
    } else {
        &["a", " ", ",", "<", ">", "@", ":", ";", "\"q\"", "\"\"", ".", "(c)", "[d]", "\r\n "]
    };
    let item = ts(&["a@b", "N <a@b>", "<a@b>", "G:;", "G:a@b;", "G:N <a@b>,c@d;", "\"q\" x <\"l\"@[d]>", "G: ;", "x", "", "G:H:;;", "a@b c", "\"\" <a@b>", "\"\":;", "\"\"@b"]);
    let good = ts(&["a@b", " N <a@b>", "<a@b> ", "G:;", " G : a@b , c@d ; ", "\"q,\" x <\"l\"@[d]>"]);
    let sep = ts(&[",", " , ", ",\r\n ", ";", ",,"]);
    let one_or_more = |item: &G, n: usize| cat(vec![item.clone(), seq(cat(vec![sep.clone(), item.clone()]), 0, n)]);
    let mut v = vec![
        space("to: token sequences", field("To", seq(ts(toks), 0, d(5, 6))), m),
        space("cc/bcc/reply-to: token sequences", any_field(&["Cc", "Bcc", "Reply-To"], &seq(ts(toks), 0, d(4, 5))), m),
        space("from: token sequences", from_field(seq(ts(toks), 0, d(4, 5))), m),
        space("sender: token sequences", field("Sender", seq(ts(toks), 0, d(4, 5))), m),
        space("to: lists of items", field("To", one_or_more(&item, d(2, 3))), m),
        space("every list field: lists of items", any_field(&["Cc", "Bcc", "Reply-To", "Sender"], &one_or_more(&item, d(1, 2))), m),
        space("from: lists of items", from_field(one_or_more(&item, d(2, 3))), m),
        space("resent fields: lists of items", alt(["From", "To", "Cc", "Bcc", "Sender"].iter().map(|n| resent(n, one_or_more(&item, d(1, 2)))).collect()), m),
        space("group members", field("To", cat(vec![l("G:"), opt(l(" ")), one_or_more(&item, d(2, 2)), l(";"), ts(&["", ",z@z", " (c)"])])), m),
        space("one byte changed anywhere", field("To", near(RICH_TO.as_bytes())), m),
        space("one byte changed anywhere (two)", field("To", near2(RICH_TO.as_bytes())), m),
        space("two tokens inserted anywhere", field("To", insert2(b"N <a@b>,G:c@d;", &tk(toks))), m),
    ];
    // list lengths
    for it in ["a@b,", " N <a@b>,", "G:;,", "G:a@b,c@d;,"] {
        v.push(space(
            format!("list length sweep of {}", it),
            alt(["To", "Cc", "Bcc", "Reply-To"].iter().map(|f| field(f, cat(vec![pump(l(it), upto(d, 300, 3000)), l("z@y")]))).collect()),
            m,
        ));
    }
    v.push(space("group length sweep", field("To", cat(vec![l("G:"), pump(ts(&["a@b,", " N <a@b> ,"]), upto(d, 300, 2000)), l("z@y;")])), m));
    v.push(space("from length sweep", from_field(cat(vec![pump(ts(&["a@b,", " N <a@b> ,"]), upto(d, 300, 2000)), l("z@y")])), m));
    v.push(space("display-name length sweep", field("To", cat(vec![pump(ts(&["a ", "\"b c\" ", "(x)d", "e"]), upto(d, 300, 2000)), l("<z@y>")])), m));
    v.extend(borrowed_spaces(m, d(60_000, 2_000_000) as u64, &["C11", "C09", "C15"]));
    v.push(space("good lists", field("To", cat(vec![good.clone(), seq(cat(vec![l(","), good]), 0, d(4, 6))])), m));
    v
}
fn tk<'a>(t: &[&'a str]) -> Vec<&'a [u8]> {
    t.iter().map(|s| s.as_bytes()).collect()
}

// ---------------------------------------------------------------- C11 quoted strings, phrases, local parts, domains
fn c11(d: D, m: &Check) -> Vec<Space> {
    let q = tb(&[b"\"", b"\\", b"a", b" ", b"\t", b"\r\n ", b"(", b"\xc3", b"\x01", b"\r", b"."]);
    let all: Vec<u8> = (0..=255).collect();
    let lit = tb(&[b"[", b"]", b"a", b" ", b"\r\n\t", b"\\", b".", b"(c)", b"\xc3", b"\"", b"\r\n"]);
    let atoms = tb(&[b"a", b".", b" ", b"(c)", b"\"", b"@", b"-", b"<", b"\r\n ", b"\xe9", b","]);
    let ctx = |g: &G| -> G {
        alt(vec![
            field("To", cat(vec![g.clone(), l(" <a@b>")])),
            field("To", cat(vec![l("<"), g.clone(), l("@b>")])),
            field("To", cat(vec![g.clone(), l("@b")])),
            field("Keywords", g.clone()),
            field("To", cat(vec![g.clone(), l(":;")])),
        ])
    };
    let dctx = |g: &G| -> G {
        alt(vec![
            field("To", cat(vec![l("<a@"), g.clone(), l(">")])),
            field("To", cat(vec![l("a@"), g.clone()])),
            field("To", cat(vec![l("N <a@"), g.clone(), l("> , z@z")])),
        ])
    };
    vec![
        space("inside a quoted string, as local part", field("To", cat(vec![l("\""), seq(q.clone(), 0, d(5, 6)), l("\"@b")])), m),
        space("inside a quoted string, as keyword", field("Keywords", cat(vec![l("\""), seq(q.clone(), 0, d(5, 6)), l("\"")])), m),
        space("quoted-string tokens in every place", ctx(&seq(q.clone(), 0, d(4, 5))), m),
        space("quoted string: every pair of bytes", ctx(&cat(vec![l("\""), bytes(), bytes(), l("\"")])), m),
        space("quoted pair then text: every byte", ctx(&cat(vec![l("\"a\\"), bytes(), ts(&["", "b", " ", "\\\\", "\\\"", "\r\n "]), l("\"")])), m),
        space("atoms: every pair of bytes", ctx(&cat(vec![bytes(), bytes()])), m),
        space("atoms: every byte between others", ctx(&cat(vec![ts(&["a", "a.", "\"q\"", "(c)"]), bytes(), ts(&["b", ".b", "\"q\""])])), m),
        space("domain: tokens", dctx(&seq(lit.clone(), 0, d(5, 6))), m),
        space("domain literal: inside", dctx(&cat(vec![l("["), seq(lit, 0, d(4, 5)), l("]")])), m),
        space("domain: every pair of bytes", dctx(&cat(vec![bytes(), bytes()])), m),
        space("domain literal: every pair of bytes", dctx(&cat(vec![l("["), bytes(), bytes(), l("]")])), m),
        space("dot-atoms: tokens", alt(vec![field("To", cat(vec![seq(atoms.clone(), 0, d(5, 6)), l("@b")])), field("To", cat(vec![l("a@"), seq(atoms.clone(), 0, d(5, 6))]))]), m),
        space("phrases: tokens", alt(vec![field("Keywords", seq(atoms.clone(), 0, d(5, 6))), field("To", cat(vec![seq(atoms, 0, d(4, 5)), l("<a@b>")]))]), m),
        space("one byte changed: phrase", field("To", cat(vec![near(b" \"a \\\" b\" cd (e) \"f\\\\\" "), l("<a@b>")])), m),
        space("one byte changed: phrase (two)", field("To", cat(vec![near2(b" \"a \\\" b\" cd (e) \"f\\\\\" "), l("<a@b>")])), m),
        space("one byte changed: literal", field("To", cat(vec![l("\"x y\"@"), near(b"[ 1.2 \r\n 3 ] (x)")])), m),
        space("one byte changed: literal (two)", field("To", cat(vec![l("\"x y\"@"), near2(b"[ 1.2 \r\n 3 ] (x)")])), m),
        space("lengths", alt(vec![
            field("Keywords", cat(vec![l("\""), pump(tb(&[b"a", b"\\\"", b" b", b"\\ ", b"\r\n c"]), upto(d, 200, 1500)), l("\"")])),
            field("To", cat(vec![l("\""), pump(tb(&[b"a", b"\\\"", b" b", b"\\ "]), upto(d, 200, 1500)), l("\"@x")])),
            field("To", cat(vec![l("a@["), pump(tb(&[b"a", b" b", b"."]), upto(d, 200, 1500)), l("]")])),
            field("To", cat(vec![pump(tb(&[b"a", b"a."]), upto(d, 200, 1500)), l("b@c")])),
        ]), m),
    ]
}

// ---------------------------------------------------------------- C12 identifiers
fn c12(d: D, m: &Check) -> Vec<Space> {
    let t = tb(&[b"<", b">", b"@", b"a", b".", b"[", b"]", b" ", b"(c)", b"\"q\"", b","]);
    let id = tb(&[b"<a@b>", b"<a.b@c.d>", b"<x@[y]>", b"<a@>", b"<@b>", b"<a b@c>", b"a@b", b"<a@b", b"<\"a\"@b>", b"<a@[]>", b"(c)"]);
    let sep = tb(&[b"", b" ", b"\r\n ", b"(c)", b",", b" (a (b)) \r\n\t"]);
    let mut names = vec!["Message-ID", "In-Reply-To", "References"];
    if MIME {
        names.push("Content-ID");
    }
    let all = |g: &G| any_field(&names, g);
    let bytes_all: Vec<u8> = (0..=255).collect();
    vec![
        space("references: token sequences", field("References", seq(t.clone(), 0, d(5, 6))), m),
        space("every id field: token sequences", all(&seq(t.clone(), 0, d(4, 5))), m),
        space("every id field: inside the brackets", all(&cat(vec![l("<"), seq(t.clone(), 0, d(4, 5)), l(">")])), m),
        space("resent-message-id", resent("Message-ID", seq(t.clone(), 0, d(4, 5))), m),
        space("id lists", all(&cat(vec![sep.clone(), id.clone(), seq(cat(vec![sep.clone(), id.clone()]), 0, 1), sep.clone()])), m),
        space("longer id lists", alt(["References", "In-Reply-To"].iter().map(|n| field(n, cat(vec![id.clone(), seq(cat(vec![tb(&[b"", b" ", b"\r\n "]), id.clone()]), 0, d(2, 3))]))).collect()), m),
        space("every pair of bytes left", all(&cat(vec![l("<"), bytes(), bytes(), l("@b>")])), m),
        space("every pair of bytes right", all(&cat(vec![l("<a@"), bytes(), bytes(), l(">")])), m),
        space("every pair of bytes in a literal", all(&cat(vec![l("<a@["), bytes(), bytes(), l("]>")])), m),
        space("one byte changed anywhere", all(&near(b" (c) <a.b-c@d.e>\r\n <f@[1.2:3]> ")), m),
        space("one byte changed anywhere (two)", all(&near2(b" (c) <a.b-c@d.e>\r\n <f@[1.2:3]> ")), m),
        space("list lengths", alt(["References", "In-Reply-To"].iter().map(|n| field(n, pump(tb(&[b"<a@b>", b" <c.d@[e]>", b"\r\n <f@g>"]), upto(d, 300, 3000)))).collect()), m),
        space("id lengths", all(&cat(vec![l("<"), pump(tb(&[b"a", b"a."]), upto(d, 200, 1500)), l("b@c>")])), m),
    ]
}

// ---------------------------------------------------------------- C13 date-time
fn c13(d: D, m: &Check) -> Vec<Space> {
    let date = |g: G| cat(vec![l("From: a@b.c\r\nDate:"), g, l("\r\n\r\nx")]);
    let date_ctx = |g: &G| -> G {
        let mut v = vec![
            resent("Date", g.clone()),
            cat(vec![l("Received: x;"), g.clone(), l("\r\n"), head(), l("\r\nx")]),
        ];
        if DISP {
            for p in ["creation-date", "modification-date", "read-date"] {
                v.push(field("Content-Disposition", cat(vec![l("inline; "), l(p), l("=\""), g.clone(), l("\"")])));
            }
        }
        alt(v)
    };
    let two = || cat(vec![G::Byte(b'0', b'9'), G::Byte(b'0', b'9')]);
    let day_names = ts(&["Mon,", "tue,", "WED,", "tHu,", " Fri,", "\r\n Sat,", "Sun,", "Mon ,", "Mo,", "Mond,", "Xyz,", "Mon", ",", "Mon,,", "", "Mon,Tue,", "(c)Mon,"]);
    let months = ts(&["Jan", "feb", "MAR", "aPr", "May", "jun", "JUL", "Aug", "sep", "oct", "nov", "dec", "Janu", "Ju", "Foo", "", "01", "Sept"]);
    let days = alt(vec![G::Byte(b'0', b'9'), two(), ts(&["001", "1a", "-1", "", "031"])]);
    let gap = ts(&[" ", "", "  ", "\t", "\r\n ", " \r\n\t ", "(c)", "\r\n"]);
    let all: Vec<u8> = (0..=255).collect();
    let full = "Mon, 12 Apr 2023 10:25:03 +0130";
    let mut v = vec![
        space("day name x day x month", date(cat(vec![day_names.clone(), l(" "), days.clone(), l(" "), months.clone(), l(" 2020 10:20 +0000")])), m),
        space("hour x minute", date(cat(vec![l("1 Jan 2020 "), two(), l(":"), two(), ts(&[" +0000", ":00 +0000", ":59 -0000"])])), m),
        space("seconds", date(cat(vec![l("1 Jan 2020 "), ts(&["00:00", "23:59", "24:00", "23:60"]), ts(&[":", "", " :", "::"]), alt(vec![two(), G::Byte(b'0', b'9'), l("000"), l("")]), l(" +0000")])), m),
        space("zone digits", date(cat(vec![l("1 Jan 2020 10:20"), ts(&[" +", " -", " ", "+", "\t-", "  +"]), two(), two(), ts(&["", " ", "0", " (UTC)", "Z"])])), m),
        space("zone names", date(cat(vec![l("1 Jan 2020 10:20:30 "), ts(&["GMT", "UT", "EST", "Z", "A", "+00:00", "+1", "+123", "+12345", "0000", "--0000", "+-000"])])), m),
        space("years", date(cat(vec![l("1 Jan "), fun(12000, |i, o| o.extend_from_slice(i.to_string().as_bytes())), l(" 10:20 +0000")])), m),
        space("years with leading zeros", date(cat(vec![l("1 Jan "), pump(l("0"), 0..6), ts(&["1", "19", "190", "1900", "1899", "2020", "99999"]), l(" 10:20 +0000")])), m),
        space("large years", date(cat(vec![l("1 Jan "), alt(vec![
            cat(vec![G::Byte(b'1', b'9'), pump(l("0"), 3..40)]),
            pump(ts(&["9", "1"]), 4..40),
            ts(&["18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551619", "18446744073709551620", "4294967295", "4294967296", "65535", "65536", "32768", "9223372036854775807", "9223372036854775808", "27670116110564327424", "36893488147419103232"]),
        ]), l(" 10:20 +0000")])), m),
        space("white space at every joint", date(cat(vec![gap.clone(), l("Mon,"), gap.clone(), l("1"), gap.clone(), l("Jan"), gap.clone(), l("2020"), gap.clone(), l("10:20"), gap.clone(), l("+0000"), gap.clone()])), m),
        space("one byte changed anywhere", date(near(full.as_bytes())), m),
        space("one byte changed anywhere (two)", date(near2(full.as_bytes())), m),
        space("one byte changed anywhere, no optional part", date(near(b"5 May 2003 18:59 +0000")), m),
        space("one byte changed anywhere, no optional part (two)", date(near2(b"5 May 2003 18:59 +0000")), m),
        space("two digits or marks inserted", date(insert2(full.as_bytes(), &[b"0", b"1", b" ", b":", b",", b"+", b"(c)", b"\r\n "])), m),
        space("a token in place of up to 4 bytes", date(insert_token(full.as_bytes(), &[b"", b"0", b"9", b" ", b":", b"\r\n ", b"(x)", b"Jan", b"Mon,", b"60", b"99", b"+"], 4)), m),
        space("pieces", date(pieces(full.as_bytes())), m),
        space("trailing comments", date(cat(vec![l(full), seq(ts(&[" ", "(a)", "\r\n ", "(b (c))", "x", "(", ")"]), 0, d(4, 6))])), m),
        space("every field that holds a date: byte changes", date_ctx(&near(full.as_bytes())), m),
        space("every field that holds a date: joints", date_ctx(&cat(vec![gap.clone(), l("Tue,"), gap.clone(), l("31"), gap.clone(), l("Dec"), ts(&[" 1999 ", "\r\n 1900\t", " 1899 "]), l("23:59:60"), gap.clone(), l("-2359"), gap.clone()])), m),
        space("every field that holds a date: day x month", date_ctx(&cat(vec![day_names.clone(), l(" "), two(), l(" "), months.clone(), l(" 2020 10:20 +0000")])), m),
        space("every month name x every casing", date(cat(vec![l("1 "), alt("Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec".split('|').map(casings).collect()), l(" 2020 10:20 +0000")])), m),
        space("every day name x every casing", date(cat(vec![alt("Mon|Tue|Wed|Thu|Fri|Sat|Sun".split('|').map(casings).collect()), ts(&[", 1", ",1", " ,1"]), l(" Jan 2020 10:20 +0000")])), m),
        space("all three-letter months", date(cat(vec![l("1 "), G::Byte(b'a', b'z'), G::Byte(b'a', b'z'), G::Byte(b'a', b'z'), l(" 2020 10:20 +0000")])), m),
        space("all three-letter days", date(cat(vec![G::Byte(b'a', b'z'), G::Byte(b'a', b'z'), G::Byte(b'a', b'z'), l(",1 Jan 2020 10:20 +0000")])), m),
        space("day x month x year", date(cat(vec![days, l(" "), months, l(" "), ts(&["1900", "1999", "2000", "2100", "10000", "0000"]), l(" 10:20 +0000")])), m),
    ];
    if d(0, 1) == 1 {
        v.push(space("hour x minute x second", date(cat(vec![l("1 Jan 2020 "), two(), l(":"), two(), l(":"), two(), l(" +0000")])), m));
        v.push(space("two bytes changed anywhere", date({
            let b = full.as_bytes().to_vec();
            let n = b.len() as u64;
            let w = SPECIAL.to_vec();
            let k = w.len() as u64;
            fun(n * n * k * k, move |i, o| {
                let s = o.len();
                o.extend_from_slice(&b);
                o[s + (i % n) as usize] = w[(i / n / n % k) as usize];
                o[s + (i / n % n) as usize] = w[(i / n / n / k) as usize];
            })
        }), m));
    }
    v
}

// ---------------------------------------------------------------- C14 trace
fn c14(d: D, m: &Check) -> Vec<Space> {
    let lines: Vec<&str> = vec![
        "Received:a;1 Jan 2020 10:20 +0000\r\n",
        "Return-Path:<>\r\n",
        "Return-Path: <p@q>\r\n",
        "Resent-Date: 2 Feb 2021 10:20 +0000\r\n",
        "Resent-To: t@u\r\n",
        "Received: by h.i;\r\n 3 Mar 2020 10:20 +0000\r\n",
        "Received: none\r\n",
        "Return-Path: x\r\n",
        "Resent-From: f@g, h@i\r\n",
        "Resent-Message-ID: <m@n>\r\n",
        "Resent-Sender: bad\r\n",
        "X-Other: y\r\n",
        "Subject: s\r\n",
    ];
    let more = ["Resent-Cc: c@d\r\n", "Resent-Bcc: \r\n", "Resent-Sender: s@t\r\n", "resent-bcc:b@c\r\n", "RESENT-TO: G:;\r\n"];
    let mut resents: Vec<&str> = lines.iter().copied().filter(|x| x.starts_with("Resent")).collect();
    resents.extend(more);
    let rec = tb(&[b"a", b"b.c", b" ", b"<d@e>", b"f@g", b"\"q\"", b"(c)", b"[d]", b";", b"<>", b".", b"\r\n "]);
    let received = |g: G| cat(vec![l("Received:"), g, l("\r\n"), head(), l("\r\nx")]);
    let rp = tb(&[b"<", b">", b"a", b"@", b" ", b"(c)", b"\"q\"", b"[d]", b"\r\n ", b"."]);
    let all: Vec<u8> = (0..=255).collect();
    let dt = "1 Jan 2020 10:20 +0000";
    vec![
        space("sequences of header lines", cat(vec![arrangements(&lines, 0, d(4, 5)), head(), l("\r\nx")]), m),
        space("sequences of header lines after the mandatory ones", cat(vec![head(), arrangements(&lines, 0, d(3, 4)), l("\r\nx")]), m),
        space("resent fields in a block", cat(vec![l(lines[0]), arrangements(&resents, 0, d(4, 5)), head(), l("\r\nx")]), m),
        space("resent fields in two blocks", cat(vec![l(lines[0]), arrangements(&resents, 0, d(2, 2)), ts(&["", "Return-Path:<>\r\n"]), l(lines[5]), arrangements(&resents, 0, d(2, 2)), head(), l("\r\nx")]), m),
        space("several blocks", cat(vec![
            seq(cat(vec![ts(&[lines[0], "Received:b c;2 Jan 2020 10:20 +0000\r\n", "Return-Path:<>\r\nReceived:;3 Jan 2020 10:20 +0000\r\n"]), seq(ts(&["Resent-To:a@b\r\n", "Resent-Date:1 Jan 2020 10:20 +0000\r\n", "Resent-To:c@d\r\n"]), 0, 2)]), 1, 3),
            ts(&["", "X:y\r\n", "Received:a;1 Jan 2020 10:20 +0000\r\n"]), head(), l("\r\nx")]), m),
        space("many blocks", cat(vec![
            seq(cat(vec![l(lines[0]), ts(&["", "Resent-To:a@b\r\n", "Resent-From:c@d\r\nResent-To:e@f\r\n"])]), 1, d(6, 9)), head(), l("\r\nx")]), m),
        space("received tokens", received(cat(vec![seq(rec.clone(), 0, d(4, 5)), l(";"), l(dt)])), m),
        space("received tokens, no date", received(seq(rec, 0, d(3, 4))), m),
        space("received: realistic clauses", received(cat(vec![
            seq(ts(&[" from h.example", " by", " mx [1.2.3.4]", " with ESMTP id 12.ab", " for <x@y.z>", " for x@y.z", " (a (b) c)", "\r\n via TCP", " id \"q.r\"", " from a.b (c.d [1.2.3.4])", " [IPv6:::1]"]), 0, d(4, 5)),
            l("; "), l(dt), ts(&["", " (UTC)"])])), m),
        space("received: one byte changed", received(near(b" from a.b (c [1.2]) by \"q\"\r\n for <u@v>; Fri, 1 Jan 2020 10:20 +0000 (z)")), m),
        space("received: one byte changed (two)", received(near2(b" from a.b (c [1.2]) by \"q\"\r\n for <u@v>; Fri, 1 Jan 2020 10:20 +0000 (z)")), m),
        space("received: every pair of bytes as token", received(cat(vec![ts(&["", "a "]), bytes(), bytes(), l(";"), l(dt)])), m),
        space("return-path tokens", cat(vec![l("Return-Path:"), seq(rp, 0, d(5, 6)), l("\r\n"), l(lines[0]), head(), l("\r\nx")]), m),
        space("return-path: one byte changed", cat(vec![l("Return-Path:"), near(b" (c) <a.b@c.d> "), l("\r\n"), l(lines[0]), head(), l("\r\nx")]), m),
        space("return-path: one byte changed (two)", cat(vec![l("Return-Path:"), near2(b" (c) <a.b@c.d> "), l("\r\n"), l(lines[0]), head(), l("\r\nx")]), m),
        space("field names: one byte changed", cat(vec![
            alt(vec![cat(vec![near(b"Return-Path"), l(": <p@q>\r\n"), l(lines[0])]),
                     cat(vec![near(b"Received"), l(": a;"), l(dt), l("\r\n")]),
                     cat(vec![l(lines[0]), alt(["Date", "From", "Sender", "To", "Cc", "Bcc", "Message-ID"].iter().map(|n| {
                         let body = match *n { "Date" => dt, "Message-ID" => "<a@b>", _ => "a@b" };
                         cat(vec![near(format!("Resent-{}", n).as_bytes()), l(":"), l(body), l("\r\n")])
                     }).collect())])]),
            head(), l("\r\nx")]), m),
        space("number of received lines", cat(vec![pump(ts(&["Received: a b;1 Jan 2020 10:20 +0000\r\n", "Return-Path:<>\r\nReceived:;1 Jan 2020 10:20 +0000\r\n", "Received:x;1 Jan 2020 10:20 +0000\r\nResent-To:a@b\r\n"]), upto(d, 120, 1000)), head(), l("\r\nx")]), m),
        space("number of received tokens", received(cat(vec![pump(ts(&["a ", " b.c", "<d@e>", "(c) x "]), upto(d, 200, 1500)), l(";"), l(dt)])), m),
        space("trace lines of every kind in a big message", {
            let one = || ts(&lines.iter().chain(&resents).copied().collect::<Vec<_>>());
            let fill = || alt(vec![pump(l("Resent-To:a@b\r\n"), [60, 300, 4_000]), cat(vec![l("Resent-Cc:"), pump(l("a@b,"), [60, 300, 9_000]), l("c@d\r\n")]), cat(vec![l("Received:"), pump(l("a "), [120, 500, 20_000]), l(";"), l(dt), l("\r\n")]), pump(l("Received:;1 Jan 2020 10:20 +0000\r\n"), [20, 300, 2_000])]);
            alt(vec![
                cat(vec![l(lines[0]), one(), fill(), ts(&["", "Resent-To:t@u\r\n", "Return-Path:<>\r\n"]), head(), l("\r\nx")]),
                cat(vec![opt(one()), l(lines[0]), fill(), one(), head(), l("\r\nx")]),
                cat(vec![l(lines[0]), one(), one(), head(), l("\r\n"), pump(ts(&["x", "y z\r\n"]), [999, 11_000])]),
            ])
        }, m),
        space("number of every resent field", cat(vec![l(lines[0]), alt(resents.iter().map(|r| pump(l(*r), [1, 2, 3, 10, 100, 256, 1_000])).collect()), head(), l("\r\nx")]), m),
        space("number of resent fields", cat(vec![l(lines[0]), pump(ts(&["Resent-To:a@b\r\n", "Resent-Date:1 Jan 2020 10:20 +0000\r\n"]), upto(d, 120, 1000)), head(), l("\r\nx")]), m),
    ]
}

// ---------------------------------------------------------------- C08 unstructured text
fn c08(d: D, m: &Check) -> Vec<Space> {
    let t = tb(&[b" ", b"\t", b"\r\n ", b"\r\n", b"a", b"b:", b"\r", b"\n", b"\x01", b"\xc3\xa9"]);
    let mut names = vec!["Subject", "Comments", "X-Any"];
    if MIME {
        names.push("Content-Description");
    }
    let all: Vec<u8> = (0..=255).collect();
    let c = |g: &G| any_field(&names, g);
    vec![
        space("subject: token sequences", field("Subject", seq(t.clone(), 0, d(5, 7))), m),
        space("every text field: token sequences", c(&seq(t.clone(), 0, d(4, 6))), m),
        space("first header of a message", field_first("X-Any", seq(t.clone(), 0, d(4, 5))), m),
        space("white-space shapes", c(&seq(tb(&[b" ", b"\t", b"\r\n ", b"\r\n\t", b"a", b"bc"]), 0, d(6, 7))), m),
        space("every pair of bytes", c(&cat(vec![bytes(), bytes()])), m),
        space("every byte between others", c(&cat(vec![ts(&["a", " ", "a ", "\r\n a"]), bytes(), ts(&["b", " ", " b", "\r\n b"])])), m),
        space("one byte changed", c(&near(b" a b\r\n  c\td \r\n\te  ")), m),
        space("one byte changed (two)", c(&near2(b" a b\r\n  c\td \r\n\te  ")), m),
        space("lengths", c(&pump(tb(&[b"a", b" ", b"a ", b" a", b"\r\n b", b" \r\n\tc", b"\xc3"]), upto(d, 300, 2500))), m),
        space("several text fields", cat(vec![head(), seq(ts(&["Subject: a\r\n", "Comments: b\r\n c\r\n", "Comments:\r\n", "X:\r\n \r\n", "X: y \r\n", "Comments: d \r\n\te\r\n"]), 0, d(5, 6)), l("\r\nx")]), m),
    ]
}

// ---------------------------------------------------------------- C09 comments and folding white space
fn c09(d: D, m: &Check) -> Vec<Space> {
    let pad: Vec<&str> = vec!["", " ", "\t", "\r\n ", "(c)", " (a(b)c) ", " (x)\r\n\t(y)\r\n ", "(\\)\\()", "( \r\n )", "(", "(a))", "\r\n", "(é)", "()", " \r\n \r\n "];
    let slots = |parts: &[&str], p: usize| -> G {
        // pad at every pair of joints, nothing elsewhere
        let parts: Vec<Vec<u8>> = parts.iter().map(|s| s.as_bytes().to_vec()).collect();
        let pad: Vec<Vec<u8>> = pad.iter().map(|s| s.as_bytes().to_vec()).collect();
        let (n, k) = (parts.len() as u64 - 1, pad.len() as u64);
        let _ = p;
        fun(n * n * k * k, move |i, o| {
            let (a, b) = ((i % n) as usize, (i / n % n) as usize);
            let (x, y) = ((i / n / n % k) as usize, (i / n / n / k) as usize);
            for (j, w) in parts.iter().enumerate() {
                o.extend_from_slice(w);
                if j == a {
                    o.extend_from_slice(&pad[x]);
                }
                if j == b && a != b {
                    o.extend_from_slice(&pad[y]);
                }
            }
        })
    };
    let all_slots = |parts: &[&str], few: &[&str]| -> G {
        let mut v = vec![];
        for (j, w) in parts.iter().enumerate() {
            v.push(l(w));
            if j + 1 < parts.len() {
                v.push(ts(few));
            }
        }
        cat(v)
    };
    // every joint where the grammar has an optional CFWS (and some where it has none)
    let mut bases: Vec<(&str, Vec<&str>)> = vec![
        ("To", vec!["To:", "N", "M", "<", "a", "@", "b", ">", ",", "G", ":", "c", "@", "d", ",", "<", "e", "@", "[f]", ">", ";", "\r\n"]),
        ("Cc", vec!["Cc:", "\"q\"", "<", "\"l\"", "@", "[", "d", "]", ">", ",", "G", ":", ";", "\r\n"]),
        ("Bcc", vec!["Bcc:", "", "\r\n"]),
        ("References", vec!["References:", "<", "a", "@", "b", ">", "<", "c", "@", "[d]", ">", "\r\n"]),
        ("Message-ID", vec!["Message-ID:", "<", "a.b", "@", "c", ">", "\r\n"]),
        ("Keywords", vec!["Keywords:", "a", "b", ",", "\"c\"", "d", "\r\n"]),
        ("Reply-To", vec!["Reply-To:", "a", ".", "b", "@", "c", ".", "d", "\r\n"]),
        ("Sender", vec!["Sender:", "N", "<", "a", "@", "b", ">", "\r\n"]),
    ];
    let trace_bases: Vec<Vec<&str>> = vec![
        vec!["Return-Path:", "<", ">", "\r\nReceived:", "a", "b.c", "<", "d", "@", "e", ">", "[f]", ";", "Mon", ",", "1", "Jan", "2020 10:20:30 +0000", "\r\n"],
        vec!["Return-Path:", "<", "a", "@", "b", ">", "\r\nReceived:", ";", "1 Jan", "2020", "10", ":", "20", "+0000", "\r\n"],
    ];
    if MIME {
        bases.push(("Content-Type", vec!["Content-Type:", "text", "/", "plain", ";", "charset", "=", "utf-8", ";", "a", "=", "\"b\"", "\r\n"]));
        bases.push(("Content-Transfer-Encoding", vec!["Content-Transfer-Encoding:", "base64", "\r\n"]));
        bases.push(("Content-ID", vec!["Content-ID:", "<", "a", "@", "b", ">", "\r\n"]));
        bases.push(("MIME-Version", vec!["MIME-Version:", "1", ".", "0", "\r\n"]));
        if DISP {
            bases.push(("Content-Disposition", vec!["Content-Disposition:", "attachment", ";", "filename", "=", "f", ";", "read-date", "=", "\"", "1 Jan 2020 10:20 +0000", "\"", ";", "x", "=", "y", "\r\n"]));
        }
    }
    let few: &[&str] = &["", "(c)", "\r\n "];
    let mut v = vec![];
    for (n, parts) in &bases {
        v.push(space(format!("{}: pad at every two joints", n), cat(vec![head(), slots(parts, 2), l("\r\nQUJD")]), m));
        if parts.len() <= 11 {
            v.push(space(format!("{}: some pad at all joints at once", n), cat(vec![head(), all_slots(parts, if parts.len() <= 9 || d(0, 1) == 1 { few } else { &few[..2] }), l("\r\nQUJD")]), m));
        }
    }
    for (i, parts) in trace_bases.iter().enumerate() {
        v.push(space(format!("trace {}: pad at every two joints", i), cat(vec![slots(parts, 2), head(), l("\r\nx")]), m));
    }
    v.push(space("date: pad at every two joints", cat(vec![l("From: a@b\r\n"), slots(&["Date:", "Mon", ",", "1", " ", "Jan", " ", "2020", " ", "10", ":", "20", ":30 ", "+", "0000", "\r\n"], 2), l("\r\nx")]), m));
    v.push(space("from: pad at every two joints", cat(vec![l("Date: 1 Jan 2020 10:20 +0000\r\n"), slots(&["From:", "N", "<", "a", "@", "b", ">", "\r\n"], 2), l("\r\nx")]), m));
    // the inside of comments
    let t = tb(&[b"(", b")", b"\\", b"a", b" ", b"\r\n ", b"\"", b"\xc3", b"\r\n"]);
    let c = |g: G| field("To", cat(vec![g, l("a@b")]));
    let all: Vec<u8> = (0..=255).collect();
    v.push(space("comment tokens", c(seq(t.clone(), 0, d(5, 7))), m));
    v.push(space("inside a comment", c(cat(vec![l("("), seq(t, 0, d(5, 6)), l(")")])), m));
    v.push(space("every pair of bytes in a comment", c(cat(vec![l("("), bytes(), bytes(), l(")")])), m));
    v.push(space("quoted pair in a comment: every byte", c(cat(vec![l("(a\\"), bytes(), ts(&[")", "b)", "))", " )"])])), m));
    v.push(space("one byte changed", c(near(b" (a (b \\) c)\r\n d) (e)\r\n ")), m));
    v.push(space("one byte changed (two)", c(near2(b" (a (b \\) c)\r\n d) (e)\r\n ")), m));
    v.push(space("nesting depth", c(cat(vec![fun(d(2000, 20000) as u64, |i, o| {
        o.extend(std::iter::repeat(b'(').take(i as usize));
        o.push(b'x');
        o.extend(std::iter::repeat(b')').take(i as usize));
    })])), m));
    v.push(space("unbalanced nesting", c(fun(60 * 60, |i, o| {
        o.extend(std::iter::repeat(b'(').take((i % 60) as usize));
        o.extend(std::iter::repeat(b')').take((i / 60) as usize));
    })), m));
    v.push(space("number of comments", c(pump(ts(&["(a)", " (b) ", "(c)\r\n ", "(d (e))"]), upto(d, 300, 2000))), m));
    v
}

// ---------------------------------------------------------------- C04 header/body split
fn c04(d: D, m: &Check) -> Vec<Space> {
    let t = tb(&[b"A:b\r\n", b"\r\n", b"x", b"\r", b"\n", b":", b" ", b"\x00", b"\x80", b"y:"]);
    let body = |g: G| cat(vec![head(), l("\r\n"), g]);
    let all: Vec<u8> = (0..=255).collect();
    let mut v = vec![
        space("whole input: token sequences after the headers", cat(vec![head(), seq(t.clone(), 0, d(5, 6))]), m),
        space("whole input: token sequences before the headers", cat(vec![seq(t.clone(), 0, d(4, 5)), head(), l("\r\nx")]), m),
        space("body token sequences", body(seq(tb(&[b"a", b"\r\n", b"\r", b"\n", b"\x00", b"\x7f", b"\x80", b" ", b"b:c"]), 0, d(6, 7))), m),
        space("body: every pair of bytes", body(cat(vec![ts(&["", "a", "a\r\n"]), bytes(), bytes(), ts(&["", "z", "\r\n"])])), m),
        space("between headers and body: every triple of special bytes", cat(vec![head(), seq(alt(SPECIAL.iter().map(|c| l([*c])).collect()), 0, 3)]), m),
        space("between headers and body: every pair of bytes", cat(vec![head(), bytes(), bytes(), ts(&["", "\r\n", "x", "\r\nx"])]), m),
        space("line lengths", body(cat(vec![ts(&["", "first\r\n", "\r\n"]), pump(l("a"), upto(d, 1100, 2100)), tb(&[b"", b"\r\n", b"\r\nz", b"\r", b"\n", b"\x00", b"\x80"])])), m),
        space("lengths of two lines around the limit", body(cat(vec![pump(l("a"), 994..1003), l("\r\n"), pump(l("b"), 994..1003), ts(&["", "\r\n", "\r\nc"])])), m),
        space("line length with a late bad byte", body(cat(vec![pump(l("a"), 990..1003), bytes(), ts(&["", "b", "\r\n", "\n"])])), m),
        space("number of lines", body(cat(vec![pump(ts(&["a\r\n", "\r\n", "b c\r\n"]), upto(d, 1500, 6000)), ts(&["", "end", "\r"])])), m),
        space("truncations and cut-outs", pieces(format!("{}Subject: a\r\n b\r\nTo: c@d\r\n\r\nbody\r\nline two\r\n\r\nend", HEAD).as_bytes()), m),
        space("one byte changed anywhere", near(format!("{}Subject: a\r\n b\r\nTo: c@d\r\n\r\nbody\r\n\r\nend", HEAD).as_bytes()), m),
        space("one byte changed anywhere (two)", near2(format!("{}Subject: a\r\n b\r\nTo: c@d\r\n\r\nbody\r\n\r\nend", HEAD).as_bytes()), m),
        space("a line break written in every way, anywhere", insert_token(format!("{}Subject: a\r\n b\r\nX-Y:\r\n\r\nbody\r\n\r\nend", HEAD).as_bytes(), &[b"\r\n", b"\r", b"\n", b"\r\n\r\n", b"\n\r", b"\r\r\n", b"\r\n ", b"\x00", b"\xff"], 2), m),
        space("two insertions", insert2(b"From: a@b\r\nDate: 1 Jan 2020 10:20 +0000\r\n\r\nx\r\ny", &[b"\r\n", b"\r", b"\n", b" ", b"A:b\r\n", b"\x80"]), m),
        space("header line lengths", cat(vec![head(), l("X:"), pump(l("a"), upto(d, 1100, 2100)), ts(&["\r\n\r\nbody", "\r\n", "", "\r\n\r\n"])]), m),
    ];
    if MIME {
        v.push(space("body bytes are kept: every byte, every length class", body(cat(vec![pump(bytes(), [0usize, 1, 2, 3, 998, 999, 1000]), ts(&["", "\r\n"])])), m));
    }
    v
}

// ---------------------------------------------------------------- C05 accounting of header fields
pub fn known_names() -> Vec<(&'static str, &'static str, &'static str)> {
    // name, a good body, a bad body
    let mut v = vec![
        ("Date", "2 Feb 2020 10:20 +0000", "yesterday"),
        ("From", "f@g", "nobody"),
        ("Sender", "s@t", "s@t, u@v"),
        ("Reply-To", "r@s", "r@"),
        ("To", "t@u", ""),
        ("Cc", "c@d", "c d"),
        ("Bcc", "b@c", "<>"),
        ("Message-ID", "<m@n>", "m@n"),
        ("In-Reply-To", "<i@j> <k@l>", "your mail"),
        ("References", "<r@s>", "<r@s>, <t@u>"),
        ("Subject", " s", "\u{1}"),
        ("Comments", " c", "\u{1}"),
        ("Keywords", "k l, m", ","),
        ("MIME-Version", "1.0", "1"),
        ("Content-Type", "text/html; charset=utf-8", "text"),
        ("Content-Transfer-Encoding", "8bit", "7 bit"),
        ("Content-ID", "<c@i>", "ci"),
        ("Content-Description", " d", "\u{1}"),
        ("Content-Disposition", "inline; filename=f", "inline; filename"),
        ("Return-Path", "<>", "x"),
        ("Received", "a;1 Jan 2020 10:20 +0000", "a"),
        ("Resent-To", "a@b", "a"),
        ("X-Unknown", " v w", "\u{1}"),
    ];
    v.push(("To-Do", "t@u", ""));
    v
}
/// Header lines of every field, with values of every shape.
pub fn shapes() -> Vec<String> {
    let addr = ["a@b", " N M <a.b@c.d>", "\"q \\\" r\" x <\"l\\ m\"@[1.2]> (c)", "G:;", " G g : a@b ,\r\n N <c@d> ; (c)", "a@b, \"x,y\" <c@d>", "(c)<a@b>,G:H <i@j>;", "=?utf-8?q?=C3=A9?= <a@b>", "bad", ""];
    let text = [" s", "", " a\r\n b", " =?utf-8?q?=C3=A9?=\r\n =?iso-8859-1?b?6Q==?= z", "\ta: <b>; \"c\" (d)", " =?bad?= \u{e9}"];
    let ids = ["<a@b>", " <a.b@[c]> (x)", "<\"l l\"@d>", "<a@b> <c@d>\r\n <e@f>", "a@b"];
    let mut v = vec![];
    let mut add = |names: &[&str], bodies: &[&str]| {
        for n in names {
            for b in bodies {
                v.push(format!("{}:{}\r\n", n, b));
            }
        }
    };
    add(&["From", "Sender", "Reply-To", "To", "Cc", "Bcc"], &addr);
    add(&["Message-ID", "In-Reply-To", "References", "Content-ID"], &ids);
    add(&["Subject", "Comments", "X-Any", "Content-Description"], &text);
    add(&["Keywords"], &["k", " a b, \"c\\d\" e (x)", "=?utf-8?b?w6k=?=, f", ","]);
    add(&["Date"], &["1 Jan 2020 10:20 +0000", " Sat, 29 Feb 2020 23:59:60 -1159 (x)", "30 Feb 2020 10:20 +0000"]);
    add(&["MIME-Version"], &["1.0", " (x) 1 . 1 (y)", "2"]);
    add(&["Content-Type"], &["text/plain", " TEXT/Html; charset=\"UTF-8\"", "text/x;charset=iso-8859-1;a*0*=utf-8'e'%C3%A9;\r\n a*1=\"q\\r\"", " multipart/mixed; boundary=b", "multipart/x;boundary=\"b\\ b\"; c=d (x)", "x-y/z", "image/png; name*=gb2312''%b0%a1", "text"]);
    add(&["Content-Transfer-Encoding"], &["base64", " Quoted-Printable", "8bit (x)", "x-own", "7 bit"]);
    add(&["Content-Disposition"], &["inline", " Attachment; filename=\"f \\\" g\"; size=12", "x-kind;read-date=\"1 Jan 2020 10:20 +0000\";n*0=a;n*1=b", "inline; filename*=utf-8''%41", "inline;"]);
    add(&["Received", "Return-Path", "Resent-To"], &["a;1 Jan 2020 10:20 +0000", "<>", "a@b"]);
    v
}
fn c05(d: D, m: &Check) -> Vec<Space> {
    let all: Vec<u8> = (0..=255).collect();
    let k = known_names();
    let line = |n: &str, b: &str| format!("{}:{}\r\n", n, b);
    let mut lines: Vec<String> = vec![];
    for (n, g, b) in &k {
        lines.push(line(n, g));
        if !b.contains('\u{1}') {
            lines.push(line(n, b));
        }
    }
    lines.push("X:\r\n".into());
    lines.push("x : y\r\n".into());
    lines.push("X-Unknown: folded\r\n\tvalue \r\n".into());
    lines.push("no colon\r\n".into());
    lines.push(": empty name\r\n".into());
    lines.push("X:\x01\r\n".into());
    let lr: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
    let small: Vec<&str> = vec!["X:1\r\n", "X: 1\r\n", "y:\r\n", "To:bad\r\n", "To:t@u\r\n", "Subject: s\r\n", "X-Y-Z: a\r\n b\r\n", "Received:x\r\n", "Message-ID:bad\r\n", "Keywords:a\r\n", "Comments: c\r\n", "bad\r\n"];
    let sh = shapes();
    let sr: Vec<&str> = sh.iter().map(|s| s.as_str()).collect();
    let bad_bodies = ts(&["", " ", "x", " x", "\u{7}", "a@b", "<a@b>", "a@b,", "1.0", "text/plain", "text/plain;", "base64", "1 Jan 2020 10:20 +0000", "a;1 Jan 2020 10:20 +0000", "<>", "inline", "\"", "(", "G:;", " folded\r\n line", "\r\n x", "=?x?=", "=?utf-8?q?a?="]);
    let name_edit = alt(k.iter().map(|(n, g, _)| cat(vec![near(n.as_bytes()), l(":"), l(g), l("\r\n")])).collect());
    let names: Vec<&str> = k.iter().map(|x| x.0).collect();
    vec![
        space("every two lines", cat(vec![head(), arrangements(&lr, 0, 2), l("\r\nx")]), m),
        space("every two lines of every shape", cat(vec![head(), arrangements(&sr, 2, 2), tb(&[b"\r\nx", b"\r\n--b\r\n\r\nw6k=\xe9\r\n--b--\r\n"])]), m),
        space("every line of every shape first and last", cat(vec![arrangements(&sr, 1, 1), head(), arrangements(&sr, 0, 1), l("\r\nw6k=")]), m),
        space("every line before the mandatory ones", cat(vec![arrangements(&lr, 0, d(2, 2)), head(), l("\r\nx")]), m),
        space("short header lines in sequence", cat(vec![head(), arrangements(&small, 0, d(4, 5)), l("\r\nx")]), m),
        space("short header lines in sequence, before", cat(vec![arrangements(&small, 0, d(4, 5)), head()]), m),
        space("names with one byte changed", cat(vec![head(), name_edit.clone(), l("Subject: z\r\n\r\nx")]), m),
        space("name bytes", cat(vec![head(), bytes(), bytes(), ts(&["", "z"]), l(":v\r\n\r\nx")]), m),
        space("every name with every body", cat(vec![ts(&["", "X: first\r\n"]), head(), ts(&names), ts(&[":", " :", ":: "]), bad_bodies.clone(), l("\r\nX: last\r\n\r\nx")]), m),
        space("every name with every body twice", cat(vec![head(), ts(&names), l(":"), bad_bodies.clone(), l("\r\n"), ts(&["To", "Subject", "X"]), l(":"), bad_bodies, l("\r\n\r\nx")]), m),
        space("known names with something appended or cut", cat(vec![head(), alt(k.iter().map(|(n, g, _)| cat(vec![
            fun(n.len() as u64, { let n = n.to_string(); move |i, o| o.extend_from_slice(&n.as_bytes()[i as usize..]) }),
            ts(&["", "s", "-", " ", "\t", "X", "-To"]), l(":"), l(g), l("\r\n")])).collect()), l("\r\nx")]), m),
        space("every line of every shape in a big message", {
            let fill = || alt(vec![pump(l("X: y\r\n"), [120, 700, 5_000, 11_000]), cat(vec![l("X:"), pump(l(" y"), [120, 1_030, 33_000, 65_600]), l("\r\n")]), cat(vec![l("Comments:"), pump(l(" y\r\n"), [300, 17_000])]), cat(vec![l("To:"), pump(l("a@b,"), [300, 17_000]), l("c@d\r\n")])]);
            alt(vec![
                cat(vec![head(), arrangements(&sr, 1, 1), fill(), l("\r\nx")]),
                cat(vec![head(), fill(), arrangements(&sr, 1, 1), l("\r\nx")]),
                cat(vec![head(), arrangements(&sr, 1, 1), l("\r\n"), pump(ts(&["x", "y z\r\n"]), [300, 999, 11_000, 66_000])]),
            ])
        }, m),
        space("three lines of every kind", if d(0, 1) == 1 { cat(vec![head(), arrangements(&sr, 3, 3), l("\r\nw6k=")]) } else { cat(vec![head(), arrangements(&sr.iter().copied().step_by(3).collect::<Vec<_>>(), 3, 3), l("\r\nw6k=")]) }, m),
        space("number of unknown fields", cat(vec![head(), pump(ts(&["X: v\r\n", "To:bad\r\n", "Y:\r\n", "Comments: c\r\n", "Keywords:k,l\r\n"]), upto(d, 300, 2500)), l("\r\nx")]), m),
        space("name lengths", cat(vec![head(), pump(ts(&["n", "N-"]), upto1(d, 300, 2000)), l(": v\r\n\r\nx")]), m),
        space("a malformed line among good ones", cat(vec![head(), insert_token(b"Subject: s\r\nTo: t@u\r\nX: y\r\n\r\nbody", &[b"\r\n", b" ", b":", b"\x00", b"\x80", b"a b:c\r\n", b"q\r\n", b"\r", b"\n"], 1)]), m),
    ]
}

// ---------------------------------------------------------------- C06 occurrence rules
fn c06(d: D, m: &Check) -> Vec<Space> {
    let mut names: Vec<(&str, &str)> = vec![
        ("Date", "2 Feb 2020 10:20 +0000"), ("From", "f@g"), ("Sender", "s@t"), ("Reply-To", "r@s"), ("To", "t@u"), ("Cc", "c@d"), ("Bcc", "b@c"),
        ("Message-ID", "<m@n>"), ("In-Reply-To", "<i@j>"), ("References", "<r@s>"), ("Subject", "s"), ("Comments", "c"), ("Keywords", "k"),
    ];
    if MIME {
        names.extend([("MIME-Version", "1.0"), ("Content-Type", "text/html"), ("Content-Transfer-Encoding", "8bit"), ("Content-ID", "<c@i>"), ("Content-Description", "d")]);
        if DISP {
            names.push(("Content-Disposition", "inline"));
        }
    }
    names.push(("X-Else", "x"));
    let lines: Vec<String> = names.iter().map(|(n, b)| format!("{}: {}\r\n", n, b)).collect();
    let lr: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
    let who = ts(&["From: a@b\r\n", "From: a@b, c@d\r\n", "from:N <a@b>\r\n", "From: G:a@b;\r\n", "From: bad\r\n", "Sender: s@t\r\n", "Sender: S <s@t>\r\n", "sender: bad\r\n", "Date: 1 Jan 2020 10:20 +0000\r\n", "Date: bad\r\n", "To: t@u\r\n"]);
    // two instances of one field with different bodies: same, other, malformed, in every order with a third line between
    let twice = alt(names.iter().map(|(n, b)| {
        let one = cat(vec![l(n), l(":"), alt(vec![l(b), l(" bad\x01"), l("="), l("")]), l("\r\n")]);
        cat(vec![one.clone(), ts(&["", "X: y\r\n", "Comments: z\r\n"]), one.clone(), opt(one)])
    }).collect());
    let must = |g: G| cat(vec![head(), g, l("\r\nx")]);
    vec![
        space("sequences of header lines", cat(vec![arrangements(&lr, 0, d(4, 5)), l("\r\nx")]), m),
        space("sequences after the mandatory ones", must(arrangements(&lr, 0, d(3, 4))), m),
        space("originators", cat(vec![seq(who, 0, d(5, 6)), l("\r\nx")]), m),
        space("every field up to three times", must(twice), m),
        space("number of authors, with and without a sender", alt(vec![
            cat(vec![l("Date: 1 Jan 2020 10:20 +0000\r\nFrom: a@b"), pump(ts(&[",a@b", ", N <c@d>"]), upto(d, 60, 500)), ts(&["", "\r\nSender: s@t", "\r\nSender: s@t\r\nSender: s@t", "\r\nSender: bad"]), l("\r\n\r\nx")]),
        ]), m),
        space("every field n times", must(alt(lines.iter().map(|x| pump(l(x), upto(d, 12, 40))).collect())), m),
        space("repeatable fields between others", must(cat(vec![seq(ts(&["Comments: a\r\n", "Keywords: k,l\r\n", "Keywords: m\r\n", "Comments: b\r\n", "X: y\r\n", "Subject: s\r\n", "comments:\r\n"]), 0, d(5, 6))])), m),
    ]
}

// ---------------------------------------------------------------- C07 letter case
fn c07(d: D, m: &Check) -> Vec<Space> {
    let good: Vec<(&str, &str)> = known_names().into_iter().map(|(n, g, _)| (n, g)).collect();
    let mut v = vec![
        space("field names in every casing", cat(vec![head(), alt(good.iter().map(|(n, g)| cat(vec![casings(n), l(":"), l(g), l("\r\n")])).collect()), l("\r\nx")]), m),
        space("mandatory names in every casing", cat(vec![casings("From"), l(": a@b\r\n"), casings("Date"), l(": 1 Jan 2020 10:20 +0000\r\n\r\nx")]), m),
        space("trace names in every casing", cat(vec![casings("Return-Path"), l(":<>\r\nReceived:a;1 Jan 2020 10:20 +0000\r\n"), head(), l("\r\nx")]), m),
        space("received in every casing", cat(vec![casings("Received"), l(":a;1 Jan 2020 10:20 +0000\r\n"), head(), l("\r\nx")]), m),
        space("resent names in every casing", cat(vec![l("Received:a;1 Jan 2020 10:20 +0000\r\n"),
            alt([("Date", "1 Jan 2020 10:20 +0000"), ("From", "a@b"), ("Sender", "a@b"), ("To", "a@b"), ("Cc", "a@b"), ("Bcc", "a@b"), ("Message-ID", "<a@b>")].iter()
                .map(|(n, b)| cat(vec![casings(&format!("Resent-{}", n)), l(":"), l(b), l("\r\n")])).collect()),
            head(), l("\r\nx")]), m),
        space("month and day names in every casing", cat(vec![l("From: a@b\r\nDate: "), alt("Mon|Tue|Wed|Thu|Fri|Sat|Sun".split('|').map(casings).collect()), l(", 1 "),
            alt("Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec".split('|').map(casings).collect()), l(" 2020 10:20 +0000\r\n\r\nx")]), m),
        space("text that keeps its case", field("Subject", cat(vec![casings("AbcDef")])), m),
        space("addresses keep their case", field("To", cat(vec![casings("Na"), l(" <"), casings("lo"), l("@"), casings("Dom"), l(">")])), m),
        space("ids keep their case", field("Message-ID", cat(vec![l("<"), casings("lef"), l("@"), casings("rig"), l(">")])), m),
        space("unknown names keep their case", cat(vec![head(), casings("X-Unkn"), l(": v\r\n\r\nx")]), m),
    ];
    if MIME {
        let ct = |g: G| cat(vec![head(), l("Content-Type: "), g, l("\r\n\r\nx")]);
        v.extend([
            space("content types in every casing", ct(cat(vec![alt("text|image|audio|video|message|multipart|application|x-foo|font".split('|').map(casings).collect()), l("/"), casings("Pla")])), m),
            space("parameter names in every casing", ct(cat(vec![l("text/plain; "), alt(vec![cat(vec![casings("charset"), l("=utf-8")]), cat(vec![casings("xname"), l("=VaLue")]), cat(vec![casings("abc"), l("*0=X;"), casings("abc"), l("*1=y")])])])), m),
            space("charset values in every casing", ct(cat(vec![l("text/plain; charset="), alt("us-ascii|utf-8|iso-8859-1|iso-8859-15|iso-6937|gb2312|koi8-r".split('|').map(casings).collect())])), m),
            space("boundary keeps its case", cat(vec![head(), l("Content-Type: multipart/mixed; boundary="), casings("bnd"), l("\r\n\r\n--"), casings("bnd"), l("\r\n\r\na\r\n--"), casings("bnd"), l("--\r\n")]), m),
            space("transfer encodings in every casing", cat(vec![head(), l("Content-Transfer-Encoding: "), alt("7bit|8bit|binary|base64|quoted-printable|x-other".split('|').map(casings).collect()), l("\r\n\r\nQQ=3D")]), m),
            space("encoded-word charset and encoding in every casing", field("Subject", cat(vec![l("=?"), alt("us-ascii|utf-8|iso-8859-1|gb2312|x".split('|').map(casings).collect()), l("?"), ts(&["q", "Q", "b", "B", "x"]), l("?QUJD?=")])), m),
            space("hex digits in every casing", field("Subject", cat(vec![l("=?iso-8859-1?q?="), ts(&["e9", "E9", "eA", "Ea", "ff", "FF", "Ff", "0a"]), l("?=")])), m),
            space("extended parameters: form x charset casing x name casing", alt(["Content-Type: a/b; ", "Content-Disposition: x; "].iter().map(|f| cat(vec![head(), l(f), ts(&["ab", "AB", "aB", "filename", "FileName"]), extended_form(), l("\r\n\r\nx")])).collect()), m),
            space("extended parameters in a part", cat(vec![head(), l("Content-Type: multipart/x; boundary=b\r\n\r\n--b\r\nContent-Type: text/y; "), ts(&["ab", "AB", "charset", "CharSet"]), extended_form(), l("\r\n\r\nx\r\n--b--")]), m),
            space("charset parameter: name x form x value casing", cat(vec![
                alt(vec![cat(vec![head(), l("Content-Type: ")]), cat(vec![head(), l("Content-Type: multipart/x; boundary=b\r\n\r\n--b\r\nContent-Type: ")])]),
                ts(&["text/plain; ", "TEXT/plain; x=y; ", "Text/Html;"]), ts(&["charset", "CHARSET", "Charset", "cHARSET"]),
                alt("utf-8|iso-8859-1|us-ascii|iso-6937".split('|').map(|c| alt(vec![
                    cat(vec![l("="), casings(c)]),
                    cat(vec![l("=\""), casings(c), l("\"")]),
                    cat(vec![l("=\"\\"), casings(c), l("\"")]),
                    cat(vec![l("=\""), casings(c), l("\\\"")]),
                    cat(vec![l("*0=\""), casings(c), l("\";charset*1=\"\"")]),
                    cat(vec![l("*=us-ascii''"), casings(c)]),
                ])).collect()),
                l(b"\r\n\r\ncaf\xc3\xa9"),
            ]), m),
            space("boundary parameter: name and value casing", cat(vec![head(), l("Content-Type: "), ts(&["multipart", "MULTIPART", "Multipart"]), l("/Mixed; "), casings("boundary"), ts(&["=bC", "=\"bC\"", "*0=b;boundary*1=C", "*0=b;BOUNDARY*1=C", "=\"b\\C\"", "*=utf-8''b%43", "*=UTF-8''%62C"]), l("\r\n\r\n--"), ts(&["bC", "bc", "BC"]), l("\r\n\r\nx\r\n--bC--\r\n")]), m),
            space("header names of parts in every casing", cat(vec![head(), l("Content-Type: multipart/x; boundary=b\r\n\r\n--b\r\n"), alt(
                [("Content-Type", "text/plain; charset=iso-8859-1"), ("Content-Transfer-Encoding", "base64"), ("Content-ID", "<A@b>"), ("Content-Description", "Ab"), ("Content-Disposition", "inline; FileName=Ab"), ("X-Other", "Ab")].iter()
                .map(|(n, b)| cat(vec![casings(n), l(":"), l(b), l("\r\n")])).collect()), l("\r\nQUJD\r\n--b--\r\n")]), m),
            space("names and kinds of parts in every casing", cat(vec![head(), l("Content-Type: multipart/x; boundary=b\r\n\r\n--b\r\n"), alt(vec![
                cat(vec![l("Content-Transfer-Encoding:"), alt("7bit|8bit|binary|base64|x-other".split('|').map(casings).collect())]),
                cat(vec![l("Content-Transfer-Encoding:"), casings("quoted-p"), ts(&["rintable", "RINTABLE", "Rintable"])]),
                cat(vec![l("Content-Type:"), alt("text|image|audio|video|message|multipart|application|x-foo".split('|').map(|t| cat(vec![casings(t), l("/Sub;Name=Val;boundary=q")])).collect())]),
                cat(vec![l("Content-Disposition:"), alt("inline|attachment|x-other".split('|').map(casings).collect()), l(";Name=Val")]),
            ]), l("\r\n\r\nQU=3DD\r\n--b--\r\n")]), m),
            space("one parameter twice in different case", cat(vec![head(), ts(&["Content-Type: a/b", "Content-Disposition: x"]),
                seq(cat(vec![l(";"), ts(&["ab", "AB", "aB", "filename", "FILENAME"]), ts(&["=x", "=Y", "*=utf-8''z", "*0=p", "*1=Q", "*0*=UTF-8''r"])]), 1, d(3, 4)), l("\r\n\r\nx")]), m),
            space("extended parameters in every casing", ct(cat(vec![l("text/plain; "), casings("ab"), l("*="), alt("utf-8|iso-8859-1".split('|').map(casings).collect()), l("''%c3%A9")])), m),
        ]);
        if DISP {
            let cd = |g: G| cat(vec![head(), l("Content-Disposition: "), g, l("\r\n\r\nx")]);
            v.extend([
                space("dispositions in every casing", cd(alt("inline|attachment|form-data".split('|').map(casings).collect())), m),
                space("disposition parameters in every casing", cd(cat(vec![l("inline; "), alt(vec![
                    cat(vec![casings("filename"), l("=FiLe")]),
                    cat(vec![alt("creation-date|modification-date|read-date".split('|').map(casings).collect()), l("=\"1 Jan 2020 10:20 +0000\"")]),
                    cat(vec![casings("size"), l("=A")]),
                ])])), m),
            ]);
        }
    }
    for (i, r) in rich().iter().chain(corpus().iter()).enumerate() {
        v.push(space(format!("message {}: the case of any range or two letters changed", i), case_ranges(r), m));
    }
    v
}
/// the rest of a parameter `name`: an extended value in all its forms, the charset in all casings
fn extended_form() -> G {
    let cs = || alt("utf-8|iso-8859-1|us-ascii".split('|').map(casings).collect());
    alt(vec![
        cat(vec![ts(&["*=", "*=\"", "*=\"\\", "*0*=", "*0*=\"", "*0*=\"\\"]), cs(), ts(&["''", "'En'", "'e\\N'"]), ts(&["%41Bc", "%e9", "%C3%a9", "\\%41B", ""]), ts(&["", "\"", ";ab*1=Xy", "\";ab*1=Xy", "\";AB*1*=%4a", ";filename*1=\"X\\y\"", "\";Charset*1=x"])]),
        cat(vec![ts(&["*1*=%41;ab*0*=", "*1=Xy;AB*0*=\""]), cs(), ts(&["''Zz", "''\\Zz\"", "''Z%e9\""])]),
    ])
}

// ---------------------------------------------------------------- C01..C03
/// Messages with a bit of everything.
pub fn rich() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        b"From: N \"q \\\" r\" (c) <a.b@c.d>, <\"l\"@[1.2]>\r\nSender: s@t\r\nDate: Mon, 12 Apr 2023 10:25:03 +0130 (z)\r\nTo: G : m@n, o@p ;\r\nMessage-ID: <a@b>\r\nReferences: <c@d>\r\n <e@[f]>\r\nKeywords: k, l m\r\nSubject: a\r\n b =?utf-8?q?=C3=A9?=\r\n\r\nbody\r\n".to_vec(),
        b"Return-Path: <p@q>\r\nReceived: from a.b by [c] for <d@e>;\r\n 1 Jan 2020 10:20 +0000\r\nResent-To: t@u\r\nFrom: a@b\r\nDate: 1 Jan 2020 10:20 +0000\r\nX-A: \r\n\r\n\r\n".to_vec(),
    ];
    if MIME {
        v.push(b"From: a@b\r\nDate: 1 Jan 2020 10:20 +0000\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=\"b b\"; n*0*=utf-8'e'%C3;\r\n n*1=x\r\nContent-Disposition: attachment; filename=f; read-date=\"1 Jan 2020 10:20 +0000\"\r\n\r\npre\r\n--b b\r\nContent-Type: text/plain; charset=iso-6937\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\n=C3=41 =\r\nx\r\n--b b\r\nContent-Transfer-Encoding: base64\r\nContent-ID: <i@j>\r\n\r\nQUJ\r\nD\r\n--b b--\r\nepi".to_vec());
    }
    v
}
/// Forty-odd messages that differ in kind, some of them of one length.
pub fn corpus() -> Vec<Vec<u8>> {
    let m = |h: &str, b: &str| format!("From:a@b\r\nDate:1 Jan 2020 10:20 +0000\r\n{}\r\n\r\n{}", h, b);
    let mut v: Vec<String> = [
        // the first ones have equal lengths: nothing may be remembered by place or size
        "From:a@b.c\r\nDate:1 Jan 2020 10:20 +0000\r\nSubject:one\r\n\r\nbody-1",
        "From:x@y.z\r\nDate:2 Feb 2021 11:21 -0100\r\nSubject:two\r\n\r\nbody-2",
        "From:a@b.c\r\nDate:1 Jan 2020 10:20 +0000\r\nKeywords:k,\r\n\r\nbody3",
        "From:a@b.c\r\nSubject:one\r\nTo:Grp: n <m@o>;\r\nX-No:date\r\n\r\nbody-4",
        "From:a@b.c\r\nFrom:d@e.f\r\nDate:1 Jan 2020 10:20 +0000\r\n\r\n",
        "From:a@b,c@d\r\nSender: \"S. t\" <s@t>\r\nDate:1 Jan 2020 10:20 +0000\r\nReferences:<a@b><c@d>\r\n",
        "no field\r\n",
        "",
        "Received:a <b@c> d.e;1 Jan 2020 10:20 +0000\r\nResent-To:a@b\r\nFrom:a@b\r\nDate:1 Jan 2020 10:20 +0000\r\n\r\n",
        "From:a@b\r\nDate:1 Jan 2020 10:20 +0000\r\nContent-Type:multipart/mixed;boundary=b\r\nContent-Transfer-Encoding:base64\r\n\r\nLS1iDQoNCngNCi0tYg0KDQp5DQotLWItLQ==",
        "From:a@b\r\nDate:1 Jan 2020 10:20 +0000\r\nContent-Type:text/x;charset=iso-8859-1;t*0*=utf-8''%C3%A9;t*1=z\r\nContent-Transfer-Encoding:quoted-printable\r\nContent-ID:<i@d>\r\nContent-Disposition:inline;filename=f;u=v\r\n\r\n=E9=\r\n!",
        "From:=?utf-8?q?=C3=A9?= <a@b>\r\nDate:1 Jan 2020 10:20 +0000\r\nSubject:=?iso-8859-1?b?6Q==?= =?x?q?y?=\r\nContent-Type:multipart/mixed;boundary=b\r\n\r\n--b\r\nContent-Type:text/y;charset=gb2312\r\n\r\n~\r\n--b--",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.extend([
        m("X:y", "plain"),
        m("x:Y", "plain"),
        m("Subject: a\r\n b", "x\r\n"),
        m("Comments: a\r\nComments: b\r\nKeywords: c d, \"e f\"", ""),
        m("To: \"N \\\" M\" <\"l o\"@[1.2.3.4]>, g: a@b, c@d;", ""),
        m("Cc: A B. C <a@b>\r\nBcc:\r\nReply-To: x@y (c(d))", ""),
        m("Message-ID: <a@b>\r\nIn-Reply-To: <c@d> <e@f>\r\nReferences:<g@[h]>", ""),
        m("MIME-Version: 1.0\r\nContent-Type: TEXT/Plain; Charset=UTF-8", "caf\u{e9}"),
        m("MIME-Version: 1.0\r\nContent-Type: text/plain; charset=utf-8", "caf\u{e9}"),
        m("Content-Type: text/plain; charset=iso-8859-1", "caf\u{e9}"),
        m("Content-Type: text/html; charset=gb2312", "\u{e9}\u{e9}"),
        m("Content-Type: text/html; charset=us-ascii", "abc"),
        m("Content-Type: text/html; charset=iso-6937", "\u{e9}abc"),
        m("Content-Type: text/html; charset=none-such", "abc"),
        m("Content-Type: image/png; name=\"A B\"\r\nContent-Transfer-Encoding: BASE64", "QUJD\r\nREVG"),
        m("Content-Type: image/png; name=\"a b\"\r\nContent-Transfer-Encoding: base64", "QUJD\r\nREVH"),
        m("Content-Type: image/png; NAME=\"a b\"\r\nContent-Transfer-Encoding: x-none", "QUJD\r\nREVH"),
        m("Content-Transfer-Encoding: quoted-printable", "=41=\r\nb=3D"),
        m("Content-Transfer-Encoding: Quoted-Printable", "=4z=\r\nb=3d"),
        m("Content-Transfer-Encoding: 8bit\r\nContent-Description: d\r\nContent-ID: <x@y>", "=4z"),
        m("Content-Type: a/b; p*=utf-8''%41%c3%a9; q*0=x; q*1=y", ""),
        m("Content-Type: a/b; p*=utf-8''%41%C3%A8; Q*1=y; q*0=x", ""),
        m("Content-Type: a/b; p*=iso-8859-1'en'%41%e9; p=z", ""),
        m("Content-Type: a/b; p=\"q\\r\"; p*0*=\"UTF-8''\\%41\"", ""),
        m("Content-Disposition: attachment; filename=\"f g\"; size=10; read-date=\"1 Jan 2020 10:20 +0000\"", ""),
        m("Content-Disposition: Attachment; FileName=\"F G\"; Size=11; creation-date=\"2 Jan 2020 10:20 +0000\"", ""),
        m("Content-Disposition: x-kind; filename*0*=utf-8''%41; filename*1=b; modification-date=\"1 Jan 2020 10:20 +0000\"; u=V", ""),
        m("Content-Type: multipart/mixed; boundary=\"b c\"", "pre\r\n--b c\r\n\r\none\r\n--b c\r\nX: y\r\n\r\ntwo\r\n--b c--\r\nepi"),
        m("Content-Type: multipart/alternative; boundary=B", "--B\r\n\r\none\r\n--b\r\nX: y\r\n\r\ntwo\r\n--B--\r\nepi"),
        m("Content-Type: multipart/x; boundary=b", "--b\r\nContent-Type: multipart/y; boundary=c\r\n\r\n--c\r\nContent-Type: text/z; charset=UTF-8\r\nContent-Transfer-Encoding: base64\r\n\r\nYQ==\r\n--c--\r\n--b--"),
        m("Content-Type: multipart/x; boundary=b\r\nContent-Transfer-Encoding: quoted-printable", "--b\r\nContent-Type: text/z; charset=\"ISO-8859-1\"; a=3D\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\n=3DE9=\r\n=3D41\r\n--b--"),
        m("Content-Type: message/rfc822", "From:x@y\r\n\r\n"),
        m("Subject: =?UTF-8?Q?a_b?= =?utf-8?q?c?=", ""),
        m("Subject: =?iso-8859-1?B?6eg=?= x =?gb2312?q?=7E?=\r\nTo: =?utf-8?q?N=C3=A9?= <a@b>", ""),
        "Return-Path: <p@q>\r\nReceived: from a by b (c) with <d@e>; Mon, 1 Jan 2020 10:20:30 +0000\r\nReceived: x; 2 Jan 2020 10:20 +0000\r\nResent-Date: 1 Jan 2020 10:20 +0000\r\nResent-From: r@s\r\nResent-Sender: r@s\r\nResent-Message-ID: <r@s>\r\nFrom:a@b\r\nDate:1 Jan 2020 10:20 GMT\r\n\r\n".into(),
        "Date: Tue, 29 Feb 2000 23:59:60 -1159\r\nFrom: a@b\r\n\r\n".into(),
        "Date: Tue, 30 Feb 2000 23:59:60 -1159\r\nFrom: a@b\r\n\r\n".into(),
    ]);
    // Latin-1 code points stand for bytes
    v.iter().map(|s| s.chars().map(|c| c as u32 as u8).collect()).collect()
}
pub fn general(d: D, c: &Check) -> Vec<Space> {
    let all: Vec<u8> = (0..=255).collect();
    let mut v = vec![
        space("every input of up to 2 bytes", seq(bytes(), 0, 2), c),
        space("every input of up to 5 special bytes", seq(alt(SPECIAL.iter().map(|c| l([*c])).collect()), 0, d(3, 4)), c),
    ];
    for (i, r) in rich().iter().enumerate() {
        v.push(space(format!("message {}: one byte changed anywhere", i), near(r), c));
        v.push(space(format!("message {}: pieces and cut-outs", i), pieces(r), c));
        v.push(space(format!("message {}: token inserted anywhere", i), insert_token(r, &[b"\r\n", b"\r", b"\n", b"(", b"\"", b"\\", b"=?", b"<", b"\xc3", b"\xe2\x82\xac", b"\0", b"--", b"=", b"'", b"%"], d(3, 8)), c));
    }
    for (i, r) in corpus().iter().enumerate() {
        v.push(space(format!("corpus {}: one byte changed", i), edits1(r, if d(0, 1) == 1 { &all } else { SPECIAL }), c));
        v.push(space(format!("corpus {}: pieces and cut-outs", i), pieces(r), c));
    }
    v
}
fn pump_pieces() -> Vec<&'static [u8]> {
    vec![b"(", b")", b"(a)", b"\"", b"\\", b"a", b" ", b"\r\n ", b"<", b"@", b"a,", b"a@b,", b"=?utf-8?q?a?= ", b"=?", b"[", b".", b"a.", b"\r\n", b"\x80", b";a=b", b";a*1=b", b"%41", b"=", b"=41", b"1", b"'", b"((a)", b"(\\", b"G:a@b;,", b"<a@b>", b"--b\r\n", b"\r\n--b", b"x:y\r\n"]
}
fn pump_places() -> Vec<(&'static [u8], &'static [u8])> {
    vec![
        (b"", b""), (b"From:", b"\r\n"), (b"From:", b"a@b\r\n"), (b"To:", b"\r\n"), (b"To: \"", b"\"@b\r\n"), (b"Date:", b"1 Jan 2020 10:20 +0000\r\n"), (b"Date: 1 Jan 2", b" 10:20 +0000\r\n"),
        (b"Subject:", b"\r\n"), (b"References:", b"\r\n"), (b"Keywords:", b"\r\n"), (b"Received:", b";1 Jan 2020 10:20 +0000\r\n"), (b"X", b":v\r\n"), (b"Return-Path:", b"<>\r\n"),
        (b"Content-Type: text/plain", b"\r\n"), (b"Content-Disposition: x", b"\r\n"), (b"MIME-Version:", b"1.0\r\n"), (b"From: a@b\r\nDate: 1 Jan 2020 10:20 +0000\r\n\r\n", b""),
        (b"From: a@b\r\nDate: 1 Jan 2020 10:20 +0000\r\nContent-Transfer-Encoding: base64\r\n\r\n", b""),
        (b"From: a@b\r\nDate: 1 Jan 2020 10:20 +0000\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\n", b""),
        (b"From: a@b\r\nDate: 1 Jan 2020 10:20 +0000\r\nContent-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\n", b"\r\n--b--\r\n"),
    ]
}
fn c01(d: D) -> Vec<Space> {
    let c = oracle::total();
    let mut v = general(d, &c);
    let fields: Vec<(&str, &str)> = vec![("From:", "\r\n"), ("Date:", "\r\n"), ("To:", "\r\n"), ("Subject:", "\r\n"), ("Message-ID:", "\r\n"), ("Keywords:", "\r\n"), ("Received:", ";1 Jan 2020 10:20 +0000\r\n"), ("X:", "\r\n"), ("Content-Type:", "\r\n"), ("Content-Disposition:", "\r\n"), ("MIME-Version:", "\r\n"), ("Content-Transfer-Encoding:", "\r\n"), ("Content-Type:text/plain;a*0*=", "\r\n")];
    let t = tb(&[b"(", b")", b"\"", b"\\", b"<", b"@", b",", b"=?utf-8?q?", b"?=", b"\r\n ", b"\x80", b"a", b"9", b";", b"*", b"'", b"%"]);
    v.push(space("field bodies: token sequences", alt(fields.iter().map(|(a, z)| cat(vec![l(a), seq(t.clone(), 0, d(4, 5)), l(z), head(), l("\r\n")])).collect()), &c));
    // pumped inputs: the same piece many times over, in every place
    let (pieces_, places) = (pump_pieces(), pump_places());
    let sizes: Vec<usize> = if d(0, 1) == 1 { vec![10, 255, 256, 257, 1000, 4097, 20_000, 65_537, 131_073] } else { vec![10, 255, 256, 257, 1000, 4097, 65_537] };
    v.push(space("pieces repeated in every place", alt(places.iter().map(|(a, z)| cat(vec![l(a), pump(tb(&pieces_), sizes.clone()), l(z)])).collect()), &c));
    let deep = d(100_000, 400_000);
    v.push(space("deep nesting in every place", alt(places.iter().map(|(a, z)| cat(vec![l(a), fun(6, move |i, o| {
        let (open, close): (&[u8], &[u8]) = [(&b"("[..], &b")"[..]), (b"(", b""), (b" (", b" )"), (b"(\r\n ", b")"), (b"((", b")x)"), (b"(\\((", b"\\)))")][i as usize];
        for _ in 0..deep { o.extend_from_slice(open) }
        for _ in 0..deep { o.extend_from_slice(close) }
    }), l(z)])).collect()), &c));
    v.extend(borrowed_spaces(&c, d(70_000, 10_000_000) as u64, MESSAGES));
    if MIME {
        // entities inside entities, to a depth beyond what is unfolded
        v.push(space("nested multiparts", fun(d(40, 200) as u64, |i, o| {
            o.extend_from_slice(HEAD.as_bytes());
            for k in 0..=i {
                o.extend_from_slice(format!("Content-Type: multipart/mixed; boundary=b{}\r\n\r\n--b{}\r\n", k, k).as_bytes());
            }
            o.extend_from_slice(b"\r\nx\r\n");
            for k in (0..=i).rev() {
                o.extend_from_slice(format!("--b{}--\r\n", k).as_bytes());
            }
        }), &c));
        v.extend(mime::decoder_bytes(d, &c));
    }
    v
}
fn c02(d: D) -> Vec<Space> {
    let c = oracle::memory();
    let mut v = general(d, &c);
    let t = tb(&[b"\xc3", b"\xa9", b"\x80", b"\xff", b"a", b"\"", b"\\", b" ", b"\r\n ", b"<", b">", b"@", b"[", b"]", b"(", b")"]);
    let names: Vec<&str> = known_names().iter().map(|x| x.0).collect();
    v.push(space("non-ASCII in every field", cat(vec![head(), ts(&names), l(":"), ts(&["", "a@b", "<a@b>", "\"", "text/plain; x=\"", " "]), bytes(), tb(&[b"", b"\"", b"\xe9 ", b">"]), l("\r\n\r\nx")]), &c));
    v.push(space("token sequences", any_field(&["To", "Keywords", "Message-ID", "Subject", "X"], &seq(t, 0, d(4, 5))), &c));
    v.push(space("non-ASCII names", cat(vec![head(), seq(alt(vec![bytes()]), 1, 2), l(":v\r\n\r\nx")]), &c));
    v.push(space("non-ASCII bodies", cat(vec![head(), l("\r\n"), seq(tb(&[b"\x80", b"a", b"\r\n", b"\xc3\xa9", b"\0", b"\x7f", b"\x81"]), 0, d(6, 7))]), &c));
    v.push(space("adjacent pieces", any_field(&["Subject", "To", "Keywords", "X"], &seq(tb(&[b"a", b"\"b\"", b"\r\n ", b" ", b".", b"\\c", b"\"d\\e f\"", b"@x"]), 0, d(5, 6))), &c));
    if MIME {
        v.extend(mime::decoder_bytes(d, &c));
        v.extend(mime::text_outputs(d, &c));
    }
    v.extend(borrowed_spaces(&c, d(70_000, 10_000_000) as u64, MESSAGES));
    v
}
fn c03(d: D) -> Vec<Space> {
    let c = oracle::no_copy();
    let word = ts(&["a", "abc", "\"q\"", "\"q r\"", "x-1"]);
    let addr = ts(&["a@b", "<a.b@c.d>", " N <a@b>", "N M <a.b@c.d> ", "\"q r\" <\"l m\"@[1.2.3.4]>", "G:;", "G: a@b, N <c@d>;", "a-b_c@[d]", "\"l\"@x.y.z"]);
    let mb = ts(&["a@b", "<a.b@c.d>", " N <a@b>", "\"q r\" x <\"l m\"@[1.2]>"]);
    let id = ts(&["<a@b>", "<a.b.c@d.e>", " <a@[b]>"]);
    let text = alt(vec![ts(&["", " a", " a b  c", "\ta\tb", " a: <b>", " a  "]), pump(l(" ab"), 0..40)]);
    let msg = |g: G| cat(vec![head(), g, l("\r\nx\r\n")]);
    let list = |i: &G, n: usize| cat(vec![i.clone(), seq(cat(vec![l(","), i.clone()]), 0, n)]);
    let mut v = vec![
        space("address fields", msg(cat(vec![ts(&["To", "Cc", "Bcc", "Reply-To"]), l(":"), list(&addr, d(3, 4)), l("\r\n")])), &c),
        space("originators", cat(vec![l("Date: 1 Jan 2020 10:20 +0000\r\nSender:"), mb.clone(), l("\r\nFrom:"), list(&mb, d(4, 5)), l("\r\n\r\nx")]), &c),
        space("inferred sender", cat(vec![l("Date: 1 Jan 2020 10:20 +0000\r\nFrom:"), mb.clone(), l("\r\n\r\nx")]), &c),
        space("identifiers", msg(cat(vec![ts(&["References", "In-Reply-To"]), l(":"), seq(id.clone(), 1, d(5, 7)), l("\r\nMessage-ID:"), id.clone(), l("\r\n")])), &c),
        space("text", msg(cat(vec![ts(&["Subject", "Comments", "X-Y"]), l(":"), text.clone(), l("\r\n"), opt(cat(vec![ts(&["Comments", "Z"]), l(":"), text.clone(), l("\r\n")]))])), &c),
        space("text: every printable pair", msg(cat(vec![ts(&["Subject", "Comments", "X-Y"]), l(": a"), G::Byte(32, 126), G::Byte(32, 126), l("z\r\n")])), &c),
        space("keywords", msg(cat(vec![l("Keywords:"), word.clone(), seq(cat(vec![ts(&[" ", ",", ", "]), word.clone()]), 0, d(3, 4)), l("\r\n")])), &c),
        space("dot-atoms", msg(cat(vec![l("To:"), seq(ts(&["a", "bc"]), 1, 2), seq(ts(&[".a", ".bc"]), 0, d(5, 8)), l("@d"), seq(ts(&[".e", ".fg"]), 0, d(4, 6)), l("\r\n")])), &c),
        space("every atom character", msg(cat(vec![l("To:a"), alt((33..=126u8).filter(|c| !b"()<>[]:;@\\,.\"".contains(c)).map(|c| l([c])).collect()), l("b@c"), alt((33..=126u8).filter(|c| !b"()<>[]:;@\\,.\"".contains(c)).map(|c| l([c])).collect()), l("d\r\n")])), &c),
        space("every quoted character", msg(alt(vec![cat(vec![l("Keywords:\"a"), alt((32..=126u8).filter(|c| !b"\\\"".contains(c)).map(|c| l([c])).collect()), alt((32..=126u8).filter(|c| !b"\\\"".contains(c)).map(|c| l([c])).collect()), l("\"\r\n")]), cat(vec![l("To:N \"a"), alt((32..=126u8).filter(|c| !b"\\\"".contains(c)).map(|c| l([c])).collect()), alt((32..=126u8).filter(|c| !b"\\\"".contains(c)).map(|c| l([c])).collect()), l("\" b <c@d>\r\n")])])), &c),
        space("whole messages", cat(vec![head(), l("To:"), addr, l("\r\nReferences:"), id.clone(), id, l("\r\nKeywords:"), word, l("\r\nSubject:"), text, l("\r\nX-Z: u\r\n\r\nbody\r\n")]), &c),
        space("body lines", cat(vec![head(), l("\r\n"), seq(ts(&["a", "\r\n", "line of text\r\n", "\t"]), 0, d(6, 8))]), &c),
        space("lengths", msg(alt(vec![
            cat(vec![l("Subject:"), pump(ts(&["a", " b"]), upto(d, 500, 4000)), l("\r\n")]),
            cat(vec![l("To: a"), pump(ts(&[".a", "b"]), upto(d, 500, 4000)), l("@c\r\n")]),
            cat(vec![l("To: \"a"), pump(ts(&[" b", "c"]), upto(d, 500, 4000)), l("\"@c\r\n")]),
            cat(vec![l("To: a@b"), pump(ts(&[".b", "c"]), upto(d, 500, 4000)), l("\r\n")]),
            cat(vec![l("To: a@["), pump(ts(&[".b", "c"]), upto(d, 500, 4000)), l("]\r\n")]),
            cat(vec![l("To:"), pump(ts(&["a@b,", " N <a.b@c.d> ,", "\"q r\" x <a@[b]>,", "G:;,", "G:a@b,N <c@d>;,"]), upto(d, 200, 2000)), l("y@z\r\n")]),
            cat(vec![l("Cc:G:"), pump(ts(&["a@b,", " N <a.b@c.d>,"]), upto(d, 200, 2000)), l("y@z;\r\n")]),
            cat(vec![l("Bcc:"), pump(ts(&["N ", "\"q r\" ", "a-b "]), upto(d, 200, 2000)), l("<y@z>\r\n")]),
            cat(vec![l("References:"), pump(ts(&["<a@b>", " <a.b@[c]>", "<a.b@c.d> "]), upto(d, 200, 2000)), l("\r\n")]),
            cat(vec![l("Message-ID:<"), pump(ts(&["a", "a."]), upto(d, 200, 2000)), l("b@"), pump(l("a."), [0, 1, 300]), l("c>\r\n")]),
            cat(vec![l("Keywords:a"), pump(ts(&[",b", " b", ",\"c d\"", "e"]), upto(d, 200, 2000)), l("\r\n")]),
            pump(ts(&["X: y z\r\n", "Comments: y z\r\n", "Keywords:k\r\n", "Xx-Y:\r\n"]), upto(d, 200, 2000)),
            cat(vec![pump(ts(&["X", "Y-"]), upto1(d, 300, 2000)), l(": v\r\n")]),
            cat(vec![l("Subject: s\r\n\r\n"), pump(ts(&["line\r\n", "\r\n", "a b c\r\n"]), upto(d, 190, 2000)), l("\r\n")]),
        ])), &c),
    ];
    if MIME {
        v.extend(mime::plain_mime(d, &c));
    }
    v
}

#[cfg(not(feature = "mime"))]
mod mime {
    use super::*;
    pub fn spaces(_p: &str, _d: D, _m: &Check, _md: &Check) -> Vec<Space> {
        vec![]
    }
    pub fn decoder_bytes(_d: D, _c: &Check) -> Vec<Space> {
        vec![]
    }
    pub fn text_outputs(_d: D, _c: &Check) -> Vec<Space> {
        vec![]
    }
    pub fn plain_mime(_d: D, _c: &Check) -> Vec<Space> {
        vec![]
    }
}
#[cfg(feature = "mime")]
#[path = "suites_mime.rs"]
mod mime;

// ---------------------------------------------------------------- C22 one message under every feature set
/// Run in many feature configurations; the model knows what each of them leaves out.
fn c22(d: D, m: &Check, brief: bool) -> Vec<Space> {
    let mut v = c22_own(d, m);
    if brief {
        // for the many configurations of the covering array
        v.retain(|s| s.g.count() <= 10_000);
        v.extend(corpus().iter().chain(rich().iter()).map(|r| space("corpus", l(r), m)));
        v.extend(borrowed_spaces(m, 2_500, MESSAGES));
        return v;
    }
    for (i, r) in rich().iter().chain(corpus().iter()).enumerate() {
        v.push(space(format!("message {}: one byte changed", i), edits1(r, SPECIAL), m));
    }
    v.extend(borrowed_spaces(m, d(25_000, 400_000) as u64, MESSAGES));
    v
}
fn c22_own(d: D, m: &Check) -> Vec<Space> {
    let k = known_names();
    let mut lines: Vec<String> = vec![];
    for (n, g, b) in &k {
        lines.push(format!("{}:{}\r\n", n, g));
        if !b.contains('\u{1}') {
            lines.push(format!("{}:{}\r\n", n, b));
        }
    }
    // fields that only some configurations know
    for x in ["MIME-Version:1.0\r\n", "Content-Type:text/html;charset=iso-8859-1\r\n", "Content-Transfer-Encoding:base64\r\n", "Content-ID:<i@d>\r\n", "Content-Description:=?utf-8?q?d?=\r\n", "Content-Disposition:attachment;filename=f\r\n", "X-Else: =?utf-8?q?=C3=A9?= x\r\n", "To:a.@b\r\n", "Subject: =?utf-8?b?w6k=?=\r\n", "Keywords: =?utf-8?b?w6k=?=\r\n", "From:\r\n", "From:a@b,c@d\r\n", "From:\"q\" x <e@f>\r\n", "Date:2 Feb 2020 10:20 +0000\r\n", "Sender:\r\n"] {
        lines.push(x.into());
    }
    let lr: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
    let front = ts(&["", "From: a@b\r\n", "From: a@b, c@d\r\n", "Date: 1 Jan 2020 10:20 +0000\r\n", HEAD, "Sender: s@t\r\n", "Received:a;1 Jan 2020 10:20 +0000\r\nResent-To:a@b\r\n", "Return-Path:<>\r\nReceived:a <b@c> d.e;1 Jan 2020 10:20 +0000\r\nFrom:a@b\r\nDate: 1 Jan 2020 10:20 +0000\r\n"]);
    let bodies = tb(&[b"", b"\r\n", b"\r\nx", b"\r\nw6k=\r\n", b"\r\n\xe9", b"\r\n=C3\r\n"]);
    vec![
        space("mandatory fields, any line, any body", cat(vec![front.clone(), arrangements(&lr, 0, 1), bodies.clone()]), m),
        space("mandatory fields and every two lines", cat(vec![head(), arrangements(&lr, 0, d(2, 2)), l("\r\nx")]), m),
        space("every two lines", cat(vec![front, arrangements(&lr, 2, 2), l("\r\nx")]), m),
        space("one byte changed", alt(vec![
            edits1(b"From:a@b\r\nDate:1 Jan 2020 10:20 +0000\r\nTo:N <c.d@e>\r\nX:y\r\n\r\nz", SPECIAL),
            edits1(b"Received:a;1 Jan 2020 10:20 +0000\r\nResent-Cc:a@b\r\nFrom:a@b\r\nDate:1 Jan 2020 10:20 +0000\r\n\r\n", SPECIAL),
        ]), m),
    ]
}

// ---------------------------------------------------------------- C23 histories
/// The numbers below `n`, in two bytes.
fn numbers(n: u64) -> G {
    fun(n.min(65_536), |i, b| b.extend([(i / 256) as u8, i as u8]))
}
#[cfg(feature = "sched")]
fn multiples(n: u64, step: u64) -> G {
    fun((n.min(65_536) + step - 1) / step, move |i, b| b.extend([(i * step / 256) as u8, (i * step) as u8]))
}
#[cfg(feature = "sched")]
fn c23_threads(d: D) -> Vec<Space> {
    let all = corpus();
    let short: Vec<Vec<u8>> = all[..12].to_vec();
    let n = short.len();
    let blocks: Vec<u64> = short.iter().map(|m| oracle::blocks_of(m)).collect();
    let (c, first) = (oracle::threads(short.clone(), false), oracle::threads(short, true));
    let pairs = |f: &dyn Fn(usize, usize) -> G| alt((0..n).flat_map(|a| (0..n).map(move |b| (a, b))).map(|(a, b)| cat(vec![l(&[2u8, a as u8, b as u8]), f(a, b)])).collect());
    let (zero, one, rest) = (l(b"\0"), l(b"\x01"), l(b"\xff\xff"));
    let turn0 = |k: &G| cat(vec![zero.clone(), k.clone()]);
    let turn1 = |k: &G| cat(vec![one.clone(), k.clone()]);
    // the first readings in a process; these come before anything else
    let big: Vec<Vec<u8>> = rich().into_iter().chain(all).collect();
    let total = big.len();
    let big_blocks: Vec<u64> = big.iter().map(|m| oracle::blocks_of(m)).collect();
    let big_first = oracle::threads(big.clone(), true);
    let (fine, coarse) = (d(89, 17) as u64, d(401, 197) as u64);
    let mut v = vec![
        space("first in the process: one message after the other", cat(vec![l(b"\x02"), G::Byte(0, total as u8 - 1), G::Byte(0, total as u8 - 1)]), &big_first),
        space("first in the process: one interrupted anywhere by the same message", alt((0..n).map(|a| cat(vec![l(&[2u8, a as u8, a as u8]), turn0(&multiples(blocks[a], 1)), turn1(&rest)])).collect()), &first),
        space("first in the process: one interrupted by another", pairs(&|a, _| cat(vec![turn0(&multiples(blocks[a], d(17, 3) as u64)), turn1(&rest)])), &first),
        space("first in the process: both interrupted", alt((0..n).map(|a| cat(vec![l(&[2u8, a as u8, a as u8]), turn0(&multiples(blocks[a], d(151, 31) as u64)), turn1(&multiples(blocks[a], d(151, 31) as u64)), turn0(&rest)])).collect()), &first),
        space("first in the process: every message interrupted by itself", alt((0..total).map(|a| cat(vec![l(&[2u8, a as u8, a as u8]), turn0(&multiples(big_blocks[a], d(11, 2) as u64)), turn1(&rest)])).collect()), &big_first),
        // one thread stops anywhere, another one reads a whole message, the first goes on
        space("threads: one interrupted anywhere by a whole reading", pairs(&|a, _| cat(vec![turn0(&numbers(blocks[a])), turn1(&rest)])), &c),
        // both stop in the middle, the first finishes before the second goes on
        space("threads: both interrupted", pairs(&|a, b| cat(vec![turn0(&multiples(blocks[a], fine)), turn1(&multiples(blocks[b], fine)), turn0(&rest)])), &c),
        space("threads: taking three turns", pairs(&|a, b| cat(vec![turn0(&multiples(blocks[a], coarse)), turn1(&multiples(blocks[b], coarse)), turn0(&multiples(blocks[a], coarse)), turn1(&rest)])), &c),
        // many readings of one message that all stand at the same place, or each at the next one; ended in the order in which they came or the other way round
        space("threads: many at once", alt((0..n).flat_map(|a| [3usize, 4, 5, 8, 9, 16, 17, 32, 33].into_iter().map(move |t| (a, t))).map(|(a, t)| {
            let step = if t > 9 { d(97, 13) } else { d(13, 1) } as u64;
            fun(4 * (blocks[a] / step), move |i, out| {
                let k = i / 4 * step;
                out.push(t as u8);
                out.extend(std::iter::repeat(a as u8).take(t));
                for x in 0..t {
                    let k = k + if i % 4 < 2 { 0 } else { x as u64 };
                    out.extend([x as u8, (k / 256) as u8, k as u8]);
                }
                if i % 2 == 1 {
                    for x in (0..t).rev() {
                        out.extend([x as u8, 255, 255]);
                    }
                }
            })
        }).collect()), &c),
    ];
    // every message of the corpus
    let (blocks, c) = (big_blocks, oracle::threads(big, false));
    let other = |m: usize| tb(&[&[m as u8], &[3]]);
    v.push(space("threads: every message interrupted anywhere by itself and by a short one", alt((0..total).map(|a| cat(vec![l(&[2u8, a as u8]), other(a), turn0(&multiples(blocks[a], d(3, 1) as u64)), turn1(&rest)])).collect()), &c));
    v.push(space("threads: every message interrupted by every other one", alt((0..total).map(|a| cat(vec![l(&[2u8, a as u8]), G::Byte(0, total as u8 - 1), turn0(&multiples(blocks[a], d(601, 61) as u64)), turn1(&rest)])).collect()), &c));
    v
}
fn c23(d: D) -> Vec<Space> {
    #[cfg(feature = "sched")]
    return c23_threads(d);
    #[cfg(not(feature = "sched"))]
    c23_histories(d)
}
#[cfg(not(feature = "sched"))]
fn c23_histories(d: D) -> Vec<Space> {
    let all = corpus();
    let short: Vec<Vec<u8>> = all[..12].to_vec();
    let total = all.len() as u8;
    let ha = oracle::history(all.clone());
    let n = short.len();
    let h = oracle::history(short);
    let t = oracle::total();
    let lines = ["From:a@b\r\n", "Date:1 Jan 2020 10:20 +0000\r\n", "To: N <a@b>, G:;\r\n", "Subject: s\r\n t\r\n", "X:y\r\n", "Content-Type:text/plain;a=b;c=d;e*0=f;e*1=g\r\n", "Received:a;1 Jan 2020 10:20 +0000\r\n", "\r\n", "bad\r\n"];
    let mut v = vec![
        space("histories", seq(G::Byte(0, n as u8 - 1), 1, d(4, 5)), &h),
        space("the same message over and over", pump(G::Byte(0, n as u8 - 1), upto1(d, 300, 3000).into_iter().filter(|x| *x < 5000 || x.abs_diff(65_536) < 2)), &h),
        space("long histories with one other message", cat(vec![pump(G::Byte(0, n as u8 - 1), 1..d(20, 100)), G::Byte(0, n as u8 - 1), pump(G::Byte(0, n as u8 - 1), 1..d(4, 4))]), &h),
        space("histories of two and three, whole corpus", seq(G::Byte(0, total - 1), 2, d(3, 3)), &ha),
        space("every place in memory", cat(vec![G::Byte(0, total - 1), numbers(d(300, 5000) as u64), tb(&[b"\0", b"\n", b"a"])]), &oracle::placed(all.clone())),
        space("two readings of one message", seq(ts(&lines), 0, d(5, 6)), &t),
    ];
    // one and the same buffer, changed in place between two readings and changed back
    for (i, r) in rich().into_iter().chain(all).enumerate() {
        let c = oracle::in_place(r.clone());
        let b: Vec<u8> = if d(0, 1) == 1 { (0..=255).collect() } else { SPECIAL.iter().copied().chain(*b"bz019B+-").collect() };
        v.push(space(format!("message {}: one byte changed in place", i), substitutions(&r, &b), &c));
        v.push(space(format!("message {}: one byte inserted, deleted or swapped in place", i), edits1(&r, if d(0, 1) == 1 { &b } else { b"0a \"" }), &c));
        v.push(space(format!("message {}: the case of any range changed in place", i), case_ranges(&r), &c));
    }
    v
}
