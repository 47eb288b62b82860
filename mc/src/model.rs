//! Reference model of an RFC 5322 / MIME message reader.
//!
//! It is written from the ABNF (RFC 5322, 2045, 2046, 2047, 2183, 2231), independently of the code
//! under test: a header section is first cut into logical lines, and each structured field body is
//! then recognised by a *nondeterministic* (list-of-successes) transliteration of the grammar, so
//! the model accepts a field body iff SOME derivation exists. The code under test is a greedy
//! scannerless parser; agreeing with this model on every enumerated input shows that greediness
//! never loses or changes a derivation.
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::rc::Rc;

// ---------------------------------------------------------------------------------------------
// Observations. The `mirror` types carry the names of the public types so that their Debug form
// can be compared with the Debug form of values whose types cannot be named from outside.
pub mod mirror {
    #[derive(Debug, PartialEq, Clone, Eq, Hash)]
    pub struct EmailAddress {
        pub local_part: String,
        pub domain: String,
    }
    #[derive(Debug, PartialEq, Clone, Eq, Hash)]
    pub struct Mailbox {
        pub name: Option<Vec<String>>,
        pub address: EmailAddress,
    }
    #[derive(Debug, PartialEq, Clone, Eq, Hash)]
    pub enum Address {
        Mailbox(Mailbox),
        Group((Vec<String>, Vec<Mailbox>)),
    }
    #[derive(Debug, PartialEq, Clone, Copy, Eq, Hash)]
    pub enum Day {
        Monday,
        Tuesday,
        Wednesday,
        Thursday,
        Friday,
        Saturday,
        Sunday,
    }
    #[derive(Debug, PartialEq, Clone, Copy, Eq, Hash)]
    pub enum Month {
        January,
        February,
        March,
        April,
        May,
        June,
        July,
        August,
        September,
        October,
        November,
        December,
    }
    #[derive(Debug, PartialEq, Clone, Eq, Hash)]
    pub struct Zone {
        pub sign: bool,
        pub hour_offset: u8,
        pub minute_offset: u8,
    }
    #[derive(Debug, PartialEq, Clone, Eq, Hash)]
    pub struct Time {
        pub hour: u8,
        pub minute: u8,
        pub second: u8,
    }
    #[derive(Debug, PartialEq, Clone, Eq, Hash)]
    pub struct TimeWithZone {
        pub time: Time,
        pub zone: Zone,
    }
    #[derive(Debug, PartialEq, Clone, Eq, Hash)]
    pub struct Date {
        pub day: u8,
        pub month: Month,
        pub year: usize,
    }
    #[derive(Debug, PartialEq, Clone, Eq, Hash)]
    pub struct DateTime {
        pub day_name: Option<Day>,
        pub date: Date,
        pub time: TimeWithZone,
    }
    #[derive(Debug, PartialEq, Clone, Eq, Hash)]
    pub enum ReceivedToken {
        Word(String),
        Addr(EmailAddress),
        Domain(String),
    }
    #[derive(Debug, PartialEq, Clone, Eq, Hash)]
    pub enum TraceField {
        Date(DateTime),
        From(Vec<Mailbox>),
        Sender(Mailbox),
        To(Vec<Address>),
        Cc(Vec<Address>),
        Bcc(Vec<Address>),
        MessageId((String, String)),
    }
}
pub use mirror::*;

pub type Id = (String, String);
pub type TraceBlock = (
    Option<Option<EmailAddress>>,
    Vec<(Vec<ReceivedToken>, DateTime)>,
    Vec<TraceField>,
);

#[derive(Debug, PartialEq, Clone, Default, Hash)]
pub struct Disp {
    pub kind: String,
    pub filename: Option<String>,
    pub creation: Option<DateTime>,
    pub modification: Option<DateTime>,
    pub read: Option<DateTime>,
    pub unstructured: BTreeMap<String, String>,
}

#[derive(Debug, PartialEq, Clone, Default, Hash)]
pub struct Ent {
    /// lower-case type name; `?x` for an unrecognised type x
    pub ctype: String,
    pub subtype: String,
    pub params: BTreeMap<String, String>,
    pub description: Option<String>,
    pub id: Option<Id>,
    pub disposition: Option<Disp>,
    pub value: Vec<u8>,
    pub additional: Vec<(String, String)>,
}

/// Result of asking an entity for its high-level form.
#[derive(Debug, PartialEq, Clone, Hash)]
pub enum EntRes {
    Multipart(String, Vec<Ent>),
    Text(String, String),
    Unknown,
    Err,
}

#[derive(Debug, PartialEq, Clone, Default, Hash)]
pub struct Obs {
    pub from: Option<Vec<Mailbox>>,
    pub sender: Option<Mailbox>,
    pub subject: Option<String>,
    pub date: Option<DateTime>,
    pub to: Option<Vec<Address>>,
    pub cc: Option<Vec<Address>>,
    pub bcc: Option<Vec<Address>>,
    pub reply_to: Option<Vec<Address>>,
    pub message_id: Option<Id>,
    pub in_reply_to: Option<Vec<Id>>,
    pub references: Option<Vec<Id>>,
    pub comments: Vec<String>,
    pub keywords: Vec<Vec<String>>,
    /// Debug form of the trace blocks ("[]" when there is none)
    pub trace: String,
    pub body: Option<Vec<u8>>,
    pub ent: Option<Ent>,
    pub unknown: Vec<(String, String)>,
}

#[derive(Debug, PartialEq, Clone, Hash)]
pub enum Res {
    Ok(Box<Obs>),
    Dup(String),
    Missing(String),
    Err,
}

// ---------------------------------------------------------------------------------------------
/// Which optional parts of the library are compiled in.
#[derive(Debug, Clone, Copy)]
pub struct Cfg {
    pub to: bool,
    pub cc: bool,
    pub bcc: bool,
    pub date: bool,
    pub from: bool,
    pub sender: bool,
    pub reply_to: bool,
    pub message_id: bool,
    pub in_reply_to: bool,
    pub references: bool,
    pub subject: bool,
    pub comments: bool,
    pub keywords: bool,
    pub trace: bool,
    pub mime: bool,
    pub disposition: bool,
    pub unrecognized: bool,
    pub compat: bool,
}

impl Cfg {
    pub fn current() -> Cfg {
        Cfg {
            to: cfg!(feature = "to"),
            cc: cfg!(feature = "cc"),
            bcc: cfg!(feature = "bcc"),
            date: cfg!(feature = "date"),
            from: cfg!(feature = "from"),
            sender: cfg!(feature = "sender"),
            reply_to: cfg!(feature = "reply-to"),
            message_id: cfg!(feature = "message-id"),
            in_reply_to: cfg!(feature = "in-reply-to"),
            references: cfg!(feature = "references"),
            subject: cfg!(feature = "subject"),
            comments: cfg!(feature = "comments"),
            keywords: cfg!(feature = "keywords"),
            trace: cfg!(feature = "trace"),
            mime: cfg!(feature = "mime"),
            disposition: cfg!(feature = "content-disposition"),
            unrecognized: cfg!(feature = "unrecognized-headers"),
            compat: cfg!(feature = "compatibility-fixes"),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Character classes (RFC 5322 3.2, 3.4, 3.6.8; RFC 2045 5.1)
fn wsp(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
fn vchar(c: u8) -> bool {
    (0x21..=0x7e).contains(&c)
}
fn ctext(c: u8) -> bool {
    vchar(c) && !b"()\\".contains(&c)
}
fn qtext(c: u8) -> bool {
    vchar(c) && !b"\"\\".contains(&c)
}
fn dtext(c: u8) -> bool {
    vchar(c) && !b"[]\\".contains(&c)
}
fn ftext(c: u8) -> bool {
    vchar(c) && c != b':'
}
fn atext(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-/=?^_`{|}~".contains(&c)
}
fn token_char(c: u8) -> bool {
    vchar(c) && !b"()<>@,;:\\\"/[]?=".contains(&c)
}

fn st(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).expect("model: non-UTF-8 text")
}

/// All ways to recognise something from a position: (end, value).
type P<T> = Vec<(usize, T)>;

fn run(s: &[u8], p: usize, f: impl Fn(u8) -> bool) -> usize {
    let mut e = p;
    while e < s.len() && f(s[e]) {
        e += 1;
    }
    e
}
fn lit(s: &[u8], p: usize, c: u8) -> Option<usize> {
    if s.get(p) == Some(&c) {
        Some(p + 1)
    } else {
        None
    }
}
fn push<T: PartialEq>(v: &mut P<T>, e: usize, t: T) {
    if !v.iter().any(|(e2, t2)| *e2 == e && *t2 == t) {
        v.push((e, t));
    }
}

/// A list that grows at the end and shares its beginning, so that exploring several ways to go on is cheap.
struct Chain<T>(Option<Rc<(Chain<T>, T)>>);
impl<T> Clone for Chain<T> {
    fn clone(&self) -> Self {
        Chain(self.0.clone())
    }
}
impl<T> Chain<T> {
    fn with(&self, t: T) -> Chain<T> {
        Chain(Some(Rc::new((self.clone(), t))))
    }
    fn is_empty(&self) -> bool {
        self.0.is_none()
    }
}
impl<T: Clone> Chain<T> {
    fn to_vec(&self) -> Vec<T> {
        let mut v = vec![];
        let mut c = self;
        while let Some(n) = &c.0 {
            v.push(n.1.clone());
            c = &n.0;
        }
        v.reverse();
        v
    }
}
impl<T: PartialEq> PartialEq for Chain<T> {
    fn eq(&self, o: &Self) -> bool {
        let (mut a, mut b) = (self, o);
        loop {
            match (&a.0, &b.0) {
                (None, None) => return true,
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(x, y) {
                        return true;
                    }
                    if x.1 != y.1 {
                        return false;
                    }
                    a = &x.0;
                    b = &y.0;
                }
                _ => return false,
            }
        }
    }
}
impl<T> Drop for Chain<T> {
    fn drop(&mut self) {
        // not recursive: a chain can be very long
        let mut next = self.0.take();
        while let Some(n) = next {
            next = Rc::try_unwrap(n).ok().and_then(|mut n| n.0 .0.take());
        }
    }
}

/// FWS = ([*WSP CRLF] 1*WSP): ends reached by consuming whole white-space runs.
fn fws(s: &[u8], p: usize) -> ([usize; 2], usize) {
    let mut out = ([0; 2], 0);
    let e1 = run(s, p, wsp);
    if e1 > p {
        out.0[out.1] = e1;
        out.1 += 1;
    }
    if s.get(e1) == Some(&b'\r') && s.get(e1 + 1) == Some(&b'\n') {
        let e2 = run(s, e1 + 2, wsp);
        if e2 > e1 + 2 {
            out.0[out.1] = e2;
            out.1 += 1;
        }
    }
    out
}
fn fws_ends(s: &[u8], p: usize) -> Vec<usize> {
    let (a, n) = fws(s, p);
    a[..n].to_vec()
}
fn opt_fws(s: &[u8], p: usize) -> Vec<usize> {
    let mut v = vec![p];
    v.extend(fws_ends(s, p));
    v
}
/// The longest FWS from p, or p.
fn max_fws(s: &[u8], p: usize) -> usize {
    let (a, n) = fws(s, p);
    if n == 0 {
        p
    } else {
        a[n - 1]
    }
}
/// White space of a folded region without its CRLFs.
fn unfold(b: &[u8]) -> String {
    st(&b.iter().copied().filter(|c| wsp(*c)).collect::<Vec<_>>())
}

/// comment = "(" *([FWS] ccontent) [FWS] ")" : brackets match, so there is at most one end.
fn comment(s: &[u8], p: usize) -> Option<usize> {
    let mut p = lit(s, p, b'(')?;
    let mut depth = 1usize;
    loop {
        p = max_fws(s, p);
        match s.get(p)? {
            b'(' => depth += 1,
            b')' => {
                depth -= 1;
                if depth == 0 {
                    return Some(p + 1);
                }
            }
            b'\\' => {
                p += 1;
                let c = *s.get(p)?;
                if !(vchar(c) || wsp(c)) {
                    return None;
                }
            }
            c if ctext(*c) => (),
            _ => return None,
        }
        p += 1;
    }
}

/// Ends of [CFWS], CFWS = (1*([FWS] comment) [FWS]) / FWS
fn opt_cfws(s: &[u8], p: usize) -> Vec<usize> {
    match s.get(p) {
        Some(b' ') | Some(b'\t') | Some(b'\r') | Some(b'(') => (),
        _ => return vec![p],
    }
    let mut ends = vec![p];
    let mut add = |e: usize, ends: &mut Vec<usize>| {
        // the ends come in order, but for the few of one run of white space
        if !ends[ends.len().saturating_sub(4)..].contains(&e) {
            ends.push(e)
        }
    };
    for e in fws_ends(s, p) {
        add(e, &mut ends);
    }
    // chain of comments
    let mut q = p;
    loop {
        let mut next = None;
        for o in opt_fws(s, q) {
            if let Some(c) = comment(s, o) {
                next = Some(c);
            }
        }
        match next {
            Some(c) => {
                add(c, &mut ends);
                for e in fws_ends(s, c) {
                    add(e, &mut ends);
                }
                q = c;
            }
            None => break,
        }
    }
    ends
}
fn cfws(s: &[u8], p: usize) -> Vec<usize> {
    opt_cfws(s, p).into_iter().filter(|e| *e != p).collect()
}

/// Surround a parser with [CFWS] on both sides.
fn padded<T: PartialEq + Clone>(s: &[u8], p: usize, f: impl Fn(usize) -> P<T>) -> P<T> {
    let mut out = Vec::new();
    for a in opt_cfws(s, p) {
        for (e, v) in f(a) {
            for z in opt_cfws(s, e) {
                push(&mut out, z, v.clone());
            }
        }
    }
    out
}

fn atom_text(s: &[u8], p: usize) -> P<String> {
    let e = run(s, p, atext);
    if e > p {
        vec![(e, st(&s[p..e]))]
    } else {
        vec![]
    }
}
fn dot_atom_text(c: &Cfg, s: &[u8], p: usize) -> P<String> {
    let mut e = run(s, p, atext);
    if e == p {
        return vec![];
    }
    while s.get(e) == Some(&b'.') {
        let n = run(s, e + 1, atext);
        if n == e + 1 && !c.compat {
            break;
        }
        e = n;
    }
    vec![(e, st(&s[p..e]))]
}
fn quoted_bare(s: &[u8], p: usize) -> P<String> {
    let mut p = match lit(s, p, b'"') {
        Some(p) => p,
        None => return vec![],
    };
    let mut val = String::new();
    loop {
        let q = max_fws(s, p);
        val.push_str(&unfold(&s[p..q]));
        p = q;
        match s.get(p) {
            Some(b'"') => return vec![(p + 1, val)],
            Some(b'\\') => match s.get(p + 1) {
                Some(&c) if vchar(c) || wsp(c) => {
                    val.push(c as char);
                    p += 2;
                }
                _ => return vec![],
            },
            Some(&c) if qtext(c) => {
                val.push(c as char);
                p += 1;
            }
            _ => return vec![],
        }
    }
}
fn quoted(s: &[u8], p: usize) -> P<String> {
    padded(s, p, |a| quoted_bare(s, a))
}
fn word(s: &[u8], p: usize) -> P<String> {
    padded(s, p, |a| {
        let v = atom_text(s, a);
        if v.is_empty() {
            quoted_bare(s, a)
        } else {
            v
        }
    })
}
fn phrase_word(c: &Cfg, s: &[u8], p: usize) -> P<String> {
    padded(s, p, |a| {
        if c.mime {
            if let Some(r) = encoded_word(s, a) {
                return vec![r];
            }
        }
        let v = atom_text(s, a);
        if v.is_empty() {
            quoted_bare(s, a)
        } else {
            v
        }
    })
}
/// phrase = 1*word, words maximal; returned are the ends after the last possible word.
fn phrase(c: &Cfg, s: &[u8], p: usize) -> P<Vec<String>> {
    let mut out = Vec::new();
    let mut cur: P<Chain<String>> = vec![(p, Chain(None))];
    while !cur.is_empty() {
        let mut next: P<Chain<String>> = Vec::new();
        for (q, ws) in cur {
            let more = phrase_word(c, s, q);
            if more.is_empty() {
                if !ws.is_empty() {
                    push(&mut out, q, ws);
                }
            } else {
                for (e, w) in more {
                    push(&mut next, e, ws.with(w));
                }
            }
        }
        cur = next;
    }
    out.into_iter().map(|(e, ws)| (e, ws.to_vec())).collect()
}
fn domain_literal(s: &[u8], p: usize) -> P<String> {
    padded(s, p, |a| {
        let mut p = match lit(s, a, b'[') {
            Some(p) => p,
            None => return vec![],
        };
        let mut val = String::new();
        loop {
            p = max_fws(s, p);
            match s.get(p) {
                Some(b']') => return vec![(p + 1, val)],
                Some(&c) if dtext(c) => {
                    val.push(c as char);
                    p += 1;
                }
                _ => return vec![],
            }
        }
    })
}
fn dot_atom(c: &Cfg, s: &[u8], p: usize) -> P<String> {
    padded(s, p, |a| dot_atom_text(c, s, a))
}
fn domain(c: &Cfg, s: &[u8], p: usize) -> P<String> {
    let mut v = dot_atom(c, s, p);
    v.extend(domain_literal(s, p));
    v
}
fn addr_spec(c: &Cfg, s: &[u8], p: usize) -> P<EmailAddress> {
    let mut out = Vec::new();
    let mut locals = dot_atom(c, s, p);
    locals.extend(quoted(s, p));
    for (e, l) in locals {
        if let Some(e) = lit(s, e, b'@') {
            for (e, d) in domain(c, s, e) {
                push(
                    &mut out,
                    e,
                    EmailAddress {
                        local_part: l.clone(),
                        domain: d,
                    },
                );
            }
        }
    }
    out
}
fn angle_addr(c: &Cfg, s: &[u8], p: usize) -> P<EmailAddress> {
    padded(s, p, |a| {
        let mut out = Vec::new();
        if let Some(e) = lit(s, a, b'<') {
            for (e, x) in addr_spec(c, s, e) {
                if let Some(e) = lit(s, e, b'>') {
                    push(&mut out, e, x);
                }
            }
        }
        out
    })
}
fn mailbox(c: &Cfg, s: &[u8], p: usize) -> P<Mailbox> {
    let mut out = Vec::new();
    for (e, n) in phrase(c, s, p) {
        for (e, a) in angle_addr(c, s, e) {
            push(
                &mut out,
                e,
                Mailbox {
                    name: Some(n.clone()),
                    address: a,
                },
            );
        }
    }
    for (e, a) in angle_addr(c, s, p) {
        push(&mut out, e, Mailbox { name: None, address: a });
    }
    for (e, a) in addr_spec(c, s, p) {
        push(&mut out, e, Mailbox { name: None, address: a });
    }
    out
}
/// 1#x with "," separators, every count
fn list<T: PartialEq + Clone>(s: &[u8], p: usize, f: impl Fn(usize) -> P<T>) -> P<Vec<T>> {
    let mut out: P<Chain<T>> = Vec::new();
    let mut cur: P<Chain<T>> = f(p).into_iter().map(|(e, t)| (e, Chain(None).with(t))).collect();
    while !cur.is_empty() {
        let mut next: P<Chain<T>> = Vec::new();
        for (q, v) in cur {
            let mut extended = false;
            if let Some(n) = lit(s, q, b',') {
                for (e, t) in f(n) {
                    extended = true;
                    push(&mut next, e, v.with(t));
                }
            }
            // what follows a list never starts with ",": a shorter list cannot be completed. Only the end of
            // the text and the ";" of a group follow a list.
            if !extended && (q == s.len() || s[q] == b';') {
                push(&mut out, q, v);
            }
        }
        cur = next;
    }
    out.into_iter().map(|(e, v)| (e, v.to_vec())).collect()
}
fn group(c: &Cfg, s: &[u8], p: usize) -> P<(Vec<String>, Vec<Mailbox>)> {
    let mut out = Vec::new();
    for (e, name) in phrase(c, s, p) {
        if let Some(e) = lit(s, e, b':') {
            let mut inner: P<Vec<Mailbox>> = list(s, e, |q| mailbox(c, s, q));
            for z in opt_cfws(s, e) {
                push(&mut inner, z, vec![]);
            }
            for (e, l) in inner {
                if let Some(e) = lit(s, e, b';') {
                    for z in opt_cfws(s, e) {
                        push(&mut out, z, (name.clone(), l.clone()));
                    }
                }
            }
        }
    }
    out
}
fn address(c: &Cfg, s: &[u8], p: usize) -> P<Address> {
    let mut out: P<Address> = mailbox(c, s, p)
        .into_iter()
        .map(|(e, m)| (e, Address::Mailbox(m)))
        .collect();
    // A mailbox and a group can only start alike through an encoded word that contains an `@`, which
    // RFC 2047 5.(3) forbids in a phrase: such text is read as a mailbox.
    if out.is_empty() {
        for (e, g) in group(c, s, p) {
            push(&mut out, e, Address::Group(g));
        }
    }
    out
}
fn msg_id(c: &Cfg, s: &[u8], p: usize) -> P<Id> {
    padded(s, p, |a| {
        let mut out = Vec::new();
        if let Some(e) = lit(s, a, b'<') {
            for (e, l) in dot_atom_text(c, s, e) {
                if let Some(e) = lit(s, e, b'@') {
                    let mut rights = dot_atom_text(c, s, e);
                    if let Some(b) = lit(s, e, b'[') {
                        let z = run(s, b, dtext);
                        if let Some(end) = lit(s, z, b']') {
                            rights.push((end, st(&s[b..z])));
                        }
                    }
                    for (e, r) in rights {
                        if let Some(e) = lit(s, e, b'>') {
                            push(&mut out, e, (l.clone(), r));
                        }
                    }
                }
            }
        }
        out
    })
}
fn msg_ids(c: &Cfg, s: &[u8], p: usize) -> P<Vec<Id>> {
    let mut out: P<Chain<Id>> = Vec::new();
    let mut cur: P<Chain<Id>> = vec![(p, Chain(None))];
    while !cur.is_empty() {
        let mut next = Vec::new();
        for (q, v) in cur {
            let more = msg_id(c, s, q);
            if more.is_empty() && !v.is_empty() {
                push(&mut out, q, v.clone());
            }
            for (e, i) in more {
                push(&mut next, e, v.with(i));
            }
        }
        cur = next;
    }
    out.into_iter().map(|(e, v)| (e, v.to_vec())).collect()
}

// --- date-time (RFC 5322 3.3)
const DAYS: [(&str, Day); 7] = [
    ("mon", Day::Monday),
    ("tue", Day::Tuesday),
    ("wed", Day::Wednesday),
    ("thu", Day::Thursday),
    ("fri", Day::Friday),
    ("sat", Day::Saturday),
    ("sun", Day::Sunday),
];
const MONTHS: [(&str, Month); 12] = [
    ("jan", Month::January),
    ("feb", Month::February),
    ("mar", Month::March),
    ("apr", Month::April),
    ("may", Month::May),
    ("jun", Month::June),
    ("jul", Month::July),
    ("aug", Month::August),
    ("sep", Month::September),
    ("oct", Month::October),
    ("nov", Month::November),
    ("dec", Month::December),
];
fn name3<T: Copy>(s: &[u8], p: usize, names: &[(&str, T)]) -> Option<(usize, T)> {
    let w = s.get(p..p + 3)?;
    names
        .iter()
        .find(|(n, _)| w.eq_ignore_ascii_case(n.as_bytes()))
        .map(|(_, v)| (p + 3, *v))
}
fn num(s: &[u8], p: usize, digits: usize) -> Option<(usize, u8)> {
    let w = s.get(p..p + digits)?;
    if w.iter().all(|c| c.is_ascii_digit()) {
        let mut n = 0u32;
        for c in w {
            n = n * 10 + (c - b'0') as u32;
        }
        Some((p + digits, n as u8))
    } else {
        None
    }
}
fn time_zone(s: &[u8], p: usize) -> P<TimeWithZone> {
    let go = |p: usize, with_sec: bool| -> P<TimeWithZone> {
        let mut out = Vec::new();
        let inner = || -> Option<(usize, Time)> {
            let (p, hour) = num(s, p, 2)?;
            let p = lit(s, p, b':')?;
            let (p, minute) = num(s, p, 2)?;
            let (p, second) = if with_sec {
                let p = lit(s, p, b':')?;
                num(s, p, 2)?
            } else {
                (p, 0)
            };
            if hour <= 23 && minute <= 59 && second <= 60 {
                Some((p, Time { hour, minute, second }))
            } else {
                None
            }
        };
        if let Some((p, time)) = inner() {
            for p in fws_ends(s, p) {
                let sign = match s.get(p) {
                    Some(b'+') => true,
                    Some(b'-') => false,
                    _ => continue,
                };
                if let Some((e, h)) = num(s, p + 1, 2) {
                    if let Some((e, m)) = num(s, e, 2) {
                        if m <= 59 {
                            out.push((
                                e,
                                TimeWithZone {
                                    time: time.clone(),
                                    zone: Zone {
                                        sign,
                                        hour_offset: h,
                                        minute_offset: m,
                                    },
                                },
                            ));
                        }
                    }
                }
            }
        }
        out
    };
    let mut v = go(p, true);
    v.extend(go(p, false));
    v
}
fn date(s: &[u8], p: usize) -> P<Date> {
    let mut out = Vec::new();
    for p in opt_fws(s, p) {
        for digits in 1..=2 {
            let (p, day) = match num(s, p, digits) {
                Some(x) => x,
                None => continue,
            };
            if day < 1 || day > 31 {
                continue;
            }
            for p in fws_ends(s, p) {
                let (p, month) = match name3(s, p, &MONTHS) {
                    Some(x) => x,
                    None => continue,
                };
                for p in fws_ends(s, p) {
                    let e = run(s, p, |c| c.is_ascii_digit());
                    if e - p < 4 {
                        continue;
                    }
                    let year: usize = match st(&s[p..e]).parse() {
                        Ok(y) => y,
                        Err(_) => continue,
                    };
                    if year < 1900 {
                        continue;
                    }
                    for p in fws_ends(s, e) {
                        push(&mut out, p, Date { day, month, year });
                    }
                }
            }
        }
    }
    out
}
fn date_time(s: &[u8], p: usize) -> P<DateTime> {
    let mut starts: Vec<(usize, Option<Day>)> = vec![(p, None)];
    for q in opt_fws(s, p) {
        if let Some((e, d)) = name3(s, q, &DAYS) {
            if let Some(e) = lit(s, e, b',') {
                starts.push((e, Some(d)));
            }
        }
    }
    let mut out = Vec::new();
    for (p, day_name) in starts {
        for (e, d) in date(s, p) {
            for (e, t) in time_zone(s, e) {
                for z in opt_cfws(s, e) {
                    push(
                        &mut out,
                        z,
                        DateTime {
                            day_name,
                            date: d.clone(),
                            time: t.clone(),
                        },
                    );
                }
            }
        }
    }
    out
}

// --- unstructured (RFC 5322 3.2.5), with RFC 2047 when `decode`
fn unstructured(s: &[u8], decode: bool) -> Option<String> {
    let mut p = 0;
    let mut out = String::new();
    let mut prev_encoded = false;
    loop {
        let q = max_fws(s, p);
        let gap = unfold(&s[p..q]);
        if q == s.len() {
            // only *WSP may remain
            return if s[p..q].iter().all(|c| wsp(*c)) { Some(out) } else { None };
        }
        if decode {
            if let Some((e, text)) = encoded_word(s, q) {
                if !prev_encoded {
                    out.push_str(&gap);
                }
                out.push_str(&text);
                prev_encoded = true;
                p = e;
                continue;
            }
        }
        let e = run(s, q, vchar);
        if e == q {
            return None;
        }
        out.push_str(&gap);
        out.push_str(&st(&s[q..e]));
        prev_encoded = false;
        p = e;
    }
}

// --- RFC 2047
fn especial(c: u8) -> bool {
    b"()<>@,;:\\\"/[]?.=".contains(&c)
}
pub fn encoded_word(s: &[u8], p: usize) -> Option<(usize, String)> {
    let tok = |c: u8| vchar(c) && !especial(c);
    if s.get(p..p + 2)? != b"=?" {
        return None;
    }
    let a = p + 2;
    let e = run(s, a, |c| tok(c) && c != b'*');
    if e == a {
        return None;
    }
    let charset = st(&s[a..e]).to_ascii_lowercase();
    let mut p = e;
    if s.get(p) == Some(&b'*') {
        let e = run(s, p + 1, tok);
        if e == p + 1 {
            return None;
        }
        p = e;
    }
    p = lit(s, p, b'?')?;
    let e = run(s, p, tok);
    if e == p {
        return None;
    }
    let encoding = st(&s[p..e]).to_ascii_lowercase();
    p = lit(s, e, b'?')?;
    let e = run(s, p, |c| vchar(c) && c != b'?');
    if e == p {
        return None;
    }
    let data = &s[p..e];
    if s.get(e..e + 2)? != b"?=" {
        return None;
    }
    let bytes = match encoding.as_str() {
        "b" => base64(data)?,
        "q" => q_decode(data),
        _ => return None,
    };
    let text = charset_decode(&charset, &bytes)??;
    Some((e + 2, text))
}

// --- codecs
pub fn base64(d: &[u8]) -> Option<Vec<u8>> {
    fn val(c: u8) -> Option<u32> {
        Some(match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        } as u32)
    }
    // One quantum at a time: `n` significant characters so far, `pads` padding characters.
    let (mut acc, mut n, mut pads) = (0u32, 0, 0);
    let mut out = Vec::new();
    for &c in d {
        if let Some(v) = val(c) {
            if pads > 0 {
                return None; // data after the end of data
            }
            acc = acc << 6 | v;
            n += 1;
        } else if c == b'=' && n >= 2 {
            pads += 1;
        } else {
            continue; // ignored
        }
        if n + pads == 4 {
            let full = acc << (6 * pads);
            let bytes = [(full >> 16) as u8, (full >> 8) as u8, full as u8];
            out.extend_from_slice(&bytes[..3 - pads]);
            acc = 0;
            n = 0;
            pads = 0;
        }
    }
    if n == 0 {
        Some(out)
    } else {
        None // truncated quantum
    }
}
fn hex(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}
const REPLACEMENT: &[u8] = "\u{FFFD}".as_bytes();
pub fn qp_decode(d: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut p = 0;
    while p < d.len() {
        match d[p] {
            b'=' => {
                let rest = &d[p + 1..];
                if rest.starts_with(b"\r\n") {
                    p += 3;
                } else if rest.len() >= 2 {
                    match (hex(rest[0]), hex(rest[1])) {
                        (Some(a), Some(b)) => out.push(a << 4 | b),
                        _ => out.extend_from_slice(REPLACEMENT),
                    }
                    p += 3;
                } else {
                    out.push(b'=');
                    p += 1;
                }
            }
            b'\r' if d.get(p + 1) == Some(&b'\n') => {
                out.extend_from_slice(b"\r\n");
                p += 2;
            }
            c if vchar(c) || wsp(c) => {
                out.push(c);
                p += 1;
            }
            _ => {
                out.extend_from_slice(REPLACEMENT);
                p += 1;
            }
        }
    }
    out
}
/// The "Q" encoding; its input holds only printable characters other than "?".
fn q_decode(d: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut p = 0;
    while p < d.len() {
        match d[p] {
            b'_' => out.push(b' '),
            b'=' if p + 2 < d.len() => {
                match (hex(d[p + 1]), hex(d[p + 2])) {
                    (Some(a), Some(b)) => out.push(a << 4 | b),
                    _ => out.extend_from_slice(REPLACEMENT),
                }
                p += 2;
            }
            c => out.push(c),
        }
        p += 1;
    }
    out
}

/// None: charset not supported. Some(None): bytes invalid in that charset.
pub fn charset_decode(charset: &str, bytes: &[u8]) -> Option<Option<String>> {
    if charset == "utf-8" || charset == "us-ascii" {
        return Some(String::from_utf8(bytes.to_vec()).ok());
    }
    crate::tables::decode(charset, bytes).map(Some)
}

// --- MIME fields
type Params = BTreeMap<String, String>;

fn token(s: &[u8], p: usize) -> Option<(usize, String)> {
    let e = run(s, p, token_char);
    if e > p {
        Some((e, st(&s[p..e])))
    } else {
        None
    }
}
fn param_value(s: &[u8], p: usize) -> P<String> {
    let mut v: P<String> = token(s, p).into_iter().collect();
    v.extend(quoted(s, p));
    v
}
#[derive(Clone, PartialEq, Debug)]
struct RawParam {
    name: String,
    index: Option<u8>,
    encoded: bool,
    value: String,
}
/// Splits "name*3*" into its RFC 2231 parts; anything else is a plain name.
fn param_name(n: &str) -> (String, Option<u8>, bool) {
    if let Some(star) = n.find('*') {
        let (base, mut rest) = n.split_at(star);
        let mut index = None;
        let digits = rest[1..].bytes().take_while(|c| c.is_ascii_digit()).count();
        let mut ok = !base.is_empty();
        if digits > 0 {
            match rest[1..1 + digits].parse::<u8>() {
                Ok(i) => index = Some(i),
                Err(_) => ok = false,
            }
            rest = &rest[1 + digits..];
        }
        let encoded = rest == "*";
        if ok && (encoded || rest.is_empty()) {
            return (base.to_string(), index, encoded);
        }
    }
    (n.to_string(), None, false)
}
fn param(s: &[u8], p: usize) -> P<RawParam> {
    let mut out = Vec::new();
    for e in opt_cfws(s, p) {
        if let Some(e) = lit(s, e, b';') {
            for e in opt_cfws(s, e) {
                if let Some((e, name)) = token(s, e) {
                    if let Some(e) = lit(s, e, b'=') {
                        for (e, value) in param_value(s, e) {
                            let (n, index, encoded) = param_name(&name.to_ascii_lowercase());
                            push(
                                &mut out,
                                e,
                                RawParam {
                                    name: n,
                                    index,
                                    encoded,
                                    value,
                                },
                            );
                        }
                    }
                }
            }
        }
    }
    out
}
fn percent(charset: &str, v: &str) -> Option<Vec<u8>> {
    if charset_decode(charset, b"").is_none() {
        return None;
    }
    let b = v.as_bytes();
    let mut out = Vec::new();
    let mut p = 0;
    while p < b.len() {
        if b[p] == b'%' && p + 2 < b.len() {
            if let (Some(x), Some(y)) = (hex(b[p + 1]), hex(b[p + 2])) {
                out.push(x << 4 | y);
                p += 3;
                continue;
            }
        }
        out.push(b[p]);
        p += 1;
    }
    Some(out)
}
/// None: malformed extended value (the whole field is then malformed).
fn collect_params(raw: &[RawParam]) -> Option<Params> {
    let mut plain = Params::new();
    let mut multi: BTreeMap<String, BTreeMap<u8, (bool, String)>> = BTreeMap::new();
    for r in raw {
        // a lone extended value `name*=` is the same as a one-piece sequence `name*0*=`
        let index = if r.encoded { Some(r.index.unwrap_or(0)) } else { r.index };
        match index {
            None => {
                plain.insert(r.name.clone(), r.value.clone());
            }
            Some(i) => {
                multi
                    .entry(r.name.clone())
                    .or_default()
                    .insert(i, (r.encoded, r.value.clone()));
            }
        }
    }
    for (name, pieces) in multi {
        let mut pieces_v = Vec::new();
        let mut i = 0usize;
        while i < 256 {
            match pieces.get(&(i as u8)) {
                Some(x) => pieces_v.push(x.clone()),
                None => break,
            }
            i += 1;
        }
        if pieces_v.is_empty() {
            continue;
        }
        let mut charset = None;
        let mut value = String::new();
        // consecutive percent-encoded pieces are one octet string in the charset
        for (i, (encoded, v)) in pieces_v.into_iter().enumerate() {
            let mut v = v;
            if i == 0 && encoded {
                let mut it = v.splitn(3, '\'');
                let cs = it.next()?.to_ascii_lowercase();
                it.next()?;
                let rest = it.next()?.to_string();
                charset = Some(cs);
                v = rest;
            }
            match (&charset, encoded) {
                (Some(cs), true) => match percent(cs, &v) {
                    Some(bytes) => value.push_str(&charset_decode(cs, &bytes).unwrap()?),
                    None => value.push_str(&v),
                },
                _ => value.push_str(&v),
            }
        }
        plain.insert(name, value);
    }
    Some(plain)
}
/// *parameter, as many as possible; every end.
fn params(s: &[u8], p: usize) -> P<Vec<RawParam>> {
    let mut out: P<Chain<RawParam>> = vec![];
    let mut cur: P<Chain<RawParam>> = vec![(p, Chain(None))];
    while !cur.is_empty() {
        let mut next: P<Chain<RawParam>> = vec![];
        for (q, v) in cur {
            let more = param(s, q);
            if more.is_empty() {
                push(&mut out, q, v);
            } else {
                for (e, r) in more {
                    push(&mut next, e, v.with(r));
                }
            }
        }
        cur = next;
    }
    out.into_iter().map(|(e, v)| (e, v.to_vec())).collect()
}
fn type_name(t: &str) -> String {
    let t = t.to_ascii_lowercase();
    match t.as_str() {
        "text" | "multipart" | "application" | "image" | "video" | "audio" | "message" => t,
        _ => format!("?{}", t),
    }
}
type CType = (String, String, Params);
fn content_type(s: &[u8]) -> Option<CType> {
    for p in opt_cfws(s, 0) {
        if let Some((e, t)) = token(s, p) {
            if let Some(e) = lit(s, e, b'/') {
                if let Some((e, sub)) = token(s, e) {
                    for (e, ps) in params(s, e) {
                        if opt_cfws(s, e).contains(&s.len()) {
                            return Some((type_name(&t), sub.to_ascii_lowercase(), collect_params(&ps)?));
                        }
                    }
                }
            }
        }
    }
    None
}
fn disposition(s: &[u8]) -> Option<Disp> {
    for p in opt_cfws(s, 0) {
        if let Some((e, t)) = token(s, p) {
            // explore every way to cut the rest into parameters
            let mut cur: P<(Disp, Chain<RawParam>)> = vec![(e, (Disp::default(), Chain(None)))];
            while !cur.is_empty() {
                let mut next: P<(Disp, Chain<RawParam>)> = vec![];
                for (q, (d, raw)) in cur {
                    if opt_cfws(s, q).contains(&s.len()) {
                        let mut d = d;
                        let tl = t.to_ascii_lowercase();
                        d.kind = match tl.as_str() {
                            "inline" | "attachment" => tl,
                            _ => format!("?{}", tl),
                        };
                        d.unstructured = collect_params(&raw.to_vec())?;
                        return Some(d);
                    }
                    for (e, r) in disp_param(s, q) {
                        let (mut d, mut raw) = (d.clone(), raw.clone());
                        match r {
                            DParam::File(f) => d.filename = Some(f),
                            DParam::Creation(x) => d.creation = Some(x),
                            DParam::Modification(x) => d.modification = Some(x),
                            DParam::Read(x) => d.read = Some(x),
                            DParam::Other(r) => raw = raw.with(r),
                        }
                        push(&mut next, e, (d, raw));
                    }
                }
                cur = next;
            }
        }
    }
    None
}
#[derive(Clone, PartialEq)]
enum DParam {
    File(String),
    Creation(DateTime),
    Modification(DateTime),
    Read(DateTime),
    Other(RawParam),
}
fn disp_param(s: &[u8], p: usize) -> P<DParam> {
    let mut out = Vec::new();
    for e in opt_cfws(s, p) {
        if let Some(e) = lit(s, e, b';') {
            for e in opt_cfws(s, e) {
                if let Some((v, name)) = token(s, e) {
                    let name = name.to_ascii_lowercase();
                    if let Some(v) = lit(s, v, b'=') {
                        // a well-formed quoted date-time
                        let mk: Option<fn(DateTime) -> DParam> = match name.as_str() {
                            "creation-date" => Some(DParam::Creation),
                            "modification-date" => Some(DParam::Modification),
                            "read-date" => Some(DParam::Read),
                            _ => None,
                        };
                        let mut dated = false;
                        if let (Some(mk), Some(q)) = (mk, lit(s, v, b'"')) {
                            for (e, d) in date_time(s, q) {
                                if let Some(e) = lit(s, e, b'"') {
                                    dated = true;
                                    push(&mut out, e, mk(d));
                                }
                            }
                        }
                        if dated {
                            continue;
                        }
                        for (e, value) in param_value(s, v) {
                            if name == "filename" {
                                push(&mut out, e, DParam::File(value));
                            } else {
                                let (n, index, encoded) = param_name(&name);
                                push(
                                    &mut out,
                                    e,
                                    DParam::Other(RawParam {
                                        name: n,
                                        index,
                                        encoded,
                                        value,
                                    }),
                                );
                            }
                        }
                    }
                }
            }
        }
    }
    out
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cte {
    Identity,
    Qp,
    Base64,
    Unknown,
}
/// The name of a transfer encoding, in lower case.
fn transfer_encoding(s: &[u8]) -> Option<String> {
    for p in opt_cfws(s, 0) {
        if let Some((e, t)) = token(s, p) {
            if opt_cfws(s, e).contains(&s.len()) {
                return Some(t.to_ascii_lowercase());
            }
        }
    }
    None
}
fn cte_of(name: &str) -> Cte {
    match name {
        "7bit" | "8bit" | "binary" => Cte::Identity,
        "quoted-printable" => Cte::Qp,
        "base64" => Cte::Base64,
        _ => Cte::Unknown,
    }
}
fn mime_version(s: &[u8]) -> Option<(u8, u8)> {
    let number = |p: usize| -> Option<(usize, u8)> {
        let e = run(s, p, |c| c.is_ascii_digit());
        if e == p {
            return None;
        }
        let t = st(&s[p..e]);
        let t = t.trim_start_matches('0');
        if t.is_empty() {
            Some((e, 0))
        } else {
            t.parse().ok().map(|n| (e, n))
        }
    };
    for p in opt_cfws(s, 0) {
        if let Some((e, a)) = number(p) {
            if let Some(e) = lit(s, e, b'.') {
                if let Some((e, b)) = number(e) {
                    if opt_cfws(s, e).contains(&s.len()) {
                        return Some((a, b));
                    }
                }
            }
        }
    }
    None
}
pub fn apply_encoding(v: &[u8], cte: Cte) -> Option<Vec<u8>> {
    match cte {
        Cte::Identity => Some(v.to_vec()),
        Cte::Qp => Some(qp_decode(v)),
        Cte::Base64 => base64(v),
        Cte::Unknown => None,
    }
}

// ---------------------------------------------------------------------------------------------
// Messages

/// The first derivation that consumes the whole field body.
fn whole<T>(s: &[u8], ps: P<T>) -> Option<T> {
    ps.into_iter().find(|(e, _)| *e == s.len()).map(|(_, v)| v)
}

/// One header field, as the low-level field list gives it.
#[derive(Debug, PartialEq, Clone)]
pub enum F {
    Date(DateTime),
    From(Vec<Mailbox>),
    Sender(Mailbox),
    ReplyTo(Vec<Address>),
    To(Vec<Address>),
    Cc(Vec<Address>),
    Bcc(Vec<Address>),
    MessageId(Id),
    InReplyTo(Vec<Id>),
    References(Vec<Id>),
    Subject(String),
    Comments(String),
    Keywords(Vec<Vec<String>>),
    MimeVersion(u8, u8),
    ContentType(CType),
    Cte(String),
    ContentId(Id),
    ContentDescription(String),
    Disposition(Disp),
    Unknown(String, String),
}

/// Cuts off one logical header line: (name, body, position after its CRLF). A logical line ends at
/// the first CRLF that is not followed by white space.
fn logical_line(s: &[u8], p: usize) -> Option<(usize, usize, usize)> {
    let colon = run(s, p, ftext);
    if colon == p || s.get(colon) != Some(&b':') {
        return None;
    }
    let mut q = colon + 1;
    loop {
        if q + 1 >= s.len() {
            return None;
        }
        if s[q] == b'\r' && s[q + 1] == b'\n' && !s.get(q + 2).map(|c| wsp(*c)).unwrap_or(false) {
            return Some((colon, q, q + 2));
        }
        q += 1;
    }
}

fn bcc_body(c: &Cfg, s: &[u8]) -> Option<Vec<Address>> {
    if let Some(l) = whole(s, list(s, 0, |q| address(c, s, q))) {
        return Some(l);
    }
    if opt_cfws(s, 0).contains(&s.len()) {
        return Some(vec![]);
    }
    None
}

fn mime_field(c: &Cfg, name: &str, b: &[u8]) -> Option<F> {
    Some(match name {
        "content-type" => F::ContentType(content_type(b)?),
        "content-transfer-encoding" => F::Cte(transfer_encoding(b)?),
        "content-id" => F::ContentId(whole(b, msg_id(c, b, 0))?),
        "content-description" => F::ContentDescription(unstructured(b, true)?),
        "content-disposition" if c.disposition => F::Disposition(disposition(b)?),
        _ => return None,
    })
}

fn known_field(c: &Cfg, name: &str, b: &[u8]) -> Option<F> {
    Some(match name {
        "date" if c.date => F::Date(whole(b, date_time(b, 0))?),
        "from" if c.from || c.sender => F::From(whole(b, list(b, 0, |q| mailbox(c, b, q)))?),
        "sender" if c.sender => F::Sender(whole(b, mailbox(c, b, 0))?),
        "reply-to" if c.reply_to => F::ReplyTo(whole(b, list(b, 0, |q| address(c, b, q)))?),
        "to" if c.to => F::To(whole(b, list(b, 0, |q| address(c, b, q)))?),
        "cc" if c.cc => F::Cc(whole(b, list(b, 0, |q| address(c, b, q)))?),
        "bcc" if c.bcc => F::Bcc(bcc_body(c, b)?),
        "message-id" if c.message_id => F::MessageId(whole(b, msg_id(c, b, 0))?),
        "in-reply-to" if c.in_reply_to => F::InReplyTo(whole(b, msg_ids(c, b, 0))?),
        "references" if c.references => F::References(whole(b, msg_ids(c, b, 0))?),
        "subject" if c.subject => F::Subject(unstructured(b, c.mime)?),
        "comments" if c.comments => F::Comments(unstructured(b, c.mime)?),
        "keywords" if c.keywords => F::Keywords(whole(b, list(b, 0, |q| phrase(c, b, q)))?),
        "mime-version" if c.mime => {
            let (major, minor) = mime_version(b)?;
            F::MimeVersion(major, minor)
        }
        _ if c.mime => mime_field(c, name, b)?,
        _ => return None,
    })
}

fn unknown_field(c: &Cfg, name: &[u8], b: &[u8]) -> Option<F> {
    Some(F::Unknown(st(name), unstructured(b, c.unrecognized)?))
}

fn received(c: &Cfg, b: &[u8]) -> Option<(Vec<ReceivedToken>, DateTime)> {
    // received = *received-token ";" date-time; at each point the longest kind of token is taken:
    // an address, else a domain when it says more than a single word, else a word.
    let mut cur: P<Chain<ReceivedToken>> = vec![(0, Chain(None))];
    while !cur.is_empty() {
        let mut next = vec![];
        for (p, toks) in cur {
            if let Some(q) = lit(b, p, b';') {
                if let Some(d) = whole(b, date_time(b, q)) {
                    return Some((toks.to_vec(), d));
                }
            }
            let addrs: P<EmailAddress> = {
                let mut v = angle_addr(c, b, p);
                v.extend(addr_spec(c, b, p));
                v
            };
            let options: P<ReceivedToken> = if !addrs.is_empty() {
                addrs.into_iter().map(|(e, a)| (e, ReceivedToken::Addr(a))).collect()
            } else {
                let ws = word(b, p);
                let ds = domain(c, b, p);
                let wl = ws.iter().map(|(_, w)| w.len()).max();
                let dl = ds.iter().map(|(_, w)| w.len()).max();
                match (wl, dl) {
                    (Some(w), Some(d)) if d > w => {
                        ds.into_iter().map(|(e, d)| (e, ReceivedToken::Domain(d))).collect()
                    }
                    (Some(_), _) => ws.into_iter().map(|(e, w)| (e, ReceivedToken::Word(w))).collect(),
                    (None, _) => ds.into_iter().map(|(e, d)| (e, ReceivedToken::Domain(d))).collect(),
                }
            };
            for (e, t) in options {
                push(&mut next, e, toks.with(t));
            }
        }
        cur = next;
    }
    None
}
fn return_path(c: &Cfg, b: &[u8]) -> Option<Option<EmailAddress>> {
    if let Some(a) = whole(b, angle_addr(c, b, 0)) {
        return Some(Some(a));
    }
    for p in opt_cfws(b, 0) {
        if let Some(p) = lit(b, p, b'<') {
            for p in opt_cfws(b, p) {
                if let Some(p) = lit(b, p, b'>') {
                    if opt_cfws(b, p).contains(&b.len()) {
                        return Some(None);
                    }
                }
            }
        }
    }
    None
}
fn resent(c: &Cfg, name: &str, b: &[u8]) -> Option<TraceField> {
    Some(match name {
        "resent-date" => TraceField::Date(whole(b, date_time(b, 0))?),
        "resent-from" => TraceField::From(whole(b, list(b, 0, |q| mailbox(c, b, q)))?),
        "resent-sender" => TraceField::Sender(whole(b, mailbox(c, b, 0))?),
        "resent-to" => TraceField::To(whole(b, list(b, 0, |q| address(c, b, q)))?),
        "resent-cc" => TraceField::Cc(whole(b, list(b, 0, |q| address(c, b, q)))?),
        "resent-bcc" => TraceField::Bcc(bcc_body(c, b)?),
        "resent-message-id" => TraceField::MessageId(whole(b, msg_id(c, b, 0))?),
        _ => return None,
    })
}
fn line_at<'a>(s: &'a [u8], p: usize) -> Option<(String, &'a [u8], &'a [u8], usize)> {
    let (colon, end, next) = logical_line(s, p)?;
    Some((
        st(&s[p..colon]).to_ascii_lowercase(),
        &s[p..colon],
        &s[colon + 1..end],
        next,
    ))
}

/// RFC 5322 body: CRLF-terminated lines of at most 998 US-ASCII characters without NUL, CR or LF.
fn text_body_ok(b: &[u8]) -> bool {
    let mut p = 0;
    loop {
        let e = run(b, p, |c| (1..=127).contains(&c) && c != b'\r' && c != b'\n');
        if e - p > 998 {
            return false;
        }
        if e == b.len() {
            return true;
        }
        if b[e] == b'\r' && b.get(e + 1) == Some(&b'\n') {
            p = e + 2;
        } else {
            return false;
        }
    }
}

pub fn default_params() -> Params {
    let mut m = Params::new();
    m.insert("charset".into(), "us-ascii".into());
    m
}

macro_rules! once {
    ($slot:expr, $v:expr, $name:expr) => {
        if $slot.is_some() {
            return Res::Dup($name.to_string());
        } else {
            $slot = Some($v)
        }
    };
}

/// The low-level reading of a message: trace blocks, other fields in order, body.
pub struct Low<'a> {
    pub trace: Vec<TraceBlock>,
    pub fields: Vec<F>,
    pub body: Option<&'a [u8]>,
}
pub fn low<'a>(c: &Cfg, s: &'a [u8]) -> Option<Low<'a>> {
    let mut p = 0;
    let mut trace: Vec<TraceBlock> = Vec::new();
    // leading trace section
    if c.trace {
        'blocks: loop {
            let mut q = p;
            let mut rp = None;
            let mut rec = Vec::new();
            if let Some(("return-path", _, b, n)) = line_at(s, q).as_ref().map(|l| (l.0.as_str(), l.1, l.2, l.3)) {
                if let Some(a) = return_path(c, b) {
                    rp = Some(a);
                    q = n;
                }
            }
            while let Some((name, _, b, n)) = line_at(s, q) {
                if name != "received" {
                    break;
                }
                match received(c, b) {
                    Some(r) => {
                        rec.push(r);
                        q = n;
                    }
                    None => break,
                }
            }
            if rec.is_empty() {
                break 'blocks;
            }
            let mut fields = Vec::new();
            while let Some((name, _, b, n)) = line_at(s, q) {
                match resent(c, &name, b) {
                    Some(f) => {
                        fields.push(f);
                        q = n;
                    }
                    None => break,
                }
            }
            trace.push((rp, rec, fields));
            p = q;
        }
    }
    // the other fields
    let mut fields = Vec::new();
    while let Some((name, raw_name, b, n)) = line_at(s, p) {
        match known_field(c, &name, b).or_else(|| unknown_field(c, raw_name, b)) {
            Some(f) => {
                fields.push(f);
                p = n;
            }
            None => break,
        }
    }
    let body: Option<&[u8]> = if p == s.len() {
        None
    } else if s[p..].starts_with(b"\r\n") {
        Some(&s[p + 2..])
    } else {
        return None;
    };
    if !c.mime {
        if let Some(b) = body {
            if !text_body_ok(b) {
                return None;
            }
        }
    }
    Some(Low { trace, fields, body })
}
pub fn parse(c: &Cfg, s: &[u8]) -> Res {
    let (trace, fields, body) = match low(c, s) {
        Some(l) => (l.trace, l.fields, l.body),
        None => return Res::Err,
    };
    let mut o = Obs {
        trace: if trace.is_empty() { "[]".into() } else { format!("{:?}", trace) },
        ..Obs::default()
    };
    let mut from = None;
    let (mut ver, mut ct, mut cte, mut cid, mut cdesc, mut cdisp) = (None, None, None, None, None, None);
    for f in fields {
        match f {
            F::Date(v) => once!(o.date, v, "Date"),
            F::From(v) => once!(from, v, "From"),
            F::Sender(v) => once!(o.sender, v, "Sender"),
            F::ReplyTo(v) => once!(o.reply_to, v, "Reply-To"),
            F::To(v) => once!(o.to, v, "To"),
            F::Cc(v) => once!(o.cc, v, "Cc"),
            F::Bcc(v) => once!(o.bcc, v, "Bcc"),
            F::MessageId(v) => once!(o.message_id, v, "Message-ID"),
            F::InReplyTo(v) => once!(o.in_reply_to, v, "In-Reply-To"),
            F::References(v) => once!(o.references, v, "References"),
            F::Subject(v) => once!(o.subject, v, "Subject"),
            F::Comments(v) => o.comments.push(v),
            F::Keywords(v) => o.keywords.extend(v),
            F::MimeVersion(a, b) => once!(ver, (a, b), "Mime-Version"),
            F::ContentType(v) => once!(ct, v, "Content-Type"),
            F::Cte(v) => once!(cte, cte_of(&v), "Content-Transfer-Encoding"),
            F::ContentId(v) => once!(cid, v, "Content-Id"),
            F::ContentDescription(v) => once!(cdesc, v, "Content-Description"),
            F::Disposition(v) => once!(cdisp, v, "Content-Disposition"),
            F::Unknown(n, v) => o.unknown.push((n, v)),
        }
    }
    if c.from && from.is_none() {
        return Res::Missing("From".into());
    }
    if c.date && o.date.is_none() {
        return Res::Missing("Date".into());
    }
    if c.sender && o.sender.is_none() {
        match &from {
            Some(f) if f.len() == 1 => o.sender = Some(f[0].clone()),
            _ => return Res::Missing("Sender".into()),
        }
    }
    if c.from {
        o.from = from;
    }
    if c.mime {
        let (ctype, subtype, params) = ct.unwrap_or_else(|| ("text".into(), "plain".into(), default_params()));
        let value = match body {
            None => vec![],
            Some(b) => match apply_encoding(b, cte.unwrap_or(Cte::Identity)) {
                Some(v) => v,
                None => return Res::Err,
            },
        };
        o.ent = Some(Ent {
            ctype,
            subtype,
            params,
            description: cdesc,
            id: cid,
            disposition: cdisp,
            value,
            additional: vec![],
        });
    } else {
        o.body = body.map(|b| b.to_vec());
    }
    Res::Ok(Box::new(o))
}

// ---------------------------------------------------------------------------------------------
// Entities

/// A body part: MIME header lines (a later one of the same name wins), then an empty line and the content.
pub fn part(c: &Cfg, s: &[u8]) -> Option<Ent> {
    let mut p = 0;
    let mut e = Ent::default();
    let mut ct = None;
    let mut cte = Cte::Identity;
    while let Some((name, raw_name, b, n)) = line_at(s, p) {
        match mime_field(c, &name, b).or_else(|| unknown_field(c, raw_name, b)) {
            Some(F::ContentType(v)) => ct = Some(v),
            Some(F::Cte(v)) => cte = cte_of(&v),
            Some(F::ContentId(v)) => e.id = Some(v),
            Some(F::ContentDescription(v)) => e.description = Some(v),
            Some(F::Disposition(v)) => e.disposition = Some(v),
            Some(F::Unknown(n, v)) => e.additional.push((n, v)),
            _ => break,
        }
        p = n;
    }
    let content: &[u8] = if p == s.len() {
        b""
    } else if s[p..].starts_with(b"\r\n") {
        &s[p + 2..]
    } else {
        return None;
    };
    let (ctype, subtype, params) = ct.unwrap_or_else(|| ("text".into(), "plain".into(), default_params()));
    e.ctype = ctype;
    e.subtype = subtype;
    e.params = params;
    e.value = apply_encoding(content, cte)?;
    Some(e)
}

/// RFC 2046 5.1: the parts between delimiter lines, up to the first closing delimiter.
pub fn multipart(c: &Cfg, v: &[u8], boundary: &str) -> Option<Vec<Ent>> {
    let dash = [b"--", boundary.as_bytes()].concat();
    // every place where a line starts with the dash-boundary: (content end, after the dash-boundary)
    let mut parts: Vec<&[u8]> = Vec::new();
    let mut start: Option<usize> = None; // where the current part begins
    let mut p = 0;
    loop {
        // p is the start of a line; `end` is where the preceding content ends
        let after = p + dash.len();
        if v[p..].starts_with(&dash) {
            let own_crlf = start == Some(p) || p == 0; // no CRLF of its own before the delimiter
            let end = if own_crlf { p } else { p - 2 };
            let rest = &v[after..];
            if rest.starts_with(b"\r\n") {
                if let Some(b) = start {
                    parts.push(&v[b..end]);
                }
                start = Some(after + 2);
                p = after + 2;
                continue;
            }
            if !own_crlf && (rest == b"--" || rest.starts_with(b"--\r\n")) {
                if let Some(b) = start {
                    parts.push(&v[b..end]);
                }
                return parts.into_iter().map(|x| part(c, x)).collect();
            }
        }
        // next line
        let mut q = p;
        loop {
            if q + 1 >= v.len() {
                return None; // no closing delimiter
            }
            if v[q] == b'\r' && v[q + 1] == b'\n' {
                break;
            }
            q += 1;
        }
        p = q + 2;
    }
}

pub fn entity(c: &Cfg, e: &Ent) -> EntRes {
    match e.ctype.as_str() {
        "multipart" => match e.params.get("boundary") {
            None => EntRes::Err,
            Some(b) => match multipart(c, &e.value, b) {
                Some(parts) => EntRes::Multipart(e.subtype.clone(), parts),
                None => EntRes::Err,
            },
        },
        "text" => match e.params.get("charset") {
            None => EntRes::Unknown,
            Some(cs) => match charset_decode(&cs.to_lowercase(), &e.value) {
                None => EntRes::Unknown,
                Some(None) => EntRes::Err,
                Some(Some(t)) => EntRes::Text(e.subtype.clone(), t),
            },
        },
        _ => EntRes::Unknown,
    }
}
