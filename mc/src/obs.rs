//! Turns values of the library into the model's observation types, auditing every string on the way.
use crate::model as m;
use email_parser::address as ea;
use email_parser::error::Error;
use email_parser::prelude::*;
use email_parser::time as et;
use std::borrow::Cow;

/// What was noticed about the strings of one result.
#[derive(Default, Debug, Clone)]
pub struct Audit {
    /// a str that is not UTF-8
    pub bad_utf8: bool,
    /// borrowed data outside of the ranges below and not 'static data of the program
    pub outside: Vec<String>,
    pub borrowed: usize,
    pub owned: usize,
    /// text of the owned strings
    pub owned_text: Vec<String>,
    /// where borrowed data may lie
    pub ranges: Vec<(usize, usize)>,
}

extern "C" {
    static __executable_start: u8;
    static _end: u8;
}

impl Audit {
    pub fn new(ranges: Vec<(usize, usize)>) -> Audit {
        Audit { ranges, ..Audit::default() }
    }
    fn place(&mut self, b: &[u8]) {
        self.borrowed += 1;
        if b.is_empty() {
            return;
        }
        let (s, e) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
        if self.ranges.iter().any(|(a, z)| *a <= s && e <= *z) {
            return;
        }
        let image = unsafe { (&__executable_start as *const u8 as usize, &_end as *const u8 as usize) };
        if image.0 <= s && e <= image.1 {
            return; // a literal of the library, such as the default "plain"
        }
        self.outside.push(String::from_utf8_lossy(b).into_owned());
    }
    fn utf8(&mut self, b: &[u8]) -> String {
        match std::str::from_utf8(b) {
            Ok(s) => s.to_string(),
            Err(_) => {
                self.bad_utf8 = true;
                format!("<invalid UTF-8 {:?}>", b)
            }
        }
    }
    pub fn strref(&mut self, s: &str) -> String {
        self.place(s.as_bytes());
        self.utf8(s.as_bytes())
    }
    pub fn s(&mut self, c: &Cow<str>) -> String {
        match c {
            Cow::Borrowed(b) => self.strref(b),
            Cow::Owned(o) => {
                self.owned += 1;
                let t = self.utf8(o.as_bytes());
                self.owned_text.push(t.clone());
                t
            }
        }
    }
    pub fn os(&mut self, c: &Option<Cow<str>>) -> Option<String> {
        c.as_ref().map(|c| self.s(c))
    }
    pub fn bytes(&mut self, c: &Cow<[u8]>) -> Vec<u8> {
        match c {
            Cow::Borrowed(b) => self.place(b),
            Cow::Owned(o) => {
                self.owned += 1;
                self.owned_text.push(String::from_utf8_lossy(o).into_owned());
            }
        }
        c.to_vec()
    }
    fn pair(&mut self, p: &(Cow<str>, Cow<str>)) -> m::Id {
        (self.s(&p.0), self.s(&p.1))
    }
    pub fn addr(&mut self, a: &ea::EmailAddress) -> m::EmailAddress {
        m::EmailAddress {
            local_part: self.s(&a.local_part),
            domain: self.s(&a.domain),
        }
    }
    pub fn mailbox(&mut self, x: &ea::Mailbox) -> m::Mailbox {
        m::Mailbox {
            name: x.name.as_ref().map(|n| n.iter().map(|w| self.s(w)).collect()),
            address: self.addr(&x.address),
        }
    }
    pub fn mailboxes(&mut self, x: &[ea::Mailbox]) -> Vec<m::Mailbox> {
        x.iter().map(|x| self.mailbox(x)).collect()
    }
    pub fn address(&mut self, x: &ea::Address) -> m::Address {
        match x {
            ea::Address::Mailbox(x) => m::Address::Mailbox(self.mailbox(x)),
            ea::Address::Group((n, l)) => {
                m::Address::Group((n.iter().map(|w| self.s(w)).collect(), self.mailboxes(l)))
            }
        }
    }
    pub fn addresses(&mut self, x: &[ea::Address]) -> Vec<m::Address> {
        x.iter().map(|x| self.address(x)).collect()
    }
    pub fn ids(&mut self, x: &[(Cow<str>, Cow<str>)]) -> Vec<m::Id> {
        x.iter().map(|x| self.pair(x)).collect()
    }
}

pub fn date_time(d: &et::DateTime) -> m::DateTime {
    m::DateTime {
        day_name: d.day_name.as_ref().map(|d| match d {
            et::Day::Monday => m::Day::Monday,
            et::Day::Tuesday => m::Day::Tuesday,
            et::Day::Wednesday => m::Day::Wednesday,
            et::Day::Thursday => m::Day::Thursday,
            et::Day::Friday => m::Day::Friday,
            et::Day::Saturday => m::Day::Saturday,
            et::Day::Sunday => m::Day::Sunday,
        }),
        date: m::Date {
            day: d.date.day,
            month: match d.date.month {
                et::Month::January => m::Month::January,
                et::Month::February => m::Month::February,
                et::Month::March => m::Month::March,
                et::Month::April => m::Month::April,
                et::Month::May => m::Month::May,
                et::Month::June => m::Month::June,
                et::Month::July => m::Month::July,
                et::Month::August => m::Month::August,
                et::Month::September => m::Month::September,
                et::Month::October => m::Month::October,
                et::Month::November => m::Month::November,
                et::Month::December => m::Month::December,
            },
            year: d.date.year,
        },
        time: m::TimeWithZone {
            time: m::Time {
                hour: d.time.time.hour,
                minute: d.time.time.minute,
                second: d.time.time.second,
            },
            zone: m::Zone {
                sign: d.time.zone.sign,
                hour_offset: d.time.zone.hour_offset,
                minute_offset: d.time.zone.minute_offset,
            },
        },
    }
}

#[cfg(feature = "mime")]
pub fn ctype_name(t: &email_parser::mime::ContentType, a: &mut Audit) -> String {
    use email_parser::mime::ContentType as T;
    match t {
        T::Text => "text".into(),
        T::Image => "image".into(),
        T::Audio => "audio".into(),
        T::Video => "video".into(),
        T::Application => "application".into(),
        T::Message => "message".into(),
        T::Multipart => "multipart".into(),
        T::Unknown(x) => format!("?{}", a.s(x)),
    }
}

#[cfg(feature = "mime")]
pub fn disposition(d: &email_parser::mime::Disposition, a: &mut Audit) -> m::Disp {
    use email_parser::mime::DispositionType as T;
    m::Disp {
        kind: match &d.disposition_type {
            T::Inline => "inline".into(),
            T::Attachment => "attachment".into(),
            T::Unknown(x) => format!("?{}", a.s(x)),
        },
        filename: a.os(&d.filename),
        creation: d.creation_date.as_ref().map(date_time),
        modification: d.modification_date.as_ref().map(date_time),
        read: d.read_date.as_ref().map(date_time),
        unstructured: d.unstructured.iter().map(|(k, v)| (a.s(k), a.s(v))).collect(),
    }
}

#[cfg(feature = "mime")]
pub fn entity(e: &email_parser::mime::RawEntity, a: &mut Audit) -> m::Ent {
    m::Ent {
        ctype: ctype_name(&e.mime_type, a),
        subtype: a.s(&e.subtype),
        params: e.parameters.iter().map(|(k, v)| (a.s(k), a.s(v))).collect(),
        description: a.os(&e.description),
        id: e.id.as_ref().map(|i| a.pair(i)),
        #[cfg(feature = "content-disposition")]
        disposition: e.disposition.as_ref().map(|d| disposition(d, a)),
        #[cfg(not(feature = "content-disposition"))]
        disposition: None,
        value: a.bytes(&e.value),
        additional: e.additional_headers.iter().map(|p| a.pair(p)).collect(),
    }
}

#[allow(unused_mut)]
pub fn email(e: &Email, a: &mut Audit) -> m::Obs {
    let mut o = m::Obs {
        trace: "[]".into(),
        ..m::Obs::default()
    };
    #[cfg(not(feature = "mime"))]
    {
        o.body = e.body.as_ref().map(|b| {
            if let Cow::Owned(_) = b {
                a.owned += 1;
                a.owned_text.push(b.to_string());
            } else {
                a.place(b.as_bytes());
            }
            a.utf8(b.as_bytes()).into_bytes()
        });
    }
    #[cfg(feature = "from")]
    {
        o.from = Some(a.mailboxes(&e.from));
    }
    #[cfg(feature = "sender")]
    {
        o.sender = Some(a.mailbox(&e.sender));
    }
    #[cfg(feature = "subject")]
    {
        o.subject = a.os(&e.subject);
    }
    #[cfg(feature = "date")]
    {
        o.date = Some(date_time(&e.date));
    }
    #[cfg(feature = "to")]
    {
        o.to = e.to.as_ref().map(|x| a.addresses(x));
    }
    #[cfg(feature = "cc")]
    {
        o.cc = e.cc.as_ref().map(|x| a.addresses(x));
    }
    #[cfg(feature = "bcc")]
    {
        o.bcc = e.bcc.as_ref().map(|x| a.addresses(x));
    }
    #[cfg(feature = "reply-to")]
    {
        o.reply_to = e.reply_to.as_ref().map(|x| a.addresses(x));
    }
    #[cfg(feature = "message-id")]
    {
        o.message_id = e.message_id.as_ref().map(|x| a.pair(x));
    }
    #[cfg(feature = "in-reply-to")]
    {
        o.in_reply_to = e.in_reply_to.as_ref().map(|x| a.ids(x));
    }
    #[cfg(feature = "references")]
    {
        o.references = e.references.as_ref().map(|x| a.ids(x));
    }
    #[cfg(feature = "comments")]
    {
        o.comments = e.comments.iter().map(|x| a.s(x)).collect();
    }
    #[cfg(feature = "keywords")]
    {
        o.keywords = e
            .keywords
            .iter()
            .map(|k| k.iter().map(|w| a.s(w)).collect())
            .collect();
    }
    #[cfg(feature = "trace")]
    if !e.trace.is_empty() {
        for t in &e.trace {
            if let Some(Some(x)) = &t.0 {
                a.addr(x);
            }
        }
        o.trace = format!("{:?}", e.trace);
        if std::str::from_utf8(o.trace.as_bytes()).is_err() {
            a.bad_utf8 = true;
            o.trace = "<invalid UTF-8>".into();
        }
    }
    #[cfg(feature = "mime")]
    {
        o.ent = Some(entity(&e.mime_entity, a));
    }
    o.unknown = e.unknown_fields.iter().map(|(n, v)| (a.strref(n), a.s(v))).collect();
    o
}

/// The name in an error, provided that its text has it as well.
fn named(e: &Error, n: &str) -> String {
    thread_local!(static SEEN: std::cell::RefCell<Vec<Error>> = const { std::cell::RefCell::new(vec![]) });
    // (errors that have been looked at before are not written out again)
    let seen = SEEN.with(|s| s.borrow().contains(e));
    if !seen {
        let text = e.to_string();
        if !text.contains(n) {
            return format!("{} (displayed as {:?})", n, text);
        }
        SEEN.with(|s| s.borrow_mut().push(e.clone()));
    }
    n.to_string()
}
pub fn result(r: &Result<Email, Error>, a: &mut Audit) -> m::Res {
    match r {
        Ok(e) => m::Res::Ok(Box::new(email(e, a))),
        Err(e @ Error::DuplicateHeader(n)) => m::Res::Dup(named(e, n)),
        Err(e @ Error::MissingHeader(n)) => m::Res::Missing(named(e, n)),
        Err(_) => m::Res::Err,
    }
}

#[cfg(feature = "mime")]
pub fn parsed_entity(r: &Result<email_parser::mime::Entity, Error>, a: &mut Audit) -> m::EntRes {
    use email_parser::mime::Entity as E;
    match r {
        Ok(E::Multipart { subtype, content }) => {
            let s = a.s(subtype);
            m::EntRes::Multipart(s, content.iter().map(|e| entity(e, a)).collect())
        }
        Ok(E::Text { subtype, value }) => {
            let s = a.s(subtype);
            m::EntRes::Text(s, a.s(value))
        }
        Ok(E::Unknown) => m::EntRes::Unknown,
        Err(_) => m::EntRes::Err,
    }
}

/// What `parse_message` gives: the trace blocks (Debug form), the other fields in order, the body. A trace
/// block behind another field, which the library never makes, shows up as a field of its own.
#[derive(Debug, PartialEq)]
pub struct LowObs {
    pub trace: Vec<String>,
    pub fields: Vec<m::F>,
    pub body: Option<Vec<u8>>,
}
pub fn low(data: &[u8], a: &mut Audit) -> Option<LowObs> {
    let (fields, body) = email_parser::parse_message(data).ok()?;
    let mut o = LowObs { trace: vec![], fields: vec![], body: None };
    for f in &fields {
        let f = field(f, a);
        match f {
            Ok(f) => o.fields.push(f),
            Err(t) if o.fields.is_empty() => o.trace.push(t),
            Err(t) => o.fields.push(m::F::Unknown("a trace block after another field".into(), t)),
        }
    }
    #[cfg(feature = "mime")]
    if let Some(b) = body {
        a.place(b);
        o.body = Some(b.to_vec());
    }
    #[cfg(not(feature = "mime"))]
    if let Some(b) = body {
        o.body = Some(a.s(&b).into_bytes());
    }
    Some(o)
}
fn field(f: &Field, a: &mut Audit) -> Result<m::F, String> {
    use m::F;
    Ok(match f {
        #[cfg(feature = "date")]
        Field::Date(d) => F::Date(date_time(d)),
        #[cfg(any(feature = "from", feature = "sender"))]
        Field::From(x) => F::From(a.mailboxes(x)),
        #[cfg(feature = "sender")]
        Field::Sender(x) => F::Sender(a.mailbox(x)),
        #[cfg(feature = "reply-to")]
        Field::ReplyTo(x) => F::ReplyTo(a.addresses(x)),
        #[cfg(feature = "to")]
        Field::To(x) => F::To(a.addresses(x)),
        #[cfg(feature = "cc")]
        Field::Cc(x) => F::Cc(a.addresses(x)),
        #[cfg(feature = "bcc")]
        Field::Bcc(x) => F::Bcc(a.addresses(x)),
        #[cfg(feature = "message-id")]
        Field::MessageId(x) => F::MessageId(a.pair(x)),
        #[cfg(feature = "in-reply-to")]
        Field::InReplyTo(x) => F::InReplyTo(a.ids(x)),
        #[cfg(feature = "references")]
        Field::References(x) => F::References(a.ids(x)),
        #[cfg(feature = "subject")]
        Field::Subject(x) => F::Subject(a.s(x)),
        #[cfg(feature = "comments")]
        Field::Comments(x) => F::Comments(a.s(x)),
        #[cfg(feature = "keywords")]
        Field::Keywords(x) => F::Keywords(x.iter().map(|k| k.iter().map(|w| a.s(w)).collect()).collect()),
        #[cfg(feature = "mime")]
        Field::MimeVersion(x, y) => F::MimeVersion(*x, *y),
        #[cfg(feature = "mime")]
        Field::ContentType { mime_type, subtype, parameters } => {
            F::ContentType((ctype_name(mime_type, a), a.s(subtype), parameters.iter().map(|(k, v)| (a.s(k), a.s(v))).collect()))
        }
        #[cfg(feature = "mime")]
        Field::ContentTransferEncoding(x) => {
            use email_parser::mime::ContentTransferEncoding as E;
            F::Cte(match x {
                E::SevenBit => "7bit".into(),
                E::HeightBit => "8bit".into(),
                E::Binary => "binary".into(),
                E::QuotedPrintable => "quoted-printable".into(),
                E::Base64 => "base64".into(),
                E::Unknown(x) => {
                    let t = a.s(x);
                    if ["7bit", "8bit", "binary", "quoted-printable", "base64"].contains(&&t[..]) {
                        format!("unknown:{}", t)
                    } else {
                        t
                    }
                }
            })
        }
        #[cfg(feature = "mime")]
        Field::ContentId(x) => F::ContentId(a.pair(x)),
        #[cfg(feature = "mime")]
        Field::ContentDescription(x) => F::ContentDescription(a.s(x)),
        #[cfg(feature = "content-disposition")]
        Field::ContentDisposition(x) => F::Disposition(disposition(x, a)),
        #[cfg(feature = "trace")]
        Field::Trace { return_path, received, fields } => return Err(format!("{:?}", (return_path, received, fields))),
        Field::Unknown { name, value } => F::Unknown(a.strref(name), a.s(value)),
    })
}
