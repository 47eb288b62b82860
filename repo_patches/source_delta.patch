From 30cbcab87300bda5c6f1ff97795ca60fb84ac0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 01/20] fix: do not recurse on nested comments

---
 email-parser/src/parsing/whitespaces.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index 928f41f..3bd266a 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -37,21 +37,32 @@ pub fn ccontent(input: &[u8]) -> Res<Cow<str>> {
                 Ok((input, Cow::Borrowed(value)))
             }) as fn(input: &[u8]) -> Res<Cow<str>>,
             quoted_pair,
-            comment,
         ][..],
     )
 }
 
 #[inline]
 pub fn comment(input: &[u8]) -> Res<Cow<str>> {
-    let (input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
+    let (mut input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
 
-    let (input, _) = ignore_many(input, |input| {
-        pair(input, |i| Ok(optional(i, fws)), ccontent)
-    })?;
+    // Comments nest: the depth is counted, since recursing would let the input decide how much stack is used.
+    let mut depth = 1usize;
+    while depth > 0 {
+        input = optional(input, fws).0;
 
-    let (input, _) = optional(input, fws);
-    let (input, ()) = tag(input, b")", "TAG ERROR: A comment must end with a `)`.")?;
+        if let Ok((new_input, ())) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")
+        {
+            depth += 1;
+            input = new_input;
+        } else if let Ok((new_input, ())) =
+            tag(input, b")", "TAG ERROR: A comment must end with a `)`.")
+        {
+            depth -= 1;
+            input = new_input;
+        } else {
+            input = ccontent(input)?.0;
+        }
+    }
 
     Ok((input, empty_string()))
 }
-- 
2.43.0


From fb8f3a66c86d21127e0d0a6d5988a31dac7288af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 02/20] fix: accept trailing white spaces in structured headers

---
 email-parser/src/parsing/whitespaces.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index 3bd266a..1d4c2bb 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -95,7 +95,7 @@ pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
             }
         }
 
-        let (input, fws) = optional(input, fws);
+        let (input, fws) = optional(input, fws_or_wsp);
         if let Some(s) = fws {
             add_string(&mut output, s);
         }
@@ -103,7 +103,19 @@ pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
         Ok((input, output))
     }
 
-    match_parsers(input, &mut [real_cfws, fws][..])
+    // The CRLF sequence following white spaces is not always a folding, it may also be the end of the header.
+    fn fws_or_wsp(input: &[u8]) -> Res<Cow<str>> {
+        fn wsp(input: &[u8]) -> Res<Cow<str>> {
+            take_while1(input, is_wsp).map(|(i, s)| (i, Cow::Borrowed(s)))
+        }
+
+        match_parsers(input, &mut [fws as fn(input: &[u8]) -> Res<Cow<str>>, wsp][..])
+    }
+
+    match_parsers(
+        input,
+        &mut [real_cfws as fn(input: &[u8]) -> Res<Cow<str>>, fws_or_wsp][..],
+    )
 }
 
 #[cfg(test)]
-- 
2.43.0


From b8db56430d7be69d6b51b21753c5732e37181da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 03/20] fix: accept years from 1900 on

---
 email-parser/src/parsing/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/time.rs b/email-parser/src/parsing/time.rs
index e90fca3..cd281d7 100644
--- a/email-parser/src/parsing/time.rs
+++ b/email-parser/src/parsing/time.rs
@@ -68,8 +68,8 @@ pub fn year(input: &[u8]) -> Res<usize> {
         .parse()
         .map_err(|_e| Error::Unknown("Failed to parse year"))?;
 
-    if year < 1990 {
-        return Err(Error::Unknown("year must be after 1990"));
+    if year < 1900 {
+        return Err(Error::Unknown("year must be 1900 or later"));
     }
 
     let (input, _) = fws(input)?;
-- 
2.43.0


From 1bbf738457dbe9578a30457583a2660b18194fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 04/20] fix: reject day 0 in dates

---
 email-parser/src/parsing/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/time.rs b/email-parser/src/parsing/time.rs
index cd281d7..243feca 100644
--- a/email-parser/src/parsing/time.rs
+++ b/email-parser/src/parsing/time.rs
@@ -85,8 +85,8 @@ pub fn day(input: &[u8]) -> Res<u8> {
         day += digit;
         input = new_input;
     }
-    if day > 31 {
-        return Err(Error::Unknown("day must be less than 31"));
+    if day == 0 || day > 31 {
+        return Err(Error::Unknown("day must be between 1 and 31"));
     }
     let (input, _) = fws(input)?;
     Ok((input, day))
-- 
2.43.0


From e05509764f88e657d8790a134d1666e79ea64f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 05/20] fix: accept a completely empty Bcc header

---
 email-parser/src/parsing/fields.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index 8a47b9d..1291398 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -278,10 +278,8 @@ pub fn bcc(input: &[u8]) -> Res<Vec<Address>> {
     )?;
     let (input, mailbox) = if let Ok((input, list)) = address_list(input) {
         (input, list)
-    } else if let Ok((input, _cfws)) = cfws(input) {
-        (input, Vec::new())
     } else {
-        return Err(Error::Unknown("Invalid bcc field"));
+        (optional(input, cfws).0, Vec::new())
     };
     let (input, ()) = tag(
         input,
-- 
2.43.0


From 4243ab04f3ac2bc4df8bb70808a960193c55f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 06/20] fix: recognize addresses without angle brackets in
 Received headers

---
 email-parser/src/parsing/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index 1291398..22f5cba 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -540,7 +540,9 @@ pub fn received(input: &[u8]) -> Res<(Vec<ReceivedToken>, DateTime)> {
         "TAG NO CASE ERROR: Header name (Received) does not match.",
     )?;
     let (input, received_tokens) = many(input, |input| {
-        if let Ok((word_input, word)) = word(input) {
+        if let Ok((input, addr)) = addr_spec(input) {
+            Ok((input, ReceivedToken::Addr(addr)))
+        } else if let Ok((word_input, word)) = word(input) {
             if let Ok((domain_input, domain)) = domain(input) {
                 if domain.len() > word.len() {
                     return Ok((domain_input, ReceivedToken::Domain(domain)));
@@ -549,8 +551,6 @@ pub fn received(input: &[u8]) -> Res<(Vec<ReceivedToken>, DateTime)> {
             Ok((word_input, ReceivedToken::Word(word)))
         } else if let Ok((input, addr)) = angle_addr(input) {
             Ok((input, ReceivedToken::Addr(addr)))
-        } else if let Ok((input, addr)) = addr_spec(input) {
-            Ok((input, ReceivedToken::Addr(addr)))
         } else if let Ok((input, domain)) = domain(input) {
             Ok((input, ReceivedToken::Domain(domain)))
         } else {
-- 
2.43.0


From de7b233e17649c4dcb692a8b3da2fa8b5732888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 07/20] fix: decode encoded words that follow a comment in
 phrases

---
 email-parser/src/parsing/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/email-parser/src/parsing/common.rs b/email-parser/src/parsing/common.rs
index cc2544b..b339914 100644
--- a/email-parser/src/parsing/common.rs
+++ b/email-parser/src/parsing/common.rs
@@ -82,7 +82,7 @@ pub fn phrase(input: &[u8]) -> Result<(&[u8], Vec<Cow<str>>), Error> {
             input,
             &mut [
                 (|i| {
-                    let (i, _) = optional(i, fws);
+                    let (i, _) = optional(i, cfws);
                     crate::parsing::mime::encoded_headers::encoded_word(i)
                 }),
                 (|i| crate::parsing::common::word(i)),
-- 
2.43.0


From 8ec543cd94e228bb294044da5271f606625d92f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 08/20] fix: compile the mime feature without
 content-disposition

---
 email-parser/src/parsing/mime/entity.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index 86ab886..260cb33 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -34,6 +34,7 @@ pub fn raw_entity(mut input: Cow<[u8]>) -> Result<RawEntity, Error> {
         description,
         id,
         parameters,
+        #[cfg(feature = "content-disposition")]
         disposition,
         value,
         additional_headers,
-- 
2.43.0


From a82a0f50d4013e0ab17bf39b1250c8b8951b9e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 09/20] fix: compile the sender feature without from

---
 email-parser/src/email.rs          | 8 +++++---
 email-parser/src/parsing/fields.rs | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/email-parser/src/email.rs b/email-parser/src/email.rs
index 164e667..956d7a3 100644
--- a/email-parser/src/email.rs
+++ b/email-parser/src/email.rs
@@ -98,8 +98,8 @@ impl<'a> Email<'a> {
     pub fn parse(data: &'a [u8]) -> Result<Email<'a>, Error> {
         let (fields, body) = crate::parse_message(data)?;
 
-        #[cfg(feature = "from")]
-        let mut from = None;
+        #[cfg(any(feature = "from", feature = "sender"))]
+        let mut from: Option<Vec<Mailbox>> = None;
         #[cfg(feature = "sender")]
         let mut sender = None;
         #[cfg(feature = "subject")]
@@ -143,7 +143,7 @@ impl<'a> Email<'a> {
 
         for field in fields {
             match field {
-                #[cfg(feature = "from")]
+                #[cfg(any(feature = "from", feature = "sender"))]
                 Field::From(mailboxes) => {
                     if from.is_none() {
                         from = Some(mailboxes)
@@ -305,6 +305,8 @@ impl<'a> Email<'a> {
 
         #[cfg(feature = "from")]
         let from = from.ok_or(Error::MissingHeader("From"))?;
+        #[cfg(all(feature = "sender", not(feature = "from")))]
+        let from = from.unwrap_or_default();
         #[cfg(feature = "date")]
         let date = date.ok_or(Error::MissingHeader("Date"))?;
 
diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index 22f5cba..207a7b7 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -20,7 +20,7 @@ pub enum TraceField<'a> {
 pub enum Field<'a> {
     #[cfg(feature = "date")]
     Date(DateTime),
-    #[cfg(feature = "from")]
+    #[cfg(any(feature = "from", feature = "sender"))]
     From(Vec<Mailbox<'a>>),
     #[cfg(feature = "sender")]
     Sender(Mailbox<'a>),
@@ -110,7 +110,7 @@ pub fn fields(mut input: &[u8]) -> Res<Vec<Field>> {
         &mut [
             #[cfg(feature = "date")]
             |i| date(i).map(|(i, v)| (i, Field::Date(v))),
-            #[cfg(feature = "from")]
+            #[cfg(any(feature = "from", feature = "sender"))]
             |i| from(i).map(|(i, v)| (i, Field::From(v))),
             #[cfg(feature = "sender")]
             |i| sender(i).map(|(i, v)| (i, Field::Sender(v))),
-- 
2.43.0


From 29500a9572d8247f4faa47e1d7bcbb338265cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 10/20] fix: accept any comments and folding white spaces at
 the end of MIME headers

---
 email-parser/src/parsing/mime/mime_fields.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index 06660c4..7fa046e 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -4,14 +4,8 @@ use std::borrow::Cow;
 use std::collections::HashMap;
 
 #[inline]
-fn ignore_inline_cfws(input: &[u8]) -> Res<()> {
-    triplet(
-        input,
-        |input| take_while(input, is_wsp),
-        |input| Ok(optional(input, comment)),
-        |input| take_while(input, is_wsp),
-    )
-    .map(|(i, _)| (i, ()))
+fn ignore_cfws(input: &[u8]) -> Res<()> {
+    Ok((optional(input, cfws).0, ()))
 }
 
 #[inline]
@@ -54,7 +48,7 @@ pub fn mime_version(input: &[u8]) -> Res<(u8, u8)> {
     )?;
     let (input, d2) = u8_number(input)?;
 
-    let (input, _cwfs) = ignore_inline_cfws(input)?;
+    let (input, _cwfs) = ignore_cfws(input)?;
     let (input, ()) = tag(
         input,
         b"\r\n",
@@ -234,7 +228,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
     let (input, parameters_vec) = many(input, parameter)?;
     let parameters = super::percent_encoding::collect_parameters(parameters_vec)?;
 
-    let (input, ()) = ignore_inline_cfws(input)?;
+    let (input, ()) = ignore_cfws(input)?;
     let (input, ()) = tag(
         input,
         b"\r\n",
@@ -348,7 +342,7 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
     }
     disposition.unstructured = super::percent_encoding::collect_parameters(parameters_vec)?;
 
-    let (input, ()) = ignore_inline_cfws(input)?;
+    let (input, ()) = ignore_cfws(input)?;
     let (input, ()) = tag(
         input,
         b"\r\n",
@@ -399,7 +393,7 @@ pub fn content_transfer_encoding(input: &[u8]) -> Res<ContentTransferEncoding> {
         ][..],
     )?;
 
-    let (input, _cwfs) = ignore_inline_cfws(input)?;
+    let (input, _cwfs) = ignore_cfws(input)?;
     let (input, ()) = tag(input, b"\r\n", "TAG ERROR: A header (`Content-Transfer-Encoding` in this case) must end with a CRLF sequence.")?;
 
     Ok((input, encoding))
-- 
2.43.0


From 71f2b9dcdaef6ec21756563dc5a078f2e0634a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 11/20] fix: decode percent-encoded parameters only once

---
 email-parser/src/parsing/mime/percent_encoding.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 643fb9f..ee4fd97 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -35,7 +35,8 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
 
     let mut percents = Vec::new();
     for (idx, byte) in input.iter().enumerate() {
-        if *byte == b'%' {
+        // Escape sequences are located before anything is decoded, so that decoded bytes can never form a new one.
+        if *byte == b'%' && input.iter().skip(idx + 1).take(2).all(u8::is_ascii_hexdigit) {
             percents.push(idx);
         }
     }
-- 
2.43.0


From 8e23895cb293d77b1ac0199a613aef2196b43cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 12/20] fix: decode extended parameters that are not split

---
 email-parser/src/parsing/mime/percent_encoding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index ee4fd97..6d0d6ab 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -102,6 +102,8 @@ pub fn collect_parameters<'a>(
     let mut parameters: HashMap<_, _> = HashMap::new();
     let mut complex_parameters: HashMap<_, HashMap<_, _>> = HashMap::new();
     for (name, index, encoded, value) in parameters_vec {
+        // An extended value that is not split into pieces has no index.
+        let index = if encoded { index.or(Some(0)) } else { index };
         if let Some(index) = index {
             if !complex_parameters.contains_key(&name) {
                 complex_parameters.insert(name.clone(), HashMap::new());
-- 
2.43.0


From d630ca129668b91665a642a455348783d86b6420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 13/20] fix: do not overflow on parameters split into 256
 pieces

---
 email-parser/src/parsing/mime/percent_encoding.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 6d0d6ab..e44bb3f 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -178,7 +178,10 @@ pub fn collect_parameters<'a>(
                 } else {
                     add_string(&mut value, new_value);
                 }
-                idx += 1;
+                match idx.checked_add(1) {
+                    Some(next) => idx = next,
+                    None => break,
+                }
             }
 
             parameters.insert(Cow::Owned(name.clone().into_owned()), value);
-- 
2.43.0


From bc86d9d79870dce4bac3a13dbf0af17ad24e3fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 14/20] fix: do not panic on undefined ISO 6937 codes

---
 email-parser/src/parsing/mime/encoded_headers.rs  | 12 +++++++++++-
 email-parser/src/parsing/mime/entity.rs           |  3 ++-
 email-parser/src/parsing/mime/percent_encoding.rs |  2 +-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/mime/encoded_headers.rs b/email-parser/src/parsing/mime/encoded_headers.rs
index e8d3fcf..71194d7 100644
--- a/email-parser/src/parsing/mime/encoded_headers.rs
+++ b/email-parser/src/parsing/mime/encoded_headers.rs
@@ -43,6 +43,16 @@ fn encoded_text(input: &[u8]) -> Res<&str> {
     take_while1(input, |c| c > 0x20 && c <= 0x7E && c != b'?')
 }
 
+/// Decodes ISO 6937 text.\
+/// `textcode` panics on the codes from 0x80 to 0x9F. They are undefined, just as 0xC0 that it does handle.
+pub fn decode_iso6937(input: &[u8]) -> String {
+    let input: Vec<u8> = input
+        .iter()
+        .map(|c| if matches!(c, 0x80..=0x9F) { 0xC0 } else { *c })
+        .collect();
+    textcode::iso6937::decode_to_string(&input)
+}
+
 pub fn encoded_word(input: &[u8]) -> Res<Cow<str>> {
     let (input, _) = tag(
         input,
@@ -106,7 +116,7 @@ pub fn encoded_word(input: &[u8]) -> Res<Cow<str>> {
         "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&value)),
         "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&value)),
         "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&value)),
-        "iso-6937" => Cow::Owned(iso6937::decode_to_string(&value)),
+        "iso-6937" => Cow::Owned(decode_iso6937(&value)),
         "gb2312" => Cow::Owned(gb2312::decode_to_string(&value)),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index 260cb33..98b855e 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -2,6 +2,7 @@ use crate::{parsing::fields::unknown, prelude::*};
 use std::borrow::Cow;
 use std::collections::HashMap;
 
+use super::encoded_headers::decode_iso6937;
 use super::multipart;
 
 pub fn raw_entity(mut input: Cow<[u8]>) -> Result<RawEntity, Error> {
@@ -77,7 +78,7 @@ pub fn entity<'a>(raw_entity: &'a RawEntity<'a>) -> Result<Entity<'a>, Error> {
                 "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&raw_entity.value)),
                 "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&raw_entity.value)),
                 "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&raw_entity.value)),
-                "iso-6937" => Cow::Owned(iso6937::decode_to_string(&raw_entity.value)),
+                "iso-6937" => Cow::Owned(decode_iso6937(&raw_entity.value)),
                 "gb2312" => Cow::Owned(gb2312::decode_to_string(&raw_entity.value)),
                 _ => return Ok(Entity::Unknown),
             };
diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index e44bb3f..8e205ab 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -88,7 +88,7 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         "iso-8859-14" => iso8859_14::decode_to_string(&input),
         "iso-8859-15" => iso8859_15::decode_to_string(&input),
         "iso-8859-16" => iso8859_16::decode_to_string(&input),
-        "iso-6937" => iso6937::decode_to_string(&input),
+        "iso-6937" => super::encoded_headers::decode_iso6937(&input),
         "gb2312" => gb2312::decode_to_string(&input),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
-- 
2.43.0


From 7deb1c73f96d0bc704d5edbb3145ab3734a4ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 15/20] fix: do not take the beginning of an unknown MIME token
 for a known one

---
 email-parser/src/parsing/mime/mime_fields.rs | 43 +++++++++++++-------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index 7fa046e..1cc8d36 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -15,6 +15,21 @@ fn token(input: &[u8]) -> Res<&str> {
     })
 }
 
+/// Matches a whole token, and not only the beginning of one.
+#[inline]
+fn token_no_case<'a>(
+    input: &'a [u8],
+    expected: &'static [u8],
+    expected_uppercase: &'static [u8],
+    error: &'static str,
+) -> Res<'a, ()> {
+    let (input, ()) = tag_no_case(input, expected, expected_uppercase, error)?;
+    if token(input).is_ok() {
+        return Err(Error::Unknown(error));
+    }
+    Ok((input, ()))
+}
+
 pub fn mime_version(input: &[u8]) -> Res<(u8, u8)> {
     let (input, ()) = tag_no_case(
         input,
@@ -151,7 +166,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
         input,
         &mut [
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"text",
                     b"TEXT",
@@ -160,7 +175,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Text))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"multipart",
                     b"MULTIPART",
@@ -169,11 +184,11 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Multipart))
             },
             |input| {
-                tag_no_case(input, b"application", b"APPLICATION", "TAG NO CASE ERROR: In a content type header, `application` type does not match.")
+                token_no_case(input, b"application", b"APPLICATION", "TAG NO CASE ERROR: In a content type header, `application` type does not match.")
                     .map(|(i, ())| (i, ContentType::Application))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"image",
                     b"IMAGE",
@@ -182,7 +197,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Image))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"video",
                     b"VIDEO",
@@ -191,7 +206,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Video))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"audio",
                     b"AUDIO",
@@ -200,7 +215,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Audio))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"message",
                     b"MESSAGE",
@@ -253,10 +268,10 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
         input,
         &mut [
             |input| {
-                tag_no_case(input, b"inline", b"INLINE", "TAG NO CASE ERROR: In a content disposition header, `inline` disposition does not match.").map(|(i, ())| (i, DispositionType::Inline))
+                token_no_case(input, b"inline", b"INLINE", "TAG NO CASE ERROR: In a content disposition header, `inline` disposition does not match.").map(|(i, ())| (i, DispositionType::Inline))
             },
             |input| {
-                tag_no_case(input, b"attachment", b"ATTACHMENT", "TAG NO CASE ERROR: In a content disposition header, `attachment` disposition does not match.")
+                token_no_case(input, b"attachment", b"ATTACHMENT", "TAG NO CASE ERROR: In a content disposition header, `attachment` disposition does not match.")
                     .map(|(i, ())| (i, DispositionType::Attachment))
             },
             |input| {
@@ -365,23 +380,23 @@ pub fn content_transfer_encoding(input: &[u8]) -> Res<ContentTransferEncoding> {
         input,
         &mut [
             |input| {
-                tag_no_case(input, b"7bit", b"7BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `7bit` encoding does not match.")
+                token_no_case(input, b"7bit", b"7BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `7bit` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::SevenBit))
             },
             |input| {
-                tag_no_case(input, b"quoted-printable", b"QUOTED-PRINTABLE", "TAG NO CASE ERROR: In a content transfer encoding header, `quoted-printable` encoding does not match.")
+                token_no_case(input, b"quoted-printable", b"QUOTED-PRINTABLE", "TAG NO CASE ERROR: In a content transfer encoding header, `quoted-printable` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::QuotedPrintable))
             },
             |input| {
-                tag_no_case(input, b"base64", b"BASE64", "TAG NO CASE ERROR: In a content transfer encoding header, `base64` encoding does not match.")
+                token_no_case(input, b"base64", b"BASE64", "TAG NO CASE ERROR: In a content transfer encoding header, `base64` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::Base64))
             },
             |input| {
-                tag_no_case(input, b"8bit", b"8BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `8bit` encoding does not match.")
+                token_no_case(input, b"8bit", b"8BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `8bit` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::HeightBit))
             },
             |input| {
-                tag_no_case(input, b"binary", b"BINARY", "TAG NO CASE ERROR: In a content transfer encoding header, `binary` encoding does not match.")
+                token_no_case(input, b"binary", b"BINARY", "TAG NO CASE ERROR: In a content transfer encoding header, `binary` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::Binary))
             },
             |input| {
-- 
2.43.0


From b41e73e4f8aad23499d0648605e33c0f393a481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 16/20] fix: accept a closing boundary at the very end of a
 multipart

---
 email-parser/src/parsing/mime/multipart.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/mime/multipart.rs b/email-parser/src/parsing/mime/multipart.rs
index 82c6123..cf65fe4 100644
--- a/email-parser/src/parsing/mime/multipart.rs
+++ b/email-parser/src/parsing/mime/multipart.rs
@@ -49,9 +49,15 @@ fn before_closing_boundary_idx(input: &[u8], boundary: &[u8]) -> Result<(usize,
         // FIXME: ignore whitespaces after the boundary
         if input.get(idx..idx + 4) == Some(b"\r\n--")
             && input.get(idx + 4..idx + 4 + boundary.len()) == Some(boundary)
-            && input.get(idx + 4 + boundary.len()..idx + full_boundary_len) == Some(b"--\r\n")
         {
-            return Ok((idx, full_boundary_len));
+            // There may be no epilogue at all.
+            match input.get(idx + 4 + boundary.len()..) {
+                Some(b"--") => return Ok((idx, full_boundary_len - 2)),
+                Some(after) if after.starts_with(b"--\r\n") => {
+                    return Ok((idx, full_boundary_len))
+                }
+                _ => (),
+            }
         }
     }
 
-- 
2.43.0


From a943d5a3b1e5e4fb4061d6001d80cc5439eb4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 17/20] fix: ignore boundaries in the epilogue of a multipart

---
 email-parser/src/parsing/mime/multipart.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/email-parser/src/parsing/mime/multipart.rs b/email-parser/src/parsing/mime/multipart.rs
index cf65fe4..3dec15a 100644
--- a/email-parser/src/parsing/mime/multipart.rs
+++ b/email-parser/src/parsing/mime/multipart.rs
@@ -87,7 +87,14 @@ pub fn parse_multipart<'a>(
     let boundary = parameters
         .get("boundary")
         .ok_or(Error::Unknown("Missing boundary parameter"))?;
-    let (input, mut parts) = many(&input, |i| before_boundary(i, boundary.as_bytes()))?;
+    let (input, mut parts) = many(&input, |i| {
+        let (after, part) = before_boundary(i, boundary.as_bytes())?;
+        // Everything that follows the closing boundary is the epilogue.
+        match before_closing_boundary_idx(&i[..part.len() + 2], boundary.as_bytes()) {
+            Ok(_) => Err(Error::Unknown("boundary found in the epilogue")),
+            Err(_) => Ok((after, part)),
+        }
+    })?;
     let (_epilogue, last_part) = before_closing_boundary(input, boundary.as_bytes())?;
     parts.push(last_part);
     parts.remove(0); // the prelude
-- 
2.43.0


From 368195c54e8e5519fe60e9c463a77440df05f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 18/20] fix: allow white spaces and comments after encoded
 words in phrases

---
 email-parser/src/parsing/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/email-parser/src/parsing/common.rs b/email-parser/src/parsing/common.rs
index b339914..b971f29 100644
--- a/email-parser/src/parsing/common.rs
+++ b/email-parser/src/parsing/common.rs
@@ -83,7 +83,9 @@ pub fn phrase(input: &[u8]) -> Result<(&[u8], Vec<Cow<str>>), Error> {
             &mut [
                 (|i| {
                     let (i, _) = optional(i, cfws);
-                    crate::parsing::mime::encoded_headers::encoded_word(i)
+                    let (i, word) = crate::parsing::mime::encoded_headers::encoded_word(i)?;
+                    let (i, _) = optional(i, cfws);
+                    Ok((i, word))
                 }),
                 (|i| crate::parsing::common::word(i)),
             ][..],
-- 
2.43.0


From 087fca48c637aa6fec49cb69e0164124aa7492db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 19/20] fix: decode quoted-printable text in linear time

Every escape moved the whole rest of the text (Vec::remove), so that a body or an encoded word of n escapes took
time proportional to n squared.
---
 .../src/parsing/mime/quoted_printables.rs     | 59 +++++++++----------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/email-parser/src/parsing/mime/quoted_printables.rs b/email-parser/src/parsing/mime/quoted_printables.rs
index 6511252..43759fc 100644
--- a/email-parser/src/parsing/mime/quoted_printables.rs
+++ b/email-parser/src/parsing/mime/quoted_printables.rs
@@ -58,18 +58,20 @@ pub fn encode_qp(mut data: Vec<u8>) -> Vec<u8> {
     data
 }
 
-pub fn decode_qp(mut data: Vec<u8>) -> Vec<u8> {
+pub fn decode_qp(data: Vec<u8>) -> Vec<u8> {
+    let mut decoded = Vec::with_capacity(data.len());
     let mut idx = 0;
 
     while let Some(byte) = data.get(idx) {
         if litteral_repr_possible(byte) || byte == &b' ' || byte == &b'\t' {
+            decoded.push(*byte);
             idx += 1;
         } else if byte == &b'=' {
             if data.get(idx + 1) == Some(&b'\r') && data.get(idx + 2) == Some(&b'\n') {
-                data.drain(idx..idx + 3);
+                idx += 3;
             } else if data.len() > idx + 2 {
-                let first = data.remove(idx + 1);
-                let second = data.remove(idx + 1);
+                let first = data[idx + 1];
+                let second = data[idx + 2];
 
                 fn from_hex(n: u8) -> Option<u8> {
                     match n {
@@ -81,43 +83,41 @@ pub fn decode_qp(mut data: Vec<u8>) -> Vec<u8> {
                 }
 
                 if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                    data[idx] = first * 16 + second;
-                    idx += 1;
+                    decoded.push(first * 16 + second);
                 } else {
-                    data[idx] = 189;
-                    data.insert(idx, 191);
-                    data.insert(idx, 239);
-                    idx += 3;
+                    decoded.extend_from_slice(&[239, 191, 189]);
                 }
+                idx += 3;
             } else {
+                decoded.push(b'=');
                 idx += 1;
             }
         } else if byte == &b'\r' && data.get(idx + 1) == Some(&b'\n') {
+            decoded.extend_from_slice(b"\r\n");
             idx += 2;
         } else {
-            data[idx] = 189;
-            data.insert(idx, 191);
-            data.insert(idx, 239);
-            idx += 3;
+            decoded.extend_from_slice(&[239, 191, 189]);
+            idx += 1;
         }
     }
 
-    data
+    decoded
 }
 
-pub fn decode_header_qp(mut data: Vec<u8>) -> Vec<u8> {
+pub fn decode_header_qp(data: Vec<u8>) -> Vec<u8> {
+    let mut decoded = Vec::with_capacity(data.len());
     let mut idx = 0;
 
     while let Some(byte) = data.get(idx).copied() {
         if byte == b'_' {
-            data[idx] = 0x20;
+            decoded.push(0x20);
             idx += 1;
         } else if byte == b'=' {
             if data.get(idx + 1) == Some(&b'\r') && data.get(idx + 2) == Some(&b'\n') {
-                data.drain(idx..idx + 3);
+                idx += 3;
             } else if data.len() > idx + 2 {
-                let first = data.remove(idx + 1);
-                let second = data.remove(idx + 1);
+                let first = data[idx + 1];
+                let second = data[idx + 2];
 
                 fn from_hex(n: u8) -> Option<u8> {
                     match n {
@@ -129,28 +129,25 @@ pub fn decode_header_qp(mut data: Vec<u8>) -> Vec<u8> {
                 }
 
                 if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                    data[idx] = first * 16 + second;
-                    idx += 1;
+                    decoded.push(first * 16 + second);
                 } else {
-                    data[idx] = 189;
-                    data.insert(idx, 191);
-                    data.insert(idx, 239);
-                    idx += 3;
+                    decoded.extend_from_slice(&[239, 191, 189]);
                 }
+                idx += 3;
             } else {
+                decoded.push(b'=');
                 idx += 1;
             }
         } else if byte >= 0x20 && byte <= 0x7E {
+            decoded.push(byte);
             idx += 1;
         } else {
-            data[idx] = 189;
-            data.insert(idx, 191);
-            data.insert(idx, 239);
-            idx += 3;
+            decoded.extend_from_slice(&[239, 191, 189]);
+            idx += 1;
         }
     }
 
-    data
+    decoded
 }
 
 #[cfg(test)]
-- 
2.43.0


From 27f4640fb4131e68bac7be0c696f982a18918532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 20/20] fix: decode percent-encoded parameters in linear time

Every escape moved the whole rest of the value (Vec::remove, twice).
---
 .../src/parsing/mime/percent_encoding.rs      | 33 +++++++------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 8e205ab..53e55c4 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -1,7 +1,7 @@
 use crate::prelude::*;
 use std::{borrow::Cow, collections::HashMap};
 
-pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String, Error> {
+pub fn decode_parameter(input: Vec<u8>, charset: Cow<str>) -> Result<String, Error> {
     if ![
         "utf-8",
         "us-ascii",
@@ -33,15 +33,9 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         return Ok(unsafe { String::from_utf8_unchecked(input.to_vec()) });
     }
 
-    let mut percents = Vec::new();
-    for (idx, byte) in input.iter().enumerate() {
-        // Escape sequences are located before anything is decoded, so that decoded bytes can never form a new one.
-        if *byte == b'%' && input.iter().skip(idx + 1).take(2).all(u8::is_ascii_hexdigit) {
-            percents.push(idx);
-        }
-    }
-
-    for percent in percents.iter().rev() {
+    let mut decoded = Vec::with_capacity(input.len());
+    let mut idx = 0;
+    while let Some(byte) = input.get(idx) {
         fn from_hex(n: &u8) -> Option<u8> {
             match n {
                 b'0'..=b'9' => Some(n - b'0'),
@@ -51,22 +45,17 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
             }
         }
 
-        if let (Some(first), Some(second)) = (input.get(percent + 1), input.get(percent + 2)) {
+        if let (b'%', Some(first), Some(second)) = (byte, input.get(idx + 1), input.get(idx + 2)) {
             if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                let n = first * 16 + second;
-                // JUSTIFICATION
-                //  Benefit
-                //      Improve performances by avoiding useless index checks.
-                //  Correctness:
-                //      We never delete items before `percent`. Since `percent` is decreasing, there is always an item at this index.
-                unsafe {
-                    *input.get_unchecked_mut(*percent) = n;
-                }
-                input.remove(percent + 2);
-                input.remove(percent + 1);
+                decoded.push(first * 16 + second);
+                idx += 3;
+                continue;
             }
         }
+        decoded.push(*byte);
+        idx += 1;
     }
+    let input = decoded;
 
     use textcode::*;
     let text = match charset.as_ref() {
-- 
2.43.0

