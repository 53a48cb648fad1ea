From 0040e0f1e820df5c217394ace358494d069ec101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 1/4] fix: simple body canonicalization of a body of only empty
 lines is CRLF

RFC 6376, section 3.4.3 converts *CRLF at the end of the body to a single
CRLF. A body consisting solely of empty lines was canonicalized to the empty
string instead.
---
 src/canonicalize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/canonicalize.rs b/src/canonicalize.rs
index f832b5e..51b5f12 100644
--- a/src/canonicalize.rs
+++ b/src/canonicalize.rs
@@ -139,6 +139,7 @@ pub struct BodyCanonicalizer {
     state: CanonState,
     blank_line: bool,  // whether currently on an empty or blank line
     empty_lines: usize,  // number of empty lines seen
+    only_empty_lines: bool,  // whether only empty lines have been seen so far
 }
 
 impl BodyCanonicalizer {
@@ -148,6 +149,7 @@ impl BodyCanonicalizer {
             state: CanonState::Init,
             blank_line: true,
             empty_lines: 0,
+            only_empty_lines: true,
         }
     }
 
@@ -305,6 +307,8 @@ impl BodyCanonicalizer {
             CanonicalizationAlgorithm::Simple => {
                 match self.state {
                     CanonState::Init => CRLF.to_vec(),  // empty body is CRLF
+                    // body consisting of empty lines only is CRLF, too
+                    CanonState::CrLf if self.only_empty_lines => CRLF.to_vec(),
                     CanonState::CrLf => vec![],
                     CanonState::Cr => {
                         let mut result = vec![];
@@ -353,6 +357,7 @@ impl BodyCanonicalizer {
         }
         self.empty_lines = 0;
         self.blank_line = false;
+        self.only_empty_lines = false;
     }
 }
 
-- 
2.43.0


From 678ae1cb2d3c5489e8f7da56a623fe738d9abb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 2/4] fix: numeric signature tags l=, t=, x= are digits only

A leading plus sign is not allowed by RFC 6376, section 3.5, but was
accepted by u64's FromStr implementation.
---
 src/signature.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index c4011ec..f3bc911 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -957,8 +957,8 @@ impl DkimSignature {
                     identity = Some(value);
                 }
                 "l" => {
-                    let value = value.parse()
-                        .map_err(|_| DkimSignatureErrorKind::InvalidBodyLength)?;
+                    let value = parse_number(value)
+                        .ok_or(DkimSignatureErrorKind::InvalidBodyLength)?;
 
                     body_length = Some(value);
                 }
@@ -991,14 +991,14 @@ impl DkimSignature {
                     selector = Some(value);
                 }
                 "t" => {
-                    let value = value.parse()
-                        .map_err(|_| DkimSignatureErrorKind::InvalidTimestamp)?;
+                    let value = parse_number(value)
+                        .ok_or(DkimSignatureErrorKind::InvalidTimestamp)?;
 
                     timestamp = Some(value);
                 }
                 "x" => {
-                    let value = value.parse()
-                        .map_err(|_| DkimSignatureErrorKind::InvalidExpiration)?;
+                    let value = parse_number(value)
+                        .ok_or(DkimSignatureErrorKind::InvalidExpiration)?;
 
                     expiration = Some(value);
                 }
@@ -1075,6 +1075,16 @@ impl FromStr for DkimSignature {
     }
 }
 
+// §3.5: the values of tags l=, t=, and x= are digits only. (`u64::from_str`
+// would also accept a leading plus sign.)
+fn parse_number(s: &str) -> Option<u64> {
+    if s.bytes().all(|b| b.is_ascii_digit()) {
+        s.parse().ok()
+    } else {
+        None
+    }
+}
+
 struct CopiedHeadersDebug<'a>(&'a [(FieldName, Box<[u8]>)]);
 
 impl fmt::Debug for CopiedHeadersDebug<'_> {
-- 
2.43.0


From 2bf673438ee96bdda8f5fb481f97bcfea96364d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 3/4] fix: RSA public key size is the bit length of the modulus

The size was rounded up to whole bytes, so keys of 1017 to 1023 bits
passed as 1024 bits.
---
 src/crypto/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/rsa.rs b/src/crypto/rsa.rs
index 32cc1eb..98cd8c4 100644
--- a/src/crypto/rsa.rs
+++ b/src/crypto/rsa.rs
@@ -79,7 +79,7 @@ pub fn read_rsa_public_key(
 pub const MIN_KEY_BITS: usize = if cfg!(feature = "pre-rfc8301") { 512 } else { 1024 };
 
 pub fn get_public_key_size(k: &RsaPublicKey) -> usize {
-    k.size() * 8
+    k.n().bits()
 }
 
 /// Verifies an RSA signature for a given message byte slice.
-- 
2.43.0


From 4837be1023cbb2487ce0be29bce92def1ea3d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:59 +0000
Subject: [PATCH 4/4] fix: encode header field names in the z= tag

A field name containing '=' or '|' was written as is, giving a tag value
that did not parse back.
---
 src/signer/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/signer/format.rs b/src/signer/format.rs
index 17b72b1..20b229b 100644
--- a/src/signer/format.rs
+++ b/src/signer/format.rs
@@ -419,7 +419,11 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
         encode(value, Some('|'))
     };
 
-    let mut iter = value.iter().map(|(f, v)| (f.as_ref(), v));
+    // A field name may contain '=', '|', and ';', which must be encoded, too.
+    let mut iter = value.iter().map(|(f, v)| {
+        let name: &str = f.as_ref();
+        (quoted_printable::encode(name.as_bytes(), Some('|')), v)
+    });
 
     // ensure that z= plus the first header name (including ':') fit on the first line
 
-- 
2.43.0

