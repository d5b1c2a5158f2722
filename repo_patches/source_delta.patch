From 47037343e7c9258df4c4c5e9ebca672a9eab3a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:23 +0000
Subject: [PATCH 1/6] fix: apply the configured lookup timeout to key record
 lookups

The timeout around look_up_records had been commented out, so that
Config::lookup_timeout had no effect and a silent name server could
stall header verification forever.
---
 src/verifier/query.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/verifier/query.rs b/src/verifier/query.rs
index 84710ca..28a746a 100644
--- a/src/verifier/query.rs
+++ b/src/verifier/query.rs
@@ -73,15 +73,30 @@ impl QueriesBuilder {
             //     (indexes, result)
             // });
 
-            let f = look_up_records(&resolver,domain.as_ref(),selector.as_ref()).await;
-            // let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
-            // let result = match time::timeout(lookup_timeout, f).await {
-            //             Ok(r) => r,
-            //             Err(e) => Err(e.into()),
-            // };
-            
+            let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
+
+            // There is no timer on this target.
+            #[cfg(all(
+                target_arch = "wasm32",
+                target_vendor = "unknown",
+                target_os = "unknown"
+            ))]
+            let result = {
+                let _ = lookup_timeout;
+                f.await
+            };
+            #[cfg(not(all(
+                target_arch = "wasm32",
+                target_vendor = "unknown",
+                target_os = "unknown"
+            )))]
+            let result = match time::timeout(lookup_timeout, f).await {
+                Ok(r) => r,
+                Err(e) => Err(e.into()),
+            };
+
             set.push(
-                (indexes, f)
+                (indexes, result)
             );
         }
 
-- 
2.43.0


From 46ee5c9f0653454641dc5a8303d2e74344660d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:58 +0000
Subject: [PATCH 2/6] fix: encode header field names in the z= tag

A header field name may contain characters such as '|', '=' or ';' that
are special in the z= tag. Encode them as is already done for the value.
---
 src/signer/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/signer/format.rs b/src/signer/format.rs
index 17b72b1..3197e0b 100644
--- a/src/signer/format.rs
+++ b/src/signer/format.rs
@@ -419,7 +419,11 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
         encode(value, Some('|'))
     };
 
-    let mut iter = value.iter().map(|(f, v)| (f.as_ref(), v));
+    // The name may contain characters that are special in z=, such as ‘|’.
+    let format_field_name =
+        |name: &FieldName| quoted_printable::encode(name.as_ref().as_bytes(), Some('|'));
+
+    let mut iter = value.iter().map(|(f, v)| (format_field_name(f), v));
 
     // ensure that z= plus the first header name (including ':') fit on the first line
 
-- 
2.43.0


From 13db38c2cb4dc2b6b283c9fb83270b045d248349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 3/6] fix: accept only digits in the l=, t=, and x= tags

The integer parser of the standard library also accepts a leading plus
sign, which is not allowed in these tags.
---
 src/signature.rs |  6 +++---
 src/tag_list.rs  | 10 ++++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index c4011ec..c1b16d1 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -957,7 +957,7 @@ impl DkimSignature {
                     identity = Some(value);
                 }
                 "l" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_decimal_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidBodyLength)?;
 
                     body_length = Some(value);
@@ -991,13 +991,13 @@ impl DkimSignature {
                     selector = Some(value);
                 }
                 "t" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_decimal_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidTimestamp)?;
 
                     timestamp = Some(value);
                 }
                 "x" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_decimal_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidExpiration)?;
 
                     expiration = Some(value);
diff --git a/src/tag_list.rs b/src/tag_list.rs
index 705106c..37e20d7 100644
--- a/src/tag_list.rs
+++ b/src/tag_list.rs
@@ -162,6 +162,16 @@ pub fn parse_colon_separated_value(value: &str) -> Vec<&str> {
     value.split(':').map(trim_surrounding_fws).collect()
 }
 
+pub fn parse_decimal_value(value: &str) -> Result<u64, ParseTagListError> {
+    debug_assert!(is_tag_value(value));
+
+    // `u64::from_str` alone would also accept a leading plus sign.
+    if !value.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(ParseTagListError::Syntax);
+    }
+    value.parse().map_err(|_| ParseTagListError::Syntax)
+}
+
 pub fn parse_base64_value(value: &str) -> Result<Vec<u8>, ParseTagListError> {
     debug_assert!(is_tag_value(value));
 
-- 
2.43.0


From 4a66b89ee20e9518f0f1ebc8822ed4509740b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 4/6] fix: canonicalize a body of only empty lines to CRLF

In simple body canonicalization a body consisting of nothing but empty
lines was reduced to nothing, instead of to a single CRLF as RFC 6376,
section 3.4.3 has it.
---
 src/canonicalize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/canonicalize.rs b/src/canonicalize.rs
index f832b5e..03f76bd 100644
--- a/src/canonicalize.rs
+++ b/src/canonicalize.rs
@@ -139,6 +139,7 @@ pub struct BodyCanonicalizer {
     state: CanonState,
     blank_line: bool,  // whether currently on an empty or blank line
     empty_lines: usize,  // number of empty lines seen
+    only_empty_lines: bool,  // whether all lines seen so far were empty
 }
 
 impl BodyCanonicalizer {
@@ -148,6 +149,7 @@ impl BodyCanonicalizer {
             state: CanonState::Init,
             blank_line: true,
             empty_lines: 0,
+            only_empty_lines: true,
         }
     }
 
@@ -305,6 +307,8 @@ impl BodyCanonicalizer {
             CanonicalizationAlgorithm::Simple => {
                 match self.state {
                     CanonState::Init => CRLF.to_vec(),  // empty body is CRLF
+                    // body consisting only of empty lines is CRLF
+                    CanonState::CrLf if self.only_empty_lines => CRLF.to_vec(),
                     CanonState::CrLf => vec![],
                     CanonState::Cr => {
                         let mut result = vec![];
@@ -353,6 +357,7 @@ impl BodyCanonicalizer {
         }
         self.empty_lines = 0;
         self.blank_line = false;
+        self.only_empty_lines = false;
     }
 }
 
-- 
2.43.0


From 2479baf451f6fe1b86e5f930a51c76822b1ea6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 5/6] fix: count the bits of an RSA key exactly

The size was taken from the rounded-up number of bytes, so that for example
a 1020-bit key passed the 1024-bit minimum.
---
 src/crypto/rsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto/rsa.rs b/src/crypto/rsa.rs
index 32cc1eb..252aa81 100644
--- a/src/crypto/rsa.rs
+++ b/src/crypto/rsa.rs
@@ -79,7 +79,8 @@ pub fn read_rsa_public_key(
 pub const MIN_KEY_BITS: usize = if cfg!(feature = "pre-rfc8301") { 512 } else { 1024 };
 
 pub fn get_public_key_size(k: &RsaPublicKey) -> usize {
-    k.size() * 8
+    // Not derived from the size in bytes, that would round up.
+    k.n().bits()
 }
 
 /// Verifies an RSA signature for a given message byte slice.
-- 
2.43.0


From 49e680a531bba7f1e7ddfe2c1369f8dae716a63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:07 +0000
Subject: [PATCH 6/6] fix: accept only domain names whose U-label form denotes
 the same name

---
 src/signature.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index c1b16d1..6eeb283 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -236,7 +236,13 @@ fn is_valid_domain_string(s: &str, check_tld: bool) -> bool {
     // error in both directions.
     match idna::domain_to_ascii(s) {
         Ok(ascii_s) => {
-            is_valid_dns_name(&ascii_s, check_tld) && idna::domain_to_unicode(s).1.is_ok()
+            let (unicode_s, result) = idna::domain_to_unicode(s);
+
+            // Also require that the U-label form denotes the same name: some
+            // A-labels contain what would not be accepted as a U-label.
+            is_valid_dns_name(&ascii_s, check_tld)
+                && result.is_ok()
+                && matches!(idna::domain_to_ascii(&unicode_s), Ok(s) if s == ascii_s)
         }
         Err(_) => false,
     }
-- 
2.43.0

