From 8b02b888901ed8b8a5148816baddae523e2eb6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 01/38] fix: reject base64 padding characters inside qualified
 material

'=' was accepted in place of base64 characters, so e.g. 'MAA=' parsed to a
primitive with less raw material than its code requires.
---
 src/core/indexer/mod.rs | 4 ++--
 src/core/matter/mod.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 8510ae6..48ca881 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -466,7 +466,7 @@ pub trait Indexer: Default {
             buf.push_str(&qb64[(cs as usize)..]);
 
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(buf, &mut paw)?;
 
             let mut pi: i32 = 0;
             for b in &paw[..ps as usize] {
@@ -481,7 +481,7 @@ pub trait Indexer: Default {
         } else {
             let buf = &qb64[cs as usize..];
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(buf, &mut paw)?;
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 09022ad..d688d04 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -376,7 +376,7 @@ pub trait Matter: Default {
 
             // decode base to leave pre-padded raw
             let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE.decode_vec(&buf, &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(&buf, &mut paw)?;
             buf.zeroize();
 
             let mut pi: i32 = 0;
@@ -394,7 +394,7 @@ pub trait Matter: Default {
             raw
         } else {
             let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(&trim[cs as usize..], &mut paw)?;
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
-- 
2.43.0


From db7e7af7e41814f4eeb684e35a556ea9ec3c2625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 02/38] fix: return an error for multi-byte characters and one
 character counters

Slicing the text of a matter, indexer or counter inside a multi-byte character,
or the first two characters of a one character counter, panicked.
---
 src/core/counter/mod.rs | 20 ++++++++++++++++----
 src/core/indexer/mod.rs | 18 ++++++++++++++----
 src/core/matter/mod.rs  | 17 ++++++++++++++---
 3 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index 34edbfb..37b3c5c 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -217,8 +217,14 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        let first = match qb64.get(..2) {
+            Some(first) => first,
+            None => {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for hard part of code: qb64 = '{qb64}'"
+                )))
+            }
+        };
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -229,7 +235,10 @@ impl Counter {
         }
 
         // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::UnknownSizage(qb64.to_string())),
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +249,10 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = match qb64.get(szg.hs as usize..cs as usize) {
+            Some(count_b64) => count_b64,
+            None => return err!(Error::ParseQb64(format!("invalid count: code = '{hard}'"))),
+        };
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 48ca881..3f4dda2 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -393,7 +393,10 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::UnknownSizage(qb64.to_string())),
+        };
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -407,8 +410,12 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let soft = match qb64.get(hs..cs as usize) {
+            Some(soft) if soft.is_ascii() => soft,
+            _ => return err!(Error::ParseQb64(format!("invalid soft code: code = '{hard}'"))),
+        };
+        let index = util::b64_to_u32(&soft[..ms as usize])?;
+        let odx = &soft[ms as usize..];
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -457,7 +464,10 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let qb64 = match qb64.get(..fs as usize) {
+            Some(qb64) => qb64,
+            None => return err!(Error::ParseQb64(format!("invalid material: code = '{hard}'"))),
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index d688d04..e5642bb 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -334,7 +334,10 @@ pub trait Matter: Default {
         }
 
         // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::UnknownSizage(qb64.to_string())),
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -353,7 +356,12 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = match qb64.get(szg.hs as usize..cs as usize) {
+                Some(soft) => soft,
+                None => {
+                    return err!(Error::ParseQb64(format!("invalid soft code: code = '{hard}'")))
+                }
+            };
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -367,7 +375,10 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let trim = match qb64.get(..fs as usize) {
+            Some(trim) => trim,
+            None => return err!(Error::ParseQb64(format!("invalid material: code = '{hard}'"))),
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
-- 
2.43.0


From 7a3080ec4a520cbc660c8256d75b4ded4439f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 03/38] fix: return an error for variable size material too
 short for its lead bytes

'5AAA' and the other codes with lead bytes panicked when their size was zero.
---
 src/core/matter/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index e5642bb..66714b3 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -407,6 +407,13 @@ pub trait Matter: Default {
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE_NO_PAD.decode_vec(&trim[cs as usize..], &mut paw)?;
 
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for lead bytes: code = '{hard}', ls = {}",
+                    szg.ls
+                )));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
@@ -481,6 +488,13 @@ pub trait Matter: Default {
             )));
         }
 
+        if bfs < bcs + szg.ls {
+            return err!(Error::Shortage(format!(
+                "insufficient material for lead bytes: code = '{hard}', ls = {}",
+                szg.ls
+            )));
+        }
+
         let mut trim = qb2[..bfs as usize].to_vec();
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
-- 
2.43.0


From a38ad3d5edf57745177457b5f0978dddef47ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 04/38] fix: reject unknown variable size codes with raw
 material

Matter::new_with_code_and_raw() accepted any code starting with 4 to 9, and
panicked for codes shorter than the hard size it was about to slice.
---
 src/core/matter/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 66714b3..6fb3a4f 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -55,6 +55,8 @@ pub trait Matter: Default {
         let mut code = code.to_string();
         let rize =
             if tables::SMALL_VRZ_DEX.contains(&first) || tables::LARGE_VRZ_DEX.contains(&first) {
+                // reject unknown codes, and those that are too short to promote
+                tables::sizage(&code)?;
                 let rize = raw.len() as u32;
 
                 let ls = (3 - (rize % 3)) % 3;
-- 
2.43.0


From ad479bede2c2c97e70bf6f55914fd4f18a4281af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 05/38] fix: leave the lead byte out of the raw material of
 indexed codes

Indexed material with lead bytes (1z, 4z) took one raw byte too many on
construction, kept the lead byte in raw when parsed from text and then panicked
in qb64() and qb2().
---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 3f4dda2..471d587 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -130,7 +130,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -506,7 +506,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From a9744b51e2e06dbca4ba961e06c352812e203738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 06/38] fix: reject base64 numbers that do not fit instead of
 dropping their high bits

Counter::new() with count_b64 'EAAAAAB' silently made a counter of 1.
---
 src/core/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/util.rs b/src/core/util.rs
index 0ac0b2e..50f1d28 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -146,6 +146,9 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        if out > u32::MAX >> 6 {
+            return err!(Error::Conversion(format!("base64 number too large: b64 = '{b64}'")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
-- 
2.43.0


From 36212270021eb4fff61c9a262c8f336aa09ae00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 07/38] fix: reject foreign material in salters, numbers and
 prefixes

Only the code passed as a parameter was validated, so any well formed primitive
was accepted from text or binary: a key as a salt, a signature as a prefix.
---
 src/core/number.rs   | 1 +
 src/core/prefixer.rs | 1 +
 src/core/salter.rs   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/core/number.rs b/src/core/number.rs
index 497efcc..6228370 100644
--- a/src/core/number.rs
+++ b/src/core/number.rs
@@ -90,6 +90,7 @@ impl Number {
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
 
+        validate_code(&number.code())?;
         Ok(number)
     }
 
diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 228cef4..6d125dc 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -302,6 +302,7 @@ impl Prefixer {
             Matter::new(Some(&code), Some(&raw), None, None, None)?
         };
 
+        validate_code(&prefixer.code())?;
         Ok(prefixer)
     }
 
diff --git a/src/core/salter.rs b/src/core/salter.rs
index 5ccd084..65a8b6e 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -54,6 +54,7 @@ impl Salter {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
 
+        validate_code(&salter.code())?;
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
     }
-- 
2.43.0


From cb22c4170149d009c1c44072c0f20bef34a65665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 08/38] fix: count each key index once against a numeric
 threshold

Repeating one index satisfied any numeric threshold: [0, 0] satisfied '2'.
---
 src/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 822fc29..5229539 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -206,6 +206,10 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
-- 
2.43.0


From c0fbe9f356f7ffa4e0d94aae7884768b3bffca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 09/38] fix: an index beyond a weighted threshold does not
 satisfy it

Tholder::satisfy() panicked for an index not less than the threshold's size.
---
 src/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 5229539..5032280 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -228,7 +228,10 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            match sats.get_mut(index as usize) {
+                Some(sat) => *sat = true,
+                None => return Ok(false),
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From 94e35da4f55edc46d35d019e717856ecbe48e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 10/38] fix: compute threshold weights without overflow and
 reject malformed fractions

---
 src/core/tholder.rs | 56 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 5032280..1b13393 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -9,7 +9,7 @@ use crate::{
 };
 
 use lazy_static::lazy_static;
-use num_rational::Rational32;
+use num_rational::BigRational;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Tholder {
@@ -26,49 +26,47 @@ impl Default for Tholder {
     }
 }
 
-fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
+fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
     let threshold = value.to_vec()?;
     let separator = "/";
-    let mut clauses: Vec<Vec<Rational32>> = Vec::new();
+    let mut clauses: Vec<Vec<BigRational>> = Vec::new();
 
     for _clause in threshold {
-        let mut clause: Vec<Rational32> = Vec::new();
+        let mut clause: Vec<BigRational> = Vec::new();
         let _clause = _clause.to_vec()?;
         for weight in _clause {
             let weight = weight.to_string()?;
             let parts: Vec<&str> = weight.split(separator).collect();
-            if parts.len() != 2 {
-                // must be 0 or 1
-                if parts[0] == "0" {
-                    clause.push(Rational32::new(0, 1));
-                } else if parts[0] == "1" {
-                    clause.push(Rational32::new(1, 1));
-                } else {
-                    return err!(Error::Value("integral weight must be 0 or 1".to_string()));
-                }
-            } else {
-                let numer = parts[0].parse::<i32>()?;
-                let denom = parts[1].parse::<i32>()?;
-                if numer < 0 || denom < 0 {
-                    return err!(Error::Value("negative weights do not make sense".to_string()));
-                }
-                if numer > denom {
-                    return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
+            match parts.as_slice() {
+                ["0"] => clause.push(BigRational::from_integer(0.into())),
+                ["1"] => clause.push(BigRational::from_integer(1.into())),
+                [_numer, _denom] => {
+                    // a zero denominator does not parse
+                    let rational = weight.parse::<BigRational>()?;
+                    if rational < BigRational::from_integer(0.into()) {
+                        return err!(Error::Value(
+                            "negative weights do not make sense".to_string()
+                        ));
+                    }
+                    if rational > BigRational::from_integer(1.into()) {
+                        return err!(Error::Value(format!("weight {weight} > 1")));
+                    }
+                    clause.push(rational);
                 }
-                clause.push(Rational32::new(numer, denom));
+                _ => return err!(Error::Value("integral weight must be 0 or 1".to_string())),
             }
         }
         clauses.push(clause);
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
+        let mut sum = BigRational::from_integer(0.into());
 
         for weight in clause {
             sum += weight;
         }
 
-        if sum < Rational32::new(1, 1) {
+        if sum < BigRational::from_integer(1.into()) {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -79,12 +77,12 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     Ok(clauses)
 }
 
-fn rationals_to_bext(clauses: &Vec<Vec<Rational32>>) -> String {
+fn rationals_to_bext(clauses: &Vec<Vec<BigRational>>) -> String {
     let mut envelope: Vec<String> = Vec::new();
     for clause in clauses {
         let mut text_clause: Vec<String> = Vec::new();
         for weight in clause {
-            if *weight.denom() == 1 {
+            if weight.is_integer() {
                 text_clause.push(format!("{n}", n = weight.numer()));
             } else {
                 text_clause.push(format!("{n}s{d}", n = weight.numer(), d = weight.denom()));
@@ -219,7 +217,7 @@ impl Tholder {
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
         lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
+            static ref RATIONAL_ONE: BigRational = BigRational::from_integer(1.into());
         }
 
         let mut indices = indices.to_vec();
@@ -238,7 +236,7 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
+            let mut cw = BigRational::from_integer(0.into());
             for weight in clause {
                 if sats[wio] {
                     cw += weight;
@@ -377,7 +375,7 @@ impl Tholder {
         for clause in threshold {
             let mut inner: Vec<Value> = Vec::new();
             for weight in clause {
-                if *weight.denom() == 1 {
+                if weight.is_integer() {
                     inner.push(dat!(&format!("{n}", n = weight.numer())));
                 } else {
                     inner.push(dat!(&weight.to_string()));
-- 
2.43.0


From f7685962db8708cfd05dc3540da1d92f31ed93e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 11/38] fix: reject a weighted threshold without clauses

---
 src/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 1b13393..e1689d6 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -31,6 +31,10 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
     let separator = "/";
     let mut clauses: Vec<Vec<BigRational>> = Vec::new();
 
+    if threshold.is_empty() {
+        return err!(Error::Value("empty weight list".to_string()));
+    }
+
     for _clause in threshold {
         let mut clause: Vec<BigRational> = Vec::new();
         let _clause = _clause.to_vec()?;
-- 
2.43.0


From bfe0609e4e25a7548df553bca1dca9954b0279ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 12/38] fix: return an error for a threshold text shorter than
 its code

---
 src/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index e1689d6..3b81e61 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -275,7 +275,10 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = match limen.get(..hs) {
+            Some(code) => code,
+            None => return err!(Error::Value(format!("malformed limen = '{limen}'"))),
+        };
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
-- 
2.43.0


From e93f4d544bf470e2750c83b4e92cac1bd50529c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 13/38] fix: return an error when a serialization is shorter
 than its version string says

---
 src/core/common.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 5a688bf..59d0f48 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -226,8 +226,16 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     if let Some(size) = size {
         match kind {
             Serialage::JSON => {
-                let v: serde_json::Value =
-                    serde_json::from_str(&String::from_utf8(raw[..(size as usize)].to_vec())?)?;
+                let raw = match raw.get(..(size as usize)) {
+                    Some(raw) => raw.to_vec(),
+                    None => {
+                        return err!(Error::Shortage(format!(
+                            "need {size} bytes, have {len}",
+                            len = raw.len()
+                        )))
+                    }
+                };
+                let v: serde_json::Value = serde_json::from_str(&String::from_utf8(raw)?)?;
                 Ok(Value::from(&v))
             }
             _ => err!(Error::Validation(format!("invalid serialization kind {kind}"))),
-- 
2.43.0


From 09018c9136e92b780356e00077c05e36d06f9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 14/38] fix: sniff a serialization that binary material follows

---
 src/core/common.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 59d0f48..e07b75a 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -2,7 +2,7 @@ use crate::data::{dat, Value};
 use crate::error::{err, Error, Result};
 
 use lazy_static::lazy_static;
-use regex::Regex;
+use regex::{bytes::Regex as BytesRegex, Regex};
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct SizeifyResult {
@@ -262,6 +262,7 @@ pub(crate) fn dumps(ked: &Value, kind: Option<&str>) -> Result<Vec<u8>> {
 pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
     lazy_static! {
         static ref REVER: Regex = Regex::new(REVER_STRING).unwrap();
+        static ref REVER_BYTES: BytesRegex = BytesRegex::new(REVER_STRING).unwrap();
     };
 
     if raw.len() < MINIMUM_SNIFF_SIZE {
@@ -271,8 +272,8 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
-    let start = match REVER.shortest_match(raw) {
+    // what follows the version string need not be text
+    let start = match REVER_BYTES.shortest_match(raw) {
         Some(m) => m - VERSION_FULL_SIZE,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
     };
@@ -283,7 +284,7 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let vs = &raw[start..(start + VERSION_FULL_SIZE)];
+    let vs = std::str::from_utf8(&raw[start..(start + VERSION_FULL_SIZE)])?;
 
     let ident = REVER.replace_all(vs, "$ident").to_string();
     let major = u8::from_str_radix(&REVER.replace_all(vs, "$major"), 16)?;
-- 
2.43.0


From 6b7fae8d74dc4d94864bb51d05debc9590742200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 15/38] fix: reject versions and sizes that do not fit in a
 version string

---
 src/core/common.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index e07b75a..8397c18 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -213,6 +213,13 @@ pub fn versify(
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
 
+    if version.major > 0xf || version.minor > 0xf || size > 0xffffff {
+        return err!(Error::Validation(format!(
+            "version {}.{} or size {size} does not fit in a version string",
+            version.major, version.minor
+        )));
+    }
+
     Ok(format!(
         "{ident}{major:01x}{minor:01x}{kind}{size:06x}_",
         major = version.major,
-- 
2.43.0


From 3289dd614794184d3474953fd1d1af007677382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 16/38] fix: reject a document in which another field looks
 like the version string

---
 src/core/common.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index 8397c18..d2d278f 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -191,6 +191,11 @@ pub fn sizeify(ked: &Value, kind: Option<&str>) -> Result<SizeifyResult> {
     let mut ked = ked.clone();
     ked["v"] = dat!(&vs);
 
+    if raw != dumps(&ked, Some(&kind))? {
+        // what would be sniffed is part of another field
+        return err!(Error::Value(format!("invalid version string in raw = {raw:?}")));
+    }
+
     Ok(SizeifyResult { raw, ident: result.ident, kind, ked, version: result.version })
 }
 
-- 
2.43.0


From eec65bb0c0757babebd9d377881ea23a06aa18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 17/38] fix: return an error for events and credentials with
 missing fields

---
 src/core/creder.rs |  6 +++---
 src/core/sadder.rs |  6 +++---
 src/core/serder.rs |  6 +++---
 src/data.rs        | 10 ++++++++++
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/core/creder.rs b/src/core/creder.rs
index 33b7962..5ed6faa 100644
--- a/src/core/creder.rs
+++ b/src/core/creder.rs
@@ -55,15 +55,15 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        self.ked().field(Ids::i)?.to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        self.ked().field(Ids::s)?.to_string()
     }
 
     pub fn subject(&self) -> Value {
-        self.ked()[Ids::a].clone()
+        self.ked().field(Ids::a).cloned().unwrap_or(dat!(null))
     }
 
     pub fn status(&self) -> Result<Option<String>> {
diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 5ad2cc4..2d2ea30 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -114,7 +114,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -144,7 +144,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -174,7 +174,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
diff --git a/src/core/serder.rs b/src/core/serder.rs
index 8286e72..c627b71 100644
--- a/src/core/serder.rs
+++ b/src/core/serder.rs
@@ -133,7 +133,7 @@ impl Serder {
     pub fn sner(&self) -> Result<Number> {
         let label = Ids::s;
 
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(None, Some(&self.ked.field(label)?.to_string()?), None, None, None, None, None)
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -173,7 +173,7 @@ impl Serder {
 
     pub fn pre(&self) -> Result<String> {
         let label = Ids::i;
-        self.ked[label].to_string()
+        self.ked.field(label)?.to_string()
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -184,7 +184,7 @@ impl Serder {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
         let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = self.ked.field(label)?.to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
diff --git a/src/data.rs b/src/data.rs
index b96be4d..ecb19d8 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -102,6 +102,16 @@ impl Value {
         }
     }
 
+    pub(crate) fn field(&self, label: &str) -> Result<&Value> {
+        match self {
+            Self::Object(map) => match map.get(label) {
+                Some(value) => Ok(value),
+                None => err!(CESRError::Value(format!("missing field labelled={label}"))),
+            },
+            _ => err!(CESRError::Conversion("cannot convert to map".to_string())),
+        }
+    }
+
     pub fn to_json(&self) -> Result<String> {
         Ok(match self {
             Self::Null => "null".to_string(),
-- 
2.43.0


From ce94db5e386f4d695d5eda3986f8371d3bfd606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 18/38] fix: do not cut a pretty printed document inside a
 character

---
 src/core/sadder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 2d2ea30..7058a47 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -201,6 +201,10 @@ pub trait Sadder: Default + Clone {
             Ok(s) => {
                 let size = size.unwrap_or(1024);
                 if s.len() > size {
+                    let mut size = size;
+                    while !s.is_char_boundary(size) {
+                        size -= 1;
+                    }
                     Ok(s[..size].to_string())
                 } else {
                     Ok(s)
-- 
2.43.0


From 1fde445ddf7bcc3faf16fa0c334f60bc05451003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 19/38] fix: verify a SAID against documents that are no map or
 lack the label

---
 src/core/saider.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/saider.rs b/src/core/saider.rs
index 1818b21..138c428 100644
--- a/src/core/saider.rs
+++ b/src/core/saider.rs
@@ -61,7 +61,7 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
-    let mut sad = sad.clone();
+    let mut sad = dat!(&sad.to_map()?);
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
 
@@ -233,8 +233,11 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
-            return Ok(false);
+        if prefixed {
+            match sad.to_map()?.get(label) {
+                Some(said) if said.to_string()? == self.qb64()? => (),
+                _ => return Ok(false),
+            }
         }
 
         Ok(true)
-- 
2.43.0


From 8b9f39fed1de7970b58b54d6feff4e761aec0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 20/38] fix: return an error for inceptions without an event
 type

---
 src/core/prefixer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 6d125dc..8b389f3 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -56,7 +56,7 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
     let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = ked.field(label)?.to_string()?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -331,7 +331,7 @@ impl Prefixer {
 
         let prefixed = prefixed.unwrap_or(false);
         let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = ked.field(label)?.to_string()?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
-- 
2.43.0


From 0bcf8f068b81552d0afac7fe4a0834e1edbb8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 21/38] fix: derive non-transferable prefixes from inceptions
 with empty lists

---
 src/core/prefixer.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 8b389f3..44a92c7 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -85,6 +85,16 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+fn is_empty(value: &Value) -> bool {
+    match value {
+        Value::Null => true,
+        Value::String(s) => s.is_empty(),
+        Value::Array(a) => a.is_empty(),
+        Value::Object(o) => o.is_empty(),
+        _ => false,
+    }
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -110,17 +120,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
@@ -194,15 +204,8 @@ fn verify_nontransferable(ked: &Value, pre: &str, prefixed: bool) -> Result<bool
     }
 
     let label = Ids::n;
-    if map.contains_key(label) {
-        if ked[label].to_vec().is_ok() && !ked[label].to_vec()?.is_empty() {
-            return Ok(false);
-        }
-
-        // unsure if 'n' can be a single key. if it can't we can simplify all this
-        if ked[label].to_string().is_ok() && !ked[label].to_string()?.is_empty() {
-            return Ok(false);
-        }
+    if map.contains_key(label) && !is_empty(&ked[label]) {
+        return Ok(false);
     }
 
     Ok(true)
-- 
2.43.0


From afd1c1560e88ad249efb17e145a9cfb0280a275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 22/38] fix: convert every JSON number without panicking

---
 src/data.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index ecb19d8..717d017 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -16,7 +16,8 @@ pub type Object = IndexMap<String, Value>;
 #[derive(Debug, PartialEq, Clone)]
 pub struct Number {
     f: f64,
-    i: i64,
+    // wide enough for every JSON integer
+    i: i128,
     float: bool,
 }
 
@@ -26,9 +27,15 @@ impl From<f64> for Number {
     }
 }
 
+impl From<u64> for Number {
+    fn from(i: u64) -> Self {
+        Self { f: 0.0, i: i as i128, float: false }
+    }
+}
+
 impl From<i64> for Number {
     fn from(i: i64) -> Self {
-        Self { f: 0.0, i, float: false }
+        Self { f: 0.0, i: i as i128, float: false }
     }
 }
 
@@ -67,7 +74,7 @@ impl Value {
                     ));
                 }
 
-                Ok(number.i)
+                Ok(i64::try_from(number.i)?)
             }
             _ => err!(CESRError::Conversion("cannot convert to integer".to_string())),
         }
@@ -120,7 +127,7 @@ impl Value {
                 if n.float {
                     json!(n.f).to_string()
                 } else {
-                    json!(n.i).to_string()
+                    n.i.to_string()
                 }
             }
             Self::String(s) => json!(s).to_string(),
@@ -294,10 +301,12 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
+                } else if let Some(i) = n.as_u64() {
+                    Self::Number(Number::from(i))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    Self::Number(Number::from(n.as_f64().unwrap()))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
@@ -348,7 +357,7 @@ impl TryFrom<&Value> for i64 {
         match v {
             Value::Number(n) => {
                 if !n.float {
-                    Ok(n.i)
+                    Ok(i64::try_from(n.i)?)
                 } else {
                     Ok(n.f as i64)
                 }
-- 
2.43.0


From 89f0fd8292c0f39dfee4dfd1205b2a0df50437a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 23/38] fix: strip a root path from the front of a path only

---
 src/core/pather.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 0cd679d..5b8b347 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -134,22 +134,13 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
-            return Ok(self.clone());
-        }
-
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
+        match path.strip_prefix(root_path.as_slice()) {
+            Some(path) => Pather::new_with_path(&dat!(path)),
+            None => Ok(self.clone()),
         }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-- 
2.43.0


From 665e66fa6374083fc47bbc86b185bae99b192f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 24/38] fix: compare whole components when testing for a path
 prefix

---
 src/core/pather.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 5b8b347..cb87206 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -144,7 +144,7 @@ impl Pather {
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-        Ok(self.bext()?.starts_with(&path.bext()?))
+        Ok(self.path()?.to_vec()?.starts_with(&path.path()?.to_vec()?))
     }
 
     pub fn resolve(&self, sad: &Value) -> Result<Value> {
-- 
2.43.0


From 458d36a02610e0ba5642798458a7ae7bc19ddda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 25/38] fix: reject path components that would not read back

---
 src/core/pather.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index cb87206..799a943 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -181,6 +181,11 @@ impl Pather {
                 return err!(Error::Value("invalid base64".to_string()));
             }
 
+            // would read back as other components
+            if p.is_empty() || p.contains('-') {
+                return err!(Error::Value(format!("invalid path component = '{p}'")));
+            }
+
             vath.push(p);
         }
 
-- 
2.43.0


From ddd6a9ce57778e6d59ceb2dcfaa8672d97c5cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 26/38] fix: reject datetime text that would not read back

---
 src/core/dater.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/dater.rs b/src/core/dater.rs
index 81d8ddd..743c8a3 100644
--- a/src/core/dater.rs
+++ b/src/core/dater.rs
@@ -54,7 +54,13 @@ impl Dater {
         let dater: Self = if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let b64 = if let Some(dts) = dts { iso_8601_to_b64(dts) } else { now_as_b64() };
             let qb64 = format!("{}{}", matter::Codex::DateTime, &b64);
-            Matter::new(code, raw, qb64b, Some(&qb64), qb2)?
+            let dater: Self = Matter::new(code, raw, qb64b, Some(&qb64), qb2)?;
+            if let Some(dts) = dts {
+                if dater.dts()? != dts {
+                    return err!(Error::Value(format!("invalid datetime = '{dts}'")));
+                }
+            }
+            dater
         } else {
             Matter::new(code, raw, qb64b, qb64, qb2)?
         };
-- 
2.43.0


From 5dc9513964a1e70a62842293b3a7d8bddf792d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 27/38] fix: parse text that binary material follows in a
 stream

---
 src/core/counter/mod.rs |  4 ++--
 src/core/indexer/mod.rs |  4 ++--
 src/core/matter/mod.rs  |  4 ++--
 src/core/util.rs        | 10 ++++++++++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index 37b3c5c..1a6d767 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -138,10 +138,10 @@ impl Counter {
     }
 
     pub fn new_with_qb64b(qb64b: &[u8]) -> Result<Self> {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::text_prefix(qb64b)?;
 
         let mut counter: Counter = Default::default();
-        counter.exfil(&qb64)?;
+        counter.exfil(qb64)?;
         Ok(counter)
     }
 
diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 471d587..0e0c9ba 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -160,10 +160,10 @@ pub trait Indexer: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::text_prefix(qb64b)?;
 
         let mut i: Self = Self::default();
-        i.exfil(&qb64)?;
+        i.exfil(qb64)?;
         Ok(i)
     }
 
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 6fb3a4f..75d3c50 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -128,10 +128,10 @@ pub trait Matter: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::text_prefix(qb64b)?;
 
         let mut matter = Self::default();
-        matter.exfil(&qb64)?;
+        matter.exfil(qb64)?;
         Ok(matter)
     }
 
diff --git a/src/core/util.rs b/src/core/util.rs
index 50f1d28..070671c 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -2,6 +2,16 @@ use crate::error::{err, Error, Result};
 
 pub const REB64_STRING: &str = "^[A-Za-z0-9\\-_]*$";
 
+/// The text at the start of a stream, up to the first byte that is not text.
+pub fn text_prefix(bytes: &[u8]) -> Result<&str> {
+    let end = match std::str::from_utf8(bytes) {
+        Ok(text) => return Ok(text),
+        Err(e) => e.valid_up_to(),
+    };
+
+    Ok(std::str::from_utf8(&bytes[..end])?)
+}
+
 pub fn b64_char_to_index(c: char) -> Result<u8> {
     Ok(match c {
         'A' => 0,
-- 
2.43.0


From 00acd9cd11bd6d9382f55c3284d4a1a65a0041ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 28/38] fix: keep the high word of numbers that cross the
 WebAssembly boundary

---
 wasm/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/util.rs b/wasm/src/util.rs
index 5e76457..f7d1490 100644
--- a/wasm/src/util.rs
+++ b/wasm/src/util.rs
@@ -15,7 +15,7 @@ impl From<u128> for U128Wrapper {
 
 impl From<U128Wrapper> for u128 {
     fn from(val: U128Wrapper) -> Self {
-        u128::from(val.high) | u128::from(val.low)
+        (u128::from(val.high) << 64) | u128::from(val.low)
     }
 }
 
-- 
2.43.0


From 0a33f1a1d495bf5a66fd89981bcfa6a5db1f7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 29/38] fix: return documents from the WebAssembly binding as
 JSON

---
 wasm/src/primitives/saider.rs | 2 +-
 wasm/src/primitives/serder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/src/primitives/saider.rs b/wasm/src/primitives/saider.rs
index be57d62..67d9abf 100644
--- a/wasm/src/primitives/saider.rs
+++ b/wasm/src/primitives/saider.rs
@@ -80,7 +80,7 @@ impl SaiderWrapper {
         .as_js()?;
         Ok(SaidifyRet {
             saider: SaiderWrapper(ret.0),
-            value: ret.1.to_string().expect("unable unwrap value"),
+            value: ret.1.to_json().expect("unable unwrap value"),
         })
     }
 
diff --git a/wasm/src/primitives/serder.rs b/wasm/src/primitives/serder.rs
index c85d597..039db97 100644
--- a/wasm/src/primitives/serder.rs
+++ b/wasm/src/primitives/serder.rs
@@ -111,7 +111,7 @@ impl SerderWrapper {
     }
 
     pub fn ked(&self) -> ValueWrapper {
-        let value = self.0.ked().to_string().expect("unable unwrap value");
+        let value = self.0.ked().to_json().expect("unable unwrap value");
         ValueWrapper(value)
     }
 
-- 
2.43.0


From 166141c03c02c4dd1e3b8e07955addfdd8790b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 30/38] fix: reject malformed JSON when it enters the
 WebAssembly binding

---
 wasm/src/util.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wasm/src/util.rs b/wasm/src/util.rs
index f7d1490..69ed6a6 100644
--- a/wasm/src/util.rs
+++ b/wasm/src/util.rs
@@ -1,4 +1,6 @@
+use crate::error::Result;
 use cesride_core::data::Value;
+use js_sys::Error as JsError;
 use wasm_bindgen::prelude::wasm_bindgen;
 
 #[wasm_bindgen(js_name = U128)]
@@ -25,8 +27,10 @@ pub struct ValueWrapper(pub(crate) String);
 #[wasm_bindgen(js_class = Value)]
 impl ValueWrapper {
     #[wasm_bindgen(constructor)]
-    pub fn new(value: &str) -> ValueWrapper {
-        ValueWrapper(value.to_string())
+    pub fn new(value: &str) -> Result<ValueWrapper> {
+        serde_json::from_str::<serde_json::Value>(value)
+            .map_err(|e| JsError::new(&e.to_string()))?;
+        Ok(ValueWrapper(value.to_string()))
     }
 
     pub fn value(&self) -> String {
-- 
2.43.0


From 5ac5b38081d82c3539f4be8e0070abd0c2b75323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 31/38] fix: reject an ondex that a code without other index
 part cannot carry

---
 src/core/indexer/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 0e0c9ba..6714a15 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -97,12 +97,12 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) {
-            if ondex.is_none() {
-                // when not provided make ondex match index
-                ondex = Some(index);
-            }
-        } else if let Some(o) = ondex {
+        if BothSigCodex::has_code(code) && ondex.is_none() {
+            // when not provided make ondex match index
+            ondex = Some(index);
+        }
+
+        if let Some(o) = ondex {
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
                     "Non matching ondex '{o}' and index '{index}' for code = '{code}'."
-- 
2.43.0


From dea16f6f05f1e1d9fd2b59199becfa993d7c1c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 32/38] fix: index limit of large codes overflowed on
 conversion to binary

---
 src/core/indexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 6714a15..16ce010 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -292,7 +292,7 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
-- 
2.43.0


From 4c9a54d423ee072697009f4eb2c07fa6c8a1d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 33/38] fix: reading a binary code copied the whole material
 unwiped

---
 src/core/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/util.rs b/src/core/util.rs
index 070671c..6ccea12 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -269,6 +269,8 @@ pub fn nab_sextets(binary: &[u8], count: usize) -> Result<Vec<u8>> {
         return err!(Error::TooSmall(n - binary.len()));
     }
 
+    // the rest may be secret, and is not needed
+    let binary = &binary[..n];
     let bps = 3 - (binary.len() % 3);
     let mut padded = vec![0; binary.len() + bps];
     padded[..binary.len()].copy_from_slice(binary);
-- 
2.43.0


From d58da460ccc8bac5856bf995c383db280ea6ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 34/38] fix: wipe copies of the raw material on failing paths
 and in qb64b

---
 src/core/matter/mod.rs | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 75d3c50..d3fb495 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -1,5 +1,5 @@
 use base64::{engine::general_purpose as b64_engine, Engine};
-use zeroize::{Zeroize, Zeroizing};
+use zeroize::Zeroizing;
 
 use crate::core::util;
 use crate::error::{err, Error, Result};
@@ -149,7 +149,7 @@ pub trait Matter: Default {
     }
 
     fn qb64b(&self) -> Result<Vec<u8>> {
-        Ok(self.qb64()?.as_bytes().to_vec())
+        Ok(self.qb64()?.into_bytes())
     }
 
     fn qb2(&self) -> Result<Vec<u8>> {
@@ -186,7 +186,7 @@ pub trait Matter: Default {
     fn infil(&self) -> Result<String> {
         let code = &self.code();
         let size = self.size();
-        let mut raw = self.raw();
+        let raw = Zeroizing::new(self.raw());
 
         let ps = (3 - raw.len() % 3) % 3;
         let szg = tables::sizage(code)?;
@@ -220,7 +220,6 @@ pub trait Matter: Default {
 
             let mut buffer = Zeroizing::new(vec![0u8; raw.len() + szg.ls as usize]);
             buffer[szg.ls as usize..].clone_from_slice(&raw);
-            raw.zeroize();
 
             let mut b64_vec = Zeroizing::new(vec![0u8; buffer.len() * 4 / 3]);
             b64_engine::URL_SAFE.encode_slice(&buffer, &mut b64_vec)?;
@@ -239,7 +238,6 @@ pub trait Matter: Default {
 
             let mut buffer = Zeroizing::new(vec![0u8; raw.len() + ps]);
             buffer[ps..].clone_from_slice(&raw);
-            raw.zeroize();
 
             let mut b64_vec = Zeroizing::new(vec![0u8; buffer.len() * 4 / 3]);
             b64_engine::URL_SAFE.encode_slice(&buffer, &mut b64_vec)?;
@@ -251,7 +249,7 @@ pub trait Matter: Default {
     fn binfil(&self) -> Result<Vec<u8>> {
         let code = &self.code();
         let size = self.size();
-        let mut raw = self.raw();
+        let raw = Zeroizing::new(self.raw());
 
         let szg = tables::sizage(code)?;
         let cs = szg.hs + szg.ss;
@@ -315,7 +313,6 @@ pub trait Matter: Default {
             )));
         }
 
-        raw.zeroize();
         Ok(buffer)
     }
 
@@ -384,13 +381,12 @@ pub trait Matter: Default {
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
-        let mut raw = if ps != 0 {
-            let mut buf = "A".repeat(ps as usize) + &trim[(cs as usize)..];
+        let raw = Zeroizing::new(if ps != 0 {
+            let buf = Zeroizing::new("A".repeat(ps as usize) + &trim[(cs as usize)..]);
 
             // decode base to leave pre-padded raw
-            let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE_NO_PAD.decode_vec(&buf, &mut paw)?;
-            buf.zeroize();
+            let mut paw = Zeroizing::new(Vec::<u8>::new());
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(buf.as_bytes(), &mut paw)?;
 
             let mut pi: i32 = 0;
             // readInt
@@ -402,11 +398,9 @@ pub trait Matter: Default {
                 return err!(Error::Prepad());
             }
 
-            let raw = paw[ps as usize..].to_vec();
-            paw.zeroize();
-            raw
+            paw[ps as usize..].to_vec()
         } else {
-            let mut paw = Vec::<u8>::new();
+            let mut paw = Zeroizing::new(Vec::<u8>::new());
             b64_engine::URL_SAFE_NO_PAD.decode_vec(&trim[cs as usize..], &mut paw)?;
 
             if paw.len() < szg.ls as usize {
@@ -427,15 +421,12 @@ pub trait Matter: Default {
                     _ => return err!(Error::NonZeroedLeadBytes()),
                 }
             }
-            let raw = paw[szg.ls as usize..].to_vec();
-            paw.zeroize();
-            raw
-        };
+            paw[szg.ls as usize..].to_vec()
+        });
 
         self.set_code(hard);
         self.set_size(size);
         self.set_raw(&raw);
-        raw.zeroize();
 
         Ok(())
     }
@@ -497,7 +488,7 @@ pub trait Matter: Default {
             )));
         }
 
-        let mut trim = qb2[..bfs as usize].to_vec();
+        let trim = Zeroizing::new(qb2[..bfs as usize].to_vec());
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
         if ps != 0 {
@@ -518,19 +509,17 @@ pub trait Matter: Default {
             }
         }
 
-        let mut raw = trim[(bcs + szg.ls) as usize..].to_vec();
+        let raw = Zeroizing::new(trim[(bcs + szg.ls) as usize..].to_vec());
         if raw.len() != (trim.len() - bcs as usize) - szg.ls as usize {
             // unreachable. rust prevents this by the definition of `raw` above.
             return err!(Error::Conversion(format!(
                 "improperly qualified material: qb2 = {qb2:?}",
             )));
         }
-        trim.zeroize();
 
         self.set_code(&hard);
         self.set_size(size);
         self.set_raw(&raw);
-        raw.zeroize();
 
         Ok(())
     }
-- 
2.43.0


From df37e28dba0de764ceaf8e791fee3196b9e0b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 35/38] fix: wipe the copies of the seed that signing and key
 derivation make

---
 src/core/signer.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/signer.rs b/src/core/signer.rs
index ce44db3..cefaf41 100644
--- a/src/core/signer.rs
+++ b/src/core/signer.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{ZeroizeOnDrop, Zeroizing};
 
 use crate::core::{
     cigar::Cigar,
@@ -105,10 +105,9 @@ impl Signer {
         let mut signer: Signer = if qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let code = code.unwrap_or(matter::Codex::Ed25519_Seed);
             validate_code(code)?;
-            let mut raw = if let Some(raw) = raw { raw.to_vec() } else { sign::generate(code)? };
-            let matter = Matter::new(Some(code), Some(&raw), None, None, None)?;
-            raw.zeroize();
-            matter
+            let raw = if let Some(raw) = raw { raw.to_vec() } else { sign::generate(code)? };
+            let raw = Zeroizing::new(raw);
+            Matter::new(Some(code), Some(&raw), None, None, None)?
         } else {
             let signer: Self = Matter::new(code, raw, qb64b, qb64, qb2)?;
             validate_code(&signer.code())?;
@@ -151,7 +150,7 @@ impl Signer {
             _ => return err!(Error::UnexpectedCode(self.code())),
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &Zeroizing::new(self.raw()), ser)?;
         Cigar::new(Some(&self.verfer()), Some(code), Some(&sig), None, None, None)
     }
 
@@ -203,7 +202,7 @@ impl Signer {
             (code, Some(ondex))
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &Zeroizing::new(self.raw()), ser)?;
         Siger::new(
             Some(&self.verfer()),
             Some(index),
@@ -221,7 +220,7 @@ impl Signer {
     }
 
     fn derive_and_assign_verfer(&mut self, transferable: bool) -> Result<()> {
-        self.verfer = derive_verfer(&self.code(), &self.raw(), transferable)?;
+        self.verfer = derive_verfer(&self.code(), &Zeroizing::new(self.raw()), transferable)?;
         Ok(())
     }
 }
-- 
2.43.0


From 1d2598fe2615339c8993c9eec56fe1ae5193df32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 36/38] fix: wipe the copies of the salt and seed that
 stretching makes

---
 src/core/salter.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/core/salter.rs b/src/core/salter.rs
index 65a8b6e..2b6a982 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{Zeroize, ZeroizeOnDrop, Zeroizing};
 
 use crate::{
     core::{
@@ -92,7 +92,7 @@ impl Salter {
         let path = path.unwrap_or("");
         let size = size.unwrap_or(32);
 
-        let seed = salt::stretch(path.as_bytes(), &self.raw(), size, tier)?;
+        let seed = salt::stretch(path.as_bytes(), &Zeroizing::new(self.raw()), size, tier)?;
 
         Ok(seed)
     }
@@ -115,12 +115,10 @@ impl Salter {
         let temp = temp.unwrap_or(false);
 
         let size = matter::raw_size(code)?;
-        let mut seed = self.stretch(Some(size as usize), Some(path), tier, Some(temp))?;
+        let seed = self.stretch(Some(size as usize), Some(path), tier, Some(temp))?;
+        let seed = Zeroizing::new(seed);
 
-        let signer = Signer::new(Some(transferable), Some(code), Some(&seed), None, None, None)?;
-        seed.zeroize();
-
-        Ok(signer)
+        Signer::new(Some(transferable), Some(code), Some(&seed), None, None, None)
     }
 
     #[allow(clippy::too_many_arguments)]
-- 
2.43.0


From 168b99c9c55d1fd77a4723e3f50619034512bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:31 +0000
Subject: [PATCH 37/38] fix: reject threshold weights with signs or separators
 in their parts

---
 src/core/tholder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 3b81e61..3b8a6b1 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -44,7 +44,11 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
             match parts.as_slice() {
                 ["0"] => clause.push(BigRational::from_integer(0.into())),
                 ["1"] => clause.push(BigRational::from_integer(1.into())),
-                [_numer, _denom] => {
+                [numer, denom] => {
+                    // digits alone: 'num' takes signs (of both parts) and '_' between digits, too
+                    if !numer.bytes().chain(denom.bytes()).all(|b| b.is_ascii_digit()) {
+                        return err!(Error::Value(format!("malformed weight = {weight}")));
+                    }
                     // a zero denominator does not parse
                     let rational = weight.parse::<BigRational>()?;
                     if rational < BigRational::from_integer(0.into()) {
-- 
2.43.0


From b692bb38cb415456670eb0b4a1d377d9f5531c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:35 +0000
Subject: [PATCH 38/38] fix: Salter: signers numbered past the largest number
 are refused, instead of repeating the first paths

---
 src/core/salter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/salter.rs b/src/core/salter.rs
index 2b6a982..58beee2 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -135,6 +135,14 @@ impl Salter {
         let count = count.unwrap_or(1);
         let start = start.unwrap_or(0);
         let path = path.unwrap_or("");
+
+        // beyond the largest number the first paths would be used again
+        if count > 0 && start.checked_add(count - 1).is_none() {
+            return err!(Error::Value(format!(
+                "too many signers: start = {start}, count = {count}"
+            )));
+        }
+
         let mut signers: Vec<Signer> = vec![];
 
         for i in 0..count {
-- 
2.43.0

