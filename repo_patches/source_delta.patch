From 0ac1dcdf46a5a5035937b1fbf15bcea111e44d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 01/30] fix: bound index and ondex by their own soft sizes in
 Indexer binary encoding

---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 8510ae6..c5603f7 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -292,13 +292,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
-- 
2.43.0


From 233734691484c612c460aef666ec8c8270657ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 02/30] fix: refuse an ondex that differs from the index when
 the code cannot carry it

---
 src/core/indexer/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index c5603f7..f2486a2 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -102,7 +102,10 @@ pub trait Indexer: Default {
                 // when not provided make ondex match index
                 ondex = Some(index);
             }
-        } else if let Some(o) = ondex {
+        }
+
+        // without other index characters the ondex has nowhere to go but the index
+        if let Some(o) = ondex {
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
                     "Non matching ondex '{o}' and index '{index}' for code = '{code}'."
-- 
2.43.0


From 2b8474a3a0a46c86e0cb75689deb8f58c41ade4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 03/30] fix: refuse qualified text whose padding characters
 shorten the raw material

---
 src/core/indexer/mod.rs | 16 +++++++++++++++-
 src/core/matter/mod.rs  | 17 +++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index f2486a2..eeffb57 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -469,7 +469,14 @@ pub trait Indexer: Default {
             buf.push_str(&qb64[(cs as usize)..]);
 
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            base64::engine::general_purpose::URL_SAFE.decode_vec(&buf, &mut paw)?;
+
+            // padding characters in the material would shorten the raw
+            if paw.len() != buf.len() * 3 / 4 {
+                return err!(Error::Conversion(format!(
+                    "improperly qualified material: code = '{hard}'"
+                )));
+            }
 
             let mut pi: i32 = 0;
             for b in &paw[..ps as usize] {
@@ -486,6 +493,13 @@ pub trait Indexer: Default {
             let mut paw = Vec::<u8>::new();
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
 
+            // padding characters in the material would shorten the raw, and lead bytes must be present
+            if paw.len() != buf.len() * 3 / 4 || paw.len() < szg.ls as usize {
+                return err!(Error::Conversion(format!(
+                    "improperly qualified material: code = '{hard}'"
+                )));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 09022ad..7eca48a 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -377,8 +377,17 @@ pub trait Matter: Default {
             // decode base to leave pre-padded raw
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&buf, &mut paw)?;
+            let size = buf.len() * 3 / 4;
             buf.zeroize();
 
+            // padding characters in the material would shorten the raw
+            if paw.len() != size {
+                paw.zeroize();
+                return err!(Error::Conversion(format!(
+                    "improperly qualified material: code = '{hard}'"
+                )));
+            }
+
             let mut pi: i32 = 0;
             // readInt
             for b in &paw[..ps as usize] {
@@ -396,6 +405,14 @@ pub trait Matter: Default {
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
 
+            // padding characters in the material would shorten the raw, and lead bytes must be present
+            if paw.len() != (trim.len() - cs as usize) * 3 / 4 || paw.len() < szg.ls as usize {
+                paw.zeroize();
+                return err!(Error::Conversion(format!(
+                    "improperly qualified material: code = '{hard}'"
+                )));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
-- 
2.43.0


From 0fe4eedd6eb4b3de707aa1846c13dfb31007777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 04/30] fix: refuse binary variable-size material that has no
 room for its lead bytes

---
 src/core/matter/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 7eca48a..158ea95 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -487,6 +487,12 @@ pub trait Matter: Default {
             )));
         }
 
+        if bfs < bcs + szg.ls {
+            return err!(Error::Conversion(format!(
+                "improperly qualified material: code = '{hard}'"
+            )));
+        }
+
         let mut trim = qb2[..bfs as usize].to_vec();
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
-- 
2.43.0


From 980d90fc065da5e79255d3a9caa61a86737cbcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 05/30] fix: return an error instead of panicking on short or
 non-ascii qualified text

---
 src/core/counter/mod.rs | 23 ++++++++++++++++++-----
 src/core/indexer/mod.rs | 22 ++++++++++++++++++----
 src/core/matter/mod.rs  | 17 +++++++++++++----
 3 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index 34edbfb..9b97548 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -217,8 +217,15 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        let first = match qb64.get(..2) {
+            Some(first) => first,
+            None => {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for hard part of code: qb64 size = {}",
+                    qb64.len()
+                )))
+            }
+        };
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -228,8 +235,11 @@ impl Counter {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        // the material must be ascii up to its size, or it cannot be sliced
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::Conversion("qb64 is not base64".to_string())),
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +250,10 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = match qb64.get(szg.hs as usize..cs as usize) {
+            Some(count_b64) => count_b64,
+            None => return err!(Error::Conversion("qb64 is not base64".to_string())),
+        };
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index eeffb57..adac996 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -396,7 +396,11 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        // the material must be ascii up to its size, or it cannot be sliced
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::Conversion("qb64 is not base64".to_string())),
+        };
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -410,8 +414,15 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let soft = match (
+            qb64.get(hs..(hs + ms as usize)),
+            qb64.get((hs + ms as usize)..(hs + (ms + szg.os) as usize)),
+        ) {
+            (Some(idx), Some(odx)) => (idx, odx),
+            _ => return err!(Error::Conversion("qb64 is not base64".to_string())),
+        };
+        let index = util::b64_to_u32(soft.0)?;
+        let odx = soft.1;
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -460,7 +471,10 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let qb64 = match qb64.get(..fs as usize) {
+            Some(qb64) => qb64,
+            None => return err!(Error::Conversion("qb64 is not base64".to_string())),
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 158ea95..2070c2f 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -333,8 +333,11 @@ pub trait Matter: Default {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        // the material must be ascii up to its size, or it cannot be sliced
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::Conversion("qb64 is not base64".to_string())),
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -353,7 +356,10 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = match qb64.get(szg.hs as usize..cs as usize) {
+                Some(soft) => soft,
+                None => return err!(Error::Conversion("qb64 is not base64".to_string())),
+            };
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -367,7 +373,10 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let trim = match qb64.get(..fs as usize) {
+            Some(trim) => trim,
+            None => return err!(Error::Conversion("qb64 is not base64".to_string())),
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
-- 
2.43.0


From c05d88be2c9196393bc1aabbe1c52206b919c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 06/30] fix: refuse undefined variable-size codes instead of
 panicking or building unencodable material

---
 src/core/matter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 2070c2f..afa4ef6 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -55,6 +55,9 @@ pub trait Matter: Default {
         let mut code = code.to_string();
         let rize =
             if tables::SMALL_VRZ_DEX.contains(&first) || tables::LARGE_VRZ_DEX.contains(&first) {
+                // only defined codes can be adapted to the size of the raw material
+                tables::sizage(&code)?;
+
                 let rize = raw.len() as u32;
 
                 let ls = (3 - (rize % 3)) % 3;
-- 
2.43.0


From 1fefc6caa749276f48d883546cfbd9de168506ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:10 +0000
Subject: [PATCH 07/30] fix: account for lead bytes of indexed material when
 sizing and stripping raw

---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index adac996..d0d44df 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -133,7 +133,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -527,7 +527,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From e826a324b2511f3ff759b706b4020c333fcb4e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 08/30] fix: validate the code of decoded numbers, salts and
 prefixes, not the default one

---
 src/core/number.rs   | 4 +++-
 src/core/prefixer.rs | 4 +++-
 src/core/salter.rs   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/number.rs b/src/core/number.rs
index 497efcc..6fb80a1 100644
--- a/src/core/number.rs
+++ b/src/core/number.rs
@@ -87,7 +87,9 @@ impl Number {
         } else {
             let code = code.unwrap_or(tables::Codex::Short);
             validate_code(code)?;
-            Matter::new(Some(code), raw, qb64b, qb64, qb2)?
+            let number: Self = Matter::new(Some(code), raw, qb64b, qb64, qb2)?;
+            validate_code(&number.code())?;
+            number
         };
 
         Ok(number)
diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 228cef4..1ffeec2 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -266,7 +266,9 @@ impl Prefixer {
             || qb2.is_some()
         {
             validate_code(code.unwrap_or(matter::Codex::Ed25519N))?;
-            Matter::new(code, raw, qb64b, qb64, qb2)?
+            let prefixer: Self = Matter::new(code, raw, qb64b, qb64, qb2)?;
+            validate_code(&prefixer.code())?;
+            prefixer
         } else {
             let ked = if let Some(ked) = ked {
                 if code.is_none() && !ked.to_map()?.contains_key(Ids::i) {
diff --git a/src/core/salter.rs b/src/core/salter.rs
index 5ccd084..9eb5e90 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -51,7 +51,9 @@ impl Salter {
                 raw.zeroize();
                 matter
             } else {
-                Matter::new(Some(code), raw, qb64b, qb64, qb2)?
+                let salter: Self = Matter::new(Some(code), raw, qb64b, qb64, qb2)?;
+                validate_code(&salter.code())?;
+                salter
             };
 
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
-- 
2.43.0


From a198324ee49e35950e2930bba9d1e7701ae6bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 09/30] fix: refuse weights with a zero denominator or more
 than one fraction bar

---
 src/core/tholder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 822fc29..2ef35d6 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -39,9 +39,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
             let parts: Vec<&str> = weight.split(separator).collect();
             if parts.len() != 2 {
                 // must be 0 or 1
-                if parts[0] == "0" {
+                if weight == "0" {
                     clause.push(Rational32::new(0, 1));
-                } else if parts[0] == "1" {
+                } else if weight == "1" {
                     clause.push(Rational32::new(1, 1));
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
@@ -52,6 +52,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
+                if denom == 0 {
+                    return err!(Error::Value("zero denominators do not make sense".to_string()));
+                }
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
-- 
2.43.0


From 9d91da0d1a26c32cd6746d07ce047adc0ea9cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 10/30] fix: report an unsatisfied threshold instead of
 panicking on an index beyond the weights

---
 src/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 2ef35d6..f29160b 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -227,7 +227,10 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            match sats.get_mut(index as usize) {
+                Some(sat) => *sat = true,
+                None => return Ok(false),
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From 40579d5dee83df5654c3b84965af3d1e171ceb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 11/30] fix: count every signing index once against a numeric
 threshold

---
 src/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index f29160b..c8eb1d1 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -209,6 +209,10 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
-- 
2.43.0


From dd05cc613086cda023403f87ff105f32e7c3c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 12/30] fix: return an error for a truncated or non-ascii limen
 instead of panicking

---
 src/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index c8eb1d1..39b3bad 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -276,7 +276,10 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = match limen.get(..hs) {
+            Some(code) => code,
+            None => return err!(Error::Value("malformed threshold code in limen".to_string())),
+        };
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
-- 
2.43.0


From d202021cbee21bdea3cfbfbb62998495e5bcb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 13/30] fix: return an error when a message is shorter than its
 version string declares

---
 src/core/common.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 5a688bf..784f44f 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -226,8 +226,17 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     if let Some(size) = size {
         match kind {
             Serialage::JSON => {
+                let bytes = match raw.get(..(size as usize)) {
+                    Some(bytes) => bytes,
+                    None => {
+                        return err!(Error::Value(format!(
+                            "need {size} bytes, have {have}",
+                            have = raw.len()
+                        )))
+                    }
+                };
                 let v: serde_json::Value =
-                    serde_json::from_str(&String::from_utf8(raw[..(size as usize)].to_vec())?)?;
+                    serde_json::from_str(&String::from_utf8(bytes.to_vec())?)?;
                 Ok(Value::from(&v))
             }
             _ => err!(Error::Validation(format!("invalid serialization kind {kind}"))),
-- 
2.43.0


From 18b7ec4adbcdc70125f7491cbdda55511fc0a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 14/30] fix: refuse sizes and versions that do not fit a
 version string

---
 src/core/common.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index 784f44f..a5c8a38 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -213,6 +213,17 @@ pub fn versify(
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
 
+    if version.major > 0xf || version.minor > 0xf {
+        return err!(Error::Validation(format!(
+            "version {}.{} does not fit a version string",
+            version.major, version.minor
+        )));
+    }
+
+    if size > 0xffffff {
+        return err!(Error::Validation(format!("size {size} does not fit a version string")));
+    }
+
     Ok(format!(
         "{ident}{major:01x}{minor:01x}{kind}{size:06x}_",
         major = version.major,
-- 
2.43.0


From 050e0572cd27a7b3dad378c03e7bdbcd2b54c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 15/30] fix: convert json numbers outside the 64-bit integer
 range instead of panicking

---
 src/data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b96be4d..4a82bc0 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -284,10 +284,10 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    Self::Number(Number::from(n.as_f64().unwrap()))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
-- 
2.43.0


From 769acfc7d9ecad35374a26c2478fac525b379778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 16/30] fix: return an error instead of panicking when a
 message lacks a required field

---
 src/core/creder.rs   |  4 ++--
 src/core/prefixer.rs |  4 ++--
 src/core/sadder.rs   |  6 +++---
 src/core/saider.rs   |  2 +-
 src/core/serder.rs   |  6 +++---
 src/data.rs          | 11 +++++++++++
 6 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/core/creder.rs b/src/core/creder.rs
index 33b7962..6867db8 100644
--- a/src/core/creder.rs
+++ b/src/core/creder.rs
@@ -55,11 +55,11 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        self.ked().field(Ids::i)?.to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        self.ked().field(Ids::s)?.to_string()
     }
 
     pub fn subject(&self) -> Value {
diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 1ffeec2..a927be5 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -56,7 +56,7 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
     let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = ked.field(label)?.to_string()?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -332,7 +332,7 @@ impl Prefixer {
 
         let prefixed = prefixed.unwrap_or(false);
         let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = ked.field(label)?.to_string()?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 5ad2cc4..2d2ea30 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -114,7 +114,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -144,7 +144,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -174,7 +174,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
diff --git a/src/core/saider.rs b/src/core/saider.rs
index 1818b21..146dac3 100644
--- a/src/core/saider.rs
+++ b/src/core/saider.rs
@@ -233,7 +233,7 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
+        if prefixed && sad.field(label)?.to_string()? != self.qb64()? {
             return Ok(false);
         }
 
diff --git a/src/core/serder.rs b/src/core/serder.rs
index 8286e72..c627b71 100644
--- a/src/core/serder.rs
+++ b/src/core/serder.rs
@@ -133,7 +133,7 @@ impl Serder {
     pub fn sner(&self) -> Result<Number> {
         let label = Ids::s;
 
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(None, Some(&self.ked.field(label)?.to_string()?), None, None, None, None, None)
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -173,7 +173,7 @@ impl Serder {
 
     pub fn pre(&self) -> Result<String> {
         let label = Ids::i;
-        self.ked[label].to_string()
+        self.ked.field(label)?.to_string()
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -184,7 +184,7 @@ impl Serder {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
         let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = self.ked.field(label)?.to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
diff --git a/src/data.rs b/src/data.rs
index 4a82bc0..ca80f25 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -102,6 +102,17 @@ impl Value {
         }
     }
 
+    // value behind a label, an error (rather than a panic, as with indexing) when there is none
+    pub(crate) fn field(&self, label: &str) -> Result<&Value> {
+        match self {
+            Self::Object(map) => match map.get(label) {
+                Some(value) => Ok(value),
+                None => err!(CESRError::Value(format!("missing field {label}"))),
+            },
+            _ => err!(CESRError::Conversion("cannot convert to map".to_string())),
+        }
+    }
+
     pub fn to_json(&self) -> Result<String> {
         Ok(match self {
             Self::Null => "null".to_string(),
-- 
2.43.0


From 082f1939eebf9c7c62f48195cdf79f12cc6ce3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 17/30] fix: return an error instead of panicking when the data
 to be addressed is not a map

---
 src/core/saider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/saider.rs b/src/core/saider.rs
index 146dac3..119dd79 100644
--- a/src/core/saider.rs
+++ b/src/core/saider.rs
@@ -61,7 +61,7 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
-    let mut sad = sad.clone();
+    let mut sad = dat!(&sad.to_map()?);
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
 
-- 
2.43.0


From 4dbf29e361aaae789e743830a5391df6b075bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 18/30] fix: cut pretty printed messages at a character
 boundary

---
 src/core/sadder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 2d2ea30..bb062e0 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -199,8 +199,11 @@ pub trait Sadder: Default + Clone {
         let v: serde_json::Value = serde_json::from_str(&self.ked().to_json()?)?;
         match serde_json::to_string_pretty(&v) {
             Ok(s) => {
-                let size = size.unwrap_or(1024);
+                let mut size = size.unwrap_or(1024);
                 if s.len() > size {
+                    while !s.is_char_boundary(size) {
+                        size -= 1;
+                    }
                     Ok(s[..size].to_string())
                 } else {
                     Ok(s)
-- 
2.43.0


From a9a318914c40b1bb9f6fa8adeb41abc43276134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 19/30] fix: strip the first occurrence of every root element
 and leave unrelated paths alone

---
 src/core/pather.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 0cd679d..352ce45 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -134,19 +134,18 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
         let mut path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
         if root_path.len() > path.len() {
             return Ok(self.clone());
         }
 
-        root_path.reverse();
         for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
+            match path.iter().position(|e| *e == p) {
+                Some(i) => path.remove(i),
+                None => return Ok(self.clone()),
+            };
         }
 
         Pather::new_with_path(&dat!(path.as_slice()))
-- 
2.43.0


From ece8fbe09dc488b6e76cffceec4235f22647a7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 20/30] fix: restore the high half when converting a wasm
 128-bit number back

---
 wasm/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/util.rs b/wasm/src/util.rs
index 5e76457..f7d1490 100644
--- a/wasm/src/util.rs
+++ b/wasm/src/util.rs
@@ -15,7 +15,7 @@ impl From<u128> for U128Wrapper {
 
 impl From<U128Wrapper> for u128 {
     fn from(val: U128Wrapper) -> Self {
-        u128::from(val.high) | u128::from(val.low)
+        (u128::from(val.high) << 64) | u128::from(val.low)
     }
 }
 
-- 
2.43.0


From 18c2add7c1f779c62fb838c3f00a0acd07a20749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 21/30] fix: hand out maps as json in the wasm bindings instead
 of panicking

---
 wasm/src/primitives/saider.rs | 2 +-
 wasm/src/primitives/serder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/src/primitives/saider.rs b/wasm/src/primitives/saider.rs
index be57d62..67d9abf 100644
--- a/wasm/src/primitives/saider.rs
+++ b/wasm/src/primitives/saider.rs
@@ -80,7 +80,7 @@ impl SaiderWrapper {
         .as_js()?;
         Ok(SaidifyRet {
             saider: SaiderWrapper(ret.0),
-            value: ret.1.to_string().expect("unable unwrap value"),
+            value: ret.1.to_json().expect("unable unwrap value"),
         })
     }
 
diff --git a/wasm/src/primitives/serder.rs b/wasm/src/primitives/serder.rs
index c85d597..039db97 100644
--- a/wasm/src/primitives/serder.rs
+++ b/wasm/src/primitives/serder.rs
@@ -111,7 +111,7 @@ impl SerderWrapper {
     }
 
     pub fn ked(&self) -> ValueWrapper {
-        let value = self.0.ked().to_string().expect("unable unwrap value");
+        let value = self.0.ked().to_json().expect("unable unwrap value");
         ValueWrapper(value)
     }
 
-- 
2.43.0


From a5fb44860993c56d86b9aa7857fe71a7cc0fc4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 22/30] fix: derive non-transferable prefixes from events with
 empty lists

---
 src/core/prefixer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index a927be5..3b9343a 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -85,6 +85,14 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+fn is_empty(value: &Value) -> bool {
+    match value {
+        Value::String(s) => s.is_empty(),
+        Value::Array(a) => a.is_empty(),
+        _ => false,
+    }
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -110,17 +118,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
-- 
2.43.0


From d354d2bc98e8f23a3ff27b6a48e8cfe078cf957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 23/30] fix: add threshold weights exactly, or return an error,
 instead of overflowing 32-bit rationals

---
 src/core/tholder.rs | 50 +++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 39b3bad..cc07063 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -8,7 +8,6 @@ use crate::{
     error::{err, Error, Result},
 };
 
-use lazy_static::lazy_static;
 use num_rational::Rational32;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -65,13 +64,7 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
-
-        for weight in clause {
-            sum += weight;
-        }
-
-        if sum < Rational32::new(1, 1) {
+        if !reaches_one(clause.iter())? {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -82,6 +75,32 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     Ok(clauses)
 }
 
+// whether non-negative weights add up to at least one, an error when the exact sum does not fit
+fn reaches_one<'a>(weights: impl Iterator<Item = &'a Rational32>) -> Result<bool> {
+    let mut sum = (0i128, 1i128);
+    for weight in weights {
+        let (numer, denom) = (*weight.numer() as i128, *weight.denom() as i128);
+        let (mut gcd, mut rest) = (sum.1, denom);
+        while rest != 0 {
+            (gcd, rest) = (rest, gcd % rest);
+        }
+        let (left, right) = (denom / gcd, sum.1 / gcd);
+        let scaled = match (sum.0.checked_mul(left), sum.1.checked_mul(left)) {
+            (Some(n), Some(d)) => (n, d),
+            _ => return err!(Error::Value("sum of weights out of range".to_string())),
+        };
+        // numer <= denom, so this cannot exceed twice the scaled denominator
+        sum = match numer.checked_mul(right).and_then(|n| n.checked_add(scaled.0)) {
+            Some(n) => (n, scaled.1),
+            None => return err!(Error::Value("sum of weights out of range".to_string())),
+        };
+        if sum.0 >= sum.1 {
+            return Ok(true);
+        }
+    }
+    Ok(false)
+}
+
 fn rationals_to_bext(clauses: &Vec<Vec<Rational32>>) -> String {
     let mut envelope: Vec<String> = Vec::new();
     for clause in clauses {
@@ -221,10 +240,6 @@ impl Tholder {
     }
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
-        lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
-        }
-
         let mut indices = indices.to_vec();
         indices.sort();
         indices.dedup();
@@ -241,16 +256,11 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
-            for weight in clause {
-                if sats[wio] {
-                    cw += weight;
-                }
-                wio += 1;
-            }
-            if cw < *RATIONAL_ONE {
+            let held = clause.iter().zip(&sats[wio..]).filter(|(_, sat)| **sat).map(|(w, _)| w);
+            if !reaches_one(held)? {
                 return Ok(false);
             }
+            wio += clause.len();
         }
 
         Ok(true)
-- 
2.43.0


From 9943eba13285241dc38a677e7bf1b34255c1f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:52 +0000
Subject: [PATCH 24/30] fix: do not copy whole binary material, which may be
 secret, to read its code

---
 src/core/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/util.rs b/src/core/util.rs
index 0ac0b2e..2056de0 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -256,6 +256,8 @@ pub fn nab_sextets(binary: &[u8], count: usize) -> Result<Vec<u8>> {
         return err!(Error::TooSmall(n - binary.len()));
     }
 
+    // only the bytes that hold the sextets are copied, the material after them may be secret
+    let binary = &binary[..n];
     let bps = 3 - (binary.len() % 3);
     let mut padded = vec![0; binary.len() + bps];
     padded[..binary.len()].copy_from_slice(binary);
-- 
2.43.0


From 262a4bad2bce0bbf0d30d2ed60016dca5db46566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 25/30] fix: leave no unwiped copy of the text when converting
 between text and its bytes

---
 src/core/matter/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index afa4ef6..3cb6ef7 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -129,10 +129,10 @@ pub trait Matter: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = std::str::from_utf8(qb64b)?;
 
         let mut matter = Self::default();
-        matter.exfil(&qb64)?;
+        matter.exfil(qb64)?;
         Ok(matter)
     }
 
@@ -150,7 +150,7 @@ pub trait Matter: Default {
     }
 
     fn qb64b(&self) -> Result<Vec<u8>> {
-        Ok(self.qb64()?.as_bytes().to_vec())
+        Ok(self.qb64()?.into_bytes())
     }
 
     fn qb2(&self) -> Result<Vec<u8>> {
-- 
2.43.0


From d586e42b25cfab313a6e96b1c516c8367f60f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 26/30] fix: wipe the copies of a seed or salt used to sign, to
 derive its public key and to stretch

---
 src/core/salter.rs | 4 ++--
 src/core/signer.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/salter.rs b/src/core/salter.rs
index 9eb5e90..27b9e31 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{Zeroize, ZeroizeOnDrop, Zeroizing};
 
 use crate::{
     core::{
@@ -93,7 +93,7 @@ impl Salter {
         let path = path.unwrap_or("");
         let size = size.unwrap_or(32);
 
-        let seed = salt::stretch(path.as_bytes(), &self.raw(), size, tier)?;
+        let seed = salt::stretch(path.as_bytes(), &Zeroizing::new(self.raw()), size, tier)?;
 
         Ok(seed)
     }
diff --git a/src/core/signer.rs b/src/core/signer.rs
index ce44db3..dda2105 100644
--- a/src/core/signer.rs
+++ b/src/core/signer.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{Zeroize, ZeroizeOnDrop, Zeroizing};
 
 use crate::core::{
     cigar::Cigar,
@@ -151,7 +151,7 @@ impl Signer {
             _ => return err!(Error::UnexpectedCode(self.code())),
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &Zeroizing::new(self.raw()), ser)?;
         Cigar::new(Some(&self.verfer()), Some(code), Some(&sig), None, None, None)
     }
 
@@ -203,7 +203,7 @@ impl Signer {
             (code, Some(ondex))
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &Zeroizing::new(self.raw()), ser)?;
         Siger::new(
             Some(&self.verfer()),
             Some(index),
@@ -221,7 +221,7 @@ impl Signer {
     }
 
     fn derive_and_assign_verfer(&mut self, transferable: bool) -> Result<()> {
-        self.verfer = derive_verfer(&self.code(), &self.raw(), transferable)?;
+        self.verfer = derive_verfer(&self.code(), &Zeroizing::new(self.raw()), transferable)?;
         Ok(())
     }
 }
-- 
2.43.0


From b00ca2e020b2f6be75282d8884ff016e4350c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 27/30] fix: strip and recognise a root only as the leading
 elements of a path

---
 src/core/pather.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 352ce45..b9dfd6e 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -135,24 +135,23 @@ impl Pather {
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
         let root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        if root_path.len() > path.len() {
+        if !path.starts_with(&root_path) {
             return Ok(self.clone());
         }
 
-        for p in root_path {
-            match path.iter().position(|e| *e == p) {
-                Some(i) => path.remove(i),
-                None => return Ok(self.clone()),
-            };
-        }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
+        Pather::new_with_path(&dat!(&path[root_path.len()..]))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-        Ok(self.bext()?.starts_with(&path.bext()?))
+        let bext = path.bext()?;
+
+        // a root ends where an element ends
+        Ok(match self.bext()?.strip_prefix(&bext) {
+            Some(rest) => rest.is_empty() || rest.starts_with('-') || bext == "-",
+            None => false,
+        })
     }
 
     pub fn resolve(&self, sad: &Value) -> Result<Value> {
-- 
2.43.0


From 12bd092efa40b01c9f803f7fd6b08e7cd379bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:30 +0000
Subject: [PATCH 28/30] fix: refuse date-time texts that are too long instead
 of dropping their end

---
 src/core/dater.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/dater.rs b/src/core/dater.rs
index 81d8ddd..42561d3 100644
--- a/src/core/dater.rs
+++ b/src/core/dater.rs
@@ -54,6 +54,10 @@ impl Dater {
         let dater: Self = if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let b64 = if let Some(dts) = dts { iso_8601_to_b64(dts) } else { now_as_b64() };
             let qb64 = format!("{}{}", matter::Codex::DateTime, &b64);
+            // material beyond the full size would be dropped, changing the date-time
+            if qb64.len() > matter::sizage(matter::Codex::DateTime)?.fs as usize {
+                return err!(Error::Value(format!("date-time text too long: {b64}")));
+            }
             Matter::new(code, raw, qb64b, Some(&qb64), qb2)?
         } else {
             Matter::new(code, raw, qb64b, qb64, qb2)?
-- 
2.43.0


From c70ee5eab1f15bb7e0e2871dee1628a2daba6c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:54 +0000
Subject: [PATCH 29/30] fix: refuse to qualify material whose length its code
 or size does not fit

---
 src/core/matter/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 3cb6ef7..24d5166 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -227,12 +227,17 @@ pub trait Matter: Default {
             b64_engine::URL_SAFE.encode_slice(&buffer, &mut b64_vec)?;
             // this does a transmute of pointers under the hood so zeroizing the vec should be enough
             let b64 = std::str::from_utf8(&b64_vec)?;
+            if b64.len() != size as usize * 4 {
+                return err!(Error::InvalidCodeSize(format!(
+                    "invalid size for raw material: code = '{both}', size = {size}",
+                )));
+            }
             Ok(format!("{both}{b64}"))
         } else {
             let both = code;
             let cs = both.len();
 
-            if (cs % 4) as u32 != ps as u32 - szg.ls {
+            if cs % 4 + szg.ls as usize != ps {
                 return err!(Error::InvalidCodeSize(format!(
                     "invalid code for converted raw pad size: code = '{both}', pad size = {ps}",
                 )));
@@ -245,6 +250,11 @@ pub trait Matter: Default {
             let mut b64_vec = Zeroizing::new(vec![0u8; buffer.len() * 4 / 3]);
             b64_engine::URL_SAFE.encode_slice(&buffer, &mut b64_vec)?;
             let b64 = std::str::from_utf8(&b64_vec)?;
+            if cs + b64.len() - cs % 4 != szg.fs as usize {
+                return err!(Error::InvalidCodeSize(format!(
+                    "invalid code for raw size: code = '{both}', pad size = {ps}",
+                )));
+            }
             Ok(format!("{both}{}", &b64[cs % 4..]))
         }
     }
@@ -548,7 +558,7 @@ pub trait Matter: Default {
         if sizage.fs != u32::MAX {
             Ok(sizage.fs as usize)
         } else {
-            Ok((sizage.hs + sizage.ss + self.size() * 4) as usize)
+            Ok((sizage.hs + sizage.ss) as usize + self.size() as usize * 4)
         }
     }
 }
-- 
2.43.0


From d990d5112b3855a65ab9cf67f32aaf30b964936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:48 +0000
Subject: [PATCH 30/30] fix: refuse base64 counts beyond 32 bits instead of
 wrapping them

---
 src/core/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/util.rs b/src/core/util.rs
index 2056de0..47fd05d 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -146,6 +146,10 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        // another character must not push the value out of range
+        if out >> 26 != 0 {
+            return err!(Error::Conversion(format!("base64 value too large: {b64}")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
-- 
2.43.0

