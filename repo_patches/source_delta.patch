From 5a4ce69f0621cb82e54fd0fa5ed8ff26c06404e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 01/11] fix: apply deep-space secular, resonance and
 lunar-solar periodic corrections

sgp4() computed the deep-space corrections but discarded them: only the
eccentricity from dspace() was used, and the periodic corrections of dpper()
were bound to names that went out of scope immediately.
---
 src/propogation/sgp4.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index 048c117..ffb9ba7 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -127,7 +127,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let delomg;
     let mut eo1;
     let mut argpm;
-    let argpp;
+    let mut argpp;
     let mut su;
     let t3;
     let t4;
@@ -137,14 +137,14 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut tempa;
     let mut tempe;
     let mut templ;
-    let inclm;
+    let mut inclm;
     let mut mm;
     let mut nm;
     let mut nodem;
     let mut xincp;
     let mut xlm;
-    let mp;
-    let nodep;
+    let mut mp;
+    let mut nodep;
 
     /* ------------------ set mathematical constants --------------- */
     // sgp4fix divisor for divide by zero check on inclination
@@ -232,15 +232,12 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
 
         let dspace_result = crate::propogation::dspace::dspace(dspace_options);
 
-        let crate::propogation::dspace::DspaceResult {
-            argpm: _,
-            inclm: _,
-            mm: _,
-            nodem: _,
-            nm: _,
-            ..
-        } = dspace_result;
         em = dspace_result.em;
+        argpm = dspace_result.argpm;
+        inclm = dspace_result.inclm;
+        mm = dspace_result.mm;
+        nodem = dspace_result.nodem;
+        nm = dspace_result.nm;
     }
 
     if nm <= 0.0 {
@@ -285,7 +282,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let cosim = inclm.cos();
 
     // -------------------- add lunar-solar periodics --------------
-    let ep = em;
+    let mut ep = em;
     xincp = inclm;
     argpp = argpm;
     nodep = nodem;
@@ -305,15 +302,11 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         };
 
         let dpper_result = dpper(&satrec, dpper_parameters);
-        let DpperResult {
-            ep,
-            mut nodep,
-            mut argpp,
-            mp: _,
-            ..
-        } = dpper_result;
-
+        ep = dpper_result.ep;
         xincp = dpper_result.inclp;
+        nodep = dpper_result.nodep;
+        argpp = dpper_result.argpp;
+        mp = dpper_result.mp;
 
         if xincp < 0.0 {
             xincp = -xincp;
-- 
2.43.0


From 75059dbb92624979de398300c60c54a8904a2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 02/11] fix: half-day resonance: double all terms in twice the
 mean longitude

The second-derivative terms with argument 2*xli all carry a factor 2 in the
published model; it was applied to the first of them only.
---
 src/propogation/dspace.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/propogation/dspace.rs b/src/propogation/dspace.rs
index d6a1dfd..9ba924f 100644
--- a/src/propogation/dspace.rs
+++ b/src/propogation/dspace.rs
@@ -269,10 +269,11 @@ pub fn dspace(options: DspaceOptions) -> DspaceResult {
                     + (d3222 * ((-xomi + xli) - G32).cos())
                     + (d5220 * ((xomi + xli) - G52).cos())
                     + (d5232 * ((-xomi + xli) - G52).cos())
-                    + (2.0 * d4410 * ((x2omi + x2li) - G44).cos())
-                    + (d4422 * (x2li - G44).cos())
-                    + (d5421 * ((xomi + x2li) - G54).cos())
-                    + (d5433 * ((-xomi + x2li) - G54).cos());
+                    + (2.0
+                        * ((d4410 * ((x2omi + x2li) - G44).cos())
+                            + (d4422 * (x2li - G44).cos())
+                            + (d5421 * ((xomi + x2li) - G54).cos())
+                            + (d5433 * ((-xomi + x2li) - G54).cos())));
                 xnddt *= xldot;
             }
 
-- 
2.43.0


From 517e78f12455ae85252b7222a867468db2e41936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 03/11] fix: eci_to_geodedic: radius of curvature takes the
 square root

---
 src/transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index f8b4577..6f91744 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -85,7 +85,7 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     let mut c: f64 = 0.0;
 
     while k < KMAX {
-        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2)));
+        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
         latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
         k += 1;
     }
-- 
2.43.0


From 7b1859d23c6f1615ab12bfae39762fde87d2b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 04/11] fix: do not drop the fraction of a second of date-times

---
 src/ext.rs             | 2 +-
 src/propogation/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ext.rs b/src/ext.rs
index 7993809..70a0221 100644
--- a/src/ext.rs
+++ b/src/ext.rs
@@ -94,6 +94,6 @@ pub fn jday_datetime(time: DateTime<Utc>) -> f64 {
         time.hour() as f64,
         time.minute() as f64,
         time.second() as f64,
-        0 as f64
+        time.nanosecond() as f64 / 1.0e6
     )
 }
diff --git a/src/propogation/mod.rs b/src/propogation/mod.rs
index 4a4e61d..c63a6e9 100644
--- a/src/propogation/mod.rs
+++ b/src/propogation/mod.rs
@@ -25,7 +25,7 @@ pub fn propogate_datetime(satrec: &Satrec, time: DateTime<Utc>) -> Result<SGP4Re
     time.hour() as f64,
     time.minute() as f64,
     time.second() as f64,
-    0 as f64
+    time.nanosecond() as f64 / 1.0e6
   );
 
   let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
-- 
2.43.0


From 27a1bd9e8bd6940cea13c8e1009f8d60eb19560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 05/11] fix: return an error for lines with missing or split
 columns instead of panicking

---
 src/io.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 5e20020..4c85ce2 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -345,23 +345,31 @@ pub enum SatrecParseError {
 }
 
 
+/// Text of a column range, empty if the line does not have these columns.
+fn columns(line: &str, low: usize, high: usize) -> &str {
+    line.get(low..high).unwrap_or("")
+}
+
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
-    match line[low..high].trim().parse::<f64>() {
+    match columns(line, low, high).trim().parse::<f64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high).to_string()))
     }
 }
 
 fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<i64, SatrecParseError> {
-    match line[low..high].trim().parse::<i64>() {
+    match columns(line, low, high).trim().parse::<i64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high).to_string()))
     }
 }
 
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
     // Parse sat num
-    let satnum = str1[2..7].trim();
+    let satnum = match str1.get(2..7) {
+        Some(text) => text.trim(),
+        None => return Err(SatrecParseError::CompoundError("satnum", str1.to_string()))
+    };
 
     // Parse epoch
     let epochyr = parse_int(str1, "epochyr", 18, 20)?;
@@ -372,7 +380,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
 
     // Parse nndot
     let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = str1[50..52].to_string();
+    let nddot_1 = columns(str1, 50, 52).to_string();
     let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
@@ -381,9 +389,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     };
 
     // Parse bstar
-    let bstar_0 = str1[53..54].to_string();
+    let bstar_0 = columns(str1, 53, 54).to_string();
     let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
-    let bstar_2 = str1[59..61].to_string();
+    let bstar_2 = columns(str1, 59, 61).to_string();
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
@@ -395,7 +403,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
 
     // Parse ecco
-    let ecco_str = format!(".{}", str2[26..33].trim().to_string());
+    let ecco_str = format!(".{}", columns(str2, 26, 33).trim().to_string());
     let ecco = match ecco_str.trim().parse::<f64>() {
         Ok(res) => res,
         Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
-- 
2.43.0


From 072436527edf6ea13d37210c50fdcd3d980783e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 06/11] fix: read names without panicking, and only drop a real
 "0 " marker

A name line "0" panicked, a name starting with the digit 0 lost two
characters, and parse() kept a carriage return at the end of the name.
---
 src/io.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 4c85ce2..ea4451b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -230,6 +230,11 @@ impl Satrec {
     }
 }
 
+/// Name held by a name line: its text without the optional "0 " line marker.
+fn entry_name(line: &str) -> String {
+    line.strip_prefix("0 ").unwrap_or(line).trim().to_string()
+}
+
 pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let lines = string.split("\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
     let mut recs : Vec<Satrec> = vec![];
@@ -240,12 +245,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
         if lines[i].trim().len() != 25 && i + 2 < lines.len() {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
-                    if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                        rec.name = Some(lines[i][2..].trim().to_string());
-                    } else {
-                        rec.name = Some(lines[i].trim().to_string());
-                    }
-
+                    rec.name = Some(entry_name(lines[i]));
                     recs.push(rec);
                 },
                 Err(err) => {
@@ -286,12 +286,7 @@ pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
         // Because this is a 3le, we have a name. Extract/save it.
         match satrec {
             Ok(mut satrec) => {
-                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                    satrec.name = Some(lines[0][2..].to_string());
-                } else {
-                    satrec.name = Some(lines[0].to_string());
-                }
-
+                satrec.name = Some(entry_name(lines[0]));
                 return Ok(satrec)
             },
             Err(err) => { return Err(err) }
-- 
2.43.0


From f0a89615e81a3b80d7dc944e2d96765edbe579c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 07/11] fix: report malformed real fields as FloatParseError

---
 src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index ea4451b..1a20649 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -348,7 +348,7 @@ fn columns(line: &str, low: usize, high: usize) -> &str {
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
     match columns(line, low, high).trim().parse::<f64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high).to_string()))
+        Err(num) => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high).to_string()))
     }
 }
 
-- 
2.43.0


From d3667bace131e3a3630962c3f73745d866a88178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 08/11] fix: reject NaN and infinite element values

---
 src/io.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 1a20649..595f760 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -347,8 +347,8 @@ fn columns(line: &str, low: usize, high: usize) -> &str {
 
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
     match columns(line, low, high).trim().parse::<f64>() {
-        Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high).to_string()))
+        Ok(res) if res.is_finite() => Ok(res),
+        _ => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high).to_string()))
     }
 }
 
@@ -379,8 +379,8 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
-            Ok(res) => res / (XPDOTP * 1440.0 * 1440.0),
-            Err(_) => return Err(SatrecParseError::CompoundError("nndot", nndot_str))
+            Ok(res) if res.is_finite() => res / (XPDOTP * 1440.0 * 1440.0),
+            _ => return Err(SatrecParseError::CompoundError("nndot", nndot_str))
     };
 
     // Parse bstar
@@ -390,8 +390,8 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
-        Ok(res) => res,
-        Err(_) => return Err(SatrecParseError::CompoundError("bstr", bstar_str))
+        Ok(res) if res.is_finite() => res,
+        _ => return Err(SatrecParseError::CompoundError("bstr", bstar_str))
     };
 
     let inclo = parse_float(str2, "inclo", 8, 16)? * DEG_2_RAD;
@@ -400,8 +400,8 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     // Parse ecco
     let ecco_str = format!(".{}", columns(str2, 26, 33).trim().to_string());
     let ecco = match ecco_str.trim().parse::<f64>() {
-        Ok(res) => res,
-        Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
+        Ok(res) if res.is_finite() => res,
+        _ => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
     };
 
     let argpo = parse_float(str2, "argpo", 34, 42)? * DEG_2_RAD;
-- 
2.43.0


From 69418819e84a7b28f95d07aa0e2eeba0e78b30a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 09/11] fix: keep sign and leading zeros of implied-decimal
 fields

The mantissas of the second derivative and of the drag term were parsed as
integers and printed again, which lost leading zeros (00123 read as .123) and
rejected negative second derivatives.
---
 src/io.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 595f760..1f404bc 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -374,9 +374,14 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let ndot = parse_float(str1, "ndot", 33, 43)?  / (XPDOTP * 1440.0);;
 
     // Parse nndot
-    let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
+    parse_int(str1, "nndot frac", 44, 50)?;
+    let nddot_0 = columns(str1, 44, 50).trim();
+    let (nddot_sign, nddot_0) = match nddot_0.strip_prefix('-') {
+        Some(digits) => ("-", digits),
+        None => ("", nddot_0.strip_prefix('+').unwrap_or(nddot_0))
+    };
     let nddot_1 = columns(str1, 50, 52).to_string();
-    let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
+    let nndot_str = format!("{}.{}E{}", nddot_sign, nddot_0, nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
             Ok(res) if res.is_finite() => res / (XPDOTP * 1440.0 * 1440.0),
@@ -385,7 +390,8 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
 
     // Parse bstar
     let bstar_0 = columns(str1, 53, 54).to_string();
-    let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
+    parse_int(str1, "bstar frac", 54, 59)?;
+    let bstar_1 = columns(str1, 54, 59).trim();
     let bstar_2 = columns(str1, 59, 61).to_string();
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
-- 
2.43.0


From 78ca503f834f807322797e8988c595cbb7b17f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 10/11] fix: parse_multiple: tell names from element lines by
 their content

Any first line that was not 25 characters long was taken for a name, so
unnamed sets were only read at the end of the text and 25-character names
were read as element lines.
---
 src/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 1f404bc..e42c010 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -241,8 +241,9 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let mut errors: Vec<SatrecParseError> = vec![];
     let mut i = 0;
     while i < lines.len() {
-        // If line 1 is not equal to a line operator, try next.
-        if lines[i].trim().len() != 25 && i + 2 < lines.len() {
+        // Unless a pair of element lines starts here, this line is a name.
+        let unnamed = lines[i].starts_with("1 ") && i + 1 < lines.len() && lines[i + 1].starts_with("2 ");
+        if !unnamed && i + 2 < lines.len() {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
                     rec.name = Some(entry_name(lines[i]));
-- 
2.43.0


From 07862868b920570b3096c6c9f10a4dedf77b83a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 11/11] fix: reject a drag term whose sign column is part of a
 wider character

---
 src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index e42c010..6086559 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -390,7 +390,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     };
 
     // Parse bstar
-    let bstar_0 = columns(str1, 53, 54).to_string();
+    let bstar_0 = str1.get(53..54).unwrap_or("?").to_string(); // not a sign if unreadable
     parse_int(str1, "bstar frac", 54, 59)?;
     let bstar_1 = columns(str1, 54, 59).trim();
     let bstar_2 = columns(str1, 59, 61).to_string();
-- 
2.43.0

