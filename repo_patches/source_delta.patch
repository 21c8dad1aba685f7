From 76129da5cf8106d097e4bfef08d8b8de24e5a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 01/24] fix: do not strip the region's IDD from a number that
 starts with a plus

After a plus the digits are the country code. Stripping whatever matches the
reference region's IDD made the result depend on the region: with FI,
+994501234567 became +501..., with CL +12205551234 became +55...
A redundant IDD starting with 0 (+0064...) is still removed.
---
 src/parser/helper.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fb6dc53..d2f75e7 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -245,11 +245,11 @@ pub fn international_prefix<'a>(idd: Option<&Regex>, mut number: Number<'a>) ->
         number.national = trim(number.national, start);
         number = normalize(number, mappings);
 
-        if !idd
-            .and_then(|re| re.find(&number.national))
-            .map(|m| m.start() == 0)
-            .unwrap_or(false)
-        {
+        // A plus already introduces the country code, and no country code
+        // starts with a 0: only a redundant IDD such as the 00 in "+0064" can
+        // follow it. Anything else is the country code itself, even if it looks
+        // like the IDD of the reference region (e.g. 99x in FI).
+        if !number.national.starts_with('0') {
             return number;
         }
     } else {
-- 
2.43.0


From a354658b2ad8b4bcb3f6d34e99ce1dc7bb41225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 02/24] fix: return an error when the reference region is not
 in the database

country_code unwrapped the lookup, so parse_with panicked for any region the
given database does not contain.
---
 src/parser/helper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index d2f75e7..49290e9 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -191,7 +191,9 @@ pub fn country_code<'a>(
 
         country::Source::Default => {
             if let Some(country) = country {
-                let meta = database.by_id(country.as_ref()).unwrap();
+                let meta = database
+                    .by_id(country.as_ref())
+                    .ok_or(error::Parse::InvalidCountryCode)?;
                 let code = meta.country_code.to_string();
 
                 if number.national.starts_with(&code)
-- 
2.43.0


From fe52ec7f597071bcf47429e529193ee52e2b5f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 03/24] fix: do not panic on region ids that are not CLDR
 country ids

A database whose shared calling code lists a region that country::Id cannot
name made source_for panic; it now reports no region, as the single region
path already does.
---
 src/validator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index fb6ba37..4ca52f2 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -165,11 +165,11 @@ pub fn source_for(
         if let Some(pattern) = meta.leading_digits.as_ref() {
             if let Some(index) = pattern.find(national) {
                 if index.start() == 0 {
-                    return Some(Left(region.parse().unwrap()));
+                    return region.parse().ok().map(Left);
                 }
             }
         } else if number_type(meta, national) != Type::Unknown {
-            return Some(Left(region.parse().unwrap()));
+            return region.parse().ok().map(Left);
         }
     }
 
-- 
2.43.0


From ec929401d0cdb45384e805d1d9e92f1d06bca5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 04/24] fix: keep the national prefix when removing it would
 make the number unviable

The check looked at the number before stripping ([start..], start being 0), and
the branch without a nationalPrefixForParsing did not check at all.
---
 src/parser/helper.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 49290e9..bedc1e0 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -287,7 +287,13 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
         re
     } else {
         if let Some(prefix) = meta.national_prefix.as_ref() {
-            if number.national.starts_with(prefix) {
+            if number.national.starts_with(prefix)
+                && (!meta.descriptors.general.is_match(&number.national)
+                    || meta
+                        .descriptors
+                        .general
+                        .is_match(&number.national[prefix.len()..]))
+            {
                 number.national = trim(number.national, prefix.len());
             }
         }
@@ -320,7 +326,7 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
         .unwrap();
 
     if transform.is_none() || last.is_none() {
-        if viable && !meta.descriptors.general.is_match(&number.national[start..]) {
+        if viable && !meta.descriptors.general.is_match(&number.national[end..]) {
             return number;
         }
 
-- 
2.43.0


From 8ba601cddda22403afe36575ece511d21976287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 05/24] fix: only report a carrier code that the national
 prefix pattern captured

captures_len() counts the whole match as group 0, so a pattern without any
group reported the national prefix itself as the carrier (GB 0...), and a
pattern with one group, which feeds the transform rule, reported that. The
first group of a transform pattern may also not participate: do not unwrap it.
---
 src/parser/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index bedc1e0..e9d2b2b 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -330,7 +330,7 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
             return number;
         }
 
-        number.carrier = last.filter(|_| groups > 0).map(Into::into);
+        number.carrier = last.filter(|_| groups > 1).map(Into::into);
 
         number.national = trim(number.national, end);
     } else if let Some(transform) = transform {
@@ -340,7 +340,7 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
             return number;
         }
 
-        number.carrier = Some(first.unwrap().into());
+        number.carrier = first.filter(|_| groups > 2).map(Into::into);
         number.national = transformed.into();
     }
 
-- 
2.43.0


From 5b253c2776e3f3ddef1c62985c673099b44e99be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 06/24] fix: do not strip the national prefix a second time

helper::national_number already removes it, after checking that the number
stays viable. The second, unchecked removal ate significant digits
(+375 8011234567 became 11234567).
---
 src/parser/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1db0b32..c5c0901 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -84,14 +84,7 @@ pub fn parse_with<S: AsRef<str>>(
 
     // Extract carrier and strip national prefix if present.
     if let Some(meta) = meta {
-        let mut potential = helper::national_number(meta, number.clone());
-
-        // Strip national prefix if present.
-        if let Some(prefix) = meta.national_prefix.as_ref() {
-            if potential.national.starts_with(prefix) {
-                potential.national = helper::trim(potential.national, prefix.len());
-            }
-        }
+        let potential = helper::national_number(meta, number.clone());
 
         if validator::length(meta, &potential, Type::Unknown) != Validation::TooShort {
             number = potential;
-- 
2.43.0


From e7362449a6b24ac129382e525eb7f702a19deee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 07/24] fix: report a descriptor without nationalNumberPattern
 instead of panicking

The unwraps made the MissingValue error below them unreachable.
---
 src/metadata/database.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index a15e852..409d426 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -68,9 +68,6 @@ impl Database {
 
         let descriptor =
             |desc: loader::Descriptor| -> Result<super::Descriptor, error::LoadMetadata> {
-                desc.national_number.as_ref().unwrap();
-                desc.national_number.as_ref().unwrap();
-
                 Ok(super::Descriptor {
                     national_number: desc
                         .national_number
-- 
2.43.0


From b82536fc0a57d09ad459505d85a13545eab1e92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 08/24] fix: match descriptors against the whole national
 number

The pattern was only required to match at the start, so digits beyond a valid
number went unnoticed for every descriptor that does not list its lengths,
e.g. +39 023661830000.
---
 src/metadata/database.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 409d426..c482bc7 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -77,6 +77,8 @@ impl Database {
                                 name: "national_number".into(),
                             })
                         })
+                        // The whole number has to match, not just its beginning.
+                        .map(|value| format!("^(?:{value}\n)$"))
                         .and_then(regex)?,
 
                     possible_length: desc.possible_length,
-- 
2.43.0


From eca0f225ef2483eaedeefccb39e62cc6713a6cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 09/24] fix: do not truncate the length of a value a descriptor
 is matched against

A value of 65536 + n bytes passed for one of n digits.
---
 src/metadata/descriptor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metadata/descriptor.rs b/src/metadata/descriptor.rs
index ce6b7d7..b0860aa 100644
--- a/src/metadata/descriptor.rs
+++ b/src/metadata/descriptor.rs
@@ -72,7 +72,8 @@ impl Descriptor {
 
     /// Check if the descriptor matches the given national number.
     pub fn is_match(&self, value: &str) -> bool {
-        if !self.possible_length.is_empty() && !self.possible_length.contains(&(value.len() as u16))
+        if !self.possible_length.is_empty()
+            && !u16::try_from(value.len()).is_ok_and(|len| self.possible_length.contains(&len))
         {
             return false;
         }
-- 
2.43.0


From 0c92a0660abcd04e3afed9881cca6e670015abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 10/24] fix: derive the general lengths from the typed
 descriptors

The metadata lists possible lengths per type only, so the general descriptor
had none and validator::length() called every number InvalidLength: national
numbers that begin with their own calling code lost it (IT 393 123 4567), and
a number was never found too short to lose its national prefix.
---
 src/metadata/database.rs | 65 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index c482bc7..74f87a8 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -39,6 +39,52 @@ pub struct Database {
     regions: FnvHashMap<u16, Vec<String>>,
 }
 
+/// The lengths and the local-only lengths of the general description: those of
+/// any type of number, sorted. The general description itself does not list any.
+fn general_lengths(meta: &loader::Metadata) -> (Vec<u16>, Vec<u16>) {
+    fn merge(result: &mut Vec<u16>, lengths: &[u16]) {
+        for &length in lengths {
+            if !result.contains(&length) {
+                result.push(length);
+            }
+        }
+    }
+
+    let mut possible = Vec::new();
+    let mut local = Vec::new();
+
+    // Numbers that cannot be dialled internationally are also of another type.
+    for desc in [
+        &meta.general,
+        &meta.fixed_line,
+        &meta.mobile,
+        &meta.toll_free,
+        &meta.premium_rate,
+        &meta.shared_cost,
+        &meta.personal_number,
+        &meta.voip,
+        &meta.pager,
+        &meta.uan,
+        &meta.emergency,
+        &meta.voicemail,
+        &meta.short_code,
+        &meta.standard_rate,
+        &meta.carrier,
+    ]
+    .into_iter()
+    .flatten()
+    {
+        merge(&mut possible, &desc.possible_length);
+        merge(&mut local, &desc.possible_local_length);
+    }
+
+    local.retain(|length| !possible.contains(length));
+    possible.sort_unstable();
+    local.sort_unstable();
+
+    (possible, local)
+}
+
 impl Database {
     /// Load a database from the given file.
     pub fn load<P: AsRef<Path>>(path: P) -> Result<Self, error::LoadMetadata> {
@@ -120,14 +166,21 @@ impl Database {
         };
 
         let metadata = |meta: loader::Metadata| -> Result<super::Metadata, error::LoadMetadata> {
+            let (possible_length, possible_local_length) = general_lengths(&meta);
+
             Ok(super::Metadata {
                 descriptors: super::Descriptors {
-                    general: descriptor(meta.general.ok_or_else(|| {
-                        error::LoadMetadata::from(error::Metadata::MissingValue {
-                            phase: "metadata".into(),
-                            name: "generalDesc".into(),
-                        })
-                    })?)?,
+                    general: super::Descriptor {
+                        possible_length,
+                        possible_local_length,
+
+                        ..descriptor(meta.general.ok_or_else(|| {
+                            error::LoadMetadata::from(error::Metadata::MissingValue {
+                                phase: "metadata".into(),
+                                name: "generalDesc".into(),
+                            })
+                        })?)?
+                    },
 
                     fixed_line: tranpose(meta.fixed_line.map(descriptor))?,
                     mobile: tranpose(meta.mobile.map(descriptor))?,
-- 
2.43.0


From 3944dcd428c1d5faca962fe5eeecb8190809c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 11/24] fix: accept every form of extension the extension
 pattern recognises

The pattern captures the digits in group 1 (;ext=5), 2 (ext. 5) or 3 (- 5#), but
only group 2 was accepted: numbers with the other two were not parsed at all.
---
 src/parser/natural.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/parser/natural.rs b/src/parser/natural.rs
index 6428f5c..e73fff7 100644
--- a/src/parser/natural.rs
+++ b/src/parser/natural.rs
@@ -15,17 +15,15 @@
 use crate::consts;
 use crate::parser::helper::*;
 use nom::IResult;
-use nom::error::ErrorKind;
 
 pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
     let (_, i) = extract(i)?;
     let extension = consts::EXTN_PATTERN.captures(i);
 
-    if let Some(c) = extension.as_ref() {
-        if c.get(0).is_none() || c.get(2).is_none() {
-            return Err(nom::Err::Failure(nom::error::Error::new(i, ErrorKind::Eof)));
-        }
-    }
+    // Every alternative of the pattern captures the digits in its own group.
+    let digits = extension
+        .as_ref()
+        .and_then(|c| c.iter().skip(1).flatten().next());
 
     Ok((
         "",
@@ -36,10 +34,7 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
                 .unwrap_or(i)
                 .into(),
 
-            extension: extension
-                .as_ref()
-                .map(|c| c.get(2).unwrap().as_str())
-                .map(Into::into),
+            extension: digits.map(|m| m.as_str()).map(Into::into),
 
             ..Default::default()
         },
-- 
2.43.0


From fdb4b5e8f383d14d757b17e7098f9c0e0a8090a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 12/24] fix: an extension has at least one digit

The pattern allowed an extension marker without digits, so the x ending a vanity
number (1-800-GO-FEDEX) was taken for an empty extension and cut off. An
extension whose value has no digits (;ext=) is now no extension.
---
 src/consts.rs     | 2 +-
 src/parser/mod.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/consts.rs b/src/consts.rs
index db5f69e..fd92acd 100644
--- a/src/consts.rs
+++ b/src/consts.rs
@@ -312,7 +312,7 @@ pub const DEFAULT_EXTN_PREFIX: &str = " ext. ";
 
 /// Pattern to capture digits used in an extension. Places a maximum length
 /// of "7" for an extension.
-pub static CAPTURING_EXTN_DIGITS: Lazy<String> = Lazy::new(|| format!("({}{{0,7}})", DIGITS));
+pub static CAPTURING_EXTN_DIGITS: Lazy<String> = Lazy::new(|| format!("({}{{1,7}})", DIGITS));
 
 /// Regexp of all possible ways to write extensions, for use when parsing.
 /// This will be run as a case-insensitive regexp match. Wide character
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c5c0901..b799256 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -107,7 +107,10 @@ pub fn parse_with<S: AsRef<str>>(
 
         national: number.national.parse()?,
 
-        extension: number.extension.map(|s| Extension(s.into_owned())),
+        extension: number
+            .extension
+            .filter(|s| !s.is_empty())
+            .map(|s| Extension(s.into_owned())),
         carrier: number.carrier.map(|s| Carrier(s.into_owned())),
     })
 }
-- 
2.43.0


From 14c7e1c53a26dba7ae47954fd23fd2186a595368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 13/24] fix: classify a number with its leading zeros

metadata() and number_type_with() dropped them while is_valid_with() did not, so
+39 0236618300 was valid and of an unknown type.
---
 src/phone_number.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/phone_number.rs b/src/phone_number.rs
index 36a7e69..1c20e8c 100644
--- a/src/phone_number.rs
+++ b/src/phone_number.rs
@@ -206,11 +206,7 @@ impl PhoneNumber {
     /// Get the metadata that applies to this phone number from the given
     /// database.
     pub fn metadata<'a>(&self, database: &'a Database) -> Option<&'a Metadata> {
-        match validator::source_for(
-            database,
-            self.code.value(),
-            &self.national.value().to_string(),
-        )? {
+        match validator::source_for(database, self.code.value(), &self.national.to_string())? {
             Left(region) => database.by_id(region.as_ref()),
             Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),
         }
@@ -234,7 +230,7 @@ impl PhoneNumber {
     /// Determine the [`Type`] of the phone number with the given `Database`.
     pub fn number_type_with(&self, database: &Database) -> Type {
         match self.metadata(database) {
-            Some(metadata) => validator::number_type(metadata, &self.national.value().to_string()),
+            Some(metadata) => validator::number_type(metadata, &self.national.to_string()),
             None => Type::Unknown,
         }
     }
-- 
2.43.0


From 51d804a8b65801f60bc5154ba4bcfab005df0151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 14/24] fix: represent all-zero and over-long runs of leading
 zeros faithfully

A national number of zeros only has its last zero as value (as in
libphonenumber) instead of failing to parse as an empty integer, and a count of
zeros beyond u8 is an error instead of wrapping around.
---
 src/national_number.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index d061926..3fc0163 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -25,10 +25,17 @@ impl FromStr for NationalNumber {
     type Err = crate::error::Parse;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let zeros = s.chars().take_while(|&c| c == '0').count();
+        let mut zeros = s.chars().take_while(|&c| c == '0').count();
+
+        // The last digit belongs to the value, even if it is a zero.
+        if zeros > 0 && zeros == s.len() {
+            zeros -= 1;
+        }
+
         let value = s[zeros..].parse::<u64>()?;
+        let zeros = u8::try_from(zeros).map_err(|_| crate::error::Parse::TooLong)?;
 
-        NationalNumber::new(value, zeros as u8)
+        NationalNumber::new(value, zeros)
     }
 }
 
-- 
2.43.0


From 9a08465c90e66de2b09fb2c4a065e83f166309b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 15/24] fix: a format without leading digits still has to match
 its pattern

&& binds tighter than ||, so such a format was selected for every number.
---
 src/formatter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 288783b..ce06ae4 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -209,18 +209,18 @@ fn formatter<'a>(number: &str, formats: &'a [Format]) -> Option<&'a Format> {
     for format in formats {
         let leading = format.leading_digits();
 
-        if leading.is_empty()
+        if (leading.is_empty()
             || leading
                 .last()
                 .unwrap()
                 .find(number)
                 .map(|m| m.start() == 0)
+                .unwrap_or(false))
+            && format
+                .pattern()
+                .find(number)
+                .map(|m| m.start() == 0 && m.end() == number.len())
                 .unwrap_or(false)
-                && format
-                    .pattern()
-                    .find(number)
-                    .map(|m| m.start() == 0 && m.end() == number.len())
-                    .unwrap_or(false)
         {
             return Some(format);
         }
-- 
2.43.0


From b34275494d1ed3aa58afe26b94e023fcdb60c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 16/24] fix: do not panic formatting with a format that uses no
 group

---
 src/formatter.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ce06ae4..fc736b6 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -242,11 +242,8 @@ fn replace(
             national,
             &*if let Some(transform) = transform {
                 let first = consts::FIRST_GROUP
-                    .captures(formatter.format())
-                    .unwrap()
-                    .get(1)
-                    .unwrap()
-                    .as_str();
+                    .find(formatter.format())
+                    .map_or("", |m| m.as_str());
                 let format = transform.replace(consts::NP, meta.national_prefix().unwrap_or(""));
                 let format = format.replace(consts::FG, &format!("${}", first));
                 let format = format.replace(consts::CC, carrier.unwrap_or(""));
-- 
2.43.0


From 61b416234abf14a0ed9803d2f7a02fbc0612e558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:53 +0000
Subject: [PATCH 17/24] fix: report malformed possible lengths instead of
 panicking

An empty part, an empty range end and a range up to 65535 all panicked (index
out of bounds or arithmetic overflow).
---
 src/metadata/loader.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 769357c..fe37d13 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -318,14 +318,12 @@ fn descriptor<R: BufRead>(
         let mut result = Vec::new();
 
         for part in value.split(',').map(str::trim) {
-            if part.as_bytes()[0] == b'[' {
-                let mut parts = part.split('-');
+            if let Some(range) = part.strip_prefix('[') {
+                if let Some((start, end)) = range.split_once('-') {
+                    let start = start.parse::<u16>()?;
+                    let end = end.strip_suffix(']').unwrap_or(end).parse::<u16>()?;
 
-                if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    let start = start[1..].parse::<u16>()?;
-                    let end = end[..end.len() - 1].parse::<u16>()?;
-
-                    for i in start..end + 1 {
+                    for i in start..=end {
                         result.push(i);
                     }
                 }
-- 
2.43.0


From e9fb0c4ad4bdecaab49e7d6f8889b497e82b3563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 18/24] fix: do not recurse into ignored metadata elements

Nesting in an ignored element recursed once per level, so a deeply nested file
overflowed the stack instead of loading or failing.
---
 src/metadata/loader.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index fe37d13..137cc39 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -571,17 +571,21 @@ fn format<R: BufRead>(
 
 fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::LoadMetadata> {
     let mut buffer = Vec::new();
+    let mut open = vec![name.to_vec()];
 
     loop {
         match reader.read_event_into(&mut buffer)? {
             Event::Text(_) | Event::Comment(_) | Event::Empty(_) => (),
 
-            Event::Start(ref e) => {
-                let name = e.name().into_inner();
-                ignore(reader, name)?
-            }
+            Event::Start(ref e) => open.push(e.name().into_inner().to_vec()),
+
+            Event::End(ref e) if Some(e.name().into_inner()) == open.last().map(Vec::as_slice) => {
+                open.pop();
 
-            Event::End(ref e) if e.name().into_inner() == name => return Ok(()),
+                if open.is_empty() {
+                    return Ok(());
+                }
+            }
 
             Event::End(ref e) => {
                 return Err(error::Metadata::MismatchedTag(
-- 
2.43.0


From c4ddaf369232bc7b9aeb332105556a2ac061a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 19/24] fix: a country code does not have to end at the first
 separator

The RFC3966 grammar takes everything between the plus and the first separator
as the country code, so +1650-253-0000 and a phone-context such as +64-3 were
an invalid country code. If it is not one, it holds the first digits of the
number as well.
---
 src/parser/helper.rs | 30 +++++++++++++++++++++---------
 src/parser/mod.rs    |  7 ++++++-
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index e9d2b2b..e1ce60c 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -155,19 +155,31 @@ pub fn country_code<'a>(
         // The country source was found from the initial PLUS or it was extract
         // from the number already.
         country::Source::Plus | country::Source::Idd | country::Source::Number => {
+            // If the prefix was already extracted, check it is valid. The digits up
+            // to the first separator may also contain more than the country code,
+            // e.g. +1650-253-0000.
+            if let Some(prefix) = number.prefix.as_ref() {
+                if prefix.is_empty() {
+                    return Err(error::Parse::InvalidCountryCode);
+                }
+
+                let known = match prefix.parse() {
+                    Ok(code) => database.by_code(&code).is_some(),
+                    Err(_) => false,
+                };
+
+                if !known {
+                    number.national = format!("{}{}", prefix, number.national).into();
+                    number.prefix = None;
+                }
+            }
+
             if number.national.len() <= consts::MIN_LENGTH_FOR_NSN {
                 return Err(error::Parse::TooShortNsn);
             }
 
-            // If the prefix was already extracted, check it is valid.
-            if let Some(prefix_ref) = number.prefix.as_ref() {
-                let prefix = prefix_ref.parse()?;
-
-                if database.by_code(&prefix).is_none() {
-                    return Err(error::Parse::InvalidCountryCode);
-                } else {
-                    return Ok(number);
-                }
+            if number.prefix.is_some() {
+                return Ok(number);
             } else {
                 // Check the possible country code does not start with a 0 since those
                 // are invalid.
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b799256..e1040de 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -50,7 +50,12 @@ pub fn parse_with<S: AsRef<str>>(
     // Try to parse the number as RFC3966 or natural language.
     let (_, mut number) = phone_number(string.as_ref()).or(Err(error::Parse::NoNumber))?;
 
-    if !is_viable(&number.national) {
+    let viable = match number.prefix.as_ref() {
+        Some(prefix) => is_viable(format!("{}{}", prefix, number.national)),
+        None => is_viable(&number.national),
+    };
+
+    if !viable {
         return Err(error::Parse::NoNumber);
     }
 
-- 
2.43.0


From eaf96e4b7c611d05f553d9a518d38c6bde528f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:09 +0000
Subject: [PATCH 20/24] fix: digits of other scripts are viable

normalize() maps them and the patterns that find numbers, start characters and
extensions accept them, but the viability check in between only knew ASCII, so
such numbers were never parsed.
---
 src/parser/helper.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index e1ce60c..1eaa916 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -86,9 +86,8 @@ pub fn alpha(i: &str) -> IResult<&str, char> {
     one_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")(i)
 }
 
-// TODO: Extend with Unicode digits.
 pub fn digit(i: &str) -> IResult<&str, char> {
-    one_of("0123456789")(i)
+    satisfy(|c| c.as_dec_digit().is_some())(i)
 }
 
 pub fn plus(i: &str) -> IResult<&str, char> {
-- 
2.43.0


From 57b05f5903e0ccdd42edf3a25fcf04ff2b5fd92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:09 +0000
Subject: [PATCH 21/24] fix: the fullwidth full stop is punctuation

one_of() takes a list, not a character class: the range written there stood for
its two ends and the hyphen.
---
 src/parser/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 1eaa916..4daed7e 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -78,7 +78,7 @@ pub fn ieof(i: &str) -> IResult<&str, ()> {
 
 pub fn punctuation(i: &str) -> IResult<&str, char> {
     one_of(
-        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}-\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
+        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}\u{FF0E}\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
     )(i)
 }
 
-- 
2.43.0


From 1872ce5bb7786f868e0cc62ae5cc4f7c8a045c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:50 +0000
Subject: [PATCH 22/24] fix: the integer of a national number does not contain
 its zero count

---
 src/national_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index 3fc0163..439b139 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -83,7 +83,7 @@ impl NationalNumber {
 
 impl From<NationalNumber> for u64 {
     fn from(n: NationalNumber) -> u64 {
-        n.value
+        n.value()
     }
 }
 
-- 
2.43.0


From afd4489b8aa7383ec245d38ede2f006def2750a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 23/24] fix: a national number read from text has no sign

---
 src/national_number.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/national_number.rs b/src/national_number.rs
index 439b139..700b2f4 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -25,6 +25,11 @@ impl FromStr for NationalNumber {
     type Err = crate::error::Parse;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // Parsing an integer accepts a sign, but a national number has none.
+        if s.contains('+') {
+            return Err(crate::error::Parse::NoNumber);
+        }
+
         let mut zeros = s.chars().take_while(|&c| c == '0').count();
 
         // The last digit belongs to the value, even if it is a zero.
-- 
2.43.0


From 7682c7960ac6097b1360f6c91fa99d6e1320557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:59 +0000
Subject: [PATCH 24/24] fix: a range of possible lengths without dash or
 bracket is malformed

---
 src/metadata/loader.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 137cc39..3bd02f0 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -319,13 +319,14 @@ fn descriptor<R: BufRead>(
 
         for part in value.split(',').map(str::trim) {
             if let Some(range) = part.strip_prefix('[') {
-                if let Some((start, end)) = range.split_once('-') {
-                    let start = start.parse::<u16>()?;
-                    let end = end.strip_suffix(']').unwrap_or(end).parse::<u16>()?;
-
-                    for i in start..=end {
-                        result.push(i);
-                    }
+                // A range lacking its dash or bracket is no range, and fails to parse.
+                let (start, end) = range
+                    .strip_suffix(']')
+                    .and_then(|range| range.split_once('-'))
+                    .unwrap_or_default();
+
+                for i in start.parse::<u16>()?..=end.parse::<u16>()? {
+                    result.push(i);
                 }
             } else {
                 result.push(part.parse()?);
-- 
2.43.0

