From 73364c318d269070616b618126dcf314e258963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 01/24] fix: keep valid national numbers that begin with the
 trunk prefix digits

The viability test compared the number with itself instead of with the
stripped number, the prefix was then stripped a second time without any
test, and regions without a parsing rule were not tested at all.
---
 src/parser/helper.rs | 10 +++++++++-
 src/parser/mod.rs    |  9 +--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fb6dc53..d5238c9 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -286,6 +286,14 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
     } else {
         if let Some(prefix) = meta.national_prefix.as_ref() {
             if number.national.starts_with(prefix) {
+                let general = &meta.descriptors.general;
+
+                if general.is_match(&number.national)
+                    && !general.is_match(&number.national[prefix.len()..])
+                {
+                    return number;
+                }
+
                 number.national = trim(number.national, prefix.len());
             }
         }
@@ -318,7 +326,7 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
         .unwrap();
 
     if transform.is_none() || last.is_none() {
-        if viable && !meta.descriptors.general.is_match(&number.national[start..]) {
+        if viable && !meta.descriptors.general.is_match(&number.national[end..]) {
             return number;
         }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1db0b32..c5c0901 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -84,14 +84,7 @@ pub fn parse_with<S: AsRef<str>>(
 
     // Extract carrier and strip national prefix if present.
     if let Some(meta) = meta {
-        let mut potential = helper::national_number(meta, number.clone());
-
-        // Strip national prefix if present.
-        if let Some(prefix) = meta.national_prefix.as_ref() {
-            if potential.national.starts_with(prefix) {
-                potential.national = helper::trim(potential.national, prefix.len());
-            }
-        }
+        let potential = helper::national_number(meta, number.clone());
 
         if validator::length(meta, &potential, Type::Unknown) != Validation::TooShort {
             number = potential;
-- 
2.43.0


From 15cae2935ae76cd13514d7139465a7c49429c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 02/24] fix: classify numbers with their leading zeros

The region and the type of a number were looked up without the leading
zeros of the national number, so valid Italian fixed lines had none.
---
 src/phone_number.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/phone_number.rs b/src/phone_number.rs
index 36a7e69..1c20e8c 100644
--- a/src/phone_number.rs
+++ b/src/phone_number.rs
@@ -206,11 +206,7 @@ impl PhoneNumber {
     /// Get the metadata that applies to this phone number from the given
     /// database.
     pub fn metadata<'a>(&self, database: &'a Database) -> Option<&'a Metadata> {
-        match validator::source_for(
-            database,
-            self.code.value(),
-            &self.national.value().to_string(),
-        )? {
+        match validator::source_for(database, self.code.value(), &self.national.to_string())? {
             Left(region) => database.by_id(region.as_ref()),
             Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),
         }
@@ -234,7 +230,7 @@ impl PhoneNumber {
     /// Determine the [`Type`] of the phone number with the given `Database`.
     pub fn number_type_with(&self, database: &Database) -> Type {
         match self.metadata(database) {
-            Some(metadata) => validator::number_type(metadata, &self.national.value().to_string()),
+            Some(metadata) => validator::number_type(metadata, &self.national.to_string()),
             None => Type::Unknown,
         }
     }
-- 
2.43.0


From 5fe2e7beaed8db6769b018a8f73ba6017ffa8406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 03/24] fix: do not take calling codes after a plus for
 dialling prefixes

With a Chilean hint '+1240...' lost its first four digits because they
look like a Chilean carrier selection prefix.
---
 src/parser/helper.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index d5238c9..773bc73 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -245,11 +245,8 @@ pub fn international_prefix<'a>(idd: Option<&Regex>, mut number: Number<'a>) ->
         number.national = trim(number.national, start);
         number = normalize(number, mappings);
 
-        if !idd
-            .and_then(|re| re.find(&number.national))
-            .map(|m| m.start() == 0)
-            .unwrap_or(false)
-        {
+        // No calling code starts with a 0, so only then an IDD can follow.
+        if !number.national.starts_with('0') {
             return number;
         }
     } else {
-- 
2.43.0


From a7bb44b4e3e7acb27d509d07a56393d0d4774793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 04/24] fix: convert a national number to its value, not its
 packed form

---
 src/national_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index d061926..27427c1 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -76,7 +76,7 @@ impl NationalNumber {
 
 impl From<NationalNumber> for u64 {
     fn from(n: NationalNumber) -> u64 {
-        n.value
+        n.value()
     }
 }
 
-- 
2.43.0


From a503c562e1185d74cb99fd47e98021cf9933e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:48 +0000
Subject: [PATCH 05/24] fix: national numbers of zeros only, or with over 255
 leading zeros

Parsing a digit string failed on all-zero numbers and silently dropped
multiples of 256 leading zeros.
---
 src/national_number.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index 27427c1..c15214d 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -26,9 +26,14 @@ impl FromStr for NationalNumber {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let zeros = s.chars().take_while(|&c| c == '0').count();
+        // The last zero of an all-zero number is its value.
+        let zeros = zeros.min(s.len().saturating_sub(1));
         let value = s[zeros..].parse::<u64>()?;
 
-        NationalNumber::new(value, zeros as u8)
+        NationalNumber::new(
+            value,
+            u8::try_from(zeros).map_err(|_| crate::error::Parse::TooLong)?,
+        )
     }
 }
 
-- 
2.43.0


From 50bd0bc6d6d381c464032900d4808c1bec8fa893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:21 +0000
Subject: [PATCH 06/24] fix: only report carrier codes the parsing rule
 captures

A rule without groups reported the trunk prefix as carrier, one with a
single group the area code, and an absent first group panicked.
---
 src/parser/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 773bc73..4c34d6a 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -327,7 +327,7 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
             return number;
         }
 
-        number.carrier = last.filter(|_| groups > 0).map(Into::into);
+        number.carrier = last.filter(|_| groups > 1).map(Into::into);
 
         number.national = trim(number.national, end);
     } else if let Some(transform) = transform {
@@ -337,7 +337,7 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
             return number;
         }
 
-        number.carrier = Some(first.unwrap().into());
+        number.carrier = first.filter(|_| groups > 2).map(Into::into);
         number.national = transformed.into();
     }
 
-- 
2.43.0


From 813d4d3051adbc3c2421eb51b0f20506fb6ae017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 07/24] fix: no panic on a hint or territory the database or
 crate does not know

---
 src/parser/helper.rs | 4 +++-
 src/validator.rs     | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 4c34d6a..60ba5f3 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -191,7 +191,9 @@ pub fn country_code<'a>(
 
         country::Source::Default => {
             if let Some(country) = country {
-                let meta = database.by_id(country.as_ref()).unwrap();
+                let meta = database
+                    .by_id(country.as_ref())
+                    .ok_or(error::Parse::InvalidCountryCode)?;
                 let code = meta.country_code.to_string();
 
                 if number.national.starts_with(&code)
diff --git a/src/validator.rs b/src/validator.rs
index fb6ba37..4ca52f2 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -165,11 +165,11 @@ pub fn source_for(
         if let Some(pattern) = meta.leading_digits.as_ref() {
             if let Some(index) = pattern.find(national) {
                 if index.start() == 0 {
-                    return Some(Left(region.parse().unwrap()));
+                    return region.parse().ok().map(Left);
                 }
             }
         } else if number_type(meta, national) != Type::Unknown {
-            return Some(Left(region.parse().unwrap()));
+            return region.parse().ok().map(Left);
         }
     }
 
-- 
2.43.0


From e6214c119b2d4b65b0821f7b0b3431a928846820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 08/24] fix: report a missing national number pattern as an
 error

---
 src/metadata/database.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index a15e852..409d426 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -68,9 +68,6 @@ impl Database {
 
         let descriptor =
             |desc: loader::Descriptor| -> Result<super::Descriptor, error::LoadMetadata> {
-                desc.national_number.as_ref().unwrap();
-                desc.national_number.as_ref().unwrap();
-
                 Ok(super::Descriptor {
                     national_number: desc
                         .national_number
-- 
2.43.0


From 0a9787d11e4bd5be41db8ac168d7d91d7c677ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:24 +0000
Subject: [PATCH 09/24] fix: malformed possible lengths are an error, not a
 panic

---
 src/metadata/loader.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 769357c..47062f9 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -318,17 +318,13 @@ fn descriptor<R: BufRead>(
         let mut result = Vec::new();
 
         for part in value.split(',').map(str::trim) {
-            if part.as_bytes()[0] == b'[' {
-                let mut parts = part.split('-');
+            let range = part
+                .strip_prefix('[')
+                .and_then(|part| part.strip_suffix(']'))
+                .and_then(|part| part.split_once('-'));
 
-                if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    let start = start[1..].parse::<u16>()?;
-                    let end = end[..end.len() - 1].parse::<u16>()?;
-
-                    for i in start..end + 1 {
-                        result.push(i);
-                    }
-                }
+            if let Some((start, end)) = range {
+                result.extend(start.parse::<u16>()?..=end.parse::<u16>()?);
             } else {
                 result.push(part.parse()?);
             }
-- 
2.43.0


From b2bcfc1edfa52b1fbf0ff921e89205d38762247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:25 +0000
Subject: [PATCH 10/24] fix: a format without leading digits applies only to
 numbers it matches

---
 src/formatter.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 288783b..f587e7d 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -209,18 +209,15 @@ fn formatter<'a>(number: &str, formats: &'a [Format]) -> Option<&'a Format> {
     for format in formats {
         let leading = format.leading_digits();
 
-        if leading.is_empty()
-            || leading
-                .last()
-                .unwrap()
+        if leading
+            .last()
+            .map(|re| re.find(number).map(|m| m.start() == 0).unwrap_or(false))
+            .unwrap_or(true)
+            && format
+                .pattern()
                 .find(number)
-                .map(|m| m.start() == 0)
+                .map(|m| m.start() == 0 && m.end() == number.len())
                 .unwrap_or(false)
-                && format
-                    .pattern()
-                    .find(number)
-                    .map(|m| m.start() == 0 && m.end() == number.len())
-                    .unwrap_or(false)
         {
             return Some(format);
         }
-- 
2.43.0


From 31cf0fd7f6773f1811b245d0fde429a0a8d05618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 11/24] fix: accept every documented spelling of an extension

Numbers ending in ';ext=123' or '- 123#' were rejected, and an extension
mark without digits gave an empty extension.
---
 src/parser/mod.rs     |  5 ++++-
 src/parser/natural.rs | 10 ++--------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c5c0901..b799256 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -107,7 +107,10 @@ pub fn parse_with<S: AsRef<str>>(
 
         national: number.national.parse()?,
 
-        extension: number.extension.map(|s| Extension(s.into_owned())),
+        extension: number
+            .extension
+            .filter(|s| !s.is_empty())
+            .map(|s| Extension(s.into_owned())),
         carrier: number.carrier.map(|s| Carrier(s.into_owned())),
     })
 }
diff --git a/src/parser/natural.rs b/src/parser/natural.rs
index 6428f5c..a03abce 100644
--- a/src/parser/natural.rs
+++ b/src/parser/natural.rs
@@ -15,18 +15,11 @@
 use crate::consts;
 use crate::parser::helper::*;
 use nom::IResult;
-use nom::error::ErrorKind;
 
 pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
     let (_, i) = extract(i)?;
     let extension = consts::EXTN_PATTERN.captures(i);
 
-    if let Some(c) = extension.as_ref() {
-        if c.get(0).is_none() || c.get(2).is_none() {
-            return Err(nom::Err::Failure(nom::error::Error::new(i, ErrorKind::Eof)));
-        }
-    }
-
     Ok((
         "",
         Number {
@@ -38,7 +31,8 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
 
             extension: extension
                 .as_ref()
-                .map(|c| c.get(2).unwrap().as_str())
+                .and_then(|c| c.iter().skip(1).flatten().next())
+                .map(|m| m.as_str())
                 .map(Into::into),
 
             ..Default::default()
-- 
2.43.0


From bfe1149b30bb724603bd94295cae7e522a8078c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:33 +0000
Subject: [PATCH 12/24] fix: national number patterns describe entire numbers

They matched any number beginning with a valid one, so overlong numbers
like +97233142764978 were valid (issue #31).
---
 src/metadata/database.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 409d426..0d6df36 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -77,7 +77,8 @@ impl Database {
                                 name: "national_number".into(),
                             })
                         })
-                        .and_then(regex)?,
+                        // It describes entire numbers, not their beginning.
+                        .and_then(|value| regex(format!("^(?:{value}\n)$")))?,
 
                     possible_length: desc.possible_length,
                     possible_local_length: desc.possible_local_length,
-- 
2.43.0


From 0d97cd50fc15a53d8e1cf5f03f3b54989ceafebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:34 +0000
Subject: [PATCH 13/24] fix: keep national numbers that begin with the calling
 code digits

With a region hint the calling code was taken off every national number
starting with its digits, like the valid Italian mobile 393 1234567: the
possible lengths consulted are not part of the general description.
---
 src/parser/helper.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 60ba5f3..f2d49fa 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -16,8 +16,6 @@ use crate::consts;
 use crate::country;
 use crate::error;
 use crate::metadata::{Database, Metadata};
-use crate::phone_number::Type;
-use crate::validator;
 use fnv::FnvHashMap;
 use nom::{
     AsChar, IResult,
@@ -197,8 +195,7 @@ pub fn country_code<'a>(
                 let code = meta.country_code.to_string();
 
                 if number.national.starts_with(&code)
-                    && (!meta.descriptors().general().is_match(&number.national)
-                        || !validator::length(meta, &number, Type::Unknown).is_possible())
+                    && !meta.descriptors().general().is_match(&number.national)
                 {
                     number.country = country::Source::Number;
                     number.national = trim(number.national, code.len());
-- 
2.43.0


From f60a6795ed93b4b9c3d7fc3dfbffdbed8956e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 14/24] fix: global numbers without a separator after the
 calling code

'+1240-5551234' was rejected since '1240' is no calling code, and
'tel:+12405551234;isub=1' since it has no separator at all.
---
 src/parser/rfc3966.rs | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index ccaf889..8764566 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+use crate::consts;
 use crate::parser::helper::*;
 use fnv::FnvHashMap;
 use nom::{
@@ -21,6 +22,7 @@ use nom::{
     combinator::*,
     error::{ErrorKind, make_error},
     multi::*,
+    sequence::*,
 };
 
 pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
@@ -31,25 +33,41 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
 
     parse! { i =>
         opt(tag_no_case("Tel:"));
-        let prefix = opt(prefix);
-        let national = take_while1(number);
+        let global = consumed(pair(opt(prefix), take_while(number)));
         check;
         let params = opt(parameters);
     };
 
+    let (whole, (prefix, national)) = global;
+    let (prefix, national) = match prefix {
+        // Separators are optional, there need not be one after the calling code.
+        Some(cc) if national.is_empty() || cc.len() > consts::MAX_LENGTH_FOR_COUNTRY_CODE => {
+            if !cc.chars().all(|c| c.is_ascii_digit()) {
+                return Err(nom::Err::Error(make_error(i, ErrorKind::Digit)));
+            }
+
+            (None, whole)
+        }
+
+        Some(cc) => (Some(cc), national),
+
+        None if national.is_empty() => {
+            return Err(nom::Err::Error(make_error(i, ErrorKind::TakeWhile1)));
+        }
+
+        None => {
+            let context = params.as_ref().and_then(|m| m.get("phone-context"));
+
+            (context.map(|&s| s.strip_prefix('+').unwrap_or(s)), national)
+        }
+    };
+
     Ok((
         i,
         Number {
-            national: (*national).into(),
+            national: national.into(),
 
-            prefix: prefix
-                .or_else(|| {
-                    params
-                        .as_ref()
-                        .and_then(|m| m.get("phone-context"))
-                        .map(|&s| s.strip_prefix('+').unwrap_or(s))
-                })
-                .map(|cs| cs.into()),
+            prefix: prefix.map(|cs| cs.into()),
 
             extension: params
                 .as_ref()
@@ -64,7 +82,7 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
 fn prefix(i: &str) -> IResult<&str, &str> {
     parse! { i =>
         char('+');
-        take_till1(separator)
+        take_till1(|c| separator(c) || c == ';')
     }
 }
 
-- 
2.43.0


From 1bd6e088faca7394867e6847ff1f791ad0048772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:08 +0000
Subject: [PATCH 15/24] fix: calling codes that are not split off exactly

'+3-90236618300' and 'tel:331-6005;phone-context=+64-3' were rejected as
neither '3' nor '643' is a calling code.
---
 src/parser/helper.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index f2d49fa..a589ed5 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -153,19 +153,28 @@ pub fn country_code<'a>(
         // The country source was found from the initial PLUS or it was extract
         // from the number already.
         country::Source::Plus | country::Source::Idd | country::Source::Number => {
+            // If the prefix was already extracted, check it is valid. Otherwise it
+            // may still begin with a calling code, or be the beginning of one.
+            if let Some(prefix) = number.prefix.take() {
+                let known = prefix
+                    .parse()
+                    .is_ok_and(|code: u16| database.by_code(&code).is_some());
+
+                if prefix.is_empty() {
+                    return Err(error::Parse::InvalidCountryCode);
+                } else if known {
+                    number.prefix = Some(prefix);
+                } else {
+                    number.national = format!("{}{}", prefix, number.national).into();
+                }
+            }
+
             if number.national.len() <= consts::MIN_LENGTH_FOR_NSN {
                 return Err(error::Parse::TooShortNsn);
             }
 
-            // If the prefix was already extracted, check it is valid.
-            if let Some(prefix_ref) = number.prefix.as_ref() {
-                let prefix = prefix_ref.parse()?;
-
-                if database.by_code(&prefix).is_none() {
-                    return Err(error::Parse::InvalidCountryCode);
-                } else {
-                    return Ok(number);
-                }
+            if number.prefix.is_some() {
+                return Ok(number);
             } else {
                 // Check the possible country code does not start with a 0 since those
                 // are invalid.
-- 
2.43.0


From d3bbbe85b168e7560ce9923baba5bcf1d23bd80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:37 +0000
Subject: [PATCH 16/24] fix: display numbers whose calling code the database
 does not know

---
 src/formatter.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index f587e7d..767f1dd 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -101,14 +101,16 @@ impl<'n, 'd, 'f> fmt::Display for Formatter<'n, 'd, 'f> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let db = self.database.unwrap_or(&DATABASE);
 
-        // If the country code is invalid, return an error.
+        // An error would make `to_string()` panic, so a number with a country code
+        // the database does not know just is not grouped.
         let meta = db
             .by_code(&self.number.country().code())
-            .and_then(|m| m.into_iter().next())
-            .ok_or(fmt::Error)?;
+            .and_then(|m| m.into_iter().next());
 
         let national = self.number.national().to_string();
         let formatter = self.format.or_else(|| {
+            let meta = meta?;
+
             formatter(
                 &national,
                 if meta.international_formats().is_empty() || self.mode == Mode::National {
@@ -139,7 +141,8 @@ impl<'n, 'd, 'f> fmt::Display for Formatter<'n, 'd, 'f> {
                     write!(
                         f,
                         "{}{}",
-                        meta.preferred_extension_prefix().unwrap_or(" ext. "),
+                        meta.and_then(|m| m.preferred_extension_prefix())
+                            .unwrap_or(" ext. "),
                         ext
                     )?;
                 }
@@ -175,7 +178,8 @@ impl<'n, 'd, 'f> fmt::Display for Formatter<'n, 'd, 'f> {
                     write!(
                         f,
                         "{}{}",
-                        meta.preferred_extension_prefix().unwrap_or(" ext. "),
+                        meta.and_then(|m| m.preferred_extension_prefix())
+                            .unwrap_or(" ext. "),
                         ext
                     )?;
                 }
@@ -228,7 +232,7 @@ fn formatter<'a>(number: &str, formats: &'a [Format]) -> Option<&'a Format> {
 
 fn replace(
     national: &str,
-    meta: &Metadata,
+    meta: Option<&Metadata>,
     formatter: &Format,
     transform: Option<&str>,
     carrier: Option<&str>,
@@ -244,7 +248,8 @@ fn replace(
                     .get(1)
                     .unwrap()
                     .as_str();
-                let format = transform.replace(consts::NP, meta.national_prefix().unwrap_or(""));
+                let prefix = meta.and_then(|m| m.national_prefix()).unwrap_or("");
+                let format = transform.replace(consts::NP, prefix);
                 let format = format.replace(consts::FG, &format!("${}", first));
                 let format = format.replace(consts::CC, carrier.unwrap_or(""));
 
-- 
2.43.0


From 2da589bd73a2adaf6e585ca5ad2cf96f0445fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:38 +0000
Subject: [PATCH 17/24] fix: no panic on formats that do not refer to any group

---
 src/formatter.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 767f1dd..06a4519 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -241,13 +241,10 @@ fn replace(
         .pattern()
         .replace(
             national,
-            &*if let Some(transform) = transform {
-                let first = consts::FIRST_GROUP
-                    .captures(formatter.format())
-                    .unwrap()
-                    .get(1)
-                    .unwrap()
-                    .as_str();
+            &*if let Some((transform, first)) =
+                transform.zip(consts::FIRST_GROUP.find(formatter.format()))
+            {
+                let first = first.as_str();
                 let prefix = meta.and_then(|m| m.national_prefix()).unwrap_or("");
                 let format = transform.replace(consts::NP, prefix);
                 let format = format.replace(consts::FG, &format!("${}", first));
-- 
2.43.0


From 84570479d61aaec93495da33ca0c1d7ba570f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:19 +0000
Subject: [PATCH 18/24] fix: keep valid numbers written with their calling code
 as they are

Some numbers remain valid without the digits of their trunk prefix, so
the E.164 form of the Belarusian 08100000000 parsed to 8100000000.
---
 src/parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b799256..aafdc96 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -82,8 +82,12 @@ pub fn parse_with<S: AsRef<str>>(
         }
     };
 
-    // Extract carrier and strip national prefix if present.
-    if let Some(meta) = meta {
+    // Extract carrier and strip national prefix if present. What follows a
+    // calling code should not have one, so there a matching number is complete.
+    if let Some(meta) = meta
+        && !(number.country != country::Source::Default
+            && meta.descriptors().general().is_match(&number.national))
+    {
         let potential = helper::national_number(meta, number.clone());
 
         if validator::length(meta, &potential, Type::Unknown) != Validation::TooShort {
-- 
2.43.0


From 2410fac0eaba0587aaf7a5ad30dc397a39498c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:01 +0000
Subject: [PATCH 19/24] fix: accept full-width and other decimal digits in
 numbers

---
 src/parser/helper.rs  | 5 ++---
 src/parser/rfc3966.rs | 6 ++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index a589ed5..92b5bae 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -84,9 +84,8 @@ pub fn alpha(i: &str) -> IResult<&str, char> {
     one_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")(i)
 }
 
-// TODO: Extend with Unicode digits.
 pub fn digit(i: &str) -> IResult<&str, char> {
-    one_of("0123456789")(i)
+    satisfy(|c| c.as_dec_digit().is_some())(i)
 }
 
 pub fn plus(i: &str) -> IResult<&str, char> {
@@ -416,7 +415,7 @@ pub trait AsCharExt {
 
 impl<T: AsChar> AsCharExt for T {
     fn is_wide_digit(self) -> bool {
-        self.as_char().is_ascii_digit()
+        self.as_dec_digit().is_some()
     }
 
     fn as_dec_digit(self) -> Option<char> {
diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index 8764566..a7ebf6b 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -41,8 +41,10 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
     let (whole, (prefix, national)) = global;
     let (prefix, national) = match prefix {
         // Separators are optional, there need not be one after the calling code.
-        Some(cc) if national.is_empty() || cc.len() > consts::MAX_LENGTH_FOR_COUNTRY_CODE => {
-            if !cc.chars().all(|c| c.is_ascii_digit()) {
+        Some(cc)
+            if national.is_empty() || cc.chars().count() > consts::MAX_LENGTH_FOR_COUNTRY_CODE =>
+        {
+            if !cc.chars().all(|c| c.is_wide_digit()) {
                 return Err(nom::Err::Error(make_error(i, ErrorKind::Digit)));
             }
 
-- 
2.43.0


From 2e3af06941f3d2511d090390075a44209fc7603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:17 +0000
Subject: [PATCH 20/24] fix: accept the full-width full stop as punctuation

---
 src/parser/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 92b5bae..9afa2cc 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -76,7 +76,7 @@ pub fn ieof(i: &str) -> IResult<&str, ()> {
 
 pub fn punctuation(i: &str) -> IResult<&str, char> {
     one_of(
-        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}-\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
+        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}\u{FF0E}\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
     )(i)
 }
 
-- 
2.43.0


From 8f0ba31fd01fdcdc8e10ef8019cb6d4ecad91b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:17 +0000
Subject: [PATCH 21/24] fix: a national number has no sign

---
 src/national_number.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/national_number.rs b/src/national_number.rs
index c15214d..9b57ade 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -28,6 +28,10 @@ impl FromStr for NationalNumber {
         let zeros = s.chars().take_while(|&c| c == '0').count();
         // The last zero of an all-zero number is its value.
         let zeros = zeros.min(s.len().saturating_sub(1));
+        // An integer could have a sign, a number cannot.
+        if s.contains('+') {
+            return Err(crate::error::Parse::NoNumber);
+        }
         let value = s[zeros..].parse::<u64>()?;
 
         NationalNumber::new(
-- 
2.43.0


From ff9657f35811f2340a3dde0822ead389afcf0027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:47 +0000
Subject: [PATCH 22/24] fix: the last letters of a vanity number are not an
 extension

---
 src/consts.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/consts.rs b/src/consts.rs
index db5f69e..49eeac7 100644
--- a/src/consts.rs
+++ b/src/consts.rs
@@ -321,13 +321,16 @@ pub static CAPTURING_EXTN_DIGITS: Lazy<String> = Lazy::new(|| format!("({}{{0,7}
 /// For parsing, we are slightly more lenient in our interpretation than for
 /// matching. Here we allow "comma" and "semicolon" as possible extension
 /// indicators. When matching, these are hardly ever used to indicate this.
+/// An indicator that no digits follow must stand alone, or it could be the end
+/// of a vanity number such as 1-800-463-PAINT.
 pub static EXTN_PATTERNS_FOR_PARSING: Lazy<String> = Lazy::new(|| {
     format!(
-        r"{rfc3966_extn_prefix}{capturing_extn_digits}|[ \x{{00A0}}\t,]*(?:e?xt(?:ensi(?:o\x{{0301}}?|\x{{00F3}}))?n?|\x{{FF45}}?\x{{FF58}}\x{{FF54}}\x{{FF4E}}?|[{symbols}]|int|anexo|\x{{FF49}}\x{{FF4E}}\x{{FF54}})[:\.\x{{FF0E}}]?[ \x{{00A0}}\t,-]*{capturing_extn_digits}#?|[- ]+({digits}{{1,5}})#",
+        r"{rfc3966_extn_prefix}{capturing_extn_digits}|[ \x{{00A0}}\t,]*(?:e?xt(?:ensi(?:o\x{{0301}}?|\x{{00F3}}))?n?|\x{{FF45}}?\x{{FF58}}\x{{FF54}}\x{{FF4E}}?|[{symbols}]|int|anexo|\x{{FF49}}\x{{FF4E}}\x{{FF54}})[:\.\x{{FF0E}}]?[ \x{{00A0}}\t,-]*{digits_group}#?|(?:[ \x{{00A0}}\t,]+(?:e?xt(?:ensi(?:o\x{{0301}}?|\x{{00F3}}))?n?|\x{{FF45}}?\x{{FF58}}\x{{FF54}}\x{{FF4E}}?|[{symbols}]|int|anexo|\x{{FF49}}\x{{FF4E}}\x{{FF54}})|[#\x{{FF03}}])[:\.\x{{FF0E}}]?[ \x{{00A0}}\t,-]*#?|[- ]+({digits}{{1,5}})#",
         rfc3966_extn_prefix = RFC3966_EXTN_PREFIX,
         capturing_extn_digits = *CAPTURING_EXTN_DIGITS,
         symbols = r",;x\x{FF58}#\x{FF03}~\x{FF5E}",
-        digits = DIGITS
+        digits = DIGITS,
+        digits_group = format!("({}{{1,7}})", DIGITS)
     )
 });
 
-- 
2.43.0


From d5e379654e9429cc3bb355808f4e3b193f3c07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:42 +0000
Subject: [PATCH 23/24] fix: accept metadata documents with an XML declaration

---
 src/metadata/loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 47062f9..ed1e7fd 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -99,7 +99,7 @@ fn metadata<R: BufRead>(reader: &mut Reader<R>) -> Result<Vec<Metadata>, error::
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) | Event::DocType(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::DocType(_) | Event::Decl(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 b"phoneNumberMetadata" => continue,
-- 
2.43.0


From 984eefb101e94adef4334a85fb5fafd78b88c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:42 +0000
Subject: [PATCH 24/24] fix: iterate over every territory, not one for each
 identifier

---
 src/metadata/database.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 0d6df36..1be73a5 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -245,6 +245,7 @@ impl Database {
 
     /// Iterator over all `Metadata` entries in this database.
     pub fn iter(&self) -> impl Iterator<Item = &Metadata> {
-        self.by_id.values().map(AsRef::as_ref)
+        // Non-geographical entities share an identifier, but every entry has one calling code.
+        self.by_code.values().flatten().map(AsRef::as_ref)
     }
 }
-- 
2.43.0

