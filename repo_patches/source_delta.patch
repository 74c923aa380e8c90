From 5abfa0278933fd83caa44d0a295049cc8817d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 1/8] fix: do not panic when "tel:" follows ";phone-context="

---
 src/phonenumberutil/phonenumberutil_internal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index adfdd40..1edce2e 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1670,7 +1670,9 @@ impl PhoneNumberUtilInternal {
             // isdn-subaddress component. Note we also handle the case when "tel:" is
             // missing, as we have seen in some of the phone number inputs. In that
             // case, we append everything from the beginning.
-            let index_of_rfc_prefix = number_to_parse.find(RFC3966_PREFIX);
+            // Only a prefix that precedes the phone-context is relevant.
+            let index_of_rfc_prefix =
+                number_to_parse[..index_of_phone_context].find(RFC3966_PREFIX);
             let index_of_national_number = index_of_rfc_prefix.map_or(0, |index_of_rfc_prefix| {
                 index_of_rfc_prefix + RFC3966_PREFIX.len()
             });
-- 
2.43.0


From feb8daad282d460115f3459dc6b8436cb3a3b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 2/8] fix: keep "+<country code>" for alpha numbers when the
 calling region has no single international prefix

---
 src/phonenumberutil/phonenumberutil_internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 1edce2e..324d0f0 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1566,7 +1566,8 @@ impl PhoneNumberUtilInternal {
             } else {
                 metadata.preferred_international_prefix()
             }
-        });
+        })
+        .filter(|prefix| !prefix.is_empty());
         let formatted_number = if let Some(international_prefix_for_formatting) =
             international_prefix_for_formatting
         {
-- 
2.43.0


From 0946581b2d862f66425947fac45026dcc8286670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 3/8] fix: treat an empty extension as no extension when
 matching numbers

---
 src/phonenumberutil/helper_functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/phonenumberutil/helper_functions.rs b/src/phonenumberutil/helper_functions.rs
index ce9664a..bc6c811 100644
--- a/src/phonenumberutil/helper_functions.rs
+++ b/src/phonenumberutil/helper_functions.rs
@@ -459,8 +459,8 @@ pub(crate) fn copy_core_fields_only(from_number: &PhoneNumber) -> PhoneNumber {
     let mut to_number = PhoneNumber::new();
     to_number.set_country_code(from_number.country_code());
     to_number.set_national_number(from_number.national_number());
-    if let Some(extension) = &from_number.extension {
-        to_number.set_extension(extension.clone());
+    if !from_number.extension().is_empty() {
+        to_number.set_extension(from_number.extension().to_owned());
     }
     if from_number.italian_leading_zero() {
         to_number.set_italian_leading_zero(true);
-- 
2.43.0


From ce05cfa1f4a779f8c267bcb6994bd69010792084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 4/8] fix: mobile dialing must not drop the raw input of
 numbers formatted as is

---
 src/phonenumberutil/phonenumberutil_internal.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 324d0f0..cb01a49 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -860,9 +860,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             } else {
                 // For non-geographical countries, and Mexican, Chilean and Uzbek fixed
                 // line and mobile numbers, we output international format for numbers
@@ -895,9 +893,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             }
         } else if is_valid_number && self.can_be_internationally_dialled(&number_no_extension)? {
             // We assume that short numbers are not diallable from outside their
@@ -908,10 +904,9 @@ impl PhoneNumberUtilInternal {
             } else {
                 PhoneNumberFormat::E164
             };
-            return Ok(Cow::Owned(owned_from_cow_or!(
-                self.format(&number_no_extension, format)?,
-                formatted_number
-            )));
+            return Ok(Cow::Owned(
+                self.format(&number_no_extension, format)?.into_owned(),
+            ));
         }
         if !with_formatting {
             Ok(Cow::Owned(
-- 
2.43.0


From 361c57e64606ac87987e5283898ded5f2e802b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 5/8] fix: only remove a leading plus sign in
 format_in_original_format

---
 src/phonenumberutil/phonenumberutil_internal.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index cb01a49..63001fd 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1278,9 +1278,11 @@ impl PhoneNumberUtilInternal {
             CountryCodeSource::FROM_NUMBER_WITH_IDD => {
                 self.format_out_of_country_calling_number(phone_number, region_calling_from)?
             }
-            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => Cow::Owned(
-                self.format(phone_number, PhoneNumberFormat::International)?[1..].to_string(),
-            ),
+            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => {
+                let formatted = self.format(phone_number, PhoneNumberFormat::International)?;
+                // There is no plus sign if the number could not be formatted.
+                strip_cow_prefix(formatted.clone(), PLUS_SIGN).unwrap_or(formatted)
+            }
             CountryCodeSource::FROM_DEFAULT_COUNTRY
             | CountryCodeSource::UNSPECIFIED => 'default_block: {
                 let format_national = || self.format(phone_number, PhoneNumberFormat::National);
-- 
2.43.0


From 99161b4291552bc3797a850a1526aa0608592dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 6/8] fix: match national numbers against the whole pattern,
 not its first matching alternative

---
 src/regex_based_matcher.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/regex_based_matcher.rs b/src/regex_based_matcher.rs
index 8af26f2..4d08bb0 100644
--- a/src/regex_based_matcher.rs
+++ b/src/regex_based_matcher.rs
@@ -15,7 +15,7 @@
 
 
 use log::{error};
-use super::regex_util::{RegexFullMatch, RegexConsume};
+use super::regex_util::RegexConsume;
 
 use crate::{interfaces, generated::proto::phonemetadata::PhoneNumberDesc, regexp_cache::{InvalidRegexError, RegexCache}};
 
@@ -33,13 +33,17 @@ impl RegexBasedMatcher {
         number_pattern: &str,
         allow_prefix_match: bool
     ) -> Result<bool, InvalidRegexError> {
-        let regexp = self.cache.get_regex(number_pattern)?;
-
         // find first occurrence
         if allow_prefix_match {
+            let regexp = self.cache.get_regex(number_pattern)?;
             Ok(regexp.matches_start(phone_number))
         } else {
-            Ok(regexp.full_match(phone_number))
+            // The first alternative that matches wins, even if it does not span the
+            // whole number and a later one would, so both ends have to be anchored.
+            let regexp = self
+                .cache
+                .get_regex(&fast_cat::concat_str!("^(?:", number_pattern, ")$"))?;
+            Ok(regexp.is_match(phone_number))
         }
     }
 }
-- 
2.43.0


From 3c3758a4d6c0b9f850c50f7db5c7d70888d5e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 7/8] fix: strip the national prefix before checking a number
 without its country code

---
 src/phonenumberutil/phonenumberutil_internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 63001fd..742c6c0 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2194,6 +2194,7 @@ impl PhoneNumberUtilInternal {
                     "Number without country calling code prefix: {:?}",
                     phone_number_and_carrier_code
                 );
+                let (stripped_national_number, _) = phone_number_and_carrier_code;
                 // If the number was not valid before but is valid now, or if it was too
                 // long before, we consider the number with the country code stripped to
                 // be a better result and keep that instead.
@@ -2203,7 +2204,7 @@ impl PhoneNumberUtilInternal {
                     general_num_desc,
                 ) && helper_functions::is_match(
                     &self.matcher_api,
-                    &potential_national_number,
+                    &stripped_national_number,
                     general_num_desc,
                 )) || test_number_length_with_unknown_type(
                     &national_number,
-- 
2.43.0


From 201bb3a6696cbdd610a163aa6de667ffd9bab504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:32 +0000
Subject: [PATCH 8/8] verif: guarded hook module for the verification driver
 (cfg verif_hooks)

---
 src/lib.rs                 | 5 +++++
 src/phonenumberutil/mod.rs | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6223688..2518320 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#![allow(unexpected_cfgs)]
+
 mod interfaces;
 /// This module is automatically generated from /resources/*.proto
 mod generated;
@@ -35,6 +37,9 @@ pub use phonenumberutil::{
     errors::{*},
     enums::{*},
 };
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub use phonenumberutil::verif_hooks;
 pub use generated::proto::phonemetadata;
 pub use generated::proto::phonenumber::PhoneNumber;
 pub use generated::proto::phonenumber::phone_number::CountryCodeSource;
diff --git a/src/phonenumberutil/mod.rs b/src/phonenumberutil/mod.rs
index 6599108..f08d9da 100644
--- a/src/phonenumberutil/mod.rs
+++ b/src/phonenumberutil/mod.rs
@@ -22,6 +22,12 @@ pub mod phonenumberutil;
 mod phone_number_regexps_and_mappings;
 pub(self) mod helper_types;
 
+/// Lets the verification driver call crate-private operations; never part of a normal build.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    include!(env!("VERIF_HOOKS_RS"));
+}
+
 use std::sync::LazyLock;
 
 use crate::phonenumberutil::phonenumberutil::PhoneNumberUtil;
-- 
2.43.0

