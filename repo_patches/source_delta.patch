From 6d8cbd37e289324cf7aae83d112021ba2195f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 1/3] fix: make get_example_number_for_type independent of hash
 map iteration order

---
 src/phonenumberutil/phonenumberutil_internal.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index adfdd40..777c307 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2324,7 +2324,11 @@ impl PhoneNumberUtilInternal {
         &self,
         phone_number_type: PhoneNumberType,
     ) -> ExampleNumberResult {
-        if let Some(number) = self.get_supported_regions().find_map(|region_code| {
+        // Regions and calling codes are tried in sorted order, so that the answer does
+        // not depend on the iteration order of the hash maps they are stored in.
+        let mut region_codes: Vec<_> = self.get_supported_regions().collect();
+        region_codes.sort_unstable();
+        if let Some(number) = region_codes.into_iter().find_map(|region_code| {
             self.get_example_number_for_type_and_region_code(region_code, phone_number_type)
                 .ok()
         }) {
@@ -2333,8 +2337,10 @@ impl PhoneNumberUtilInternal {
 
         // If there wasn't an example number for a region, try the non-geographical
         // entities.
-        if let Some(res) = self
-            .get_supported_global_network_calling_codes()
+        let mut country_calling_codes: Vec<_> =
+            self.get_supported_global_network_calling_codes().collect();
+        country_calling_codes.sort_unstable();
+        if let Some(res) = country_calling_codes
             .into_iter()
             .find_map(|country_calling_code| {
                 let Some(metadata) = self
-- 
2.43.0


From 21cd7346c5768f271d6d4ad2feb79ef3f563e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 2/3] fix: do not panic on a tel: prefix that follows the
 phone-context

---
 src/phonenumberutil/phonenumberutil_internal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 777c307..2109ba3 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1670,7 +1670,9 @@ impl PhoneNumberUtilInternal {
             // isdn-subaddress component. Note we also handle the case when "tel:" is
             // missing, as we have seen in some of the phone number inputs. In that
             // case, we append everything from the beginning.
-            let index_of_rfc_prefix = number_to_parse.find(RFC3966_PREFIX);
+            // A "tel:" after the phone-context is not a prefix of the number.
+            let index_of_rfc_prefix =
+                number_to_parse[..index_of_phone_context].find(RFC3966_PREFIX);
             let index_of_national_number = index_of_rfc_prefix.map_or(0, |index_of_rfc_prefix| {
                 index_of_rfc_prefix + RFC3966_PREFIX.len()
             });
-- 
2.43.0


From 0fbf80f57c161c9ca9928d524e0079171f11286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 3/3] fix: do not panic in format_in_original_format when the
 formatted number has no plus sign

---
 src/phonenumberutil/phonenumberutil_internal.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 2109ba3..ab8e1c4 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1283,9 +1283,16 @@ impl PhoneNumberUtilInternal {
             CountryCodeSource::FROM_NUMBER_WITH_IDD => {
                 self.format_out_of_country_calling_number(phone_number, region_calling_from)?
             }
-            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => Cow::Owned(
-                self.format(phone_number, PhoneNumberFormat::International)?[1..].to_string(),
-            ),
+            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => {
+                // The formatted number has no plus sign when it is the raw input itself.
+                let formatted = self.format(phone_number, PhoneNumberFormat::International)?;
+                Cow::Owned(
+                    formatted
+                        .strip_prefix(PLUS_SIGN)
+                        .unwrap_or(&formatted)
+                        .to_string(),
+                )
+            }
             CountryCodeSource::FROM_DEFAULT_COUNTRY
             | CountryCodeSource::UNSPECIFIED => 'default_block: {
                 let format_national = || self.format(phone_number, PhoneNumberFormat::National);
-- 
2.43.0

