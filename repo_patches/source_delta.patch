From 0bafe74a4caf10c158dd644ef78c85d8bd2e3baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 01/10] fix: match validation patterns against the whole value

XSD pattern facets constrain the entire lexical value, but validate_pattern
searched for the pattern anywhere in it, so 'xxUSDxx' satisfied [A-Z]{3,3}.
Anchor the expression at both ends.
---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 86fd23e..819f394 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -96,7 +96,8 @@ pub mod helpers {
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
-        let regex = match Regex::new(pattern) {
+        // XSD patterns constrain the whole value, so the match is anchored at both ends
+        let regex = match Regex::new(&format!("^(?:{pattern})$")) {
             Ok(r) => r,
             Err(_) => {
                 collector.add_critical_error(
-- 
2.43.0


From 8423d8e89a041334dead590d997c78a7606bc34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 02/10] fix: stop recording errors after the first one in
 fail_fast mode

ParserConfig::fail_fast is documented as 'stop at first error', but every
helper went on checking and recording after a critical error, so a fail-fast
validation reported all errors of the message.
---
 src/validation.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 819f394..8a062ec 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -31,6 +31,11 @@ pub mod helpers {
     use crate::parse_result::{ErrorCollector, ParserConfig};
     use regex::Regex;
 
+    /// With `fail_fast`, nothing is checked or recorded after the first (critical) error
+    fn stopped(config: &ParserConfig, collector: &ErrorCollector) -> bool {
+        config.fail_fast && collector.has_critical_errors()
+    }
+
     /// Validate string length
     pub fn validate_length(
         value: &str,
@@ -41,6 +46,10 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        if stopped(config, collector) {
+            return false;
+        }
+
         let mut valid = true;
 
         if let Some(min_len) = min
@@ -93,6 +102,10 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        if stopped(config, collector) {
+            return false;
+        }
+
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
@@ -137,9 +150,13 @@ pub mod helpers {
         value: &Option<T>,
         field_name: &str,
         path: &str,
-        _config: &ParserConfig,
+        config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        if stopped(config, collector) {
+            return false;
+        }
+
         if value.is_none() {
             let error = ValidationError::new(1003, format!("{field_name} is required"))
                 .with_field(field_name.to_string())
-- 
2.43.0


From 372ce2f4cc6fbea6a887a44e507b094101e51be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 03/10] fix: do not panic on XML that ends right after '<'

extract_message_type_from_xml indexed the byte after the first '<' behind the
Document tag without checking that it exists ('<Document><').
---
 src/plugin/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 9a05c5c..ebdc0d2 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -93,7 +93,10 @@ pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
 
             // Find the first element after Document
             if let Some(elem_start) = after_doc.find('<')
-                && after_doc.as_bytes()[elem_start + 1] != b'/'
+                && after_doc
+                    .as_bytes()
+                    .get(elem_start + 1)
+                    .is_some_and(|b| *b != b'/')
             {
                 let elem_name_start = elem_start + 1;
                 // Find the end of the element name (space or >)
-- 
2.43.0


From d122008e1a0c5510d91681008e52132df4ab0ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 04/10] fix: do not panic when </Document> precedes the
 Document start tag

xml_to_json_via_document sliced content_start..end_idx without checking their
order ('</Document><Document>').
---
 src/xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xml.rs b/src/xml.rs
index a6d2eda..3df5912 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -74,7 +74,9 @@ pub fn xml_to_json_via_document(
     let inner_xml = if let Some(start_idx) = inner_xml.find("<Document") {
         if let Some(end_bracket) = inner_xml[start_idx..].find('>') {
             let content_start = start_idx + end_bracket + 1;
-            if let Some(end_idx) = inner_xml.rfind("</Document>") {
+            if let Some(end_idx) = inner_xml.rfind("</Document>")
+                && content_start <= end_idx
+            {
                 &inner_xml[content_start..end_idx]
             } else {
                 inner_xml
-- 
2.43.0


From 40a4184e6ff0c6271328cf450b94faaebb984912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 05/10] fix: support every registered message type in
 Document-only parsing

xml_to_json_via_document rejected pain.002, camt.055, camt.058, camt.105 and
camt.106 as unsupported although they are registered, documented and handled
by every other dispatch table.
---
 src/xml.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 3df5912..92bde79 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -123,6 +123,11 @@ pub fn xml_to_json_via_document(
             pain_001_001_09::CustomerCreditTransferInitiationV09,
             "pain.001"
         ),
+        "pain.002" => xml_to_json_doc!(
+            inner_xml,
+            pain_002_001_10::CustomerPaymentStatusReportV10,
+            "pain.002"
+        ),
         "pain.008" => xml_to_json_doc!(
             inner_xml,
             pain_008_001_08::CustomerDirectDebitInitiationV08,
@@ -149,6 +154,11 @@ pub fn xml_to_json_via_document(
             camt_054_001_08::BankToCustomerDebitCreditNotificationV08,
             "camt.054"
         ),
+        "camt.055" => xml_to_json_doc!(
+            inner_xml,
+            camt_055_001_08::CustomerPaymentCancellationRequestV08,
+            "camt.055"
+        ),
         "camt.056" => xml_to_json_doc!(
             inner_xml,
             camt_056_001_08::FIToFIPaymentCancellationRequestV08,
@@ -159,11 +169,26 @@ pub fn xml_to_json_via_document(
             camt_057_001_06::NotificationToReceiveV06,
             "camt.057"
         ),
+        "camt.058" => xml_to_json_doc!(
+            inner_xml,
+            camt_058_001_08::NotificationToReceiveCancellationAdviceV08,
+            "camt.058"
+        ),
         "camt.060" => xml_to_json_doc!(
             inner_xml,
             camt_060_001_05::AccountReportingRequestV05,
             "camt.060"
         ),
+        "camt.105" => xml_to_json_doc!(
+            inner_xml,
+            camt_105_001_02::ChargesPaymentNotificationV02,
+            "camt.105"
+        ),
+        "camt.106" => xml_to_json_doc!(
+            inner_xml,
+            camt_106_001_02::ChargesPaymentRequestV02,
+            "camt.106"
+        ),
         "camt.107" => xml_to_json_doc!(
             inner_xml,
             camt_107_001_01::ChequePresentmentNotificationV01,
-- 
2.43.0


From 0f33170d2d68b2d272875f1ed63e57925ae45b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 06/10] fix: accept valid messages in from_mx_xml_envelope_str

Both branches rejected every input: the Document-only branch called
MxMessage::from_xml, which refuses Document-only XML, and the envelope branch
used the derived Deserialize, which cannot read the Document enum from XML.
validate_mx therefore reported every Document-only message as invalid although
parse_mx accepts it. Use the parsers that parse_mx uses.
---
 src/xml.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 92bde79..e612ca7 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -19,8 +19,8 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
 
     if !has_envelope {
-        // No envelope, validate using MxMessage which handles Document-only
-        MxMessage::from_xml(xml).map_err(|e| {
+        // No envelope, validate using the typed Document-only parser
+        xml_to_json_via_document(xml, message_type).map_err(|e| {
             MxError::XmlDeserialization(format!(
                 "Failed to validate Document (message_type={}): {}",
                 message_type, e
@@ -31,7 +31,7 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
 
     // Parse as full envelope with AppHdr - validate by attempting deserialization
     // All message types use the same BusinessApplicationHeaderV02
-    xml_from_str::<MxMessage>(xml).map_err(|e| {
+    MxMessage::from_xml(xml).map_err(|e| {
         MxError::XmlDeserialization(format!("Failed to parse {} envelope: {}", message_type, e))
     })?;
 
-- 
2.43.0


From c5e5067c56b865ef7f0d10c8eb76622133e2294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 07/10] fix: record the replaced value in the parse_mx and
 validate_mx audit trail

Both handlers reported old_value = null even when they overwrote an existing
target field; publish_mx and generate_mx record the value they replace.
---
 src/plugin/parse.rs    | 8 +++++++-
 src/plugin/validate.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index c6dfa3a..d290618 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -111,6 +111,12 @@ impl Parse {
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
         // Store the parsed result in message data
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         message
             .data_mut()
             .as_object_mut()
@@ -138,7 +144,7 @@ impl Parse {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(parsed_data),
             }],
         ))
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index a124c8e..56a0c82 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -56,6 +56,12 @@ impl AsyncFunctionHandler for Validate {
         let validation_result = self.validate_xml(&xml_content)?;
 
         // Store validation result
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         message
             .data_mut()
             .as_object_mut()
@@ -77,7 +83,7 @@ impl AsyncFunctionHandler for Validate {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(validation_result),
             }],
         ))
-- 
2.43.0


From c088419c28e66a3305245ab9e1ee41adae315b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 08/10] fix: report an error instead of panicking on non-object
 message data

parse_mx and validate_mx unwrapped as_object_mut on the message's data and
metadata, so a message whose context lacks them crashed the handler; generate_mx
already reports a validation error for it.
---
 src/plugin/parse.rs    | 6 ++++++
 src/plugin/validate.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index d290618..c13313a 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -111,6 +111,12 @@ impl Parse {
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
         // Store the parsed result in message data
+        if !message.data().is_object() || !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message data and metadata must be objects".to_string(),
+            ));
+        }
+
         let old_value = message
             .data()
             .get(target_field)
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index 56a0c82..a5ada02 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -56,6 +56,12 @@ impl AsyncFunctionHandler for Validate {
         let validation_result = self.validate_xml(&xml_content)?;
 
         // Store validation result
+        if !message.data().is_object() || !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message data and metadata must be objects".to_string(),
+            ));
+        }
+
         let old_value = message
             .data()
             .get(target_field)
-- 
2.43.0


From 8386f309d30f66157b165bae396cc227f584f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:18 +0000
Subject: [PATCH 09/10] fix: end the document element name at any XML
 whitespace

extract_message_type_from_xml only stopped at a space, so a document element
followed by a newline or tab before its attributes was an unknown type.
---
 src/plugin/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index ebdc0d2..83958b9 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -99,9 +99,9 @@ pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
                     .is_some_and(|b| *b != b'/')
             {
                 let elem_name_start = elem_start + 1;
-                // Find the end of the element name (space or >)
+                // Find the end of the element name (whitespace, > or /)
                 let elem_name_end = after_doc[elem_name_start..]
-                    .find([' ', '>', '/'])
+                    .find(|c: char| c.is_whitespace() || c == '>' || c == '/')
                     .map(|i| elem_name_start + i)
                     .unwrap_or(after_doc.len());
 
-- 
2.43.0


From c0f5dd2ef2e2afacabe366e885b51b12a838e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 10/10] fix: generate_mx reports an error instead of panicking
 on non-object message data

---
 src/plugin/generate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plugin/generate.rs b/src/plugin/generate.rs
index 71a358f..8eee33a 100644
--- a/src/plugin/generate.rs
+++ b/src/plugin/generate.rs
@@ -58,6 +58,12 @@ impl AsyncFunctionHandler for Generate {
         };
 
         // Store the generated data in the target field
+        if !message.data().is_object() {
+            return Err(DataflowError::Validation(
+                "Message data must be an object".to_string(),
+            ));
+        }
+
         let old_value = message
             .data()
             .get(target_field)
@@ -67,7 +73,7 @@ impl AsyncFunctionHandler for Generate {
         message
             .data_mut()
             .as_object_mut()
-            .ok_or_else(|| DataflowError::Validation("Message data must be an object".to_string()))?
+            .unwrap()
             .insert(target_field.to_string(), generated_data.clone());
 
         // Invalidate cache after modification
-- 
2.43.0

