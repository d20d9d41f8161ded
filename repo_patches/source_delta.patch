From 9cfd6d987bc3a667262d3b7e1d95f3c5e23ea7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 1/9] fix: percent-encode backslashes in path parameters

A URL parser turns a backslash in the path of an http(s) URL into a
slash, so a path parameter containing one was sent as two segments.
---
 progenitor-client/src/progenitor_client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index c709e6f..e8b1f67 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -413,6 +413,7 @@ const PATH_SET: &percent_encoding::AsciiSet = &percent_encoding::CONTROLS
     .add(b'<')
     .add(b'>')
     .add(b'?')
+    .add(b'\\')
     .add(b'`')
     .add(b'{')
     .add(b'}')
-- 
2.43.0


From 9783652c9fb786eb7dd1d4e3a9736224b610c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 2/9] fix: reject an unmatched } right after a path parameter

The template parser rejected a stray closing brace everywhere but directly
after a parameter: /{a}} parsed to the literal }, which makes the generated
format string invalid.
---
 progenitor-impl/src/template.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/progenitor-impl/src/template.rs b/progenitor-impl/src/template.rs
index 47f3cc8..51a3687 100644
--- a/progenitor-impl/src/template.rs
+++ b/progenitor-impl/src/template.rs
@@ -114,6 +114,8 @@ pub fn parse(t: &str) -> Result<PathTemplate> {
                 if c == '{' {
                     s = State::Parameter;
                     a = String::new();
+                } else if c == '}' {
+                    return Err(Error::InvalidPath("unexpected }".to_string()));
                 } else {
                     s = State::Constant;
                     a = c.to_string();
-- 
2.43.0


From 178ddcb75d56d5a2022464cec359484f724489fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 3/9] fix: order header parameters before the body when sorting

Both (Header, Body) and (Body, Header) compared as Greater, so the comparison
was not an order and the argument order depended on the order in the document
(and sort_by may panic on such a comparison).
---
 progenitor-impl/src/method.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 7446d3f..ba253cd 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -2284,6 +2284,9 @@ fn sort_params(raw_params: &mut [OperationParameter], names: &[String]) {
                 (OperationParameterKind::Header(_), OperationParameterKind::Header(_)) => {
                     a_name.cmp(b_name)
                 }
+                (OperationParameterKind::Header(_), OperationParameterKind::Body(_)) => {
+                    Ordering::Less
+                }
                 (OperationParameterKind::Header(_), _) => Ordering::Greater,
             }
         },
-- 
2.43.0


From df0de685e8611b22dae9c72c09a997b70c44b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 4/9] fix: infer number and string types of untyped nullable
 schemas

An untyped nullable schema with numeric or string constraints was given the
type array.
---
 progenitor-impl/src/to_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 359d5bc..59a7630 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -575,10 +575,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                                 .then_some(schemars::schema::InstanceType::Array),
                             so.number
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::Number),
                             so.string
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::String),
                             nullable.then_some(schemars::schema::InstanceType::Null),
                         ]
                         .into_iter()
-- 
2.43.0


From 6add957b916ccb3a6f104ec5f2db8777ef52089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:26 +0000
Subject: [PATCH 5/9] fix: sort a response range after the codes it includes

A range sorted with the lowest code of its class, so its match arm shadowed the
arms of other documented codes of the class (OpenAPI gives an explicit code
precedence), and a default response next to 2XX was only dropped when no other
success code was documented; otherwise its type was taken for a second success
type and the generator panicked. Ranges also compared equal to a different
status although they were not equal.
---
 progenitor-impl/src/method.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index ba253cd..acf6992 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -208,13 +208,14 @@ impl OperationResponseStatus {
         match self {
             OperationResponseStatus::Code(code) => {
                 assert!(*code < 1000);
-                *code
+                *code * 2
             }
             OperationResponseStatus::Range(range) => {
                 assert!(*range < 10);
-                *range * 100
+                // A range comes right after the last code it includes.
+                (*range * 100 + 99) * 2 + 1
             }
-            OperationResponseStatus::Default => 1000,
+            OperationResponseStatus::Default => 2000,
         }
     }
 
-- 
2.43.0


From e9f666bd37578b6cedefbaeac5d0681d4ade9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:55 +0000
Subject: [PATCH 6/9] fix: generate a call that exists for OPTIONS and TRACE
 operations

---
 progenitor-impl/src/method.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index acf6992..f4c1f3a 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1082,7 +1082,16 @@ impl Generator {
             }
         });
 
-        let method_func = format_ident!("{}", method.method.as_str());
+        // reqwest::Client has a function for each of the usual methods, but not
+        // for OPTIONS or TRACE.
+        let method_func = match method.method {
+            HttpMethod::Options => quote! { request(::reqwest::Method::OPTIONS, #url_ident) },
+            HttpMethod::Trace => quote! { request(::reqwest::Method::TRACE, #url_ident) },
+            _ => {
+                let func = format_ident!("{}", method.method.as_str());
+                quote! { #func (#url_ident) }
+            }
+        };
 
         let body_impl = quote! {
             #url_path
@@ -1091,7 +1100,7 @@ impl Generator {
 
             #[allow(unused_mut)]
             let mut #request_ident = #client.client
-                . #method_func (#url_ident)
+                . #method_func
                 #accept_header
                 #(#body_func)*
                 #( .query(#query_params) )*
-- 
2.43.0


From d2752ee19ac535093dfed38e89e267f48d80c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:55 +0000
Subject: [PATCH 7/9] fix: a parameter named header_map no longer hides the
 generated header map

---
 progenitor-impl/src/method.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index f4c1f3a..2a3dc2e 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -781,6 +781,7 @@ impl Generator {
         let request_ident = unique_ident_from("request", &param_names);
         let response_ident = unique_ident_from("response", &param_names);
         let result_ident = unique_ident_from("result", &param_names);
+        let header_map_ident = unique_ident_from("header_map", &param_names);
 
         // Generate code for query parameters.
         let query_params = method
@@ -807,7 +808,7 @@ impl Generator {
                     let hn_ident = format_ident!("{}", &param.name);
                     let res = if *required {
                         quote! {
-                            header_map.append(
+                            #header_map_ident.append(
                                 #hn,
                                 #hn_ident.to_string().try_into()?
                             );
@@ -815,7 +816,7 @@ impl Generator {
                     } else {
                         quote! {
                             if let Some(value) = #hn_ident {
-                                header_map.append(
+                                #header_map_ident.append(
                                     #hn,
                                     value.to_string().try_into()?
                                 );
@@ -830,8 +831,8 @@ impl Generator {
 
         let headers_size = headers.len() + 1;
         let headers_build = quote! {
-            let mut header_map = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
-            header_map.append(
+            let mut #header_map_ident = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
+            #header_map_ident.append(
                 ::reqwest::header::HeaderName::from_static("api-version"),
                 ::reqwest::header::HeaderValue::from_static(#client.api_version()),
             );
@@ -840,7 +841,7 @@ impl Generator {
         };
 
         let headers_use = quote! {
-            .headers(header_map)
+            .headers(#header_map_ident)
         };
 
         let websock_hdrs = if method.dropshot_websocket {
-- 
2.43.0


From 506cccf49dfe77e876f8fbe35abcffd3ac19bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:07 +0000
Subject: [PATCH 8/9] fix: do not truncate schema limits that exceed u32

---
 progenitor-impl/src/to_schema.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 59a7630..ea4d108 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -450,10 +450,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.string().pattern = Some(pattern.clone());
                 }
                 if let Some(min_length) = min_length {
-                    so.string().min_length = Some(*min_length as u32);
+                    so.string().min_length = Some(saturating_u32(*min_length));
                 }
                 if let Some(max_length) = max_length {
-                    so.string().max_length = Some(*max_length as u32);
+                    so.string().max_length = Some(saturating_u32(*max_length));
                 }
 
                 // Number
@@ -496,10 +496,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.object().additional_properties = additional_properties.convert();
                 }
                 if let Some(min_properties) = min_properties {
-                    so.object().min_properties = Some(*min_properties as u32);
+                    so.object().min_properties = Some(saturating_u32(*min_properties));
                 }
                 if let Some(max_properties) = max_properties {
-                    so.object().max_properties = Some(*max_properties as u32);
+                    so.object().max_properties = Some(saturating_u32(*max_properties));
                 }
 
                 // Array
@@ -507,10 +507,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.array().items = items.convert().clone().map(SingleOrVec::Single);
                 }
                 if let Some(min_items) = min_items {
-                    so.array().min_items = Some(*min_items as u32);
+                    so.array().min_items = Some(saturating_u32(*min_items));
                 }
                 if let Some(max_items) = max_items {
-                    so.array().max_items = Some(*max_items as u32);
+                    so.array().max_items = Some(saturating_u32(*max_items));
                 }
                 if let Some(unique_items) = unique_items {
                     so.array().unique_items = Some(*unique_items);
@@ -744,9 +744,15 @@ fn oneof_nullable_wrapper(
     }
 }
 
+// Limits in OpenAPI may exceed those that schemars can represent; use the
+// closest limit rather than truncating to an unrelated value.
+fn saturating_u32(limit: usize) -> u32 {
+    u32::try_from(limit).unwrap_or(u32::MAX)
+}
+
 impl Convert<Option<u32>> for Option<usize> {
     fn convert(&self) -> Option<u32> {
-        (*self).map(|m| m as u32)
+        (*self).map(saturating_u32)
     }
 }
 
-- 
2.43.0


From f6dfb7aeded399a20cf888ffa2f8a0d047f2fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:07 +0000
Subject: [PATCH 9/9] fix: an untyped nullable enum is no longer restricted to
 null

---
 progenitor-impl/src/to_schema.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index ea4d108..9c142a4 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -588,7 +588,12 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                         // TODO we could also look at enumerated values to
                         // infer a type.
 
+                        // If null is the only type we have to offer, nothing
+                        // constrains the type (e.g. there's just an enum), so
+                        // null is already allowed; with subschemas we rely on
+                        // the null type below.
                         so.instance_type = match (instance_types.first(), instance_types.len()) {
+                            (Some(_), 1) if so.subschemas.is_none() => None,
                             (Some(typ), 1) => Some(SingleOrVec::Single(Box::new(*typ))),
                             (Some(_), _) => Some(SingleOrVec::Vec(instance_types)),
                             (None, _) => None,
-- 
2.43.0

