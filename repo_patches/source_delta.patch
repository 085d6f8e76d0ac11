From 71a32316cbffe22202eca69403d121f53432add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 01/13] fix: percent-encode backslash in path parameters

URL parsers treat a backslash in the path of an http(s) URL as a path
separator, so a parameter value containing one was split into segments.
---
 progenitor-client/src/progenitor_client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index c709e6f..362312e 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -406,6 +406,7 @@ where
 }
 
 // See https://url.spec.whatwg.org/#url-path-segment-string
+// Note that URL parsers treat '\' as a path separator for http(s) URLs.
 const PATH_SET: &percent_encoding::AsciiSet = &percent_encoding::CONTROLS
     .add(b' ')
     .add(b'"')
@@ -417,6 +418,7 @@ const PATH_SET: &percent_encoding::AsciiSet = &percent_encoding::CONTROLS
     .add(b'{')
     .add(b'}')
     .add(b'/')
+    .add(b'\\')
     .add(b'%');
 
 #[doc(hidden)]
-- 
2.43.0


From 9e02ff9ffba0ed1dc6970ce2219fb3f6d76e5fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 02/13] fix: name query parameters that are newtype structs

The inner value of a newtype struct was handed directly to the underlying
serializer without the name of the parameter, so a newtype around a scalar
or a sequence could not be sent.
---
 progenitor-client/src/progenitor_client.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index 362312e..7e36fbc 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -554,13 +554,15 @@ where
 
     fn serialize_newtype_struct<T>(
         self,
-        name: &'static str,
+        _name: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error>
     where
         T: ?Sized + Serialize,
     {
-        self.inner.serialize_newtype_struct(name, value)
+        // As with Option, a newtype struct is represented by its inner value;
+        // that value still needs our name if it's a scalar or a sequence.
+        value.serialize(self)
     }
 
     fn serialize_newtype_variant<T>(
-- 
2.43.0


From 7c8dda8e8f240322a6648a5a05745139469a73b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 03/13] fix: reject a Content-Length with a leading plus sign

Only digits are valid in this header (RFC 9110, section 8.6), but
u64::from_str() also accepts a leading '+'.
---
 progenitor-client/src/progenitor_client.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index 7e36fbc..9fcea57 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -156,12 +156,16 @@ impl<T> ResponseValue<T> {
     /// Gets the parsed value of the Content-Length header, if present and
     /// valid.
     pub fn content_length(&self) -> Option<u64> {
-        self.headers
+        let value = self
+            .headers
             .get(reqwest::header::CONTENT_LENGTH)?
             .to_str()
-            .ok()?
-            .parse::<u64>()
-            .ok()
+            .ok()?;
+        // Unlike u64::from_str(), HTTP does not permit a leading '+'.
+        if !value.bytes().all(|b| b.is_ascii_digit()) {
+            return None;
+        }
+        value.parse::<u64>().ok()
     }
 
     #[doc(hidden)]
-- 
2.43.0


From 929c7bddc16d58de44527f7c7d81499a64be4500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 04/13] fix: reject a closing brace right after a path
 parameter

---
 progenitor-impl/src/template.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/progenitor-impl/src/template.rs b/progenitor-impl/src/template.rs
index 47f3cc8..51a3687 100644
--- a/progenitor-impl/src/template.rs
+++ b/progenitor-impl/src/template.rs
@@ -114,6 +114,8 @@ pub fn parse(t: &str) -> Result<PathTemplate> {
                 if c == '{' {
                     s = State::Parameter;
                     a = String::new();
+                } else if c == '}' {
+                    return Err(Error::InvalidPath("unexpected }".to_string()));
                 } else {
                     s = State::Constant;
                     a = c.to_string();
-- 
2.43.0


From 877239a105a5bbfdceeec49d293ef27b6b492cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 05/13] fix: generate code that compiles for OPTIONS and TRACE
 operations

---
 progenitor-impl/src/method.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 7446d3f..a3082b4 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1081,7 +1081,15 @@ impl Generator {
             }
         });
 
-        let method_func = format_ident!("{}", method.method.as_str());
+        let method_call = match &method.method {
+            // reqwest::Client has no method of its own for these.
+            HttpMethod::Options => quote! { .request(::reqwest::Method::OPTIONS, #url_ident) },
+            HttpMethod::Trace => quote! { .request(::reqwest::Method::TRACE, #url_ident) },
+            method => {
+                let method_func = format_ident!("{}", method.as_str());
+                quote! { . #method_func (#url_ident) }
+            }
+        };
 
         let body_impl = quote! {
             #url_path
@@ -1090,7 +1098,7 @@ impl Generator {
 
             #[allow(unused_mut)]
             let mut #request_ident = #client.client
-                . #method_func (#url_ident)
+                #method_call
                 #accept_header
                 #(#body_func)*
                 #( .query(#query_params) )*
-- 
2.43.0


From 16e3f8fcabdc0503863a90a6da1c7ef1794ca7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 06/13] fix: keep a parameter named header_map apart from the
 generated local

---
 progenitor-impl/src/method.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index a3082b4..b1ecb29 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -780,6 +780,7 @@ impl Generator {
         let request_ident = unique_ident_from("request", &param_names);
         let response_ident = unique_ident_from("response", &param_names);
         let result_ident = unique_ident_from("result", &param_names);
+        let header_map_ident = unique_ident_from("header_map", &param_names);
 
         // Generate code for query parameters.
         let query_params = method
@@ -806,7 +807,7 @@ impl Generator {
                     let hn_ident = format_ident!("{}", &param.name);
                     let res = if *required {
                         quote! {
-                            header_map.append(
+                            #header_map_ident.append(
                                 #hn,
                                 #hn_ident.to_string().try_into()?
                             );
@@ -814,7 +815,7 @@ impl Generator {
                     } else {
                         quote! {
                             if let Some(value) = #hn_ident {
-                                header_map.append(
+                                #header_map_ident.append(
                                     #hn,
                                     value.to_string().try_into()?
                                 );
@@ -829,8 +830,8 @@ impl Generator {
 
         let headers_size = headers.len() + 1;
         let headers_build = quote! {
-            let mut header_map = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
-            header_map.append(
+            let mut #header_map_ident = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
+            #header_map_ident.append(
                 ::reqwest::header::HeaderName::from_static("api-version"),
                 ::reqwest::header::HeaderValue::from_static(#client.api_version()),
             );
@@ -839,7 +840,7 @@ impl Generator {
         };
 
         let headers_use = quote! {
-            .headers(header_map)
+            .headers(#header_map_ident)
         };
 
         let websock_hdrs = if method.dropshot_websocket {
-- 
2.43.0


From b697cebbc8051271ac3f1691c1317a9aa17c4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 07/13] fix: infer number and string, not array, for nullable
 schemas without a type

---
 progenitor-impl/src/to_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 359d5bc..59a7630 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -575,10 +575,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                                 .then_some(schemars::schema::InstanceType::Array),
                             so.number
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::Number),
                             so.string
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::String),
                             nullable.then_some(schemars::schema::InstanceType::Null),
                         ]
                         .into_iter()
-- 
2.43.0


From 2127434618d282d710b7cb9100736fb19ad3cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:12 +0000
Subject: [PATCH 08/13] fix: a nullable schema without a type admits its
 enumerated values, and any value when nothing implies a type

---
 progenitor-impl/src/to_schema.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 59a7630..4e14739 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -566,7 +566,7 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     // additional null type; otherwise we can leave the type
                     // implied.
                     (None, true) => {
-                        let instance_types = [
+                        let mut instance_types = [
                             so.object
                                 .is_some()
                                 .then_some(schemars::schema::InstanceType::Object),
@@ -579,14 +579,34 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                             so.string
                                 .is_some()
                                 .then_some(schemars::schema::InstanceType::String),
-                            nullable.then_some(schemars::schema::InstanceType::Null),
                         ]
                         .into_iter()
                         .flatten()
                         .collect::<Vec<_>>();
 
-                        // TODO we could also look at enumerated values to
-                        // infer a type.
+                        // Enumerated values imply their types.
+                        for value in enumeration {
+                            let value_type = match value {
+                                Value::Null => schemars::schema::InstanceType::Null,
+                                Value::Bool(_) => schemars::schema::InstanceType::Boolean,
+                                Value::Number(_) => schemars::schema::InstanceType::Number,
+                                Value::String(_) => schemars::schema::InstanceType::String,
+                                Value::Array(_) => schemars::schema::InstanceType::Array,
+                                Value::Object(_) => schemars::schema::InstanceType::Object,
+                            };
+                            if !instance_types.contains(&value_type) {
+                                instance_types.push(value_type);
+                            }
+                        }
+
+                        // If nothing implies a type (and there are no
+                        // subschemas to do so) then any type is allowed, null
+                        // included; naming null would exclude the others.
+                        if (!instance_types.is_empty() || so.subschemas.is_some())
+                            && !instance_types.contains(&schemars::schema::InstanceType::Null)
+                        {
+                            instance_types.push(schemars::schema::InstanceType::Null);
+                        }
 
                         so.instance_type = match (instance_types.first(), instance_types.len()) {
                             (Some(typ), 1) => Some(SingleOrVec::Single(Box::new(*typ))),
-- 
2.43.0


From f362f7903145c1645ab563d45be27b82784f63c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:29 +0000
Subject: [PATCH 09/13] fix: mocks match query parameters by their name in the
 API

---
 progenitor-impl/src/httpmock.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/progenitor-impl/src/httpmock.rs b/progenitor-impl/src/httpmock.rs
index 6ac092e..59f1ebb 100644
--- a/progenitor-impl/src/httpmock.rs
+++ b/progenitor-impl/src/httpmock.rs
@@ -184,7 +184,7 @@ impl Generator {
                         }
                     }
                     OperationParameterKind::Query(true) => quote! {
-                        Self(self.0.query_param(#name, value.to_string()))
+                        Self(self.0.query_param(#api_name, value.to_string()))
                     },
 
                     OperationParameterKind::Query(false) => {
@@ -209,7 +209,7 @@ impl Generator {
                             {
                                 if let Some(value) = value.into() {
                                     Self(self.0.query_param(
-                                        #name,
+                                        #api_name,
                                         value.to_string(),
                                     ))
                                 } else {
@@ -218,7 +218,7 @@ impl Generator {
                                             .as_ref()
                                             .and_then(|qs| {
                                                 qs.iter().find(
-                                                    |(key, _)| key == #name)
+                                                    |(key, _)| key == #api_name)
                                             })
                                             .is_none()
                                     }))
-- 
2.43.0


From e1519e21c9ca5bd04684b641dffb02f6c20a315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 10/13] fix: mocks match the fixed parts of a path literally

---
 progenitor-impl/src/template.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/template.rs b/progenitor-impl/src/template.rs
index 51a3687..af3fcc9 100644
--- a/progenitor-impl/src/template.rs
+++ b/progenitor-impl/src/template.rs
@@ -65,7 +65,7 @@ impl PathTemplate {
             .components
             .iter()
             .map(|c| match c {
-                Component::Constant(name) => name.clone(),
+                Component::Constant(name) => escape_regex(name),
                 Component::Parameter(_) => "[^/]*".to_string(),
             })
             .collect::<String>();
@@ -77,7 +77,7 @@ impl PathTemplate {
             .components
             .iter()
             .map(|c| match c {
-                Component::Constant(name) => name.clone(),
+                Component::Constant(name) => escape_regex(name),
                 Component::Parameter(p) if p == param => "{}".to_string(),
                 Component::Parameter(_) => ".*".to_string(),
             })
@@ -86,6 +86,19 @@ impl PathTemplate {
     }
 }
 
+/// Escape the characters that have a meaning in a regular expression.
+fn escape_regex(s: &str) -> String {
+    s.chars()
+        .flat_map(|c| {
+            r"\.+*?()|[]{}^$"
+                .contains(c)
+                .then_some('\\')
+                .into_iter()
+                .chain(std::iter::once(c))
+        })
+        .collect()
+}
+
 pub fn parse(t: &str) -> Result<PathTemplate> {
     enum State {
         Start,
-- 
2.43.0


From 2dcd612c88a361d46574bb7bee8e624f71252387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 11/13] fix: order header parameters before the body
 consistently

---
 progenitor-impl/src/method.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index b1ecb29..32fff67 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -2293,6 +2293,9 @@ fn sort_params(raw_params: &mut [OperationParameter], names: &[String]) {
                 (OperationParameterKind::Header(_), OperationParameterKind::Header(_)) => {
                     a_name.cmp(b_name)
                 }
+                (OperationParameterKind::Header(_), OperationParameterKind::Body(_)) => {
+                    Ordering::Less
+                }
                 (OperationParameterKind::Header(_), _) => Ordering::Greater,
             }
         },
-- 
2.43.0


From ea92ab4e812fce916ad5e433208e5357bbee8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:08 +0000
Subject: [PATCH 12/13] fix: give each trait of a tag one method per operation

Tags listed twice, or whose names become one identifier, gave traits and
methods that were defined twice: a client that does not compile.
---
 progenitor-impl/src/method.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 32fff67..c588f7f 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1955,8 +1955,15 @@ impl Generator {
                         #body
                     }
                 };
-                method.tags.iter().for_each(|tag| {
-                    ext.entry(tag.clone())
+                // Distinct tags may share a trait name, and a tag may be listed
+                // more than once; the trait still has the method just once.
+                let traits = method
+                    .tags
+                    .iter()
+                    .map(|tag| sanitize(tag, Case::Pascal))
+                    .collect::<BTreeSet<_>>();
+                traits.into_iter().for_each(|tr| {
+                    ext.entry(tr)
                         .or_insert_with(Vec::new)
                         .push((trait_sig.clone(), impl_body.clone()));
                 });
@@ -1973,12 +1980,13 @@ impl Generator {
 
         let (ext_impl, ext_use): (Vec<_>, Vec<_>) = ext
             .into_iter()
-            .map(|(tag, trait_methods)| {
+            .map(|(tr, trait_methods)| {
                 let desc = tag_info
-                    .get(&tag)
-                    .and_then(|tag| tag.description.as_ref())
+                    .values()
+                    .filter(|tag| sanitize(&tag.name, Case::Pascal) == tr)
+                    .find_map(|tag| tag.description.as_ref())
                     .map(|d| quote! { #[doc = #d] });
-                let tr = format_ident!("Client{}Ext", sanitize(&tag, Case::Pascal));
+                let tr = format_ident!("Client{}Ext", tr);
                 let (trait_methods, trait_impls): (Vec<TokenStream>, Vec<TokenStream>) =
                     trait_methods.into_iter().unzip();
                 (
-- 
2.43.0


From 2d0dfb0105b3d9dc5f454c922b5a83be15a3b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:32 +0000
Subject: [PATCH 13/13] fix: keep a stream's own variables apart from
 parameters

---
 progenitor-impl/src/method.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index c588f7f..6b7c315 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -630,6 +630,17 @@ impl Generator {
 
             let stream_id = format_ident!("{}_stream", method.operation_id);
 
+            // Generate unique Idents for the variables that are in scope where
+            // parameters are used.
+            let param_names = method
+                .params
+                .iter()
+                .map(|param| format_ident!("{}", param.name))
+                .collect::<Vec<_>>();
+            let page_ident = unique_ident_from("page", &param_names);
+            let first_ident = unique_ident_from("first", &param_names);
+            let state_ident = unique_ident_from("state", &param_names);
+
             // The parameters are the same as those to the paged method, but
             // without "page_token"
             let stream_params = method
@@ -662,7 +673,7 @@ impl Generator {
             // - The initial inputs for non-query parameters
             let step_params = method.params.iter().map(|param| {
                 if param.api_name.as_str() == "page_token" {
-                    quote! { state.as_deref() }
+                    quote! { #state_ident.as_deref() }
                 } else if param.api_name.as_str() != "limit"
                     && matches!(param.kind, OperationParameterKind::Query(_))
                 {
@@ -703,20 +714,20 @@ impl Generator {
                     // Execute the operation with the basic parameters
                     // (omitting page_token) to get the first page.
                     self.#operation_id( #(#first_params,)* )
-                        .map_ok(move |page| {
-                            let page = page.into_inner();
+                        .map_ok(move |#page_ident| {
+                            let #page_ident = #page_ident.into_inner();
 
                             // Create a stream from the items of the first page.
-                            let first =
-                                futures::stream::iter(page.items).map(Ok);
+                            let #first_ident =
+                                futures::stream::iter(#page_ident.items).map(Ok);
 
                             // We unfold subsequent pages using page.next_page
                             // as the seed value. Each iteration returns its
                             // items and the next page token.
                             let rest = futures::stream::try_unfold(
-                                page.next_page,
-                                move |state| async move {
-                                    if state.is_none() {
+                                #page_ident.next_page,
+                                move |#state_ident| async move {
+                                    if #state_ident.is_none() {
                                         // The page_token was None so we've
                                         // reached the end.
                                         Ok(None)
@@ -744,7 +755,7 @@ impl Generator {
                             )
                             .try_flatten();
 
-                            first.chain(rest)
+                            #first_ident.chain(rest)
                         })
                         .try_flatten_stream()
                         .boxed()
-- 
2.43.0

