From ef126c90ee171a0d5956919f300bc852f714c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 01/29] fix: percent-encode backslashes in path parameters

---
 progenitor-client/src/progenitor_client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index c709e6f..eaeb64d 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -406,6 +406,9 @@ where
 }
 
 // See https://url.spec.whatwg.org/#url-path-segment-string
+//
+// Note that for "special" schemes such as http and https, the URL parser
+// treats '\\' as it does '/', so it too must be encoded.
 const PATH_SET: &percent_encoding::AsciiSet = &percent_encoding::CONTROLS
     .add(b' ')
     .add(b'"')
@@ -417,6 +420,7 @@ const PATH_SET: &percent_encoding::AsciiSet = &percent_encoding::CONTROLS
     .add(b'{')
     .add(b'}')
     .add(b'/')
+    .add(b'\\')
     .add(b'%');
 
 #[doc(hidden)]
-- 
2.43.0


From 61e4584b5ed1d0b108812daf2b20576968210f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 02/29] fix: refuse an unbalanced brace after a path parameter

---
 progenitor-impl/src/template.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/progenitor-impl/src/template.rs b/progenitor-impl/src/template.rs
index 47f3cc8..51a3687 100644
--- a/progenitor-impl/src/template.rs
+++ b/progenitor-impl/src/template.rs
@@ -114,6 +114,8 @@ pub fn parse(t: &str) -> Result<PathTemplate> {
                 if c == '{' {
                     s = State::Parameter;
                     a = String::new();
+                } else if c == '}' {
+                    return Err(Error::InvalidPath("unexpected }".to_string()));
                 } else {
                     s = State::Constant;
                     a = c.to_string();
-- 
2.43.0


From 8a3acfc5198e304ed54d4b9221a042419d301cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 03/29] fix: order header parameters before the body
 consistently

---
 progenitor-impl/src/method.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 7446d3f..ba253cd 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -2284,6 +2284,9 @@ fn sort_params(raw_params: &mut [OperationParameter], names: &[String]) {
                 (OperationParameterKind::Header(_), OperationParameterKind::Header(_)) => {
                     a_name.cmp(b_name)
                 }
+                (OperationParameterKind::Header(_), OperationParameterKind::Body(_)) => {
+                    Ordering::Less
+                }
                 (OperationParameterKind::Header(_), _) => Ordering::Greater,
             }
         },
-- 
2.43.0


From d03f3eb8083cdddb291dca959b7606fb6a4fc086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 04/29] fix: infer number and string types of nullable schemas

---
 progenitor-impl/src/to_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 359d5bc..59a7630 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -575,10 +575,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                                 .then_some(schemars::schema::InstanceType::Array),
                             so.number
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::Number),
                             so.string
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::String),
                             nullable.then_some(schemars::schema::InstanceType::Null),
                         ]
                         .into_iter()
-- 
2.43.0


From 96731044c055a04d8a6521e2b11a61399cf2834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 05/29] fix: do not reduce a nullable schema without a type to
 null

---
 progenitor-impl/src/to_schema.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 59a7630..cc0b9eb 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -613,6 +613,17 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                             nullable,
                         )
                     }
+                    // Without subschemas, the null type merely says that
+                    // there was nothing to infer a type from: other types
+                    // are not excluded.
+                    Some(SingleOrVec::Single(it))
+                        if typ.is_none() && **it == schemars::schema::InstanceType::Null =>
+                    {
+                        schemars::schema::SchemaObject {
+                            instance_type: None,
+                            ..so
+                        }
+                    }
                     _ => so,
                 }
             }
-- 
2.43.0


From 1ac531d000da1975fb47434e5f0a07df09754d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 06/29] fix: do not wrap large size limits of schemas around

---
 progenitor-impl/src/to_schema.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index cc0b9eb..43e0172 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -449,11 +449,11 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                 if let Some(pattern) = pattern {
                     so.string().pattern = Some(pattern.clone());
                 }
-                if let Some(min_length) = min_length {
-                    so.string().min_length = Some(*min_length as u32);
+                if min_length.is_some() {
+                    so.string().min_length = min_length.convert();
                 }
-                if let Some(max_length) = max_length {
-                    so.string().max_length = Some(*max_length as u32);
+                if max_length.is_some() {
+                    so.string().max_length = max_length.convert();
                 }
 
                 // Number
@@ -495,22 +495,22 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                 if additional_properties.is_some() {
                     so.object().additional_properties = additional_properties.convert();
                 }
-                if let Some(min_properties) = min_properties {
-                    so.object().min_properties = Some(*min_properties as u32);
+                if min_properties.is_some() {
+                    so.object().min_properties = min_properties.convert();
                 }
-                if let Some(max_properties) = max_properties {
-                    so.object().max_properties = Some(*max_properties as u32);
+                if max_properties.is_some() {
+                    so.object().max_properties = max_properties.convert();
                 }
 
                 // Array
                 if items.is_some() {
                     so.array().items = items.convert().clone().map(SingleOrVec::Single);
                 }
-                if let Some(min_items) = min_items {
-                    so.array().min_items = Some(*min_items as u32);
+                if min_items.is_some() {
+                    so.array().min_items = min_items.convert();
                 }
-                if let Some(max_items) = max_items {
-                    so.array().max_items = Some(*max_items as u32);
+                if max_items.is_some() {
+                    so.array().max_items = max_items.convert();
                 }
                 if let Some(unique_items) = unique_items {
                     so.array().unique_items = Some(*unique_items);
@@ -757,7 +757,8 @@ fn oneof_nullable_wrapper(
 
 impl Convert<Option<u32>> for Option<usize> {
     fn convert(&self) -> Option<u32> {
-        (*self).map(|m| m as u32)
+        // Larger limits than we can represent make no practical difference.
+        (*self).map(|m| u32::try_from(m).unwrap_or(u32::MAX))
     }
 }
 
-- 
2.43.0


From d9eead9958f6cdbc454a6793fa1899e3a09d6737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 07/29] fix: generate builders for parameters of object type

---
 progenitor-impl/src/method.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index ba253cd..eb1949b 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1487,7 +1487,8 @@ impl Generator {
             .map(|param| match &param.typ {
                 OperationParameterType::Type(type_id) => {
                     let ty = self.type_space.get_type(type_id)?;
-                    if ty.builder().is_some() {
+                    if let (OperationParameterKind::Body(_), Some(_)) = (&param.kind, ty.builder())
+                    {
                         let type_name = ty.ident();
                         Ok(quote! {
                             .and_then(|v| #type_name::try_from(v)
@@ -1511,7 +1512,12 @@ impl Generator {
                 match &param.typ {
                     OperationParameterType::Type(type_id) => {
                         let ty = self.type_space.get_type(type_id)?;
-                        match (ty.builder(), param.kind.is_optional()) {
+                        // As above, only body parameters are nested builders.
+                        let builder = match &param.kind {
+                            OperationParameterKind::Body(_) => ty.builder(),
+                            _ => None,
+                        };
+                        match (builder, param.kind.is_optional()) {
                             // TODO right now optional body parameters are not
                             // addressed
                             (Some(_), true) => {
-- 
2.43.0


From ac201ae5f943ac1bf4c6fe951be923b42f348fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 08/29] fix: keep internal names from hiding parameters

---
 progenitor-impl/src/method.rs | 42 ++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index eb1949b..80b1599 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -630,6 +630,17 @@ impl Generator {
 
             let stream_id = format_ident!("{}_stream", method.operation_id);
 
+            // Parameters are used inside closures: these must not hide them.
+            let param_names = method
+                .params
+                .iter()
+                .map(|param| format_ident!("{}", param.name))
+                .collect::<Vec<_>>();
+            let page_ident = unique_ident_from("page", &param_names);
+            let first_ident = unique_ident_from("first", &param_names);
+            let rest_ident = unique_ident_from("rest", &param_names);
+            let state_ident = unique_ident_from("state", &param_names);
+
             // The parameters are the same as those to the paged method, but
             // without "page_token"
             let stream_params = method
@@ -662,7 +673,7 @@ impl Generator {
             // - The initial inputs for non-query parameters
             let step_params = method.params.iter().map(|param| {
                 if param.api_name.as_str() == "page_token" {
-                    quote! { state.as_deref() }
+                    quote! { #state_ident.as_deref() }
                 } else if param.api_name.as_str() != "limit"
                     && matches!(param.kind, OperationParameterKind::Query(_))
                 {
@@ -703,20 +714,20 @@ impl Generator {
                     // Execute the operation with the basic parameters
                     // (omitting page_token) to get the first page.
                     self.#operation_id( #(#first_params,)* )
-                        .map_ok(move |page| {
-                            let page = page.into_inner();
+                        .map_ok(move |#page_ident| {
+                            let #page_ident = #page_ident.into_inner();
 
                             // Create a stream from the items of the first page.
-                            let first =
-                                futures::stream::iter(page.items).map(Ok);
+                            let #first_ident =
+                                futures::stream::iter(#page_ident.items).map(Ok);
 
                             // We unfold subsequent pages using page.next_page
                             // as the seed value. Each iteration returns its
                             // items and the next page token.
-                            let rest = futures::stream::try_unfold(
-                                page.next_page,
-                                move |state| async move {
-                                    if state.is_none() {
+                            let #rest_ident = futures::stream::try_unfold(
+                                #page_ident.next_page,
+                                move |#state_ident| async move {
+                                    if #state_ident.is_none() {
                                         // The page_token was None so we've
                                         // reached the end.
                                         Ok(None)
@@ -744,7 +755,7 @@ impl Generator {
                             )
                             .try_flatten();
 
-                            first.chain(rest)
+                            #first_ident.chain(#rest_ident)
                         })
                         .try_flatten_stream()
                         .boxed()
@@ -780,6 +791,7 @@ impl Generator {
         let request_ident = unique_ident_from("request", &param_names);
         let response_ident = unique_ident_from("response", &param_names);
         let result_ident = unique_ident_from("result", &param_names);
+        let header_map_ident = unique_ident_from("header_map", &param_names);
 
         // Generate code for query parameters.
         let query_params = method
@@ -806,7 +818,7 @@ impl Generator {
                     let hn_ident = format_ident!("{}", &param.name);
                     let res = if *required {
                         quote! {
-                            header_map.append(
+                            #header_map_ident.append(
                                 #hn,
                                 #hn_ident.to_string().try_into()?
                             );
@@ -814,7 +826,7 @@ impl Generator {
                     } else {
                         quote! {
                             if let Some(value) = #hn_ident {
-                                header_map.append(
+                                #header_map_ident.append(
                                     #hn,
                                     value.to_string().try_into()?
                                 );
@@ -829,8 +841,8 @@ impl Generator {
 
         let headers_size = headers.len() + 1;
         let headers_build = quote! {
-            let mut header_map = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
-            header_map.append(
+            let mut #header_map_ident = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
+            #header_map_ident.append(
                 ::reqwest::header::HeaderName::from_static("api-version"),
                 ::reqwest::header::HeaderValue::from_static(#client.api_version()),
             );
@@ -839,7 +851,7 @@ impl Generator {
         };
 
         let headers_use = quote! {
-            .headers(header_map)
+            .headers(#header_map_ident)
         };
 
         let websock_hdrs = if method.dropshot_websocket {
-- 
2.43.0


From 42b87d710b2e077ac8ef52c159e845359e4bf174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:48 +0000
Subject: [PATCH 09/29] fix: give parameters distinct identifiers

---
 progenitor-impl/src/cli.rs    |  5 ++---
 progenitor-impl/src/method.rs | 41 +++++++++++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/progenitor-impl/src/cli.rs b/progenitor-impl/src/cli.rs
index 95dd4fe..1490e6c 100644
--- a/progenitor-impl/src/cli.rs
+++ b/progenitor-impl/src/cli.rs
@@ -377,7 +377,7 @@ impl Generator {
             };
 
             // For paginated endpoints, we don't generate 'page_token' args.
-            if method.dropshot_paginated.is_some() && param.name.as_str() == "page_token" {
+            if method.dropshot_paginated.is_some() && param.api_name.as_str() == "page_token" {
                 continue;
             }
 
@@ -402,8 +402,7 @@ impl Generator {
 
             let parser = clap_arg(&arg_name, volitionality, &param.description, &arg_type);
 
-            let arg_fn_name = sanitize(&param.name, Case::Snake);
-            let arg_fn = format_ident!("{}", arg_fn_name);
+            let arg_fn = format_ident!("{}", param.name);
             let OperationParameterType::Type(arg_type_id) = &param.typ else {
                 panic!()
             };
diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 80b1599..53a58a4 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -14,7 +14,7 @@ use typify::{TypeId, TypeSpace};
 use crate::{
     template::PathTemplate,
     util::{items, parameter_map, sanitize, unique_ident_from, Case},
-    Error, Generator, Result, TagStyle,
+    Error, Generator, InterfaceStyle, Result, TagStyle,
 };
 use crate::{to_schema::ToSchema, util::ReferenceOrExt};
 
@@ -418,6 +418,20 @@ impl Generator {
 
         sort_params(&mut params, &names);
 
+        // Generated code refers to this function by its name alone.
+        let mut reserved = vec!["encode_path"];
+        if let InterfaceStyle::Builder = self.settings.interface {
+            // The functions of a builder other than those for parameters.
+            reserved.extend(["new", "send"]);
+            if operation.request_body.is_some() {
+                reserved.push("body_map");
+            }
+            if operation.extensions.contains_key("x-dropshot-pagination") {
+                reserved.push("stream");
+            }
+        }
+        unique_param_names(&mut params, &reserved);
+
         let mut success = false;
 
         let mut responses =
@@ -648,7 +662,7 @@ impl Generator {
                 .iter()
                 .zip(params)
                 .filter_map(|(param, stream)| {
-                    if param.name.as_str() == "page_token" {
+                    if param.api_name.as_str() == "page_token" {
                         None
                     } else {
                         Some(stream)
@@ -2311,6 +2325,29 @@ fn sort_params(raw_params: &mut [OperationParameter], names: &[String]) {
     );
 }
 
+/// Distinct parameters may have names that result in the same identifier; make
+/// their identifiers unique and different from the given names. The body keeps
+/// its name as do, where possible, parameters named by an identifier.
+fn unique_param_names(params: &mut [OperationParameter], reserved: &[&str]) {
+    let mut order = params.iter_mut().collect::<Vec<_>>();
+    order.sort_by_key(|param| {
+        (
+            !matches!(param.kind, OperationParameterKind::Body(_)),
+            param.name != param.api_name,
+        )
+    });
+
+    let mut names = reserved
+        .iter()
+        .map(ToString::to_string)
+        .collect::<BTreeSet<_>>();
+    for param in order {
+        while !names.insert(param.name.clone()) {
+            param.name.insert(0, '_');
+        }
+    }
+}
+
 trait ParameterDataExt {
     fn schema(&self) -> Result<&openapiv3::ReferenceOr<openapiv3::Schema>>;
 }
-- 
2.43.0


From 36777be8ed646fc64c60bb7539e43c1bddeba7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:09 +0000
Subject: [PATCH 10/29] fix: tell parameters of one name at different locations
 apart

---
 progenitor-impl/src/method.rs |  4 ++--
 progenitor-impl/src/util.rs   | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 53a58a4..c9b90f9 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -13,7 +13,7 @@ use typify::{TypeId, TypeSpace};
 
 use crate::{
     template::PathTemplate,
-    util::{items, parameter_map, sanitize, unique_ident_from, Case},
+    util::{items, parameter_key, parameter_map, sanitize, unique_ident_from, Case},
     Error, Generator, InterfaceStyle, Result, TagStyle,
 };
 use crate::{to_schema::ToSchema, util::ReferenceOrExt};
@@ -296,7 +296,7 @@ impl Generator {
         let mut combined_path_parameters = parameter_map(path_parameters, components)?;
         for operation_param in items(&operation.parameters, components) {
             let parameter = operation_param?;
-            combined_path_parameters.insert(&parameter.parameter_data_ref().name, parameter);
+            combined_path_parameters.insert(parameter_key(parameter), parameter);
         }
 
         // Filter out any path parameters that have been overridden by an
diff --git a/progenitor-impl/src/util.rs b/progenitor-impl/src/util.rs
index 170d00a..e4749f0 100644
--- a/progenitor-impl/src/util.rs
+++ b/progenitor-impl/src/util.rs
@@ -42,12 +42,23 @@ where
     refs.iter().map(|r| r.item(components))
 }
 
+/// Parameters are identified by the combination of their name and location.
+pub(crate) fn parameter_key(parameter: &Parameter) -> (&String, &'static str) {
+    let location = match parameter {
+        Parameter::Query { .. } => "query",
+        Parameter::Header { .. } => "header",
+        Parameter::Path { .. } => "path",
+        Parameter::Cookie { .. } => "cookie",
+    };
+    (&parameter.parameter_data_ref().name, location)
+}
+
 pub(crate) fn parameter_map<'a>(
     refs: &'a [ReferenceOr<Parameter>],
     components: &'a Option<Components>,
-) -> Result<BTreeMap<&'a String, &'a Parameter>> {
+) -> Result<BTreeMap<(&'a String, &'static str), &'a Parameter>> {
     items(refs, components)
-        .map(|res| res.map(|param| (&param.parameter_data_ref().name, param)))
+        .map(|res| res.map(|param| (parameter_key(param), param)))
         .collect()
 }
 
-- 
2.43.0


From 99c541c654574bd9fb42df3cbedf50f552d9e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:34 +0000
Subject: [PATCH 11/29] fix: escape literal path text in mock patterns

---
 progenitor-impl/src/template.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/template.rs b/progenitor-impl/src/template.rs
index 51a3687..623aa6b 100644
--- a/progenitor-impl/src/template.rs
+++ b/progenitor-impl/src/template.rs
@@ -65,7 +65,7 @@ impl PathTemplate {
             .components
             .iter()
             .map(|c| match c {
-                Component::Constant(name) => name.clone(),
+                Component::Constant(name) => escape_regex(name),
                 Component::Parameter(_) => "[^/]*".to_string(),
             })
             .collect::<String>();
@@ -77,7 +77,7 @@ impl PathTemplate {
             .components
             .iter()
             .map(|c| match c {
-                Component::Constant(name) => name.clone(),
+                Component::Constant(name) => escape_regex(name),
                 Component::Parameter(p) if p == param => "{}".to_string(),
                 Component::Parameter(_) => ".*".to_string(),
             })
@@ -86,6 +86,18 @@ impl PathTemplate {
     }
 }
 
+/// Escape the characters that have a special meaning in regular expressions.
+fn escape_regex(s: &str) -> String {
+    let mut out = String::new();
+    for c in s.chars() {
+        if r".+*?()|[]^$\".contains(c) {
+            out.push('\\');
+        }
+        out.push(c);
+    }
+    out
+}
+
 pub fn parse(t: &str) -> Result<PathTemplate> {
     enum State {
         Start,
-- 
2.43.0


From 457ecd634ea4d6ec86b63bf14d75c6aff63aa4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 12/29] fix: send OPTIONS and TRACE requests

The HTTP client has no functions named after these methods, so the
generated code did not compile.
---
 progenitor-impl/src/method.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index c9b90f9..72ce21a 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1107,7 +1107,19 @@ impl Generator {
             }
         });
 
-        let method_func = format_ident!("{}", method.method.as_str());
+        let start = match method.method {
+            // There are no client functions specific to these methods.
+            HttpMethod::Options => quote! {
+                request(::reqwest::Method::OPTIONS, #url_ident)
+            },
+            HttpMethod::Trace => quote! {
+                request(::reqwest::Method::TRACE, #url_ident)
+            },
+            _ => {
+                let method_func = format_ident!("{}", method.method.as_str());
+                quote! { #method_func (#url_ident) }
+            }
+        };
 
         let body_impl = quote! {
             #url_path
@@ -1116,7 +1128,7 @@ impl Generator {
 
             #[allow(unused_mut)]
             let mut #request_ident = #client.client
-                . #method_func (#url_ident)
+                . #start
                 #accept_header
                 #(#body_func)*
                 #( .query(#query_params) )*
-- 
2.43.0


From 4d2abe8c7311a3f43c97689fb26a3ee0445e44a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:09 +0000
Subject: [PATCH 13/29] fix: accept tags that make for the same trait

A tag repeated on an operation, or two tags with the same Pascal-case
name, produced a trait or a method twice.
---
 progenitor-impl/src/method.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 72ce21a..dbe2969 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1968,6 +1968,9 @@ impl Generator {
         let mut base = Vec::new();
         let mut ext = BTreeMap::new();
 
+        // Different tags may make for the same trait name.
+        let mut trait_tags = BTreeMap::new();
+
         methods.iter().for_each(|method| {
             let BuilderImpl { doc, sig, body } = self.builder_helper(method);
 
@@ -1990,8 +1993,18 @@ impl Generator {
                         #body
                     }
                 };
-                method.tags.iter().for_each(|tag| {
-                    ext.entry(tag.clone())
+                let tags = method
+                    .tags
+                    .iter()
+                    .map(|tag| {
+                        trait_tags
+                            .entry(sanitize(tag, Case::Pascal))
+                            .or_insert_with(|| tag.clone())
+                            .clone()
+                    })
+                    .collect::<BTreeSet<_>>();
+                tags.into_iter().for_each(|tag| {
+                    ext.entry(tag)
                         .or_insert_with(Vec::new)
                         .push((trait_sig.clone(), impl_body.clone()));
                 });
-- 
2.43.0


From 4da602cc709df47cf9b3af73356ce4647e1b24ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 14/29] fix: order a range of responses after the codes it
 comprises

Whether a default response was recognised as superseded by a success
range, and hence whether a document was accepted, depended on the other
codes and on the order of declaration.
---
 progenitor-impl/src/method.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index dbe2969..0290fa2 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -204,17 +204,19 @@ pub(crate) enum OperationResponseStatus {
 }
 
 impl OperationResponseStatus {
+    /// A value for ordering: a range follows all codes it comprises, and the
+    /// default follows everything.
     fn to_value(&self) -> u16 {
         match self {
             OperationResponseStatus::Code(code) => {
                 assert!(*code < 1000);
-                *code
+                *code * 2
             }
             OperationResponseStatus::Range(range) => {
                 assert!(*range < 10);
-                *range * 100
+                (*range * 100 + 99) * 2 + 1
             }
-            OperationResponseStatus::Default => 1000,
+            OperationResponseStatus::Default => 2000,
         }
     }
 
-- 
2.43.0


From 03e130b113780380265569cdc2c6c5c2be12166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 15/29] fix: offer a stream only if the page token parameter is
 a string

The value of the parameter is the next_page property of a page; with
another type, such as a string of limited length, the generated code did
not compile.
---
 progenitor-impl/src/method.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 0290fa2..30e7b47 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1269,6 +1269,23 @@ impl Generator {
             return None;
         }
 
+        // The value of the "page_token" parameter comes from the next_page
+        // property of a page so it must be a string as well.
+        if parameters.iter().any(|param| {
+            param.api_name == "page_token"
+                && match (&param.kind, &param.typ) {
+                    (OperationParameterKind::Query(_), OperationParameterType::Type(type_id)) => {
+                        !matches!(
+                            self.type_space.get_type(type_id).map(|typ| typ.details()),
+                            Ok(typify::TypeDetails::String)
+                        )
+                    }
+                    _ => false,
+                }
+        }) {
+            return None;
+        }
+
         // All query parameters must be optional since page_token may not be
         // specified in conjunction with other query parameters.
         if !parameters.iter().all(|param| match &param.kind {
-- 
2.43.0


From 1915808ee1e86bcf9869255761d6b93a6f580774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:32 +0000
Subject: [PATCH 16/29] fix: keep names of operations from clashing with names
 the client uses

An operation named like a function of every client (new, client, ...)
did not compile, and with the builder interface one named like a type
the builders use (error, result, string, ...) made all of them fail to
compile.
---
 progenitor-impl/src/cli.rs    |  6 ++---
 progenitor-impl/src/method.rs | 42 ++++++++++++++++++++++++++++++++---
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/progenitor-impl/src/cli.rs b/progenitor-impl/src/cli.rs
index 1490e6c..fdf34be 100644
--- a/progenitor-impl/src/cli.rs
+++ b/progenitor-impl/src/cli.rs
@@ -62,11 +62,11 @@ impl Generator {
 
         let cli_fns = raw_methods
             .iter()
-            .map(|method| format_ident!("cli_{}", sanitize(&method.operation_id, Case::Snake)))
+            .map(|method| format_ident!("cli_{}", &method.operation_id))
             .collect::<Vec<_>>();
         let execute_fns = raw_methods
             .iter()
-            .map(|method| format_ident!("execute_{}", sanitize(&method.operation_id, Case::Snake)))
+            .map(|method| format_ident!("execute_{}", &method.operation_id))
             .collect::<Vec<_>>();
 
         let cli_variants = raw_methods
@@ -338,7 +338,7 @@ impl Generator {
         };
 
         // TODO this is copy-pasted--unwisely?
-        let struct_name = sanitize(&method.operation_id, Case::Pascal);
+        let struct_name = method.builder_name();
         let struct_ident = format_ident!("{}", struct_name);
 
         let execute_trait = quote! {
diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 30e7b47..75487f4 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -284,6 +284,42 @@ impl OperationResponseKind {
     }
 }
 
+/// The name of the function for an operation, distinct from the functions that
+/// every `Client` has.
+fn function_name(operation_id: &str, has_inner: bool) -> String {
+    let mut name = sanitize(operation_id, Case::Snake);
+    if matches!(
+        name.as_str(),
+        "new" | "new_with_client" | "baseurl" | "client" | "api_version"
+    ) || (has_inner && name == "inner")
+    {
+        name.push('_');
+    }
+    name
+}
+
+impl OperationMethod {
+    /// The name of the builder struct, distinct from the types to which the
+    /// code in the `builder` module refers by their unqualified names.
+    pub(crate) fn builder_name(&self) -> String {
+        let mut name = sanitize(&self.operation_id, Case::Pascal);
+        if matches!(
+            name.as_str(),
+            "ByteStream"
+                | "Error"
+                | "Option"
+                | "RequestBuilderExt"
+                | "ResponseValue"
+                | "Result"
+                | "String"
+                | "Vec"
+        ) {
+            name.push('_');
+        }
+        name
+    }
+}
+
 impl Generator {
     pub(crate) fn process_operation(
         &mut self,
@@ -551,7 +587,7 @@ impl Generator {
         }
 
         Ok(OperationMethod {
-            operation_id: sanitize(operation_id, Case::Snake),
+            operation_id: function_name(operation_id, self.settings.inner_type.is_some()),
             tags: operation.tags.clone(),
             method: HttpMethod::from_str(method)?,
             path: tmp,
@@ -1460,7 +1496,7 @@ impl Generator {
         tag_style: TagStyle,
         has_inner: bool,
     ) -> Result<TokenStream> {
-        let struct_name = sanitize(&method.operation_id, Case::Pascal);
+        let struct_name = method.builder_name();
         let struct_ident = format_ident!("{}", struct_name);
 
         // Generate an ident for each parameter.
@@ -1925,7 +1961,7 @@ impl Generator {
 
     fn builder_helper(&self, method: &OperationMethod) -> BuilderImpl {
         let operation_id = format_ident!("{}", method.operation_id);
-        let struct_name = sanitize(&method.operation_id, Case::Pascal);
+        let struct_name = method.builder_name();
         let struct_ident = format_ident!("{}", struct_name);
 
         let params = method
-- 
2.43.0


From fc4686516b4a7d506c12d1c6cc62933568955924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:30 +0000
Subject: [PATCH 17/29] fix: accept websocket operations that describe 101 or
 only errors

---
 progenitor-impl/src/method.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 75487f4..bfc3496 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -524,7 +524,7 @@ impl Generator {
                         };
 
                         OperationResponseKind::Type(typ)
-                    } else if dropshot_websocket {
+                    } else if dropshot_websocket && status_code.is_success_or_default() {
                         OperationResponseKind::Upgrade
                     } else if response.content.first().is_some() {
                         OperationResponseKind::Raw
@@ -559,8 +559,8 @@ impl Generator {
         // If the API has declined to specify the characteristics of a
         // successful response, we cons up a generic one. Note that this is
         // technically permissible within OpenAPI, but advised against by the
-        // spec.
-        if !success {
+        // spec. The success of a websocket operation is the upgrade added below.
+        if !success && !dropshot_websocket {
             responses.push(OperationResponse {
                 status_code: OperationResponseStatus::Range(2),
                 typ: OperationResponseKind::Raw,
@@ -569,7 +569,11 @@ impl Generator {
         }
 
         // Must accept HTTP 101 Switching Protocols
-        if dropshot_websocket {
+        if dropshot_websocket
+            && !responses
+                .iter()
+                .any(|response| response.status_code == OperationResponseStatus::Code(101))
+        {
             responses.push(OperationResponse {
                 status_code: OperationResponseStatus::Code(101),
                 typ: OperationResponseKind::Upgrade,
-- 
2.43.0


From 99193df4f4128b90c931192bf498a8e4df3b4761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:52 +0000
Subject: [PATCH 18/29] fix: upgrade responses of operations with errors of any
 type

---
 progenitor-client/src/progenitor_client.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index eaeb64d..54a29fb 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -79,9 +79,7 @@ impl<T: DeserializeOwned> ResponseValue<T> {
 #[cfg(not(target_arch = "wasm32"))]
 impl ResponseValue<reqwest::Upgraded> {
     #[doc(hidden)]
-    pub async fn upgrade<E: std::fmt::Debug>(
-        response: reqwest::Response,
-    ) -> Result<Self, Error<E>> {
+    pub async fn upgrade<E>(response: reqwest::Response) -> Result<Self, Error<E>> {
         let status = response.status();
         let headers = response.headers().clone();
         if status == reqwest::StatusCode::SWITCHING_PROTOCOLS {
-- 
2.43.0


From c4bbedecb734e8c70f091ca379c2ee587951cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 19/29] fix: mock responses with status codes that have no
 canonical reason

---
 progenitor-impl/src/httpmock.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/progenitor-impl/src/httpmock.rs b/progenitor-impl/src/httpmock.rs
index 6ac092e..bc6d245 100644
--- a/progenitor-impl/src/httpmock.rs
+++ b/progenitor-impl/src/httpmock.rs
@@ -303,11 +303,14 @@ impl Generator {
 
                 match status_code {
                     OperationResponseStatus::Code(status_code) => {
-                        let canonical_reason = http::StatusCode::from_u16(*status_code)
-                            .unwrap()
-                            .canonical_reason()
-                            .unwrap();
-                        let fn_name = format_ident!("{}", &sanitize(canonical_reason, Case::Snake));
+                        // Codes without a canonical reason go by their number.
+                        let fn_name = match http::StatusCode::from_u16(*status_code)
+                            .ok()
+                            .and_then(|status| status.canonical_reason())
+                        {
+                            Some(reason) => format_ident!("{}", &sanitize(reason, Case::Snake)),
+                            None => format_ident!("status_{}", status_code),
+                        };
 
                         quote! {
                             pub fn #fn_name(self, #value_param) -> Self {
-- 
2.43.0


From 9a6bb54d57f82684ed2315dbb6219e63a9e7577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:33 +0000
Subject: [PATCH 20/29] fix: keep mocked parameters from clashing with the
 wrapper's own functions

---
 progenitor-impl/src/httpmock.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/progenitor-impl/src/httpmock.rs b/progenitor-impl/src/httpmock.rs
index bc6d245..fd177c6 100644
--- a/progenitor-impl/src/httpmock.rs
+++ b/progenitor-impl/src/httpmock.rs
@@ -172,7 +172,11 @@ impl Generator {
                     },
                 };
 
-                let name_ident = format_ident!("{}", name);
+                // The wrappers have functions of their own.
+                let name_ident = match name.as_str() {
+                    "new" | "into_inner" => format_ident!("{}_", name),
+                    _ => format_ident!("{}", name),
+                };
                 let handler = match kind {
                     OperationParameterKind::Path => {
                         let re_fmt = method.path.as_wildcard_param(api_name);
-- 
2.43.0


From 8c86f43ae5babdde4cbad954b8826f30c851c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:33 +0000
Subject: [PATCH 21/29] fix: respect the type of the limit parameter in
 generated CLIs

---
 progenitor-impl/src/cli.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/progenitor-impl/src/cli.rs b/progenitor-impl/src/cli.rs
index fdf34be..4783ec1 100644
--- a/progenitor-impl/src/cli.rs
+++ b/progenitor-impl/src/cli.rs
@@ -294,6 +294,35 @@ impl Generator {
                         }
                     }
                 };
+                // The limit is typically a `NonZeroU32`, but the API
+                // description may say otherwise.
+                let limit_type = method
+                    .params
+                    .iter()
+                    .find(|param| param.api_name == "limit")
+                    .and_then(|param| match &param.typ {
+                        OperationParameterType::Type(type_id) => {
+                            Some(self.type_space.get_type(type_id).unwrap().ident())
+                        }
+                        OperationParameterType::RawBody => None,
+                    })
+                    .filter(|ident| {
+                        ident.to_string() != quote! { ::std::num::NonZeroU32 }.to_string()
+                    });
+                let limit = match limit_type {
+                    None => quote! {
+                        matches
+                            .get_one::<std::num::NonZeroU32>("limit")
+                            .map_or(usize::MAX, |x| x.get() as usize)
+                    },
+                    Some(limit_type) => quote! {
+                        matches
+                            .get_one::<#limit_type>("limit")
+                            .and_then(|x| x.to_string().parse::<usize>().ok())
+                            .unwrap_or(usize::MAX)
+                    },
+                };
+
                 quote! {
                     self.config.list_start::<#success_type>();
 
@@ -303,9 +332,7 @@ impl Generator {
                     // bunch of results we don't display... but it's fine.
                     let mut stream = futures::StreamExt::take(
                         request.stream(),
-                        matches
-                            .get_one::<std::num::NonZeroU32>("limit")
-                            .map_or(usize::MAX, |x| x.get() as usize));
+                        #limit);
 
                     loop {
                         match futures::TryStreamExt::try_next(&mut stream).await {
-- 
2.43.0


From e92f530d7b15632beddb12dc1bd2733e33d5bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:07 +0000
Subject: [PATCH 22/29] fix: CLI for operations with several tags

---
 progenitor-impl/src/cli.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/progenitor-impl/src/cli.rs b/progenitor-impl/src/cli.rs
index 4783ec1..74ead3b 100644
--- a/progenitor-impl/src/cli.rs
+++ b/progenitor-impl/src/cli.rs
@@ -12,7 +12,7 @@ use crate::{
     method::{OperationParameterKind, OperationParameterType, OperationResponseStatus},
     to_schema::ToSchema,
     util::{sanitize, Case},
-    validate_openapi, Generator, Result,
+    validate_openapi, Generator, Result, TagStyle,
 };
 
 struct CliOperation {
@@ -350,11 +350,24 @@ impl Generator {
             }
         };
 
+        // TODO this is copy-pasted--unwisely?
+        let struct_name = method.builder_name();
+        let struct_ident = format_ident!("{}", struct_name);
+
+        // With a trait per tag, an operation with several tags is offered by
+        // several traits so that a call of the method would be ambiguous.
+        let request = match self.settings.tag {
+            TagStyle::Separate if method.tags.len() > 1 => {
+                quote! { builder::#struct_ident::new(&self.client) }
+            }
+            _ => quote! { self.client.#op_name() },
+        };
+
         let execute_fn = quote! {
             pub async fn #fn_name(&self, matches: &::clap::ArgMatches)
                 -> anyhow::Result<()>
             {
-                let mut request = self.client.#op_name();
+                let mut request = #request;
                 #consumer_args
 
                 // Call the override function.
@@ -364,10 +377,6 @@ impl Generator {
             }
         };
 
-        // TODO this is copy-pasted--unwisely?
-        let struct_name = method.builder_name();
-        let struct_ident = format_ident!("{}", struct_name);
-
         let execute_trait = quote! {
             fn #fn_name(
                 &self,
-- 
2.43.0


From 15c8e7c0522133340adb397aae2eb9189ea65687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:20 +0000
Subject: [PATCH 23/29] fix: CLI arguments named help or json-body

---
 progenitor-impl/src/cli.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/progenitor-impl/src/cli.rs b/progenitor-impl/src/cli.rs
index 74ead3b..bcdee91 100644
--- a/progenitor-impl/src/cli.rs
+++ b/progenitor-impl/src/cli.rs
@@ -522,7 +522,14 @@ impl Generator {
             }
         });
 
+        // An argument with this name takes the place of clap's own.
+        let disable_help = args
+            .args
+            .contains_key("help")
+            .then(|| quote! { .disable_help_flag(true) });
+
         let parser = quote! {
+            #disable_help
             #(
                 .arg(#parser_args)
             )*
@@ -594,7 +601,9 @@ impl Generator {
         let scalar = prop_type.has_impl(TypeSpaceImpl::FromStr);
 
         let prop_name = name.to_kebab_case();
-        if scalar && !args.has_arg(&prop_name) {
+        // The arguments we add for all bodies.
+        let reserved = matches!(prop_name.as_str(), "json-body" | "json-body-template");
+        if scalar && !reserved && !args.has_arg(&prop_name) {
             let volitionality = if required {
                 Volitionality::RequiredIfNoBody
             } else {
-- 
2.43.0


From 78ff0c481077969cd31de9845816fafba0b6ea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:55 +0000
Subject: [PATCH 24/29] fix: tell the page token from other parameters of its
 name

A paginated operation may have a path or header parameter named page_token
besides the query parameter. The positional client gave such a parameter the
token's place, the builder assigned the token to it, and the command line
left it out.
---
 progenitor-impl/src/cli.rs    |  2 +-
 progenitor-impl/src/method.rs | 27 +++++++++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/progenitor-impl/src/cli.rs b/progenitor-impl/src/cli.rs
index bcdee91..46dac09 100644
--- a/progenitor-impl/src/cli.rs
+++ b/progenitor-impl/src/cli.rs
@@ -413,7 +413,7 @@ impl Generator {
             };
 
             // For paginated endpoints, we don't generate 'page_token' args.
-            if method.dropshot_paginated.is_some() && param.api_name.as_str() == "page_token" {
+            if method.dropshot_paginated.is_some() && param.is_page_token() {
                 continue;
             }
 
diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index bfc3496..9a885f8 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -102,6 +102,14 @@ pub struct OperationParameter {
     pub kind: OperationParameterKind,
 }
 
+impl OperationParameter {
+    /// Whether this is the query parameter that selects a page; parameters of
+    /// other kinds may have the same name.
+    pub fn is_page_token(&self) -> bool {
+        self.api_name == "page_token" && matches!(self.kind, OperationParameterKind::Query(_))
+    }
+}
+
 #[derive(Eq, PartialEq)]
 pub enum OperationParameterType {
     Type(TypeId),
@@ -704,7 +712,7 @@ impl Generator {
                 .iter()
                 .zip(params)
                 .filter_map(|(param, stream)| {
-                    if param.api_name.as_str() == "page_token" {
+                    if param.is_page_token() {
                         None
                     } else {
                         Some(stream)
@@ -714,7 +722,7 @@ impl Generator {
             // The values passed to get the first page are the inputs to the
             // stream method with "None" for the page_token.
             let first_params = method.params.iter().map(|param| {
-                if param.api_name.as_str() == "page_token" {
+                if param.is_page_token() {
                     // The page_token is None when getting the first page.
                     quote! { None }
                 } else {
@@ -728,7 +736,7 @@ impl Generator {
             // - None for all other query parameters
             // - The initial inputs for non-query parameters
             let step_params = method.params.iter().map(|param| {
-                if param.api_name.as_str() == "page_token" {
+                if param.is_page_token() {
                     quote! { #state_ident.as_deref() }
                 } else if param.api_name.as_str() != "limit"
                     && matches!(param.kind, OperationParameterKind::Query(_))
@@ -1799,6 +1807,13 @@ impl Generator {
                 }
             });
 
+            // Another parameter of the same name may have taken the identifier.
+            let page_token_ident = method
+                .params
+                .iter()
+                .find(|param| param.is_page_token())
+                .map(|param| format_ident!("{}", param.name));
+
             // The item type that we've saved (by picking apart the original
             // function's return type) will be the Item type parameter for the
             // Stream impl we return.
@@ -1853,7 +1868,7 @@ impl Generator {
                                         // template (with query parameters set
                                         // to None), overriding page_token.
                                         Self {
-                                            page_token: Ok(next_page),
+                                            #page_token_ident: Ok(next_page),
                                             ..next.clone()
                                         }
                                         .send()
@@ -2316,14 +2331,14 @@ fn make_stream_doc_comment(method: &OperationMethod) -> String {
     if method
         .params
         .iter()
-        .filter(|param| param.api_name.as_str() != "page_token")
+        .filter(|param| !param.is_page_token())
         .filter(|param| param.description.is_some())
         .count()
         > 0
     {
         buf.push_str("Arguments:\n");
         for param in &method.params {
-            if param.api_name.as_str() == "page_token" {
+            if param.is_page_token() {
                 continue;
             }
 
-- 
2.43.0


From c95ceb26bf233cce07b513293ff15e634e4acddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:13 +0000
Subject: [PATCH 25/29] fix: refuse references that cannot be followed

---
 progenitor-impl/src/util.rs | 50 ++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/progenitor-impl/src/util.rs b/progenitor-impl/src/util.rs
index e4749f0..c7189ea 100644
--- a/progenitor-impl/src/util.rs
+++ b/progenitor-impl/src/util.rs
@@ -1,33 +1,51 @@
 // Copyright 2022 Oxide Computer Company
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use indexmap::IndexMap;
 use openapiv3::{Components, Parameter, ReferenceOr, RequestBody, Response, Schema};
 use unicode_ident::{is_xid_continue, is_xid_start};
 
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) trait ReferenceOrExt<T: ComponentLookup> {
     fn item<'a>(&'a self, components: &'a Option<Components>) -> Result<&'a T>;
 }
 pub(crate) trait ComponentLookup: Sized {
+    /// The section of the document's components that holds these items.
+    const SECTION: &'static str;
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>>;
 }
 
 impl<T: ComponentLookup> ReferenceOrExt<T> for openapiv3::ReferenceOr<T> {
     fn item<'a>(&'a self, components: &'a Option<Components>) -> Result<&'a T> {
-        match self {
-            ReferenceOr::Item(item) => Ok(item),
-            ReferenceOr::Reference { reference } => {
-                let idx = reference.rfind('/').unwrap();
-                let key = &reference[idx + 1..];
-                let parameters = T::get_components(components.as_ref().unwrap());
-                parameters
-                    .get(key)
-                    .unwrap_or_else(|| panic!("key {} is missing", key))
-                    .item(components)
+        let mut current = self;
+        let mut followed = BTreeSet::new();
+
+        loop {
+            let reference = match current {
+                ReferenceOr::Item(item) => return Ok(item),
+                ReferenceOr::Reference { reference } => reference,
+            };
+            if !followed.insert(reference) {
+                return Err(Error::UnexpectedFormat(format!(
+                    "circular reference {}",
+                    reference,
+                )));
             }
+            current = reference
+                .strip_prefix("#/components/")
+                .and_then(|rest| rest.strip_prefix(T::SECTION)?.strip_prefix('/'))
+                .zip(components.as_ref())
+                .and_then(|(key, components)| T::get_components(components).get(key))
+                .ok_or_else(|| {
+                    Error::UnexpectedFormat(format!(
+                        "reference {} is not to one of the document's {}",
+                        reference,
+                        T::SECTION,
+                    ))
+                })?;
         }
     }
 }
@@ -63,24 +81,32 @@ pub(crate) fn parameter_map<'a>(
 }
 
 impl ComponentLookup for Parameter {
+    const SECTION: &'static str = "parameters";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.parameters
     }
 }
 
 impl ComponentLookup for RequestBody {
+    const SECTION: &'static str = "requestBodies";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.request_bodies
     }
 }
 
 impl ComponentLookup for Response {
+    const SECTION: &'static str = "responses";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.responses
     }
 }
 
 impl ComponentLookup for Schema {
+    const SECTION: &'static str = "schemas";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.schemas
     }
-- 
2.43.0


From eb78161e9b1599334928425e731123e6a505d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:38 +0000
Subject: [PATCH 26/29] fix: refuse paths that do not name the described path
 parameters

---
 progenitor-impl/src/method.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 9a885f8..7b5ea8a 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -462,6 +462,19 @@ impl Generator {
         let tmp = crate::template::parse(path)?;
         let names = tmp.names();
 
+        // The path and the path parameters must be about the same names.
+        let described = params
+            .iter()
+            .filter(|param| matches!(param.kind, OperationParameterKind::Path))
+            .map(|param| &param.api_name)
+            .collect::<BTreeSet<_>>();
+        if described != names.iter().collect() {
+            return Err(Error::InvalidPath(format!(
+                "{}: the path parameters of {} are {:?}",
+                path, operation_id, described,
+            )));
+        }
+
         sort_params(&mut params, &names);
 
         // Generated code refers to this function by its name alone.
-- 
2.43.0


From 2d1f0d2bab1373c8cd11cc5a266b21d347422400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:14 +0000
Subject: [PATCH 27/29] fix: refuse unsupported contents and optional path
 parameters with an error

---
 progenitor-impl/src/method.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 7b5ea8a..28c3783 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -356,7 +356,12 @@ impl Generator {
                         style: openapiv3::PathStyle::Simple,
                     } => {
                         // Path parameters MUST be required.
-                        assert!(parameter_data.required);
+                        if !parameter_data.required {
+                            return Err(Error::UnexpectedFormat(format!(
+                                "path parameter {} is not required",
+                                parameter_data.name,
+                            )));
+                        }
 
                         let schema = parameter_data.schema()?.to_schema();
 
@@ -531,7 +536,11 @@ impl Generator {
                     let typ = if let Some(mt) = response.content.iter().find_map(|(x, v)| {
                         (x == "application/json" || x.starts_with("application/json;")).then_some(v)
                     }) {
-                        assert!(mt.encoding.is_empty());
+                        if !mt.encoding.is_empty() {
+                            return Err(Error::UnexpectedFormat(
+                                "media type encoding specified for response".to_string(),
+                            ));
+                        }
 
                         let typ = if let Some(schema) = &mt.schema {
                             let schema = schema.to_schema();
@@ -541,7 +550,9 @@ impl Generator {
                             );
                             self.type_space.add_type_with_name(&schema, Some(name))?
                         } else {
-                            todo!("media type encoding, no schema: {:#?}", mt);
+                            return Err(Error::UnexpectedFormat(
+                                "No schema specified for response".to_string(),
+                            ));
                         };
 
                         OperationResponseKind::Type(typ)
@@ -2170,11 +2181,13 @@ impl Generator {
         let (content_str, media_type) = match (body.content.first(), body.content.len()) {
             (None, _) => return Ok(None),
             (Some(first), 1) => first,
-            (_, n) => todo!(
-                "more media types than expected for {}: {}",
-                operation.operation_id.as_ref().unwrap(),
-                n,
-            ),
+            (_, n) => {
+                return Err(Error::UnexpectedFormat(format!(
+                    "more media types than expected for {}: {}",
+                    operation.operation_id.as_ref().unwrap(),
+                    n,
+                )))
+            }
         };
 
         let schema = media_type.schema.as_ref().ok_or_else(|| {
@@ -2261,7 +2274,9 @@ impl Generator {
                 // application/x-www-form-urlencoded content, but I'm not sure
                 // how to interpret the values.
                 if !media_type.encoding.is_empty() {
-                    todo!("media type encoding not empty: {:#?}", media_type);
+                    return Err(Error::UnexpectedFormat(
+                        "media type encoding specified for request body".to_string(),
+                    ));
                 }
                 let name = sanitize(
                     &format!("{}-body", operation.operation_id.as_ref().unwrap(),),
-- 
2.43.0


From edfb146e44eb3cd87722b5aa41b85d478e368c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:02 +0000
Subject: [PATCH 28/29] fix: CLI for parameters whose names make for the same
 argument

---
 progenitor-impl/src/cli.rs | 53 ++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/progenitor-impl/src/cli.rs b/progenitor-impl/src/cli.rs
index 46dac09..13ca56c 100644
--- a/progenitor-impl/src/cli.rs
+++ b/progenitor-impl/src/cli.rs
@@ -1,6 +1,6 @@
 // Copyright 2024 Oxide Computer Company
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use heck::ToKebabCase;
 use openapiv3::OpenAPI;
@@ -296,10 +296,14 @@ impl Generator {
                 };
                 // The limit is typically a `NonZeroU32`, but the API
                 // description may say otherwise.
-                let limit_type = method
-                    .params
-                    .iter()
-                    .find(|param| param.api_name == "limit")
+                let limit_param = method.params.iter().find(|param| {
+                    param.api_name == "limit"
+                        && matches!(param.kind, OperationParameterKind::Query(_))
+                });
+                let limit_arg = limit_param
+                    .and_then(|param| cli_arg_names(method).remove(param.name.as_str()))
+                    .unwrap_or_else(|| "limit".to_string());
+                let limit_type = limit_param
                     .and_then(|param| match &param.typ {
                         OperationParameterType::Type(type_id) => {
                             Some(self.type_space.get_type(type_id).unwrap().ident())
@@ -312,12 +316,12 @@ impl Generator {
                 let limit = match limit_type {
                     None => quote! {
                         matches
-                            .get_one::<std::num::NonZeroU32>("limit")
+                            .get_one::<std::num::NonZeroU32>(#limit_arg)
                             .map_or(usize::MAX, |x| x.get() as usize)
                     },
                     Some(limit_type) => quote! {
                         matches
-                            .get_one::<#limit_type>("limit")
+                            .get_one::<#limit_type>(#limit_arg)
                             .and_then(|x| x.to_string().parse::<usize>().ok())
                             .unwrap_or(usize::MAX)
                     },
@@ -396,6 +400,7 @@ impl Generator {
 
     fn cli_method_args(&self, method: &crate::method::OperationMethod) -> CliArg {
         let mut args = CliOperationArgs::default();
+        let mut arg_names = cli_arg_names(method);
 
         let first_page_required_set = method
             .dropshot_paginated
@@ -413,9 +418,9 @@ impl Generator {
             };
 
             // For paginated endpoints, we don't generate 'page_token' args.
-            if method.dropshot_paginated.is_some() && param.is_page_token() {
+            let Some(arg_name) = arg_names.remove(param.name.as_str()) else {
                 continue;
-            }
+            };
 
             let first_page_required = first_page_required_set
                 .map_or(false, |required| required.contains(&param.api_name));
@@ -431,11 +436,6 @@ impl Generator {
             };
             let arg_type = self.type_space.get_type(arg_type_id).unwrap();
 
-            let arg_name = param.name.to_kebab_case();
-
-            // There should be no conflicting path or query parameters.
-            assert!(!args.has_arg(&arg_name));
-
             let parser = clap_arg(&arg_name, volitionality, &param.description, &arg_type);
 
             let arg_fn = format_ident!("{}", param.name);
@@ -736,6 +736,31 @@ struct CliArg {
     consumer: TokenStream,
 }
 
+/// The names of the arguments for the parameters that have one. Distinct
+/// parameters may make for the same name.
+fn cli_arg_names(method: &crate::method::OperationMethod) -> BTreeMap<&str, String> {
+    let mut taken = BTreeSet::new();
+
+    method
+        .params
+        .iter()
+        .filter(|param| match &param.kind {
+            OperationParameterKind::Body(_) => false,
+            _ => method.dropshot_paginated.is_none() || !param.is_page_token(),
+        })
+        .map(|param| {
+            let base = param.name.to_kebab_case();
+            let mut arg_name = base.clone();
+            let mut n = 1;
+            while !taken.insert(arg_name.clone()) {
+                n += 1;
+                arg_name = format!("{base}-{n}");
+            }
+            (param.name.as_str(), arg_name)
+        })
+        .collect()
+}
+
 #[derive(Debug, Default, PartialEq, Eq)]
 enum CliBodyArg {
     #[default]
-- 
2.43.0


From b90b62add00e3c5edef19fef81dc8e88ada862da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:06 +0000
Subject: [PATCH 29/29] fix: refuse responses of several kinds with an error

---
 progenitor-impl/src/cli.rs    | 12 ++++++------
 progenitor-impl/src/method.rs | 15 ++++++++++-----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/progenitor-impl/src/cli.rs b/progenitor-impl/src/cli.rs
index 13ca56c..f20a995 100644
--- a/progenitor-impl/src/cli.rs
+++ b/progenitor-impl/src/cli.rs
@@ -54,7 +54,7 @@ impl Generator {
         let methods = raw_methods
             .iter()
             .map(|method| self.cli_method(method))
-            .collect::<Vec<_>>();
+            .collect::<Result<Vec<_>>>()?;
 
         let cli_ops = methods.iter().map(|op| &op.cli_fn);
         let execute_ops = methods.iter().map(|op| &op.execute_fn);
@@ -167,7 +167,7 @@ impl Generator {
         Ok(code)
     }
 
-    fn cli_method(&mut self, method: &crate::method::OperationMethod) -> CliOperation {
+    fn cli_method(&mut self, method: &crate::method::OperationMethod) -> Result<CliOperation> {
         let CliArg {
             parser: parser_args,
             consumer: consumer_args,
@@ -201,9 +201,9 @@ impl Generator {
         let op_name = format_ident!("{}", &method.operation_id);
 
         let (_, success_kind) =
-            self.extract_responses(method, OperationResponseStatus::is_success_or_default);
+            self.extract_responses(method, OperationResponseStatus::is_success_or_default)?;
         let (_, error_kind) =
-            self.extract_responses(method, OperationResponseStatus::is_error_or_default);
+            self.extract_responses(method, OperationResponseStatus::is_error_or_default)?;
 
         let execute_and_output = match method.dropshot_paginated {
             // Normal, one-shot API calls.
@@ -391,11 +391,11 @@ impl Generator {
             }
         };
 
-        CliOperation {
+        Ok(CliOperation {
             cli_fn,
             execute_fn,
             execute_trait,
-        }
+        })
     }
 
     fn cli_method_args(&self, method: &crate::method::OperationMethod) -> CliArg {
diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 28c3783..9043475 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1027,7 +1027,7 @@ impl Generator {
         assert!(body_func.clone().count() <= 1);
 
         let (success_response_items, response_type) =
-            self.extract_responses(method, OperationResponseStatus::is_success_or_default);
+            self.extract_responses(method, OperationResponseStatus::is_success_or_default)?;
 
         let success_response_matches = success_response_items.iter().map(|response| {
             let pat = match &response.status_code {
@@ -1065,7 +1065,7 @@ impl Generator {
 
         // Errors...
         let (error_response_items, error_type) =
-            self.extract_responses(method, OperationResponseStatus::is_error_or_default);
+            self.extract_responses(method, OperationResponseStatus::is_error_or_default)?;
 
         let error_response_matches = error_response_items.iter().map(|response| {
             let pat = match &response.status_code {
@@ -1271,7 +1271,7 @@ impl Generator {
         &self,
         method: &'a OperationMethod,
         filter: fn(&OperationResponseStatus) -> bool,
-    ) -> (Vec<&'a OperationResponse>, OperationResponseKind) {
+    ) -> Result<(Vec<&'a OperationResponse>, OperationResponseKind)> {
         let mut response_items = method
             .responses
             .iter()
@@ -1306,13 +1306,18 @@ impl Generator {
 
         // TODO to deal with multiple response types, we'll need to create an
         // enum type with variants for each of the response types.
-        assert!(response_types.len() <= 1);
+        if response_types.len() > 1 {
+            return Err(Error::UnexpectedFormat(format!(
+                "responses of different types are not supported (operation {})",
+                method.operation_id,
+            )));
+        }
         let response_type = response_types
             .into_iter()
             .next()
             // TODO should this be OperationResponseType::Raw?
             .unwrap_or(OperationResponseKind::None);
-        (response_items, response_type)
+        Ok((response_items, response_type))
     }
 
     // Validates all the necessary conditions for Dropshot pagination. Returns
-- 
2.43.0

