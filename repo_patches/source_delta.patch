From bc05f34134fad2215280c6879eae8018d496bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 1/7] fix: include the request's own parameters in form and
 query authorization

`Authorizer::form`, `Authorizer::query` and the `Builder` methods on top of
them are documented to write the OAuth protocol parameters along with the other
request parameters, but the latter were only fed to the signature.
---
 oauth1-request/src/serializer/auth.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 8b3ffc3..e7b55af 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -297,12 +297,18 @@ impl<'a, SM: SignatureMethod, W: Write> Serializer for Authorizer<'a, SM, W> {
 
     fn serialize_parameter<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, DoublePercentEncode(value));
     }
 
     fn serialize_parameter_encoded<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter_encoded(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, PercentEncode(value));
     }
-- 
2.43.0


From 2bd8d7ed5904f1220b103070f6e3ac85b13a030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 2/7] fix: percent encode the PLAINTEXT signature

`Sign::Signature` is the URL-encoded representation of `oauth_signature`, but
`PlaintextSign` returned the bare signing key, so that the `&` and `%XX`
sequences in the key were decoded to something else by the server.
---
 .../src/signature_method/plaintext.rs           | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 169ff51..805233f 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -5,6 +5,8 @@
 use core::fmt::{self, Debug, Display, Formatter, Write};
 use core::marker::PhantomData;
 
+use crate::util::percent_encode;
+
 use super::{write_signing_key, Sign, SignatureMethod};
 
 /// The `PLAINTEXT` signature method.
@@ -16,7 +18,7 @@ pub struct Plaintext<
 }
 
 cfg_type_param_hack! {
-    /// A `Sign` implementation that just returns the signing key used to construct it.
+    /// A `Sign` implementation that just returns the (URL-encoded) signing key used to construct it.
     #[derive(Clone, Debug)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
@@ -92,11 +94,22 @@ where
 
     fn sign_with(self, client_secret: &str, token_secret: Option<&str>) -> Self::Sign {
         let mut signing_key = W::default();
-        write_signing_key(&mut signing_key, client_secret, token_secret).unwrap();
+        // `Sign::Signature` is the URL-encoded representation of the signature, i.e. of the key.
+        let mut dst = PercentEncodeWrite(&mut signing_key);
+        write_signing_key(&mut dst, client_secret, token_secret).unwrap();
         PlaintextSign { signing_key }
     }
 }
 
+/// Percent encodes what is written to it.
+struct PercentEncodeWrite<'a, W>(&'a mut W);
+
+impl<'a, W: Write> Write for PercentEncodeWrite<'a, W> {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        write!(self.0, "{}", percent_encode(s))
+    }
+}
+
 impl<W> Sign for PlaintextSign<W>
 where
     W: Display + Write,
-- 
2.43.0


From 198cd7ca0995a76c822416aa658260d055e20ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 3/7] fix: delegate Sign::consumer_key of Either to the inner
 type

It was the only method left to the default implementation, which would bypass
an override in the wrapped `Sign` implementation.
---
 oauth1-request/src/signature_method/either.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oauth1-request/src/signature_method/either.rs b/oauth1-request/src/signature_method/either.rs
index 67945b6..437794b 100644
--- a/oauth1-request/src/signature_method/either.rs
+++ b/oauth1-request/src/signature_method/either.rs
@@ -62,6 +62,7 @@ impl<L: Sign, R: Sign> Sign for Either<L, R> {
 
     delegate! {
         fn callback[V: Display](&mut self, value: V);
+        fn consumer_key[V: Display](&mut self, value: V);
         fn nonce[V: Display](&mut self, value: V);
         fn use_nonce(&self) -> bool;
         fn signature_method(&mut self);
-- 
2.43.0


From a5f7495c2cc934a5e57188fc60ee4ea3fa7e3aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 4/7] fix: sort equally named parameters of ParameterList by
 their encoded values

RFC 5849 section 3.4.1.3.2. sorts the parameters after encoding them, whose
order differs from that of the raw values (e.g. `%3A` < `0` but `0` < `:`).
---
 oauth1-request/src/request.rs                | 4 ++--
 oauth1-request/src/request/parameter_list.rs | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/request.rs b/oauth1-request/src/request.rs
index c78477f..1cef001 100644
--- a/oauth1-request/src/request.rs
+++ b/oauth1-request/src/request.rs
@@ -32,8 +32,8 @@ pub trait Request {
 /// behavior of this wrapper is unspecified.
 ///
 /// Note that the required ordering is alphabetical ordering of `AsRef<str>` value of the key and
-/// `Display` representation of the value and does not necessarily match that of the one provided by
-/// the [`Ord`] trait, which may provide, for example, numerical ordering instead.
+/// percent encoded `Display` representation of the value and does not necessarily match that of the
+/// one provided by the [`Ord`] trait, which may provide, for example, numerical ordering instead.
 ///
 /// If you have a slice instead of an iterator, consider using [`ParameterList`], which guarantees
 /// the correct ordering.
diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 425b347..56dfd50 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,6 +8,7 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
+use crate::util::PercentEncode;
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
@@ -239,7 +240,9 @@ where
     let (ref kl, ref vl) = *lhs.borrow();
     let (ref kr, ref vr) = *rhs.borrow();
     return inner(kl.as_ref(), vl, kr.as_ref(), vr);
+    // Parameters are sorted by their encoded values (RFC 5849 section 3.4.1.3.2.).
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
+        let (vl, vr) = (PercentEncode(vl), PercentEncode(vr));
         (kl, fmt_cmp::Cmp(vl)).cmp(&(kr, fmt_cmp::Cmp(vr)))
     }
 }
-- 
2.43.0


From 22d58e0c4f60b63aea0375ffc47fa4e5846c1a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 5/7] fix: support raw identifier fields in derive(Request)

The `r#` prefix was stripped not only from the parameter name but also from the
field access, which made the expanded code refer to the field by a keyword.
---
 oauth1-request-derive/src/field.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oauth1-request-derive/src/field.rs b/oauth1-request-derive/src/field.rs
index 78f6a2c..3f38fcd 100644
--- a/oauth1-request-derive/src/field.rs
+++ b/oauth1-request-derive/src/field.rs
@@ -35,7 +35,7 @@ impl Field {
             attrs, ident, ty, ..
         } = field;
         let meta = FieldMeta::new(attrs, cx);
-        let ident = ident.unwrap().unraw();
+        let ident = ident.unwrap();
         Self { ident, ty, meta }
     }
 
@@ -62,7 +62,7 @@ impl<'a> Name<'a> {
     // `proc_macro` crate use `to_string` under the hood as of this writing.
     pub fn string_value(&self) -> String {
         match *self {
-            Name::Original(ident) => ident.to_string(),
+            Name::Original(ident) => ident.unraw().to_string(),
             Name::Renamed(lit) => lit.value(),
         }
     }
@@ -73,7 +73,7 @@ impl<'a> ToTokens for Name<'a> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         match *self {
             Name::Original(ident) => {
-                let mut lit = Literal::string(&ident.to_string());
+                let mut lit = Literal::string(&self.string_value());
                 lit.set_span(ident.span());
                 tokens.append(lit);
             }
-- 
2.43.0


From 24fde35abb15b21edeb10324c460196fa37c643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:36 +0000
Subject: [PATCH 6/7] fix: order empty values of ParameterList before any other
 value

---
 oauth1-request/src/request/parameter_list.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 56dfd50..19d8587 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -243,7 +243,11 @@ where
     // Parameters are sorted by their encoded values (RFC 5849 section 3.4.1.3.2.).
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
         let (vl, vr) = (PercentEncode(vl), PercentEncode(vr));
-        (kl, fmt_cmp::Cmp(vl)).cmp(&(kr, fmt_cmp::Cmp(vr)))
+        // `fmt_cmp::cmp` doesn't look at its second argument if the first one writes nothing, as is the
+        // case with an empty value, so an equality needs to be confirmed in the reverse direction.
+        kl.cmp(kr)
+            .then_with(|| fmt_cmp::cmp(&vl, &vr))
+            .then_with(|| fmt_cmp::cmp(&vr, &vl).reverse())
     }
 }
 
-- 
2.43.0


From 30b923e2b629c1946bfbeeaa0e4a7a49b435bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:35 +0000
Subject: [PATCH 7/7] fix: compare records whose value displays as nothing by
 the values

---
 oauth1-request/src/serializer/recorder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/serializer/recorder.rs b/oauth1-request/src/serializer/recorder.rs
index c4a958c..330600f 100644
--- a/oauth1-request/src/serializer/recorder.rs
+++ b/oauth1-request/src/serializer/recorder.rs
@@ -184,7 +184,13 @@ where
             | (
                 &Record::ParameterEncoded(ref k1, ref v1),
                 &Record::ParameterEncoded(ref k2, ref v2),
-            ) => k1.as_ref() == k2.as_ref() && fmt_cmp::cmp(v1, v2) == Ordering::Equal,
+            ) => {
+                // `fmt_cmp::cmp` doesn't look at its second argument if the first one writes nothing,
+                // so an equality needs to be confirmed in the reverse direction.
+                k1.as_ref() == k2.as_ref()
+                    && fmt_cmp::cmp(v1, v2) == Ordering::Equal
+                    && fmt_cmp::cmp(v2, v1) == Ordering::Equal
+            }
             (&Record::Callback, &Record::Callback)
             | (&Record::ConsumerKey, &Record::ConsumerKey)
             | (&Record::Nonce, &Record::Nonce)
-- 
2.43.0

