From 55bda8ff1d3654508911b7d3f78c895388983b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 01/80] fix: compute the size of length octets for contents of
 16 MiB and more

---
 src/to_ber.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index fb6482b..52f0317 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -174,8 +174,8 @@ pub fn ber_length_length(length: Length) -> Result<usize, InnerError> {
             0..=0x7f => Ok(1),
             0x80..=0xff => Ok(2),
             0x100..=0xffff => Ok(3),
-            0x1_0000..=0xffff_ffff => Ok(4),
-            _ => Err(InnerError::InvalidLength),
+            // 1 byte for the length of length, then the significant bytes of the length
+            _ => Ok(1 + ((usize::BITS - l.leading_zeros()) as usize + 7) / 8),
         },
     }
 }
-- 
2.43.0


From ee9220bd2f39b1248695ed84a1fbe315412fc398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 02/80] fix: to_der_len returns the length including the
 header, as documented

---
 src/to_der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/to_der.rs b/src/to_der.rs
index 1000391..e323876 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -145,7 +145,7 @@ pub trait ToDer {
     // Since we are using DER, length cannot be Indefinite
     #[deprecated(since = "0.8.0", note = "Use `der_total_len()` instead.")]
     fn to_der_len(&self) -> crate::Result<usize> {
-        match self.der_content_len() {
+        match self.der_total_len() {
             Length::Definite(sz) => Ok(sz),
             Length::Indefinite => Err(crate::Error::IndefiniteLengthUnexpected),
         }
-- 
2.43.0


From f4bcf95e0e541727feefd3be5132653fe7f109eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 03/80] fix: reject tag numbers that do not fit in 32 bits
 instead of dropping high bits

---
 src/header.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index 1be4e9a..50eddfb 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -522,6 +522,10 @@ pub(crate) fn parse_header(
                 return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
             }
 
+            // tag number must fit in u32
+            if c > u32::MAX >> 7 {
+                return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
+            }
             c = (c << 7) | (u32::from(b) & 0x7f);
             let done = b & 0x80 == 0;
             tag_byte_count += 1;
-- 
2.43.0


From 15e1af3cada5c964ef3df5eda20073b35cb1f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 04/80] fix: equal headers hash alike

---
 src/header.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 50eddfb..96c951d 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -474,8 +474,7 @@ impl Hash for Header<'_> {
         self.class.hash(state);
         self.constructed.hash(state);
         self.tag.hash(state);
-        self.length.hash(state);
-        self.raw_tag.hash(state);
+        // `length` and `raw_tag` are not hashed: equal headers can have different values for them
     }
 }
 
-- 
2.43.0


From 03fe0c75f80fed5fcea11a174de3123d512a3de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 05/80] fix: only two zero octets terminate an
 indefinite-length element

---
 src/ber/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index a12a84e..2665dd7 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -93,7 +93,13 @@ fn ber_skip_object_content<'a>(
     }
     match hdr.length {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag == Tag::EndOfContent {
+            // End-of-contents is encoded as two zero octets (X.690: 8.1.5)
+            if l == 0
+                && hdr.tag == Tag::EndOfContent
+                && hdr.is_universal()
+                && hdr.is_primitive()
+                && hdr.raw_header().map_or(true, |raw| raw.len() == 2)
+            {
                 return Ok((i, true));
             }
             let (i, _) = take(l)(i)?;
-- 
2.43.0


From 9d51a79d5fd4c7fd03d3dc60cce8273d73bd6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:04 +0000
Subject: [PATCH 06/80] fix: check the class of an element, not only its tag
 number, when decoding

---
 derive/src/alias.rs                    |  2 ++
 derive/src/choice.rs                   | 25 ++++++++++++++++++++++++-
 derive/src/container.rs                |  3 +++
 derive/src/enumerated.rs               |  2 ++
 src/asn1_types/any.rs                  |  4 ++--
 src/asn1_types/iterator.rs             |  4 ++--
 src/asn1_types/oid.rs                  |  4 ++++
 src/asn1_types/optional.rs             | 16 ++++++++++------
 src/asn1_types/sequence.rs             |  1 +
 src/asn1_types/sequence/sequence_of.rs |  2 ++
 src/asn1_types/sequence/vec.rs         |  2 ++
 src/asn1_types/set.rs                  |  1 +
 src/asn1_types/set/btreeset.rs         |  5 +++++
 src/asn1_types/set/hashset.rs          |  5 +++++
 src/asn1_types/set/set_of.rs           |  2 ++
 src/asn1_types/tagged/helpers.rs       |  3 ++-
 src/asn1_types/tagged/implicit.rs      | 11 ++++++++++-
 src/ber/appendable.rs                  |  2 +-
 src/from_ber.rs                        |  6 +++---
 src/from_der.rs                        |  6 +++---
 src/tag.rs                             | 13 ++++++++++++-
 src/to_ber/constructed_indefinite.rs   |  6 +++++-
 22 files changed, 103 insertions(+), 22 deletions(-)

diff --git a/derive/src/alias.rs b/derive/src/alias.rs
index 1bdd088..d2112e8 100644
--- a/derive/src/alias.rs
+++ b/derive/src/alias.rs
@@ -118,6 +118,8 @@ impl<'s> DeriveAlias<'s> {
             gen impl asn1_rs::DynTagged for @Self {
                 fn accept_tag(tag: asn1_rs::Tag) -> bool { <#ty as asn1_rs::DynTagged>::accept_tag(tag) }
 
+                fn accept_header(header: &asn1_rs::Header) -> bool { <#ty as asn1_rs::DynTagged>::accept_header(header) }
+
                 fn class(&self) -> asn1_rs::Class { self.0.class() }
 
                 fn constructed(&self) -> bool { self.0.constructed() }
diff --git a/derive/src/choice.rs b/derive/src/choice.rs
index b4d839c..93b4878 100644
--- a/derive/src/choice.rs
+++ b/derive/src/choice.rs
@@ -112,6 +112,27 @@ impl<'s> DeriveChoice<'s> {
                 }
             }
         };
+        let accept_headers = {
+            match self.options.tag_kind {
+                Some(_) => quote! {
+                    header.is_contextspecific() && Self::accept_tag(header.tag())
+                },
+                None => {
+                    let accept_headers_if_else = self.variants.iter().map(|v| {
+                        let ty = &v.vi.bindings()[0].ast().ty;
+                        quote! {
+                            if <#ty>::accept_header(header) {
+                                true
+                            } else
+                        }
+                    });
+
+                    quote! {
+                        #(#accept_headers_if_else)* { false }
+                    }
+                }
+            }
+        };
         let class = match self.options.tag_kind {
             Some(_) => quote! { asn1_rs::Class::ContextSpecific },
             None => {
@@ -169,6 +190,8 @@ impl<'s> DeriveChoice<'s> {
             gen impl asn1_rs::DynTagged for @Self {
                 fn accept_tag(tag: asn1_rs::Tag) -> bool { #accept_tags }
 
+                fn accept_header(header: &asn1_rs::Header) -> bool { #accept_headers }
+
                 fn class(&self) -> asn1_rs::Class { #class }
 
                 fn constructed(&self) -> bool { #constructed }
@@ -304,7 +327,7 @@ impl<'s> DeriveChoice<'s> {
             let construct = v.vi.construct(|_, _i| bi);
             let ty = &bi.ast().ty;
             quote! {
-                if <#ty>::accept_tag(header.tag()) {
+                if <#ty>::accept_header(header) {
                     let (rem, #bi) = asn1_rs::#parser::#from_ber_content(header, rem)#map_err?;
                     Ok((rem, #construct))
                 } else
diff --git a/derive/src/container.rs b/derive/src/container.rs
index e78c045..27f5a6d 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -184,6 +184,7 @@ impl Container {
         } else {
             quote! {
                 use asn1_rs::nom::*;
+                any.class().assert_eq(Self::CLASS)?;
                 any.tag().assert_eq(Self::TAG)?;
 
                 // no need to parse sequence, we already have content
@@ -415,6 +416,7 @@ impl Container {
             }
             let ty = &self.fields[0].type_;
             quote! {
+                any.class().assert_eq(Self::CLASS)?;
                 any.tag().assert_eq(Self::TAG)?;
                 <#ty>::check_constraints(any)
             }
@@ -431,6 +433,7 @@ impl Container {
                 })
                 .collect();
             quote! {
+                any.class().assert_eq(Self::CLASS)?;
                 any.tag().assert_eq(Self::TAG)?;
                 let rem = any.data.as_bytes2();
                 #(#check_fields)*
diff --git a/derive/src/enumerated.rs b/derive/src/enumerated.rs
index 7194846..ff5a118 100644
--- a/derive/src/enumerated.rs
+++ b/derive/src/enumerated.rs
@@ -91,6 +91,8 @@ impl<'s> DeriveEnumerated<'s> {
             gen impl asn1_rs::DynTagged for @Self {
                 fn accept_tag(tag: asn1_rs::Tag) -> bool { tag == asn1_rs::Tag::Enumerated }
 
+                fn accept_header(header: &asn1_rs::Header) -> bool { header.is_universal() && header.tag() == asn1_rs::Tag::Enumerated }
+
                 fn class(&self) -> asn1_rs::Class { asn1_rs::Class::Universal }
 
                 fn constructed(&self) -> bool { false }
diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 8c4285f..5a48c4c 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -199,7 +199,7 @@ macro_rules! impl_tryfrom_any {
             fn try_from(any: $crate::Any<$lft>) -> Result<Self> {
                 use $crate::BerParser;
 
-                if !<Self as $crate::DynTagged>::accept_tag(any.tag()) {
+                if !<Self as $crate::DynTagged>::accept_header(&any.header) {
                     Err($crate::Error::unexpected_tag(None, any.tag()).into())
                 } else {
                     let (_, obj) = Self::from_ber_content(&any.header, any.data)
@@ -215,7 +215,7 @@ macro_rules! impl_tryfrom_any {
             fn try_from(any: &'b $crate::Any<$lft>) -> Result<Self> {
                 use $crate::BerParser;
 
-                if !<Self as $crate::DynTagged>::accept_tag(any.tag()) {
+                if !<Self as $crate::DynTagged>::accept_header(&any.header) {
                     Err($crate::Error::unexpected_tag(None, any.tag()).into())
                 } else {
                     let (_, obj) = Self::from_ber_content(&any.header, any.data.clone())
diff --git a/src/asn1_types/iterator.rs b/src/asn1_types/iterator.rs
index fe9ae98..713d92e 100644
--- a/src/asn1_types/iterator.rs
+++ b/src/asn1_types/iterator.rs
@@ -94,7 +94,7 @@ impl<'a> AnyIterator<'a, BerMode> {
     {
         let b = <Result<B, Err<T::Error, T::Error>>>::from_iter(self.map(|r| match r {
             Ok((_, obj)) => {
-                if !T::accept_tag(obj.tag()) {
+                if !T::accept_header(&obj.header) {
                     Err(Err::Error(
                         BerError::unexpected_tag(obj.data.clone(), None, obj.tag()).into(),
                     ))
@@ -158,7 +158,7 @@ impl<'a> AnyIterator<'a, DerMode> {
     {
         let b = <Result<B, Err<T::Error, T::Error>>>::from_iter(self.map(|r| match r {
             Ok((_, obj)) => {
-                if !T::accept_tag(obj.tag()) {
+                if !T::accept_header(&obj.header) {
                     Err(Err::Error(
                         BerError::unexpected_tag(obj.data.clone(), None, obj.tag()).into(),
                     ))
diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 8f83713..d1893c1 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -97,6 +97,10 @@ impl DynTagged for Oid<'_> {
     fn accept_tag(tag: Tag) -> bool {
         tag == Tag::Oid || tag == Tag::RelativeOid
     }
+
+    fn accept_header(header: &Header) -> bool {
+        header.is_universal() && Self::accept_tag(header.tag)
+    }
 }
 
 #[cfg(feature = "std")]
diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 49cb61a..9763296 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -21,7 +21,7 @@ where
             return Ok((bytes, None));
         }
         if let Ok((_, header)) = Header::from_ber(bytes) {
-            if !T::accept_tag(header.tag) {
+            if !T::accept_header(&header) {
                 // not the expected tag, early return
                 return Ok((bytes, None));
             }
@@ -51,7 +51,7 @@ where
 
             let (rem, header) = Header::parse_ber(input.clone()).map_err(Err::convert)?;
             // NOTE: we add this to default trait impl
-            if !T::accept_tag(header.tag) {
+            if !T::accept_header(&header) {
                 return Ok((input, None));
             }
             // NOTE: end
@@ -67,7 +67,7 @@ where
         input: Input<'a>,
     ) -> IResult<Input<'a>, Self, Self::Error> {
         // do not map empty input to None: in this method, we have parsed a header
-        if !T::accept_tag(header.tag) {
+        if !T::accept_header(header) {
             return Ok((input, None));
         }
         let (rem, data) =
@@ -95,7 +95,7 @@ where
 
             let (rem, header) = Header::parse_der(input.clone()).map_err(Err::convert)?;
             // NOTE: we add this to default trait impl
-            if !T::accept_tag(header.tag) {
+            if !T::accept_header(&header) {
                 return Ok((input, None));
             }
             // NOTE: end
@@ -111,7 +111,7 @@ where
         input: Input<'a>,
     ) -> IResult<Input<'a>, Self, Self::Error> {
         // do not map empty input to None: in this method, we have parsed a header
-        if !T::accept_tag(header.tag) {
+        if !T::accept_header(header) {
             return Ok((input, None));
         }
         let (rem, data) =
@@ -131,7 +131,7 @@ where
             return Ok((bytes, None));
         }
         if let Ok((_, header)) = Header::from_der(bytes) {
-            if !T::accept_tag(header.tag) {
+            if !T::accept_header(&header) {
                 // not the expected tag, early return
                 return Ok((bytes, None));
             }
@@ -167,6 +167,10 @@ where
     fn accept_tag(tag: Tag) -> bool {
         T::accept_tag(tag)
     }
+
+    fn accept_header(header: &Header) -> bool {
+        T::accept_header(header)
+    }
 }
 
 #[cfg(feature = "std")]
diff --git a/src/asn1_types/sequence.rs b/src/asn1_types/sequence.rs
index c18d522..d767347 100644
--- a/src/asn1_types/sequence.rs
+++ b/src/asn1_types/sequence.rs
@@ -392,6 +392,7 @@ impl<'a, 'b> TryFrom<&'b Any<'a>> for Sequence<'a> {
     type Error = Error;
 
     fn try_from(any: &'b Any<'a>) -> Result<Sequence<'a>> {
+        any.class().assert_eq(Self::CLASS)?;
         any.tag().assert_eq(Self::TAG)?;
         any.header.assert_constructed()?;
         Ok(Sequence {
diff --git a/src/asn1_types/sequence/sequence_of.rs b/src/asn1_types/sequence/sequence_of.rs
index 6814286..922a042 100644
--- a/src/asn1_types/sequence/sequence_of.rs
+++ b/src/asn1_types/sequence/sequence_of.rs
@@ -104,6 +104,7 @@ where
     type Error = Error;
 
     fn try_from(any: Any<'a>) -> Result<Self> {
+        any.class().assert_eq(Self::CLASS)?;
         any.tag().assert_eq(Self::TAG)?;
         if !any.header.is_constructed() {
             return Err(Error::ConstructExpected);
@@ -155,6 +156,7 @@ where
     T: CheckDerConstraints,
 {
     fn check_constraints(any: &Any) -> Result<()> {
+        any.class().assert_eq(Self::CLASS)?;
         any.tag().assert_eq(Self::TAG)?;
         any.header.assert_constructed()?;
         for item in SequenceIterator::<Any, DerMode>::new(any.data.as_bytes2()) {
diff --git a/src/asn1_types/sequence/vec.rs b/src/asn1_types/sequence/vec.rs
index 1a67883..a626bb7 100644
--- a/src/asn1_types/sequence/vec.rs
+++ b/src/asn1_types/sequence/vec.rs
@@ -53,6 +53,7 @@ where
     type Error = Error;
 
     fn try_from(any: Any<'a>) -> Result<Self> {
+        any.class().assert_eq(Self::CLASS)?;
         any.tag().assert_eq(Self::TAG)?;
         any.header.assert_constructed()?;
 
@@ -119,6 +120,7 @@ where
     T: CheckDerConstraints,
 {
     fn check_constraints(any: &Any) -> Result<()> {
+        any.class().assert_eq(Self::CLASS)?;
         any.tag().assert_eq(Self::TAG)?;
         any.header.assert_constructed()?;
         for item in SequenceIterator::<Any, DerMode>::new(any.data.as_bytes2()) {
diff --git a/src/asn1_types/set.rs b/src/asn1_types/set.rs
index 47d445e..2350d55 100644
--- a/src/asn1_types/set.rs
+++ b/src/asn1_types/set.rs
@@ -375,6 +375,7 @@ impl<'a, 'b> TryFrom<&'b Any<'a>> for Set<'a> {
     type Error = Error;
 
     fn try_from(any: &'b Any<'a>) -> Result<Set<'a>> {
+        any.class().assert_eq(Self::CLASS)?;
         any.tag().assert_eq(Self::TAG)?;
         any.header.assert_constructed()?;
         Ok(Set {
diff --git a/src/asn1_types/set/btreeset.rs b/src/asn1_types/set/btreeset.rs
index abf5084..0e51b8d 100644
--- a/src/asn1_types/set/btreeset.rs
+++ b/src/asn1_types/set/btreeset.rs
@@ -21,6 +21,7 @@ where
             core::any::type_name::<Self>(),
             "BTreeSet::from_der",
             |any| {
+                any.class().assert_eq(Self::CLASS)?;
                 any.tag().assert_eq(Self::TAG)?;
                 any.header.assert_constructed()?;
                 let items = SetIterator::<T, BerMode>::new(any.data.as_bytes2())
@@ -77,6 +78,7 @@ where
     T: CheckDerConstraints,
 {
     fn check_constraints(any: &Any) -> Result<()> {
+        any.class().assert_eq(Self::CLASS)?;
         any.tag().assert_eq(Self::TAG)?;
         any.header.assert_constructed()?;
         for item in SetIterator::<Any, DerMode>::new(any.data.as_bytes2()) {
@@ -101,6 +103,9 @@ where
             |bytes| {
                 let (rem, any) = trace(core::any::type_name::<Self>(), Any::from_der, bytes)
                     .map_err(Err::convert)?;
+                any.class()
+                    .assert_eq(Self::CLASS)
+                    .map_err(|e| Err::Error(e.into()))?;
                 any.tag()
                     .assert_eq(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
diff --git a/src/asn1_types/set/hashset.rs b/src/asn1_types/set/hashset.rs
index 5a315da..f5692ef 100644
--- a/src/asn1_types/set/hashset.rs
+++ b/src/asn1_types/set/hashset.rs
@@ -23,6 +23,7 @@ where
     type Error = Error;
 
     fn try_from(any: Any<'a>) -> Result<Self> {
+        any.class().assert_eq(Self::CLASS)?;
         any.tag().assert_eq(Self::TAG)?;
         any.header.assert_constructed()?;
         let items = SetIterator::<T, BerMode>::new(any.data.as_bytes2())
@@ -78,6 +79,7 @@ where
     T: CheckDerConstraints,
 {
     fn check_constraints(any: &Any) -> Result<()> {
+        any.class().assert_eq(Self::CLASS)?;
         any.tag().assert_eq(Self::TAG)?;
         any.header.assert_constructed()?;
         for item in SetIterator::<Any, DerMode>::new(any.data.as_bytes2()) {
@@ -103,6 +105,9 @@ where
             |bytes| {
                 let (rem, any) = trace(core::any::type_name::<Self>(), Any::from_der, bytes)
                     .map_err(Err::convert)?;
+                any.class()
+                    .assert_eq(Self::CLASS)
+                    .map_err(|e| Err::Error(e.into()))?;
                 any.tag()
                     .assert_eq(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 396fc87..379fb03 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -104,6 +104,7 @@ where
     type Error = Error;
 
     fn try_from(any: Any<'a>) -> Result<Self> {
+        any.class().assert_eq(Self::CLASS)?;
         any.tag().assert_eq(Self::TAG)?;
         if !any.header.is_constructed() {
             return Err(Error::ConstructExpected);
@@ -161,6 +162,7 @@ where
     T: CheckDerConstraints,
 {
     fn check_constraints(any: &Any) -> Result<()> {
+        any.class().assert_eq(Self::CLASS)?;
         any.tag().assert_eq(Self::TAG)?;
         any.header.assert_constructed()?;
         for item in SetIterator::<Any, DerMode>::new(any.data.as_bytes2()) {
diff --git a/src/asn1_types/tagged/helpers.rs b/src/asn1_types/tagged/helpers.rs
index 7f7702d..31ac496 100644
--- a/src/asn1_types/tagged/helpers.rs
+++ b/src/asn1_types/tagged/helpers.rs
@@ -73,9 +73,10 @@ where
         any.header
             .assert_tag(tag)
             .map_err(|e| Err::convert(e.into()))?;
-        // build a fake header with the expected tag
+        // build a fake header with the expected class and tag
         let Any { header, data } = any;
         let header = Header {
+            class: T::CLASS,
             tag: T::TAG,
             ..header.clone()
         };
diff --git a/src/asn1_types/tagged/implicit.rs b/src/asn1_types/tagged/implicit.rs
index aab89e9..68edc0c 100644
--- a/src/asn1_types/tagged/implicit.rs
+++ b/src/asn1_types/tagged/implicit.rs
@@ -23,6 +23,10 @@ where
     fn accept_tag(tag: Tag) -> bool {
         tag.0 == TAG
     }
+
+    fn accept_header(header: &Header) -> bool {
+        header.class as u8 == CLASS && header.tag.0 == TAG
+    }
 }
 
 impl<'a, T, E, const CLASS: u8, const TAG: u32> TryFrom<Any<'a>>
@@ -58,6 +62,7 @@ where
         }
         let any = Any {
             header: Header {
+                class: T::CLASS,
                 tag: T::TAG,
                 ..any.header.clone()
             },
@@ -152,6 +157,7 @@ where
         }
         let any = Any {
             header: Header {
+                class: T::CLASS,
                 tag: T::TAG,
                 ..any.header.clone()
             },
@@ -172,7 +178,7 @@ where
 {
     fn check_constraints(any: &Any) -> Result<()> {
         any.header.length.assert_definite()?;
-        let header = any.header.clone().with_tag(T::TAG);
+        let header = any.header.clone().with_class(T::CLASS).with_tag(T::TAG);
         let inner = Any::new(header, any.data.clone());
         T::check_constraints(&inner)?;
         Ok(())
@@ -255,6 +261,7 @@ where
         let Any { header, data } = any;
         let any = Any {
             header: Header {
+                class: T::CLASS,
                 tag: T::TAG,
                 ..header.clone()
             },
@@ -300,6 +307,7 @@ where
         let Any { header, data } = any;
         let any = Any {
             header: Header {
+                class: T::CLASS,
                 tag: T::TAG,
                 ..header.clone()
             },
@@ -330,6 +338,7 @@ where
         any.header.length.assert_definite()?;
         let any = Any {
             header: Header {
+                class: T::CLASS,
                 tag: T::TAG,
                 ..any.header.clone()
             },
diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 84e1a1e..455932f 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -49,7 +49,7 @@ where
                 header: h2,
                 data: data2,
             } = obj;
-            if !<T as DynTagged>::accept_tag(h2.tag()) {
+            if !<T as DynTagged>::accept_header(&h2) {
                 return Err(BerError::nom_err_input(&data2, InnerError::InvalidTag));
             }
             // Empty segments are sometimes allowed (for ex: OctetStrings). Just skip recursion if empty
diff --git a/src/from_ber.rs b/src/from_ber.rs
index 3cadefd..0d8b2e5 100644
--- a/src/from_ber.rs
+++ b/src/from_ber.rs
@@ -98,7 +98,7 @@ where
     fn parse_ber(input: Input<'i>) -> IResult<Input<'i>, Self, Self::Error> {
         trace_input("BerParser::parse_ber", |input| {
             let (rem, header) = Header::parse_ber(input.clone()).map_err(Err::convert)?;
-            if !Self::accept_tag(header.tag) {
+            if !Self::accept_header(&header) {
                 return Err(Err::Error(
                     // FIXME: expected Tag is `None`, so the error will not be helpful
                     BerError::unexpected_tag(input, None, header.tag).into(),
@@ -131,7 +131,7 @@ where
             return Ok((input, None));
         }
         let (rem, header) = Header::parse_ber(input.clone()).map_err(Err::convert)?;
-        if !Self::accept_tag(header.tag) {
+        if !Self::accept_header(&header) {
             return Ok((input, None));
         }
         let (rem, data) =
@@ -146,7 +146,7 @@ where
     ) -> IResult<Input<'i>, (Header<'i>, Input<'i>), Self::Error> {
         trace_input("BerParser::parse_ber_as_input", |input| {
             let (rem, header) = Header::parse_ber(input.clone()).map_err(Err::convert)?;
-            if !Self::accept_tag(header.tag) {
+            if !Self::accept_header(&header) {
                 return Err(Err::Error(
                     // FIXME: expected Tag is `None`, so the error will not be helpful
                     BerError::unexpected_tag(input, None, header.tag).into(),
diff --git a/src/from_der.rs b/src/from_der.rs
index c98c2ca..642ac68 100644
--- a/src/from_der.rs
+++ b/src/from_der.rs
@@ -145,7 +145,7 @@ where
                 .length
                 .definite_inner()
                 .map_err(BerError::convert_into(input.clone()))?;
-            if !Self::accept_tag(header.tag) {
+            if !Self::accept_header(&header) {
                 return Err(Err::Error(
                     // TODO: expected Tag is `None`, so the error will not be helpful
                     BerError::unexpected_tag(input, None, header.tag).into(),
@@ -183,7 +183,7 @@ where
             return Ok((input, None));
         }
         let (rem, header) = Header::parse_der(input.clone()).map_err(Err::convert)?;
-        if !Self::accept_tag(header.tag) {
+        if !Self::accept_header(&header) {
             return Ok((input, None));
         }
         // get length, rejecting indefinite (invalid for DER)
@@ -202,7 +202,7 @@ where
     ) -> IResult<Input<'i>, (Header<'i>, Input<'i>), Self::Error> {
         trace_input("DerParser::parse_der_as_input", |input| {
             let (rem, header) = Header::parse_der(input.clone()).map_err(Err::convert)?;
-            if !Self::accept_tag(header.tag) {
+            if !Self::accept_header(&header) {
                 return Err(Err::Error(
                     // FIXME: expected Tag is `None`, so the error will not be helpful
                     BerError::unexpected_tag(input, None, header.tag).into(),
diff --git a/src/tag.rs b/src/tag.rs
index c2d72ed..f5ab256 100644
--- a/src/tag.rs
+++ b/src/tag.rs
@@ -1,4 +1,4 @@
-use crate::{Class, Error, InnerError, Result};
+use crate::{Class, Error, Header, InnerError, Result};
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
 use rusticata_macros::newtype_enum;
@@ -126,6 +126,13 @@ pub trait DynTagged {
     /// - type `Any` (accepts all tag numbers)
     /// - ASN.1 type `CHOICE` (accept multiple tags)
     fn accept_tag(tag: Tag) -> bool;
+
+    /// Return true if the header (class and tag number) is acceptable for this object
+    ///
+    /// By default, only the tag number is checked (see [`accept_tag`](DynTagged::accept_tag)).
+    fn accept_header(header: &Header) -> bool {
+        Self::accept_tag(header.tag())
+    }
 }
 
 impl<T> DynTagged for T
@@ -147,4 +154,8 @@ where
     fn accept_tag(tag: Tag) -> bool {
         tag == T::TAG
     }
+
+    fn accept_header(header: &Header) -> bool {
+        header.class() == T::CLASS && header.tag() == T::TAG
+    }
 }
diff --git a/src/to_ber/constructed_indefinite.rs b/src/to_ber/constructed_indefinite.rs
index 14aeb52..220eb40 100644
--- a/src/to_ber/constructed_indefinite.rs
+++ b/src/to_ber/constructed_indefinite.rs
@@ -1,7 +1,7 @@
 use std::io;
 use std::io::Write;
 
-use crate::{Class, DynTagged, Length, SerializeError, SerializeResult, Tag};
+use crate::{Class, DynTagged, Header, Length, SerializeError, SerializeResult, Tag};
 
 use super::{BerEncoder, ToBer};
 
@@ -53,6 +53,10 @@ impl<T> DynTagged for IndefiniteVec<T> {
     fn accept_tag(tag: Tag) -> bool {
         tag == Tag::Sequence
     }
+
+    fn accept_header(header: &Header) -> bool {
+        header.is_universal() && Self::accept_tag(header.tag())
+    }
 }
 
 impl<T> ToBer for IndefiniteVec<T>
-- 
2.43.0


From 7f182ad681d5442b1ab899eb4724b195ece7c9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 07/80] fix: accept constructed string encodings without any
 segment

---
 src/ber/appendable.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 455932f..ebbbfe7 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -28,10 +28,6 @@ where
         return Err(BerError::nom_err_input(&input, InnerError::BerMaxDepth));
     }
 
-    if input.is_empty() {
-        return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
-    }
-
     if header.constructed() {
         let (rem, data) = if header.length.is_definite() {
             ber_get_content(header, input)?
-- 
2.43.0


From e2c272cfa0cb04d9be1c768acbcfef1c0d5e2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 08/80] fix: BmpString and UniversalString decode primitive
 contents as is, and constructed contents by segments

---
 src/asn1_types/strings/bmpstring.rs       | 2 +-
 src/asn1_types/strings/universalstring.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index c53ee4f..7b7b76f 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for BmpString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if !header.is_constructed() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index 3da718c..ce40d2c 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for UniversalString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if !header.is_constructed() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
-- 
2.43.0


From f97c7dd4bcfcb478d190122c317ff8d03db4c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 09/80] fix: reject BmpString contents with an odd number of
 bytes

---
 src/asn1_types/strings/bmpstring.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index 7b7b76f..6d2ed26 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -70,13 +70,20 @@ impl<'i> BerParser<'i> for BmpString<'i> {
             (rem, s)
         };
 
+        // UTF-16: contents must be a multiple of 2 bytes
+        if data.len() % 2 != 0 {
+            return Err(BerError::nom_err_input(
+                &rem,
+                InnerError::StringInvalidCharset,
+            ));
+        }
+
         // read slice as big-endian UTF-16 string
         let v = data
             .as_ref()
             .chunks(2)
             .map(|s| match s {
                 [a, b] => ((*a as u16) << 8) | (*b as u16),
-                [a] => *a as u16,
                 _ => unreachable!(),
             })
             .collect::<Vec<_>>();
-- 
2.43.0


From f531547c5d2c695191d5c2addf583e5f978028b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 10/80] fix: UniversalString length counts characters, not
 UTF-8 bytes

---
 src/asn1_types/strings/universalstring.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index ce40d2c..88d7280 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -137,7 +137,7 @@ const _: () = {
 
         fn ber_content_len(&self) -> Length {
             // UCS-4: 4 bytes per character
-            let sz = self.data.len() * 4;
+            let sz = self.data.chars().count() * 4;
             Length::Definite(sz)
         }
 
@@ -145,7 +145,7 @@ const _: () = {
             self.data
                 .chars()
                 .try_for_each(|c| target.write_all(&(c as u32).to_be_bytes()[..]))?;
-            Ok(self.data.len() * 4)
+            Ok(self.data.chars().count() * 4)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-- 
2.43.0


From b6b808bd6ddaebe9e06d1f0e475efe003003b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 11/80] fix: BitString::new accepts an empty bit string

---
 src/asn1_types/bitstring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index f7e93f6..6d28047 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -26,7 +26,7 @@ impl BitString {
     pub fn new(unused_bits: u8, s: &[u8]) -> Self {
         let unused_bits = usize::from(unused_bits);
         let mut bitvec = BitVec::from_slice(s);
-        assert!(unused_bits < 8 && unused_bits < bitvec.len());
+        assert!(unused_bits < 8 && unused_bits <= bitvec.len());
         bitvec.truncate(bitvec.len() - unused_bits);
 
         BitString { bitvec }
-- 
2.43.0


From 8d961f64fccc75b3803d851cc45990d5690980f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 12/80] fix: BitString built from an unaligned bit slice keeps
 its bits when encoded

---
 src/asn1_types/bitstring.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index 6d28047..6c1c7c5 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -78,7 +78,9 @@ impl_tryfrom_any!(BitString);
 
 impl From<&BitSlice<u8, Msb0>> for BitString {
     fn from(slice: &BitSlice<u8, Msb0>) -> Self {
-        let bitvec = BitVec::from_bitslice(slice);
+        let mut bitvec = BitVec::from_bitslice(slice);
+        // the slice may start anywhere in a byte: move first bit to the start of first byte
+        bitvec.force_align();
         Self { bitvec }
     }
 }
-- 
2.43.0


From 8bccbf9606d4351d2970376539e365ef66be9c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 13/80] fix: unused bits of an encoded BitString are zero

---
 src/asn1_types/bitstring.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index 6c1c7c5..188cb33 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -200,8 +200,13 @@ const _: () = {
             // ignored bits
             let ignored = (8 * data.len()) - self.len();
             target.write_all(&[ignored as u8])?;
-            // content
-            target.write_all(data)?;
+            // content, with unused bits set to 0
+            if let (Some((last, head)), true) = (data.split_last(), ignored > 0) {
+                target.write_all(head)?;
+                target.write_all(&[last & (0xff << ignored)])?;
+            } else {
+                target.write_all(data)?;
+            }
 
             Ok(1 + data.len())
         }
-- 
2.43.0


From 059c3cce8e874e3ba50e9e97bff9b706c100bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 14/80] fix: parse_der rejects bit strings with non-zero unused
 bits, like from_der

---
 src/asn1_types/bitstring.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index 188cb33..15c098f 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -138,6 +138,16 @@ impl<'i> DerParser<'i> for BitString {
         // Encoding shall be primitive (X.690: 10.2)
         header.assert_primitive_input(&input).map_err(Err::Error)?;
 
+        // Check that padding bits are all 0 (X.690 section 11.2.1)
+        if let [unused_bits @ 1..=7, .., last_byte] = input.as_bytes2() {
+            if last_byte.trailing_zeros() < u32::from(*unused_bits) {
+                return Err(BerError::nom_err_input(
+                    &input,
+                    InnerError::DerConstraintFailed(DerConstraint::UnusedBitsNotZero),
+                ));
+            }
+        }
+
         <BitString>::from_ber_content(header, input)
     }
 }
-- 
2.43.0


From df097c62374c1b10d424661e1d328ee61c7933dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 15/80] fix: first sub-identifier of an OID holds its first two
 arcs, for any second arc (decode, encode, oid! macro, iterators)

---
 impl/src/lib.rs       |   9 ++--
 src/asn1_types/oid.rs | 117 +++++++++++++++++++++---------------------
 2 files changed, 64 insertions(+), 62 deletions(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index ea635cc..59d8321 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -23,11 +23,14 @@ pub fn encode_oid(input: TokenStream) -> TokenStream {
             }
             return create_error("Need at least two components for non-relative oid");
         }
-        if items[0] > 2 || items[1] > 39 {
+        if items[0] > 2 || (items[0] < 2 && items[1] > 39) {
             return create_error("First components are too big");
         }
-        let first_byte = (items[0] * 40 + items[1]) as u8;
-        v.push(first_byte);
+        let first = match items[1].checked_add(items[0] * 40) {
+            Some(first) => first,
+            None => return create_error("First components are too big"),
+        };
+        v.extend_from_slice(&encode_base128(first));
         items = &items[2..];
     }
     for &int in items {
diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index d1893c1..425abb4 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -6,7 +6,7 @@ use alloc::format;
 use alloc::string::{String, ToString};
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
-use core::{fmt, iter::FusedIterator, marker::PhantomData, ops::Shl, str::FromStr};
+use core::{fmt, iter::FusedIterator, ops::Shl, str::FromStr};
 use displaydoc::Display;
 use nom::Input as _;
 use num_traits::Num;
@@ -18,8 +18,8 @@ pub enum OidParseError {
     /// Encoded data length too short
     TooShort,
     /** Signalizes that the first or second component is too large.
-     * The first must be within the range 0 to 6 (inclusive).
-     * The second component must be less than 40.
+     * The first must be within the range 0 to 2 (inclusive).
+     * The second component must be less than 40 if the first is 0 or 1.
      */
     FirstComponentsTooLarge,
     /// a
@@ -169,12 +169,15 @@ impl<'a> Oid<'a> {
             }
             return Err(OidParseError::TooShort);
         }
-        if s[0] >= 7 || s[1] >= 40 {
-            return Err(OidParseError::FirstComponentsTooLarge);
-        }
-        let asn1_encoded: Vec<u8> = [(s[0] * 40 + s[1]) as u8]
-            .iter()
-            .copied()
+        // The first two arcs are encoded as one sub-identifier (X.690: 8.19.4)
+        let first = match s[0] {
+            0 | 1 if s[1] < 40 => s[0] * 40 + s[1],
+            2 => s[1]
+                .checked_add(80)
+                .ok_or(OidParseError::FirstComponentsTooLarge)?,
+            _ => return Err(OidParseError::FirstComponentsTooLarge),
+        };
+        let asn1_encoded: Vec<u8> = encode_relative(&[first])
             .chain(encode_relative(&s[2..]))
             .collect();
         Ok(Oid {
@@ -263,8 +266,7 @@ impl<'a> Oid<'a> {
         SubIdentifierIterator {
             oid: self,
             pos: 0,
-            first: false,
-            n: PhantomData,
+            second: None,
         }
     }
 
@@ -272,22 +274,18 @@ impl<'a> Oid<'a> {
     /// Returns `None` if at least one arc does not fit into `u64`.
     pub fn iter(&'_ self) -> Option<impl FusedIterator<Item = u64> + ExactSizeIterator + '_> {
         // Check that every arc fits into u64
-        let bytes = if self.relative {
-            &self.asn1
-        } else if self.asn1.is_empty() {
-            &[]
-        } else {
-            &self.asn1[1..]
-        };
-        let max_bits = bytes
+        let max_bits = self
+            .asn1
             .iter()
             .fold((0usize, 0usize), |(max, cur), c| {
-                let is_end = (c >> 7) == 0u8;
-                if is_end {
-                    (max.max(cur + 7), 0)
+                // significant bits of the current arc
+                let bits = if cur == 0 {
+                    8 - (c & 0x7f).leading_zeros() as usize
                 } else {
-                    (max, cur + 7)
-                }
+                    cur + 7
+                };
+                let is_end = (c >> 7) == 0u8;
+                (max.max(bits), if is_end { 0 } else { bits })
             })
             .0;
         if max_bits > 64 {
@@ -297,8 +295,7 @@ impl<'a> Oid<'a> {
         Some(SubIdentifierIterator {
             oid: self,
             pos: 0,
-            first: false,
-            n: PhantomData,
+            second: None,
         })
     }
 
@@ -324,14 +321,14 @@ impl<'a> Oid<'a> {
     }
 }
 
-trait Repr: Num + Shl<usize, Output = Self> + From<u8> {}
-impl<N> Repr for N where N: Num + Shl<usize, Output = N> + From<u8> {}
+trait Repr: Num + PartialOrd + Shl<usize, Output = Self> + From<u8> {}
+impl<N> Repr for N where N: Num + PartialOrd + Shl<usize, Output = N> + From<u8> {}
 
 struct SubIdentifierIterator<'a, N: Repr> {
     oid: &'a Oid<'a>,
     pos: usize,
-    first: bool,
-    n: PhantomData<&'a N>,
+    /// second arc, when only the first arc has been returned
+    second: Option<N>,
 }
 
 impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
@@ -340,22 +337,13 @@ impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
     fn next(&mut self) -> Option<Self::Item> {
         use num_traits::identities::Zero;
 
+        if let Some(n) = self.second.take() {
+            return Some(n);
+        }
         if self.pos == self.oid.asn1.len() {
             return None;
         }
-        if !self.oid.relative {
-            if !self.first {
-                debug_assert!(self.pos == 0);
-                self.first = true;
-                return Some((self.oid.asn1[0] / 40).into());
-            } else if self.pos == 0 {
-                self.pos += 1;
-                if self.oid.asn1[0] == 0 && self.oid.asn1.len() == 1 {
-                    return None;
-                }
-                return Some((self.oid.asn1[0] % 40).into());
-            }
-        }
+        let is_first = self.pos == 0 && !self.oid.relative;
         // decode objet sub-identifier according to the asn.1 standard
         let mut res = <N as Zero>::zero();
         for o in self.oid.asn1[self.pos..].iter() {
@@ -366,30 +354,41 @@ impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
                 break;
             }
         }
+        if is_first && *self.oid.asn1 != [0] {
+            // the first sub-identifier holds the first two arcs (X.690: 8.19.4)
+            let (first, offset) = if res < 40.into() {
+                (0, 0)
+            } else if res < 80.into() {
+                (1, 40)
+            } else {
+                (2, 80)
+            };
+            self.second = Some(res - offset.into());
+            return Some(first.into());
+        }
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<N: Repr> FusedIterator for SubIdentifierIterator<'_, N> {}
 
 impl<N: Repr> ExactSizeIterator for SubIdentifierIterator<'_, N> {
     fn len(&self) -> usize {
-        if self.oid.relative {
-            self.oid.asn1.iter().filter(|o| (*o >> 7) == 0u8).count()
-        } else if self.oid.asn1.is_empty() {
-            0
-        } else if self.oid.asn1.len() == 1 {
-            if self.oid.asn1[0] == 0 {
-                1
-            } else {
-                2
-            }
-        } else {
-            2 + self.oid.asn1[2..]
-                .iter()
-                .filter(|o| (*o >> 7) == 0u8)
-                .count()
-        }
+        let bytes = &self.oid.asn1[self.pos..];
+        let complete = bytes.iter().filter(|o| (*o >> 7) == 0u8).count();
+        // last sub-identifier, if not terminated
+        let partial = usize::from(bytes.last().map_or(false, |o| (o >> 7) != 0));
+        // arcs sharing the first sub-identifier
+        let first = self.pos == 0
+            && !self.oid.relative
+            && !self.oid.asn1.is_empty()
+            && *self.oid.asn1 != [0];
+        complete + partial + usize::from(first) + usize::from(self.second.is_some())
     }
 }
 
-- 
2.43.0


From b2bb1f536699b63509e75de05ba7511d01959971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 16/80] fix: decode RELATIVE-OID elements as relative OIDs in
 all entry points

---
 src/asn1_types/oid.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 425abb4..8fd0a82 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -59,7 +59,13 @@ impl<'i> BerParser<'i> for Oid<'i> {
         }
 
         let (rem, data) = input.take_split(input.len());
-        Ok((rem, Oid::new(Cow::Borrowed(data.as_bytes2()))))
+        let asn1 = Cow::Borrowed(data.as_bytes2());
+        let oid = if header.is_universal() && header.tag == Tag::RelativeOid {
+            Oid::new_relative(asn1)
+        } else {
+            Oid::new(asn1)
+        };
+        Ok((rem, oid))
     }
 }
 
-- 
2.43.0


From f627f022911ed28ab9e3c870c7b99c9f5e67a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 17/80] fix: reject OID contents with truncated or padded
 sub-identifiers

---
 src/asn1_types/oid.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 8fd0a82..7e6294a 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -58,6 +58,9 @@ impl<'i> BerParser<'i> for Oid<'i> {
             return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
         }
 
+        check_sub_identifiers(input.as_bytes2())
+            .map_err(|e| BerError::nom_err_input(&input, e))?;
+
         let (rem, data) = input.take_split(input.len());
         let asn1 = Cow::Borrowed(data.as_bytes2());
         let oid = if header.is_universal() && header.tag == Tag::RelativeOid {
@@ -133,6 +136,27 @@ const _: () = {
     impl_toder_from_tober!(LFT 'a, Oid<'a>);
 };
 
+/// Check that all sub-identifiers are complete, and use the fewest possible octets (X.690: 8.19.2)
+fn check_sub_identifiers(bytes: &[u8]) -> Result<(), InnerError> {
+    let mut at_start = true;
+    for b in bytes {
+        if at_start && *b == 0x80 {
+            return Err(InnerError::invalid_value(
+                Tag::Oid,
+                "Sub-identifier is not minimal",
+            ));
+        }
+        at_start = *b & 0x80 == 0;
+    }
+    if !at_start {
+        return Err(InnerError::invalid_value(
+            Tag::Oid,
+            "Sub-identifier is truncated",
+        ));
+    }
+    Ok(())
+}
+
 fn encode_relative(ids: &'_ [u64]) -> impl Iterator<Item = u8> + '_ {
     ids.iter().flat_map(|id| {
         let bit_count = 64 - id.leading_zeros();
@@ -308,15 +332,19 @@ impl<'a> Oid<'a> {
     pub fn from_ber_relative(bytes: &'a [u8]) -> ParseResult<'a, Self> {
         let (rem, any) = Any::from_ber(bytes)?;
         any.header.assert_primitive()?;
+        any.header.assert_class(Class::Universal)?;
         any.header.assert_tag(Tag::RelativeOid)?;
+        check_sub_identifiers(any.data.as_bytes2()).map_err(Error::from)?;
         let asn1 = Cow::Borrowed(any.data.as_bytes2());
         Ok((rem, Oid::new_relative(asn1)))
     }
 
     pub fn from_der_relative(bytes: &'a [u8]) -> ParseResult<'a, Self> {
         let (rem, any) = Any::from_der(bytes)?;
+        any.header.assert_class(Class::Universal)?;
         any.header.assert_tag(Tag::RelativeOid)?;
         Self::check_constraints(&any)?;
+        check_sub_identifiers(any.data.as_bytes2()).map_err(Error::from)?;
         let asn1 = Cow::Borrowed(any.data.as_bytes2());
         Ok((rem, Oid::new_relative(asn1)))
     }
-- 
2.43.0


From cc2be7c6c6f22f91dc8e0b36c5830fbfe734bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 18/80] fix: decode negative BER integers with extra leading ff
 octets, as positive ones with leading zeroes

---
 src/asn1_types/integer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index ffc581e..84cc3b2 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -61,14 +61,17 @@ fn decode_array_uint<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
 fn decode_array_int<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
-    if bytes.len() > N {
+    // BER allows extra leading 0xff octets, ignore them
+    let input = trim_slice(bytes);
+
+    if input.len() > N {
         return Err(Error::IntegerTooLarge);
     }
 
     // any.tag().assert_eq(Tag::Integer)?;
     let mut output = [0xFFu8; N];
-    let offset = N.saturating_sub(bytes.len());
-    output[offset..].copy_from_slice(bytes);
+    let offset = N.saturating_sub(input.len());
+    output[offset..].copy_from_slice(input);
     Ok(output)
 }
 
-- 
2.43.0


From 8d8483ed324be9fa1201249b81a91f810092fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 19/80] fix: reject an INTEGER or ENUMERATED without contents
 octets in BER

---
 src/asn1_types/integer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index 84cc3b2..26ef884 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -41,6 +41,10 @@ fn trim_slice(bytes: &[u8]) -> &[u8] {
 /// Decode an unsigned integer into a byte array of the requested size
 /// containing a big endian integer.
 fn decode_array_uint<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
+    // The contents octets shall consist of one or more octets (X.690: 8.3.1)
+    if bytes.is_empty() {
+        return Err(Error::InvalidLength);
+    }
     if is_highest_bit_set(bytes) {
         return Err(Error::IntegerNegative);
     }
-- 
2.43.0


From 9aeb7a95a24523ec24a7ed0392633122a3b50b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 20/80] fix: int! macro encodes 0 and values with the highest
 bit set

---
 impl/src/lib.rs           | 6 +++++-
 src/asn1_types/integer.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index 59d8321..4e40723 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -117,7 +117,11 @@ fn impl_encode_int(lit: LitInt) -> Result<TokenStream, Error> {
     let value = lit.base10_parse::<u64>()?;
 
     let bytes = value.to_be_bytes();
-    let v: Vec<_> = bytes.iter().skip_while(|&c| *c == 0).collect();
+    let mut v: Vec<_> = bytes.iter().skip_while(|&c| *c == 0).collect();
+    // value is unsigned: add a leading 0 if empty (value 0), or if it would be read as negative
+    if v.first().map_or(true, |&c| *c >= 0x80) {
+        v.insert(0, &0);
+    }
 
     let mut s = String::with_capacity(2 + 6 * v.len());
     s.push('[');
diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index 26ef884..c9de533 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -679,7 +679,7 @@ const _: () = {
 ///
 /// - `int!(1234)`: Create a const expression for the corresponding `Integer<'static>`
 /// - `int!(raw 1234)`: Return the DER encoded form as a byte array (hex-encoded, big-endian
-///   representation from the integer, with leading zeroes removed).
+///   representation from the integer, with unneeded leading zeroes removed).
 ///
 /// # Examples
 ///
-- 
2.43.0


From 9d88a6abac2a923693a2839d99c50ec3f1fa2208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 21/80] fix: an Integer is encoded in the shortest form and
 compared by value

---
 src/asn1_types/integer.rs | 42 +++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index c9de533..bf449a3 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -79,6 +79,19 @@ fn decode_array_int<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
     Ok(output)
 }
 
+/// Return the shortest two's-complement representation of the same value
+fn minimal_slice(bytes: &[u8]) -> &[u8] {
+    let mut bytes = bytes;
+    loop {
+        match bytes {
+            [] => return &[0],
+            [0, b, ..] if *b < 0x80 => bytes = &bytes[1..],
+            [0xff, b, ..] if *b >= 0x80 => bytes = &bytes[1..],
+            _ => return bytes,
+        }
+    }
+}
+
 /// Is the highest bit of the first byte in the slice 1? (if present)
 #[inline]
 fn is_highest_bit_set(bytes: &[u8]) -> bool {
@@ -365,11 +378,18 @@ impl_int!(usize => isize);
 /// let v = 4.to_der_vec().unwrap();
 /// assert_eq!(&v, &[2, 1, 4]);
 /// ```
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq)]
 pub struct Integer<'a> {
     pub(crate) data: Cow<'a, [u8]>,
 }
 
+/// Integers are equal if they have the same value (extra leading octets are ignored)
+impl PartialEq for Integer<'_> {
+    fn eq(&self, other: &Self) -> bool {
+        minimal_slice(&self.data) == minimal_slice(&other.data)
+    }
+}
+
 impl<'a> Integer<'a> {
     /// Creates a new `Integer` containing the given value (borrowed).
     #[inline]
@@ -428,18 +448,8 @@ impl<'a> Integer<'a> {
         }
         // otherwise -> remove 0 unless next has high bit set
         else {
-            let mut idx = 0;
-
-            while idx < b.len() - 1 {
-                if b[idx] == 0 && b[idx + 1] < 0x80 {
-                    idx += 1;
-                    continue;
-                }
-                break;
-            }
-
             Integer {
-                data: Cow::Owned(b[idx..].to_vec()),
+                data: Cow::Owned(minimal_slice(&b).to_vec()),
             }
         }
     }
@@ -654,12 +664,14 @@ const _: () = {
         type Encoder = Primitive<{ Tag::Integer.0 }>;
 
         fn ber_content_len(&self) -> Length {
-            Length::Definite(self.data.len())
+            Length::Definite(minimal_slice(&self.data).len())
         }
 
+        // The shortest form is required in BER as well (X.690: 8.3.2)
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            target.write_all(&self.data)?;
-            Ok(self.data.len())
+            let data = minimal_slice(&self.data);
+            target.write_all(data)?;
+            Ok(data.len())
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-- 
2.43.0


From 5eb01b8d8642bebf5be0cbbfb3eb1d155f4e848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 22/80] fix: from_der of an empty BOOLEAN returns an error
 instead of panicking

---
 src/asn1_types/boolean.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/boolean.rs b/src/asn1_types/boolean.rs
index e23d8fd..28ba380 100644
--- a/src/asn1_types/boolean.rs
+++ b/src/asn1_types/boolean.rs
@@ -74,7 +74,11 @@ impl<'i> DerParser<'i> for Boolean {
 
 impl CheckDerConstraints for Boolean {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
+        // The contents octets shall consist of a single octet (X.690: 8.2.1)
+        let c = match any.data.as_bytes() {
+            [c] => *c,
+            _ => return Err(Error::InvalidLength),
+        };
         // X.690 section 11.1
         if !(c == 0 || c == 0xff) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
@@ -135,7 +139,11 @@ impl_tryfrom_any!(bool);
 
 impl CheckDerConstraints for bool {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
+        // The contents octets shall consist of a single octet (X.690: 8.2.1)
+        let c = match any.data.as_bytes() {
+            [c] => *c,
+            _ => return Err(Error::InvalidLength),
+        };
         // X.690 section 11.1
         if !(c == 0 || c == 0xff) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
-- 
2.43.0


From 3eee41d670e987c0e5aa5017ccb8d38d48e4183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 23/80] fix: tag of an Option (infinite recursion), and
 encoding of an Option as its inner value or as nothing

---
 src/asn1_types/optional.rs | 107 ++++++++++++++++++++++++++++++++++---
 1 file changed, 101 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 9763296..1350e13 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -156,11 +156,24 @@ impl<T> DynTagged for Option<T>
 where
     T: DynTagged,
 {
+    fn class(&self) -> Class {
+        match self {
+            Some(t) => t.class(),
+            None => Class::Universal,
+        }
+    }
+
+    fn constructed(&self) -> bool {
+        match self {
+            Some(t) => t.constructed(),
+            None => false,
+        }
+    }
+
     fn tag(&self) -> Tag {
-        if self.is_some() {
-            self.tag()
-        } else {
-            Tag(0)
+        match self {
+            Some(t) => t.tag(),
+            None => Tag(0),
         }
     }
 
@@ -190,6 +203,13 @@ const _: () = {
             }
         }
 
+        fn ber_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.ber_total_len(),
+                None => Length::Definite(0),
+            }
+        }
+
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.ber_write_content(target),
@@ -198,7 +218,17 @@ const _: () = {
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            match self {
+                Some(t) => t.ber_tag_info(),
+                None => (self.class(), self.constructed(), self.tag()),
+            }
+        }
+
+        fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_write_header(target),
+                None => Ok(0),
+            }
         }
 
         fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
@@ -207,6 +237,30 @@ const _: () = {
                 None => Ok(0),
             }
         }
+
+        fn ber_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn ber_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 
     impl<T> ToDer for Option<T>
@@ -222,6 +276,13 @@ const _: () = {
             }
         }
 
+        fn der_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.der_total_len(),
+                None => Length::Definite(0),
+            }
+        }
+
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.der_write_content(target),
@@ -230,7 +291,17 @@ const _: () = {
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            match self {
+                Some(t) => t.der_tag_info(),
+                None => (self.class(), self.constructed(), self.tag()),
+            }
+        }
+
+        fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_write_header(target),
+                None => Ok(0),
+            }
         }
 
         fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
@@ -239,6 +310,30 @@ const _: () = {
                 None => Ok(0),
             }
         }
+
+        fn der_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn der_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 };
 
-- 
2.43.0


From 8f7c07d5e26c1db4228c33a598fc8d3b93729f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 24/80] fix: Option decodes an indefinite-length element
 (content was looked up twice)

---
 src/asn1_types/optional.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 1350e13..479543d 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -70,9 +70,8 @@ where
         if !T::accept_header(header) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_ber_content(header, data).map_err(Err::convert)?;
+        // `input` is already the content of the object
+        let (rem, obj) = T::from_ber_content(header, input)?;
         Ok((rem, Some(obj)))
     }
 }
@@ -114,9 +113,8 @@ where
         if !T::accept_header(header) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_der_content(header, data).map_err(Err::convert)?;
+        // `input` is already the content of the object
+        let (rem, obj) = T::from_der_content(header, input)?;
         Ok((rem, Some(obj)))
     }
 }
-- 
2.43.0


From 809079561cf6bcf3036ae732a389f8f64618688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 25/80] fix: elements with an indefinite-length child get their
 own end-of-contents octets, and references encode as the value

---
 src/header.rs                        |  5 +++
 src/to_ber.rs                        | 57 ++++++++++++++++++++++++++--
 src/to_ber/constructed_indefinite.rs |  5 +--
 src/to_der.rs                        | 34 +++++++++++++++--
 4 files changed, 91 insertions(+), 10 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 96c951d..27ee8ea 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -424,6 +424,11 @@ const _: () = {
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
             (self.class(), self.constructed(), self.tag())
         }
+
+        // only the header is written (no EndOfContent)
+        fn ber_encode<W: std::io::Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            self.ber_write_header(target)
+        }
     }
 
     impl ToDer for Header<'_> {
diff --git a/src/to_ber.rs b/src/to_ber.rs
index 52f0317..4da95bc 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -40,6 +40,8 @@ pub trait ToBer {
 
     /// Encode and write the content of the object to the writer `target`
     ///
+    /// If the content length is `Indefinite`, the content does not include the end-of-contents octets.
+    ///
     /// Returns the number of bytes written
     fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize>;
 
@@ -64,7 +66,9 @@ pub trait ToBer {
     ///
     /// Returns the number of bytes written
     fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-        let sz = self.ber_write_header(target)? + self.ber_write_content(target)?;
+        let sz = self.ber_write_header(target)?
+            + self.ber_write_content(target)?
+            + ber_write_end_of_content(self.ber_content_len(), target)?;
 
         Ok(sz)
     }
@@ -83,8 +87,8 @@ pub trait ToBer {
         let length = self.ber_total_len();
         let tagged_header = Header::new(class, true, Tag(tag_number), length);
         let sz = tagged_header.ber_write_header(target)?
-            + self.ber_write_header(target)?
-            + self.ber_write_content(target)?;
+            + self.ber_encode(target)?
+            + ber_write_end_of_content(length, target)?;
 
         Ok(sz)
     }
@@ -103,7 +107,9 @@ pub trait ToBer {
         let length = self.ber_content_len();
         let (_, constructed, _) = self.ber_tag_info();
         let tagged_header = Header::new(class, constructed, Tag(tag_number), length);
-        let sz = tagged_header.ber_write_header(target)? + self.ber_write_content(target)?;
+        let sz = tagged_header.ber_write_header(target)?
+            + self.ber_write_content(target)?
+            + ber_write_end_of_content(length, target)?;
 
         Ok(sz)
     }
@@ -136,6 +142,10 @@ where
         (*self).ber_content_len()
     }
 
+    fn ber_total_len(&self) -> Length {
+        (*self).ber_total_len()
+    }
+
     fn ber_tag_info(&self) -> (Class, bool, Tag) {
         (*self).ber_tag_info()
     }
@@ -143,10 +153,49 @@ where
     fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).ber_write_content(target)
     }
+
+    fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_write_header(target)
+    }
+
+    fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_encode(target)
+    }
+
+    fn ber_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn ber_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- helper functions
 
+/// Write the end-of-contents octets, if length is `Indefinite`
+///
+/// Returns the number of bytes written
+fn ber_write_end_of_content<W: Write>(length: Length, target: &mut W) -> SerializeResult<usize> {
+    match length {
+        Length::Definite(_) => Ok(0),
+        Length::Indefinite => {
+            target.write_all(&[0, 0])?;
+            Ok(2)
+        }
+    }
+}
+
 /// Returns the length (in bytes) required for the given tag
 pub fn ber_tag_length(tag: Tag) -> usize {
     match tag.0 {
diff --git a/src/to_ber/constructed_indefinite.rs b/src/to_ber/constructed_indefinite.rs
index 220eb40..948e818 100644
--- a/src/to_ber/constructed_indefinite.rs
+++ b/src/to_ber/constructed_indefinite.rs
@@ -74,9 +74,8 @@ where
             let sz = t.ber_encode(target)?;
             Ok::<_, SerializeError>(acc + sz)
         })?;
-        // write EndOfContent
-        target.write_all(&[0, 0])?;
-        Ok(sz + 2)
+        // note: EndOfContent is not part of the content, it is written by `ber_encode`
+        Ok(sz)
     }
 
     fn ber_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/to_der.rs b/src/to_der.rs
index e323876..6b381e3 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -98,9 +98,7 @@ pub trait ToDer {
     ) -> SerializeResult<usize> {
         let length = self.der_total_len();
         let tagged_header = Header::new(class, true, Tag(tag_number), length);
-        let sz = tagged_header.der_write_header(target)?
-            + self.der_write_header(target)?
-            + self.der_write_content(target)?;
+        let sz = tagged_header.der_write_header(target)? + self.der_encode(target)?;
 
         Ok(sz)
     }
@@ -170,6 +168,10 @@ where
         (*self).der_content_len()
     }
 
+    fn der_total_len(&self) -> Length {
+        (*self).der_total_len()
+    }
+
     fn der_tag_info(&self) -> (Class, bool, Tag) {
         (*self).der_tag_info()
     }
@@ -177,6 +179,32 @@ where
     fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).der_write_content(target)
     }
+
+    fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_write_header(target)
+    }
+
+    fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_encode(target)
+    }
+
+    fn der_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn der_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- Macros
-- 
2.43.0


From e305142b7b8fc061e1a2ccdc84d4deb84564d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 26/80] fix: TaggedParser reports the class and constructed bit
 of its header

---
 src/asn1_types/tagged/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/tagged/parser.rs b/src/asn1_types/tagged/parser.rs
index 922f0eb..e5e59a7 100644
--- a/src/asn1_types/tagged/parser.rs
+++ b/src/asn1_types/tagged/parser.rs
@@ -72,6 +72,14 @@ where
 }
 
 impl<TagKind, T, E> DynTagged for TaggedParser<'_, TagKind, T, E> {
+    fn class(&self) -> Class {
+        self.header.class
+    }
+
+    fn constructed(&self) -> bool {
+        self.header.constructed
+    }
+
     fn tag(&self) -> Tag {
         self.tag()
     }
-- 
2.43.0


From 18d860296a2a98d85bd8889f5550f81710a5b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:49 +0000
Subject: [PATCH 27/80] fix: TaggedParser rejects a primitive EXPLICIT tag, as
 TaggedValue

---
 src/asn1_types/tagged/explicit.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index 69cff8b..3900778 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -300,6 +300,10 @@ where
     fn from_ber(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_ber(bytes).map_err(Err::convert)?;
         let header = any.header;
+        // Tagged Explicit must be constructed (X.690 8.14.2)
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, inner) = T::from_ber(any.data.as_bytes2())?;
         let tagged = TaggedParser {
             header,
@@ -319,6 +323,10 @@ where
     fn from_der(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_der(bytes).map_err(Err::convert)?;
         let header = any.header;
+        // Tagged Explicit must be constructed (X.690 8.14.2)
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, inner) = T::from_der(any.data.as_bytes2())?;
         let tagged = TaggedParser {
             header,
-- 
2.43.0


From 0ea2addd2afae9af711d83cbfac19cec6fa1ae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:49 +0000
Subject: [PATCH 28/80] fix: reject times with an impossible date or zone
 offset

---
 src/asn1_types/generalizedtime.rs | 17 ++++++++++-------
 src/asn1_types/utctime.rs         | 18 +++++++++++-------
 src/datetime.rs                   | 21 +++++++++++++++++++++
 3 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 949c6f8..9c14857 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -51,7 +51,12 @@ impl GeneralizedTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if day == 0
+            || day > days_in_month(year, month)
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             // eprintln!("GeneralizedTime: time checks failed");
             // eprintln!(" month:{}", month);
             // eprintln!(" day:{}", day);
@@ -140,14 +145,12 @@ impl GeneralizedTime {
         let tz = match rem {
             [b'Z'] => ASN1TimeZone::Z,
             [b'+', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(hh as i8, mm as i8)
+                let (hh, mm) = decode_offset(Self::TAG, [*h1, *h2], [*m1, *m2])?;
+                ASN1TimeZone::Offset(hh, mm)
             }
             [b'-', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                let (hh, mm) = decode_offset(Self::TAG, [*h1, *h2], [*m1, *m2])?;
+                ASN1TimeZone::Offset(-hh, mm)
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index e45b9b3..9795cbc 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -47,7 +47,13 @@ impl UtcTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        // note: all years from 1950 to 2049 divisible by 4 are leap years, so 2 digits are enough here
+        if day == 0
+            || day > days_in_month(u32::from(year), month)
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             return Err(Self::TAG.invalid_value("time components with invalid values"));
         }
         if rem.is_empty() {
@@ -56,14 +62,12 @@ impl UtcTime {
         let tz = match rem {
             [b'Z'] => ASN1TimeZone::Z,
             [b'+', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(hh as i8, mm as i8)
+                let (hh, mm) = decode_offset(Self::TAG, [*h1, *h2], [*m1, *m2])?;
+                ASN1TimeZone::Offset(hh, mm)
             }
             [b'-', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                let (hh, mm) = decode_offset(Self::TAG, [*h1, *h2], [*m1, *m2])?;
+                ASN1TimeZone::Offset(-hh, mm)
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
diff --git a/src/datetime.rs b/src/datetime.rs
index 03f5a1d..88dca03 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -107,3 +107,24 @@ pub(crate) fn decode_decimal(tag: Tag, hi: u8, lo: u8) -> Result<u8> {
         Err(tag.invalid_value("expected digit"))
     }
 }
+
+/// Return the number of days in the month (0 if month is invalid)
+pub(crate) const fn days_in_month(year: u32, month: u8) -> u8 {
+    match month {
+        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
+        4 | 6 | 9 | 11 => 30,
+        2 if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) => 29,
+        2 => 28,
+        _ => 0,
+    }
+}
+
+/// Decode time zone offset hour and minute
+pub(crate) fn decode_offset(tag: Tag, hour: [u8; 2], minute: [u8; 2]) -> Result<(i8, i8)> {
+    let hh = decode_decimal(tag, hour[0], hour[1])?;
+    let mm = decode_decimal(tag, minute[0], minute[1])?;
+    if hh > 23 || mm > 59 {
+        return Err(tag.invalid_value("time zone offset with invalid values"));
+    }
+    Ok((hh as i8, mm as i8))
+}
-- 
2.43.0


From 441853f081b7d1e3e08c63d3cce3644739b5f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 29/80] fix: keep the sign of negative zone offsets smaller
 than one hour

---
 src/asn1_types/generalizedtime.rs | 10 ++++++++--
 src/asn1_types/utctime.rs         | 10 ++++++++--
 src/datetime.rs                   |  2 ++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 9c14857..e9a60de 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -150,7 +150,8 @@ impl GeneralizedTime {
             }
             [b'-', h1, h2, m1, m2] => {
                 let (hh, mm) = decode_offset(Self::TAG, [*h1, *h2], [*m1, *m2])?;
-                ASN1TimeZone::Offset(-hh, mm)
+                // keep sign if hour is 0
+                ASN1TimeZone::Offset(-hh, if hh == 0 { -mm } else { mm })
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -270,7 +271,12 @@ impl fmt::Display for GeneralizedTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fsec
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || (hh == 0 && mm < 0) {
+                    '-'
+                } else {
+                    '+'
+                };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{}{:02}{:02}",
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 9795cbc..72165f5 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -67,7 +67,8 @@ impl UtcTime {
             }
             [b'-', h1, h2, m1, m2] => {
                 let (hh, mm) = decode_offset(Self::TAG, [*h1, *h2], [*m1, *m2])?;
-                ASN1TimeZone::Offset(-hh, mm)
+                // keep sign if hour is 0
+                ASN1TimeZone::Offset(-hh, if hh == 0 { -mm } else { mm })
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -204,7 +205,12 @@ impl fmt::Display for UtcTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || (hh == 0 && mm < 0) {
+                    '-'
+                } else {
+                    '+'
+                };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{:02}{:02}",
diff --git a/src/datetime.rs b/src/datetime.rs
index 88dca03..3d3b50b 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -15,6 +15,8 @@ pub enum ASN1TimeZone {
     /// Local zone, with offset to coordinated universal time
     ///
     /// `(offset_hour, offset_minute)`
+    ///
+    /// The sign is the sign of `offset_hour`, or of `offset_minute` if `offset_hour` is 0
     Offset(i8, i8),
 }
 
-- 
2.43.0


From ec843e1c499491c3dcf687c0e198b10717d8205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 30/80] fix: accept times without seconds and with a zone
 offset

---
 src/asn1_types/generalizedtime.rs | 2 ++
 src/asn1_types/utctime.rs         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index e9a60de..e85f629 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -45,6 +45,8 @@ impl GeneralizedTime {
         }
         // check for seconds
         let (second, rem) = match rem {
+            // no seconds, only a time zone
+            [b'+' | b'-', ..] => (0, rem),
             [sec1, sec2, rem @ ..] => {
                 let second = decode_decimal(Self::TAG, *sec1, *sec2)?;
                 (second, rem)
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 72165f5..af8d10e 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -41,6 +41,8 @@ impl UtcTime {
         }
         // check for seconds
         let (second, rem) = match rem {
+            // no seconds, only a time zone
+            [b'+' | b'-', ..] => (0, rem),
             [sec1, sec2, rem @ ..] => {
                 let second = decode_decimal(Self::TAG, *sec1, *sec2)?;
                 (second, rem)
-- 
2.43.0


From 624604870aa27fcb9478a1cc2cc6d5adb8bd13fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:52 +0000
Subject: [PATCH 31/80] fix: write fractions of second with leading zeroes, and
 without trailing zeroes

---
 src/asn1_types/generalizedtime.rs | 18 +++---------------
 src/datetime.rs                   | 20 ++++++++++++++------
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index e85f629..eb66cc1 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -1,7 +1,4 @@
 use crate::*;
-use alloc::format;
-#[cfg(not(feature = "std"))]
-use alloc::string::String;
 use core::fmt;
 use nom::{AsBytes, Input as _};
 #[cfg(feature = "datetime")]
@@ -257,10 +254,7 @@ impl<'i> DerParser<'i> for GeneralizedTime {
 impl fmt::Display for GeneralizedTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let dt = &self.0;
-        let fsec = match self.0.millisecond {
-            Some(v) => format!(".{v}"),
-            None => String::new(),
-        };
+        let fsec = format_fraction(self.0.millisecond);
         match dt.tz {
             ASN1TimeZone::Undefined => write!(
                 f,
@@ -325,19 +319,13 @@ const _: () = {
             // - (variable) the fractional part, without trailing zeros, with a point "."
             // - 1 for the character Z in DER (X.690 section 11.7.1)
             // data length: 15 + fractional part
-            let num_digits = match self.0.millisecond {
-                None => 0,
-                Some(v) => 1 + v.to_string().len(),
-            };
+            let num_digits = format_fraction(self.0.millisecond).len();
 
             Length::Definite(15 + num_digits)
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            let fractional = match self.0.millisecond {
-                None => "".to_string(),
-                Some(v) => format!(".{v}"),
-            };
+            let fractional = format_fraction(self.0.millisecond);
             let num_digits = fractional.len();
             write!(
                 target,
diff --git a/src/datetime.rs b/src/datetime.rs
index 3d3b50b..69ccd6d 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -1,7 +1,6 @@
 use crate::{Result, Tag};
 use alloc::format;
-#[cfg(not(feature = "std"))]
-use alloc::string::ToString;
+use alloc::string::String;
 use core::fmt;
 #[cfg(feature = "datetime")]
 use time::OffsetDateTime;
@@ -89,10 +88,7 @@ impl ASN1DateTime {
 
 impl fmt::Display for ASN1DateTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let fractional = match self.millisecond {
-            None => "".to_string(),
-            Some(v) => format!(".{v}"),
-        };
+        let fractional = format_fraction(self.millisecond);
         write!(
             f,
             "{:04}{:02}{:02}{:02}{:02}{:02}{}Z",
@@ -130,3 +126,15 @@ pub(crate) fn decode_offset(tag: Tag, hour: [u8; 2], minute: [u8; 2]) -> Result<
     }
     Ok((hh as i8, mm as i8))
 }
+
+/// Format the fractional part of seconds: 3 digits, without trailing zeroes
+/// (and no fractional part at all if all digits are 0)
+pub(crate) fn format_fraction(millisecond: Option<u16>) -> String {
+    match millisecond {
+        None | Some(0) => String::new(),
+        Some(v) => {
+            let s = format!(".{v:03}");
+            String::from(s.trim_end_matches('0'))
+        }
+    }
+}
-- 
2.43.0


From d2a8f3060a1c389beb56a5c45b4788ebb6cdb27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:53 +0000
Subject: [PATCH 32/80] fix: times with a zone offset are encoded as the same
 instant in UTC, and times that cannot be written return an error

---
 src/asn1_types/generalizedtime.rs |  9 +----
 src/asn1_types/utctime.rs         |  3 +-
 src/datetime.rs                   | 65 +++++++++++++++++++++++++++++++
 3 files changed, 69 insertions(+), 8 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index eb66cc1..8a8119e 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -327,16 +327,11 @@ const _: () = {
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             let fractional = format_fraction(self.0.millisecond);
             let num_digits = fractional.len();
+            let dt = self.0.to_utc(9999)?;
             write!(
                 target,
                 "{:04}{:02}{:02}{:02}{:02}{:02}{}Z",
-                self.0.year,
-                self.0.month,
-                self.0.day,
-                self.0.hour,
-                self.0.minute,
-                self.0.second,
-                fractional,
+                dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fractional,
             )?;
             // write_fmt returns (), see above for length value
             Ok(15 + num_digits)
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index af8d10e..abb3d72 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -252,10 +252,11 @@ const _: () = {
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            let dt = self.0.to_utc(99)?;
             write!(
                 target,
                 "{:02}{:02}{:02}{:02}{:02}{:02}Z",
-                self.0.year, self.0.month, self.0.day, self.0.hour, self.0.minute, self.0.second,
+                dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second,
             )?;
             // write_fmt returns (), see above for length value
             Ok(13)
diff --git a/src/datetime.rs b/src/datetime.rs
index 69ccd6d..248a039 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -55,6 +55,71 @@ impl ASN1DateTime {
         }
     }
 
+    /// Return the same time, in coordinated universal time
+    ///
+    /// Time is returned unchanged if there is no offset. Returns an error if a field is out of range
+    /// (`max_year` is included), or if the resulting year is not representable.
+    #[cfg(feature = "std")]
+    pub(crate) fn to_utc(&self, max_year: u32) -> Result<Self> {
+        use crate::Error;
+
+        let mut dt = self.clone();
+        if dt.year > max_year
+            || dt.day == 0
+            || dt.day > days_in_month(dt.year, dt.month)
+            || dt.hour > 23
+            || dt.minute > 59
+            || dt.second > 59
+            || dt.millisecond.unwrap_or(0) > 999
+        {
+            return Err(Error::InvalidDateTime);
+        }
+        if let ASN1TimeZone::Offset(hh, mm) = dt.tz {
+            // minutes have the sign of hours
+            let mm = if hh < 0 { -(mm.abs() as i32) } else { mm as i32 };
+            let offset = (hh as i32) * 60 + mm;
+            if offset.abs() >= 24 * 60 {
+                return Err(Error::InvalidDateTime);
+            }
+            let minutes = (dt.hour as i32) * 60 + (dt.minute as i32) - offset;
+            if minutes < 0 {
+                // previous day
+                if dt.day > 1 {
+                    dt.day -= 1;
+                } else {
+                    if dt.month > 1 {
+                        dt.month -= 1;
+                    } else {
+                        dt.year = dt.year.checked_sub(1).ok_or(Error::InvalidDateTime)?;
+                        dt.month = 12;
+                    }
+                    dt.day = days_in_month(dt.year, dt.month);
+                }
+            } else if minutes >= 24 * 60 {
+                // next day
+                if dt.day < days_in_month(dt.year, dt.month) {
+                    dt.day += 1;
+                } else {
+                    dt.day = 1;
+                    if dt.month < 12 {
+                        dt.month += 1;
+                    } else {
+                        dt.month = 1;
+                        if dt.year == max_year {
+                            return Err(Error::InvalidDateTime);
+                        }
+                        dt.year += 1;
+                    }
+                }
+            }
+            let minutes = minutes.rem_euclid(24 * 60);
+            dt.hour = (minutes / 60) as u8;
+            dt.minute = (minutes % 60) as u8;
+            dt.tz = ASN1TimeZone::Z;
+        }
+        Ok(dt)
+    }
+
     #[cfg(feature = "datetime")]
     fn to_time_datetime(
         &self,
-- 
2.43.0


From ecc7fba3a1bf2cfddd546ca559889a824b0b12b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:54 +0000
Subject: [PATCH 33/80] fix: UtcTime::timestamp uses the adjusted year

---
 src/asn1_types/utctime.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index abb3d72..5a21ae5 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -129,10 +129,12 @@ impl UtcTime {
     }
 
     /// Returns the number of non-leap seconds since the midnight on January 1, 1970.
+    ///
+    /// The year is adjusted as in [`UtcTime::utc_adjusted_datetime`].
     #[cfg(feature = "datetime")]
     #[cfg_attr(docsrs, doc(cfg(feature = "datetime")))]
     pub fn timestamp(&self) -> Result<i64> {
-        let dt = self.0.to_datetime()?;
+        let dt = self.utc_adjusted_datetime()?;
         Ok(dt.unix_timestamp())
     }
 }
-- 
2.43.0


From 1539b3ff09b9eebd9163da71797c153383466623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:55 +0000
Subject: [PATCH 34/80] fix: GeneralizedTime DER decoders require seconds and a
 fraction without trailing zeroes

---
 src/asn1_types/generalizedtime.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 8a8119e..31d24fb 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -236,7 +236,16 @@ impl<'i> DerParser<'i> for GeneralizedTime {
             ));
         }
         // The seconds element shall always be present (X.690: 11.7.2)
-        // XXX
+        if !has_seconds(data.as_bytes2()) {
+            return Err(BerError::nom_err_input(
+                &data,
+                InnerError::DerConstraintFailed(DerConstraint::MissingSeconds),
+            ));
+        }
+        // The fractional-seconds elements, if present, shall omit all trailing zeroes (X.690: 11.7.3)
+        if has_trailing_zeroes(data.as_bytes2()) {
+            return Err(BerError::nom_err_input(&data, InnerError::InvalidDateTime));
+        }
         // The decimal point element, if present, shall be the point option "." (X.690: 11.7.4)
         if data.as_bytes2().contains(&b',') {
             return Err(BerError::nom_err_input(
@@ -251,6 +260,17 @@ impl<'i> DerParser<'i> for GeneralizedTime {
     }
 }
 
+/// Return true if time string has 2 digits for seconds after YYYYMMDDhhmm
+fn has_seconds(bytes: &[u8]) -> bool {
+    matches!(bytes.get(12..14), Some([b'0'..=b'9', b'0'..=b'9']))
+}
+
+/// Return true if time string has a fractional part ending with 0 (or without digits)
+fn has_trailing_zeroes(bytes: &[u8]) -> bool {
+    matches!(bytes, [.., b'.' | b',', b'Z'])
+        || (bytes.iter().any(|b| matches!(b, b'.' | b',')) && matches!(bytes, [.., b'0', b'Z']))
+}
+
 impl fmt::Display for GeneralizedTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let dt = &self.0;
@@ -290,7 +310,13 @@ impl CheckDerConstraints for GeneralizedTime {
             return Err(Error::DerConstraintFailed(DerConstraint::MissingTimeZone));
         }
         // X.690 section 11.7.2: The seconds element shall always be present.
-        // XXX
+        if !has_seconds(any.data.as_bytes2()) {
+            return Err(Error::DerConstraintFailed(DerConstraint::MissingSeconds));
+        }
+        // X.690 section 11.7.3: The fractional-seconds elements, if present, shall omit all trailing zeroes
+        if has_trailing_zeroes(any.data.as_bytes2()) {
+            return Err(Error::InvalidDateTime);
+        }
         // X.690 section 11.7.4: The decimal point element, if present, shall be the point option "."
         if any.data.as_bytes2().contains(&b',') {
             return Err(Error::DerConstraintFailed(DerConstraint::MissingSeconds));
-- 
2.43.0


From 255a485f0c3c325e7e21922ddbe9205558d5fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:08 +0000
Subject: [PATCH 35/80] fix: binary REAL values: long exponent form, 8-octet
 mantissas, zero mantissa and oversized exponents

---
 src/asn1_types/real.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index f28c756..4cfe637 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -213,7 +213,7 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         // binary encoding (X.690 section 8.5.6)
         // format of exponent
         let (n, rem) = match first & 0x03 {
-            4 => {
+            3 => {
                 let (b, rem) = rem
                     .split_first()
                     .ok_or_else(|| Error::Incomplete(Needed::new(1)))?;
@@ -221,13 +221,13 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
             }
             b => (b as usize + 1, rem),
         };
-        if n >= rem.len() {
+        if n == 0 || n >= rem.len() {
             return Err(InnerError::invalid_value(
                 header.tag,
                 "Invalid float value(exponent)",
             ));
         }
-        // n cannot be 0 (see the +1 above)
+        // n cannot be 0 (see the test above)
         let (eo, rem) = rem.split_at(n);
         // so 'eo' cannot be empty
         let mut e = if eo[0] & 0x80 != 0 { -1 } else { 0 };
@@ -256,35 +256,37 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         };
         let e = match b {
             // base 2
-            0 => e,
+            0 => Some(e),
             // base 8
-            1 => e * 3,
+            1 => e.checked_mul(3),
             // base 16
-            2 => e * 4,
+            2 => e.checked_mul(4),
             _ => return Err(InnerError::invalid_value(header.tag, "Illegal REAL base")),
         };
+        let e =
+            e.ok_or_else(|| InnerError::invalid_value(header.tag, "Exponent too large (REAL)"))?;
         if rem.len() > 8 {
             return Err(InnerError::invalid_value(
                 header.tag,
                 "Mantissa too large (REAL)",
             ));
         }
-        let mut p = 0;
+        let mut p: u64 = 0;
         for b in rem {
-            p = (p << 8) | (*b as i64);
+            p = (p << 8) | (*b as u64);
+        }
+        if p == 0 {
+            return Ok(Real::Zero);
         }
         // sign bit
-        let p = if first & 0x40 != 0 { -p } else { p };
-        // scale bits
-        let sf = (first >> 2) & 0x03;
-        let p = match sf {
-            0 => p as f64,
-            sf => {
-                // 2^sf: cannot overflow, sf is between 0 and 3
-                let scale = 2_f64.powi(sf as _);
-                (p as f64) * scale
-            }
+        let p = if first & 0x40 != 0 {
+            -(p as f64)
+        } else {
+            p as f64
         };
+        // scale bits: 2^sf cannot overflow, sf is between 0 and 3
+        let sf = (first >> 2) & 0x03;
+        let p = p * f64::from(1_u8 << sf);
         Ok(Real::Binary {
             mantissa: p,
             base: 2,
-- 
2.43.0


From 45e3971492421f8c92f48108e9afafcc1b29bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:34 +0000
Subject: [PATCH 36/80] fix: Real::f64 returns the correctly rounded value,
 including for small numbers

---
 src/asn1_types/real.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 4cfe637..fe8a8a1 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -136,9 +136,12 @@ impl Real {
                 exponent,
                 ..
             } => {
-                let f = mantissa;
-                let exp = (*base as f64).powi(*exponent);
-                f * exp
+                match *base {
+                    2 => mul_pow2(*mantissa, *exponent),
+                    // the conversion from decimal is correctly rounded
+                    10 => format!("{mantissa}e{exponent}").parse().unwrap_or(f64::NAN),
+                    base => mantissa * f64::from(base).powi(*exponent),
+                }
             }
             Real::Zero => 0.0_f64,
             Real::NaN => f64::NAN,
@@ -201,6 +204,26 @@ impl Tagged for Real {
     const TAG: Tag = Tag::RealType;
 }
 
+/// Return `f * 2^e`, rounded once
+fn mul_pow2(f: f64, e: i32) -> f64 {
+    // 2^1023 and 2^-969 (the latter leaves 53 bits before the subnormal numbers)
+    let large = f64::from_bits(2046 << 52);
+    let small = f64::from_bits((1023 - 969) << 52);
+    let (mut f, mut e) = (f, e);
+    // 3 steps are enough to get from the smallest to the largest values
+    for _ in 0..3 {
+        if e > 1023 {
+            f *= large;
+            e -= 1023;
+        } else if e < -1022 {
+            f *= small;
+            e += 969;
+        }
+    }
+    let e = e.clamp(-1022, 1023);
+    f * f64::from_bits(((1023 + e) as u64) << 52)
+}
+
 fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
     if bytes.is_empty() {
         return Ok(Real::Zero);
-- 
2.43.0


From e7a7d1d3018ad47620f9cff9f941bcab93e0fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:12 +0000
Subject: [PATCH 37/80] fix: Real::new does not lose or invent digits

---
 src/asn1_types/real.rs | 50 +++++++++++++-----------------------------
 1 file changed, 15 insertions(+), 35 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index fe8a8a1..047f78b 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -43,19 +43,24 @@ impl Real {
         } else if f.abs() == 0.0 {
             Self::Zero
         } else {
-            let mut e = 0;
-            let mut f = f;
-            while f.fract() != 0.0 {
-                f *= 10.0_f64;
-                e -= 1;
-            }
-            Real::Binary {
-                mantissa: f,
+            // shortest decimal form (for ex. "-1.25e-7") which gives back `f`
+            let s = format!("{f:e}");
+            let (digits, exponent) = s.split_once('e').unwrap_or((&s, "0"));
+            let fract_len = digits.split_once('.').map_or(0, |(_, fract)| fract.len());
+            let mantissa = digits.replace('.', "").parse().unwrap_or(f64::NAN);
+            let exponent = exponent.parse::<i32>().unwrap_or(0) - fract_len as i32;
+            let r = Real::Binary {
+                mantissa,
                 base: 10,
-                exponent: e,
+                exponent,
                 enc_base: 10,
+            };
+            // if the decimal mantissa has too many digits to be exact, use base 2
+            if r.f64() == f {
+                r
+            } else {
+                Real::binary(f, 2, 0)
             }
-            .normalize_base10()
         }
     }
 
@@ -76,31 +81,6 @@ impl Real {
         }
     }
 
-    fn normalize_base10(self) -> Self {
-        match self {
-            Real::Binary {
-                mantissa,
-                base: 10,
-                exponent,
-                enc_base: _enc_base,
-            } => {
-                let mut m = mantissa;
-                let mut e = exponent;
-                while m.abs() > f64::EPSILON && m.rem_euclid(10.0).abs() < f64::EPSILON {
-                    m /= 10.0;
-                    e += 1;
-                }
-                Real::Binary {
-                    mantissa: m,
-                    base: 10,
-                    exponent: e,
-                    enc_base: _enc_base,
-                }
-            }
-            _ => self,
-        }
-    }
-
     /// Create a new binary `REAL`
     #[inline]
     pub const fn binary(mantissa: f64, base: u32, exponent: i32) -> Self {
-- 
2.43.0


From dccec5c89e261e313de27dfef589b9e521a60e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 38/80] fix: binary REAL values are encoded exactly (exponent
 length and sign, base 8 and 16, large mantissas, zero)

---
 src/asn1_types/real.rs | 123 +++++++++++++++++------------------------
 1 file changed, 52 insertions(+), 71 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 047f78b..1be211a 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -377,6 +377,13 @@ const _: () = {
                     exponent,
                     enc_base: _enc_base,
                 } => {
+                    if !mantissa.is_finite() {
+                        return Err(Self::TAG.invalid_value("Invalid mantissa for REAL").into());
+                    }
+                    if *mantissa == 0.0 {
+                        // value zero has no content
+                        return Ok(0);
+                    }
                     if *base == 10 {
                         // using character form
                         let sign = if *exponent == 0 { "+" } else { "" };
@@ -389,68 +396,51 @@ const _: () = {
                     }
                     let mut first: u8 = 0x80;
                     // choose encoding base
-                    let enc_base = *_enc_base;
-                    let (ms, mut m, enc_base, mut e) =
-                        drop_floating_point(*mantissa, enc_base, *exponent);
-                    assert!(m != 0);
+                    let (ms, m, exp2) = decompose_mantissa(*mantissa);
                     if ms < 0 {
                         first |= 0x40
                     };
-                    // exponent & mantissa normalization
-                    match enc_base {
-                        2 => {
-                            while m & 0x1 == 0 {
-                                m >>= 1;
-                                e += 1;
-                            }
-                        }
+                    // the value is now `ms * m * 2^e`, and `m` is odd
+                    let e = i64::from(*exponent) + exp2;
+                    let log2_base = match *_enc_base {
+                        2 => 1,
                         8 => {
-                            while m & 0x7 == 0 {
-                                m >>= 3;
-                                e += 1;
-                            }
                             first |= 0x10;
+                            3
                         }
-                        _ /* 16 */ => {
-                            while m & 0xf == 0 {
-                                m >>= 4;
-                                e += 1;
-                            }
+                        16 => {
                             first |= 0x20;
+                            4
                         }
-                    }
-                    // scale factor
+                        _ => {
+                            return Err(Self::TAG
+                                .invalid_value("Invalid encoding base for REAL")
+                                .into())
+                        }
+                    };
+                    // scale factor (what the exponent of the encoding base cannot represent)
                     // XXX in DER, sf is always 0 (11.3.1)
-                    let mut sf = 0;
-                    while m & 0x1 == 0 && sf < 4 {
-                        m >>= 1;
-                        sf += 1;
-                    }
+                    let sf = e.rem_euclid(log2_base) as u8;
+                    let e = e.div_euclid(log2_base);
                     first |= sf << 2;
-                    // exponent length and bytes
-                    let len_e = match e.abs() {
-                        0..=0xff => 1,
-                        0x100..=0xffff => 2,
-                        0x1_0000..=0xff_ffff => 3,
-                        // e is an `i32` so it can't be longer than 4 bytes
-                        // use 4, so `first` is ORed with 3
-                        _ => 4,
-                    };
-                    first |= (len_e - 1) & 0x3;
-                    // write first byte
-                    target.write_all(&[first])?;
+                    // exponent bytes: shortest two's complement form
+                    let bytes = e.to_be_bytes();
+                    let mut len_e = bytes.len();
+                    while len_e > 1 && (e << (64 - 8 * (len_e - 1))) >> (64 - 8 * (len_e - 1)) == e
+                    {
+                        len_e -= 1;
+                    }
+                    let buf = &bytes[bytes.len() - len_e..];
                     let mut n = 1;
-                    // write exponent
-                    // special case: number of bytes from exponent is > 3 and cannot fit in 2 bits
-                    #[allow(clippy::identity_op)]
-                    if len_e == 4 {
-                        let b = len_e & 0xff;
-                        target.write_all(&[b])?;
+                    if len_e <= 3 {
+                        first |= len_e as u8 - 1;
+                        target.write_all(&[first])?;
+                    } else {
+                        // special case: number of bytes from exponent is > 3 and cannot fit in 2 bits
+                        first |= 3;
+                        target.write_all(&[first, len_e as u8])?;
                         n += 1;
                     }
-                    // we only need to write e.len() bytes
-                    let bytes = e.to_be_bytes();
-                    let buf = &bytes[(4 - len_e) as usize..];
                     target.write_all(buf)?;
                     n += buf.len();
                     // write mantissa
@@ -502,30 +492,21 @@ impl From<Real> for f64 {
     }
 }
 
+/// Decompose finite number `f` into sign `s`, odd integer `m` (or 0) and `e`, such that `f = s * m * 2^e`
 #[cfg(feature = "std")]
-fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i32) {
-    let ms = if m.is_sign_positive() { 1 } else { -1 };
-    let es = if e.is_positive() { 1 } else { -1 };
-    let mut m = m.abs();
-    let mut e = e;
-    //
-    if b == 8 {
-        m *= 2_f64.powi((e.abs() / 3) * es);
-        e = (e.abs() / 3) * es;
-    } else if b == 16 {
-        m *= 2_f64.powi((e.abs() / 4) * es);
-        e = (e.abs() / 4) * es;
-    }
-    //
-    while m.abs() > f64::EPSILON {
-        if m.fract() != 0.0 {
-            m *= b as f64;
-            e -= 1;
-        } else {
-            break;
-        }
+fn decompose_mantissa(f: f64) -> (i8, u64, i64) {
+    let bits = f.to_bits();
+    let ms = if f.is_sign_positive() { 1 } else { -1 };
+    let fract = bits & ((1 << 52) - 1);
+    let (m, e) = match (bits >> 52) & 0x7ff {
+        0 => (fract, -1074),
+        biased => (fract | (1 << 52), biased as i64 - 1075),
+    };
+    if m == 0 {
+        return (ms, 0, 0);
     }
-    (ms, m as u64, b, e)
+    let shift = m.trailing_zeros();
+    (ms, m >> shift, e + i64::from(shift))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 606e0106dbd7d0ccb805cebad5a432a55764b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:01 +0000
Subject: [PATCH 39/80] fix: decimal REAL values: negative and large NR1,
 decimal comma, leading spaces; only NR1 to NR3 characters are accepted

---
 src/asn1_types/real.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 1be211a..dfd496d 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -314,24 +314,32 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         }
     } else {
         // decimal encoding (X.690 section 8.5.7)
-        let s = alloc::str::from_utf8(rem)?;
-        match first & 0x03 {
-            0x1 => {
-                // NR1
-                match s.parse::<u32>() {
-                    Err(_) => Err(InnerError::invalid_value(header.tag,"Invalid float string encoding")),
-                    Ok(v) => Ok(Real::new(v.into())),
-                }
-            }
-            0x2 /* NR2 */ | 0x3 /* NR3 */=> {
-                match s.parse::<f64>() {
-                    Err(_) => Err(InnerError::invalid_value(header.tag,"Invalid float string encoding")),
-                    Ok(v) => Ok(Real::new(v)),
-                }
-                    }
+        let s = alloc::str::from_utf8(rem)?.trim_start_matches(' ');
+        let is_number = match first {
+            // NR1: integer
+            0x1 => s.bytes().all(|b| matches!(b, b'0'..=b'9' | b'+' | b'-')),
+            // NR2: no exponent
+            0x2 => s
+                .bytes()
+                .all(|b| matches!(b, b'0'..=b'9' | b'+' | b'-' | b'.' | b',')),
+            // NR3
+            0x3 => s
+                .bytes()
+                .all(|b| matches!(b, b'0'..=b'9' | b'+' | b'-' | b'.' | b',' | b'E' | b'e')),
             c => {
-                Err(InnerError::invalid_value(header.tag,&format!("Invalid NR ({c})")))
+                return Err(InnerError::invalid_value(
+                    header.tag,
+                    &format!("Invalid NR ({c})"),
+                ))
             }
+        };
+        // the decimal mark is either '.' or ','
+        match s.replace(',', ".").parse::<f64>() {
+            Ok(v) if is_number => Ok(Real::new(v)),
+            _ => Err(InnerError::invalid_value(
+                header.tag,
+                "Invalid float string encoding",
+            )),
         }
     }
 }
-- 
2.43.0


From 9cc8339cbf0f94a7ad88e405094bb56d8f5f3464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:10 +0000
Subject: [PATCH 40/80] fix: IMPLICIT tag on a tagged type is decoded (class
 and tag are checked when reading the header, not the content)

---
 src/asn1_types/tagged/explicit.rs | 36 ++++---------------------------
 src/asn1_types/tagged/implicit.rs | 26 ++++------------------
 2 files changed, 8 insertions(+), 54 deletions(-)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index 3900778..9c84925 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -63,23 +63,9 @@ where
             .assert_constructed_input(&input)
             .map_err(|e| Err::Error(e.into()))?;
 
-        // assert class
-        if header.class as u8 != CLASS {
-            // Safety: CLASS < 4
-            let class = Class::try_from(CLASS).unwrap_or(Class::Private);
-            return Err(Err::Error(
-                BerError::unexpected_class(input, Some(class), header.class).into(),
-            ));
-        }
+        // note: class and tag are checked by the caller (they can be different if this
+        // value is itself IMPLICIT tagged)
 
-        // note: we check tag here, because the only way to have a different tag
-        // would be to be IMPLICIT, and we already know we are EXPLICIT
-        // This is an exception!
-        if !Self::accept_tag(header.tag) {
-            return Err(Err::Error(
-                BerError::unexpected_tag(input, Some(TAG.into()), header.tag).into(),
-            ));
-        }
         // calling `parse_ber` will read a new header and parse object `T``
         // this will also check that T::TAG is expected
         let (rem, t) = T::parse_ber(input)?;
@@ -106,23 +92,9 @@ where
             .assert_constructed_input(&input)
             .map_err(|e| Err::Error(e.into()))?;
 
-        // assert class
-        if header.class as u8 != CLASS {
-            // Safety: CLASS < 4
-            let class = Class::try_from(CLASS).unwrap_or(Class::Private);
-            return Err(Err::Error(
-                BerError::unexpected_class(input, Some(class), header.class).into(),
-            ));
-        }
+        // note: class and tag are checked by the caller (they can be different if this
+        // value is itself IMPLICIT tagged)
 
-        // note: we check tag here, because the only way to have a different tag
-        // would be to be IMPLICIT, and we already know we are EXPLICIT
-        // This is an exception!
-        if !Self::accept_tag(header.tag) {
-            return Err(Err::Error(
-                BerError::unexpected_tag(input, Some(TAG.into()), header.tag).into(),
-            ));
-        }
         // calling `parse_ber` will read a new header and parse object `T``
         // this will also check that T::TAG is expected
         let (rem, t) = T::parse_der(input)?;
diff --git a/src/asn1_types/tagged/implicit.rs b/src/asn1_types/tagged/implicit.rs
index 68edc0c..0624da5 100644
--- a/src/asn1_types/tagged/implicit.rs
+++ b/src/asn1_types/tagged/implicit.rs
@@ -87,18 +87,9 @@ where
         header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
-        // assert class
-        if header.class as u8 != CLASS {
-            // Safety: CLASS < 4
-            let class = Class::try_from(CLASS).unwrap_or(Class::Private);
-            return Err(Err::Error(
-                BerError::unexpected_class(input, Some(class), header.class).into(),
-            ));
-        }
-
         // pass the same header to parse inner content
-        // note: we *know* that header.tag is most probably different from t::tag,
-        // so the tag is not checked here
+        // note: class and tag are checked by the caller. We *know* that header.tag is most
+        // probably different from t::tag, so the tag is not checked here
 
         let (rem, t) = T::from_ber_content(header, input)?;
         let tagged = TaggedValue::implicit(t);
@@ -118,18 +109,9 @@ where
         header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
-        // assert class
-        if header.class as u8 != CLASS {
-            // Safety: CLASS < 4
-            let class = Class::try_from(CLASS).unwrap_or(Class::Private);
-            return Err(Err::Error(
-                BerError::unexpected_class(input, Some(class), header.class).into(),
-            ));
-        }
-
         // pass the same header to parse inner content
-        // note: we *know* that header.tag is most probably different from t::tag,
-        // so the tag is not checked here
+        // note: class and tag are checked by the caller. We *know* that header.tag is most
+        // probably different from t::tag, so the tag is not checked here
 
         let (rem, t) = T::from_der_content(header, input)?;
         let tagged = TaggedValue::implicit(t);
-- 
2.43.0


From d892035c547c663ade25163a38f40970f50d00da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:32 +0000
Subject: [PATCH 41/80] fix: FromDer for Vec, SequenceOf and SetOf check the
 class and the constructed bit

---
 src/asn1_types/sequence/sequence_of.rs | 6 ++++++
 src/asn1_types/sequence/vec.rs         | 6 ++++++
 src/asn1_types/set/set_of.rs           | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/asn1_types/sequence/sequence_of.rs b/src/asn1_types/sequence/sequence_of.rs
index 922a042..afc678c 100644
--- a/src/asn1_types/sequence/sequence_of.rs
+++ b/src/asn1_types/sequence/sequence_of.rs
@@ -184,9 +184,15 @@ where
                     bytes,
                 )
                 .map_err(Err::convert)?;
+                any.header
+                    .assert_class(Self::CLASS)
+                    .map_err(|e| Err::Error(e.into()))?;
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/sequence/vec.rs b/src/asn1_types/sequence/vec.rs
index a626bb7..a26deb3 100644
--- a/src/asn1_types/sequence/vec.rs
+++ b/src/asn1_types/sequence/vec.rs
@@ -165,9 +165,15 @@ where
                     bytes,
                 )
                 .map_err(Err::convert)?;
+                any.header
+                    .assert_class(Self::CLASS)
+                    .map_err(|e| Err::Error(e.into()))?;
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let v = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 379fb03..1b94c72 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -186,9 +186,15 @@ where
             |bytes| {
                 let (rem, any) = trace(core::any::type_name::<Self>(), Any::from_der, bytes)
                     .map_err(Err::convert)?;
+                any.header
+                    .assert_class(Self::CLASS)
+                    .map_err(|e| Err::Error(e.into()))?;
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SetIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
-- 
2.43.0


From 986d2e08bc6568f18b3e4daa576b1f6a128aedf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:32 +0000
Subject: [PATCH 42/80] fix: tuples are not decoded from primitive sequences

---
 src/asn1_types/sequence/tuple.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/sequence/tuple.rs b/src/asn1_types/sequence/tuple.rs
index f6f6b35..e3db681 100644
--- a/src/asn1_types/sequence/tuple.rs
+++ b/src/asn1_types/sequence/tuple.rs
@@ -16,9 +16,13 @@ macro_rules! impl_parser_for_tuple {
             type Error = $error;
 
             fn from_ber_content(
-                _header: &'_ crate::Header<'i>,
+                header: &'_ crate::Header<'i>,
                 input: $crate::Input<'i>,
             ) -> nom::IResult<$crate::Input<'i>, Self, Self::Error> {
+                // Encoding shall be constructed (X.690: 8.9.1)
+                header
+                    .assert_constructed_input(&input)
+                    .map_err(|e| nom::Err::Error(e.into()))?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_ber(rem).map_err(nom::Err::convert)?;)*
                 Ok((rem, ($($parser),*,)))
@@ -35,9 +39,13 @@ macro_rules! impl_parser_for_tuple {
             type Error = $error;
 
             fn from_der_content(
-                _header: &'_ crate::Header<'i>,
+                header: &'_ crate::Header<'i>,
                 input: $crate::Input<'i>,
             ) -> nom::IResult<$crate::Input<'i>, Self, Self::Error> {
+                // Encoding shall be constructed (X.690: 8.9.1)
+                header
+                    .assert_constructed_input(&input)
+                    .map_err(|e| nom::Err::Error(e.into()))?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_der(rem).map_err(nom::Err::convert)?;)*
                 Ok((rem, ($($parser),*,)))
-- 
2.43.0


From bd194c9f099ee71131c5b713f6d965bb2c981b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:43 +0000
Subject: [PATCH 43/80] fix: SetOf, AnySequence and AnySet are constructed

---
 src/asn1_types/set/any_set.rs | 1 +
 src/asn1_types/set/set_of.rs  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/asn1_types/set/any_set.rs b/src/asn1_types/set/any_set.rs
index 9ac666e..90477c9 100644
--- a/src/asn1_types/set/any_set.rs
+++ b/src/asn1_types/set/any_set.rs
@@ -59,6 +59,7 @@ impl<'a, S: BuildHasher> AnySet<'a, S> {
 }
 
 impl<S> Tagged for AnySet<'_, S> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 1b94c72..16a6591 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -206,6 +206,7 @@ where
 }
 
 impl<T> Tagged for SetOf<T> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
-- 
2.43.0


From a558f4439cf4c56d4888e71197ba8e52a9f6e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:53 +0000
Subject: [PATCH 44/80] fix: DER encodings of SetOf, BTreeSet and AnySet are
 sorted

---
 src/asn1_types/set/any_set.rs  |  7 ++-----
 src/asn1_types/set/btreeset.rs |  5 +----
 src/asn1_types/set/set_of.rs   |  2 +-
 src/to_der.rs                  | 21 +++++++++++++++++++++
 4 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/asn1_types/set/any_set.rs b/src/asn1_types/set/any_set.rs
index 90477c9..d2c50fa 100644
--- a/src/asn1_types/set/any_set.rs
+++ b/src/asn1_types/set/any_set.rs
@@ -101,7 +101,7 @@ impl<'a, S: BuildHasher + Default> DerParser<'a> for AnySet<'a, S> {
 const _: () = {
     use std::io::Write;
 
-    use crate::{Class, Constructed, Length, SerializeResult, ToBer, ToDer};
+    use crate::{der_write_set_items, Class, Constructed, Length, SerializeResult, ToBer, ToDer};
 
     impl<S: BuildHasher> ToBer for AnySet<'_, S> {
         type Encoder = Constructed;
@@ -130,10 +130,7 @@ const _: () = {
         }
 
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.der_encode(target)?;
-                Ok(acc + sz)
-            })
+            der_write_set_items(self.iter(), target)
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/set/btreeset.rs b/src/asn1_types/set/btreeset.rs
index 0e51b8d..c0723e3 100644
--- a/src/asn1_types/set/btreeset.rs
+++ b/src/asn1_types/set/btreeset.rs
@@ -159,10 +159,7 @@ const _: () = {
         }
 
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.der_encode(target)?;
-                Ok(acc + sz)
-            })
+            der_write_set_items(self.iter(), target)
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 16a6591..441082d 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -244,7 +244,7 @@ const _: () = {
         }
 
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.items.der_write_content(target)
+            der_write_set_items(self.items.iter(), target)
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/to_der.rs b/src/to_der.rs
index 6b381e3..367de7a 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -269,3 +269,24 @@ where
 {
     iter.map(|t| t.der_total_len()).sum()
 }
+
+/// Write the DER encodings of the elements of a `SET OF`, in ascending order (X.690: 11.6)
+pub(crate) fn der_write_set_items<'a, T, IT, W>(iter: IT, target: &mut W) -> SerializeResult<usize>
+where
+    T: ToDer + 'a,
+    IT: Iterator<Item = &'a T>,
+    W: Write,
+{
+    let mut items = iter
+        .map(|t| {
+            let mut v = Vec::new();
+            t.der_encode(&mut v)?;
+            Ok(v)
+        })
+        .collect::<SerializeResult<Vec<_>>>()?;
+    items.sort();
+    items.iter().try_fold(0, |acc, item| {
+        target.write_all(item)?;
+        Ok(acc + item.len())
+    })
+}
-- 
2.43.0


From 38b64c0cda360f05c480915e432278e94c5f2613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 45/80] fix: FromDer for IMPLICIT tagged values checks the DER
 constraints of the value

---
 src/asn1_types/tagged/implicit.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asn1_types/tagged/implicit.rs b/src/asn1_types/tagged/implicit.rs
index 0624da5..6879df5 100644
--- a/src/asn1_types/tagged/implicit.rs
+++ b/src/asn1_types/tagged/implicit.rs
@@ -123,6 +123,7 @@ impl<'a, T, E, const CLASS: u8, const TAG: u32> FromDer<'a, E>
     for TaggedValue<T, E, Implicit, CLASS, TAG>
 where
     T: TryFrom<Any<'a>, Error = E>,
+    T: CheckDerConstraints,
     T: Tagged,
     E: From<Error>,
 {
@@ -145,6 +146,7 @@ where
             },
             data: any.data,
         };
+        T::check_constraints(&any).map_err(|e| Err::Error(e.into()))?;
         match T::try_from(any) {
             Ok(inner) => Ok((rem, TaggedValue::implicit(inner))),
             Err(e) => Err(Err::Error(e)),
-- 
2.43.0


From 84aafa475c97a5399d9fde862d3686ff553eca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:51 +0000
Subject: [PATCH 46/80] fix: content length of EXPLICIT tagged values is the
 total length of the inner value (which can be absent)

---
 src/asn1_types/tagged/explicit.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index 9c84925..1182bb0 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -151,9 +151,7 @@ const _: () = {
         type Encoder = BerGenericEncoder;
 
         fn ber_content_len(&self) -> Length {
-            let content_len = self.inner.ber_content_len();
-            let header_len = ber_header_length(self.inner.tag(), content_len).unwrap_or(0);
-            header_len + content_len
+            self.inner.ber_total_len()
         }
 
         fn ber_write_content<W: std::io::Write>(&self, target: &mut W) -> SerializeResult<usize> {
@@ -173,9 +171,7 @@ const _: () = {
         type Encoder = BerGenericEncoder;
 
         fn der_content_len(&self) -> Length {
-            let content_len = self.inner.der_content_len();
-            let header_len = ber_header_length(self.inner.tag(), content_len).unwrap_or(0);
-            header_len + content_len
+            self.inner.der_total_len()
         }
 
         fn der_write_content<W: std::io::Write>(&self, target: &mut W) -> SerializeResult<usize> {
-- 
2.43.0


From e8306abd84f6ae9cb6a67d17b4aec130272af4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:51 +0000
Subject: [PATCH 47/80] fix: only end-of-contents octets end the segments of a
 constructed string

---
 src/ber/appendable.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index ebbbfe7..feda0cc 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -1,7 +1,8 @@
 use nom::{Err, IResult, Input as _};
 
 use crate::{
-    Any, AnyIterator, BerError, BerMode, BerParser, DynTagged, Header, InnerError, Input, Tag,
+    Any, AnyIterator, BerError, BerMode, BerParser, Class, DynTagged, Header, InnerError, Input,
+    Tag,
 };
 
 use super::ber_get_content;
@@ -38,7 +39,11 @@ where
         let mut v = T::default();
         for res in AnyIterator::<BerMode>::new(data) {
             let (_, obj) = res.map_err(Err::Error)?;
-            if obj.header.tag() == Tag::EndOfContent {
+            if obj.header.class() == Class::Universal
+                && obj.header.tag() == Tag::EndOfContent
+                && obj.header.is_primitive()
+                && obj.data.is_empty()
+            {
                 break;
             }
             let Any {
-- 
2.43.0


From 4ae152916f7582fbe6ab2436066254918cca07a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:38 +0000
Subject: [PATCH 48/80] fix: EmbeddedPdv: the tag of the identification is
 EXPLICIT (CHOICE), and its class, the constructed bit and the NULL
 alternative are checked

---
 src/asn1_types/embedded_pdv.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 364fab3..17d6d2b 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -43,16 +43,29 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
     type Error = BerError<Input<'i>>;
 
     fn from_ber_content(
-        _header: &'_ Header<'i>,
+        header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
+        // Encoding shall be constructed (X.690: 8.18)
+        header
+            .assert_constructed_input(&input)
+            .map_err(Err::Error)?;
+
         // AUTOMATIC TAGS means all values will be tagged (IMPLICIT)
         // definition taken from <https://www.oss.com/asn1/products/documentation/asn1_java_8.7/api/toed/com/oss/asn1/EmbeddedPDV.html>
 
         // [0] -> identification
-        // this is a [0 IMPLICIT] SEQUENCE, so we can just parse it as Any and take the content
-        let (rem, t0) = TaggedImplicit::<Any, Self::Error, 0>::parse_ber(input)?;
+        // this is a CHOICE, so tag [0] is EXPLICIT: it contains the (tagged) alternative
+        let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::parse_ber(input)?;
         let inner0 = t0.into_inner();
+        if inner0.class() != Class::ContextSpecific {
+            let e = BerError::unexpected_class(
+                inner0.data,
+                Some(Class::ContextSpecific),
+                inner0.header.class(),
+            );
+            return Err(Err::Error(e));
+        }
         let identification = match inner0.tag() {
             Tag(0) => {
                 // syntaxes SEQUENCE {
@@ -103,6 +116,7 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             }
             Tag(5) => {
                 // fixed NULL
+                let _ = Null::from_ber_content(&inner0.header, inner0.data)?;
                 PdvIdentification::Fixed
             }
             _ => {
-- 
2.43.0


From d5d0d68ecf2969d06c48284521383ab12f7403fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:44 +0000
Subject: [PATCH 49/80] fix: DER decoding of EmbeddedPdv applies DER rules to
 its components

---
 src/asn1_types/embedded_pdv.rs | 52 ++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 17d6d2b..1b16e04 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -39,16 +39,12 @@ impl Tagged for EmbeddedPdv<'_> {
 
 impl_tryfrom_any!('i @ EmbeddedPdv<'i>);
 
-impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
-    type Error = BerError<Input<'i>>;
-
-    fn from_ber_content(
-        header: &'_ Header<'i>,
-        input: Input<'i>,
-    ) -> IResult<Input<'i>, Self, Self::Error> {
+/// Parse the content of an `EmbeddedPdv`, using the (BER or DER) functions of the inner types
+macro_rules! parse_pdv_content {
+    ($header:ident, $input:ident, $parse:ident, $from_content:ident) => {{
         // Encoding shall be constructed (X.690: 8.18)
-        header
-            .assert_constructed_input(&input)
+        $header
+            .assert_constructed_input(&$input)
             .map_err(Err::Error)?;
 
         // AUTOMATIC TAGS means all values will be tagged (IMPLICIT)
@@ -56,7 +52,7 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
 
         // [0] -> identification
         // this is a CHOICE, so tag [0] is EXPLICIT: it contains the (tagged) alternative
-        let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::parse_ber(input)?;
+        let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::$parse($input)?;
         let inner0 = t0.into_inner();
         if inner0.class() != Class::ContextSpecific {
             let e = BerError::unexpected_class(
@@ -74,8 +70,8 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
                 // },
                 let inner_data = inner0.data;
                 let (rem, t_abstract) =
-                    TaggedImplicit::<Oid, Self::Error, 0>::parse_ber(inner_data)?;
-                let (_, t_transfer) = TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
+                    TaggedImplicit::<Oid, Self::Error, 0>::$parse(inner_data)?;
+                let (_, t_transfer) = TaggedImplicit::<Oid, Self::Error, 1>::$parse(rem)?;
                 PdvIdentification::Syntaxes {
                     s_abstract: t_abstract.into_inner(),
                     s_transfer: t_transfer.into_inner(),
@@ -83,12 +79,12 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             }
             Tag(1) => {
                 // syntax OBJECT IDENTIFIER
-                let (_, oid) = Oid::from_ber_content(&inner0.header, inner0.data)?;
+                let (_, oid) = Oid::$from_content(&inner0.header, inner0.data)?;
                 PdvIdentification::Syntax(oid)
             }
             Tag(2) => {
                 // presentation-context-id INTEGER
-                let (_, i) = Integer::from_ber_content(&inner0.header, inner0.data)?;
+                let (_, i) = Integer::$from_content(&inner0.header, inner0.data)?;
                 PdvIdentification::PresentationContextId(i)
             }
             Tag(3) => {
@@ -98,9 +94,9 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
                 // },
                 let inner_data = inner0.data;
                 let (rem, t_presentation_context_id) =
-                    TaggedImplicit::<Integer, Self::Error, 0>::parse_ber(inner_data)?;
+                    TaggedImplicit::<Integer, Self::Error, 0>::$parse(inner_data)?;
                 let (_, t_presentation_syntax) =
-                    TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
+                    TaggedImplicit::<Oid, Self::Error, 1>::$parse(rem)?;
 
                 let presentation_context_id = t_presentation_context_id.into_inner();
                 let presentation_syntax = t_presentation_syntax.into_inner();
@@ -111,12 +107,12 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             }
             Tag(4) => {
                 // transfer-syntax OBJECT IDENTIFIER
-                let (_, oid) = Oid::from_ber_content(&inner0.header, inner0.data)?;
+                let (_, oid) = Oid::$from_content(&inner0.header, inner0.data)?;
                 PdvIdentification::TransferSyntax(oid)
             }
             Tag(5) => {
                 // fixed NULL
-                let _ = Null::from_ber_content(&inner0.header, inner0.data)?;
+                let _ = Null::$from_content(&inner0.header, inner0.data)?;
                 PdvIdentification::Fixed
             }
             _ => {
@@ -129,10 +125,10 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
         };
         // [1] -> data-value-descriptor ObjectDescriptor OPTIONAL
         // *BUT* WITH COMPONENTS data-value-descriptor ABSENT
-        let (rem, t1) = <Option<TaggedImplicit<ObjectDescriptor, Self::Error, 1>>>::parse_ber(rem)?;
+        let (rem, t1) = <Option<TaggedImplicit<ObjectDescriptor, Self::Error, 1>>>::$parse(rem)?;
         let data_value_descriptor = t1.map(|o| o.into_inner());
         // [2] -> data-value OCTET STRING
-        let (rem, t2) = TaggedImplicit::<&[u8], Self::Error, 2>::parse_ber(rem)?;
+        let (rem, t2) = TaggedImplicit::<&[u8], Self::Error, 2>::$parse(rem)?;
         let data_value = t2.into_inner();
 
         let obj = EmbeddedPdv {
@@ -141,6 +137,17 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             data_value,
         };
         Ok((rem, obj))
+    }};
+}
+
+impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
+    type Error = BerError<Input<'i>>;
+
+    fn from_ber_content(
+        header: &'_ Header<'i>,
+        input: Input<'i>,
+    ) -> IResult<Input<'i>, Self, Self::Error> {
+        parse_pdv_content!(header, input, parse_ber, from_ber_content)
     }
 }
 
@@ -151,7 +158,7 @@ impl<'i> DerParser<'i> for EmbeddedPdv<'i> {
         header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
-        Self::from_ber_content(header, input)
+        parse_pdv_content!(header, input, parse_der, from_der_content)
     }
 }
 
@@ -159,6 +166,9 @@ impl CheckDerConstraints for EmbeddedPdv<'_> {
     fn check_constraints(any: &Any) -> Result<()> {
         any.header.length().assert_definite()?;
         any.header.assert_constructed()?;
+        // components must also follow DER rules
+        let _ = EmbeddedPdv::from_der_content(&any.header, any.data.clone())
+            .map_err(Error::from_nom_berr)?;
         Ok(())
     }
 }
-- 
2.43.0


From 534244af1e60d72a941ebaccd6f1153045f9547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:01 +0000
Subject: [PATCH 50/80] fix: SequenceIteratorInput checks the tag of elements

---
 src/asn1_types/sequence/iterator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asn1_types/sequence/iterator.rs b/src/asn1_types/sequence/iterator.rs
index 122867b..abaa01d 100644
--- a/src/asn1_types/sequence/iterator.rs
+++ b/src/asn1_types/sequence/iterator.rs
@@ -142,6 +142,9 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_header(&any.header) => Some(Err(
+                BerError::unexpected_tag(any.data, None, any.header.tag()).into(),
+            )),
             Some(Ok((_, any))) => match T::from_ber_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
@@ -173,6 +176,9 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_header(&any.header) => Some(Err(
+                BerError::unexpected_tag(any.data, None, any.header.tag()).into(),
+            )),
             Some(Ok((_, any))) => match T::from_der_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
-- 
2.43.0


From c2315c61ab5202a7b3d5f7ee7fb2efd106d88b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:19 +0000
Subject: [PATCH 51/80] fix: Any::iter_elements uses the requested mode

---
 src/asn1_types/any.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 5a48c4c..aafe42e 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -137,8 +137,8 @@ impl<'a> Any<'a> {
     ///
     /// This makes sense only if `Self` is constructed, but the constructed bit is
     /// _not_ checked by this function.
-    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, BerMode> {
-        AnyIterator::<BerMode>::new(self.data.clone())
+    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, Mode> {
+        AnyIterator::<Mode>::new(self.data.clone())
     }
 }
 
-- 
2.43.0


From 41038642e9ea6467a4c227c9358d0f56c5cd5878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:19 +0000
Subject: [PATCH 52/80] fix: derived SEQUENCE and SET: FromDer and TryFrom
 check the class and the constructed bit

---
 derive/src/container.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 27f5a6d..9799752 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -186,6 +186,7 @@ impl Container {
                 use asn1_rs::nom::*;
                 any.class().assert_eq(Self::CLASS)?;
                 any.tag().assert_eq(Self::TAG)?;
+                any.header.assert_constructed()?;
 
                 // no need to parse sequence, we already have content
                 let i = any.data.as_bytes2();
@@ -483,7 +484,9 @@ impl Container {
         } else {
             quote! {
                 let (rem, any) = asn1_rs::Any::from_der(bytes).map_err(asn1_rs::nom::Err::convert)?;
+                any.header.assert_class(Self::CLASS).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                 any.header.assert_tag(Self::TAG).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
+                any.header.assert_constructed().map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                 let i = any.data.as_bytes2();
                 //
                 #parse_content
-- 
2.43.0


From c23928b52dbc38bd4848aa5a9efa3e602d9e817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:21 +0000
Subject: [PATCH 53/80] fix: derived SEQUENCE and SET: absence of a tagged
 OPTIONAL field is decided on class and tag

---
 derive/src/container.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 9799752..feacc8f 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -886,7 +886,7 @@ fn get_field_parser(f: &FieldInfo, asn1_type: Asn1Type, custom_errors: bool) ->
                         (i, None)
                     } else {
                         let (_, header): (_, asn1_rs::Header) = #from(i)#map_err?;
-                        if header.tag().0 == #tag {
+                        if header.class() as u8 == #class && header.tag().0 == #tag {
                             let (i, t): (_, asn1_rs::TaggedValue::<_, _, #tag_kind, {#class}, #tag>) = #from(i)#map_err?;
                             (i, Some(t.into_inner()))
                         } else {
@@ -983,7 +983,7 @@ fn get_field_berparser(f: &FieldInfo, asn1_type: Asn1Type) -> TokenStream {
                         // clone rem, #map_err may consume it
                         let rem_copy = rem.clone();
                         let (_, obj_header): (_, asn1_rs::Header) = #from(rem_copy)#map_err?;
-                        if obj_header.tag().0 == #tag {
+                        if obj_header.class() as u8 == #class && obj_header.tag().0 == #tag {
                             let (rem, t): (_, asn1_rs::TaggedValue::<
                                 _,
                                 <#f_ty as asn1_rs::#parser>::Error,
-- 
2.43.0


From 51a8c17ab41d7445f617f30e8930d4e5d3eb03c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:23 +0000
Subject: [PATCH 54/80] fix: derived SEQUENCE and SET: announced length of
 absent tagged fields, and of implicit tags

---
 derive/src/container.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index feacc8f..3094c17 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -534,8 +534,11 @@ impl Container {
                     let tag = u32::from(tag);
                     quote! {
                         #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#total_len()
+                            + match #bi.#total_len() {
+                                // absent value, there is no tag
+                                asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                                len => asn1_rs::ber_header_length(asn1_rs::Tag(#tag), len).unwrap_or_default() + len,
+                            }
                     }
                 }
                 Some((Asn1TagKind::Implicit, _class, tag)) => {
@@ -545,8 +548,14 @@ impl Container {
                     let tag = u32::from(tag);
                     quote! {
                         #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#content_len()
+                            + match #bi.#total_len() {
+                                // absent value, there is no tag
+                                asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                                _ => {
+                                    let len = #bi.#content_len();
+                                    asn1_rs::ber_header_length(asn1_rs::Tag(#tag), len).unwrap_or_default() + len
+                                }
+                            }
                     }
                 }
                 None => quote! {
-- 
2.43.0


From c4c73580a6b91756108292a9b88c663ee374cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:01 +0000
Subject: [PATCH 55/80] fix: derived aliases: constructed bit of the aliased
 type, class and DER constraints in FromDer

---
 derive/src/container.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 3094c17..095fbaa 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -214,11 +214,10 @@ impl Container {
     }
 
     pub fn gen_tagged(&self) -> TokenStream {
-        let mut constructed = true;
+        let mut constructed = quote! { true };
         let class;
         let tag;
         if self.container_type == ContainerType::Alias {
-            constructed = false;
             // special case: is this an alias for Any
             if self.is_any {
                 return quote! {
@@ -245,6 +244,7 @@ impl Container {
             // find type of sub-item
             let ty = &self.fields[0].type_;
             class = quote! { <#ty as asn1_rs::Tagged>::CLASS };
+            constructed = quote! { <#ty as asn1_rs::Tagged>::CONSTRUCTED };
             tag = quote! { <#ty as asn1_rs::Tagged>::TAG };
         } else {
             let container_type = self.container_type;
@@ -476,7 +476,9 @@ impl Container {
             } else {
                 quote! {
                     let (rem, any) = asn1_rs::Any::from_der(bytes).map_err(asn1_rs::nom::Err::convert)?;
+                    any.header.assert_class(Self::CLASS).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                     any.header.assert_tag(Self::TAG).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
+                    <Self as asn1_rs::CheckDerConstraints>::check_constraints(&any).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                     let res = TryFrom::try_from(any)?;
                     Ok((rem,Self(res)))
                 }
-- 
2.43.0


From 397f539c78deafd30ab1f1a5183caaf869e0fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 56/80] fix: derived CheckDerConstraints handles OPTIONAL,
 DEFAULT and tagged fields, and the constructed bit

---
 derive/src/container.rs | 81 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 9 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 095fbaa..6572b64 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -5,8 +5,8 @@ use quote::{quote, ToTokens};
 use syn::parse::ParseStream;
 use syn::spanned::Spanned;
 use syn::{
-    parse_quote, Attribute, DataStruct, DeriveInput, Expr, Field, Fields, Ident, Lifetime, LitInt,
-    LitStr, Meta, Type, WherePredicate,
+    parse_quote, Attribute, DataStruct, DeriveInput, Expr, Field, Fields, GenericArgument, Ident,
+    Lifetime, LitInt, LitStr, Meta, PathArguments, Type, WherePredicate,
 };
 
 use crate::asn1_type::Asn1Type;
@@ -425,19 +425,17 @@ impl Container {
             let check_fields: Vec<_> = self
                 .fields
                 .iter()
-                .map(|field| {
-                    let ty = &field.type_;
-                    quote! {
-                        let (rem, any) = Any::from_der(rem)?;
-                        <#ty as CheckDerConstraints>::check_constraints(&any)?;
-                    }
-                })
+                // content of fields with a custom parser is unknown
+                .take_while(|field| field.parse.is_none())
+                .map(check_field_constraints)
                 .collect();
             quote! {
                 any.class().assert_eq(Self::CLASS)?;
                 any.tag().assert_eq(Self::TAG)?;
+                any.header.assert_constructed()?;
                 let rem = any.data.as_bytes2();
                 #(#check_fields)*
+                let _ = rem;
                 Ok(())
             }
         };
@@ -937,6 +935,71 @@ fn derive_berparser_sequence_content(fields: &[FieldInfo], asn1_type: Asn1Type)
     }
 }
 
+/// Return `T` if type is `Option<T>`
+fn option_inner_type(ty: &Type) -> Option<&Type> {
+    if let Type::Path(path) = ty {
+        let segment = path.path.segments.last()?;
+        if let (true, PathArguments::AngleBracketed(args)) =
+            (segment.ident == "Option", &segment.arguments)
+        {
+            if let Some(GenericArgument::Type(inner)) = args.args.first() {
+                return Some(inner);
+            }
+        }
+    }
+    None
+}
+
+/// Check the DER constraints of a field, starting at `rem`. If the field is present, `rem` is
+/// updated to point after the field.
+fn check_field_constraints(field: &FieldInfo) -> TokenStream {
+    let inner_type = option_inner_type(&field.type_);
+    let optional = field.optional || inner_type.is_some();
+    let ty = inner_type.unwrap_or(&field.type_);
+
+    let check = match field.tag {
+        Some((Asn1TagKind::Explicit, ..)) => quote! {
+            any.header.assert_constructed()?;
+            let (_, any) = Any::from_der(any.data.as_bytes2())?;
+            <#ty as CheckDerConstraints>::check_constraints(&any)?;
+        },
+        Some((Asn1TagKind::Implicit, ..)) => quote! {
+            let header = any.header.clone().with_class(<#ty as Tagged>::CLASS).with_tag(<#ty as Tagged>::TAG);
+            let any = Any::new(header, any.data.clone());
+            <#ty as CheckDerConstraints>::check_constraints(&any)?;
+        },
+        None => quote! {
+            <#ty as CheckDerConstraints>::check_constraints(&any)?;
+        },
+    };
+    if !optional {
+        return quote! {
+            let (rem, any) = Any::from_der(rem)?;
+            #check
+        };
+    }
+    let is_present = match field.tag {
+        Some((_, class, n)) => {
+            let tag = Literal::u16_unsuffixed(n);
+            quote! { any.class() as u8 == #class && any.tag().0 == #tag }
+        }
+        None => quote! { <#ty as asn1_rs::DynTagged>::accept_header(&any.header) },
+    };
+    quote! {
+        let rem = if rem.is_empty() {
+            rem
+        } else {
+            let (after, any) = Any::from_der(rem)?;
+            if #is_present {
+                #check
+                after
+            } else {
+                rem
+            }
+        };
+    }
+}
+
 fn get_field<'a>(fields: &'a [FieldInfo], ident: Option<&Ident>) -> Option<&'a FieldInfo> {
     let ident = if let Some(ident) = ident {
         ident
-- 
2.43.0


From a079feecd02a7db506e81a95c13ad81a96c1d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 57/80] fix: DER constraints of EXPLICIT tagged values reject
 indefinite-length contents

---
 src/asn1_types/tagged/explicit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index 1182bb0..7d23433 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -135,7 +135,7 @@ where
 {
     fn check_constraints(any: &Any) -> Result<()> {
         any.header.length.assert_definite()?;
-        let (_, inner) = Any::from_ber(any.data.as_bytes2())?;
+        let (_, inner) = Any::from_der(any.data.as_bytes2())?;
         T::check_constraints(&inner)?;
         Ok(())
     }
-- 
2.43.0


From 0452f4b7e0e1d154c3daec7c3d9ba0535aded982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 58/80] fix: UTCTime DER decoders require the seconds element

---
 src/asn1_types/utctime.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 5a21ae5..acaec23 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -193,12 +193,25 @@ impl<'i> DerParser<'i> for UtcTime {
 
         let (rem, data) = input.take_split(input.len());
 
+        // The seconds element shall always be present (X.690: 11.8.2)
+        if !has_seconds(data.as_bytes2()) {
+            return Err(BerError::nom_err_input(
+                &data,
+                InnerError::DerConstraintFailed(DerConstraint::MissingSeconds),
+            ));
+        }
+
         let time = UtcTime::from_bytes(data.as_bytes2())
             .map_err(|e| BerError::nom_err_input(&data, e.into()))?;
         Ok((rem, time))
     }
 }
 
+/// Return `true` if the seconds element is present (`YYMMDDhhmmss` before the time zone)
+fn has_seconds(bytes: &[u8]) -> bool {
+    bytes.iter().take_while(|b| b.is_ascii_digit()).count() >= 12
+}
+
 impl fmt::Display for UtcTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let dt = &self.0;
@@ -226,7 +239,11 @@ impl fmt::Display for UtcTime {
 }
 
 impl CheckDerConstraints for UtcTime {
-    fn check_constraints(_any: &Any) -> Result<()> {
+    fn check_constraints(any: &Any) -> Result<()> {
+        // X.690 section 11.8.2
+        if !has_seconds(any.as_bytes()) {
+            return Err(Error::DerConstraintFailed(DerConstraint::MissingSeconds));
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 3fdef018f8aeef7378ff1422a26f1b641b35e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:24 +0000
Subject: [PATCH 59/80] fix: EmbeddedPdv: SEQUENCE alternatives of the
 identification are constructed

---
 src/asn1_types/embedded_pdv.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 1b16e04..b386333 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -68,6 +68,10 @@ macro_rules! parse_pdv_content {
                 //     abstract OBJECT IDENTIFIER,
                 //     transfer OBJECT IDENTIFIER
                 // },
+                inner0
+                    .header
+                    .assert_constructed_input(&inner0.data)
+                    .map_err(Err::Error)?;
                 let inner_data = inner0.data;
                 let (rem, t_abstract) =
                     TaggedImplicit::<Oid, Self::Error, 0>::$parse(inner_data)?;
@@ -92,6 +96,10 @@ macro_rules! parse_pdv_content {
                 //     presentation-context-id INTEGER,
                 //     transfer-syntax OBJECT IDENTIFIER
                 // },
+                inner0
+                    .header
+                    .assert_constructed_input(&inner0.data)
+                    .map_err(Err::Error)?;
                 let inner_data = inner0.data;
                 let (rem, t_presentation_context_id) =
                     TaggedImplicit::<Integer, Self::Error, 0>::$parse(inner_data)?;
-- 
2.43.0


From 8eb6677529796ffe12d3a18325d83814a303b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:44 +0000
Subject: [PATCH 60/80] fix: Any::relative_oid must check class, form and
 contents of the RELATIVE-OID

---
 src/asn1_types/any.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index aafe42e..3165b23 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -2,7 +2,6 @@ use crate::ber::*;
 use crate::debug::trace_input;
 use crate::Input;
 use crate::*;
-use alloc::borrow::Cow;
 #[cfg(not(feature = "std"))]
 use alloc::string::{String, ToString};
 use core::convert::TryFrom;
@@ -306,9 +305,9 @@ impl<'a> Any<'a> {
     impl_any_into!(real => Real, "REAL");
     /// Attempt to convert object to `Oid` (ASN.1 type: `RELATIVE-OID`).
     pub fn relative_oid(self) -> Result<Oid<'a>> {
+        self.header.assert_class(Class::Universal)?;
         self.header.assert_tag(Tag::RelativeOid)?;
-        let asn1 = Cow::Borrowed(self.data.into_bytes());
-        Ok(Oid::new_relative(asn1))
+        self.oid()
     }
     impl_any_into!(printablestring => PrintableString<'a>, "PrintableString");
     // XXX REAL
@@ -354,9 +353,9 @@ impl<'a> Any<'a> {
     impl_any_as!(as_real => Real, "REAL");
     /// Attempt to create ASN.1 type `RELATIVE-OID` from this object.
     pub fn as_relative_oid(&'a self) -> Result<Oid<'a>> {
+        self.header.assert_class(Class::Universal)?;
         self.header.assert_tag(Tag::RelativeOid)?;
-        let asn1 = Cow::Borrowed(self.data.as_bytes2());
-        Ok(Oid::new_relative(asn1))
+        self.as_oid()
     }
     impl_any_as!(as_printablestring => PrintableString<'_>, "PrintableString");
     impl_any_as!(as_sequence => Sequence<'_>, "SEQUENCE");
-- 
2.43.0


From f988b8f63db27d9117f6f8509a2ddd0b1a444a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 61/80] fix: Any::as_any_str and as_any_string must not return
 segment headers as text

---
 src/asn1_types/any.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 3165b23..42f4ecb 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -426,6 +426,8 @@ impl<'a> Any<'a> {
             | Tag::Utf8String
             | Tag::VideotexString
             | Tag::VisibleString => {
+                // if constructed, the value is split in segments: it cannot be borrowed
+                self.header.assert_primitive()?;
                 let res = core::str::from_utf8(self.data.as_bytes2())?;
                 Ok(res)
             }
@@ -438,6 +440,30 @@ impl<'a> Any<'a> {
     /// This function allocates data
     pub fn as_any_string(&self) -> Result<String> {
         match self.tag() {
+            // constructed forms: the value is the concatenation of the segments
+            Tag::GeneralString if self.header.is_constructed() => {
+                Ok(self.as_generalstring()?.string())
+            }
+            Tag::GraphicString if self.header.is_constructed() => {
+                Ok(self.as_graphicstring()?.string())
+            }
+            Tag::Ia5String if self.header.is_constructed() => Ok(self.as_ia5string()?.string()),
+            Tag::NumericString if self.header.is_constructed() => {
+                Ok(self.as_numericstring()?.string())
+            }
+            Tag::PrintableString if self.header.is_constructed() => {
+                Ok(self.as_printablestring()?.string())
+            }
+            Tag::T61String if self.header.is_constructed() => {
+                Ok(self.as_teletexstring()?.string())
+            }
+            Tag::Utf8String if self.header.is_constructed() => Ok(self.as_utf8string()?.string()),
+            Tag::VideotexString if self.header.is_constructed() => {
+                Ok(self.as_videotexstring()?.string())
+            }
+            Tag::VisibleString if self.header.is_constructed() => {
+                Ok(self.as_visiblestring()?.string())
+            }
             Tag::GeneralString
             | Tag::GraphicString
             | Tag::Ia5String
-- 
2.43.0


From 042f24d197c1b60e80c01661b1716b55bc509b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:39 +0000
Subject: [PATCH 62/80] fix: reject empty RELATIVE-OID contents in
 from_ber_relative and from_der_relative

---
 src/asn1_types/oid.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 7e6294a..ff6cd3f 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -138,6 +138,10 @@ const _: () = {
 
 /// Check that all sub-identifiers are complete, and use the fewest possible octets (X.690: 8.19.2)
 fn check_sub_identifiers(bytes: &[u8]) -> Result<(), InnerError> {
+    // A value has at least one sub-identifier (X.690: 8.19.2, 8.20.2)
+    if bytes.is_empty() {
+        return Err(InnerError::InvalidLength);
+    }
     let mut at_start = true;
     for b in bytes {
         if at_start && *b == 0x80 {
-- 
2.43.0


From 7d9b11e478f33cfd1da2d5e8b20c1cbee952417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:09 +0000
Subject: [PATCH 63/80] fix: do not stop at end-of-contents inside
 definite-length constructed strings

---
 src/ber/appendable.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index feda0cc..aed0738 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -39,7 +39,9 @@ where
         let mut v = T::default();
         for res in AnyIterator::<BerMode>::new(data) {
             let (_, obj) = res.map_err(Err::Error)?;
-            if obj.header.class() == Class::Universal
+            // end-of-contents only terminates an indefinite-length encoding
+            if !header.length.is_definite()
+                && obj.header.class() == Class::Universal
                 && obj.header.tag() == Tag::EndOfContent
                 && obj.header.is_primitive()
                 && obj.data.is_empty()
-- 
2.43.0


From 054785b437ede55f460a526153a34463e0f23738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:09 +0000
Subject: [PATCH 64/80] fix: reject GeneralizedTime with a decimal sign but no
 fraction digits before the time zone

---
 src/asn1_types/generalizedtime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 31d24fb..cf3c9f9 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -104,7 +104,7 @@ impl GeneralizedTime {
                             // cannot overflow, max 4 digits will be read
                             fsecond = fsecond * 10 + (rem[0] - b'0') as u16;
                         }
-                        b'Z' | b'+' | b'-' => {
+                        b'Z' | b'+' | b'-' if idx > 0 => {
                             digits = idx;
                             break;
                         }
-- 
2.43.0


From 0449d48d20255599229956ff703df56d922f4be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:09 +0000
Subject: [PATCH 65/80] fix: accept GeneralizedTime local time without seconds
 (YYYYMMDDhhmm) in BER

---
 src/asn1_types/generalizedtime.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index cf3c9f9..4e257f2 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -37,9 +37,6 @@ impl GeneralizedTime {
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string (not yymmddhhmm)")),
         };
-        if rem.is_empty() {
-            return Err(Self::TAG.invalid_value("malformed time string"));
-        }
         // check for seconds
         let (second, rem) = match rem {
             // no seconds, only a time zone
-- 
2.43.0


From 683ee27327829153a5e2977e0495b9422130ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:19 +0000
Subject: [PATCH 66/80] fix: convert UtcTime offsets with full years, so
 carries across 1950/2000/2050 are correct

---
 src/asn1_types/utctime.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index acaec23..1e3410b 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -271,11 +271,26 @@ const _: () = {
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            let dt = self.0.to_utc(99)?;
+            // the year is stored with two digits: use the full year (1950 to 2049) to convert,
+            // so a carry from the time zone is correct for all years
+            let mut dt = self.0.clone();
+            if dt.year > 99 {
+                return Err(Error::InvalidDateTime.into());
+            }
+            dt.year += if dt.year >= 50 { 1900 } else { 2000 };
+            let dt = dt.to_utc(2049)?;
+            if dt.year < 1950 {
+                return Err(Error::InvalidDateTime.into());
+            }
             write!(
                 target,
                 "{:02}{:02}{:02}{:02}{:02}{:02}Z",
-                dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second,
+                dt.year % 100,
+                dt.month,
+                dt.day,
+                dt.hour,
+                dt.minute,
+                dt.second,
             )?;
             // write_fmt returns (), see above for length value
             Ok(13)
-- 
2.43.0


From ceacc52d20d55bb93a96bc0f46a16749c8ad82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:44 +0000
Subject: [PATCH 67/80] fix: only the two octets 00 00 end the segments of a
 constructed string

---
 src/ber/appendable.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index aed0738..4466016 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -45,6 +45,7 @@ where
                 && obj.header.tag() == Tag::EndOfContent
                 && obj.header.is_primitive()
                 && obj.data.is_empty()
+                && obj.header.raw_header().map_or(true, |raw| raw.len() == 2)
             {
                 break;
             }
-- 
2.43.0


From 202f5b53db3dcd5458897f5d33b5aab563dd9c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:44 +0000
Subject: [PATCH 68/80] fix: reject four fraction digits in GeneralizedTime
 without time zone

---
 src/asn1_types/generalizedtime.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 4e257f2..3e0b42d 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -81,6 +81,11 @@ impl GeneralizedTime {
                 let mut rem = rem;
                 let mut digits = 0;
                 for idx in 0..=4 {
+                    if idx == 4 {
+                        return Err(
+                            Self::TAG.invalid_value("malformed time string (invalid milliseconds)")
+                        );
+                    }
                     if rem.is_empty() {
                         if idx == 0 {
                             // dot or comma, but no following digit
@@ -91,11 +96,6 @@ impl GeneralizedTime {
                         digits = idx;
                         break;
                     }
-                    if idx == 4 {
-                        return Err(
-                            Self::TAG.invalid_value("malformed time string (invalid milliseconds)")
-                        );
-                    }
                     match rem[0] {
                         b'0'..=b'9' => {
                             // cannot overflow, max 4 digits will be read
-- 
2.43.0


From 05deb0c92e09358402c6aba6e42867a81d9e3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 69/80] fix: reject constructed EndOfContent

---
 src/asn1_types/end_of_content.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asn1_types/end_of_content.rs b/src/asn1_types/end_of_content.rs
index df114c9..5968c32 100644
--- a/src/asn1_types/end_of_content.rs
+++ b/src/asn1_types/end_of_content.rs
@@ -34,6 +34,8 @@ impl<'i> BerParser<'i> for EndOfContent {
         header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
+        // End-of-contents is the primitive encoding 00 00 (X.690: 8.1.5)
+        header.assert_primitive_input(&input).map_err(Err::Error)?;
         if !header.length.is_null() {
             return Err(Err::Error(BerError::new(input, InnerError::InvalidLength)));
         }
-- 
2.43.0


From 519a7808013295a4f87db698f8cc8588c9ce11a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 70/80] fix: SequenceIteratorInput must not yield more items
 after an error

---
 src/asn1_types/sequence/iterator.rs | 50 +++++++++++++++++------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/asn1_types/sequence/iterator.rs b/src/asn1_types/sequence/iterator.rs
index abaa01d..5de15ce 100644
--- a/src/asn1_types/sequence/iterator.rs
+++ b/src/asn1_types/sequence/iterator.rs
@@ -114,6 +114,7 @@ where
     Mode: ASN1Mode,
 {
     iter: AnyIterator<'a, Mode>,
+    has_error: bool,
     t: PhantomData<*const T>,
     e: PhantomData<*const E>,
 }
@@ -126,6 +127,7 @@ where
         let iter = AnyIterator::new(input);
         Self {
             iter,
+            has_error: false,
             t: PhantomData,
             e: PhantomData,
         }
@@ -141,12 +143,15 @@ where
     type Item = Result<T, E>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.iter.next() {
-            Some(Ok((_, any))) if !T::accept_header(&any.header) => Some(Err(
-                BerError::unexpected_tag(any.data, None, any.header.tag()).into(),
-            )),
-            Some(Ok((_, any))) => match T::from_ber_content(&any.header, any.data) {
-                Ok((_, obj)) => Some(Ok(obj)),
+        if self.has_error {
+            return None;
+        }
+        let item = match self.iter.next()? {
+            Ok((_, any)) if !T::accept_header(&any.header) => {
+                Err(BerError::unexpected_tag(any.data, None, any.header.tag()).into())
+            }
+            Ok((_, any)) => match T::from_ber_content(&any.header, any.data) {
+                Ok((_, obj)) => Ok(obj),
                 Err(e) => {
                     let e = match e {
                         nom::Err::Error(e) | nom::Err::Failure(e) => e.into(),
@@ -156,12 +161,13 @@ where
                             BerError::incomplete(input, n).into()
                         }
                     };
-                    Some(Err(e))
+                    Err(e)
                 }
             },
-            Some(Err(e)) => Some(Err(e.into())),
-            None => None,
-        }
+            Err(e) => Err(e.into()),
+        };
+        self.has_error = item.is_err();
+        Some(item)
     }
 }
 
@@ -175,12 +181,15 @@ where
     type Item = Result<T, E>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.iter.next() {
-            Some(Ok((_, any))) if !T::accept_header(&any.header) => Some(Err(
-                BerError::unexpected_tag(any.data, None, any.header.tag()).into(),
-            )),
-            Some(Ok((_, any))) => match T::from_der_content(&any.header, any.data) {
-                Ok((_, obj)) => Some(Ok(obj)),
+        if self.has_error {
+            return None;
+        }
+        let item = match self.iter.next()? {
+            Ok((_, any)) if !T::accept_header(&any.header) => {
+                Err(BerError::unexpected_tag(any.data, None, any.header.tag()).into())
+            }
+            Ok((_, any)) => match T::from_der_content(&any.header, any.data) {
+                Ok((_, obj)) => Ok(obj),
                 Err(e) => {
                     let e = match e {
                         nom::Err::Error(e) | nom::Err::Failure(e) => e.into(),
@@ -190,12 +199,13 @@ where
                             BerError::incomplete(input, n).into()
                         }
                     };
-                    Some(Err(e))
+                    Err(e)
                 }
             },
-            Some(Err(e)) => Some(Err(e.into())),
-            None => None,
-        }
+            Err(e) => Err(e.into()),
+        };
+        self.has_error = item.is_err();
+        Some(item)
     }
 }
 
-- 
2.43.0


From ecd1e4151f5d3e6b58e5c63b9d35c1b1ab58e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:05 +0000
Subject: [PATCH 71/80] fix: derived CHOICE and alias of a tagged type compile
 (tag of the variant through its trait)

---
 derive/src/alias.rs  | 6 +++---
 derive/src/choice.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/derive/src/alias.rs b/derive/src/alias.rs
index d2112e8..1a3cf3c 100644
--- a/derive/src/alias.rs
+++ b/derive/src/alias.rs
@@ -120,11 +120,11 @@ impl<'s> DeriveAlias<'s> {
 
                 fn accept_header(header: &asn1_rs::Header) -> bool { <#ty as asn1_rs::DynTagged>::accept_header(header) }
 
-                fn class(&self) -> asn1_rs::Class { self.0.class() }
+                fn class(&self) -> asn1_rs::Class { asn1_rs::DynTagged::class(&self.0) }
 
-                fn constructed(&self) -> bool { self.0.constructed() }
+                fn constructed(&self) -> bool { asn1_rs::DynTagged::constructed(&self.0) }
 
-                fn tag(&self) -> asn1_rs::Tag { self.0.tag() }
+                fn tag(&self) -> asn1_rs::Tag { asn1_rs::DynTagged::tag(&self.0) }
             }
         })
     }
diff --git a/derive/src/choice.rs b/derive/src/choice.rs
index 93b4878..5788e53 100644
--- a/derive/src/choice.rs
+++ b/derive/src/choice.rs
@@ -140,7 +140,7 @@ impl<'s> DeriveChoice<'s> {
                 let class_branches = self.variants.iter().map(|v| {
                     let pat = v.vi.pat();
                     let bi = &v.vi.bindings()[0];
-                    quote! { #pat => #bi.class(),  }
+                    quote! { #pat => asn1_rs::DynTagged::class(#bi),  }
                 });
                 quote! {
                     match self {
@@ -156,7 +156,7 @@ impl<'s> DeriveChoice<'s> {
                 let constructed_branches = self.variants.iter().map(|v| {
                     let pat = v.vi.pat();
                     let bi = &v.vi.bindings()[0];
-                    quote! { #pat => #bi.constructed(),  }
+                    quote! { #pat => asn1_rs::DynTagged::constructed(#bi),  }
                 });
                 quote! {
                     match self {
@@ -175,7 +175,7 @@ impl<'s> DeriveChoice<'s> {
                     }
                     None => {
                         let bi = &v.vi.bindings()[0];
-                        quote! { #pat => #bi.tag(),  }
+                        quote! { #pat => asn1_rs::DynTagged::tag(#bi),  }
                     }
                 }
             });
-- 
2.43.0


From a67dae930771436b728f4307ab3b8c319e0a66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:39 +0000
Subject: [PATCH 72/80] fix: derived DER encoders omit fields equal to their
 DEFAULT value

---
 derive/src/container.rs | 76 ++++++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 6572b64..4c25ba3 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -8,6 +8,7 @@ use syn::{
     parse_quote, Attribute, DataStruct, DeriveInput, Expr, Field, Fields, GenericArgument, Ident,
     Lifetime, LitInt, LitStr, Meta, PathArguments, Type, WherePredicate,
 };
+use synstructure::BindingInfo;
 
 use crate::asn1_type::Asn1Type;
 use crate::options::Options;
@@ -524,21 +525,19 @@ impl Container {
 
         let body = s.fold(quote! {asn1_rs::Length::Definite(0)}, |acc, bi| {
             // check if binding has a 'tag_explicit' or 'tag_implicit' attribute
-            let tag_kind = get_field(&self.fields, bi.ast().ident.as_ref())
-                .map(|f| f.tag)
-                .flatten();
+            let field = get_field(&self.fields, bi.ast().ident.as_ref());
+            let tag_kind = field.map(|f| f.tag).flatten();
 
-            match tag_kind {
+            let field_len = match tag_kind {
                 Some((Asn1TagKind::Explicit, _class, tag)) => {
                     // TAGGED EXPLICIT: add length required to encode tag header
                     let tag = u32::from(tag);
                     quote! {
-                        #acc
-                            + match #bi.#total_len() {
-                                // absent value, there is no tag
-                                asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
-                                len => asn1_rs::ber_header_length(asn1_rs::Tag(#tag), len).unwrap_or_default() + len,
-                            }
+                        match #bi.#total_len() {
+                            // absent value, there is no tag
+                            asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                            len => asn1_rs::ber_header_length(asn1_rs::Tag(#tag), len).unwrap_or_default() + len,
+                        }
                     }
                 }
                 Some((Asn1TagKind::Implicit, _class, tag)) => {
@@ -547,20 +546,23 @@ impl Container {
                     // (implicit tag, object tag) is long and the other is not
                     let tag = u32::from(tag);
                     quote! {
-                        #acc
-                            + match #bi.#total_len() {
-                                // absent value, there is no tag
-                                asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
-                                _ => {
-                                    let len = #bi.#content_len();
-                                    asn1_rs::ber_header_length(asn1_rs::Tag(#tag), len).unwrap_or_default() + len
-                                }
+                        match #bi.#total_len() {
+                            // absent value, there is no tag
+                            asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                            _ => {
+                                let len = #bi.#content_len();
+                                asn1_rs::ber_header_length(asn1_rs::Tag(#tag), len).unwrap_or_default() + len
                             }
+                        }
                     }
                 }
-                None => quote! {
-                    #acc + #bi.#total_len()
+                None => quote! { #bi.#total_len() },
+            };
+            match field.and_then(|f| is_default_value(f, asn1_type, bi)) {
+                Some(is_default) => quote! {
+                    #acc + if #is_default { asn1_rs::Length::Definite(0) } else { #field_len }
                 },
+                None => quote! { #acc + #field_len },
             }
         });
 
@@ -624,11 +626,10 @@ impl Container {
         let body = s.variants().iter().map(|vi| {
             let encode = vi.bindings().iter().map(|bi| {
                 // check if binding has a 'tag_explicit' or 'tag_implicit' attribute
-                let tag_kind = get_field(&self.fields, bi.ast().ident.as_ref())
-                    .map(|f| f.tag)
-                    .flatten();
+                let field = get_field(&self.fields, bi.ast().ident.as_ref());
+                let tag_kind = field.map(|f| f.tag).flatten();
 
-                match tag_kind {
+                let write_field = match tag_kind {
                     Some((Asn1TagKind::Explicit, class, tag)) => {
                         let tk_class = class.class_tokens();
                         let tag = u32::from(tag);
@@ -644,6 +645,10 @@ impl Container {
                         }
                     }
                     None => quote! { num_bytes += #bi.#encode(writer)?; },
+                };
+                match field.and_then(|f| is_default_value(f, asn1_type, bi)) {
+                    Some(is_default) => quote! { if !#is_default { #write_field } },
+                    None => write_field,
                 }
             });
             let pat = vi.pat();
@@ -1000,6 +1005,29 @@ fn check_field_constraints(field: &FieldInfo) -> TokenStream {
     }
 }
 
+/// Return an expression testing if the value of a field must be omitted because it is equal to
+/// its `DEFAULT` value (X.690 11.5, for DER only)
+fn is_default_value(
+    field: &FieldInfo,
+    asn1_type: Asn1Type,
+    bi: &BindingInfo<'_>,
+) -> Option<TokenStream> {
+    if asn1_type != Asn1Type::Der {
+        return None;
+    }
+    let default = field.default.as_ref()?;
+    let ty = &field.type_;
+    Some(quote! {
+        {
+            let default: #ty = #default;
+            match (asn1_rs::ToDer::to_der_vec(#bi), asn1_rs::ToDer::to_der_vec(&default)) {
+                (Ok(value), Ok(default)) => value == default,
+                _ => false,
+            }
+        }
+    })
+}
+
 fn get_field<'a>(fields: &'a [FieldInfo], ident: Option<&Ident>) -> Option<&'a FieldInfo> {
     let ident = if let Some(ident) = ident {
         ident
-- 
2.43.0


From 479acc65f510d16b75882b41f9a3300b9448990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:54 +0000
Subject: [PATCH 73/80] fix: AnySequence is a constructed type
 (Tagged::CONSTRUCTED)

---
 src/asn1_types/sequence/any_sequence.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asn1_types/sequence/any_sequence.rs b/src/asn1_types/sequence/any_sequence.rs
index cc05c01..aec1f33 100644
--- a/src/asn1_types/sequence/any_sequence.rs
+++ b/src/asn1_types/sequence/any_sequence.rs
@@ -54,6 +54,7 @@ impl<'a> AnySequence<'a> {
 }
 
 impl Tagged for AnySequence<'_> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Sequence;
 }
 
-- 
2.43.0


From 59a5f9511210d0c524f6df404e85569af60273aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:07 +0000
Subject: [PATCH 74/80] fix: derived constraint checks look only at the header
 of an absent OPTIONAL field

---
 derive/src/container.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 4c25ba3..c70e99b 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -986,16 +986,17 @@ fn check_field_constraints(field: &FieldInfo) -> TokenStream {
     let is_present = match field.tag {
         Some((_, class, n)) => {
             let tag = Literal::u16_unsuffixed(n);
-            quote! { any.class() as u8 == #class && any.tag().0 == #tag }
+            quote! { header.class() as u8 == #class && header.tag().0 == #tag }
         }
-        None => quote! { <#ty as asn1_rs::DynTagged>::accept_header(&any.header) },
+        None => quote! { <#ty as asn1_rs::DynTagged>::accept_header(&header) },
     };
     quote! {
         let rem = if rem.is_empty() {
             rem
         } else {
-            let (after, any) = Any::from_der(rem)?;
+            let (_, header) = asn1_rs::Header::from_der(rem)?;
             if #is_present {
+                let (after, any) = Any::from_der(rem)?;
                 #check
                 after
             } else {
-- 
2.43.0


From 92da20f4d3d66637b15d5b685b82d44a3da64f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:29 +0000
Subject: [PATCH 75/80] fix: oid!(rel ..) accepts long literals (tokens
 separated by line feeds)

---
 impl/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index 4e40723..8561d51 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -5,10 +5,10 @@ use syn::{parse_macro_input, Error, LitInt};
 #[proc_macro]
 pub fn encode_oid(input: TokenStream) -> TokenStream {
     let token_stream = input.to_string();
-    let (s, relative) = if token_stream.starts_with("rel ") {
-        (&token_stream[4..], true)
-    } else {
-        (token_stream.as_ref(), false)
+    // note: tokens can be separated by any whitespace (line feeds in long streams)
+    let (s, relative) = match token_stream.strip_prefix("rel") {
+        Some(s) if s.starts_with(char::is_whitespace) => (s, true),
+        _ => (token_stream.as_ref(), false),
     };
     let items: Result<Vec<_>, _> = s.split('.').map(|x| x.trim().parse::<u128>()).collect();
     let mut items: &[_] = match items.as_ref() {
-- 
2.43.0


From cf050470bfd6c9215e1da5138853453c7a1e3386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:29 +0000
Subject: [PATCH 76/80] fix: oid!(raw rel ..) compiles, as documented

---
 src/asn1_types/oid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index ff6cd3f..590d2db 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -503,6 +503,9 @@ impl FromStr for Oid<'_> {
 /// extra check might be necessary.
 #[macro_export]
 macro_rules! oid {
+    (raw rel $( $item:literal ).*) => {
+        $crate::exports::asn1_rs_impl::encode_oid!(rel $( $item ).*)
+    };
     (raw $( $item:literal ).*) => {
         $crate::exports::asn1_rs_impl::encode_oid!( $( $item ).* )
     };
-- 
2.43.0


From 7d2f82d68166d0b6504f27faea5df80a9f1feb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:26 +0000
Subject: [PATCH 77/80] fix: Sequence/Set parse_{ber,der}_and_then check class
 and constructed form

---
 src/asn1_types/sequence.rs | 24 ++++++++++++++++++++----
 src/asn1_types/set.rs      | 24 ++++++++++++++++++++----
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/asn1_types/sequence.rs b/src/asn1_types/sequence.rs
index d767347..af07c92 100644
--- a/src/asn1_types/sequence.rs
+++ b/src/asn1_types/sequence.rs
@@ -186,10 +186,18 @@ impl<'a> Sequence<'a> {
         let orig_input = input.clone();
         let (rem, any) = Any::parse_ber(input).map_err(Err::convert)?;
         if any.tag() != Tag::Sequence {
-            Err(Err::Error(
+            return Err(Err::Error(
                 BerError::unexpected_tag(orig_input, Some(Tag::Sequence), any.tag()).into(),
-            ))?;
+            ));
         }
+        if any.class() != Class::Universal {
+            return Err(Err::Error(
+                BerError::unexpected_class(orig_input, Some(Class::Universal), any.class()).into(),
+            ));
+        }
+        any.header
+            .assert_constructed_input(&orig_input)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
@@ -223,10 +231,18 @@ impl<'a> Sequence<'a> {
         let orig_input = input.clone();
         let (rem, any) = Any::parse_der(input).map_err(Err::convert)?;
         if any.tag() != Tag::Sequence {
-            Err(Err::Error(
+            return Err(Err::Error(
                 BerError::unexpected_tag(orig_input, Some(Tag::Sequence), any.tag()).into(),
-            ))?;
+            ));
+        }
+        if any.class() != Class::Universal {
+            return Err(Err::Error(
+                BerError::unexpected_class(orig_input, Some(Class::Universal), any.class()).into(),
+            ));
         }
+        any.header
+            .assert_constructed_input(&orig_input)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
diff --git a/src/asn1_types/set.rs b/src/asn1_types/set.rs
index 2350d55..9065261 100644
--- a/src/asn1_types/set.rs
+++ b/src/asn1_types/set.rs
@@ -183,10 +183,18 @@ impl<'a> Set<'a> {
         let orig_input = input.clone();
         let (rem, any) = Any::parse_ber(input).map_err(Err::convert)?;
         if any.tag() != Tag::Set {
-            Err(Err::Error(
+            return Err(Err::Error(
                 BerError::unexpected_tag(orig_input, Some(Tag::Set), any.tag()).into(),
-            ))?;
+            ));
         }
+        if any.class() != Class::Universal {
+            return Err(Err::Error(
+                BerError::unexpected_class(orig_input, Some(Class::Universal), any.class()).into(),
+            ));
+        }
+        any.header
+            .assert_constructed_input(&orig_input)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
@@ -220,10 +228,18 @@ impl<'a> Set<'a> {
         let orig_input = input.clone();
         let (rem, any) = Any::parse_der(input).map_err(Err::convert)?;
         if any.tag() != Tag::Set {
-            Err(Err::Error(
+            return Err(Err::Error(
                 BerError::unexpected_tag(orig_input, Some(Tag::Set), any.tag()).into(),
-            ))?;
+            ));
+        }
+        if any.class() != Class::Universal {
+            return Err(Err::Error(
+                BerError::unexpected_class(orig_input, Some(Class::Universal), any.class()).into(),
+            ));
         }
+        any.header
+            .assert_constructed_input(&orig_input)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
-- 
2.43.0


From d3a765b6699e7be519c8f521eebfdb60b76b7ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:54 +0000
Subject: [PATCH 78/80] fix: compare lengths of headers when both are set

---
 src/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 27ee8ea..5ae1fb0 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -455,7 +455,8 @@ impl<'a> PartialEq<Header<'a>> for Header<'a> {
             && self.tag == other.tag
             && self.constructed == other.constructed
             && {
-                if self.length.is_null() && other.length.is_null() {
+                // if length is set for both, compare it
+                if !self.length.is_null() && !other.length.is_null() {
                     self.length == other.length
                 } else {
                     true
-- 
2.43.0


From a6188d9b8f88d0d5ffdd3f1940c5141e31f10422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:00 +0000
Subject: [PATCH 79/80] fix: accept the largest tag and discriminant on the
 last variant of a derived enum

---
 derive/src/choice.rs     | 2 +-
 derive/src/enumerated.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/choice.rs b/derive/src/choice.rs
index 5788e53..d75a1e4 100644
--- a/derive/src/choice.rs
+++ b/derive/src/choice.rs
@@ -553,7 +553,7 @@ fn parse_tag_variants<'a, 'r>(
             }
             acc.push(tag_variant);
 
-            current_tag += 1;
+            current_tag = current_tag.wrapping_add(1);
 
             Ok(acc)
         })?;
diff --git a/derive/src/enumerated.rs b/derive/src/enumerated.rs
index ff5a118..3636a1e 100644
--- a/derive/src/enumerated.rs
+++ b/derive/src/enumerated.rs
@@ -259,7 +259,7 @@ fn parse_enum_variants(s: &synstructure::Structure<'_>) -> Result<Vec<EnumVarian
             };
             acc.push(e);
 
-            current_value += 1;
+            current_value = current_value.wrapping_add(1);
             Ok(acc)
         })?;
     Ok(v)
-- 
2.43.0


From 78deddb7303fef74a1309df9c87c058d634457a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:49 +0000
Subject: [PATCH 80/80] fix: do not overflow on an offset of -128 minutes when
 converting a time to UTC

---
 src/datetime.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 248a039..ec112f5 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -76,7 +76,8 @@ impl ASN1DateTime {
         }
         if let ASN1TimeZone::Offset(hh, mm) = dt.tz {
             // minutes have the sign of hours
-            let mm = if hh < 0 { -(mm.abs() as i32) } else { mm as i32 };
+            let mm = mm as i32;
+            let mm = if hh < 0 { -mm.abs() } else { mm };
             let offset = (hh as i32) * 60 + mm;
             if offset.abs() >= 24 * 60 {
                 return Err(Error::InvalidDateTime);
-- 
2.43.0

