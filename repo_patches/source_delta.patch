From 7800b636f94186aaab6392ce5d16275a5e65b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 01/53] fix: decode u64 values above i64::MAX that the
 serializer writes as two's complement

---
 protocol/bin-prot/src/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 8d4e7f7..f867bbc 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -167,7 +167,8 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
     where
         V: Visitor<'de>,
     {
-        visitor.visit_u64(self.rdr.bin_read_integer()?)
+        // the serializer writes a u64 as its two's complement i64, undo that here
+        visitor.visit_u64(self.rdr.bin_read_integer::<i64>()? as u64)
     }
 
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From e122af307d40774707f8c570a99b6d98c9dd7ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 02/53] fix: reject 0x80 as the first byte of a variable length
 integer

---
 protocol/bin-prot/src/read_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 472bde9..9e4615f 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -65,7 +65,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
@@ -94,7 +94,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
-- 
2.43.0


From 2f8d2feded39edc95d188a39ddc9a1e35ea2c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 03/53] fix: write every byte of floats and polyvar tags when
 the writer makes short writes

---
 protocol/bin-prot/src/write_ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 737573c..671c1dc 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -98,12 +98,12 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a float
     fn bin_write_float32(&mut self, f: &f32) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 4)
+        self.write_all(&f.to_le_bytes()).map(|_| 4)
     }
 
     /// Write a 64 bit float
     fn bin_write_float64(&mut self, f: &f64) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 8)
+        self.write_all(&f.to_le_bytes()).map(|_| 8)
     }
 
     /// for enums/variants with n variants the variant index
@@ -123,7 +123,7 @@ pub trait WriteBinProtExt: io::Write {
     /// For Polyvar types write the 4 bytes of the tag/hash for a variant
     /// You can convert between ocaml native integer using (x >> 1)
     fn bin_write_polyvar_tag(&mut self, i: u32) -> Result<usize, io::Error> {
-        self.write(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
+        self.write_all(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
     }
 }
 
-- 
2.43.0


From 9add2ad1da377fdd00b237c300ccbed104a6cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 04/53] fix: from_reader_strict detects trailing bytes that
 were not buffered yet

---
 protocol/bin-prot/src/de.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index f867bbc..6b40da6 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -11,7 +11,7 @@ use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
 use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
 use serde::Deserialize;
-use std::io::{BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 /// the modes of operation for the deserializer
 pub struct StronglyTyped;
@@ -68,7 +68,15 @@ pub fn from_reader<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
 pub fn from_reader_strict<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
     let mut de = Deserializer::from_reader(rdr);
     let value = Deserialize::deserialize(&mut de)?;
-    match de.rdr.buffer().len() {
+    // an empty buffer does not mean the end of the stream, ask the reader for more
+    let unconsumed = loop {
+        match de.rdr.fill_buf() {
+            Ok(buf) => break buf.len(),
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(Error::Io(e)),
+        }
+    };
+    match unconsumed {
         0 => Ok(value),
         unconsumed => Err(Error::StreamNotFullyConsumed(unconsumed)),
     }
-- 
2.43.0


From 76c0d161b2e008a6590519caeb7e4f9fb5185166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 05/53] fix: polyvar decoding picks the right variant when a
 non ASCII label precedes it

---
 protocol/bin-prot/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 6b40da6..becd38a 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -405,8 +405,8 @@ macro_rules! impl_polyvar_enum_access {
                 let index = self
                     .variants
                     .into_iter()
-                    .filter(|v| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .enumerate()
+                    .filter(|(_, v)| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .find_map(|(index, value)| {
                         // Return the first polyvar variant where the hash matches
                         if caml_hash_variant(value) == self.hash {
-- 
2.43.0


From 9df35c7dcf9c5012196d50e6d3040dd35386012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 06/53] fix: decoding a loose Value without a layout is an
 error instead of a panic

---
 protocol/bin-prot/src/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index becd38a..7f9376e 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -109,7 +109,8 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
     where
         V: Visitor<'de>,
     {
-        unimplemented!()
+        // the format is not self describing
+        Err(Error::DeserializingLooseTypeWithoutLayout)
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From 9f4572fe8e09a3fb99cf19b582711a41473dede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 07/53] fix: implement deserialize_str instead of panicking

---
 protocol/bin-prot/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 7f9376e..435c6e7 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -201,11 +201,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
         visitor.visit_char(self.rdr.bin_read_char()?)
     }
 
-    fn deserialize_str<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From a540c0f6c9e4a524559b3a4e0f8a7eb8fe26d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 08/53] fix: refuse to write a char that does not fit in one
 byte instead of truncating it

---
 protocol/bin-prot/src/write_ext.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 671c1dc..6a385ef 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -23,7 +23,10 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a single char character
     fn bin_write_char(&mut self, c: char) -> Result<usize, io::Error> {
-        self.write_u8(c as u8)?;
+        // only the single byte characters can be represented
+        let b = u8::try_from(u32::from(c))
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
+        self.write_u8(b)?;
         Ok(1)
     }
 
-- 
2.43.0


From 99cca3c71b37d4f258417c226de15661dfaffab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 09/53] fix: do not allocate the claimed length of a string
 before reading it

---
 protocol/bin-prot/src/read_ext.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 9e4615f..90c9eb2 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -5,7 +5,7 @@ use crate::consts::*;
 use crate::error::{Error, Result};
 use byteorder::{LittleEndian, ReadBytesExt};
 use num::{FromPrimitive, Unsigned};
-use std::io;
+use std::io::{self, Read};
 
 /// Extension trait for readers implementing io::Read to allow them to read a bin_prot encoded values
 pub trait ReadBinProtExt: io::Read {
@@ -118,9 +118,7 @@ pub trait ReadBinProtExt: io::Read {
 
     /// Read a string
     fn bin_read_string(&mut self) -> Result<String> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let buf = self.bin_read_bytes()?;
         let s = std::str::from_utf8(&buf)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
         Ok(s.to_string())
@@ -128,9 +126,13 @@ pub trait ReadBinProtExt: io::Read {
 
     /// read some bytes
     fn bin_read_bytes(&mut self) -> Result<Vec<u8>> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let len = self.bin_read_nat0::<u64>()?;
+        // The length comes from the input, do not allocate more than what is really there
+        let mut buf = Vec::new();
+        (&mut *self).take(len).read_to_end(&mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(Error::Io(io::ErrorKind::UnexpectedEof.into()));
+        }
         Ok(buf)
     }
 }
-- 
2.43.0


From 1b61469e45ce7e201d548dfc5c8b6508eddf28b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:37 +0000
Subject: [PATCH 10/53] fix: layout rules that are not supported are errors
 instead of panics

---
 protocol/bin-prot/src/loose_deserializer.rs    | 11 +++++++++--
 protocol/bin-prot/src/value/layout/traverse.rs |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 0d34eb0..75ae7d8 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -57,6 +57,12 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                     }
                     BinProtRule::Polyvar(summands) => {
                         let tag = self.rdr.bin_read_polyvar_tag()?;
+                        if summands
+                            .iter()
+                            .any(|v| matches!(v, Polyvar::Inherited(_)))
+                        {
+                            return Err(Error::UnimplementedRule); // don't know how to handle these yet
+                        }
                         let (index, variant) = summands
                             .into_iter()
                             .enumerate()
@@ -70,7 +76,7 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                                             None
                                         }
                                     }
-                                    Polyvar::Inherited(_) => unimplemented!(), // don't know how to handle these yet
+                                    Polyvar::Inherited(_) => None,
                                 }
                             })
                             .ok_or(Error::UnknownPolyvarTag(tag))?;
@@ -134,7 +140,8 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                             | "Pickles_types.Vector.Vector8"
                             | "Pickles_types.Vector.Vector17"
                             | "Pickles_types.Vector.Vector18" => {
-                                let element_rule = rules.first().unwrap();
+                                let element_rule =
+                                    rules.first().ok_or(Error::LayoutIteratorError)?;
                                 let len = match path.as_str() {
                                     "Pickles_type.Vector.Vector2"
                                     | "Pickles_types.Vector.Vector2" => 2,
diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 90b856b..88e9bce 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -56,7 +56,7 @@ impl Iterator for BinProtRuleIterator {
                     }
                     BinProtRule::Reference(rule_ref) => match rule_ref {
                         RuleRef::Unresolved(_payload) => {
-                            unimplemented!();
+                            // left to the code driving the iterator to reject
                         }
                         RuleRef::Resolved(payload) => {
                             self.stack.push(*payload.ref_rule);
@@ -79,7 +79,7 @@ impl Iterator for BinProtRuleIterator {
                             return Some(BinProtRule::CustomForPath(path.to_string(), rules));
                         }
                     }
-                    _ => unimplemented!(),
+                    _ => {} // not supported, left to the code driving the iterator to reject
                 };
                 r
             }
-- 
2.43.0


From 582ab6c4942cdfdcb48cb1b886a37735ff8d5006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:37 +0000
Subject: [PATCH 11/53] fix: a sum index that the layout does not declare is an
 error instead of a panic

---
 protocol/bin-prot/src/loose_deserializer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 75ae7d8..9c716f9 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -46,13 +46,17 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                         // We need this to select which variant layout to use
                         // when deserializing the variants data
                         let index = self.rdr.bin_read_variant_index()?;
-                        let variant_rules = summands[index as usize].ctor_args.clone();
+                        let summand = summands
+                            .into_iter()
+                            .find(|s| s.index == i32::from(index))
+                            .ok_or(Error::LayoutIteratorError)?;
+                        let variant_rules = summand.ctor_args.clone();
                         self.mode
                             .layout_iter
                             .push(vec![BinProtRule::Tuple(variant_rules)]);
                         visitor.visit_enum(ValueEnum::new(
                             self,
-                            VariantType::Sum(summands[index as usize].clone()),
+                            VariantType::Sum(summand),
                         ))
                     }
                     BinProtRule::Polyvar(summands) => {
-- 
2.43.0


From 699997df7cfbc310cf84649fc3a6106866042513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:37 +0000
Subject: [PATCH 12/53] fix: memory used to decode a list with a layout does
 not depend on its claimed length

---
 .../bin-prot/src/value/layout/traverse.rs     | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 88e9bce..20d086d 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -23,7 +23,7 @@ use crate::value::layout::{BinProtRule, RuleRef};
 /// Implements a depth first search of the type tree
 /// defined by a BinProtRule
 pub struct BinProtRuleIterator {
-    pub(crate) stack: Vec<BinProtRule>, // regular stack to implement the DFS
+    stack: Vec<(BinProtRule, usize)>, // regular stack to implement the DFS, each rule with its number of repetitions
     current_module_path: Option<String>, // holds on to most recent path encountered in traverse
 }
 
@@ -31,7 +31,7 @@ impl Iterator for BinProtRuleIterator {
     type Item = BinProtRule;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let top = self.stack.pop();
+        let top = self.pop();
         let r = top.clone();
         match top {
             Some(rule) => {
@@ -42,10 +42,11 @@ impl Iterator for BinProtRuleIterator {
                     }
                     BinProtRule::Record(mut rules) => {
                         self.stack
-                            .extend(rules.drain(0..).map(|field| field.field_rule).rev());
+                            .extend(rules.drain(0..).map(|field| (field.field_rule, 1)).rev());
                     }
                     BinProtRule::Tuple(mut rules) => {
-                        self.stack.extend(rules.drain(0..).rev());
+                        self.stack
+                            .extend(rules.drain(0..).map(|rule| (rule, 1)).rev());
                     }
                     BinProtRule::Sum(_) | BinProtRule::Polyvar(_) => {
                         // don't add to the stack. Add to the branch field instead
@@ -59,7 +60,7 @@ impl Iterator for BinProtRuleIterator {
                             // left to the code driving the iterator to reject
                         }
                         RuleRef::Resolved(payload) => {
-                            self.stack.push(*payload.ref_rule);
+                            self.stack.push((*payload.ref_rule, 1));
                             self.current_module_path = Some(payload.source_module_path);
                             return self.next();
                         }
@@ -91,12 +92,25 @@ impl Iterator for BinProtRuleIterator {
 impl BinProtRuleIterator {
     // Drop a custom rule onto the stack
     pub fn push(&mut self, rules: Vec<BinProtRule>) {
-        self.stack.extend(rules);
+        self.stack.extend(rules.into_iter().map(|rule| (rule, 1)));
     }
 
     // Drop a custom rule onto the stack n times
+    // n can come from untrusted input so the rule is stored only once
     pub fn push_n(&mut self, rule: BinProtRule, n: usize) {
-        self.stack.extend(std::iter::repeat(rule).take(n));
+        if n > 0 {
+            self.stack.push((rule, n));
+        }
+    }
+
+    fn pop(&mut self) -> Option<BinProtRule> {
+        match self.stack.last_mut() {
+            Some((rule, n)) if *n > 1 => {
+                *n -= 1;
+                Some(rule.clone())
+            }
+            _ => self.stack.pop().map(|(rule, _)| rule),
+        }
     }
 }
 
@@ -106,7 +120,7 @@ impl IntoIterator for BinProtRule {
 
     fn into_iter(self) -> <Self as IntoIterator>::IntoIter {
         BinProtRuleIterator {
-            stack: vec![self],
+            stack: vec![(self, 1)],
             current_module_path: None,
         }
     }
-- 
2.43.0


From 68468f4f3465c8eb91b567d94420754752c52cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:37 +0000
Subject: [PATCH 13/53] fix: a loosely typed polyvar keeps its four byte tag
 when the tag is small

---
 protocol/bin-prot/src/consts.rs    | 3 +++
 protocol/bin-prot/src/ser.rs       | 9 ++++++---
 protocol/bin-prot/src/value/ser.rs | 3 ++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/protocol/bin-prot/src/consts.rs b/protocol/bin-prot/src/consts.rs
index d6c07b4..6a04588 100644
--- a/protocol/bin-prot/src/consts.rs
+++ b/protocol/bin-prot/src/consts.rs
@@ -6,3 +6,6 @@ pub const CODE_NEG_INT8: u8 = 0xff;
 pub const CODE_INT16: u8 = 0xfe;
 pub const CODE_INT32: u8 = 0xfd;
 pub const CODE_INT64: u8 = 0xfc;
+
+// name given to the serialized form of a loosely typed polyvar, its variant index is the polyvar tag
+pub const POLYVAR_TAG: &str = "PolyvarTag";
diff --git a/protocol/bin-prot/src/ser.rs b/protocol/bin-prot/src/ser.rs
index 2fabc4c..41a37bb 100644
--- a/protocol/bin-prot/src/ser.rs
+++ b/protocol/bin-prot/src/ser.rs
@@ -4,6 +4,7 @@
 //! Serialization for BinProt following the standard serde module layout
 
 use crate::caml_hash_variant;
+use crate::consts::POLYVAR_TAG;
 use crate::error::{Error, Result};
 use crate::WriteBinProtExt;
 use serde::ser;
@@ -35,14 +36,16 @@ where
     }
 
     // This can be called to serialize a Polyvar which has a 4 byte
-    // tag OR a variant index which is 1-2 bytes. We assume if they fit into a single byte then they
+    // tag OR a variant index which is 1-2 bytes. A loosely typed polyvar carries its tag as the index and
+    // is recognised by its name since the tag of a single character label fits in a byte.
+    // Otherwise we assume if they fit into a single byte then they
     // are an index and if they are larger than 1 byte they are a polyvar.
-    // IMPORTANT: This could bug out in the case that a polyvar hash is zero in all places except the lowest byte.
-    // The probability of this happening is vanishingly small but something to be aware of.
     fn write_variant_index_or_tag(&mut self, name: &str, variant: &str, index: u32) -> Result<()> {
         if name == "Polyvar" {
             self.writer
                 .bin_write_polyvar_tag(caml_hash_variant(variant))?;
+        } else if name == POLYVAR_TAG {
+            self.writer.bin_write_polyvar_tag(index)?;
         } else if let Ok(b) = check_variant_index(index) {
             // it is a sum variant
             self.writer.bin_write_variant_index(b)?;
diff --git a/protocol/bin-prot/src/value/ser.rs b/protocol/bin-prot/src/value/ser.rs
index 828cec3..9a2253a 100644
--- a/protocol/bin-prot/src/value/ser.rs
+++ b/protocol/bin-prot/src/value/ser.rs
@@ -3,6 +3,7 @@
 
 //! Serialization implementation for a BinProt loosely typed Value
 
+use crate::consts::POLYVAR_TAG;
 use crate::Value;
 
 use serde::ser::{SerializeStruct, SerializeTuple};
@@ -53,7 +54,7 @@ impl Serialize for Value {
                 name: _,
                 ref tag,
                 ref value,
-            } => serializer.serialize_newtype_variant("", *tag as u32, "", value), // sum types/enums
+            } => serializer.serialize_newtype_variant(POLYVAR_TAG, *tag as u32, "", value), // polyvar types
             Value::List(ref v) => v.serialize(serializer),
         }
     }
-- 
2.43.0


From 79912f826d0cde964fd9004647d5d551a9f937b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:14 +0000
Subject: [PATCH 14/53] fix: clear the cached hashes of all ancestors when a
 leaf is added

With a merger that returns None for nodes without any leaf below, the walk
stopped at such a node and left stale hashes above it, so that the root did
not cover the new leaf.
---
 merkle/src/tree_impl.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 9865663..1b41513 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -178,11 +178,9 @@ where
         let mut parent = leaf_index;
         while parent > 0 {
             parent = calculate_parent_index(parent);
-            if self.nodes[parent].is_some() {
-                self.nodes[parent] = None;
-            } else {
-                break;
-            }
+            // Do not stop at a node without a hash, its ancestors might have cached hashes
+            // because a merger is free to return [None] for a node
+            self.nodes[parent] = None;
         }
     }
 
-- 
2.43.0


From 867cb913af841d76e12e91b02b8ff239f40b5c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:33 +0000
Subject: [PATCH 15/53] fix: compute the depth of a merkle tree node with
 integers

The floating point logarithm is off by one for the last node of some rows
(e.g. node 2^29 - 2), which selects the wrong hash prefix for it.
---
 merkle/src/metadata.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index bf53061..14302bb 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -31,8 +31,14 @@ impl MerkleTreeNodeMetadata {
     }
 }
 
-fn depth<const DEGREE: usize>(index: usize) -> u32 {
-    ((index + DEGREE) as f64).log(DEGREE as f64).ceil() as u32 - 1
+fn depth<const DEGREE: usize>(mut index: usize) -> u32 {
+    // Walk up to the root, floating point logarithms are not exact
+    let mut depth = 0;
+    while index > 0 {
+        index = (index - 1) / DEGREE;
+        depth += 1;
+    }
+    depth
 }
 
 fn height<const DEGREE: usize>(index: usize, height: u32) -> u32 {
-- 
2.43.0


From 405c233944137e344a4513f75b55706490b31737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:38 +0000
Subject: [PATCH 16/53] fix: reject merkle proofs that are not a path from the
 item to the root

A node next to the item that is not its sibling was accepted, so that a
proof verified for a position the item does not have, and proofs with too
few or too many steps panicked.
---
 merkle/src/proof.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/merkle/src/proof.rs b/merkle/src/proof.rs
index 309a761..ca42f06 100644
--- a/merkle/src/proof.rs
+++ b/merkle/src/proof.rs
@@ -111,6 +111,12 @@ where
     fn root_hash(&self) -> Result<Hash, Self::Error> {
         // index of a data node should always to positive
         if self.index > 0 {
+            // The steps have to lead from the data node all the way to the root, no further
+            if self.peer_indices.len() != self.peer_hashes.len()
+                || self.peer_indices.len() != node_depth(self.index)
+            {
+                return Err(MerkleProofError::InvalidProof);
+            }
             // 1. Get the index and hash of the data node
             let mut index = self.index;
             let mut hash_opt = Some(Hasher::hash(
@@ -150,15 +156,25 @@ fn get_parent_index(index: usize) -> usize {
     (index - 1) / 2
 }
 
+fn node_depth(mut index: usize) -> usize {
+    let mut depth = 0;
+    while index > 0 {
+        index = get_parent_index(index);
+        depth += 1;
+    }
+    depth
+}
+
 fn get_ordered_siblings<Hash>(
     index: usize,
     hash: Option<Hash>,
     sibling_index: usize,
     sibling_hash: Option<Hash>,
 ) -> Result<[Option<Hash>; 2], MerkleProofError> {
-    if index + 1 == sibling_index {
+    // Left children have odd indices, adjacent nodes are not always siblings
+    if index % 2 == 1 && index.checked_add(1) == Some(sibling_index) {
         Ok([hash, sibling_hash])
-    } else if index == sibling_index + 1 {
+    } else if index % 2 == 0 && index.checked_sub(1) == Some(sibling_index) {
         Ok([sibling_hash, hash])
     } else {
         Err(MerkleProofError::InvalidProof)
-- 
2.43.0


From 861bedb572cf96e301d18925e516f1f89bac9e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:38 +0000
Subject: [PATCH 17/53] fix: proof of the only leaf of a fixed height merkle
 tree

get_proof panicked because such a leaf has no parent in the stored nodes.
---
 merkle/src/tree_impl.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 1b41513..1f052c2 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -133,7 +133,12 @@ where
             peer_hashes.push(peer_hash);
             // 3. Gets the index of their parent node and point the cursor to it
             // parent_index is the index of the actual tree with the variable height
-            let mut parent_index = calculate_parent_index(self.nodes.len() + index);
+            // a single leaf is the root of the actual tree itself and has no parent in it
+            let mut parent_index = if self.nodes.is_empty() {
+                0
+            } else {
+                calculate_parent_index(self.nodes.len() + index)
+            };
             // and parent_index_with_offset is the index of the virtual tree with possible fixed height
             // when the fixed height equals to the variable height, parent_index equals to parent_index_with_offset
             let mut parent_index_with_offset = calculate_parent_index(index_with_offset);
-- 
2.43.0


From 8359938df28125ccf55eb0a25026c279df7ff3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:06 +0000
Subject: [PATCH 18/53] fix: a merkle path that is empty or too long is an
 error, not a panic

---
 merkle/src/path.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merkle/src/path.rs b/merkle/src/path.rs
index 7da57fc..588b299 100644
--- a/merkle/src/path.rs
+++ b/merkle/src/path.rs
@@ -47,6 +47,11 @@ impl MerklePath {
         Hasher: MerkleHasher<Item = Item, Hash = Fp>,
         Merger: MerkleMerger<Hash = Fp>,
     {
+        anyhow::ensure!(
+            !self.0.is_empty() && self.0.len() < usize::BITS as usize,
+            "Invalid merkle path of {} nodes",
+            self.0.len()
+        );
         let mut peer_indices = Vec::with_capacity(self.0.len());
         let mut peer_hashes = Vec::with_capacity(self.0.len());
         let mut row_index = 0;
-- 
2.43.0


From 727ee4db3ba3cd3aa50e9c21f7073ace38dc393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:21 +0000
Subject: [PATCH 19/53] fix: a decimal that is not below the field modulus is
 an error, not a panic

---
 proof-systems-shim/src/fp.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/proof-systems-shim/src/fp.rs b/proof-systems-shim/src/fp.rs
index f13fc3f..912ae66 100644
--- a/proof-systems-shim/src/fp.rs
+++ b/proof-systems-shim/src/fp.rs
@@ -3,7 +3,7 @@
 
 //! Extensions for [Fp], including json serde, etc.
 
-use ark_ff::BigInteger256;
+use ark_ff::{fields::PrimeField, BigInteger256};
 use derive_more::{From, Into};
 use mina_hasher::Fp;
 use num::{BigUint, Num};
@@ -34,7 +34,10 @@ impl<'de> Deserialize<'de> for FpJson {
         let big256: BigInteger256 = big
             .try_into()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(big256.into()))
+        let fp = Fp::from_repr(big256).ok_or_else(|| {
+            <D::Error as serde::de::Error>::custom("Not smaller than the field modulus")
+        })?;
+        Ok(Self(fp))
     }
 }
 
@@ -42,8 +45,8 @@ pub fn fp_from_radix_10(s: &str) -> anyhow::Result<Fp> {
     use std::str::FromStr;
 
     let big = num::BigUint::from_str(s)?;
-    let big256: BigInteger256 = big.try_into().unwrap();
-    Ok(big256.into())
+    let big256: BigInteger256 = big.try_into().map_err(anyhow::Error::msg)?;
+    Fp::from_repr(big256).ok_or_else(|| anyhow::Error::msg("Not smaller than the field modulus"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From f31150fc7143495dc03553445fca5efb07f52555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:53 +0000
Subject: [PATCH 20/53] fix: bits_to_fp ignored that the last byte of a bit
 vector may hold stale bits

---
 proof-systems-shim/src/roinput.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proof-systems-shim/src/roinput.rs b/proof-systems-shim/src/roinput.rs
index 43e84f3..e293e06 100644
--- a/proof-systems-shim/src/roinput.rs
+++ b/proof-systems-shim/src/roinput.rs
@@ -133,6 +133,8 @@ impl ChunkedROInput {
             "Input should not be greater than {size_in_bits} bits",
         );
         bits.resize(size_in_bits, false);
+        // Bits of the last byte that are not part of the vector are not necessarily cleared
+        bits.set_uninitialized(false);
         Ok(Fp::from_bytes(&bits.into_vec())?)
     }
 
-- 
2.43.0


From 84f528294f9579f780f82439df7bcaf09b2e1af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:41 +0000
Subject: [PATCH 21/53] fix: a failed transaction has one failure reason, not a
 list

The protocol layout (and the JSON of mainnet blocks) has a single reason after
the Failed tag, so blocks with failed transactions were misread.
---
 base/src/staged_ledger_diff.rs                |  5 +---
 .../src/staged_ledger_diff.rs                 | 28 ++++++-------------
 2 files changed, 10 insertions(+), 23 deletions(-)

diff --git a/base/src/staged_ledger_diff.rs b/base/src/staged_ledger_diff.rs
index 26e8d8a..997d40d 100644
--- a/base/src/staged_ledger_diff.rs
+++ b/base/src/staged_ledger_diff.rs
@@ -98,10 +98,7 @@ impl_from_with_proxy!(
 #[auto_from(mina_serialization_types::staged_ledger_diff::TransactionStatus)]
 pub enum TransactionStatus {
     Applied(TransactionStatusAuxiliaryData, TransactionStatusBalanceData),
-    Failed(
-        Vec<TransactionStatusFailedType>,
-        TransactionStatusBalanceData,
-    ),
+    Failed(TransactionStatusFailedType, TransactionStatusBalanceData),
 }
 
 impl_from_with_proxy!(
diff --git a/protocol/serialization-types/src/staged_ledger_diff.rs b/protocol/serialization-types/src/staged_ledger_diff.rs
index e347058..89f0378 100644
--- a/protocol/serialization-types/src/staged_ledger_diff.rs
+++ b/protocol/serialization-types/src/staged_ledger_diff.rs
@@ -282,7 +282,7 @@ pub enum TransactionStatus {
         TransactionStatusBalanceDataV1,
     ),
     Failed(
-        Vec<TransactionStatusFailedTypeV1>,
+        TransactionStatusFailedTypeV1,
         TransactionStatusBalanceDataV1,
     ),
 }
@@ -296,7 +296,7 @@ enum TransactionStatusJsonProxy {
         TransactionStatusBalanceDataJson,
     ),
     Failed(
-        Vec<TransactionStatusFailedTypeJson>,
+        TransactionStatusFailedTypeJson,
         TransactionStatusBalanceDataJson,
     ),
 }
@@ -310,7 +310,7 @@ pub enum TransactionStatusJson {
         TransactionStatusBalanceDataJson,
     ),
     Failed(
-        Vec<TransactionStatusFailedTypeJson>,
+        TransactionStatusFailedTypeJson,
         TransactionStatusBalanceDataJson,
     ),
 }
@@ -403,42 +403,32 @@ enum TransactionStatusFailedTypeJsonProxy {
     IncorrectNonce,
 }
 
-#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq, AutoFrom)]
+#[derive(Clone, Debug, Eq, PartialEq, AutoFrom)]
 #[auto_from(TransactionStatusFailedType)]
 #[auto_from(TransactionStatusFailedTypeJsonProxy)]
 pub enum TransactionStatusFailedTypeJson {
-    #[serde(rename = "Predicate")]
     Predicate,
-    #[serde(rename = "Source_not_present")]
     SourceNotPresent,
-    #[serde(rename = "Receiver_not_present")]
     ReceiverNotPresent,
-    #[serde(rename = "Amount_insufficient_to_create_account")]
     AmountInsufficientToCreateAccount,
-    #[serde(rename = "Cannot_pay_creation_fee_in_token")]
     CannotPayCreationFeeInToken,
-    #[serde(rename = "Source_insufficient_balance")]
     SourceInsufficientBalance,
-    #[serde(rename = "Source_minimum_balance_violation")]
     SourceMinimumBalanceViolation,
-    #[serde(rename = "Receiver_already_exists")]
     ReceiverAlreadyExists,
-    #[serde(rename = "Not_token_owner")]
     NotTokenOwner,
-    #[serde(rename = "Mismatched_token_permissions")]
     MismatchedTokenPermissions,
-    #[serde(rename = "Overflow")]
     Overflow,
-    #[serde(rename = "Signed_command_on_snapp_account")]
     SignedCommandOnSnappAccount,
-    #[serde(rename = "Snapp_account_not_present")]
     SnappAccountNotPresent,
-    #[serde(rename = "Update_not_permitted")]
     UpdateNotPermitted,
-    #[serde(rename = "Incorrect_nonce")]
     IncorrectNonce,
 }
 
+impl_mina_enum_json_serde!(
+    TransactionStatusFailedTypeJson,
+    TransactionStatusFailedTypeJsonProxy
+);
+
 #[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
 pub struct TransactionStatusBalanceData {
     pub fee_payer_balance: Option<ExtendedU64_3>,
-- 
2.43.0


From ca99dbb6473187c3f2468c6063881a43937a5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:57 +0000
Subject: [PATCH 22/53] fix: amounts with more than nine decimals or above the
 maximum were read as other amounts

---
 base/src/constants.rs                      |  2 ++
 base/src/numbers.rs                        | 13 +++++++++----
 protocol/serialization-types/src/common.rs | 16 +++++++++++-----
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/base/src/constants.rs b/base/src/constants.rs
index 83d036a..d93a7c9 100644
--- a/base/src/constants.rs
+++ b/base/src/constants.rs
@@ -4,3 +4,5 @@
 //! Base protocol related constants
 
 pub const MINA_PRECISION: u64 = 1000000000;
+/// Number of decimal digits of [MINA_PRECISION]
+pub const MINA_PRECISION_DIGITS: usize = 9;
diff --git a/base/src/numbers.rs b/base/src/numbers.rs
index 5c77097..9ffb2c1 100644
--- a/base/src/numbers.rs
+++ b/base/src/numbers.rs
@@ -144,11 +144,16 @@ impl std::str::FromStr for Amount {
             .parse()?;
         let r_str = iter.next().unwrap_or("0");
         let r: u64 = format!("{:0<9}", r_str).parse()?;
-        if iter.next().is_none() {
-            // ensure there isn't more to parse as that is undefined
-            Ok(Amount(r + MINA_PRECISION * q))
+        // a longer fraction would be scaled wrongly
+        let amount = if r_str.len() <= MINA_PRECISION_DIGITS {
+            q.checked_mul(MINA_PRECISION).and_then(|q| q.checked_add(r))
         } else {
-            Err(Self::Err::ErrorInvalidFormat(s.to_string()))
+            None
+        };
+        match (amount, iter.next()) {
+            (Some(amount), None) => Ok(Amount(amount)),
+            // ensure there isn't more to parse as that is undefined
+            _ => Err(Self::Err::ErrorInvalidFormat(s.to_string())),
         }
     }
 }
diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 37ca787..36838b5 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -95,6 +95,7 @@ pub struct I64(pub i64);
 pub struct DecimalJson(pub u64);
 
 const MINA_PRECISION: u64 = 1000000000;
+const MINA_PRECISION_DIGITS: usize = 9;
 impl Serialize for DecimalJson {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -122,13 +123,18 @@ impl<'de> Deserialize<'de> for DecimalJson {
         let r: u64 = format!("{:0<9}", r_str)
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        if iter.next().is_none() {
-            // ensure there isn't more to parse as that is undefined
-            Ok(Self(r + MINA_PRECISION * q))
+        // a longer fraction would be scaled wrongly
+        let amount = if r_str.len() <= MINA_PRECISION_DIGITS {
+            q.checked_mul(MINA_PRECISION).and_then(|q| q.checked_add(r))
         } else {
-            Err(<D::Error as serde::de::Error>::custom(format!(
+            None
+        };
+        match (amount, iter.next()) {
+            (Some(amount), None) => Ok(Self(amount)),
+            // ensure there isn't more to parse as that is undefined
+            _ => Err(<D::Error as serde::de::Error>::custom(format!(
                 "Invalid string: {s}"
-            )))
+            ))),
         }
     }
 }
-- 
2.43.0


From 1a9a7d2497380d6cf95f6a396c2c00eecda60a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:57 +0000
Subject: [PATCH 23/53] fix: increment_nonce was read from the editState
 permission

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index a6da7e2..d0c27da 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -133,7 +133,7 @@ impl FromGraphQLJson for Permissions {
                 json["setTokenSymbol"].as_str().unwrap_or_default(),
             )?,
             increment_nonce: AuthRequired::from_str(
-                json["editState"].as_str().unwrap_or_default(),
+                json["incrementNonce"].as_str().unwrap_or_default(),
             )?,
             set_voting_for: AuthRequired::from_str(
                 json["setVotingFor"].as_str().unwrap_or_default(),
-- 
2.43.0


From 50b752320cd3ffdc30d9e6bc749fcbaa794f368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:57 +0000
Subject: [PATCH 24/53] fix: Both and Proof permissions were hashed alike

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index d0c27da..ba407b6 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -31,7 +31,7 @@ impl ToChunkedROInput for AuthRequired {
     fn to_chunked_roinput(&self) -> ChunkedROInput {
         let mut roi = ChunkedROInput::new();
         let constant = matches!(self, Self::Impossible | Self::None);
-        let signature_necessary = matches!(self, Self::Impossible | Self::Signature);
+        let signature_necessary = matches!(self, Self::Impossible | Self::Signature | Self::Both);
         let signature_sufficient = matches!(self, Self::Either | Self::Signature | Self::None);
         for b in [constant, signature_necessary, signature_sufficient] {
             let mut bits = BitVec::with_capacity(1);
-- 
2.43.0


From 8c71ae4c6c3229a280acf7b723b50c639111d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:57 +0000
Subject: [PATCH 25/53] fix: verifying a command whose signer is not on the
 curve panicked

---
 base/src/user_commands/signed_command/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/base/src/user_commands/signed_command/mod.rs b/base/src/user_commands/signed_command/mod.rs
index b4712fe..b3dfe06 100644
--- a/base/src/user_commands/signed_command/mod.rs
+++ b/base/src/user_commands/signed_command/mod.rs
@@ -54,10 +54,15 @@ where
     CTX: Signer<SignedCommandPayload>,
 {
     fn verify(&self, ctx: &mut CTX) -> bool {
-        // do a slightly sketchy conversion via address string. Safe to unwrap as we know it was valid to begin with
+        // do a slightly sketchy conversion via address string
         // TODO replace this with a proper `.into` conversion when supported in proof-systems
-        let signer_uncompressed = PubKey::from_address(&self.signer.into_address()).unwrap();
-        ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+        match PubKey::from_address(&self.signer.into_address()) {
+            Ok(signer_uncompressed) => {
+                ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+            }
+            // a signer that is not a point on the curve has not signed anything
+            Err(_) => false,
+        }
     }
 }
 
-- 
2.43.0


From 9fadd9ede33ba9fa32232fd3c2a1405a5facb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:54 +0000
Subject: [PATCH 26/53] fix: reading the text of a truncated memo panicked

---
 base/src/user_commands/memo.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 75dd22c..f9698c2 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -40,8 +40,16 @@ impl SignedCommandMemo {
 
     /// Convert into text
     pub fn to_text(&self) -> String {
-        let len = self.0[1] as usize;
-        String::from_utf8_lossy(&self.0[2..(2 + len)]).into()
+        // a memo taken from the wire can be shorter than it claims to be
+        let len = self.0.get(1).copied().unwrap_or_default() as usize;
+        let text = self
+            .0
+            .iter()
+            .skip(2)
+            .take(len)
+            .copied()
+            .collect::<Vec<u8>>();
+        String::from_utf8_lossy(&text).into()
     }
 }
 
-- 
2.43.0


From 86a75628176dbfc9ab0df8b743788484c8ab12fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:54 +0000
Subject: [PATCH 27/53] fix: a field element in hex of the wrong length
 panicked

---
 protocol/serialization-types/src/field_and_curve_elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/field_and_curve_elements.rs b/protocol/serialization-types/src/field_and_curve_elements.rs
index c034ac8..cbbb4c5 100644
--- a/protocol/serialization-types/src/field_and_curve_elements.rs
+++ b/protocol/serialization-types/src/field_and_curve_elements.rs
@@ -139,8 +139,8 @@ impl FieldElementJson {
     pub fn try_from_hex_str(s: impl AsRef<[u8]>) -> Result<Self, hex::FromHexError> {
         let s = skip_0x_prefix_when_needed(s.as_ref());
         let bytes = hex::decode(s)?;
-        let mut b32 = [0; 32];
-        b32.copy_from_slice(&bytes);
+        let b32 = <[u8; 32]>::try_from(bytes.as_slice())
+            .map_err(|_| hex::FromHexError::InvalidStringLength)?;
         Ok(Self(b32))
     }
 }
-- 
2.43.0


From 9a0b3e515a5005dcd6560552c9d23d1e443acd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:54 +0000
Subject: [PATCH 28/53] fix: an empty or long string as a JSON char panicked or
 lost characters

---
 protocol/serialization-types/src/common.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 36838b5..b068020 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -208,7 +208,12 @@ impl<'de> Deserialize<'de> for CharJson {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        Ok(s.as_bytes()[0].into())
+        match s.as_bytes() {
+            [c] => Ok((*c).into()),
+            _ => Err(<D::Error as serde::de::Error>::custom(format!(
+                "Invalid char: {s}"
+            ))),
+        }
     }
 }
 
-- 
2.43.0


From 6a631a107587b341493679ffaf3137be12aa41fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:54 +0000
Subject: [PATCH 29/53] fix: malformed JSON for a list tagged enum panicked

---
 protocol/serialization-types/src/macros.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/macros.rs b/protocol/serialization-types/src/macros.rs
index 9b987f3..58e01fb 100644
--- a/protocol/serialization-types/src/macros.rs
+++ b/protocol/serialization-types/src/macros.rs
@@ -103,7 +103,11 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                 let v = ::serde_json::Value::deserialize(deserializer)?;
                 if let Some(array) = v.as_array() {
                     let e: $tp = match array.len() {
-                        0 => panic!("Non-empty array expected"),
+                        0 => {
+                            return Err(<D::Error as ::serde::de::Error>::custom(
+                                "Non-empty array expected",
+                            ))
+                        }
                         1 => ::serde_json::from_value(array[0].clone())
                             .map_err(<D::Error as ::serde::de::Error>::custom)?,
                         2 => {
@@ -121,7 +125,7 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                     };
                     Ok(e.into())
                 } else {
-                    panic!("Array expected")
+                    Err(<D::Error as ::serde::de::Error>::custom("Array expected"))
                 }
             }
         }
-- 
2.43.0


From 36b2e986fd08a84524f5d5a5df7da1aa4eca2b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:45 +0000
Subject: [PATCH 30/53] fix: a sign inside the fraction of an amount was read
 as a digit

---
 base/src/numbers.rs                        | 4 ++--
 protocol/serialization-types/src/common.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/src/numbers.rs b/base/src/numbers.rs
index 9ffb2c1..6b0c0b5 100644
--- a/base/src/numbers.rs
+++ b/base/src/numbers.rs
@@ -144,8 +144,8 @@ impl std::str::FromStr for Amount {
             .parse()?;
         let r_str = iter.next().unwrap_or("0");
         let r: u64 = format!("{:0<9}", r_str).parse()?;
-        // a longer fraction would be scaled wrongly
-        let amount = if r_str.len() <= MINA_PRECISION_DIGITS {
+        // a longer fraction, or one with a sign, would be scaled wrongly
+        let amount = if r_str.len() <= MINA_PRECISION_DIGITS && !r_str.starts_with('+') {
             q.checked_mul(MINA_PRECISION).and_then(|q| q.checked_add(r))
         } else {
             None
diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index b068020..84d17d9 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -123,8 +123,8 @@ impl<'de> Deserialize<'de> for DecimalJson {
         let r: u64 = format!("{:0<9}", r_str)
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        // a longer fraction would be scaled wrongly
-        let amount = if r_str.len() <= MINA_PRECISION_DIGITS {
+        // a longer fraction, or one with a sign, would be scaled wrongly
+        let amount = if r_str.len() <= MINA_PRECISION_DIGITS && !r_str.starts_with('+') {
             q.checked_mul(MINA_PRECISION).and_then(|q| q.checked_add(r))
         } else {
             None
-- 
2.43.0


From 5d611e30972af3f25772a661f81d8b2d79da876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:46 +0000
Subject: [PATCH 31/53] fix: the length inside a base58 vrf output was not
 checked

---
 protocol/serialization-types/src/consensus_state.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/protocol/serialization-types/src/consensus_state.rs b/protocol/serialization-types/src/consensus_state.rs
index 9ac76fd..82e91ce 100644
--- a/protocol/serialization-types/src/consensus_state.rs
+++ b/protocol/serialization-types/src/consensus_state.rs
@@ -80,7 +80,13 @@ impl<'de> Deserialize<'de> for VrfOutputTruncatedBase58Json {
             .with_check(Some(version_bytes::VRF_TRUNCATED_OUTPUT))
             .into_vec()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(decoded.into_iter().skip(2).collect()))
+        // the check version byte, and the length of what follows
+        match decoded.as_slice() {
+            [_, len, bytes @ ..] if *len as usize == bytes.len() => Ok(Self(bytes.to_vec())),
+            _ => Err(<D::Error as serde::de::Error>::custom(
+                "Invalid vrf output length",
+            )),
+        }
     }
 }
 
-- 
2.43.0


From acfbbaed2a730784caaeeb36d57851422f6004d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:46 +0000
Subject: [PATCH 32/53] fix: malformed timing of an account was read as no
 timing

---
 base/src/account/timing.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/base/src/account/timing.rs b/base/src/account/timing.rs
index 3bcad69..28b8e08 100644
--- a/base/src/account/timing.rs
+++ b/base/src/account/timing.rs
@@ -96,10 +96,18 @@ impl FromGraphQLJson for Timing {
     where
         Self: Sized,
     {
-        Ok(match TimedData::from_graphql_json(json) {
-            Ok(data) => Self::Timed(data),
-            _ => Self::Untimed,
-        })
+        // the fields of an account that is not timed are null
+        const FIELDS: [&str; 5] = [
+            "initialMinimumBalance",
+            "cliffTime",
+            "cliffAmount",
+            "vestingPeriod",
+            "vestingIncrement",
+        ];
+        if FIELDS.iter().all(|field| json[field].is_null()) {
+            return Ok(Self::Untimed);
+        }
+        Ok(Self::Timed(TimedData::from_graphql_json(json)?))
     }
 }
 
-- 
2.43.0


From 4c5064f37291f230c6442889d39cb57325f0fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:30 +0000
Subject: [PATCH 33/53] fix: a number that is not below the field modulus is an
 error for Field, not a panic

---
 crypto/src/hash/types.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/src/hash/types.rs b/crypto/src/hash/types.rs
index d0f03f5..06bf294 100644
--- a/crypto/src/hash/types.rs
+++ b/crypto/src/hash/types.rs
@@ -10,7 +10,7 @@
 //! Depending on the type of hash a different byte prefix is used in the human readable form
 //!
 
-use ark_ff::BigInteger256;
+use ark_ff::{fields::PrimeField, BigInteger256};
 use mina_serialization_types::{impl_strconv_via_json, json::*, v1::*};
 use num::{BigUint, Num};
 use proof_systems::{
@@ -28,7 +28,9 @@ impl Field {
     pub fn from_str_radix(s: &str, radix: u32) -> anyhow::Result<Self> {
         let big = BigUint::from_str_radix(s, radix)?;
         let big256: BigInteger256 = big.try_into().map_err(anyhow::Error::msg)?;
-        Ok(Self::from(&Fp::from(big256)))
+        let fp = Fp::from_repr(big256)
+            .ok_or_else(|| anyhow::Error::msg("Not smaller than the field modulus"))?;
+        Ok(Self::from(&fp))
     }
 }
 
-- 
2.43.0


From e052f040b2ef19c7391abda346023ec7516faf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:27 +0000
Subject: [PATCH 34/53] fix: writing a public key that is not below the field
 modulus panicked

---
 protocol/serialization-types/src/signatures.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/protocol/serialization-types/src/signatures.rs b/protocol/serialization-types/src/signatures.rs
index 261817b..f3e69d1 100644
--- a/protocol/serialization-types/src/signatures.rs
+++ b/protocol/serialization-types/src/signatures.rs
@@ -8,7 +8,8 @@ use crate::{
     impl_strconv_via_json, version_bytes,
 };
 use mina_serialization_types_macros::AutoFrom;
-use proof_systems::mina_signer::CompressedPubKey;
+use proof_systems::mina_signer::{BaseField, CompressedPubKey};
+use proof_systems::o1_utils::field_helpers::FieldHelpers;
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use versioned::Versioned;
 
@@ -38,10 +39,12 @@ impl Serialize for PublicKeyJson {
     where
         S: Serializer,
     {
-        let pk = CompressedPubKey::from(&CompressedCurvePoint {
-            x: self.x,
+        // a key read from the network can hold a number that is not below the field modulus
+        let x = BaseField::from_bytes(&self.x).map_err(<S::Error as serde::ser::Error>::custom)?;
+        let pk = CompressedPubKey {
+            x,
             is_odd: self.is_odd,
-        });
+        };
         let s = pk.into_address();
         serializer.serialize_str(&s)
     }
-- 
2.43.0


From 3ba1ccb1c696e73842d3d397797103fe43cd11ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:48 +0000
Subject: [PATCH 35/53] fix: numbers in a candidate chain could overflow or
 divide by zero in chain selection

---
 consensus/src/common.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index b07b709..fc0f415 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -67,7 +67,7 @@ where
         match self.0.len() {
             0 => (),
             n => {
-                if new.get_height().0 != self.0[n - 1].get_height().0 + 1 {
+                if Some(new.get_height().0) != self.0[n - 1].get_height().0.checked_add(1) {
                     return Err(ConsensusError::InvalidHeight);
                 }
             }
@@ -105,7 +105,7 @@ where
     /// The output is the epoch slot number in [0, slots_per_epoch].
     pub fn epoch_slot(&self) -> Option<u32> {
         self.global_slot()
-            .map(|s| (s.slot_number.0 % s.slots_per_epoch.0))
+            .and_then(|s| s.slot_number.0.checked_rem(s.slots_per_epoch.0))
     }
 
     /// The function the length of a chain. The output is the length of the chain in blocks.
@@ -238,7 +238,7 @@ where
         let b_prev_lock_checkpoint = &b.staking_epoch_data.lock_checkpoint;
 
         let check = |s1: &ConsensusState, s2: &ConsensusState, s2_epoch_slot: Option<u32>| {
-            if s1.epoch_count.0 == s2.epoch_count.0 + 1
+            if Some(s1.epoch_count.0) == s2.epoch_count.0.checked_add(1)
                 && s2_epoch_slot >= Some(self.config().slots_per_epoch.0 * 2 / 3)
             {
                 // S1 is one epoch ahead of S2 and S2 is not in the seed update range
@@ -320,7 +320,9 @@ where
         };
 
         // compute projected window density
-        let projected_window_density = projected_window.iter().map(|s| s.0).sum();
+        let projected_window_density = projected_window
+            .iter()
+            .fold(0, |sum: u32, s| sum.saturating_add(s.0));
 
         // compute minimum window density
         Ok(min(
-- 
2.43.0


From 6c42a7568a5ac4fc8d8bb82239653262fc7ec8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 36/53] fix: parameters of a wallet's password hash above 32
 bits were truncated

---
 secrets/src/secret_box/types_impls.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 7da3cef..c973b81 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -29,7 +29,9 @@ impl TryFrom<SecretBoxJson> for SecretBox {
             nonce: base58_decode(json.nonce)?,
             pwsalt,
             pw_mem_limit_bytes: json.pwdiff[0],
-            pw_ops_limit: json.pwdiff[1] as u32,
+            pw_ops_limit: json.pwdiff[1]
+                .try_into()
+                .map_err(|_| Error::Argon2Error("Invalid pwdiff".into()))?,
             ciphertext: base58_decode(json.ciphertext)?,
         })
     }
@@ -85,8 +87,10 @@ impl TryInto<serde_json::Value> for SecretBox {
 impl SecretBox {
     pub(super) fn try_gen_secret(&self, password: impl AsRef<[u8]>) -> Result<Vec<u8>, Error> {
         let hasher = (move || {
+            let m_cost = u32::try_from(self.pw_mem_limit_bytes / 1024)
+                .map_err(|_| argon2::Error::MemoryTooMuch)?;
             let mut param_builder = ParamsBuilder::new();
-            param_builder.m_cost((self.pw_mem_limit_bytes / 1024) as u32)?;
+            param_builder.m_cost(m_cost)?;
             param_builder.t_cost(self.pw_ops_limit)?;
             Ok(Argon2::new(
                 argon2::Algorithm::Argon2i,
-- 
2.43.0


From b51366790d50f9e36330433e093f4e7be3b1971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 37/53] fix: opening a wallet with a nonce of the wrong length
 or an empty key panicked

---
 secrets/src/secret_box/types_impls.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index c973b81..4d59db1 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -113,6 +113,10 @@ impl SecretBox {
 
     /// Gets raw bytes(little-endian) of the private key from the wallet with a password
     pub fn get_private_key_bytes(&self, password: impl AsRef<[u8]>) -> Result<Vec<u8>, Error> {
+        const NONCE_LEN: usize = 24;
+        if self.nonce.len() != NONCE_LEN {
+            return Err(Error::AeadError("Invalid nonce length".into()));
+        }
         let secret = self.try_gen_secret(password)?;
         let key = GenericArray::from_slice(secret.as_slice());
         let cipher = XSalsa20Poly1305::new(key);
@@ -122,6 +126,9 @@ impl SecretBox {
                 self.ciphertext.as_ref(),
             )
             .map_err(|e| Error::AeadError(format!("{}", e)))?;
+        if bytes.is_empty() {
+            return Err(Error::AeadError("Empty private key".into()));
+        }
         bytes.remove(0);
         Ok(bytes)
     }
-- 
2.43.0


From 098cd8912e4c19875eae4c42ab547247020a375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:41 +0000
Subject: [PATCH 38/53] fix: reject consensus states whose flags are missing or
 not booleans

---
 base/src/consensus_state.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/src/consensus_state.rs b/base/src/consensus_state.rs
index 4776d46..09c5987 100644
--- a/base/src/consensus_state.rs
+++ b/base/src/consensus_state.rs
@@ -234,7 +234,9 @@ impl FromGraphQLJson for ConsensusState {
             next_epoch_data: EpochData::from_graphql_json(&json["nextEpochData"])?,
             has_ancestor_in_same_checkpoint_window: json["hasAncestorInSameCheckpointWindow"]
                 .as_bool()
-                .unwrap_or_default(),
+                .ok_or_else(|| {
+                    anyhow::anyhow!("hasAncestorInSameCheckpointWindow should be a boolean")
+                })?,
             block_stake_winner: CompressedPubKey::from_address(
                 json["blockStakeWinner"].as_str().unwrap_or_default(),
             )?,
@@ -244,7 +246,9 @@ impl FromGraphQLJson for ConsensusState {
             coinbase_receiver: CompressedPubKey::from_address(
                 json["coinbaseReceiever"].as_str().unwrap_or_default(),
             )?,
-            supercharge_coinbase: json["superchargedCoinbase"].as_bool().unwrap_or_default(),
+            supercharge_coinbase: json["superchargedCoinbase"]
+                .as_bool()
+                .ok_or_else(|| anyhow::anyhow!("superchargedCoinbase should be a boolean"))?,
         })
     }
 }
-- 
2.43.0


From b01cc7afa85e50dd43f5f2223af1e0c94e0adc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:41 +0000
Subject: [PATCH 39/53] fix: reject accounts whose flags or delegate are of
 another type

---
 base/src/account/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/src/account/mod.rs b/base/src/account/mod.rs
index 6a9b7bd..c5f6de0 100644
--- a/base/src/account/mod.rs
+++ b/base/src/account/mod.rs
@@ -160,8 +160,10 @@ impl FromGraphQLJson for Account {
     where
         Self: Sized,
     {
-        let is_disabled = json["isDisabled"].as_bool().unwrap_or_default();
-        let is_token_owner = json["isTokenOwner"].as_bool().unwrap_or_default();
+        let is_disabled =
+            serde_json::from_value::<Option<bool>>(json["isDisabled"].clone())?.unwrap_or_default();
+        let is_token_owner = serde_json::from_value::<Option<bool>>(json["isTokenOwner"].clone())?
+            .unwrap_or_default();
         Ok(Self {
             public_key: CompressedPubKey::from_address(
                 json["publicKey"].as_str().unwrap_or_default(),
@@ -189,8 +191,8 @@ impl FromGraphQLJson for Account {
             receipt_chain_hash: ChainHash::from_str(
                 json["receiptChainHash"].as_str().unwrap_or_default(),
             )?,
-            delegate: match json["delegate"].as_str() {
-                Some(s) => Some(CompressedPubKey::from_address(s)?),
+            delegate: match serde_json::from_value::<Option<String>>(json["delegate"].clone())? {
+                Some(s) => Some(CompressedPubKey::from_address(&s)?),
                 _ => None,
             },
             voting_for: StateHash::from_str(json["votingFor"].as_str().unwrap_or_default())?,
-- 
2.43.0


From 9c735a960bc8b2b80cf3ba91fdc2387db087695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:41 +0000
Subject: [PATCH 40/53] fix: accept a first block of height zero as the start
 of the best chain

---
 network/src/processor/naive_transition_frontier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/network/src/processor/naive_transition_frontier.rs b/network/src/processor/naive_transition_frontier.rs
index e904c8e..5495e8c 100644
--- a/network/src/processor/naive_transition_frontier.rs
+++ b/network/src/processor/naive_transition_frontier.rs
@@ -110,7 +110,7 @@ impl TransitionFrontier for NaiveTransitionFrontier<ProtocolStateLegacy, MerkleP
     async fn add_block(&mut self, block: Self::Block) -> anyhow::Result<()> {
         let mut ctx = mina_signer::create_legacy::<SignedCommandPayload>(NetworkId::MAINNET);
         anyhow::ensure!(block.verify(&mut ctx), "block verification failure");
-        if self.best_chain.length() < 1 {
+        if self.best_chain.top().is_none() {
             self.best_chain.push(block.protocol_state)?;
         } else {
             let candidate_chains = vec![ProtocolStateChain(vec![block.protocol_state])];
@@ -170,7 +170,7 @@ impl TransitionFrontier for NaiveTransitionFrontier<ProtocolState, MerkleProofBe
         // TODO: Block verification
         let ProtocolStateWithSparseMerkleLedger(block, proofs) = block;
         let state_hash_of_new_block = block.state_hash_fp();
-        if self.best_chain.length() < 1 {
+        if self.best_chain.top().is_none() {
             self.best_chain.push(block)?;
             self.sparse_merkle_ledger = proofs;
         } else {
-- 
2.43.0


From bb94e3c61b40009e0ef4153c3b73bdbe59d7979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:45 +0000
Subject: [PATCH 41/53] fix: read vesting period before vesting increment in
 stored timings

---
 protocol/serialization-types/src/account.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/account.rs b/protocol/serialization-types/src/account.rs
index 4b8506f..987a154 100644
--- a/protocol/serialization-types/src/account.rs
+++ b/protocol/serialization-types/src/account.rs
@@ -192,10 +192,10 @@ pub struct TimedData {
     pub cliff_time: BlockTimeV1,
     /// Amount extra available when fully fested
     pub cliff_amount: AmountV1,
-    /// Amount released in each vesting period
-    pub vesting_increment: AmountV1,
     /// Period in whcih allocation is released in chunks
     pub vesting_period: BlockTimeV1,
+    /// Amount released in each vesting period
+    pub vesting_increment: AmountV1,
 }
 
 /// TODO
-- 
2.43.0


From 96492b9e501f430136108d90195b2ea7cb6323da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:57 +0000
Subject: [PATCH 42/53] fix: report store failures while reading a genesis
 ledger

---
 ledger/src/rocksdb_genesis_ledger.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ledger/src/rocksdb_genesis_ledger.rs b/ledger/src/rocksdb_genesis_ledger.rs
index 3516fd3..67ed07d 100644
--- a/ledger/src/rocksdb_genesis_ledger.rs
+++ b/ledger/src/rocksdb_genesis_ledger.rs
@@ -80,9 +80,9 @@ impl<'a, const DEPTH: usize, Account: Hashable + BinProtSerializationType<'a> +
                 if let Ok((k, _)) = r {
                     k.first() == Some(&ACCOUNT_PREFIX)
                 } else {
-                    false
+                    true
                 }
-            }); // Ensures the iterator stops when the prefix stops matching
+            }); // Ensures the iterator stops when the prefix stops matching, and passes errors on
 
         Box::new(db_iter.map(decode_account_from_kv))
     }
-- 
2.43.0


From fd28fe49d34a35cc2a45d27437403f8e3cab2dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:31 +0000
Subject: [PATCH 43/53] fix: select polyvar variants beyond the 256th

---
 protocol/bin-prot/src/de.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 435c6e7..37c8a52 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -9,7 +9,11 @@ use crate::value::layout::*;
 use crate::ReadBinProtExt;
 use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
-use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
+use serde::de::{
+    self,
+    value::{U32Deserializer, U8Deserializer},
+    EnumAccess, IntoDeserializer, Visitor,
+};
 use serde::Deserialize;
 use std::io::{BufRead, BufReader, ErrorKind, Read};
 
@@ -417,8 +421,10 @@ macro_rules! impl_polyvar_enum_access {
                         }
                     })
                     .ok_or(Error::UnknownPolyvarTag(self.hash))?;
-                let de: U8Deserializer<Self::Error> = (index as u8).into_deserializer();
+                // a polyvar may have more variants than an index of one byte can tell apart
+                let de: U32Deserializer<Self::Error> = (index as u32).into_deserializer();
                 let v = seed.deserialize(de)?;
+                // the variant is selected, the index is not looked at again
                 Ok((v, Enum::new(self.de, index as u8)))
             }
         }
-- 
2.43.0


From e833f8d087f05156e65b6d1f1e459a3025a65723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 44/53] fix: decode maps as pairs of keys and values

The length that the bytes claim was allocated up front (which panicked or
aborted for large claims), and empty strings were used in place of the keys.
---
 protocol/bin-prot/src/de.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 37c8a52..6fd1f1b 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -306,16 +306,14 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
     // Much like `deserialize_seq` but calls the visitors `visit_map` method
     // with a `MapAccess` implementation, rather than the visitor's `visit_seq`
     // method with a `SeqAccess` implementation.
-    // Similarly need to read the length as a Nat0 then decode values
+    // Similarly need to read the length as a Nat0 then decode a key and a value
+    // for each binding
     fn deserialize_map<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        // we can't know the field names (and don't need to) if we are deserializing in
-        // stronly typed mode. To make everything work just add some dummy field names
-        let len: usize = self.rdr.bin_read_nat0()?;
-        let dummy_fields = std::iter::repeat("".to_string()).take(len).collect();
-        visitor.visit_map(MapAccess::new(self, dummy_fields))
+        let len = self.rdr.bin_read_nat0()?;
+        visitor.visit_map(SeqAccess::new(self, len))
     }
 
     // Structs look just like sequences
@@ -516,17 +514,33 @@ impl_variant_access!(LooselyTyped, Enum);
 #[cfg(feature = "loose_deserialization")]
 impl_variant_access!(LooselyTyped, PolyvarEnum);
 
+// The bindings of a map are a sequence in which each element is a key followed by a value
+impl<'de: 'a, 'a, R: Read> de::MapAccess<'de> for SeqAccess<'a, R, StronglyTyped> {
+    type Error = Error;
+
+    fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>> {
+        de::SeqAccess::next_element_seed(self, seed)
+    }
+
+    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value> {
+        seed.deserialize(&mut *self.de)
+    }
+}
+
+#[cfg(feature = "loose_deserialization")]
 pub(crate) struct MapAccess<'a, R: Read + 'a, Mode> {
     de: &'a mut Deserializer<R, Mode>,
     field_names: Vec<String>, // field names should be stored as a stack (first element last)
 }
 
+#[cfg(feature = "loose_deserialization")]
 impl<'a, R: Read + 'a, Mode> MapAccess<'a, R, Mode> {
     pub fn new(de: &'a mut Deserializer<R, Mode>, field_names: Vec<String>) -> Self {
         Self { de, field_names }
     }
 }
 
+#[cfg(feature = "loose_deserialization")]
 macro_rules! impl_map_access {
     ($ty: ty) => {
         impl<'de: 'a, 'a, R: Read> de::MapAccess<'de> for MapAccess<'a, R, $ty> {
@@ -559,8 +573,6 @@ macro_rules! impl_map_access {
     };
 }
 
-impl_map_access!(StronglyTyped);
-
 #[cfg(feature = "loose_deserialization")]
 impl_map_access!(LooselyTyped);
 
-- 
2.43.0


From 06555f8c99b96221cb1418da2da087424712a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 45/53] fix: encoding a map panicked

Write the number of bindings, the keys and values were written already.
---
 protocol/bin-prot/src/ser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/ser.rs b/protocol/bin-prot/src/ser.rs
index 41a37bb..05bc02c 100644
--- a/protocol/bin-prot/src/ser.rs
+++ b/protocol/bin-prot/src/ser.rs
@@ -252,8 +252,8 @@ where
     // First the size of the hash table is written out as a Nat0.t.
     // Then the writer iterates over each binding in the hash table
     // and writes out the key followed by the value.
-    fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap> {
-        unimplemented!();
+    fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap> {
+        self.serialize_seq(len)
     }
 
     fn serialize_struct(self, _name: &'static str, _len: usize) -> Result<Self::SerializeStruct> {
-- 
2.43.0


From 6934a437608292a0ad09442b69a8baca91c97d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:26 +0000
Subject: [PATCH 46/53] fix: a block file left half written by an interrupted
 crawler counted as checked

---
 apps/tools/blocks-crawler/src/blocks.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/tools/blocks-crawler/src/blocks.rs b/apps/tools/blocks-crawler/src/blocks.rs
index 3035dbb..f11318c 100644
--- a/apps/tools/blocks-crawler/src/blocks.rs
+++ b/apps/tools/blocks-crawler/src/blocks.rs
@@ -113,10 +113,13 @@ pub fn parse_block_json(block_json: &serde_json::Value) -> Result<ExternalTransi
 
 pub fn write_json(op_type: &str, network: &str, block: &BlockInfo, block_json: &serde_json::Value) {
     let output_path = format!("./output/{}/{}-{}.json", op_type, network, block);
+    // A block counts as checked once its file exists, so it gets its name only when it is complete
+    let temp_path = format!("{}.tmp", output_path);
     // Save the JSON structure into file path: ./output/succeeded/
     std::fs::write(
-        output_path,
+        &temp_path,
         serde_json::to_string_pretty(&block_json).unwrap(),
     )
     .unwrap();
+    std::fs::rename(temp_path, output_path).unwrap();
 }
-- 
2.43.0


From 402a7deab63a16837333fe4b3f23983cbf611eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 47/53] fix: a wallet page's request that the node does not
 answer brought the wallet down

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 18 ++++++++---------
 apps/wasm/mvp/src/payment.rs              | 24 +++++++++++------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 92c57ca..589f769 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -86,9 +86,9 @@ pub async fn lock_account(endpoint: String, pub_key: String) -> Result<String, J
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -109,9 +109,9 @@ pub async fn unlock_account(
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -128,8 +128,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 9086659..3cd2768 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -86,9 +86,9 @@ pub async fn account_info(pub_key: String) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -106,9 +106,9 @@ pub async fn lock_account(pub_key: String) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -125,9 +125,9 @@ pub async fn unlock_account(pub_key: String, password: String) -> Result<String,
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -144,8 +144,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
-- 
2.43.0


From ab919e97b6343972e97f524a6130ad62cb0a7f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 48/53] fix: quotes in a password or address changed what the
 wallets ask of the node

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 12 ++++++------
 apps/wasm/mina-berkeley/src/utils.rs      |  5 +++++
 apps/wasm/mvp/src/payment.rs              | 16 ++++++++--------
 apps/wasm/mvp/src/utils.rs                |  5 +++++
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 589f769..d4033f0 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -77,9 +77,9 @@ pub async fn lock_account(endpoint: String, pub_key: String) -> Result<String, J
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            lockAccount(input: {{publicKey: \"{}\"}}) {{    account {{      locked    }}  }}
+            lockAccount(input: {{publicKey: {}}}) {{    account {{      locked    }}  }}
         }}",
-        pub_key
+        graphql_string(&pub_key)
     );
     let res = client
         .post(endpoint)
@@ -101,8 +101,8 @@ pub async fn unlock_account(
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            unlockAccount(input: {{publicKey: \"{}\", password: \"{}\"}}) {{    account {{      locked    }}  }}
-        }}", pub_key, password
+            unlockAccount(input: {{publicKey: {}, password: {}}}) {{    account {{      locked    }}  }}
+        }}", graphql_string(&pub_key), graphql_string(&password)
     );
     let res = client
         .post(endpoint)
@@ -120,8 +120,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: \"{}\", from: \"{}\"}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, payment.to(), payment.from()
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_string(&payment.to()), graphql_string(&payment.from())
     );
     let res = client
         .post(endpoint)
diff --git a/apps/wasm/mina-berkeley/src/utils.rs b/apps/wasm/mina-berkeley/src/utils.rs
index 49ad2e1..a31a01e 100644
--- a/apps/wasm/mina-berkeley/src/utils.rs
+++ b/apps/wasm/mina-berkeley/src/utils.rs
@@ -14,6 +14,11 @@ pub(crate) fn map_js_err<T: Display>(err: T) -> JsError {
     JsError::new(&format!("{err}"))
 }
 
+/// A string literal of GraphQL; it has the escape sequences of JSON
+pub(crate) fn graphql_string(s: &str) -> String {
+    serde_json::json!(s).to_string()
+}
+
 #[wasm_bindgen(inline_js = r#"
         function js_to_string(v) {
             return `${v}`
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 3cd2768..e2b5e23 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -77,9 +77,9 @@ pub async fn account_info(pub_key: String) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "query MyQuery {{  
-            account(publicKey: \"{}\") {{ balance {{ total }} inferredNonce locked  }}
+            account(publicKey: {}) {{ balance {{ total }} inferredNonce locked  }}
         }}",
-        pub_key
+        graphql_string(&pub_key)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -97,9 +97,9 @@ pub async fn lock_account(pub_key: String) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            lockAccount(input: {{publicKey: \"{}\"}}) {{    account {{      locked    }}  }}
+            lockAccount(input: {{publicKey: {}}}) {{    account {{      locked    }}  }}
         }}",
-        pub_key
+        graphql_string(&pub_key)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -117,8 +117,8 @@ pub async fn unlock_account(pub_key: String, password: String) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            unlockAccount(input: {{publicKey: \"{}\", password: \"{}\"}}) {{    account {{      locked    }}  }}
-        }}", pub_key, password
+            unlockAccount(input: {{publicKey: {}, password: {}}}) {{    account {{      locked    }}  }}
+        }}", graphql_string(&pub_key), graphql_string(&password)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -136,8 +136,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: \"{}\", from: \"{}\"}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, payment.to(), payment.from()
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_string(&payment.to()), graphql_string(&payment.from())
     );
     let res = client
         .post("http://localhost:3085/graphql")
diff --git a/apps/wasm/mvp/src/utils.rs b/apps/wasm/mvp/src/utils.rs
index 97e6689..8b6b145 100644
--- a/apps/wasm/mvp/src/utils.rs
+++ b/apps/wasm/mvp/src/utils.rs
@@ -34,6 +34,11 @@ pub(crate) fn map_js_err<T: Display>(err: T) -> JsError {
     JsError::new(&format!("{err}"))
 }
 
+/// A string literal of GraphQL; it has the escape sequences of JSON
+pub(crate) fn graphql_string(s: &str) -> String {
+    serde_json::json!(s).to_string()
+}
+
 #[wasm_bindgen(inline_js = r#"
         function js_to_string(v) {
             return `${v}`
-- 
2.43.0


From 048f185abdb2ab85972f910ee885769fbc8d9279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 49/53] fix: payments of the wallets lost their nonce, memo and
 validity

---
 apps/wasm/mina-berkeley/src/js_exports.rs |  4 ++--
 apps/wasm/mina-berkeley/src/payment.rs    | 21 +++++++++++++++++++
 apps/wasm/mvp/src/payment.rs              | 25 +++++++++++++++++++++--
 3 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index d4033f0..bcc0418 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -120,8 +120,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_string(&payment.to()), graphql_string(&payment.from())
+            sendPayment(input: {{{}}}) {{    payment {{      id    }}  }}
+        }}", payment.graphql_fields()?
     );
     let res = client
         .post(endpoint)
diff --git a/apps/wasm/mina-berkeley/src/payment.rs b/apps/wasm/mina-berkeley/src/payment.rs
index 1c2bc1a..3094fab 100644
--- a/apps/wasm/mina-berkeley/src/payment.rs
+++ b/apps/wasm/mina-berkeley/src/payment.rs
@@ -70,4 +70,25 @@ impl Payment {
             }
         }
     }
+
+    /// The fields of the input of a GraphQL sendPayment mutation
+    pub fn graphql_fields(&self) -> Result<String, JsError> {
+        let mut fields = format!(
+            "fee: \"{}\", amount: \"{}\", to: {}, from: {}",
+            self.fee_u64()?,
+            self.amount_u64()?,
+            graphql_string(&self.to()),
+            graphql_string(&self.from())
+        );
+        if let Some(nonce) = self.nonce() {
+            fields.push_str(&format!(", nonce: \"{nonce}\""));
+        }
+        if let Some(memo) = self.memo() {
+            fields.push_str(&format!(", memo: {}", graphql_string(&memo)));
+        }
+        if let Some(valid_until) = self.valid_until_u32()? {
+            fields.push_str(&format!(", validUntil: \"{valid_until}\""));
+        }
+        Ok(fields)
+    }
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index e2b5e23..98288cd 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -70,6 +70,27 @@ impl Payment {
             }
         }
     }
+
+    /// The fields of the input of a GraphQL sendPayment mutation
+    pub fn graphql_fields(&self) -> Result<String, JsError> {
+        let mut fields = format!(
+            "fee: \"{}\", amount: \"{}\", to: {}, from: {}",
+            self.fee_u64()?,
+            self.amount_u64()?,
+            graphql_string(&self.to()),
+            graphql_string(&self.from())
+        );
+        if let Some(nonce) = self.nonce() {
+            fields.push_str(&format!(", nonce: \"{nonce}\""));
+        }
+        if let Some(memo) = self.memo() {
+            fields.push_str(&format!(", memo: {}", graphql_string(&memo)));
+        }
+        if let Some(valid_until) = self.valid_until_u32()? {
+            fields.push_str(&format!(", validUntil: \"{valid_until}\""));
+        }
+        Ok(fields)
+    }
 }
 
 #[wasm_bindgen(js_name = accountInfo)]
@@ -136,8 +157,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_string(&payment.to()), graphql_string(&payment.from())
+            sendPayment(input: {{{}}}) {{    payment {{      id    }}  }}
+        }}", payment.graphql_fields()?
     );
     let res = client
         .post("http://localhost:3085/graphql")
-- 
2.43.0


From 995eeddefdfc7a7e7156835c23adf6c1b66d5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 50/53] fix: the wallet read the end of a status stream for
 ever

---
 apps/wasm/mvp/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index 225db0a..f722310 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -155,6 +155,7 @@ impl RequestResponseCodec for NodeStatusCodec {
         loop {
             let mut line = String::new();
             match reader.read_line(&mut line).await {
+                Ok(0) => break,
                 Ok(n) => {
                     let line = line.trim();
                     if !line.is_empty() {
-- 
2.43.0


From 331cb3f5caeb379490dc13f8f677428e33100c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 51/53] fix: connecting to something that is no address brought
 the wallet down

---
 apps/wasm/mvp/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index f722310..1c75b51 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -34,7 +34,7 @@ async fn connect_async(request: &ConnectRequest) -> anyhow::Result<CommonRespons
         builder.build()?
     };
 
-    let parsed_addr: Multiaddr = request.address.parse().unwrap();
+    let parsed_addr: Multiaddr = request.address.parse()?;
     log::info!(
         "[WASM] Connecting to proxy server via ws {} ... ",
         request.address
-- 
2.43.0


From ece9ff94c33ff4dafd8b1240cadd999035f76c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 52/53] fix: the wallet reported success when it could not dial

---
 apps/wasm/mvp/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index 1c75b51..ed00360 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -58,13 +58,15 @@ async fn connect_async(request: &ConnectRequest) -> anyhow::Result<CommonRespons
                 }
             }
         }
-        Err(e) => log::error!("[WASM] Fail to dail: {}", e),
+        Err(e) => {
+            log::error!("[WASM] Fail to dail: {}", e);
+            Ok({
+                let mut r = CommonResponse::new();
+                r.error_message = e.to_string();
+                r
+            })
+        }
     }
-    Ok({
-        let mut r = CommonResponse::new();
-        r.success = true;
-        r
-    })
 }
 
 #[derive(NetworkBehaviour)]
-- 
2.43.0


From 7624e165a687b29a764ef1beae5732dda707772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:01 +0000
Subject: [PATCH 53/53] fix: the page of peers showed none of what it was told

---
 apps/wasm/mvp/web/pages/libp2p.vue | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/apps/wasm/mvp/web/pages/libp2p.vue b/apps/wasm/mvp/web/pages/libp2p.vue
index 7da9f00..c70b46f 100644
--- a/apps/wasm/mvp/web/pages/libp2p.vue
+++ b/apps/wasm/mvp/web/pages/libp2p.vue
@@ -40,10 +40,10 @@
         >
           <td>{{ id }}</td>
           <td>{{ peers[id].connected }}</td>
-          <td>{{ peers[id].syncStatus }}</td>
-          <td>{{ peers[id].protocolStateHash }}</td>
-          <td>{{ peers[id].gitCommit }}</td>
-          <td>{{ peers[id].uptimeMinutes }}</td>
+          <td>{{ peers[id].sync_status }}</td>
+          <td>{{ peers[id].protocol_state_hash }}</td>
+          <td>{{ peers[id].git_commit }}</td>
+          <td>{{ getUptimeMinutes(peers[id]) }}</td>
         </tr>
       </table>
     </div>
@@ -81,7 +81,7 @@ export default {
       try {
         let ps = decodePeerStatus(msg);
         console.log(`[update] decoded msg: ${ps}`);
-        this.peers[ps.peerId] = ps;
+        this.peers[ps.peer_id] = ps;
         this.peerKeys = Object.keys(this.peers);
       } catch (e) {
         console.log(e);
@@ -116,6 +116,10 @@ export default {
       this.peers = {};
       this.peerKeys = [];
     },
+    getUptimeMinutes(peer) {
+      const { low, high } = peer.uptime_minutes ?? { low: 0, high: 0 };
+      return ((BigInt(high) << BigInt(32)) | BigInt(low >>> 0)).toString();
+    },
     getPeerCount() {
       return this.peerKeys.length;
     },
-- 
2.43.0

