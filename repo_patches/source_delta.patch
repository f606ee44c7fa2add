From 2f7d7a47e243ea172763cb9d8ac583040b4e459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 1/7] fix: base64: reject text with a single leftover character

---
 ser-write-json/src/de.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 6fb1043..44550e0 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -806,6 +806,8 @@ impl<'de, P> Deserializer<'de, P> {
         let input = self.input_mut()?;
         let (dlen, mut elen) = crate::base64::decode(input);
         match input.get(elen) {
+            /* a single leftover character can't encode a byte */
+            Some(&(QU|b'=')) if elen % 4 == 1 => Err(Error::UnexpectedChar),
             Some(&QU) => Ok(self.split_input(dlen, elen + 1 - dlen)),
             Some(&b'=') => { /* eat padding */
                 if let Some(pos) = input.get(elen+1..).and_then(|slice|
-- 
2.43.0


From 82288a76def0ffc3e8f19e8dafbd05a597ed7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 2/7] fix: json: deserialize newtype structs as object keys

---
 ser-write-json/src/de.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 44550e0..4f1ddfb 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -1445,9 +1445,19 @@ impl<'de, 'a, P> de::Deserializer<'de> for MapKey<'a, 'de, P>
         visitor.visit_enum(UnitVariantAccess { de: self.de })
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value>
+        where V: Visitor<'de>
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     forward_to_deserialize_any! {
         i128 u128 f32 f64 string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
+        bytes byte_buf option unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From 3142046520b7478289fa6c30c98c2c6b5bcf8b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 3/7] fix: msgpack: skip nested messages without recursion

Deserializer::eat_message recursed once per nesting level, so a short input
of nested containers overflowed the stack whenever its content was skipped.
---
 ser-write-msgpack/src/de.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index f906d6b..45803d0 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -357,6 +357,19 @@ impl<'de> Deserializer<'de> {
     /// Return `Ok(())` on success or `Err(Error::UnexpectedEof)` if there was not enough data
     /// to fully decode a MessagePack item.
     pub fn eat_message(&mut self) -> Result<()> {
+        /* count the messages left to consume instead of recursing into containers,
+           so the stack usage doesn't depend on how deep the input is nested */
+        let mut pending = 1usize;
+        while pending > 0 {
+            let items = self.eat_message_head()?;
+            /* no input can hold that many messages */
+            pending = (pending - 1).checked_add(items).ok_or(Error::UnexpectedEof)?;
+        }
+        Ok(())
+    }
+
+    /// Consume a message except for messages contained in it, return how many of these follow.
+    fn eat_message_head(&mut self) -> Result<usize> {
         use MsgType::*;
         let mtyp = match self.fetch()? {
             NIL|
@@ -402,25 +415,10 @@ impl<'de> Deserializer<'de> {
                 }
                 self.index = index;
             }
-            Array(len) => self.eat_seq_items(len)?,
-            Map(len) => self.eat_map_items(len)?
+            Array(len) => return Ok(len),
+            Map(len) => return len.checked_mul(2).ok_or(Error::UnexpectedEof)
         }
-        Ok(())
-    }
-
-    fn eat_seq_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-        }
-        Ok(())
-    }
-
-    fn eat_map_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-            self.eat_message()?;
-        }
-        Ok(())
+        Ok(0)
     }
 
 }
-- 
2.43.0


From 1699b4dcea434cfa6bac1badca6a173578b02464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 4/7] fix: msgpack: no overflow computing the end of a skipped
 message

Where usize is 32 bits wide, a 32-bit length of a skipped message could wrap
the cursor around (or panic, with overflow checks on).
---
 ser-write-msgpack/src/de.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index 45803d0..ce43998 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -386,7 +386,8 @@ impl<'de> Deserializer<'de> {
             BIN_32|STR_32 => Single(self.fetch_u32()?.try_into()?),
             EXT_8 => Single(1usize + usize::from(self.fetch_u8()?)),
             EXT_16 => Single(1usize + usize::from(self.fetch_u16()?)),
-            EXT_32 => Single(1usize + usize::try_from(self.fetch_u32()?)?),
+            EXT_32 => Single(usize::try_from(self.fetch_u32()?)?.checked_add(1)
+                             .ok_or(Error::UnexpectedEof)?),
             FLOAT_32 => Single(4),
             FLOAT_64 => Single(8),
             UINT_8 => Single(1),
@@ -409,7 +410,7 @@ impl<'de> Deserializer<'de> {
         };
         match mtyp {
             Single(len) => {
-                let index = self.index + len;
+                let index = self.index.checked_add(len).ok_or(Error::UnexpectedEof)?;
                 if index > self.input.len() {
                     return Err(Error::UnexpectedEof)
                 }
-- 
2.43.0


From 0543bd9ecab165cb0d3ca48ef4c900c8f67d1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 5/7] fix: msgpack: detect a formatted string shorter than its
 declared length

Without alloc collect_str formats a value twice. A value yielding more data in
the second pass was refused, but one yielding less was written with a length
larger than its content.
---
 ser-write-msgpack/src/ser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index 650c822..4c1287d 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -569,7 +569,11 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
         let StringLenCounter(len) = col;
         write_str_len(&mut self.output, len)?;
         let mut col = StringCollector::new(len, &mut self.output);
-        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)
+        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        if col.len != 0 {
+            return Err(Error::FormatError)
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From e73b27d53f98cf7b216a3135abf8c2cf70675f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 6/7] fix: msgpack: report a failing formatter instead of
 panicking

With alloc collect_str panicked (in ToString) when the Display implementation
of a serialized value returned an error; without alloc, and in JSON, the same
value is refused with Error::FormatError.
---
 ser-write-msgpack/src/ser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index 4c1287d..2725d0e 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -555,7 +555,9 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
     fn collect_str<T>(self, value: &T) -> Result<Self::Ok, W::Error>
         where T: fmt::Display + ?Sized
     {
-        self.serialize_str(&value.to_string())
+        let mut string = String::new();
+        fmt::write(&mut string, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        self.serialize_str(&string)
     }
 
     #[cfg(not(any(feature = "std", feature = "alloc")))]
-- 
2.43.0


From 97d5149afe22739ecb36697bc3b99710a64049a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 7/7] fix: json: skip values of any depth without recursion

An ignored value was skipped by recursing once per nesting level, so a long
run of '[' overflowed the stack; and an object key holding an escaped
surrogate was refused inside of one, although strings are passed over.
---
 ser-write-json/src/de.rs | 114 +++++++++++++++++++++++++++++++++------
 1 file changed, 97 insertions(+), 17 deletions(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 4f1ddfb..91c6b63 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -652,6 +652,101 @@ impl<'de, P> Deserializer<'de, P> {
         }
     }
 
+    /// Consume whitespace and then a string with the colon following it
+    fn eat_key(&mut self) -> Result<()> {
+        if b'"' == self.eat_whitespace()? {
+            self.eat_some(1);
+            self.eat_str_content()?;
+            self.parse_key_colon()
+        } else {
+            Err(Error::KeyMustBeAString)
+        }
+    }
+
+    /// Consume whitespace and then any value, without recursion.
+    ///
+    /// The closing characters of the surrounding containers are stacked in the
+    /// already consumed part of the input, where each one has its opening character.
+    fn eat_value(&mut self) -> Result<()> {
+        self.eat_whitespace()?;
+        let start = self.index;
+        let mut depth = 0usize;
+        'value: loop {
+            match self.eat_whitespace()? {
+                b'n' => {
+                    self.eat_some(1);
+                    self.parse_token_content(b"ull")?;
+                }
+                b't' => {
+                    self.eat_some(1);
+                    self.parse_token_content(b"rue")?;
+                }
+                b'f' => {
+                    self.eat_some(1);
+                    self.parse_token_content(b"alse")?;
+                }
+                b'"' => {
+                    self.eat_some(1);
+                    self.eat_str_content()?;
+                }
+                b'0'..=b'9'|b'-' => {
+                    let len = self.match_float().len();
+                    self.eat_some(len);
+                }
+                b'[' => {
+                    self.eat_some(1);
+                    match self.eat_whitespace()? {
+                        b']' => self.eat_some(1),
+                        b',' => return Err(Error::LeadingArrayComma),
+                        _ => {
+                            self.input[start + depth] = b']';
+                            depth += 1;
+                            continue 'value
+                        }
+                    }
+                }
+                b'{' => {
+                    self.eat_some(1);
+                    match self.eat_whitespace()? {
+                        b'}' => self.eat_some(1),
+                        b',' => return Err(Error::LeadingObjectComma),
+                        _ => {
+                            self.input[start + depth] = b'}';
+                            depth += 1;
+                            self.eat_key()?;
+                            continue 'value
+                        }
+                    }
+                }
+                _ => return Err(Error::UnexpectedChar)
+            }
+            while depth != 0 {
+                let end = self.input[start + depth - 1];
+                match self.eat_whitespace()? {
+                    ch if ch == end => {
+                        self.eat_some(1);
+                        depth -= 1;
+                    }
+                    b',' => {
+                        self.eat_some(1);
+                        match (end, self.eat_whitespace()?) {
+                            (b']', b']') => return Err(Error::TrailingArrayComma),
+                            (b'}', b'}') => return Err(Error::TrailingObjectComma),
+                            (b'}', _) => self.eat_key()?,
+                            _ => {}
+                        }
+                        continue 'value
+                    }
+                    _ => return Err(match end {
+                        b']' => Error::ExpectedArrayCommaOrEnd,
+                        _ => Error::ExpectedObjectCommaOrEnd
+                    })
+                }
+            }
+            return Ok(())
+        }
+    }
+
     /// Consume a content of a string until the closing `'"'`, ignoring all escape codes
     /// except immediately before any `'"'`.
     ///
@@ -1204,23 +1299,8 @@ impl<'de, P> de::Deserializer<'de> for &mut Deserializer<'de, P>
     fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value>
         where V: Visitor<'de>
     {
-        match self.eat_whitespace()? {
-            b'n' => self.deserialize_unit(visitor),
-            b't'|b'f' => self.deserialize_bool(visitor),
-            b'"' => {
-                self.eat_some(1);
-                self.eat_str_content()?;
-                visitor.visit_unit()
-            }
-            b'0'..=b'9'|b'-' => {
-                let len = self.match_float().len();
-                self.eat_some(len);
-                visitor.visit_unit()
-            }
-            b'[' => self.deserialize_seq(visitor),
-            b'{' => self.deserialize_map(visitor),
-            _ => Err(Error::UnexpectedChar),
-        }
+        self.eat_value()?;
+        visitor.visit_unit()
     }
 }
 
-- 
2.43.0

