From 156f8c257c13df70e02fdddc051a36a990910d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 01/19] fix: do not panic on varints that are longer than 64
 bits

---
 src/decode.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 32632c4..d56afcf 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -683,6 +683,11 @@ where
 
             let b = data[idx];
             let value = (b & 0x7f) as u64;
+
+            // A varint has at most ten bytes, the last of which holds the 64th bit only.
+            if idx >= 10 || (idx == 9 && value > 1) {
+                return None;
+            }
             result += value << (idx * 7);
 
             idx += 1;
@@ -691,7 +696,7 @@ where
             }
         }
 
-        let result = T::try_from(result).expect("Out of range");
+        let result = T::try_from(result).ok()?;
         *data = &data[idx..];
         Some(result)
     }
-- 
2.43.0


From 7d262a050e11cd2d32a5d2729126e5a6e3b26cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 02/19] fix: read packed unsigned and zigzag arrays as unsigned
 varints

Reading them as signed ones panicked for elements of 2^63 and above.
---
 src/decode.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index d56afcf..4c200cb 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -285,20 +285,20 @@ impl Value
                 read_packed! { Int64 @ b = i64::from_signed_varint(&mut array) => b }
             }
             ValueType::UInt32 => {
-                read_packed! { UInt32 @ b = u32::from_signed_varint(&mut array) => b }
+                read_packed! { UInt32 @ b = u32::from_unsigned_varint(&mut array) => b }
             }
             ValueType::UInt64 => {
-                read_packed! { UInt64 @ b = u64::from_signed_varint(&mut array) => b }
+                read_packed! { UInt64 @ b = u64::from_unsigned_varint(&mut array) => b }
             }
             ValueType::SInt32 => {
-                read_packed! { SInt32 @ b = u32::from_signed_varint(&mut array) => {
+                read_packed! { SInt32 @ b = u32::from_unsigned_varint(&mut array) => {
                     let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                     let magnitude = (b / 2) as i32 + sign_bit;
                     sign * magnitude
                 } }
             }
             ValueType::SInt64 => {
-                read_packed! { SInt64 @ b = u64::from_signed_varint(&mut array) => {
+                read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
                     let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
                     let magnitude = (b / 2) as i64 + sign_bit;
                     sign * magnitude
-- 
2.43.0


From b96992cc89324d6fea73d47002a9acf6e8baabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 03/19] fix: truncate varints that do not fit the field's type

The protobuf specification has 64-bit values read into a 32-bit field truncated to
32 bits, and any non-zero varint read as true. Decoding panicked on them.
---
 src/decode.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 4c200cb..56e1760 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -178,11 +178,12 @@ impl Value
                 try_read_8_bytes(data).map(|b| Value::Double(f64::from_le_bytes(b)))
             }
             ValueType::Float => try_read_4_bytes(data).map(|b| Value::Float(f32::from_le_bytes(b))),
-            ValueType::Int32 => i32::from_signed_varint(data).map(Value::Int32),
+            ValueType::Int32 => i64::from_signed_varint(data).map(|v| Value::Int32(v as i32)),
             ValueType::Int64 => i64::from_signed_varint(data).map(Value::Int64),
-            ValueType::UInt32 => u32::from_unsigned_varint(data).map(Value::UInt32),
+            ValueType::UInt32 => u64::from_unsigned_varint(data).map(|v| Value::UInt32(v as u32)),
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
-            ValueType::SInt32 => u32::from_unsigned_varint(data).map(|u| {
+            ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
+                let u = u as u32;
                 let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                 let magnitude = (u / 2) as i32 + sign_bit;
                 Value::SInt32(sign * magnitude)
@@ -204,7 +205,7 @@ impl Value
             ValueType::SFixed64 => {
                 try_read_8_bytes(data).map(|b| Value::SFixed64(i64::from_le_bytes(b)))
             }
-            ValueType::Bool => usize::from_unsigned_varint(data).map(|u| Value::Bool(u != 0)),
+            ValueType::Bool => u64::from_unsigned_varint(data).map(|u| Value::Bool(u != 0)),
             ValueType::String => read_string(data).map(Value::String),
             ValueType::Bytes => read_bytes(data).map(Value::Bytes),
             ValueType::Enum(eref) => i64::from_signed_varint(data).map(|v| {
@@ -279,19 +280,20 @@ impl Value
                 read_packed! { Float @ b = try_read_4_bytes(&mut array) => f32::from_le_bytes(b) }
             }
             ValueType::Int32 => {
-                read_packed! { Int32 @ b = i32::from_signed_varint(&mut array) => b }
+                read_packed! { Int32 @ b = i64::from_signed_varint(&mut array) => b as i32 }
             }
             ValueType::Int64 => {
                 read_packed! { Int64 @ b = i64::from_signed_varint(&mut array) => b }
             }
             ValueType::UInt32 => {
-                read_packed! { UInt32 @ b = u32::from_unsigned_varint(&mut array) => b }
+                read_packed! { UInt32 @ b = u64::from_unsigned_varint(&mut array) => b as u32 }
             }
             ValueType::UInt64 => {
                 read_packed! { UInt64 @ b = u64::from_unsigned_varint(&mut array) => b }
             }
             ValueType::SInt32 => {
-                read_packed! { SInt32 @ b = u32::from_unsigned_varint(&mut array) => {
+                read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
+                    let b = b as u32;
                     let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                     let magnitude = (b / 2) as i32 + sign_bit;
                     sign * magnitude
@@ -317,7 +319,7 @@ impl Value
                 read_packed! { SFixed64 @ b = try_read_8_bytes(&mut array) => i64::from_le_bytes(b) }
             }
             ValueType::Bool => {
-                read_packed! { Bool @ b = u8::from_unsigned_varint(&mut array) => b != 0 }
+                read_packed! { Bool @ b = u64::from_unsigned_varint(&mut array) => b != 0 }
             }
             _ => panic!("Non-scalar type was handled as packed"),
         }
-- 
2.43.0


From 14b4b3f4c8d4e154459b7ffd645cfbfb4772f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 04/19] fix: zigzag conversion overflowed for large sint32 and
 sint64 values

---
 src/decode.rs | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 56e1760..39bdb0a 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -184,14 +184,10 @@ impl Value
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
             ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
                 let u = u as u32;
-                let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                let magnitude = (u / 2) as i32 + sign_bit;
-                Value::SInt32(sign * magnitude)
+                Value::SInt32((u >> 1) as i32 ^ -((u & 1) as i32))
             }),
             ValueType::SInt64 => u64::from_unsigned_varint(data).map(|u| {
-                let (sign, sign_bit) = if u % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                let magnitude = (u / 2) as i64 + sign_bit;
-                Value::SInt64(sign * magnitude)
+                Value::SInt64((u >> 1) as i64 ^ -((u & 1) as i64))
             }),
             ValueType::Fixed32 => {
                 try_read_4_bytes(data).map(|b| Value::Fixed32(u32::from_le_bytes(b)))
@@ -294,16 +290,12 @@ impl Value
             ValueType::SInt32 => {
                 read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
                     let b = b as u32;
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                    let magnitude = (b / 2) as i32 + sign_bit;
-                    sign * magnitude
+                    (b >> 1) as i32 ^ -((b & 1) as i32)
                 } }
             }
             ValueType::SInt64 => {
                 read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                    let magnitude = (b / 2) as i64 + sign_bit;
-                    sign * magnitude
+                    (b >> 1) as i64 ^ -((b & 1) as i64)
                 } }
             }
             ValueType::Fixed32 => {
@@ -367,14 +359,8 @@ impl Value
             Value::Int64(v) => BytesMut::from(v.into_signed_varint().as_ref()),
             Value::UInt32(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
             Value::UInt64(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
-            Value::SInt32(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
-            Value::SInt64(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
+            Value::SInt32(v) => (((v << 1) ^ (v >> 31)) as u32).into_unsigned_varint(),
+            Value::SInt64(v) => (((v << 1) ^ (v >> 63)) as u64).into_unsigned_varint(),
             Value::Fixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::Fixed64(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::SFixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
@@ -468,16 +454,10 @@ impl PackedArray
                 write_packed!(v => |v| BytesMut::from(v.into_unsigned_varint().as_ref()))
             }
             PackedArray::SInt32(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| (((v << 1) ^ (v >> 31)) as u32).into_unsigned_varint())
             }
             PackedArray::SInt64(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| (((v << 1) ^ (v >> 63)) as u64).into_unsigned_varint())
             }
             PackedArray::Fixed32(v) => {
                 write_packed!( v => |v| BytesMut::from(v.to_le_bytes().as_ref()) )
-- 
2.43.0


From eb028240c20615ceedf803aa2b5808fbae85701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 05/19] fix: consume the bytes of an incomplete unknown value

They were kept in the incomplete value and then decoded again as further fields, and
the length prefix of a cut length-delimited value was lost.
---
 src/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 39bdb0a..9c67067 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -347,7 +347,7 @@ impl Value
 
         value
             .map(Value::Unknown)
-            .unwrap_or_else(|| Value::Incomplete(vt, Bytes::copy_from_slice(data)))
+            .unwrap_or_else(|| return_incomplete(data, vt, original))
     }
 
     fn encode(&self, ctx: &Context) -> Option<(u8, BytesMut)>
-- 
2.43.0


From 388eb24214c40c627a5f0c1e8194c6341ccbd583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 06/19] fix: keep only the array's own bytes when a packed
 array is malformed

The incomplete value held everything up to the end of the message while decoding
continued after the array, so the fields behind it were duplicated.
---
 src/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decode.rs b/src/decode.rs
index 9c67067..d366345 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -247,6 +247,9 @@ impl Value
         let mut array = &data[..length];
         *data = &data[length..];
 
+        // The bytes of this value: The length prefix and the array.
+        let original = &original[..original.len() - data.len()];
+
         // Reading the packed arrays follows very similar format for each type.  The variances are
         // in how to read the data from the stream and what to do with the data to get the final
         // value.
-- 
2.43.0


From e02ec8ad58f790ba3ab13d53e3d39e892a9ed9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 07/19] fix: write trailing garbage back when encoding a
 message

---
 src/decode.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index d366345..75273ec 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -611,7 +611,8 @@ impl MessageValue
     /// guaranteed, as a message with an equal `MessageRef` may exist in multiple contexts.
     pub fn encode(&self, ctx: &Context) -> bytes::BytesMut
     {
-        self.fields
+        let mut output: BytesMut = self
+            .fields
             .iter()
             .filter_map(|f| f.value.encode(ctx).map(|(w, b)| (f, w, b)))
             .flat_map(|(field, wire_type, bytes)| {
@@ -620,7 +621,12 @@ impl MessageValue
                 field_data.extend_from_slice(&bytes);
                 field_data
             })
-            .collect()
+            .collect();
+
+        if let Some(garbage) = &self.garbage {
+            output.extend_from_slice(garbage);
+        }
+        output
     }
 }
 
-- 
2.43.0


From db58bb657885565012a5b180b6b1728dda54af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 08/19] fix: do not panic on packed fields whose type cannot be
 packed

Such a field can be built through the modification API. Its values are kept as unknown.
---
 src/context/api.rs | 6 ++++++
 src/decode.rs      | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/context/api.rs b/src/context/api.rs
index ca871f6..59f9a1b 100644
--- a/src/context/api.rs
+++ b/src/context/api.rs
@@ -162,6 +162,12 @@ impl Service
 
 impl ValueType
 {
+    /// True, if values of this type can be encoded as a packed array.
+    pub(crate) fn is_packable(&self) -> bool
+    {
+        self.wire_type() != 2 && !matches!(self, Self::Enum(..))
+    }
+
     pub(crate) fn wire_type(&self) -> u8
     {
         match self {
diff --git a/src/decode.rs b/src/decode.rs
index 75273ec..b231d36 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -581,7 +581,7 @@ impl MessageInfo
             let value = match self.get_field(number) {
                 Some(field) => {
                     if field.multiplicity == Multiplicity::RepeatedPacked {
-                        if wire_type == 2 {
+                        if wire_type == 2 && field.field_type.is_packable() {
                             Value::decode_packed(&mut data, wire_type, &field.field_type)
                         } else {
                             Value::decode_unknown(&mut data, wire_type)
-- 
2.43.0


From 84bca200ec36b28f9d6b8368008deb7ff42b2b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 09/19] fix: limit the nesting depth of decoded messages

A payload of a few kilobytes could exhaust the stack and abort the process.
---
 src/decode.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index b231d36..c36cf9f 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -168,9 +168,12 @@ pub struct FieldValue
     pub value: Value,
 }
 
+/// Limit for the nesting of messages. Same as the default of the other Protobuf implementations.
+const MAX_DEPTH: usize = 100;
+
 impl Value
 {
-    fn decode(data: &mut &[u8], vt_raw: u8, vt: &ValueType, ctx: &Context) -> Self
+    fn decode(data: &mut &[u8], vt_raw: u8, vt: &ValueType, ctx: &Context, depth: usize) -> Self
     {
         let original = *data;
         let opt = match vt {
@@ -218,8 +221,16 @@ impl Value
                 let (consumed, remainder) = data.split_at(length);
                 *data = remainder;
 
+                // Payloads come from outside. Don't let their nesting exhaust the stack.
+                if depth >= MAX_DEPTH {
+                    return Some(Value::Unknown(UnknownValue::VariableLength(
+                        Bytes::copy_from_slice(consumed),
+                    )));
+                }
+
                 Some(Value::Message(Box::new(
-                    ctx.resolve_message(*mref).decode(consumed, ctx),
+                    ctx.resolve_message(*mref)
+                        .decode_nested(consumed, ctx, depth + 1),
                 )))
             }),
         };
@@ -554,7 +565,15 @@ impl MessageInfo
     /// Will **panic** if the message defined by the `MessageRef` does not exist in this context.
     /// Such panic means the `MessageRef` came from a different context. The panic is not
     /// guaranteed, as a message with an equal `MessageRef` may exist in multiple contexts.
-    pub fn decode(&self, mut data: &[u8], ctx: &Context) -> MessageValue
+    ///
+    /// Messages nested more than 100 levels deep are not decoded but kept as
+    /// [`UnknownValue::VariableLength`].
+    pub fn decode(&self, data: &[u8], ctx: &Context) -> MessageValue
+    {
+        self.decode_nested(data, ctx, 1)
+    }
+
+    fn decode_nested(&self, mut data: &[u8], ctx: &Context, depth: usize) -> MessageValue
     {
         let mut msg = MessageValue {
             msg_ref: self.self_ref,
@@ -587,7 +606,7 @@ impl MessageInfo
                             Value::decode_unknown(&mut data, wire_type)
                         }
                     } else if field.field_type.wire_type() == wire_type {
-                        Value::decode(&mut data, wire_type, &field.field_type, ctx)
+                        Value::decode(&mut data, wire_type, &field.field_type, ctx, depth)
                     } else {
                         Value::decode_unknown(&mut data, wire_type)
                     }
-- 
2.43.0


From 29a6f2733b3b644a380277f247e6d6e298ba0233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 10/19] fix: return an error when a service is used as a field
 type

---
 src/context/builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 80d8563..07d3410 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -506,7 +506,14 @@ impl FieldTypeBuilder
                 match t.item_type {
                     ItemType::Message => ValueType::Message(MessageRef(InternalRef(t.final_idx))),
                     ItemType::Enum => ValueType::Enum(EnumRef(InternalRef(t.final_idx))),
-                    _ => unreachable!("Service as field type"),
+                    actual => {
+                        return Err(ParseError::InvalidTypeKind {
+                            type_name: t.full_name.clone(),
+                            context: "field type",
+                            expected: ItemType::Message,
+                            actual,
+                        })
+                    }
                 }
             }
         })
-- 
2.43.0


From ad67847855e866afb16c8e04e3a2067b8808f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 11/19] fix: keep the options of services and rpcs

---
 src/context/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 07d3410..59c252d 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -671,7 +671,7 @@ impl ServiceBuilder
             full_name: self_data.full_name.clone(),
             rpcs,
             rpcs_by_name,
-            options: vec![],
+            options: self.options,
         })
     }
 }
@@ -684,7 +684,7 @@ impl RpcBuilder
             name: self.name,
             input: self.input.build(self_data, cache)?,
             output: self.output.build(self_data, cache)?,
-            options: vec![],
+            options: self.options,
         })
     }
 }
-- 
2.43.0


From 4f59d308f75ce0bd12dd5d223ddf19e691e11ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 12/19] fix: reject oneofs that take fields from another oneof

The comment promised this check. Without it the field was listed in both oneofs.
---
 src/context/mod.rs        | 7 +++++++
 src/context/modify_api.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 518e150..df07797 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -130,6 +130,13 @@ pub enum OneofInsertError
         /// Field number the Oneof referenced.
         field: u64,
     },
+
+    /// The oneof refers to a field that is already part of another oneof.
+    FieldInOneof
+    {
+        /// Field number the Oneof referenced.
+        field: u64,
+    },
 }
 
 /// Type reference that references either message or enum type.
diff --git a/src/context/modify_api.rs b/src/context/modify_api.rs
index 2a80035..48b72e7 100644
--- a/src/context/modify_api.rs
+++ b/src/context/modify_api.rs
@@ -185,9 +185,13 @@ impl MessageInfo
 
         // Ensure none of the existing fields are part of oneofs.
         for f in &oneof.fields {
-            self.fields
+            let field = self
+                .fields
                 .get(f)
                 .ok_or(OneofInsertError::FieldNotFound { field: *f })?;
+            if field.oneof.is_some() {
+                return Err(OneofInsertError::FieldInOneof { field: *f });
+            }
         }
 
         // From here on we're making changes to self.
-- 
2.43.0


From cbb6153e1508e11dbc6b08647e639e0f004022ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 13/19] fix: do not split type names that start with a keyword

`optionalFoo` was read as `optional Foo`, `streamFoo` as `stream Foo` and `stringList`
as `string List`.
---
 src/proto.pest | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 789dca4..1c2b490 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -54,13 +54,17 @@ package = { "package" ~ fullIdent ~ ";" }
 option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
-type_ = { "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
+// A keyword ends where an identifier would. `optionalFoo` is a type name, not `optional Foo`.
+keywordEnd = _{ !( letter | decimalDigit | "_" ) }
+
+type_ = { builtinType | messageType | enumType }
+builtinType = @{ ( "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
     | "sint32" | "sint64" | "fixed32" | "fixed64" | "sfixed32" | "sfixed64"
-    | "bool" | "string" | "bytes" | messageType | enumType }
+    | "bool" | "string" | "bytes" ) ~ keywordEnd ~ !"." }
 fieldNumber = { intLit }
 
-optional = { "optional" }
-repeated = { "repeated" }
+optional = @{ "optional" ~ keywordEnd }
+repeated = @{ "repeated" ~ keywordEnd }
 one_multiplicity = { repeated | optional }
 multiplicity = { one_multiplicity? }
 field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
@@ -88,7 +92,7 @@ message = { "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
-stream = { "stream" }
+stream = @{ "stream" ~ keywordEnd }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
 rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
-- 
2.43.0


From d3782b168323d5e62128596f975d950c44b0cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 14/19] fix: return an error for literals that have no value

Field number 0, negative field numbers, integers that do not fit 64 bits, octal escapes
above \377 and floats with whitespace inside panicked.
---
 src/context/parse.rs | 177 ++++++++++++++++++++++++-------------------
 1 file changed, 98 insertions(+), 79 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 2291819..1b2a170 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -45,7 +45,7 @@ impl PackageBuilder
                     Rule::syntax => {}
                     Rule::topLevelDef => current_package
                         .types
-                        .push(ProtobufItemBuilder::parse(inner)),
+                        .push(ProtobufItemBuilder::parse(inner)?),
                     Rule::import => {}
                     Rule::package => {
                         current_package.name =
@@ -64,25 +64,25 @@ impl PackageBuilder
 
 impl ProtobufItemBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let pair = p.into_inner().next().unwrap();
-        match pair.as_rule() {
-            Rule::message => {
-                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(MessageBuilder::parse(pair)))
-            }
+        Ok(match pair.as_rule() {
+            Rule::message => ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(
+                MessageBuilder::parse(pair)?,
+            )),
             Rule::enum_ => {
-                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)))
+                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)?))
             }
-            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)),
+            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)?),
             r => unreachable!("{:?}: {:?}", r, pair),
-        }
+        })
     }
 }
 
 impl MessageBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -94,13 +94,13 @@ impl MessageBuilder
         let body = inner.next().unwrap();
         for p in body.into_inner() {
             match p.as_rule() {
-                Rule::field => fields.push(FieldBuilder::parse(p)),
-                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p))),
+                Rule::field => fields.push(FieldBuilder::parse(p)?),
+                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p)?)),
                 Rule::message => {
-                    inner_types.push(InnerTypeBuilder::Message(MessageBuilder::parse(p)))
+                    inner_types.push(InnerTypeBuilder::Message(MessageBuilder::parse(p)?))
                 }
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::oneof => oneofs.push(OneofBuilder::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::oneof => oneofs.push(OneofBuilder::parse(p)?),
                 Rule::mapField => unimplemented!("Maps are not supported"),
                 Rule::reserved => {} // We don't need to care about reserved field numbers.
                 Rule::emptyStatement => {}
@@ -108,19 +108,19 @@ impl MessageBuilder
             }
         }
 
-        MessageBuilder {
+        Ok(MessageBuilder {
             name,
             fields,
             oneofs,
             inner_types,
             options,
-        }
+        })
     }
 }
 
 impl EnumBuilder
 {
-    fn parse(p: Pair<Rule>) -> EnumBuilder
+    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -134,27 +134,27 @@ impl EnumBuilder
                     let mut inner = p.into_inner();
                     fields.push(EnumField {
                         name: inner.next().unwrap().as_str().to_string(),
-                        value: parse_int_literal(inner.next().unwrap()),
-                        options: ProtoOption::parse_options(inner),
+                        value: parse_int_literal(inner.next().unwrap())?,
+                        options: ProtoOption::parse_options(inner)?,
                     })
                 }
-                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        EnumBuilder {
+        Ok(EnumBuilder {
             name,
             fields,
             options,
-        }
+        })
     }
 }
 
 impl ServiceBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap();
@@ -162,24 +162,24 @@ impl ServiceBuilder
         let mut options = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::rpc => rpcs.push(RpcBuilder::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::rpc => rpcs.push(RpcBuilder::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        ServiceBuilder {
+        Ok(ServiceBuilder {
             name: name.as_str().to_string(),
             rpcs,
             options,
-        }
+        })
     }
 }
 
 impl FieldBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let multiplicity = match inner.next().unwrap().into_inner().next() {
@@ -195,47 +195,47 @@ impl FieldBuilder
         };
         let field_type = parse_field_type(inner.next().unwrap().as_str());
         let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
+        let number = parse_uint_literal(inner.next().unwrap())?;
 
         let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner()),
+            Some(p) => ProtoOption::parse_options(p.into_inner())?,
             None => vec![],
         };
 
-        FieldBuilder {
+        Ok(FieldBuilder {
             multiplicity,
             field_type,
             name,
             number,
             options,
-        }
+        })
     }
 
-    pub fn parse_oneof(p: Pair<Rule>) -> Self
+    pub fn parse_oneof(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let field_type = parse_field_type(inner.next().unwrap().as_str());
         let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
+        let number = parse_uint_literal(inner.next().unwrap())?;
 
         let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner()),
+            Some(p) => ProtoOption::parse_options(p.into_inner())?,
             None => vec![],
         };
 
-        FieldBuilder {
+        Ok(FieldBuilder {
             multiplicity: Multiplicity::Single,
             field_type,
             name,
             number,
             options,
-        }
+        })
     }
 }
 
 impl OneofBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -243,17 +243,17 @@ impl OneofBuilder
         let mut fields = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
-        OneofBuilder {
+        Ok(OneofBuilder {
             name,
             fields,
             options,
-        }
+        })
     }
 }
 
@@ -281,45 +281,58 @@ fn parse_field_type(t: &str) -> FieldTypeBuilder
 
 impl RpcBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap();
 
-        let input = RpcArgBuilder::parse(inner.next().unwrap());
-        let output = RpcArgBuilder::parse(inner.next().unwrap());
+        let input = RpcArgBuilder::parse(inner.next().unwrap())?;
+        let output = RpcArgBuilder::parse(inner.next().unwrap())?;
 
         let mut options = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        RpcBuilder {
+        Ok(RpcBuilder {
             name: name.as_str().to_string(),
             input,
             output,
             options,
-        }
+        })
     }
 }
 
 impl RpcArgBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
-        RpcArgBuilder {
+        Ok(RpcArgBuilder {
             stream: inner.next().unwrap().into_inner().next().is_some(),
             message: inner.next().unwrap().as_str().to_string(),
-        }
+        })
     }
 }
 
-pub fn parse_uint_literal(p: Pair<Rule>) -> u64
+/// Creates a syntax error for a literal that has no value.
+fn invalid_literal(p: &Pair<Rule>) -> ParseError
+{
+    ParseError::SyntaxError {
+        source: Box::new(pest::error::Error::new_from_span(
+            pest::error::ErrorVariant::<Rule>::CustomError {
+                message: format!("invalid literal: {}", p.as_str()),
+            },
+            p.as_span(),
+        )),
+    }
+}
+
+pub fn parse_uint_literal(p: Pair<Rule>) -> Result<u64, ParseError>
 {
     match p.as_rule() {
         Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
@@ -327,58 +340,63 @@ pub fn parse_uint_literal(p: Pair<Rule>) -> u64
             let mut inner = p.into_inner();
             let lit = inner.next().unwrap();
             match lit.as_rule() {
-                Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
-                Rule::octalLit => u64::from_str_radix(&lit.as_str()[1..], 8).unwrap(),
-                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                Rule::decimalLit => str::parse(lit.as_str()),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16),
+                Rule::sign => return Err(invalid_literal(&lit)),
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
+            .map_err(|_| invalid_literal(&lit))
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
 
-pub fn parse_int_literal(p: Pair<Rule>) -> i64
+pub fn parse_int_literal(p: Pair<Rule>) -> Result<i64, ParseError>
 {
     match p.as_rule() {
         Rule::intLit => {
             let mut inner = p.into_inner();
             let sign = inner.next().unwrap();
             let (sign, lit) = match sign.as_rule() {
-                Rule::sign if sign.as_str() == "-" => (-1, inner.next().unwrap()),
-                Rule::sign if sign.as_str() == "+" => (1, inner.next().unwrap()),
-                _ => (1, sign),
+                Rule::sign => (sign.as_str(), inner.next().unwrap()),
+                _ => ("+", sign),
             };
+
+            // The sign must be included in the conversion as -2^63 has no positive counterpart.
+            let signed = |digits: &str| format!("{}{}", sign, digits);
             match lit.as_rule() {
-                Rule::decimalLit => sign * str::parse::<i64>(lit.as_str()).unwrap(),
-                Rule::octalLit => sign * i64::from_str_radix(lit.as_str(), 8).unwrap(),
-                Rule::hexLit => sign * i64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                Rule::decimalLit => str::parse::<i64>(&signed(lit.as_str())),
+                Rule::octalLit => i64::from_str_radix(&signed(lit.as_str()), 8),
+                Rule::hexLit => i64::from_str_radix(&signed(&lit.as_str()[2..]), 16),
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
+            .map_err(|_| invalid_literal(&lit))
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
 
-pub fn parse_float_literal(p: Pair<Rule>) -> f64
+pub fn parse_float_literal(p: Pair<Rule>) -> Result<f64, ParseError>
 {
     match p.as_rule() {
-        Rule::floatLit => p.as_str().parse::<f64>().unwrap(),
+        Rule::floatLit => p.as_str().parse::<f64>().map_err(|_| invalid_literal(&p)),
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
 
 impl ProtoOption
 {
-    fn parse(p: Pair<Rule>) -> Self
+    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
-        Self {
+        Ok(Self {
             name: parse_ident(inner.next().unwrap()),
-            value: Constant::parse(inner.next().unwrap()),
-        }
+            value: Constant::parse(inner.next().unwrap())?,
+        })
     }
 
-    fn parse_options(pairs: Pairs<Rule>) -> Vec<Self>
+    fn parse_options(pairs: Pairs<Rule>) -> Result<Vec<Self>, ParseError>
     {
         pairs
             .map(|p| match p.as_rule() {
@@ -393,17 +411,17 @@ impl ProtoOption
 
 impl Constant
 {
-    fn parse(p: Pair<Rule>) -> Self
+    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let p = p.into_inner().next().unwrap();
-        match p.as_rule() {
+        Ok(match p.as_rule() {
             Rule::fullIdent => Constant::Ident(parse_ident(p)),
-            Rule::intLit => Constant::Integer(parse_int_literal(p)),
-            Rule::floatLit => Constant::Float(parse_float_literal(p)),
-            Rule::strLit => Constant::String(parse_string_literal(p)),
+            Rule::intLit => Constant::Integer(parse_int_literal(p)?),
+            Rule::floatLit => Constant::Float(parse_float_literal(p)?),
+            Rule::strLit => Constant::String(parse_string_literal(p)?),
             Rule::boolLit => Constant::Bool(p.as_str() == "true"),
             r => unreachable!("{:?}: {:?}", r, p),
-        }
+        })
     }
 }
 
@@ -429,7 +447,7 @@ fn parse_ident(p: Pair<Rule>) -> String
     ident.join(".")
 }
 
-fn parse_string_literal(s: Pair<Rule>) -> Bytes
+fn parse_string_literal(s: Pair<Rule>) -> Result<Bytes, ParseError>
 {
     let inner = s.into_inner();
     let mut output = BytesMut::new();
@@ -442,8 +460,9 @@ fn parse_string_literal(s: Pair<Rule>) -> Bytes
                 );
             }
             Rule::octEscape => {
+                let byte = c.into_inner().next().unwrap();
                 output.put_u8(
-                    u8::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap(),
+                    u8::from_str_radix(byte.as_str(), 8).map_err(|_| invalid_literal(&byte))?,
                 );
             }
             Rule::charEscape => match c.into_inner().next().unwrap().as_str() {
@@ -463,7 +482,7 @@ fn parse_string_literal(s: Pair<Rule>) -> Bytes
             r => unreachable!("{:?}: {:?}", r, c),
         }
     }
-    output.freeze()
+    Ok(output.freeze())
 }
 
 #[cfg(test)]
-- 
2.43.0


From b5aa6a20d6fb8d5cf7b8c94ce0cc900f4a57d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 15/19] fix: load files that have map fields

They panicked. A map field is loaded as the repeated entry message it stands for.
---
 src/context/parse.rs | 59 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 1b2a170..c62e417 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -101,7 +101,11 @@ impl MessageBuilder
                 }
                 Rule::option => options.push(ProtoOption::parse(p)?),
                 Rule::oneof => oneofs.push(OneofBuilder::parse(p)?),
-                Rule::mapField => unimplemented!("Maps are not supported"),
+                Rule::mapField => {
+                    let (field, entry) = parse_map_field(p)?;
+                    fields.push(field);
+                    inner_types.push(InnerTypeBuilder::Message(entry));
+                }
                 Rule::reserved => {} // We don't need to care about reserved field numbers.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
@@ -257,6 +261,59 @@ impl OneofBuilder
     }
 }
 
+/// Parses a map field.
+///
+/// A `map<K, V> some_name = N` is shorthand for `repeated SomeNameEntry some_name = N` with a
+/// nested `message SomeNameEntry { K key = 1; V value = 2; }`.
+fn parse_map_field(p: Pair<Rule>) -> Result<(FieldBuilder, MessageBuilder), ParseError>
+{
+    let mut inner = p.into_inner();
+    let key_type = parse_field_type(inner.next().unwrap().as_str());
+    let value_type = parse_field_type(inner.next().unwrap().as_str());
+    let name = inner.next().unwrap().as_str().to_string();
+    let number = parse_uint_literal(inner.next().unwrap())?;
+
+    let options = match inner.next() {
+        Some(p) => ProtoOption::parse_options(p.into_inner())?,
+        None => vec![],
+    };
+
+    let mut entry_name = String::new();
+    for part in name.split('_') {
+        let mut chars = part.chars();
+        entry_name.extend(chars.next().map(|c| c.to_ascii_uppercase()));
+        entry_name.push_str(chars.as_str());
+    }
+    entry_name.push_str("Entry");
+
+    let entry_field = |name: &str, number, field_type| FieldBuilder {
+        multiplicity: Multiplicity::Single,
+        field_type,
+        name: name.to_string(),
+        number,
+        options: vec![],
+    };
+
+    let entry = MessageBuilder {
+        name: entry_name.clone(),
+        fields: vec![
+            entry_field("key", 1, key_type),
+            entry_field("value", 2, value_type),
+        ],
+        ..Default::default()
+    };
+
+    let field = FieldBuilder {
+        multiplicity: Multiplicity::Repeated,
+        field_type: FieldTypeBuilder::Unknown(entry_name),
+        name,
+        number,
+        options,
+    };
+
+    Ok((field, entry))
+}
+
 fn parse_field_type(t: &str) -> FieldTypeBuilder
 {
     FieldTypeBuilder::Builtin(match t {
-- 
2.43.0


From f9175847eb518d73e6038e0a735182dabe910b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 16/19] fix: white space and comments are not part of a package
 name

---
 src/context/parse.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index c62e417..7ec1909 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -48,8 +48,7 @@ impl PackageBuilder
                         .push(ProtobufItemBuilder::parse(inner)?),
                     Rule::import => {}
                     Rule::package => {
-                        current_package.name =
-                            Some(inner.into_inner().next().unwrap().as_str().to_string())
+                        current_package.name = Some(parse_ident(inner.into_inner().next().unwrap()))
                     }
                     Rule::option => {}
                     Rule::EOI => {}
-- 
2.43.0


From 804a92d340e96bdac765d419aff5bcd378bd7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 17/19] fix: white space after a float literal is not part of
 it

---
 src/proto.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index 1c2b490..37454e7 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -25,7 +25,7 @@ decimalLit = @{ '1'..'9' ~ decimalDigit* }
 octalLit = @{ "0" ~ octalDigit* }
 hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
-floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | "inf" | "nan" ) }
+floatLit = @{ sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | "inf" | "nan" ) }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
 
-- 
2.43.0


From 74b36a60e465ffaa1bd1a819e5f4102e2e4a3e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 18/19] fix: empty statements between top level definitions do
 not panic

---
 src/context/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 7ec1909..cc94696 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -51,6 +51,7 @@ impl PackageBuilder
                         current_package.name = Some(parse_ident(inner.into_inner().next().unwrap()))
                     }
                     Rule::option => {}
+                    Rule::emptyStatement => {}
                     Rule::EOI => {}
                     r => unreachable!("{:?}: {:?}", r, inner),
                 }
-- 
2.43.0


From b2032598367076e131b37ccb7eb838ac66bb05b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:14 +0000
Subject: [PATCH 19/19] fix: enum values whose names start with option are not
 options

---
 src/proto.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index 37454e7..043c2f4 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -51,8 +51,9 @@ syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
 package = { "package" ~ fullIdent ~ ";" }
 
-option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
+option = { &optionKeyword ~ "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
+optionKeyword = @{ "option" ~ keywordEnd }
 
 // A keyword ends where an identifier would. `optionalFoo` is a type name, not `optional Foo`.
 keywordEnd = _{ !( letter | decimalDigit | "_" ) }
-- 
2.43.0

