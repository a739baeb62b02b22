From 85460730e5f69ec803fba6d6b740d28f0cfad239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 01/40] fix: encode and decode the minimum of varint

i64::MIN overflowed on negation; the wire format encodes it as the
single byte 0x80 (minus zero).
---
 crates/zserio/src/ztype/varint_bitsize.rs | 10 ++++++----
 crates/zserio/src/ztype/varint_decode.rs  |  4 ++++
 crates/zserio/src/ztype/varint_encode.rs  |  6 +++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/zserio/src/ztype/varint_bitsize.rs b/crates/zserio/src/ztype/varint_bitsize.rs
index bafd68f..4695672 100644
--- a/crates/zserio/src/ztype/varint_bitsize.rs
+++ b/crates/zserio/src/ztype/varint_bitsize.rs
@@ -16,12 +16,14 @@ pub fn varint_bitsize(v: i64) -> Result<u8> {
     signed_bitsize(v, 9)
 }
 
-pub fn signed_bitsize(mut v: i64, max_bytes: u8) -> Result<u8> {
-    if v < 0 {
-        v = -v
+pub fn signed_bitsize(v: i64, max_bytes: u8) -> Result<u8> {
+    if v == i64::MIN && max_bytes == 9 {
+        // encoded as "minus zero"
+        return Ok(8);
     }
+    let v = v.unsigned_abs();
 
-    let mut max: i64 = (1 << 6) - 1;
+    let mut max: u64 = (1 << 6) - 1;
 
     let mut bytes = 1;
     loop {
diff --git a/crates/zserio/src/ztype/varint_decode.rs b/crates/zserio/src/ztype/varint_decode.rs
index 3dbd4fb..d32d74c 100644
--- a/crates/zserio/src/ztype/varint_decode.rs
+++ b/crates/zserio/src/ztype/varint_decode.rs
@@ -37,6 +37,10 @@ fn read_sized_int(reader: &mut BitReader, bit_length: u8) -> Result<i64> {
         value = (value << 8) | (b as i64);
     }
     if is_negative {
+        if bit_length == 9 && b == 0x80 && value == 0 {
+            // "minus zero" in a single byte is the minimum value
+            return Ok(i64::MIN);
+        }
         value = -value;
     }
     Ok(value)
diff --git a/crates/zserio/src/ztype/varint_encode.rs b/crates/zserio/src/ztype/varint_encode.rs
index 8f590de..f38c10f 100644
--- a/crates/zserio/src/ztype/varint_encode.rs
+++ b/crates/zserio/src/ztype/varint_encode.rs
@@ -19,7 +19,11 @@ pub fn write_varint(writer: &mut BitWriter, v: i64) -> Result<()> {
 }
 
 pub fn write_varint_type(writer: &mut BitWriter, v: i64, max_bytes: u8) -> Result<()> {
-    let abs_value = if v < 0 { -v as u64 } else { v as u64 };
+    if v == i64::MIN && max_bytes == 9 {
+        // the magnitude of the minimum does not fit into 63 bits, it is encoded as "minus zero"
+        return Ok(writer.write_u8(0x80, 8)?);
+    }
+    let abs_value = v.unsigned_abs();
 
     let needed_bytes = signed_bitsize(v, max_bytes)? / 8;
 
-- 
2.43.0


From b0ddcd5ef2d454d1f4089761d8d64d4609f07377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 02/40] fix: report variable-length integers out of range as
 errors

Writing panicked, and reading a varsize of more than 31 bits dropped its
upper bits.
---
 crates/zserio/src/ztype/limits.rs         |  3 +++
 crates/zserio/src/ztype/varuint_decode.rs | 10 ++++++++--
 crates/zserio/src/ztype/varuint_encode.rs | 11 ++++++-----
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/zserio/src/ztype/limits.rs b/crates/zserio/src/ztype/limits.rs
index 9b2ecdc..6ab100f 100644
--- a/crates/zserio/src/ztype/limits.rs
+++ b/crates/zserio/src/ztype/limits.rs
@@ -33,3 +33,6 @@ pub const MAX_VARUINT64: u64 = (1 << (7 + 7 + 7 + 7 + 7 + 7 + 7 + 8)) - 1;
 pub const MIN_VARUINT64: u64 = 0;
 pub const MAX_VARUINT: u64 = MAX_UINT64;
 pub const MIN_VARUINT: u64 = 0;
+
+pub const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
+pub const MIN_VARSIZE: u32 = 0;
diff --git a/crates/zserio/src/ztype/varuint_decode.rs b/crates/zserio/src/ztype/varuint_decode.rs
index e06d1c9..8392873 100644
--- a/crates/zserio/src/ztype/varuint_decode.rs
+++ b/crates/zserio/src/ztype/varuint_decode.rs
@@ -1,8 +1,14 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
+use crate::ztype::limits::MAX_VARSIZE;
 use bitreader::BitReader;
 
 pub fn read_varsize(reader: &mut BitReader) -> Result<u32> {
-    read_sized_uint(reader, 5).map(|v| v as u32)
+    let v = read_sized_uint(reader, 5)?;
+    if v > MAX_VARSIZE as u64 {
+        // five bytes hold up to 36 bits, but a varsize has only 31
+        return Err(ZserioError::DataDoesNotFit);
+    }
+    Ok(v as u32)
 }
 
 pub fn read_varuint16(reader: &mut BitReader) -> Result<u16> {
diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index e8d422b..d366694 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -1,9 +1,8 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
+use crate::ztype::limits::MAX_VARSIZE;
 use crate::ztype::unsigned_bitsize;
 use rust_bitwriter::BitWriter;
 
-const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
-
 pub fn write_varuint16(writer: &mut BitWriter, v: u16) -> Result<()> {
     write_varuint_type(writer, v as u64, 2)
 }
@@ -22,12 +21,14 @@ pub fn write_varuint(writer: &mut BitWriter, v: u64) -> Result<()> {
 
 // write_varsize writes a zserio varsize value to the bitstream.
 pub fn write_varsize(writer: &mut BitWriter, v: u32) -> Result<()> {
-    assert!(v <= MAX_VARSIZE);
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     write_varuint_type(writer, v as u64, 5)
 }
 
 pub fn write_varuint_type(writer: &mut BitWriter, v: u64, max_bytes: u8) -> Result<()> {
-    let needed_bytes = unsigned_bitsize(v, max_bytes).unwrap() / 8;
+    let needed_bytes = unsigned_bitsize(v, max_bytes)? / 8;
 
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
-- 
2.43.0


From b3fa1bd00c65ef6468eb741e03b44abedaa88966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 03/40] fix: align_to of bit position zero

The subtraction underflowed.
---
 crates/zserio/src/ztype/bit_alignment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/bit_alignment.rs b/crates/zserio/src/ztype/bit_alignment.rs
index 6ff9de4..8dfbdde 100644
--- a/crates/zserio/src/ztype/bit_alignment.rs
+++ b/crates/zserio/src/ztype/bit_alignment.rs
@@ -7,7 +7,7 @@
 /// let bitcount = align_to(8, 15); // returns 16
 /// ```
 pub fn align_to(align_to_bitcount: u8, bit_position: u64) -> u64 {
-    (((bit_position - 1) / align_to_bitcount as u64) + 1) * align_to_bitcount as u64
+    bit_position.div_ceil(align_to_bitcount as u64) * align_to_bitcount as u64
 }
 
 #[cfg(test)]
-- 
2.43.0


From 33a863b30f852e2efec6dd8e94c036067aba941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 04/40] fix: report truncated strings, extern blobs and packed
 arrays as errors

The readers panicked when the data ended inside the string length, the
last bits of an extern blob or the packing descriptor.
---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 11 +++++------
 crates/zserio/src/ztype/extern_type.rs                |  4 +---
 crates/zserio/src/ztype/string_decode.rs              |  2 +-
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 1dfce53..ff63642 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -95,7 +95,7 @@ impl DeltaContext {
     ) -> Result<()> {
         if !self.processing_started {
             self.processing_started = true;
-            self.read_descriptor(reader);
+            self.read_descriptor(reader)?;
             return self.read_unpacked(array_traits, reader, value);
         }
         if !self.is_packed {
@@ -162,14 +162,13 @@ impl DeltaContext {
         1
     }
 
-    fn read_descriptor(&mut self, reader: &mut BitReader) {
-        self.is_packed = reader
-            .read_bool()
-            .expect("failed to read if the context is packed");
+    fn read_descriptor(&mut self, reader: &mut BitReader) -> Result<()> {
+        self.is_packed = reader.read_bool()?;
         if self.is_packed {
             // read how many bits are used for the delta encoding of each element
-            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS).unwrap() as u8;
+            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS)? as u8;
         }
+        Ok(())
     }
 
     fn read_unpacked<T>(
diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index d04ac91..3bc38f2 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -40,9 +40,7 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
     let mut extern_bytes = read_bytes(bit_reader, num_of_full_bytes)?;
     if remaining_bits != 0 {
-        let mut last_byte = bit_reader
-            .read_u8(remaining_bits)
-            .expect("failed to read last bits");
+        let mut last_byte = bit_reader.read_u8(remaining_bits)?;
         let bit_shift = 8 - remaining_bits;
         last_byte <<= bit_shift;
         extern_bytes.push(last_byte);
diff --git a/crates/zserio/src/ztype/string_decode.rs b/crates/zserio/src/ztype/string_decode.rs
index 438d3a0..e35ab45 100644
--- a/crates/zserio/src/ztype/string_decode.rs
+++ b/crates/zserio/src/ztype/string_decode.rs
@@ -7,7 +7,7 @@ use crate::ztype::varuint_decode::read_varsize;
 
 pub fn read_string(reader: &mut BitReader) -> Result<String> {
     // zserio first writes the string length as a varsize uint
-    let str_len = read_varsize(reader).map(|v| v as usize).unwrap();
+    let str_len = read_varsize(reader)? as usize;
 
     if reader.remaining() < (str_len as u64 * 8) {
         return Err(ZserioError::IoError(std::io::Error::new(
-- 
2.43.0


From 089e7606aef07ece2ef8be3721452a7e799f4037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 05/40] fix: delta arithmetic of packed arrays near the limits
 of 64 bits

The difference of two large elements overflowed i64 although it fits
into the delta width, and a crafted delta overflowed when reading.
---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index ff63642..0168c95 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -103,7 +103,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let delta = read_signed_bits(reader, self.max_bit_number + 1)?;
-            self.previous_element = (self.previous_element as i64 + delta) as u64;
+            self.previous_element = self.previous_element.wrapping_add(delta as u64);
         }
         *value = array_traits.from_u64(self.previous_element);
         Ok(())
@@ -147,7 +147,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let element_as_u64 = array_traits.to_u64(element);
-            let delta = element_as_u64 as i64 - self.previous_element as i64;
+            let delta = element_as_u64.wrapping_sub(self.previous_element) as i64;
             ztype::write_signed_bits(writer, delta, self.max_bit_number + 1)?;
             self.previous_element = element_as_u64;
         }
-- 
2.43.0


From 1d93ec5319b67f8eb793aeae36378b7576d9ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:09 +0000
Subject: [PATCH 06/40] fix: packed arrays of floats, bools, strings and blobs
 lose their elements

These types have no integer value to compute differences of; with all
differences zero, only the first element was stored. As in the reference
implementation, elements that are not delta-packable are now stored as
they are.
---
 .../array_traits/bit_buffer_array_trait.rs    | 40 ++++++------------
 .../ztype/array_traits/boolean_array_trait.rs | 38 +++++------------
 .../array_traits/byte_buffer_array_trait.rs   | 40 ++++++------------
 .../ztype/array_traits/float16_array_trait.rs | 38 +++++------------
 .../ztype/array_traits/float32_array_trait.rs | 38 +++++------------
 .../ztype/array_traits/float64_array_trait.rs | 38 +++++------------
 .../ztype/array_traits/string_array_trait.rs  | 42 +++++++------------
 7 files changed, 83 insertions(+), 191 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
index cc48a22..b2cb989 100644
--- a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
@@ -42,63 +42,47 @@ impl array_trait::ArrayTrait<ztype::ExternType> for BitBufferArrayTrait {
 
     fn init_context(
         &self,
-        context_node: &mut PackingContextNode,
-        element: &ztype::ExternType,
+        _context_node: &mut PackingContextNode,
+        _element: &ztype::ExternType,
     ) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+        // not delta-packable: the elements of packed arrays are stored as they are
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::ExternType,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::ExternType,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut ztype::ExternType,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &ztype::ExternType,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs b/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
index 53195bf..b77a953 100644
--- a/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
@@ -39,61 +39,45 @@ impl array_trait::ArrayTrait<bool> for BooleanArrayTrait {
         false // delta-encoding not supported for bool arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &bool) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &bool) -> Result<()> {
+        // not delta-packable: the elements of packed arrays are stored as they are
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &bool,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &bool,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut bool,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &bool,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
index 33ed52d..c224920 100644
--- a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
@@ -42,63 +42,47 @@ impl array_trait::ArrayTrait<ztype::BytesType> for ByteBufferArrayTrait {
 
     fn init_context(
         &self,
-        context_node: &mut PackingContextNode,
-        element: &ztype::BytesType,
+        _context_node: &mut PackingContextNode,
+        _element: &ztype::BytesType,
     ) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+        // not delta-packable: the elements of packed arrays are stored as they are
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::BytesType,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::BytesType,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut ztype::BytesType,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &ztype::BytesType,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/float16_array_trait.rs b/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
index 1a0be5e..4e80af2 100644
--- a/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
@@ -40,61 +40,45 @@ impl array_trait::ArrayTrait<f32> for Float16ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f32) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &f32) -> Result<()> {
+        // not delta-packable: the elements of packed arrays are stored as they are
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut f32,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &f32,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/float32_array_trait.rs b/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
index 2364119..157f563 100644
--- a/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
@@ -40,61 +40,45 @@ impl array_trait::ArrayTrait<f32> for Float32ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f32) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &f32) -> Result<()> {
+        // not delta-packable: the elements of packed arrays are stored as they are
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut f32,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &f32,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/float64_array_trait.rs b/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
index 79088b9..68f78c5 100644
--- a/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
@@ -40,61 +40,45 @@ impl array_trait::ArrayTrait<f64> for Float64ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f64) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &f64) -> Result<()> {
+        // not delta-packable: the elements of packed arrays are stored as they are
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f64,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f64,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut f64,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &f64,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/string_array_trait.rs b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
index c6634a6..9452f46 100644
--- a/crates/zserio/src/ztype/array_traits/string_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
@@ -42,60 +42,48 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
         "".into() // not supported for strings
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &String) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(
+        &self,
+        _context_node: &mut PackingContextNode,
+        _element: &String,
+    ) -> Result<()> {
+        // not delta-packable: the elements of packed arrays are stored as they are
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &String,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &String,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut String,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &String,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
-- 
2.43.0


From 616f943761b11cac09ad11eacd2c147ceacea230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:09 +0000
Subject: [PATCH 07/40] fix: bit size of string arrays

The contents were counted in bytes instead of bits.
---
 crates/zserio/src/ztype/array_traits/string_array_trait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/string_array_trait.rs b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
index 9452f46..88d81ad 100644
--- a/crates/zserio/src/ztype/array_traits/string_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
@@ -1,8 +1,8 @@
 use crate::error::Result;
 use crate::ztype::array_traits::array_trait;
 use crate::ztype::array_traits::packing_context_node::PackingContextNode;
+use crate::ztype::bitsize_string;
 use crate::ztype::read_string;
-use crate::ztype::varsize_bitsize;
 use crate::ztype::write_string;
 use bitreader::BitReader;
 use rust_bitwriter::BitWriter;
@@ -19,7 +19,7 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &String) -> Result<u64> {
-        Ok(value.len() as u64 + varsize_bitsize(value.len() as u32)? as u64)
+        bitsize_string(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &String) -> Result<u64> {
-- 
2.43.0


From e428275101d565ee60a099ef00abc835870ef142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 08/40] fix: packing of signed arrays with elements of both
 signs

The differences were computed on sign-extended unsigned values, so that
an array crossing zero was never delta-packed, unlike in the zserio
specification.
---
 crates/zserio/src/ztype/array_traits/array_trait.rs          | 5 +++++
 .../zserio/src/ztype/array_traits/bit_field_array_trait.rs   | 3 +++
 crates/zserio/src/ztype/array_traits/delta_context.rs        | 2 +-
 crates/zserio/src/ztype/array_traits/varint16_array_trait.rs | 3 +++
 crates/zserio/src/ztype/array_traits/varint32_array_trait.rs | 3 +++
 crates/zserio/src/ztype/array_traits/varint64_array_trait.rs | 3 +++
 crates/zserio/src/ztype/array_traits/varint_array_trait.rs   | 3 +++
 7 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/array_traits/array_trait.rs b/crates/zserio/src/ztype/array_traits/array_trait.rs
index 591a719..d919643 100644
--- a/crates/zserio/src/ztype/array_traits/array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/array_trait.rs
@@ -13,6 +13,11 @@ pub trait ArrayTrait<T> {
     fn to_u64(&self, value: &T) -> u64;
     #[allow(clippy::wrong_self_convention)]
     fn from_u64(&self, value: u64) -> T;
+    /// The distance of two elements, given as returned by `to_u64`. Signed types sign-extend in
+    /// `to_u64`, and need to override this.
+    fn abs_delta(&self, a: u64, b: u64) -> u64 {
+        a.abs_diff(b)
+    }
 
     // all functions below are for using packed contexts. They provide a default implementation
     // for array traits using delta contexts.
diff --git a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
index efd5a48..dc45faf 100644
--- a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
@@ -45,6 +45,9 @@ impl array_trait::ArrayTrait<name> for BitFieldArrayTrait {
     fn from_u64(&self, value: u64) -> name {
         value as name
     }
+    fn abs_delta(&self, a: u64, b: u64) -> u64 {
+        (a as i64).abs_diff(b as i64)
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &name) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 0168c95..424e8e8 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -51,7 +51,7 @@ impl DeltaContext {
             self.first_element_size = self.unpacked_size;
         } else if self.max_bit_number <= MAX_BIT_NUMBER_LIMIT {
             self.is_packed = true;
-            let delta = self.previous_element.abs_diff(array_trait.to_u64(element));
+            let delta = array_trait.abs_delta(self.previous_element, array_trait.to_u64(element));
             let max_bit_number = bit_length(delta);
             if max_bit_number > self.max_bit_number {
                 self.max_bit_number = max_bit_number;
diff --git a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
index 2e9f35f..7fd6962 100644
--- a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
@@ -39,6 +39,9 @@ impl array_trait::ArrayTrait<i16> for VarInt16ArrayTrait {
     fn from_u64(&self, value: u64) -> i16 {
         value as i16
     }
+    fn abs_delta(&self, a: u64, b: u64) -> u64 {
+        (a as i64).abs_diff(b as i64)
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i16) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
diff --git a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
index 84a9fc2..f031a4c 100644
--- a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
@@ -39,6 +39,9 @@ impl array_trait::ArrayTrait<i32> for VarInt32ArrayTrait {
     fn from_u64(&self, value: u64) -> i32 {
         value as i32
     }
+    fn abs_delta(&self, a: u64, b: u64) -> u64 {
+        (a as i64).abs_diff(b as i64)
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i32) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
diff --git a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
index f9b03c0..61f55b7 100644
--- a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
@@ -39,6 +39,9 @@ impl array_trait::ArrayTrait<i64> for VarInt64ArrayTrait {
     fn from_u64(&self, value: u64) -> i64 {
         value as i64
     }
+    fn abs_delta(&self, a: u64, b: u64) -> u64 {
+        (a as i64).abs_diff(b as i64)
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i64) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
diff --git a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
index 9d999ba..540b169 100644
--- a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
@@ -39,6 +39,9 @@ impl array_trait::ArrayTrait<i64> for VarIntArrayTrait {
     fn from_u64(&self, value: u64) -> i64 {
         value as i64
     }
+    fn abs_delta(&self, a: u64, b: u64) -> u64 {
+        (a as i64).abs_diff(b as i64)
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i64) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
-- 
2.43.0


From 3d29a3ec5a41d0a7b08a8083ed726e601139d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 09/40] fix: borrow optional extern and bytes fields when
 encoding

---
 .../zserio-rs-build/src/internal/generator/encode.rs  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 1f9775c..643edd1 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -115,11 +115,12 @@ pub fn requires_borrowing(field: &Field, native_type: &FundamentalZserioTypeRefe
     if !native_type.fundamental_type.is_builtin {
         return true;
     }
-    // for the native core types, strings make sense to pass by reference.
-    if native_type.fundamental_type.name == "string" {
-        return true;
-    }
-    false
+    // for the native core types, strings and bit/byte buffers (which are not Copy)
+    // need to be passed by reference.
+    matches!(
+        native_type.fundamental_type.name.as_str(),
+        "string" | "extern" | "bytes"
+    )
 }
 
 pub fn encode_field(
-- 
2.43.0


From 068468c1c7542736b3080a2ec5224b24b53b4244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 10/40] fix: keep the default case of a choice

---
 .../src/internal/generator/pass_parameters.rs          |  9 +++++++--
 .../zserio-rs-build/src/internal/generator/zchoice.rs  |  6 +++---
 crates/zserio-rs-build/src/internal/visitor.rs         | 10 +++++++++-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
index 4d3458c..d208cf0 100644
--- a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
+++ b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
@@ -26,7 +26,9 @@ pub fn number_of_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
     match symbol.symbol {
         Symbol::Choice(zchoice) => {
             let zchoice = zchoice.borrow();
-            zchoice.cases.len() + zchoice.type_parameters.len()
+            zchoice.cases.len()
+                + zchoice.default_case.iter().len()
+                + zchoice.type_parameters.len()
         }
         Symbol::Struct(zstruct) => {
             let zstruct = zstruct.borrow();
@@ -46,7 +48,10 @@ pub fn number_of_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
 pub fn number_of_data_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
     let symbol = scope.get_symbol(type_ref);
     match symbol.symbol {
-        Symbol::Choice(zchoice) => zchoice.borrow().cases.len(),
+        Symbol::Choice(zchoice) => {
+            let zchoice = zchoice.borrow();
+            zchoice.cases.len() + zchoice.default_case.iter().len()
+        }
         Symbol::Struct(zstruct) => zstruct.borrow().fields.len(),
         Symbol::Union(zunion) => zunion.borrow().fields.len(),
         _ => 0,
diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 826b178..66f5e1f 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -180,7 +180,7 @@ pub fn generate_choice_match_construct(
         code_gen_fn.line("},");
     }
     if let Some(default_case) = &zchoice.default_case {
-        code_gen_fn.line("_ => (");
+        code_gen_fn.line("_ => {");
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
@@ -189,7 +189,7 @@ pub fn generate_choice_match_construct(
                 type_generator,
                 code_gen_fn,
                 &field.borrow(),
-                false,
+                packed,
                 default_field.is_packable,
             );
             f(
@@ -200,7 +200,7 @@ pub fn generate_choice_match_construct(
                 packed,
             );
         }
-        code_gen_fn.line("),");
+        code_gen_fn.line("},");
     } else {
         code_gen_fn.line("_ => (),");
     }
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index b8cc798..41c6b2c 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -548,7 +548,15 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             };
         }
 
-        // TODO visit the default type
+        // visit the default case of the choice, if there is one
+        if let Some(choice_default_ctx) = ctx.choiceDefault() {
+            match self.visit_choiceDefault(&choice_default_ctx) {
+                ZserioTreeReturnType::ChoiceCase(default_case) => {
+                    choice.default_case = Some(default_case)
+                }
+                _ => panic!("choice default type mismatch"),
+            };
+        }
 
         // Visit all functions defined for this choice.
         for function_ctx in ctx.functionDefinition_all() {
-- 
2.43.0


From f9f0f26aad5304f934cd1c38735975dcfde3a3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 11/40] fix: count the length header of extern and bytes fields

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 7771ade..32523d8 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -41,10 +41,13 @@ pub fn bitsize_type_reference(
                 field_name
             ));
         } else if type_reference.name == "extern" {
-            function.line(format!("end_position += {}.bit_size as u64;", field_name));
+            function.line(format!(
+                "end_position += ztype::bitsize_of_extern(&{});",
+                field_name
+            ));
         } else if type_reference.name == "bytes" {
             function.line(format!(
-                "end_position += ({}.byte_size as u64) * 8;",
+                "end_position += ztype::bitsize_of_bytes(&{});",
                 field_name
             ));
         } else if type_reference.name == "bool" {
-- 
2.43.0


From 94c27c26ab09983d88de94424ae2a10f10116ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 12/40] fix: packed size of fields with an explicit bit width

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 32523d8..00f15f2 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -53,8 +53,6 @@ pub fn bitsize_type_reference(
         } else if type_reference.name == "bool" {
             // boolean
             function.line("end_position += 1;");
-        } else if type_reference.bits != 0 {
-            function.line(format!("end_position += {};", type_reference.bits));
         } else if packed {
             // packed bitsize
             function.line(format!(
@@ -63,6 +61,8 @@ pub fn bitsize_type_reference(
                 initialize_array_trait(scope, type_generator, type_reference),
                 field_name,
             ));
+        } else if type_reference.bits != 0 {
+            function.line(format!("end_position += {};", type_reference.bits));
         } else {
             let bit_length = match type_reference.name.as_str() {
                 "uint8" => String::from("8"),
-- 
2.43.0


From 269c076f0cc7b187f77226e357812d7d94d45129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 13/40] fix: size of bit fields with a dynamic width

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 00f15f2..c2e3199 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -61,6 +61,12 @@ pub fn bitsize_type_reference(
                 initialize_array_trait(scope, type_generator, type_reference),
                 field_name,
             ));
+        } else if let Some(length_expression) = &type_reference.length_expression {
+            // bit fields with a dynamic width
+            function.line(format!(
+                "end_position += ({}) as u64;",
+                generate_expression(&length_expression.borrow(), type_generator, scope)
+            ));
         } else if type_reference.bits != 0 {
             function.line(format!("end_position += {};", type_reference.bits));
         } else {
@@ -103,9 +109,6 @@ pub fn bitsize_type_reference(
                 "varsize" => {
                     format!("ztype::varsize_bitsize({}).unwrap() as u64", field_name)
                 }
-                "int" | "bit" => {
-                    format!("{} as u64", type_reference.bits)
-                }
                 _ => panic!("failed"),
             };
             function.line(format!("end_position += {};", bit_length,));
-- 
2.43.0


From dd2959bffd8638edc501b5876478306baf7bf199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 14/40] fix: report out-of-range values as errors when
 computing sizes

---
 .../src/internal/generator/bitsize.rs         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index c2e3199..92b0979 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -23,13 +23,13 @@ pub fn bitsize_type_reference(
         if packed {
             // Use packed bitsize
             function.line(format!(
-                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position).unwrap();",
+                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position)?;",
                 field_name,
                 field_index,
             ));
         } else {
             function.line(format!(
-                "end_position += {}.zserio_bitsize(end_position).unwrap();",
+                "end_position += {}.zserio_bitsize(end_position)?;",
                 field_name
             ));
         }
@@ -37,7 +37,7 @@ pub fn bitsize_type_reference(
         if type_reference.name == "string" {
             // string types
             function.line(format!(
-                "end_position += ztype::bitsize_string({}.as_str()).unwrap();",
+                "end_position += ztype::bitsize_string({}.as_str())?;",
                 field_name
             ));
         } else if type_reference.name == "extern" {
@@ -83,31 +83,31 @@ pub fn bitsize_type_reference(
                 "float32" => String::from("32"),
                 "float64" => String::from("64"),
                 "varint" => {
-                    format!("ztype::varint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint_bitsize({})? as u64", field_name)
                 }
                 "varint16" => {
-                    format!("ztype::varint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint16_bitsize({})? as u64", field_name)
                 }
                 "varint32" => {
-                    format!("ztype::varint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint32_bitsize({})? as u64", field_name)
                 }
                 "varint64" => {
-                    format!("ztype::varint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint64_bitsize({})? as u64", field_name)
                 }
                 "varuint" => {
-                    format!("ztype::varuint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint_bitsize({})? as u64", field_name)
                 }
                 "varuint16" => {
-                    format!("ztype::varuint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint16_bitsize({})? as u64", field_name)
                 }
                 "varuint32" => {
-                    format!("ztype::varuint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint32_bitsize({})? as u64", field_name)
                 }
                 "varuint64" => {
-                    format!("ztype::varuint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint64_bitsize({})? as u64", field_name)
                 }
                 "varsize" => {
-                    format!("ztype::varsize_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varsize_bitsize({})? as u64", field_name)
                 }
                 _ => panic!("failed"),
             };
-- 
2.43.0


From 2113bd6276ac20cd3305bea7221c2663af4c8c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 15/40] fix: reject unknown union selectors instead of
 panicking

---
 .../src/internal/generator/zunion.rs          | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 723482e..2361992 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -194,6 +194,21 @@ pub fn generate_union_match_construct(
     code_gen_fn.line("}");
 }
 
+/// Generates the code which reads the union selector, and rejects unknown selectors.
+fn generate_read_selector(function: &mut Function, rust_type_name: &str, num_fields: usize) {
+    function.line("let union_selector = ztype::read_varsize(reader)?;");
+    function.line(format!("if union_selector >= {} {{", num_fields));
+    function.line(format!(
+        "return Err(zserio::ZserioError::DataError(format!(\"unexpected selector for {}: {{}}\", union_selector)));",
+        rust_type_name
+    ));
+    function.line("}");
+    function.line(format!(
+        "self.union_selector = {}Selector::from_u32(union_selector);",
+        rust_type_name
+    ));
+}
+
 fn generate_zserio_read(
     symbol_scope: &ModelScope,
     type_generator: &mut TypeGenerator,
@@ -205,10 +220,7 @@ fn generate_zserio_read(
     zserio_read_fn.arg_mut_self();
     zserio_read_fn.arg("reader", "&mut BitReader");
     zserio_read_fn.ret("Result<()>");
-    zserio_read_fn.line(format!(
-        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?);",
-        rust_type_name
-    ));
+    generate_read_selector(zserio_read_fn, &rust_type_name, union.fields.len());
 
     generate_union_match_construct(
         symbol_scope,
-- 
2.43.0


From aa2316c44dd1950ec09caa0dd854e51420c38a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 16/40] fix: read, size and pack unions inside packed arrays

---
 .../src/internal/generator/pass_parameters.rs |  4 +---
 .../src/internal/generator/zunion.rs          | 22 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
index d208cf0..a15128f 100644
--- a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
+++ b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
@@ -26,9 +26,7 @@ pub fn number_of_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
     match symbol.symbol {
         Symbol::Choice(zchoice) => {
             let zchoice = zchoice.borrow();
-            zchoice.cases.len()
-                + zchoice.default_case.iter().len()
-                + zchoice.type_parameters.len()
+            zchoice.cases.len() + zchoice.default_case.iter().len() + zchoice.type_parameters.len()
         }
         Symbol::Struct(zstruct) => {
             let zstruct = zstruct.borrow();
diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 2361992..2f151f0 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -5,7 +5,9 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
     bitsize::bitsize_field, decode::decode_field, encode::encode_field,
-    file_generator::write_to_file, function::generate_function, packed_contexts::FieldDetails,
+    file_generator::write_to_file, function::generate_function,
+    packed_contexts::generate_init_packed_context_for_field,
+    packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::convert_to_union_selector_name, types::TypeGenerator,
 };
 use codegen::{Function, Scope, Struct};
@@ -127,11 +129,26 @@ pub fn generate_union(
     // Generate the packed contexts.
     let create_packing_context_fn = union_impl.new_fn("zserio_create_packing_context");
     create_packing_context_fn.arg("context_node", "&mut PackingContextNode");
+    for (field_index, field) in zunion.fields.iter().enumerate() {
+        let field_details =
+            FieldDetails::from_field(field, field_index, symbol_scope, type_generator);
+        generate_packed_context_for_field(create_packing_context_fn, &field_details);
+    }
 
     let init_packing_context_fn = union_impl.new_fn("zserio_init_packing_context");
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
+    generate_union_match_construct(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zunion,
+        true,
+        &|scope, type_generator, function, field_details, _| {
+            generate_init_packed_context_for_field(scope, type_generator, function, field_details)
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -237,6 +254,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
+    generate_read_selector(zserio_read_packed_fn, &rust_type_name, union.fields.len());
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -315,6 +333,8 @@ fn generate_zserio_bitsize(
     bitsize_packed_fn.arg("context_node", "&mut PackingContextNode");
     bitsize_packed_fn.arg("bit_position", "u64");
     bitsize_packed_fn.line("let mut end_position = bit_position;");
+    bitsize_packed_fn
+        .line("end_position += ztype::varsize_bitsize(self.union_selector as u32)? as u64;");
     generate_union_match_construct(
         symbol_scope,
         type_generator,
-- 
2.43.0


From 021ba610e87a368ed642a009087cb3f2b56cd640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 17/40] fix: report bit field widths above 64 as decoding
 errors

---
 crates/zserio/src/ztype/bits_decode.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/zserio/src/ztype/bits_decode.rs b/crates/zserio/src/ztype/bits_decode.rs
index 9870e3d..d66bf99 100644
--- a/crates/zserio/src/ztype/bits_decode.rs
+++ b/crates/zserio/src/ztype/bits_decode.rs
@@ -1,16 +1,20 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use bitreader::BitReader;
 
 pub fn read_unsigned_bits(reader: &mut BitReader, bits: u8) -> Result<u64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataError(format!(
+            "cannot read more than 64 bits, but {bits} bits are requested"
+        )));
     }
     Ok(reader.read_u64(bits)?)
 }
 
 pub fn read_signed_bits(reader: &mut BitReader, bits: u8) -> Result<i64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataError(format!(
+            "cannot read more than 64 bits, but {bits} bits are requested"
+        )));
     }
     Ok(reader.read_i64(bits)?)
 }
-- 
2.43.0


From d9648af7548493690b90987bb5a2fa0020c67947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 18/40] fix: generate Rust's operator for bitwise negation

---
 crates/zserio-rs-build/src/internal/generator/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index b46d8c3..3641077 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -367,7 +367,7 @@ fn generate_bitwise_negation(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "~{}",
+        "!{}",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
     )
 }
-- 
2.43.0


From d296106373131197546d6c3088a117e5c77cabe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 19/40] fix: literals beyond 32 bits, binary and floating-point
 literals

---
 crates/zserio-rs-build/src/internal/ast/expression.rs    | 6 +++---
 .../zserio-rs-build/src/internal/generator/expression.rs | 5 +++--
 crates/zserio-rs-build/src/internal/visitor.rs           | 9 +++++----
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 49933ba..6072cb7 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -27,7 +27,7 @@ pub enum ExpressionFlag {
 
 #[derive(Clone, Debug)]
 pub enum ExpressionType {
-    Integer(i32),
+    Integer(i128),
     Float(f64),
     String(String),
     Bool(bool),
@@ -323,7 +323,7 @@ impl Expression {
         match &self.operand1 {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
-                    self.result_type = ExpressionType::Integer(numbits(value) as i32);
+                    self.result_type = ExpressionType::Integer(numbits(value) as i128);
                     self.fully_resolved = op1.fully_resolved;
                     self.native_type = Some(TypeReference::new_native_type("varsize"));
                 }
@@ -359,7 +359,7 @@ impl Expression {
         }
     }
 
-    fn evaluate_integer_comparison_expression(&mut self, mut value1: i32, mut value2: i32) {
+    fn evaluate_integer_comparison_expression(&mut self, mut value1: i128, mut value2: i128) {
         if !self.operand1.as_ref().unwrap().fully_resolved {
             value1 = 1;
         }
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 3641077..ba3bfb0 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -444,10 +444,11 @@ fn generate_literal_expression(expression: &Expression) -> String {
     };
 
     match expression.expression_type {
-        DECIMAL_LITERAL => i32::to_string(&int_value),
+        DECIMAL_LITERAL => int_value.to_string(),
         HEXADECIMAL_LITERAL => format!("{int_value:#x}"),
         OCTAL_LITERAL => format!("{int_value:#o}"),
-        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{}", &float_value),
+        BINARY_LITERAL => format!("{int_value:#b}"),
+        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{:?}", &float_value),
         BOOL_LITERAL => {
             if bool_value {
                 String::from("true")
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 41c6b2c..f1d9e67 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -951,18 +951,18 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             ),
             _ if literal_ctx.DECIMAL_LITERAL().is_some() => ExpressionType::Integer(
                 literal_text
-                    .parse::<i32>()
+                    .parse::<i128>()
                     .expect("failed to parse integer expression"),
             ),
             _ if literal_ctx.HEXADECIMAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_start_matches("0x"), 16)
+                i128::from_str_radix(&literal_text[2..], 16)
                     .expect("Not a hex number!"),
             ),
             _ if literal_ctx.OCTAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
+                i128::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
             ),
             _ if literal_ctx.BINARY_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_end_matches('b'), 2)
+                i128::from_str_radix(literal_text.trim_end_matches(['b', 'B']), 2)
                     .expect("Not a binary number!"),
             ),
             _ if literal_ctx.STRING_LITERAL().is_some() => {
@@ -971,6 +971,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             }
             _ if literal_ctx.FLOAT_LITERAL().is_some() => ExpressionType::Float(
                 literal_text
+                    .trim_end_matches(['f', 'F'])
                     .parse::<f64>()
                     .expect("failed to parse float32 expression"),
             ),
-- 
2.43.0


From 2440d8954094f5c008ea2960656fb414694acaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 20/40] fix: values of constants in enum and bitmask values

---
 .../src/internal/ast/expression.rs            | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 6072cb7..58ecc69 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -619,6 +619,26 @@ impl Expression {
         self.symbol = Option::from(symbol_reference.clone());
         (self.result_type, self.native_type) = symbol_to_expression_type(&symbol_reference, scope);
         self.fully_resolved = false;
+
+        // The value of an integer constant is known. It is needed for the values of enum items and
+        // bitmasks.
+        if let (Symbol::Const(z_const), ExpressionType::Integer(_)) =
+            (&symbol_reference.symbol, &self.result_type)
+        {
+            let value_expression = z_const.as_ref().borrow().value_expression.clone();
+            let mut value_expression = value_expression.as_ref().borrow_mut();
+            scope.scope_stack.push(ScopeLocation {
+                package: symbol_reference.package.clone(),
+                import_symbol: None,
+                symbol_name: None,
+            });
+            value_expression.evaluate(scope);
+            scope.scope_stack.pop();
+            if matches!(value_expression.result_type, ExpressionType::Integer(_)) {
+                self.result_type.clone_from(&value_expression.result_type);
+                self.fully_resolved = value_expression.fully_resolved;
+            }
+        }
     }
 }
 
-- 
2.43.0


From e078339e47b4f8ece06ff084ce9f5cceb0c6de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 21/40] fix: automatic bitmask values behind values with
 several bits

---
 .../zserio-rs-build/src/internal/ast/zbitmask.rs   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
index 158afeb..3f3ba13 100644
--- a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
@@ -37,6 +37,7 @@ impl ZBitmaskType {
     /// Evaluates all expressions within this bitmask type.
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
         let mut bitmask_value = 1u64;
+        let mut used_values = vec![];
         for value in &mut self.values {
             // Check if the bitmask value has a value hard-coded.
             // If yes, use the value from the expression.
@@ -48,19 +49,18 @@ impl ZBitmaskType {
                     ExpressionType::Integer(v) => v as u64,
                     _ => panic!("only integer bitmask values are supported"),
                 };
-                if expr_bitmask_value < bitmask_value && expr_bitmask_value != 0 {
+                if used_values.contains(&expr_bitmask_value) {
                     panic!("expression redefines bitmask value");
                 }
                 bitmask_value = expr_bitmask_value;
             }
             value.value = bitmask_value;
+            used_values.push(bitmask_value);
 
-            // Pick the next bit for the next bitmask value.
-            if bitmask_value == 0 {
-                bitmask_value = 1;
-            } else {
-                bitmask_value <<= 1;
-            }
+            // Pick the bit above the highest bit of this value for the next bitmask value.
+            bitmask_value = 1u64
+                .checked_shl(u64::BITS - bitmask_value.leading_zeros())
+                .unwrap_or(0);
         }
         self.zserio_type.evaluate(scope);
     }
-- 
2.43.0


From d17e8989d99670d40379f7f756a447deffa08f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 22/40] fix: mixing 64-bit integers and bit fields in
 expressions

---
 .../src/internal/ast/evaluate_mixing_native_types.rs      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index ddd2e72..e2b24f3 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -41,6 +41,8 @@ fn get_integer_rank(integer_type: &TypeReference) -> u8 {
         "int16" => 16,
         "int32" => 32,
         "int64" => 64,
+        // bit fields are 64 bits wide in the generated code
+        "int" => 64,
         "varint16" => 15,
         "varint32" => 29,
         "varint64" => 57,
@@ -48,6 +50,8 @@ fn get_integer_rank(integer_type: &TypeReference) -> u8 {
         "uint8" => 8,
         "uint16" => 16,
         "uint32" => 32,
+        "uint64" => 64,
+        "bit" => 64,
         "varuint16" => 15,
         "varuint32" => 29,
         "varuint64" => 57,
@@ -63,6 +67,7 @@ pub fn is_signed(int_type_name: &str) -> bool {
         "int16" => true,
         "int32" => true,
         "int64" => true,
+        "int" => true,
         "varint16" => true,
         "varint32" => true,
         "varint64" => true,
@@ -70,6 +75,8 @@ pub fn is_signed(int_type_name: &str) -> bool {
         "uint8" => false,
         "uint16" => false,
         "uint32" => false,
+        "uint64" => false,
+        "bit" => false,
         "varuint16" => false,
         "varuint32" => false,
         "varuint64" => false,
@@ -85,6 +92,7 @@ pub fn convert_to_unsigned(int_type_name: &str) -> String {
         "int16" => "uint16".into(),
         "int32" => "uint32".into(),
         "int64" => "uint64".into(),
+        "int" => "bit".into(),
         "varint16" => "varuint16".into(),
         "varint32" => "varuint32".into(),
         "varint64" => "varuint64".into(),
-- 
2.43.0


From a0ae5e1d4af646bf5b50ef3612c2c08454b47666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 23/40] fix: casts of comparison and bitwise operands of
 different types

---
 .../src/internal/ast/expression.rs            |  5 ++
 .../src/internal/generator/expression.rs      | 60 +++++++++++++++++--
 .../zserio-rs-build/src/internal/visitor.rs   |  3 +-
 3 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 58ecc69..6ba6c89 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -549,6 +549,11 @@ impl Expression {
                         _ => panic!("unexpected bitwise expression"),
                     };
                     self.result_type = ExpressionType::Integer(result);
+                    self.native_type = match self.expression_type {
+                        // The type of a shift is the type of the shifted value.
+                        LSHIFT | RSHIFT => op1.native_type.clone(),
+                        _ => evaluate_mixing_integer_types(&op1.native_type, &op2.native_type),
+                    };
                 }
                 (ExpressionType::BitMask(_), ExpressionType::Integer(_))
                 | (ExpressionType::Integer(_), ExpressionType::BitMask(_))
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index ba3bfb0..1254bc8 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -165,6 +165,21 @@ fn generate_arithmetic_expression(
     )
 }
 
+/// Casts the code of an operand to the given type, if the operand is a number of another type.
+fn cast_operand(
+    operand: &Expression,
+    code: String,
+    rust_type: &str,
+    type_generator: &mut TypeGenerator,
+) -> String {
+    match &operand.native_type {
+        Some(native_type) if type_generator.ztype_to_rust_type(native_type) != rust_type => {
+            format!("(({code}) as {rust_type})")
+        }
+        _ => code,
+    }
+}
+
 fn generate_bracketed_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
@@ -377,9 +392,25 @@ fn generate_bitwise_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let operand1 = expression.operand1.as_ref().unwrap();
+    let operand2 = expression.operand2.as_ref().unwrap();
+    let mut op1 = generate_expression(operand1, type_generator, scope);
+    let mut op2 = generate_expression(operand2, type_generator, scope);
+
+    // Both operands need the type of the result, except for the number of bits to shift.
+    if let (ExpressionType::Integer(_), Some(native_type)) =
+        (&expression.result_type, &expression.native_type)
+    {
+        if ![LSHIFT, RSHIFT].contains(&expression.expression_type) {
+            let rust_type = type_generator.ztype_to_rust_type(native_type);
+            op1 = cast_operand(operand1, op1, &rust_type, type_generator);
+            op2 = cast_operand(operand2, op2, &rust_type, type_generator);
+        }
+    }
+
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        op1,
         match expression.expression_type {
             AND => "&",
             OR => "|",
@@ -388,7 +419,7 @@ fn generate_bitwise_expression(
             RSHIFT => ">>",
             _ => panic!("unexpected bitwise expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        op2,
     )
 }
 
@@ -414,9 +445,30 @@ fn generate_comparison_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let operand1 = expression.operand1.as_ref().unwrap();
+    let operand2 = expression.operand2.as_ref().unwrap();
+    let mut op1 = generate_expression(operand1, type_generator, scope);
+    let mut op2 = generate_expression(operand2, type_generator, scope);
+
+    // Numbers of different types are compared in a type that can hold both of them.
+    if let (Some(type1), Some(type2)) = (&operand1.native_type, &operand2.native_type) {
+        let common_type = match (&operand1.result_type, &operand2.result_type) {
+            (ExpressionType::Integer(_), ExpressionType::Integer(_)) => Some("i128"),
+            (ExpressionType::Float(_), ExpressionType::Float(_)) => Some("f64"),
+            _ => None,
+        };
+        if let Some(common_type) = common_type {
+            if type_generator.ztype_to_rust_type(type1) != type_generator.ztype_to_rust_type(type2)
+            {
+                op1 = cast_operand(operand1, op1, common_type, type_generator);
+                op2 = cast_operand(operand2, op2, common_type, type_generator);
+            }
+        }
+    }
+
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        op1,
         match expression.expression_type {
             EQ => "==",
             LE => "<=",
@@ -426,7 +478,7 @@ fn generate_comparison_expression(
             NE => "!=",
             _ => panic!("unexpected comparison expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        op2,
     )
 }
 
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index f1d9e67..5ef05bc 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -955,8 +955,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
                     .expect("failed to parse integer expression"),
             ),
             _ if literal_ctx.HEXADECIMAL_LITERAL().is_some() => ExpressionType::Integer(
-                i128::from_str_radix(&literal_text[2..], 16)
-                    .expect("Not a hex number!"),
+                i128::from_str_radix(&literal_text[2..], 16).expect("Not a hex number!"),
             ),
             _ if literal_ctx.OCTAL_LITERAL().is_some() => ExpressionType::Integer(
                 i128::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
-- 
2.43.0


From 609ea1b2b5eb72c075205d2171551dde4b0d643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 24/40] fix: ternary expressions with branches of different
 types

---
 .../src/internal/ast/expression.rs             | 11 +++++++++++
 .../src/internal/generator/expression.rs       | 18 ++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 6ba6c89..f95f4b4 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -589,6 +589,17 @@ impl Expression {
     }
 
     fn evaluate_ternary_expression(&mut self) {
+        let op2 = self.operand2.as_ref().unwrap();
+        let op3 = self.operand3.as_ref().unwrap();
+        self.native_type = match (&op2.result_type, &op3.result_type) {
+            (ExpressionType::Integer(_), ExpressionType::Integer(_)) => {
+                evaluate_mixing_integer_types(&op2.native_type, &op3.native_type)
+            }
+            (ExpressionType::Float(_), ExpressionType::Float(_)) => {
+                evaluate_mixing_float_types(&op2.native_type, &op3.native_type)
+            }
+            _ => op2.native_type.clone(),
+        };
         match self.operand1.as_ref().unwrap().result_type {
             ExpressionType::Bool(condition) => {
                 if condition {
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 1254bc8..353e2a9 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -352,6 +352,20 @@ fn generate_ternary_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let operand2 = expression.operand2.as_ref().unwrap();
+    let operand3 = expression.operand3.as_ref().unwrap();
+    let mut op2 = generate_expression(operand2, type_generator, scope);
+    let mut op3 = generate_expression(operand3, type_generator, scope);
+
+    // Both numbers need the same type.
+    if let (ExpressionType::Integer(_) | ExpressionType::Float(_), Some(native_type)) =
+        (&expression.result_type, &expression.native_type)
+    {
+        let rust_type = type_generator.ztype_to_rust_type(native_type);
+        op2 = cast_operand(operand2, op2, &rust_type, type_generator);
+        op3 = cast_operand(operand3, op3, &rust_type, type_generator);
+    }
+
     format!(
         "
 if {} {{
@@ -360,8 +374,8 @@ if {} {{
     {}
 }}",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand3.as_ref().unwrap(), type_generator, scope),
+        op2,
+        op3,
     )
 }
 
-- 
2.43.0


From 55ce3469cdb2bb71c5387a2f4929c5a4e0dc720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 25/40] fix: precedence of casts and clones of expressions

---
 .../zserio-rs-build/src/internal/generator/decode.rs | 12 ++++++------
 .../zserio-rs-build/src/internal/generator/encode.rs |  2 +-
 .../src/internal/generator/expression.rs             |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index a74477d..7e038f2 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -240,7 +240,7 @@ pub fn decode_field(
                     requires_cloning = ".clone()".into();
                 }
                 let mut rvalue = format!(
-                    "{}{}",
+                    "({}){}",
                     generate_expression(&type_argument, type_generator, scope),
                     requires_cloning
                 );
@@ -251,7 +251,7 @@ pub fn decode_field(
                     &type_argument,
                 ) {
                     rvalue = format!(
-                        "{} as {}",
+                        "({}) as {}",
                         rvalue,
                         type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                     );
@@ -343,7 +343,7 @@ pub fn decode_field(
                     requires_cloning = ".clone()".into();
                 }
                 let mut rvalue = format!(
-                    "{}{}",
+                    "({}){}",
                     generate_expression(&type_argument, type_generator, scope),
                     requires_cloning
                 );
@@ -353,7 +353,7 @@ pub fn decode_field(
                     &type_argument,
                 ) {
                     rvalue = format!(
-                        "{} as {}",
+                        "({}) as {}",
                         rvalue,
                         type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                     );
@@ -388,7 +388,7 @@ pub fn decode_field(
                         requires_cloning = ".clone()".into();
                     }
                     let mut rvalue = format!(
-                        "{}{}",
+                        "({}){}",
                         generate_expression(&type_argument, type_generator, scope),
                         requires_cloning
                     );
@@ -398,7 +398,7 @@ pub fn decode_field(
                         &type_argument,
                     ) {
                         rvalue = format!(
-                            "{} as {}",
+                            "({}) as {}",
                             rvalue,
                             type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                         );
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 643edd1..d77a8a2 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -248,7 +248,7 @@ pub fn encode_field(
                 &type_argument,
             ) {
                 rvalue = format!(
-                    "{} as {}",
+                    "({}) as {}",
                     rvalue,
                     type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                 );
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 353e2a9..c0a6e05 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -277,7 +277,7 @@ fn generate_valueof_expression(
     };
 
     format!(
-        "{}{} as {}",
+        "({}{} as {})",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         bitmask_suffix,
         type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type),
-- 
2.43.0


From 691b64281f91cacff9f21932e7a253127f3d7962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 26/40] fix: concatenated strings in constants

---
 .../src/internal/ast/expression.rs            |  7 +++++--
 .../src/internal/generator/zconst.rs          | 20 ++++++++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index f95f4b4..305dd41 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -638,7 +638,7 @@ impl Expression {
 
         // The value of an integer constant is known. It is needed for the values of enum items and
         // bitmasks.
-        if let (Symbol::Const(z_const), ExpressionType::Integer(_)) =
+        if let (Symbol::Const(z_const), ExpressionType::Integer(_) | ExpressionType::String(_)) =
             (&symbol_reference.symbol, &self.result_type)
         {
             let value_expression = z_const.as_ref().borrow().value_expression.clone();
@@ -650,7 +650,10 @@ impl Expression {
             });
             value_expression.evaluate(scope);
             scope.scope_stack.pop();
-            if matches!(value_expression.result_type, ExpressionType::Integer(_)) {
+            if matches!(
+                value_expression.result_type,
+                ExpressionType::Integer(_) | ExpressionType::String(_)
+            ) {
                 self.result_type.clone_from(&value_expression.result_type);
                 self.fully_resolved = value_expression.fully_resolved;
             }
diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index ce8eeff..d69067c 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -1,3 +1,4 @@
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zconst::ZConst;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
@@ -5,6 +6,7 @@ use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::file_generator::write_to_file;
 use crate::internal::generator::preamble::add_standard_imports;
 use crate::internal::generator::{types::to_rust_constant_name, types::TypeGenerator};
+use crate::internal::parser::gen::zserioparser::PLUS;
 use std::path::Path;
 
 use codegen::Scope;
@@ -40,15 +42,23 @@ pub fn generate_constant(
         "&str".clone_into(&mut field_type);
     }
 
+    let value_expression = zconst.value_expression.borrow();
+    let value = match &value_expression.result_type {
+        // String concatenation is no constant expression in rust, so that the resulting
+        // string needs to be written into the generated code.
+        ExpressionType::String(value)
+            if value_expression.fully_resolved && value_expression.expression_type == PLUS =>
+        {
+            format!("\"{value}\"")
+        }
+        _ => generate_expression(&value_expression, type_generator, symbol_scope),
+    };
+
     file_content += format!(
         "pub const {}: {} = {};\n",
         to_rust_constant_name(&zconst.name),
         field_type,
-        generate_expression(
-            &zconst.value_expression.borrow(),
-            type_generator,
-            symbol_scope
-        ),
+        value,
     )
     .as_str();
 
-- 
2.43.0


From 952477bcf222028ed9850450a9b707f7c2c8fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 27/40] fix: types of array elements in expressions

---
 crates/zserio-rs-build/src/internal/ast/expression.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 305dd41..ebbfd5b 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -157,11 +157,10 @@ impl Expression {
     fn evaluate_array_element(&mut self, _scope: &mut ModelScope) {
         match &self.operand1 {
             Some(op1) => {
-                match &op1.result_type {
-                    ExpressionType::Compound => {}
-                    ExpressionType::Integer(_) => {} // for @index expressions in offset
-                    _ => panic!("unexpected array expression index type"),
-                }
+                // The type of an array is that of its elements.
+                self.result_type.clone_from(&op1.result_type);
+                self.native_type.clone_from(&op1.native_type);
+                self.symbol.clone_from(&op1.symbol);
             }
             _ => panic!("array element requires an operand to be set"),
         }
-- 
2.43.0


From 902e436ebbc6e5e793a83623d01e07de49360c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 28/40] fix: chained comparisons in expressions

---
 .../zserio-rs-build/src/internal/generator/expression.rs  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index c0a6e05..e43d1e8 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -480,6 +480,14 @@ fn generate_comparison_expression(
         }
     }
 
+    // Rust's comparison operators cannot be chained.
+    if matches!(operand1.expression_type, EQ | GE | GT | LE | LT | NE) {
+        op1 = format!("({op1})");
+    }
+    if matches!(operand2.expression_type, EQ | GE | GT | LE | LT | NE) {
+        op2 = format!("({op2})");
+    }
+
     format!(
         "{} {} {}",
         op1,
-- 
2.43.0


From ce525861a4cd458a29df3c5f00cf55f021dc24a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 29/40] fix: expressions as choice selectors, constants and
 expressions as case labels

---
 .../src/internal/ast/zchoice.rs               | 72 ++++++++++---------
 .../src/internal/generator/zchoice.rs         | 25 ++++---
 2 files changed, 57 insertions(+), 40 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zchoice.rs b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
index d74e0ef..3355ff5 100644
--- a/crates/zserio-rs-build/src/internal/ast/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
@@ -91,13 +91,21 @@ impl ZChoice {
             return;
         }
 
+        // Other selectors, for example integers, may use constants as case labels.
+        if !matches!(
+            self.selector_expression.as_ref().borrow().result_type,
+            ExpressionType::Enum(_) | ExpressionType::BitMask(_)
+        ) {
+            return;
+        }
+
         for case in &mut self.cases {
             for condition in &mut case.conditions.iter_mut() {
                 let mut dot_expression = None;
                 {
                     let condition_expression = condition.as_ref().borrow();
                     if condition_expression.expression_type == ID {
-                        match &self
+                        let selector_type = match &self
                             .selector_expression
                             .as_ref()
                             .borrow()
@@ -106,38 +114,38 @@ impl ZChoice {
                             .unwrap()
                             .symbol
                         {
-                            Symbol::Parameter(p) => {
-                                let mut operand2 = Box::from(condition_expression.clone());
-                                operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
-
-                                dot_expression = Option::from(Expression {
-                                    expression_type: DOT,
-                                    flag: ExpressionFlag::None,
-                                    operand1: Option::from(Box::new(Expression {
-                                        expression_type: ID,
-                                        text: p.as_ref().borrow().zserio_type.name.clone(),
-                                        flag: ExpressionFlag::None,
-                                        operand1: None,
-                                        operand2: None,
-                                        operand3: None,
-                                        result_type: ExpressionType::Other,
-                                        symbol: None,
-                                        fully_resolved: false,
-                                        evaluation_state: EvaluationState::NotEvaluated,
-                                        native_type: None,
-                                    })),
-                                    operand2: Option::from(operand2),
-                                    operand3: None,
-                                    text: "".into(),
-                                    result_type: ExpressionType::Other,
-                                    symbol: None,
-                                    fully_resolved: false,
-                                    evaluation_state: EvaluationState::NotEvaluated,
-                                    native_type: None,
-                                });
-                            }
+                            Symbol::Parameter(p) => p.as_ref().borrow().zserio_type.name.clone(),
+                            Symbol::Field(f) => f.as_ref().borrow().field_type.name.clone(),
                             _ => panic!("selector expression is not a parameter"),
-                        }
+                        };
+                        let mut operand2 = Box::from(condition_expression.clone());
+                        operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
+
+                        dot_expression = Option::from(Expression {
+                            expression_type: DOT,
+                            flag: ExpressionFlag::None,
+                            operand1: Option::from(Box::new(Expression {
+                                expression_type: ID,
+                                text: selector_type,
+                                flag: ExpressionFlag::None,
+                                operand1: None,
+                                operand2: None,
+                                operand3: None,
+                                result_type: ExpressionType::Other,
+                                symbol: None,
+                                fully_resolved: false,
+                                evaluation_state: EvaluationState::NotEvaluated,
+                                native_type: None,
+                            })),
+                            operand2: Option::from(operand2),
+                            operand3: None,
+                            text: "".into(),
+                            result_type: ExpressionType::Other,
+                            symbol: None,
+                            fully_resolved: false,
+                            evaluation_state: EvaluationState::NotEvaluated,
+                            native_type: None,
+                        });
                     }
                 }
                 if let Some(new_dot_expression) = dot_expression {
diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 66f5e1f..0af74c4 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -2,6 +2,7 @@
 
 use codegen::{Function, Scope};
 
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zchoice::ZChoice;
 
 use crate::internal::compiler::symbol_scope::ModelScope;
@@ -139,20 +140,28 @@ pub fn generate_choice_match_construct(
     packed: bool,
     f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
 ) {
-    let selector_name =
-        TypeGenerator::convert_field_name(&zchoice.selector_expression.as_ref().borrow().text);
+    let selector = generate_expression(
+        &zchoice.selector_expression.as_ref().borrow(),
+        type_generator,
+        symbol_scope,
+    );
     let mut context_node_index = 0;
 
-    code_gen_fn.line(format!("match self.{} {{", selector_name));
+    code_gen_fn.line(format!("match {} {{", selector));
 
     for case in &zchoice.cases {
         let mut case_expressions = vec![];
         for case_expr in &case.conditions {
-            case_expressions.push(generate_expression(
-                &case_expr.as_ref().borrow(),
-                type_generator,
-                symbol_scope,
-            ));
+            let case_expr = case_expr.as_ref().borrow();
+            case_expressions.push(match &case_expr.result_type {
+                // Rust does not evaluate operators in match patterns.
+                ExpressionType::Integer(value)
+                    if case_expr.fully_resolved && case_expr.operand1.is_some() =>
+                {
+                    value.to_string()
+                }
+                _ => generate_expression(&case_expr, type_generator, symbol_scope),
+            });
         }
         let selector_expression_evaluation = case_expressions.join(" | ");
 
-- 
2.43.0


From 9b7a7b394d4d568d5eaa199cee63b32a519cc8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 30/40] fix: precedence of arguments compared when encoding

---
 crates/zserio-rs-build/src/internal/generator/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index d77a8a2..3b2053f 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -254,7 +254,7 @@ pub fn encode_field(
                 );
             }
             function.line(format!(
-                "assert!({}.{} == {});",
+                "assert!({}.{} == ({}));",
                 &element_name,
                 TypeGenerator::convert_field_name(&type_parameter.borrow().name),
                 rvalue,
-- 
2.43.0


From 6958f81a85a07dda62639fa63fc2429b4f337484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 31/40] fix: precedence of isset operands

---
 crates/zserio-rs-build/src/internal/generator/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index e43d1e8..17dbf72 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -257,7 +257,7 @@ fn generate_isset_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{} & ({}) != 0",
+        "(({}) & ({}) != 0)",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope)
     )
-- 
2.43.0


From ff3bcb338e1dce4bd65abf6c9cefa6213e3fca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 32/40] fix: functions returning strings and compound values

---
 .../src/internal/generator/function.rs        | 46 +++++++++++--------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/function.rs b/crates/zserio-rs-build/src/internal/generator/function.rs
index 005a28f..377908d 100644
--- a/crates/zserio-rs-build/src/internal/generator/function.rs
+++ b/crates/zserio-rs-build/src/internal/generator/function.rs
@@ -1,5 +1,7 @@
+use crate::internal::ast::type_reference::TypeReference;
 use crate::internal::ast::zfunction::ZFunction;
-use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::compiler::fundamental_type::get_fundamental_type;
+use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
 use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::types::{convert_to_function_name, TypeGenerator};
 use codegen::Impl;
@@ -23,28 +25,34 @@ pub fn generate_function(
     fn_gen_scope.arg_ref_self();
     fn_gen_scope.vis("pub");
 
-    if zserio_function.return_type.is_builtin
-        && zserio_function.return_type.name == "string"
-        && !zserio_function.result.as_ref().borrow().fully_resolved
-    {
-        fn_gen_scope.line(format!(
-            "{}.clone()",
-            generate_expression(
-                &zserio_function.result.as_ref().borrow(),
-                type_generator,
-                scope
-            ),
-        ));
+    let return_value = generate_expression(
+        &zserio_function.result.as_ref().borrow(),
+        type_generator,
+        scope,
+    );
+    let return_type = get_fundamental_type(&zserio_function.return_type, scope).fundamental_type;
+
+    // Generate the function content.
+    if return_type.is_builtin && return_type.name == "string" {
+        fn_gen_scope.line(format!("({return_value}).to_string()"));
+    } else if requires_clone(&return_type, scope) {
+        fn_gen_scope.line(format!("({return_value}).clone()"));
     } else {
-        // Generate the function content.
         fn_gen_scope.line(format!(
             "({}) as {}",
-            generate_expression(
-                &zserio_function.result.as_ref().borrow(),
-                type_generator,
-                scope
-            ),
+            return_value,
             type_generator.ztype_to_rust_type(&zserio_function.return_type),
         ));
     }
 }
+
+/// Values of compound types, for example, cannot be copied out of the object.
+fn requires_clone(return_type: &TypeReference, scope: &ModelScope) -> bool {
+    if return_type.is_builtin {
+        return matches!(return_type.name.as_str(), "extern" | "bytes");
+    }
+    !matches!(
+        scope.get_symbol(return_type).symbol,
+        Symbol::Enum(_) | Symbol::Bitmask(_)
+    )
+}
-- 
2.43.0


From 1d11c9293a22c0b04c859ed0dbe16148a8f96258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 33/40] fix: floats mixed with integers, array indices, strings
 and items in expressions

---
 .../ast/evaluate_mixing_native_types.rs       | 11 +++-
 .../src/internal/ast/expression.rs            | 44 +++++++++----
 .../src/internal/generator/expression.rs      | 65 ++++++++++++++-----
 3 files changed, 88 insertions(+), 32 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index e2b24f3..b019f5a 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -22,8 +22,15 @@ pub fn evaluate_mixing_float_types(
             }
             panic!("unknown float types");
         }
-        (Some(_), None) => type1.clone(),
-        (None, Some(_)) => type2.clone(),
+        // One of the operands is a literal, and a floating-point literal if the other operand is
+        // an integer.
+        (Some(t), None) | (None, Some(t)) => {
+            if ["float64", "float32", "float16"].contains(&t.name.as_str()) {
+                Some(t.clone())
+            } else {
+                Some(TypeReference::new_native_type("float64"))
+            }
+        }
         (None, None) => None,
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index ebbfd5b..27a9ccc 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -301,7 +301,7 @@ impl Expression {
 
     fn evaluate_valueof_operator(&mut self) {
         match &self.operand1 {
-            Some(op1) => match &op1.result_type {
+            Some(op1) => match op1.item_type().unwrap_or(&op1.result_type) {
                 ExpressionType::BitMask(bitmask) => {
                     self.result_type = ExpressionType::Integer(0);
                     self.fully_resolved = false;
@@ -318,6 +318,16 @@ impl Expression {
         }
     }
 
+    /// The enum or bitmask whose item the expression denotes, e.g. `Kind.FIRST`.
+    pub fn item_type(&self) -> Option<&ExpressionType> {
+        let op1 = self.operand1.as_ref()?;
+        match (self.expression_type, &op1.result_type) {
+            (DOT, ExpressionType::Enum(_) | ExpressionType::BitMask(_)) => Some(&op1.result_type),
+            (LPAREN, _) => op1.item_type(),
+            _ => None,
+        }
+    }
+
     fn evaluate_numbits_operator(&mut self) {
         match &self.operand1 {
             Some(op1) => match op1.result_type {
@@ -390,15 +400,13 @@ impl Expression {
                         self.evaluate_integer_comparison_expression(1, *value2);
                     }
                     (ExpressionType::Float(value1), ExpressionType::Float(value2)) => {
-                        self.result_type = ExpressionType::Bool(match self.expression_type {
-                            EQ => value1 == value2,
-                            GE => value1 >= value2,
-                            GT => value1 > value2,
-                            LE => value1 <= value2,
-                            LT => value1 < value2,
-                            NE => value1 != value2,
-                            _ => panic!("unexpected float comparison"),
-                        })
+                        self.evaluate_float_comparison_expression(*value1, *value2);
+                    }
+                    (ExpressionType::Float(value1), ExpressionType::Integer(value2)) => {
+                        self.evaluate_float_comparison_expression(*value1, *value2 as f64);
+                    }
+                    (ExpressionType::Integer(value1), ExpressionType::Float(value2)) => {
+                        self.evaluate_float_comparison_expression(*value1 as f64, *value2);
                     }
                     (ExpressionType::String(value1), ExpressionType::String(value2)) => {
                         self.result_type = ExpressionType::Bool(match self.expression_type {
@@ -425,6 +433,18 @@ impl Expression {
         }
     }
 
+    fn evaluate_float_comparison_expression(&mut self, value1: f64, value2: f64) {
+        self.result_type = ExpressionType::Bool(match self.expression_type {
+            EQ => value1 == value2,
+            GE => value1 >= value2,
+            GT => value1 > value2,
+            LE => value1 <= value2,
+            LT => value1 < value2,
+            NE => value1 != value2,
+            _ => panic!("unexpected float comparison"),
+        });
+    }
+
     fn evaluate_float_arithmetic_expression(&mut self, mut value1: f64, mut value2: f64) {
         if !self.operand1.as_ref().unwrap().fully_resolved {
             value1 = 1.0;
@@ -605,12 +625,12 @@ impl Expression {
                     let op2 = self.operand2.as_ref().unwrap();
                     self.result_type.clone_from(&op2.result_type);
                     self.symbol.clone_from(&op2.symbol);
-                    self.fully_resolved = op2.fully_resolved;
+                    self.fully_resolved &= op2.fully_resolved;
                 } else {
                     let op3 = self.operand3.as_ref().unwrap();
                     self.result_type.clone_from(&op3.result_type);
                     self.symbol.clone_from(&op3.symbol);
-                    self.fully_resolved = op3.fully_resolved;
+                    self.fully_resolved &= op3.fully_resolved;
                 }
             }
             _ => panic!("the first operand in a ternary expression must have a boolean type, but it has {:?}", self.operand1.as_ref().unwrap()),
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 17dbf72..62c2174 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -136,6 +136,21 @@ fn generate_arithmetic_expression(
         _ => (),
     };
 
+    // Rust does not mix floating-point numbers and integer literals.
+    if matches!(expression.result_type, ExpressionType::Float(_)) {
+        let float_type = expression_type.clone().unwrap_or("f64".into());
+        for (operand, code) in [
+            (expression.operand1.as_ref().unwrap(), &mut op1),
+            (expression.operand2.as_ref().unwrap(), &mut op2),
+        ] {
+            if matches!(operand.result_type, ExpressionType::Integer(_))
+                && operand.native_type.is_none()
+            {
+                *code = format!("(({code}) as {float_type})");
+            }
+        }
+    }
+
     // Generate the type casts
     if let Some(result_type) = expression_type {
         if let Some(op1_result_type) = op1_rust_type {
@@ -185,29 +200,23 @@ fn generate_bracketed_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let index = expression.operand2.as_ref().unwrap();
+    let mut index_code = generate_expression(index, type_generator, scope);
+    if index.native_type.is_some() {
+        index_code = format!("({index_code}) as usize");
+    }
     format!(
         "{}[{}]",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        index_code,
     )
 }
 
-fn is_bitmask_expression(expression: &Expression, scope: &ModelScope) -> bool {
-    if let Some(expr_symbol) = &expression.symbol {
-        let fund_type = match &expr_symbol.symbol {
-            Symbol::Field(field) => get_fundamental_type(&field.borrow().field_type, scope),
-            Symbol::Parameter(param) => get_fundamental_type(&param.borrow().zserio_type, scope),
-            _ => return false,
-        };
-        if fund_type.fundamental_type.is_builtin {
-            return false;
-        }
-        return matches!(
-            scope.get_symbol(&fund_type.fundamental_type).symbol,
-            Symbol::Bitmask(_)
-        );
-    }
-    false
+fn is_bitmask_expression(expression: &Expression) -> bool {
+    matches!(
+        expression.item_type().unwrap_or(&expression.result_type),
+        ExpressionType::BitMask(_)
+    )
 }
 
 fn generate_dot_expression(
@@ -270,7 +279,7 @@ fn generate_valueof_expression(
 ) -> String {
     let native_type = expression.native_type.as_ref().unwrap();
     let fundamental_type = get_fundamental_type(native_type, scope);
-    let bitmask_suffix = if is_bitmask_expression(expression.operand1.as_ref().unwrap(), scope) {
+    let bitmask_suffix = if is_bitmask_expression(expression.operand1.as_ref().unwrap()) {
         ".bits()"
     } else {
         ""
@@ -366,6 +375,17 @@ fn generate_ternary_expression(
         op3 = cast_operand(operand3, op3, &rust_type, type_generator);
     }
 
+    // The values of some types cannot be copied out of the object.
+    let conversion = match &expression.result_type {
+        ExpressionType::String(_) => Some(".to_string()"),
+        ExpressionType::Compound => Some(".clone()"),
+        _ => None,
+    };
+    if let Some(conversion) = conversion {
+        op2 = format!("({op2}){conversion}");
+        op3 = format!("({op3}){conversion}");
+    }
+
     format!(
         "
 if {} {{
@@ -480,6 +500,15 @@ fn generate_comparison_expression(
         }
     }
 
+    // Floating-point numbers and integers are compared as floating-point numbers.
+    if let (ExpressionType::Float(_), ExpressionType::Integer(_))
+    | (ExpressionType::Integer(_), ExpressionType::Float(_)) =
+        (&operand1.result_type, &operand2.result_type)
+    {
+        op1 = format!("(({op1}) as f64)");
+        op2 = format!("(({op2}) as f64)");
+    }
+
     // Rust's comparison operators cannot be chained.
     if matches!(operand1.expression_type, EQ | GE | GT | LE | LT | NE) {
         op1 = format!("({op1})");
-- 
2.43.0


From 235a0234216e2fc10e08c4bcce503acf2fe66ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 34/40] fix: constants of enum and bitmask types, casts of
 constants

---
 .../src/internal/generator/zconst.rs          | 39 +++++++++++++++----
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index d69067c..594f766 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -1,12 +1,12 @@
 use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zconst::ZConst;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
-use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
+use crate::internal::generator::casts::expression_requires_cast;
 use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::file_generator::write_to_file;
 use crate::internal::generator::preamble::add_standard_imports;
 use crate::internal::generator::{types::to_rust_constant_name, types::TypeGenerator};
-use crate::internal::parser::gen::zserioparser::PLUS;
 use std::path::Path;
 
 use codegen::Scope;
@@ -26,11 +26,18 @@ pub fn generate_constant(
     // Constants are not yet supported by the code generator - generate them manually.
     let mut file_content = codegen_scope.to_string();
 
-    // Generate the constants using the fundamental type. Consts can only use native types.
+    // Generate the constants using the fundamental type. Consts can use native types,
+    // enumerations and bitmasks.
     let fundamental_type = get_fundamental_type(zconst.zserio_type.as_ref(), symbol_scope);
     assert!(
-        fundamental_type.fundamental_type.is_builtin,
-        "const types need to be fundamental zserio types, but found {:?}",
+        fundamental_type.fundamental_type.is_builtin
+            || matches!(
+                symbol_scope
+                    .get_symbol(&fundamental_type.fundamental_type)
+                    .symbol,
+                Symbol::Enum(_) | Symbol::Bitmask(_)
+            ),
+        "const types need to be fundamental zserio types, enumerations or bitmasks, but found {:?}",
         fundamental_type.fundamental_type
     );
 
@@ -43,17 +50,33 @@ pub fn generate_constant(
     }
 
     let value_expression = zconst.value_expression.borrow();
-    let value = match &value_expression.result_type {
-        // String concatenation is no constant expression in rust, so that the resulting
+    let mut value = match &value_expression.result_type {
+        // Operations on strings are no constant expressions in rust, so that the resulting
         // string needs to be written into the generated code.
         ExpressionType::String(value)
-            if value_expression.fully_resolved && value_expression.expression_type == PLUS =>
+            if value_expression.fully_resolved && value_expression.operand1.is_some() =>
         {
             format!("\"{value}\"")
         }
+        // The type of an operation on integers may be narrower than that of the constant.
+        ExpressionType::Integer(value)
+            if value_expression.fully_resolved && value_expression.operand1.is_some() =>
+        {
+            value.to_string()
+        }
         _ => generate_expression(&value_expression, type_generator, symbol_scope),
     };
 
+    let is_float = matches!(field_type.as_str(), "f32" | "f64");
+    if expression_requires_cast(
+        &fundamental_type.fundamental_type,
+        type_generator,
+        &value_expression,
+    ) || (is_float && matches!(value_expression.result_type, ExpressionType::Integer(_)))
+    {
+        value = format!("({value}) as {field_type}");
+    }
+
     file_content += format!(
         "pub const {}: {} = {};\n",
         to_rust_constant_name(&zconst.name),
-- 
2.43.0


From 4be8c5e0c3fab07b9ca7caa9d60290b8201ebcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 35/40] fix: template instances sharing names or expressions

---
 .../compiler/template_instantiation.rs        | 143 ++++++++++++------
 1 file changed, 99 insertions(+), 44 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index a429423..46053ec 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -74,12 +74,89 @@ pub fn instantiate_type(
 
 fn generate_instantiated_name(type_reference: &TypeReference) -> String {
     let mut new_name = type_reference.name.clone();
+    // The width of bit fields distinguishes types, too.
+    if type_reference.bits != 0 && matches!(type_reference.name.as_str(), "bit" | "int") {
+        new_name += type_reference.bits.to_string().as_str();
+    }
     for template_arg in &type_reference.template_arguments {
-        new_name += template_arg.name.as_str();
+        new_name += generate_instantiated_name(template_arg).as_str();
     }
     new_name
 }
 
+/// Clones an expression. Each instance of a template needs its own expressions, because their
+/// evaluation depends on the types used in the instance.
+fn clone_expression(expression: &Rc<RefCell<Expression>>) -> Rc<RefCell<Expression>> {
+    Rc::new(RefCell::new(expression.borrow().clone()))
+}
+
+fn clone_type_reference(type_reference: &TypeReference) -> TypeReference {
+    let mut new_type = type_reference.clone();
+    for type_argument in &mut new_type.type_arguments {
+        *type_argument = clone_expression(type_argument);
+    }
+    for template_argument in &mut new_type.template_arguments {
+        *template_argument = clone_type_reference(template_argument);
+    }
+    if let Some(length_expression) = &mut new_type.length_expression {
+        *length_expression = clone_expression(length_expression);
+    }
+    new_type
+}
+
+fn clone_field(field: &Field) -> Field {
+    let mut new_field = field.clone();
+    *new_field.field_type = clone_type_reference(&field.field_type);
+    for expression in [
+        &mut new_field.initializer,
+        &mut new_field.offset,
+        &mut new_field.constraint,
+        &mut new_field.optional_clause,
+    ]
+    .into_iter()
+    .flatten()
+    {
+        *expression = clone_expression(expression);
+    }
+    if let Some(array) = &mut new_field.array {
+        if let Some(length_expression) = &mut array.array_length_expression {
+            *length_expression = clone_expression(length_expression);
+        }
+    }
+    new_field
+}
+
+fn clone_function(function: &ZFunction) -> ZFunction {
+    ZFunction {
+        name: function.name.clone(),
+        result: clone_expression(&function.result),
+        return_type: Box::new(clone_type_reference(&function.return_type)),
+    }
+}
+
+/// Replaces the template parameters within a type, also if they are used as template arguments of
+/// another template.
+fn substitute_type(
+    type_reference: &TypeReference,
+    instantiated_types: &HashMap<String, TypeReference>,
+) -> TypeReference {
+    let mut new_type = match instantiated_types.get(&type_reference.name) {
+        Some(instantiated_type) => {
+            let mut new_type = instantiated_type.clone();
+            // copy the parameters, if set
+            new_type
+                .type_arguments
+                .clone_from(&type_reference.type_arguments);
+            new_type
+        }
+        None => type_reference.clone(),
+    };
+    for template_argument in &mut new_type.template_arguments {
+        *template_argument = substitute_type(template_argument, instantiated_types);
+    }
+    new_type
+}
+
 fn instantiate_struct(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
@@ -171,13 +248,13 @@ fn instantiate_struct(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: clone_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_struct
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(clone_function(&function))));
         }
     }
 
@@ -237,7 +314,7 @@ fn instantiate_choice(
         name: instantiated_name.clone(),
         template_parameters: vec![],
         type_parameters: vec![],
-        selector_expression: z_choice.selector_expression.clone(),
+        selector_expression: clone_expression(&z_choice.selector_expression),
         cases: vec![],
         default_case: None,
         functions: vec![],
@@ -246,7 +323,7 @@ fn instantiate_choice(
     // Instantiate the choice fields
     for case in &z_choice.cases {
         instantiated_choice.cases.push(ZChoiceCase {
-            conditions: case.conditions.clone(),
+            conditions: case.conditions.iter().map(clone_expression).collect(),
             field: {
                 if let Some(field) = &case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
@@ -264,7 +341,11 @@ fn instantiate_choice(
     // Instantiate the default field, if present
     if let Some(default_case) = &z_choice.default_case {
         instantiated_choice.default_case = Option::from(ZChoiceCase {
-            conditions: default_case.conditions.clone(),
+            conditions: default_case
+                .conditions
+                .iter()
+                .map(clone_expression)
+                .collect(),
             field: {
                 if let Some(field) = &default_case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
@@ -284,14 +365,14 @@ fn instantiate_choice(
     for rc_param in &z_choice.type_parameters {
         // Check if the parameter is a templated type
         let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.name) {
+        if instantiated_types.contains_key(&param.zserio_type.name) {
             // The parameter is a templated type, so replace the parameter
             // type by a reference to the newly instantiated type.
             instantiated_choice
                 .type_parameters
                 .push(Rc::new(RefCell::new(Parameter {
                     name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.name].clone()),
+                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
                 })));
         } else {
             // The parameter is not templated, and is not affected by template instantiation.
@@ -310,13 +391,13 @@ fn instantiate_choice(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: clone_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_choice
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(clone_function(&function))));
         }
     }
     // Add the newly added choice to the package.
@@ -421,13 +502,13 @@ fn instantiate_union(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: clone_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_union
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(clone_function(&function))));
         }
     }
 
@@ -446,39 +527,13 @@ pub fn instantiate_field(
     field: &Field,
     instantiated_types: &HashMap<String, TypeReference>,
 ) -> Field {
-    let mut new_field = field.clone();
-    if !new_field.field_type.template_arguments.is_empty() {
-        // The field type is not a template type itself, but by itself is a template,
-        // which is using the template type in its template parameters.
-        // For example:
-        // SomeOtherTemplate<TEMPLATE_TYPE> field;
-
-        // Iterate over the template parameters and instantiate them.
-        let mut new_template_arguments = vec![];
-
-        for template_parameter in new_field.field_type.template_arguments.iter() {
-            if instantiated_types.contains_key(&template_parameter.name) {
-                new_template_arguments.push(instantiated_types[&template_parameter.name].clone());
-            } else {
-                new_template_arguments.push(template_parameter.clone());
-            }
-        }
-        new_field.field_type.template_arguments = new_template_arguments;
-
-        new_field.field_type = Box::from(instantiate_type(pkg, scope, &new_field.field_type, ""));
-        return new_field;
-    }
-
-    // Check if the field type is directly a templated type. For example:
+    let mut new_field = clone_field(field);
+    // The field type may be a template parameter, for example:
     // TEMPLATE_TYPE field;
-    if instantiated_types.contains_key(&field.field_type.name) {
-        new_field.field_type = Box::from(instantiated_types[&field.field_type.name].clone());
-        // copy the parameters, if set
-        new_field
-            .field_type
-            .type_arguments
-            .clone_from(&field.field_type.type_arguments);
-    }
+    // or a template, which is using the template parameter in its template arguments:
+    // SomeOtherTemplate<TEMPLATE_TYPE> field;
+    let new_type = substitute_type(&new_field.field_type, instantiated_types);
+    new_field.field_type = Box::from(instantiate_type(pkg, scope, &new_type, ""));
     new_field
 }
 
-- 
2.43.0


From 3c51a5e1f078f45628e0b9d42e74ec58dc3d8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 36/40] fix: members of unions in expressions

---
 crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 0bbb258..0026f64 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -245,6 +245,7 @@ fn get_symbol_name(symbol: &Symbol) -> String {
     match symbol {
         Symbol::Struct(s) => s.as_ref().borrow().name.clone(),
         Symbol::Choice(c) => c.as_ref().borrow().name.clone(),
+        Symbol::Union(u) => u.as_ref().borrow().name.clone(),
         Symbol::Subtype(s) => s.as_ref().borrow().name.clone(),
         Symbol::Enum(e) => e.as_ref().borrow().name.clone(),
         Symbol::Bitmask(bitmask) => bitmask.as_ref().borrow().name.clone(),
-- 
2.43.0


From ca13e802a33d262ba9dcdc8c61ad5509b40df9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 37/40] fix: choices only plan the packing of their selected
 member

---
 .../src/internal/generator/zchoice.rs          | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 0af74c4..7b164f0 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -102,14 +102,16 @@ pub fn generate_choice(
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
-    for field in &field_details {
-        generate_init_packed_context_for_field(
-            symbol_scope,
-            type_generator,
-            init_packing_context_fn,
-            field,
-        );
-    }
+    generate_choice_match_construct(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zchoice,
+        true,
+        &|scope, type_generator, function, field_details, _| {
+            generate_init_packed_context_for_field(scope, type_generator, function, field_details)
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
-- 
2.43.0


From d1f281f59edc86e8d08c9d0614c322333d917753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 38/40] fix: reading clears optional members that are absent

---
 crates/zserio-rs-build/src/internal/generator/decode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index 7e038f2..fbfd08d 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -438,6 +438,12 @@ pub fn decode_field(
             "self.{} = Option::from(optional_value);",
             TypeGenerator::convert_field_name(&field.name)
         ));
+        function.line("} else {");
+        // The object may have been used before.
+        function.line(format!(
+            "self.{} = None;",
+            TypeGenerator::convert_field_name(&field.name)
+        ));
         function.line("}"); // close the "if present {"
     }
 
-- 
2.43.0


From ea7c11a1e1a632b9c433dbc7888677fcc268d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 39/40] fix: the index operator is a number of type uint32 in
 expressions

---
 crates/zserio-rs-build/src/internal/ast/expression.rs       | 1 +
 crates/zserio-rs-build/src/internal/generator/expression.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 27a9ccc..daeb176 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -639,6 +639,7 @@ impl Expression {
 
     fn evaluate_index_expression(&mut self) {
         self.result_type = ExpressionType::Integer(0);
+        self.native_type = Some(TypeReference::new_native_type("uint32"));
         self.fully_resolved = false;
     }
 
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 62c2174..18b43e9 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -574,5 +574,5 @@ fn generate_literal_expression(expression: &Expression) -> String {
 fn generate_index_operator() -> String {
     // Make sure this variable name matches the one used in encode/decode code generators
     // where the parameters are passed.
-    "param_index".into()
+    "(param_index as u32)".into()
 }
-- 
2.43.0


From 2dcda4096fe1d902cd0a8305e8a13e0d68a98018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:34 +0000
Subject: [PATCH 40/40] fix: generate the types of packages that contain other
 packages

---
 .../src/internal/generator/mod_file.rs         | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/mod_file.rs b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
index 230bf37..3b88363 100644
--- a/crates/zserio-rs-build/src/internal/generator/mod_file.rs
+++ b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
@@ -7,7 +7,10 @@ use std::collections::HashMap;
 use std::path::Path;
 use std::rc::Rc;
 
+#[derive(Default)]
 struct ZserioModuleTreeNode {
+    /// Set if there is a package for this node (and not only for its children).
+    is_package: bool,
     children: HashMap<String, Rc<RefCell<ZserioModuleTreeNode>>>,
 }
 
@@ -30,9 +33,7 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
         // The module is not known yet. Need to create it.
         current_node.borrow_mut().children.insert(
             rust_module_name.clone(),
-            Rc::from(RefCell::from(ZserioModuleTreeNode {
-                children: HashMap::new(),
-            })),
+            Rc::from(RefCell::from(ZserioModuleTreeNode::default())),
         );
         let new_node = current_node
             .borrow()
@@ -42,6 +43,7 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
             .clone();
         current_node = new_node;
     }
+    current_node.borrow_mut().is_package = true;
 }
 
 fn generate_mod_section(
@@ -63,6 +65,12 @@ fn generate_mod_section(
         }
 
         *file_content += format!("pub mod {} {{\n", mod_name).as_str();
+
+        // A package can have types of its own, besides the packages within it.
+        if module_tree_node.borrow().is_package {
+            *file_content += "#[path = \"mod.rs\"]\nmod package_types;\n";
+            *file_content += "pub use package_types::*;\n";
+        }
     }
     // Generate the "pub mod X;" for all children.
     for (child_name, child_node) in module_tree_node
@@ -83,9 +91,7 @@ fn generate_mod_section(
 /// to the known packages.
 pub fn generate_top_level_mod_file(model: &Model, package_directory: &Path, root_package: &str) {
     // Reorganize the packages into a tree structure, categorized by module.
-    let module_tree_root = Rc::from(RefCell::from(ZserioModuleTreeNode {
-        children: HashMap::new(),
-    }));
+    let module_tree_root = Rc::from(RefCell::from(ZserioModuleTreeNode::default()));
 
     for package in model.packages.values() {
         add_package_to_tree(&module_tree_root, &package.name);
-- 
2.43.0

