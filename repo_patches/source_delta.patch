From 186b58c4bf27cffde4f79726c37487b90c545e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:23 +0000
Subject: [PATCH 01/10] fix: DynamicStorage2D::zeroed allocated one byte too
 many for depths divisible by 4

---
 src/indices/morton_index_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 41f1c20..3fb0108 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -623,7 +623,7 @@ pub struct DynamicStorage2D {
 impl DynamicStorage2D {
     pub fn zeroed(depth: usize) -> Self {
         Self {
-            bits: (0..=(depth / 4)).map(|_| 0_u8).collect(),
+            bits: vec![0; (depth + 3) / 4],
             depth,
         }
     }
-- 
2.43.0


From 57089540b6036ee0ca29e3318149a79ce67bb1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:09 +0000
Subject: [PATCH 02/10] fix: converting a shorter dynamic index to fixed depth
 put its cells at the wrong levels

---
 src/indices/morton_index_2d.rs | 26 +++++++++++++-------------
 src/indices/morton_index_3d.rs | 26 +++++++++++++-------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 3fb0108..8abb133 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -5,7 +5,7 @@ use std::hash::Hash;
 use nalgebra::Vector2;
 
 use crate::dimensions::{Dim2D, Dimension, Quadrant, QuadrantOrdering};
-use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits, Endianness};
+use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits};
 use crate::{
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -869,18 +869,18 @@ impl<B: FixedStorageType> TryFrom<MortonIndex2D<DynamicStorage2D>>
                 max_depth: FixedDepthStorage::<Dim2D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage2D stores its cells as BigEndian, FixedDepthStorage2D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage2D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // Missing levels stay zeroed
+            let mut ret: MortonIndex2D<FixedDepthStorage2D<B>> = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 2646c84..269ec25 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -9,7 +9,7 @@ use nalgebra::Vector3;
 use crate::{
     dimensions::{Dim3D, Dimension, Octant, OctantOrdering},
     number::{
-        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits, Endianness,
+        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits,
     },
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -934,18 +934,18 @@ impl<B: FixedStorageType> TryFrom<MortonIndex3D<DynamicStorage3D>>
                 max_depth: FixedDepthStorage::<Dim3D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage3D stores its cells as BigEndian, FixedDepthStorage3D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage3D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // Missing levels stay zeroed
+            let mut ret: MortonIndex3D<FixedDepthStorage3D<B>> = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
-- 
2.43.0


From 9993bf5d94f8ffc2e7ab3ca0df4d615cc505e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:09 +0000
Subject: [PATCH 03/10] fix: static 3D from_grid_index dropped the lowest
 levels for some depths

---
 src/indices/morton_index_3d.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 269ec25..ff0963d 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -353,9 +353,8 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
         // We also start setting the bits from the most significant chunk towards the least significant chunk!
         // This way, we make sure that we set the high bits first in cases where the grid_depth is smaller than
         // the MAX_LEVELS
-        let num_chunks = (grid_depth + 7) / 8;
         let max_chunks = (<FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS + 7) / 8;
-        let chunk_start = max_chunks - num_chunks;
+        let chunk_start = shift_to_max_bits / 8;
         for chunk_index in (chunk_start..max_chunks).rev() {
             let start_bit = chunk_index * 8;
             let end_bit = start_bit + 8;
-- 
2.43.0


From 8e72b9b5980293afd6c71e570520c51425e218a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:09 +0000
Subject: [PATCH 04/10] fix: static 2D from_grid_index overflowed a shift for
 128-bit storage and depth 0

---
 src/indices/morton_index_2d.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 8abb133..8705ff4 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -165,8 +165,12 @@ impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
         // in `morton_index_3d.rs`
         let shift_to_max_bits =
             <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
+        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) }
+            .checked_shl(shift_to_max_bits as u32)
+            .unwrap_or(0);
+        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) }
+            .checked_shl(shift_to_max_bits as u32)
+            .unwrap_or(0);
 
         let (lower_bits, higher_bits) = match ordering {
             QuadrantOrdering::XY => (x_bits, y_bits),
-- 
2.43.0


From b42cc0cdb44f2a51fe26da1806e3a8dfae3dc1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:09 +0000
Subject: [PATCH 05/10] fix: Vec<u8>::get_bits returned bits from above the
 requested range

---
 src/number.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 265fe5c..5c46730 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -320,12 +320,6 @@ impl Bits for Vec<u8> {
 
         let mut bytes = self[start_byte..end_byte].to_owned();
         for idx in 0..bytes.len() {
-            if idx > 0 && shift_within_byte > 0 {
-                // Take the part of the byte that gets shifted 'out' of the current byte, and move it over to the
-                // previous byte
-                let carry = bytes[idx].get_bits(0..shift_within_byte);
-                bytes[idx - 1].set_bits((8 - shift_within_byte)..8, carry);
-            }
             if idx == bytes.len() - 1 {
                 // Mask away the upper bits outside of the requested range on the last byte
                 let excess_bits = (end_byte * 8) - bit_range.end;
@@ -333,6 +327,12 @@ impl Bits for Vec<u8> {
                 let mask = 0xFF_u8 >> excess_bits;
                 bytes[idx] &= mask;
             }
+            if idx > 0 && shift_within_byte > 0 {
+                // Take the part of the byte that gets shifted 'out' of the current byte, and move it over to the
+                // previous byte
+                let carry = bytes[idx].get_bits(0..shift_within_byte);
+                bytes[idx - 1].set_bits((8 - shift_within_byte)..8, carry);
+            }
             bytes[idx] >>= shift_within_byte;
         }
 
-- 
2.43.0


From 2df1f81a00ad6f9334abad144f1bde425a624b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:09 +0000
Subject: [PATCH 06/10] fix: align_to overflowed although the aligned value is
 representable

---
 src/align.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/align.rs b/src/align.rs
index 003a358..6cf838d 100644
--- a/src/align.rs
+++ b/src/align.rs
@@ -9,7 +9,10 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self - remainder + alignment,
+            }
         }
     }
 }
@@ -19,7 +22,10 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self - remainder + alignment,
+            }
         }
     }
 }
@@ -29,7 +35,10 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self - remainder + alignment,
+            }
         }
     }
 }
@@ -39,7 +48,10 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self - remainder + alignment,
+            }
         }
     }
 }
@@ -49,7 +61,10 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self - remainder + alignment,
+            }
         }
     }
 }
@@ -59,7 +74,10 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self - remainder + alignment,
+            }
         }
     }
 }
-- 
2.43.0


From 308b60d3b9a4f100b20f210c69c40e63683b0d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:09 +0000
Subject: [PATCH 07/10] fix: integer set_bits wrote outside the range for
 oversized values and overflowed a shift for empty ranges at the end

---
 src/number.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 5c46730..77f3ec0 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -18,8 +18,9 @@ macro_rules! impl_bits {
             let shift = bit_range.start as Self;
             let shift_right = std::mem::size_of::<Self>() * 8 - bit_range.len() as usize;
             let mask = (!(0 as Self)).checked_shr(shift_right as u32).unwrap_or(0);
-            let clear_mask = !(mask << shift);
-            *self = (*self & clear_mask) | (new_value << shift)
+            let clear_mask = !mask.checked_shl(shift as u32).unwrap_or(0);
+            *self = (*self & clear_mask)
+                | (new_value & mask).checked_shl(shift as u32).unwrap_or(0)
         }
         unsafe fn set_bits_from_usize(&mut self, bit_range: Range<usize>, new_value: usize) {
             self.set_bits(bit_range, new_value as Self)
-- 
2.43.0


From 4864dd6328c58766fdb129b4627025f1a4745e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:09 +0000
Subject: [PATCH 08/10] fix: from_raw_index kept bits that hold no cell,
 breaking equality and hashing

---
 src/indices/morton_index_3d.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index ff0963d..913a7d4 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -233,7 +233,9 @@ impl<B: FixedStorageType> MortonIndex3D<FixedDepthStorage3D<B>> {
     }
 
     /// Creates a new MortonIndex3D from the raw bits of an index
-    pub fn from_raw_index(index: B) -> Self {
+    pub fn from_raw_index(mut index: B) -> Self {
+        // The unused bits at the end are always zero, otherwise equality and hashing would depend on them
+        unsafe { index.set_bits(0..(B::BITS % Dim3D::DIMENSIONALITY), B::default()) };
         Self {
             storage: FixedDepthStorage3D { bits: index },
         }
@@ -382,7 +384,10 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
     }
 
     /// Creates a new MortonIndex3D from the raw bits of an index with `depth`
-    pub fn from_raw_index(index: B, depth: u8) -> Self {
+    pub fn from_raw_index(mut index: B, depth: u8) -> Self {
+        // The bits below the lowest level are always zero, otherwise equality and hashing would depend on them
+        let unused_bits = B::BITS.saturating_sub(depth as usize * Dim3D::DIMENSIONALITY);
+        unsafe { index.set_bits(0..unused_bits, B::default()) };
         Self {
             storage: StaticStorage3D { bits: index, depth },
         }
-- 
2.43.0


From 2a75e2d00ff996f09c35325a5b1b39fef7c1b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:38 +0000
Subject: [PATCH 09/10] fix: one-zero bit-spreading helpers let bits above
 their documented input window through

---
 src/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 77f3ec0..525d0ce 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -477,7 +477,7 @@ pub fn add_zero_behind_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 4 bits of `val` and adds a zero before every bit.
 /// For example `0b1101` becomes `0b01_01_00_01`
 pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
-    let mut ret = val;
+    let mut ret = val & 0b1111;
     ret = (ret | (ret << 2)) & 0b00110011;
     ret = (ret | (ret << 1)) & 0b01010101;
     ret
@@ -486,7 +486,7 @@ pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 8 bits of `val` and adds a zero before every bit. This is the `u16` version of
 /// `add_zero_before_every_bit_u8`
 pub fn add_zero_before_every_bit_u16(val: u16) -> u16 {
-    let mut ret = val;
+    let mut ret = val & 0b11111111;
     ret = (ret | (ret << 4)) & 0b00001111_00001111;
     ret = (ret | (ret << 2)) & 0b00110011_00110011;
     ret = (ret | (ret << 1)) & 0b01010101_01010101;
-- 
2.43.0


From 2764749e72285dc20091d50ba79920c6effdc32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:29 +0000
Subject: [PATCH 10/10] fix: writing an empty bit range of a byte vector no
 longer touches the new value

set_bits on a Vec<u8> with an empty range that does not start on a byte
boundary underflowed (or read through a dangling pointer in release
builds) when the new value was empty, as the result of get_bits on the
same range is.
---
 src/number.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/number.rs b/src/number.rs
index 525d0ce..c4deefd 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -268,6 +268,10 @@ unsafe fn set_vec_u8_bits(vec: &mut Vec<u8>, bit_range: Range<usize>, new_value:
     // Iterate over self in 8-bit chunks and set the appropriate stuff from new_value
     // This might require that we combine two u8 values into one
 
+    if bit_range.is_empty() {
+        return;
+    }
+
     let self_start_byte = bit_range.start / 8;
     let self_end_byte = (bit_range.end + 7) / 8;
 
-- 
2.43.0

