From d69e9f3f71e1705dc797bf235b3844f1141b9ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:59 +0000
Subject: [PATCH 01/53] fix: encode the lower bound of a large constrained
 range in one octet

A value equal to the lower bound of a range above 64K produced a zero length, which is outside 1..n, so a valid value could not be encoded.
---
 codecs/src/aper/encode/encode_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index c944c7d..41f9ed4 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -93,7 +93,7 @@ pub(super) fn encode_constrained_whole_number(
     } else {
         let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range) as i128;
         let bytes = value.to_be_bytes();
-        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(16);
+        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
         encode_constrained_whole_number(
             data,
             1,
-- 
2.43.0


From bb8f35b126c9af8b0c1776d0f9d2274a3302b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:59 +0000
Subject: [PATCH 02/53] fix: size the length field of a large constrained range
 from its largest offset

For a range of exactly 256^n the length field was computed for n + 1 octets (X.691 11.5.7.4).
---
 codecs/src/aper/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 2b0cdcd..2694909 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -372,7 +372,8 @@ impl AperCodecData {
 }
 
 fn bytes_needed_for_range(range: i128) -> u8 {
-    let bits_needed: u8 = 128 - range.leading_zeros() as u8;
+    // The largest value to be held is `range - 1`.
+    let bits_needed: u8 = 128 - (range - 1).leading_zeros() as u8;
     let mut bytes_needed = bits_needed / 8;
     if bits_needed % 8 != 0 {
         bytes_needed += 1
-- 
2.43.0


From c77e29426a2c81b72e29f50f220c08f794707ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:59 +0000
Subject: [PATCH 03/53] fix: refuse to decode a constrained whole number above
 its upper bound

---
 codecs/src/aper/decode/decode_internal.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 3632214..9da3804 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -198,6 +198,14 @@ pub(super) fn decode_constrained_whole_number(
             data.decode_bits_as_integer(length * 8, false)?
         };
 
+        // `value` is the offset from `lb`.
+        if value > ub - lb {
+            return Err(AperCodecError::new(format!(
+                "Decoded value at offset {} is greater than the upper bound {}",
+                value, ub
+            )));
+        }
+
         Ok(value + lb)
     }
 }
-- 
2.43.0


From 4d4d815c625a41f9891202dad1118dfcf4e57c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:00 +0000
Subject: [PATCH 04/53] fix: decode integers of any width up to 128 bits, and
 refuse wider ones

Signed values of 9 to 15 octets were refused, values of more than 128 bits
panicked and unsigned values above i128::MAX wrapped to negative numbers.
---
 codecs/src/aper/decode/decode_internal.rs |  7 ++++++-
 codecs/src/aper/mod.rs                    | 24 ++++++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 9da3804..f99f773 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -152,7 +152,12 @@ pub(super) fn decode_semi_constrained_whole_number(
     let bits = length * 8;
     let val = data.decode_bits_as_integer(bits, false)?;
 
-    Ok(val + lb)
+    val.checked_add(lb).ok_or_else(|| {
+        AperCodecError::new(format!(
+            "Decoded value at offset {} from the lower bound {} is too large",
+            val, lb
+        ))
+    })
 }
 
 // Decode a 'constrained' whole number where both `lb` and `ub` are available.
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 2694909..9abc0a0 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -99,7 +99,12 @@ impl AperCodecData {
         signed: bool,
     ) -> Result<i128, AperCodecError> {
         let remaining = self.bits.len() - self.decode_offset;
-        if remaining < bits {
+        if bits > 128 {
+            Err(AperCodecError::new(format!(
+                "AperCodec:DecodeError:Integers of {} bits are not supported",
+                bits
+            )))
+        } else if remaining < bits {
             Err(AperCodecError::new(
                 format!(
                     "AperCodec:DecodeError:Requested Bits to decode {}, Remaining bits {}",
@@ -117,8 +122,15 @@ impl AperCodecData {
                 if bits == 0 {
                     0_i128
                 } else {
-                    self.bits[self.decode_offset..self.decode_offset + bits].load_be::<u128>()
-                        as i128
+                    let inner = self.bits[self.decode_offset..self.decode_offset + bits]
+                        .load_be::<u128>();
+                    if inner > i128::MAX as u128 {
+                        return Err(AperCodecError::new(format!(
+                            "AperCodec:DecodeError:Integer {} is too large",
+                            inner
+                        )));
+                    }
+                    inner as i128
                 }
             } else {
                 match bits {
@@ -196,6 +208,12 @@ impl AperCodecData {
                             .load_be::<u128>() as i128;
                         inner as i128
                     }
+                    1..=127 => {
+                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
+                            .load_be::<u128>();
+                        // Sign extend from the most significant of the decoded bits.
+                        ((inner << (128 - bits)) as i128) >> (128 - bits)
+                    }
                     _ => {
                         return Err(
                             AperCodecError::new(
-- 
2.43.0


From 8f7fe827556833938901301f4fb926506458012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:00 +0000
Subject: [PATCH 05/53] fix: encode semi-constrained whole numbers in the
 minimum number of octets

X.691 11.7: the offset from the lower bound is an unsigned number, so no
leading zero octet is needed for its sign.
---
 codecs/src/aper/encode/encode_internal.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 41f9ed4..e7b6d24 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -41,7 +41,18 @@ pub(super) fn encode_semi_constrained_whole_number(
         )));
     }
 
-    encode_unconstrained_whole_number(data, value - lb)
+    let value = value.checked_sub(lb).ok_or_else(|| {
+        AperCodecError::new(format!(
+            "Cannot encode integer {} - too far from lower bound {}",
+            value, lb,
+        ))
+    })?;
+    // A non-negative-binary-integer: no sign bit, in the minimum number of octets (at least one).
+    let bytes = value.to_be_bytes();
+    let first = (value.leading_zeros() as usize / 8).min(15);
+    encode_length_determinent(data, None, None, false, 16 - first)?;
+    data.append_bits(bytes[first..16].view_bits());
+    Ok(())
 }
 
 pub(super) fn encode_constrained_whole_number(
-- 
2.43.0


From 276a77648d1734b214b518a66572e2f3feefefab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:00 +0000
Subject: [PATCH 06/53] fix: encode normally small lengths up to 64 in the
 short form, refuse zero

X.691 11.9.3.4: lengths 33..64 were written in the long form and a length of
zero underflowed.
---
 codecs/src/aper/encode/encode_internal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index e7b6d24..949f7fd 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -140,7 +140,12 @@ pub(super) fn encode_normally_small_length_determinent(
     data: &mut AperCodecData,
     value: usize,
 ) -> Result<(), AperCodecError> {
-    if value <= 32 {
+    if value == 0 {
+        return Err(AperCodecError::new(
+            "A normally small length determinent cannot be zero",
+        ));
+    }
+    if value <= 64 {
         let byte = (value - 1) as u8;
         data.encode_bool(false);
         data.append_bits(&byte.view_bits::<Msb0>()[2..8]);
-- 
2.43.0


From aacc10dd61c37740da41e68c8cd09328aba0a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:00 +0000
Subject: [PATCH 07/53] fix: report the end of the buffer when aligning instead
 of panicking

---
 codecs/src/aper/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 9abc0a0..91472f3 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -64,6 +64,12 @@ impl AperCodecData {
         let remaining = 8 - (self.decode_offset & 0x7_usize);
         log::debug!("Aligning Codec Buffer with {} bits", remaining);
 
+        if self.decode_offset + remaining > self.bits.len() {
+            return Err(AperCodecError::new(
+                "AperCodec:DecodeError:End of Bitstream reached while aligning.",
+            ));
+        }
+
         if !self.bits[self.decode_offset..self.decode_offset + remaining]
             .iter()
             .all(|b| b == false)
-- 
2.43.0


From d2b699c4b3e4a14474e237a68a3ec53386685215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 08/53] fix: decode characters that are not octet aligned in
 bit order

`load` is little endian on most hosts, which reorders the bits of a
character that crosses an octet boundary.
---
 codecs/src/aper/decode/decode_charstrings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 96fbcc6..f00cdc2 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -84,7 +84,7 @@ fn decode_string(
     let bits = data.get_bitvec(length)?;
     let bytes = bits
         .chunks_exact(num_bits)
-        .map(|c| c.load::<u8>())
+        .map(|c| c.load_be::<u8>())
         .collect::<Vec<u8>>();
 
     data.dump();
-- 
2.43.0


From fce9cc18f883017c0910a975fa3f7e0aca094f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 09/53] fix: do not expect a further fragment after a
 constrained length

A bit or octet string whose length is constrained below 64K is never
fragmented, but one of 16384 or more was decoded as if it were.
---
 codecs/src/aper/decode/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 3b2d7b8..18546cb 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -225,8 +225,9 @@ pub fn decode_bitstring(
             bv.extend(data.get_bitvec(length)?);
         }
 
-        // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        // Fragmented So get the chunks in multiples of 16384, (constrained lengths are never
+        // fragmented)
+        if length >= 16384 && (is_extended || ub.map_or(true, |ub| ub >= 65_536)) {
             continue;
         } else {
             break;
@@ -275,8 +276,9 @@ pub fn decode_octetstring(
             octets.extend(data.get_bytes(length)?);
         }
 
-        // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        // Fragmented So get the chunks in multiples of 16384, (constrained lengths are never
+        // fragmented)
+        if length >= 16384 && (is_extended || ub.map_or(true, |ub| ub >= 65_536)) {
             continue;
         } else {
             break;
-- 
2.43.0


From ec0b92c7ee5d0356e4c5d0473dc23ba441c16a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 10/53] fix: align short strings of variable size (X.691 16.11,
 17.8, 30.5.6, 30.5.7)

Only strings of a small fixed size are not octet aligned. Short strings of
variable size were neither encoded nor decoded with their padding.
---
 codecs/src/aper/decode/decode_charstrings.rs |  6 +++++-
 codecs/src/aper/decode/mod.rs                |  6 ++++--
 codecs/src/aper/encode/mod.rs                | 11 ++++++++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index f00cdc2..3395ee2 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -78,7 +78,11 @@ fn decode_string(
 
     let num_bits = 8;
     let length = length * num_bits;
-    if length > 16 {
+    // Not aligned when the size is fixed at up to 16 bits or is less than 16 bits at most.
+    if length > 16
+        || (length > 0
+            && (is_extended || ((lb.is_none() || lb != ub) && ub.map_or(true, |ub| ub >= 2))))
+    {
         data.decode_align()?;
     }
     let bits = data.get_bitvec(length)?;
diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 18546cb..c45c2b2 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -219,7 +219,8 @@ pub fn decode_bitstring(
         };
 
         if length > 0 {
-            if length > 16 {
+            // Only a fixed size of up to 16 bits is not aligned.
+            if length > 16 || is_extended || lb.is_none() || lb != ub {
                 let _ = data.decode_align()?;
             }
             bv.extend(data.get_bitvec(length)?);
@@ -270,7 +271,8 @@ pub fn decode_octetstring(
         };
 
         if length > 0 {
-            if length > 2 {
+            // Only a fixed size of up to two octets is not aligned.
+            if length > 2 || is_extended || lb.is_none() || lb != ub {
                 let _ = data.decode_align()?;
             }
             octets.extend(data.get_bytes(length)?);
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 736338f..733f826 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -199,7 +199,8 @@ pub fn encode_bitstring(
 
     encode_length_determinent(data, lb, ub, false, length)?;
     if length > 0 {
-        if length > 16 {
+        // Only a fixed size of up to 16 bits is not aligned.
+        if length > 16 || lb.is_none() || lb != ub {
             data.align();
         }
         data.append_bits(bit_string);
@@ -248,7 +249,8 @@ pub fn encode_octetstring(
     encode_length_determinent(data, lb, ub, false, length)?;
 
     if length > 0 {
-        if length > 2 {
+        // Only a fixed size of up to two octets is not aligned.
+        if length > 2 || lb.is_none() || lb != ub {
             data.align();
         }
         data.append_bits(octet_string.view_bits());
@@ -331,7 +333,10 @@ fn encode_string(
         data.encode_bool(extended);
     }
     encode_length_determinent(data, lb, ub, false, value.len())?;
-    if value.len() > 2 {
+    // Not aligned when the size is fixed at up to 16 bits or is less than 16 bits at most.
+    if value.len() > 2
+        || (value.len() > 0 && (lb.is_none() || lb != ub) && ub.map_or(true, |ub| ub >= 2))
+    {
         data.align();
     }
     data.append_bits(value.as_bits());
-- 
2.43.0


From 597fabf36b598efa308aa9cc7e4bdc0f6cc83a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 11/53] fix: decode all the fragments of a character string

---
 codecs/src/aper/decode/decode_charstrings.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 3395ee2..6efb10c 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -70,18 +70,20 @@ fn decode_string(
         false
     };
 
-    let length = if is_extended {
-        decode_length_determinent(data, None, None, false)?
-    } else {
-        decode_length_determinent(data, lb, ub, false)?
-    };
+    if is_extended || ub.map_or(true, |ub| ub >= 65_536) {
+        // The length may be fragmented.
+        let bytes = super::decode_octetstring(data, None, None, false)?;
+        return std::str::from_utf8(&bytes)
+            .map(|s| s.to_string())
+            .map_err(|_| AperCodecError::new("UTF decode failed"));
+    }
+
+    let length = decode_length_determinent(data, lb, ub, false)?;
 
     let num_bits = 8;
     let length = length * num_bits;
     // Not aligned when the size is fixed at up to 16 bits or is less than 16 bits at most.
-    if length > 16
-        || (length > 0
-            && (is_extended || ((lb.is_none() || lb != ub) && ub.map_or(true, |ub| ub >= 2))))
+    if length > 16 || (length > 0 && ((lb.is_none() || lb != ub) && ub.map_or(true, |ub| ub >= 2)))
     {
         data.decode_align()?;
     }
-- 
2.43.0


From 6573e3d1b45a4d4a7de947b433ae7ea24373709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 12/53] fix: do not encode the size constraints of a UTF8String

X.691 30.6: they are not PER visible, the length is always an unconstrained
number of octets.
---
 codecs/src/aper/decode/decode_charstrings.rs |  3 ++-
 codecs/src/aper/encode/mod.rs                | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 6efb10c..29d03ce 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -55,7 +55,8 @@ pub fn decode_utf8_string(
         ub,
         is_extensible
     );
-    decode_string(data, lb, ub, is_extensible)
+    // Constraints on the size of a UTF8String are not PER visible.
+    decode_string(data, None, None, false)
 }
 
 fn decode_string(
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 733f826..1050f7d 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -405,7 +405,16 @@ pub fn encode_utf8_string(
         extended
     );
 
-    encode_string(data, lb, ub, is_extensible, value, extended)
+    // Constraints on the size of a UTF8String count characters and are not PER visible.
+    let size = value.chars().count() as i128;
+    if size < lb.unwrap_or(0) || size > ub.unwrap_or(size) {
+        return Err(AperCodecError::new(format!(
+            "Cannot encode a UTF8String of {} characters",
+            size
+        )));
+    }
+
+    encode_string(data, None, None, false, value, extended)
 }
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 19ae7bb81b8355227dbe8b5d0660e843bc92cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 13/53] fix: decode an empty SEQUENCE OF

With a count of zero the loop decoded items until it failed.
---
 codecs_derive/src/aper/seqof.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 8d5049c..a47560f 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -46,13 +46,8 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
                 let length = asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext)?;
 
                 let mut items = vec![];
-                let mut count = 0;
-                loop {
+                for _ in 0..length {
                     items.push(#ty::decode(data)?);
-                    count += 1;
-                    if count == length {
-                        break;
-                    }
                 }
 
                 Ok(Self(items))
-- 
2.43.0


From d7b0519f642a1f55ee23facc713ba5c276f6e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 14/53] fix: report a SEQUENCE OF whose number of items cannot
 be encoded

The error was ignored and the items were written without their count.
---
 codecs_derive/src/aper/seqof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index a47560f..172f33e 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -56,7 +56,7 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len());
+                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len())?;
 
                 for elem in &self.0 {
                     let _ = elem.encode(data)?;
-- 
2.43.0


From d989f6cf1bee87f8685dff956f528a444466ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 15/53] fix: code the extension bit of a SEQUENCE OF with an
 extensible size

X.691 20.4: the size is preceded by one bit telling whether it is in the
extension root. It was coded as a normally small length instead.
---
 codecs_derive/src/aper/seqof.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 172f33e..f7f1cfe 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -43,7 +43,12 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext)?;
+                let extended = #sz_ext && asn1_codecs::aper::decode::decode_bool(data)?;
+                let length = if extended {
+                    asn1_codecs::aper::decode::decode_length_determinent(data, None, None, false)?
+                } else {
+                    asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, false)?
+                };
 
                 let mut items = vec![];
                 for _ in 0..length {
@@ -56,7 +61,10 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len())?;
+                if #sz_ext {
+                    asn1_codecs::aper::encode::encode_bool(data, false)?;
+                }
+                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, false, self.0.len())?;
 
                 for elem in &self.0 {
                     let _ = elem.encode(data)?;
-- 
2.43.0


From 8aefc2081a00da9e0c656266de31c8b7f8eaf17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 16/53] fix: decode all the fragments of a SEQUENCE OF

---
 codecs_derive/src/aper/seqof.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index f7f1cfe..05c94f0 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -44,15 +44,18 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let extended = #sz_ext && asn1_codecs::aper::decode::decode_bool(data)?;
-                let length = if extended {
-                    asn1_codecs::aper::decode::decode_length_determinent(data, None, None, false)?
-                } else {
-                    asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, false)?
-                };
+                let (lb, ub): (Option<i128>, Option<i128>) = if extended { (None, None) } else { (#sz_lb, #sz_ub) };
 
                 let mut items = vec![];
-                for _ in 0..length {
-                    items.push(#ty::decode(data)?);
+                loop {
+                    let length = asn1_codecs::aper::decode::decode_length_determinent(data, lb, ub, false)?;
+                    for _ in 0..length {
+                        items.push(#ty::decode(data)?);
+                    }
+                    // Only a length that is not constrained below 64K can be fragmented.
+                    if length < 16384 || ub.map_or(false, |ub| ub < 65_536) {
+                        break;
+                    }
                 }
 
                 Ok(Self(items))
-- 
2.43.0


From 55706d9f26e831acd6f73cb79b684b12a592767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 17/53] fix: encode an open type with an empty value as one
 zero octet

It panicked on the length of an empty buffer.
---
 codecs_derive/src/aper/open.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 8205f6a..7185911 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -22,6 +22,10 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
                 let _ = match self {
                     #(#variant_encode_tokens)*
                 };
+                if inner.get_inner()?.is_empty() {
+                    // X.691 11.1.3: an empty encoding becomes a single zero octet.
+                    asn1_codecs::aper::encode::encode_bool(&mut inner, false)?;
+                }
                 let length = inner.length_in_bytes();
                 let _ = asn1_codecs::aper::encode::encode_length_determinent(data, None, None, false, length)?;
                 data.append_aligned(&mut inner);
-- 
2.43.0


From e00e21fb466cf3f9bf2f65f4dfe5d9b566179f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 18/53] fix: confine the value of an open type to its octets

The decoded length was ignored: a value shorter or longer than it left the
decoder out of step with the rest of the message, and a key read inside the
value replaced the key of the enclosing type.
---
 codecs_derive/src/aper/open.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 7185911..3d1d0a8 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -44,15 +44,19 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, None, None, false)?;
+                let octets = asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
 
-                log::trace!("open type: decoded length: {}", length);
+                log::trace!("open type: decoded length: {}", octets.len());
 
                 if data.get_key().is_none() {
                     return Err(asn1_codecs::aper::AperCodecError::new("Decoding OPEN Type, but `key` is not determined!"));
                 }
 
                 let key = data.get_key().unwrap();
+                // The value is confined to its octets, whatever follows starts right after them.
+                let mut inner = asn1_codecs::aper::AperCodecData::from_slice(&octets);
+                inner.set_key(key);
+                let data = &mut inner;
 
                 match key {
                     #(#variant_decode_tokens)*
-- 
2.43.0


From 0349f9169e7e62ce597055a52d1ad9597b15ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 19/53] fix: skip the extension additions of a SEQUENCE

They were left in the buffer and decoded as whatever followed the SEQUENCE.
---
 codecs_derive/src/aper/seq.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 896c83e..a34e352 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -30,8 +30,19 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let (bitmap, _extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
-                Ok(Self{#(#fld_decode_tokens)*})
+                let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                let value = Self{#(#fld_decode_tokens)*};
+
+                if extensions_present {
+                    // Extension additions are open types, skip all that are there.
+                    let count = asn1_codecs::aper::decode::decode_length_determinent(data, None, None, true)?;
+                    let (additions, _) = asn1_codecs::aper::decode::decode_sequence_header(data, false, count)?;
+                    for _ in 0..additions.count_ones() {
+                        asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
+                    }
+                }
+
+                Ok(value)
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
-- 
2.43.0


From a2fde5ab02063b29bd1c6a2c4a50279d5d2eb04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 20/53] fix: refuse a decoded INTEGER or ENUMERATED that does
 not fit its type

The value was truncated silently.
---
 codecs_derive/src/aper/enumerated.rs | 5 ++++-
 codecs_derive/src/aper/integer.rs    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index 80b26d9..33334ba 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -44,7 +44,10 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
 
                 let decoded = asn1_codecs::aper::decode::decode_enumerated(data, #lb, #ub, #ext)?;
 
-                Ok(Self(decoded.0 as #ty))
+                let value = <#ty as std::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new(format!(concat!("Value {} does not fit in ", stringify!(#name)), decoded.0))
+                })?;
+                Ok(Self(value))
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
diff --git a/codecs_derive/src/aper/integer.rs b/codecs_derive/src/aper/integer.rs
index 8dc44d9..40ad191 100644
--- a/codecs_derive/src/aper/integer.rs
+++ b/codecs_derive/src/aper/integer.rs
@@ -43,7 +43,10 @@ pub(super) fn generate_aper_codec_for_asn_integer(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_integer(data, #lb, #ub, #ext)?;
-                Ok(Self(decoded.0 as #ty))
+                let value = <#ty as std::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new(format!(concat!("Value {} does not fit in ", stringify!(#name)), decoded.0))
+                })?;
+                Ok(Self(value))
             }
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
-- 
2.43.0


From 8b580d3982b435db9a5cee6e62c4c2721a7a29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:11 +0000
Subject: [PATCH 21/53] fix: refuse an ENUMERATED addition instead of taking it
 for a root value

---
 codecs_derive/src/aper/enumerated.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index 33334ba..1caea6e 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -43,6 +43,10 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_enumerated(data, #lb, #ub, #ext)?;
+                if decoded.1 {
+                    // The index counts the additions, it is not one of the root.
+                    return Err(asn1_codecs::aper::AperCodecError::new("ENUMERATED Additions not supported yet."));
+                }
 
                 let value = <#ty as std::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
                     asn1_codecs::aper::AperCodecError::new(format!(concat!("Value {} does not fit in ", stringify!(#name)), decoded.0))
-- 
2.43.0


From 6c63bb1fbb56fe47221d2fd79f852b93d27a3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:12 +0000
Subject: [PATCH 22/53] fix: refuse to encode a number beyond 128 bits signed

---
 codecs_derive/src/aper/enumerated.rs | 5 ++++-
 codecs_derive/src/aper/integer.rs    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index 1caea6e..29cad58 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -57,7 +57,10 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                asn1_codecs::aper::encode::encode_enumerated(data, #lb, #ub, #ext, self.0 as i128, false)
+                let value = <i128 as std::convert::TryFrom<#ty>>::try_from(self.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new(format!(concat!("Value {} of ", stringify!(#name), " is not supported"), self.0))
+                })?;
+                asn1_codecs::aper::encode::encode_enumerated(data, #lb, #ub, #ext, value, false)
             }
         }
     };
diff --git a/codecs_derive/src/aper/integer.rs b/codecs_derive/src/aper/integer.rs
index 40ad191..d1e1488 100644
--- a/codecs_derive/src/aper/integer.rs
+++ b/codecs_derive/src/aper/integer.rs
@@ -51,7 +51,10 @@ pub(super) fn generate_aper_codec_for_asn_integer(
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                asn1_codecs::aper::encode::encode_integer(data, #lb, #ub, #ext, self.0 as i128, false)
+                let value = <i128 as std::convert::TryFrom<#ty>>::try_from(self.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new(format!(concat!("Value {} of ", stringify!(#name), " is not supported"), self.0))
+                })?;
+                asn1_codecs::aper::encode::encode_integer(data, #lb, #ub, #ext, value, false)
             }
         }
     };
-- 
2.43.0


From 77034648281f84a98e5fe569453fe7050936a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 23/53] fix: take the key from an optional key component that
 is present

---
 codecs_derive/src/aper/seq.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index a34e352..857a0dd 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -96,6 +96,8 @@ fn generate_seq_field_codec_tokens_using_attrs(
                         } else {
                             let ty_ident = field_type.ty.unwrap();
                             let optional = field_type.is_optional;
+                            let is_key_field =
+                                cp.key_field.as_ref().map_or(false, |kf| kf.value());
                             let fld_decode_tokens = if optional {
                                 let optional_idx = cp.optional_idx.as_ref();
 
@@ -109,11 +111,18 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                         quote! {}
                                     }
                                     Some(optidx) => {
+                                        let set_key = if is_key_field {
+                                            quote! { let _ = data.set_key(value.0 as i128); }
+                                        } else {
+                                            quote! {}
+                                        };
                                         quote! {
                                             {
                                             let present = bitmap[#optidx];
                                             if present {
-                                                Some(#ty_ident::decode(data)?)
+                                                let value = #ty_ident::decode(data)?;
+                                                #set_key
+                                                Some(value)
                                             } else {
                                                 None
                                             }
@@ -122,13 +131,6 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                     }
                                 }
                             } else {
-                                let key_field = cp.key_field.as_ref();
-                                let is_key_field = if let Some(kf) = key_field {
-                                    kf.value()
-                                } else {
-                                    false
-                                };
-
                                 if !is_key_field {
                                     quote! {
                                         {
-- 
2.43.0


From 0c5b2ac28cdd407ceb1d6a5cc4425013188b94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:19 +0000
Subject: [PATCH 24/53] fix: never decode a root index of a CHOICE as one of
 its additions

---
 codecs_derive/src/aper/choice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/choice.rs b/codecs_derive/src/aper/choice.rs
index 4706881..f4c8d98 100644
--- a/codecs_derive/src/aper/choice.rs
+++ b/codecs_derive/src/aper/choice.rs
@@ -91,7 +91,10 @@ fn generate_choice_variant_decode_tokens_using_attrs(
                                     v.encode(data)
                                 }
                             };
-                            decode_tokens.push(variant_decode_token);
+                            // The index of an addition is not an index of the root.
+                            if !extended.map_or(false, |e| e.value()) {
+                                decode_tokens.push(variant_decode_token);
+                            }
                             encode_tokens.push(variant_encode_token);
                         } else {
                             errors.push(syn::Error::new_spanned(
-- 
2.43.0


From 72a4cfb988029fb0865b7e70362f32ef6d80aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:42 +0000
Subject: [PATCH 25/53] fix: refuse a constraint with more values than can be
 counted instead of panicking

---
 codecs/src/aper/decode/decode_internal.rs |  2 +-
 codecs/src/aper/encode/encode_internal.rs |  2 +-
 codecs/src/aper/mod.rs                    | 12 ++++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index f99f773..605c3b5 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -170,7 +170,7 @@ pub(super) fn decode_constrained_whole_number(
 ) -> Result<i128, AperCodecError> {
     log::trace!("decode_constrained_whole_number: lb: {}, ub: {}", lb, ub,);
 
-    let range = ub - lb + 1;
+    let range = crate::aper::constraint_range(lb, ub)?;
     if range <= 0 {
         Err(AperCodecError::new(
             "Range for the Integer Constraint is negative.",
diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 949f7fd..6e5535c 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -75,7 +75,7 @@ pub(super) fn encode_constrained_whole_number(
         )));
     }
 
-    let range = ub - lb + 1;
+    let range = crate::aper::constraint_range(lb, ub)?;
     let value = value - lb;
 
     if range <= 256 {
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 91472f3..177ac8c 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -395,6 +395,18 @@ impl AperCodecData {
     }
 }
 
+// The number of values from `lb` to `ub`.
+fn constraint_range(lb: i128, ub: i128) -> Result<i128, AperCodecError> {
+    ub.checked_sub(lb)
+        .and_then(|offset| offset.checked_add(1))
+        .ok_or_else(|| {
+            AperCodecError::new(format!(
+                "The range of the constraint {}..{} is not supported.",
+                lb, ub
+            ))
+        })
+}
+
 fn bytes_needed_for_range(range: i128) -> u8 {
     // The largest value to be held is `range - 1`.
     let bits_needed: u8 = 128 - (range - 1).leading_zeros() as u8;
-- 
2.43.0


From 66b23e71bac3b99cd86cf1e21f8c4c1ab1508e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 26/53] fix: upper bound of a constraint mixing ranges and
 single values

---
 asn-compiler/src/resolver/asn/structs/types/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 78ddae2..9f50ffd 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -44,7 +44,7 @@ impl ConstraintValues {
             None => ranges_max,
             Some(vals_max) => match ranges_max {
                 None => Some(*vals_max),
-                Some(rnges_max) => Some(std::cmp::min(rnges_max, *vals_max)), // FIXME: This should be std::cmp::max?
+                Some(rnges_max) => Some(std::cmp::max(rnges_max, *vals_max)),
             },
         }
     }
-- 
2.43.0


From 9630aa5b1402a3f747bf703fa2d80818859c971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 27/53] fix: intersect the values of constraints and refuse
 those without values

---
 .../resolver/asn/structs/types/constraints.rs | 24 ++++++++
 .../src/resolver/asn/types/constraints.rs     | 59 ++++++++++---------
 2 files changed, 55 insertions(+), 28 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 9f50ffd..b0a12aa 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -25,6 +25,30 @@ impl ConstraintValues {
         self.values.is_empty() && self.ranges.is_empty()
     }
 
+    fn contains(&self, value: i128) -> bool {
+        self.values.contains(&value) || self.ranges.iter().any(|r| r.contains(&value))
+    }
+
+    /// The values that are in both the sets.
+    pub(crate) fn intersection(&self, other: &Self) -> Self {
+        let mut result = Self::new();
+        for value in self.values.iter().chain(other.values.iter()) {
+            if self.contains(*value) && other.contains(*value) && !result.contains(*value) {
+                result.values.push(*value);
+            }
+        }
+        for ours in &self.ranges {
+            for theirs in &other.ranges {
+                let start = std::cmp::max(ours.start, theirs.start);
+                let end = std::cmp::min(ours.end, theirs.end);
+                if start < end {
+                    result.ranges.push(Range { start, end });
+                }
+            }
+        }
+        result
+    }
+
     pub(crate) fn min(&self) -> Option<i128> {
         let values_min = self.values.iter().min();
         let ranges_min = self.ranges.iter().map(|r| r.start).min();
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 732986a..c16d3fe 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -182,6 +182,9 @@ impl ElementSet {
             let element_values = element.get_integer_valueset(resolver)?;
             root_values.append(&element_values);
         }
+        if root_values.is_empty() {
+            return Err(constraint_error!("No value satisfies the constraint '{:#?}'", self));
+        }
 
         let additional_values = if self.additional_elements.is_some() {
             let additional_elements = self.additional_elements.as_ref().unwrap();
@@ -237,26 +240,15 @@ impl IntersectionSet {
     }
 
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
-        let mut value_set = ConstraintValues::new();
+        let mut value_set: Option<ConstraintValues> = None;
         for element in &self.elements {
             let element_set = element.get_integer_valueset(resolver)?;
-            if value_set.is_empty() {
-                // If Empty Set, it's okay to union, but not otherwise
-                value_set.append(&element_set);
-            } else {
-                value_set.values = value_set
-                    .values
-                    .into_iter()
-                    .filter(|e| element_set.values.contains(e))
-                    .collect::<Vec<i128>>();
-                value_set.ranges = value_set
-                    .ranges
-                    .into_iter()
-                    .filter(|e| element_set.ranges.contains(e))
-                    .collect::<Vec<Range<i128>>>();
-            }
+            value_set = Some(match value_set {
+                None => element_set,
+                Some(set) => set.intersection(&element_set),
+            });
         }
-        Ok(value_set)
+        Ok(value_set.unwrap_or_else(ConstraintValues::new))
     }
 
     fn dependent_references(&self) -> Vec<String> {
@@ -315,18 +307,29 @@ impl SubtypeElements {
                 upper,
                 upper_inclusive,
             } => {
-                let mut lower_value = Self::parse_or_resolve_value(lower, resolver)?;
-                if !lower_inclusive {
-                    lower_value += 1;
-                }
-                let mut upper_value = Self::parse_or_resolve_value(upper, resolver)?;
-                if !upper_inclusive {
-                    upper_value -= 1;
+                let lower_value = Self::parse_or_resolve_value(lower, resolver)?;
+                let start = if *lower_inclusive {
+                    Some(lower_value)
+                } else {
+                    lower_value.checked_add(1)
+                };
+                let upper_value = Self::parse_or_resolve_value(upper, resolver)?;
+                let end = if *upper_inclusive {
+                    upper_value.checked_add(1)
+                } else {
+                    Some(upper_value)
+                };
+                match (start, end) {
+                    (Some(start), Some(end)) if start < end => {
+                        value_set.ranges.push(Range { start, end })
+                    }
+                    _ => {
+                        return Err(constraint_error!(
+                            "The Range '{:#?}' has no values or is not supported.",
+                            self
+                        ))
+                    }
                 }
-                value_set.ranges.push(Range {
-                    start: lower_value,
-                    end: upper_value + 1,
-                });
             }
             Self::SizeConstraint(ref elems) => {
                 let size_elements = elems.get_integer_valueset(resolver)?;
-- 
2.43.0


From 0a6504cc96136182a89e3a63e5a33d90764ba2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 28/53] fix: resolve combinations of SIZE constraints and their
 extension markers

---
 .../src/resolver/asn/types/constraints.rs     | 123 +++++++++++++-----
 1 file changed, 88 insertions(+), 35 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index c16d3fe..62db537 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -108,17 +108,12 @@ impl Asn1Constraint {
     }
 
     // Returns whether the constraint is a 'size' constraint.
+    //
+    // It is one as soon as there is a 'SIZE' in it. Combinations that we don't support are
+    // reported when we get the value set.
     pub(crate) fn is_size_constraint(&self) -> bool {
         if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() != 1 {
-                false
-            } else {
-                matches!(
-                    iset[0].elements[0],
-                    Elements::Subtype(SubtypeElements::SizeConstraint(..))
-                )
-            }
+            e.has_size_constraint()
         } else {
             false
         }
@@ -129,25 +124,13 @@ impl Asn1Constraint {
         resolver: &Resolver,
     ) -> Result<Asn1ConstraintValueSet, Error> {
         if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() == 1 {
-                match iset[0].elements[0] {
-                    Elements::Subtype(ref s) => match s {
-                        SubtypeElements::SizeConstraint(ref elems) => {
-                            elems.get_integer_valueset(resolver)
-                        }
-                        _ => Err(constraint_error!(
-                            "The Constraint for the Type is not a Size Constraint."
-                        )),
-                    },
-                    _ => Err(constraint_error!(
-                        "The Constraint for the type is not a size Constraint."
-                    )),
-                }
-            } else {
-                Err(constraint_error!(
-                    "The Constraint for the type is not a size Constraint."
-                ))
+            let value_set = e.get_size_valueset(resolver)?;
+            match value_set.root_values.min() {
+                Some(lb) if lb >= 0 => Ok(value_set),
+                _ => Err(constraint_error!(
+                    "The Size Constraint '{:#?}' has no sizes or negative sizes.",
+                    self
+                )),
             }
         } else {
             Err(constraint_error!(
@@ -162,6 +145,46 @@ impl ElementSet {
         &self.root_elements.elements
     }
 
+    fn has_size_constraint(&self) -> bool {
+        let additional = self.additional_elements.iter();
+        additional
+            .chain(std::iter::once(&self.root_elements))
+            .flat_map(|u| u.elements.iter())
+            .flat_map(|i| i.elements.iter())
+            .any(|element| match element {
+                Elements::Subtype(SubtypeElements::SizeConstraint(..)) => true,
+                Elements::Subtype(_) => false,
+                Elements::Set(ref e) => e.has_size_constraint(),
+            })
+    }
+
+    // Sizes of a set having only 'SIZE' elements.
+    fn get_size_valueset(&self, resolver: &Resolver) -> Result<Asn1ConstraintValueSet, Error> {
+        let inner_elements = self.get_inner_elements();
+        if inner_elements.len() == 1 && inner_elements[0].elements.len() == 1 {
+            // Only one 'SIZE' that may be having it's own extension marker.
+            let mut value_set = inner_elements[0].elements[0].get_size_valueset(resolver)?;
+            if let Some(ref additional) = self.additional_elements {
+                let outer = additional.get_sizes(resolver)?;
+                value_set
+                    .additional_values
+                    .get_or_insert_with(ConstraintValues::new)
+                    .append(&outer);
+            }
+            Ok(value_set)
+        } else {
+            let root_values = self.root_elements.get_sizes(resolver)?;
+            let additional_values = match self.additional_elements {
+                Some(ref additional) => Some(additional.get_sizes(resolver)?),
+                None => None,
+            };
+            Ok(Asn1ConstraintValueSet {
+                root_values,
+                additional_values,
+            })
+        }
+    }
+
     fn get_single_string_value(&self) -> Result<String, Error> {
         let inner_elements = self.get_inner_elements();
         if inner_elements.len() == 1 {
@@ -271,6 +294,18 @@ impl TableConstraint {
 }
 
 impl Elements {
+    fn get_size_valueset(&self, resolver: &Resolver) -> Result<Asn1ConstraintValueSet, Error> {
+        match self {
+            Self::Subtype(SubtypeElements::SizeConstraint(ref e)) => {
+                e.get_integer_valueset(resolver)
+            }
+            _ => Err(constraint_error!(
+                "The Constraint for the type is not a size Constraint '{:#?}'.",
+                self
+            )),
+        }
+    }
+
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
         match self {
             Self::Subtype(ref s) => s.get_integer_valueset(resolver),
@@ -331,13 +366,6 @@ impl SubtypeElements {
                     }
                 }
             }
-            Self::SizeConstraint(ref elems) => {
-                let size_elements = elems.get_integer_valueset(resolver)?;
-                value_set.append(&size_elements.root_values);
-                if size_elements.additional_values.is_some() {
-                    value_set.append(&size_elements.additional_values.unwrap());
-                }
-            }
             _ => {
                 return Err(constraint_error!(
                     "Unexpected Constraint Type '{:#?}'",
@@ -407,6 +435,31 @@ impl SubtypeElements {
 }
 
 impl UnionSet {
+    // Sizes in a combination of 'SIZE' elements, none of which is extensible.
+    fn get_sizes(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
+        let mut sizes = ConstraintValues::new();
+        for iset in &self.elements {
+            let mut iset_sizes: Option<ConstraintValues> = None;
+            for element in &iset.elements {
+                let value_set = element.get_size_valueset(resolver)?;
+                if value_set.has_extension() {
+                    return Err(constraint_error!(
+                        "Extensible Size Constraint in a combination not supported '{:#?}'.",
+                        self
+                    ));
+                }
+                iset_sizes = Some(match iset_sizes {
+                    None => value_set.root_values,
+                    Some(set) => set.intersection(&value_set.root_values),
+                });
+            }
+            if let Some(ref set) = iset_sizes {
+                sizes.append(set);
+            }
+        }
+        Ok(sizes)
+    }
+
     fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         for element in &self.elements {
-- 
2.43.0


From 028a19e0c684155ed2e8976b9274372c30658473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 29/53] fix: report texts that cannot be tokenized instead of
 panicking

---
 asn-compiler/src/tokenizer/mod.rs | 40 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 2164273..947ec83 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -519,18 +519,19 @@ fn get_at_component_id_list(
 fn get_number_token(chars: &[char], line: usize, begin: usize) -> Result<(Token, usize), Error> {
     let neg = (chars[0] == '-') as usize;
 
-    if neg > 0 && chars.len() == 1 {
-        return Err(Error::TokenizeError(14, line, begin));
-    }
-
     let mut consumed = neg;
-    let last = chars[neg..].iter().position(|&x| !x.is_numeric());
+    let last = chars[neg..].iter().position(|&x| !x.is_ascii_digit());
     if let Some(lst) = last {
         consumed += lst;
     } else {
         consumed += chars[neg..].len();
     }
 
+    // A '-' without any digits is not a number.
+    if consumed == neg {
+        return Err(Error::TokenizeError(14, line, begin));
+    }
+
     Ok((
         Token {
             r#type: TokenType::NumberInt,
@@ -689,13 +690,14 @@ fn get_seq_extension_or_square_brackets_token(
     line: usize,
     begin: usize,
 ) -> Result<(Token, usize), Error> {
+    let next = chars.get(1).copied();
     let (token_type, consumed) = if chars[0] == '[' {
-        if chars[1] == '[' {
+        if next == Some('[') {
             (TokenType::AdditionGroupsBegin, 2)
         } else {
             (TokenType::SquareBegin, 1)
         }
-    } else if chars[1] == ']' {
+    } else if next == Some(']') {
         (TokenType::AdditionGroupsEnd, 2)
     } else {
         (TokenType::SquareEnd, 1)
@@ -753,7 +755,7 @@ fn get_maybe_comment_token(
     line: usize,
     begin: usize,
 ) -> Result<(Option<Token>, usize), Error> {
-    if chars[1] != '-' {
+    if chars.get(1) != Some(&'-') {
         return Ok((None, 0));
     }
     let mut consumed = 2; // initial "--"
@@ -808,16 +810,19 @@ where
     let mut line = 1;
     let mut tokens: Vec<Token> = Vec::new();
     let mut buffer = Vec::new();
-    let _ = input.read_to_end(&mut buffer).unwrap();
-    let buffer = String::from_utf8(buffer).unwrap();
+    let _ = input
+        .read_to_end(&mut buffer)
+        .map_err(|e| parse_error!("Unable to read the input: {}", e))?;
+    let buffer = String::from_utf8(buffer)
+        .map_err(|e| parse_error!("The input is not valid UTF-8: {}", e))?;
     let chars: Vec<char> = buffer.chars().collect();
     let mut column = 0_usize;
     let mut processed = 0;
     let total_read = chars.len();
-    loop {
+    while processed < total_read {
         let c = chars[processed];
         match c {
-            ' ' | '\t' => {
+            ' ' | '\t' | '\r' | '\u{b}' | '\u{c}' => {
                 processed += 1;
                 column += 1;
             }
@@ -919,15 +924,14 @@ where
                 processed += 1;
             }
             _ => {
-                panic!(
+                return Err(parse_error!(
                     "Unsupported First character for a token: '{:?}'. Line: {}, Column: {}",
-                    chars[processed], line, column
-                );
+                    chars[processed],
+                    line,
+                    column
+                ));
             }
         }
-        if processed == total_read {
-            break;
-        }
     }
     Ok(tokens)
 }
-- 
2.43.0


From 4462b36d1a1ea363fde5810e9e93c1294ad55377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 30/53] fix: end an identifier where a comment begins

---
 asn-compiler/src/tokenizer/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 947ec83..f82ec90 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -65,7 +65,7 @@ const KEYWORDS: &[&str] = &[
     "OPTIONAL",
     "PATTERN",
     "PDV",
-    "Plus-Infinity",
+    "PLUS-INFINITY",
     "PRESENT",
     "PrintableString",
     "PRIVATE",
@@ -499,6 +499,11 @@ fn get_at_component_id_list(
         consumed += chars[1..].len();
     }
 
+    // There is no "--" in an identifier, it's where a comment begins.
+    if let Some(dashes) = chars[..consumed].windows(2).position(|w| w == ['-', '-']) {
+        consumed = dashes;
+    }
+
     // Identifier should not end with a '-'
     if ['.', '-'].iter().any(|&c| c == chars[consumed - 1]) {
         return Err(Error::TokenizeError(13, line, begin));
@@ -572,6 +577,11 @@ fn get_identifier_or_keyword_token(
         consumed += chars[and..].len();
     }
 
+    // There is no "--" in an identifier, it's where a comment begins.
+    if let Some(dashes) = chars[..consumed].windows(2).position(|w| w == ['-', '-']) {
+        consumed = dashes;
+    }
+
     // Identifier should not end with a '-'
     if chars[consumed - 1] == '-' {
         return Err(Error::TokenizeError(16, line, begin));
@@ -583,9 +593,6 @@ fn get_identifier_or_keyword_token(
     }
 
     let text = chars[..consumed].iter().collect::<String>();
-    if text.contains("--") {
-        return Err(Error::TokenizeError(18, line, begin));
-    }
 
     let token_type = if and > 0 {
         TokenType::AndIdentifier
-- 
2.43.0


From 3393dd49ff9d6e0f159a3e264ef1907e43a236ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:12 +0000
Subject: [PATCH 31/53] fix: columns after a string that spans lines

---
 asn-compiler/src/tokenizer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index f82ec90..12cb951 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -388,7 +388,7 @@ fn get_string_token(
     let lines = text.lines().count() - 1;
     let last_line = text.lines().last().unwrap();
     let end_column = if lines > 0 {
-        last_line.len()
+        last_line.chars().count()
     } else {
         begin + consumed
     };
@@ -446,7 +446,7 @@ fn get_bit_or_hex_string_token(
     let lines = text.lines().count() - 1;
     let last_line = text.lines().last().unwrap();
     let end_column = if lines > 0 {
-        last_line.len()
+        last_line.chars().count() + 1 // last 'h' or 'b'
     } else {
         begin + consumed
     };
-- 
2.43.0


From eee70c1a6b6da2b0dbdb1a19e65750b2c7995c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 32/53] fix: report what cannot be parsed in a list instead of
 looping forever

---
 .../parser/asn/types/constructed/choice.rs    |  8 +++++
 .../src/parser/asn/types/constructed/seq.rs   |  4 +++
 asn-compiler/src/parser/asn/types/int.rs      | 30 ++++++++++++++-----
 asn-compiler/src/parser/asn/types/ioc.rs      |  4 +++
 4 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 83ca10f..12a5166 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -32,6 +32,7 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
     let mut no_ver_additions_components = vec![];
     let mut extension_markers = 0;
     loop {
+        let start = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -84,6 +85,9 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
             consumed += 1;
             break;
         }
+        if consumed == start {
+            return Err(unexpected_token!("Component or '}'", tokens[consumed]));
+        }
     }
 
     let additions = if extension_markers > 0 {
@@ -130,6 +134,7 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
 
     let mut components = vec![];
     loop {
+        let start = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -148,6 +153,9 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
             consumed += 1;
             break;
         }
+        if consumed == start {
+            return Err(unexpected_token!("Component or ']]'", tokens[consumed]));
+        }
     }
     if components.is_empty() {
         Err(parse_error!("Additional Components cannot be empty!"))
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 6b2b6ec..d797324 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -43,6 +43,7 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
     let mut additions = vec![];
     let mut ext_marker_found = 0;
     loop {
+        let start = consumed;
         let (component, component_consumed) = match parse_seq_component(&tokens[consumed..]) {
             Ok(result) => result,
             Err(_) => (None, 0),
@@ -83,6 +84,9 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
             consumed += 1;
             break;
         }
+        if consumed == start {
+            return Err(unexpected_token!("Component or '}'", tokens[consumed]));
+        }
     }
 
     let extensible = ext_marker_found > 0;
diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 470acae..0dc94e4 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -43,14 +43,26 @@ pub(crate) fn parse_type(tokens: &[Token]) -> Result<(Asn1Type, usize), Error> {
             )
         }
 
-        "OCTET" => (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2),
+        "OCTET" => {
+            if !expect_keywords(&tokens[consumed..], &["OCTET", "STRING"])? {
+                return Err(unexpected_token!("'STRING'", tokens[consumed + 1]));
+            }
 
-        "CHARACTER" => (
-            Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
-                str_type: "CHARACTER-STRING".to_string(),
-            }),
-            2,
-        ),
+            (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2)
+        }
+
+        "CHARACTER" => {
+            if !expect_keywords(&tokens[consumed..], &["CHARACTER", "STRING"])? {
+                return Err(unexpected_token!("'STRING'", tokens[consumed + 1]));
+            }
+
+            (
+                Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
+                    str_type: "CHARACTER-STRING".to_string(),
+                }),
+                2,
+            )
+        }
 
         "ENUMERATED" => {
             let (enum_type, enum_type_consumed) = parse_enumerated_type(tokens)?;
@@ -194,6 +206,7 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
 
     let mut params = vec![];
     loop {
+        let start = consumed;
         if expect_token(&tokens[consumed..], Token::is_curly_begin)? {
             consumed += 1;
             let param = if expect_one_of_tokens(
@@ -229,6 +242,9 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
             consumed += 1;
             break;
         }
+        if consumed == start {
+            return Err(unexpected_token!("Parameter or '}'", tokens[consumed]));
+        }
     }
     Ok((params, consumed))
 }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index d81941c..ac5c27e 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -314,6 +314,7 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
     let mut additional_elements = vec![];
     let mut extension_token_count = 0;
     loop {
+        let start = consumed;
         if expect_token(&tokens[consumed..], Token::is_extension)? {
             extension_token_count += 1;
             if extension_token_count > 1 {
@@ -371,6 +372,9 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
             consumed += 1;
             break;
         }
+        if consumed == start {
+            return Err(unexpected_token!("Object or '}'", tokens[consumed]));
+        }
     }
     Ok((
         ObjectSet {
-- 
2.43.0


From d67fcff573d97af93d98dc87ba89dbca27019571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 33/53] fix: report a constraint that cannot be parsed

---
 asn-compiler/src/parser/asn/types/constraints.rs | 10 +++++++---
 asn-compiler/src/parser/asn/types/int.rs         | 13 ++++++++-----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index 2721b08..8bbd4cd 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -18,9 +18,10 @@ pub(super) fn parse_constraints(tokens: &[Token]) -> Result<(Vec<Asn1Constraint>
     let mut consumed = 0;
 
     let mut constraints = vec![];
-    while let Ok(result) = parse_constraint(&tokens[consumed..]) {
-        constraints.push(result.0);
-        consumed += result.1;
+    while tokens.get(consumed).map_or(false, Token::is_round_begin) {
+        let (constraint, constraint_consumed) = parse_constraint(&tokens[consumed..])?;
+        constraints.push(constraint);
+        consumed += constraint_consumed;
     }
     Ok((constraints, consumed))
 }
@@ -306,6 +307,9 @@ fn parse_range_elements(tokens: &[Token]) -> Result<(SubtypeElements, usize), Er
     } else {
         true
     };
+    if !expect_token(&tokens[consumed..], Token::is_range_separator)? {
+        return Err(unexpected_token!("'..'", tokens[consumed]));
+    }
     consumed += 1; // The '..' Token
 
     let upper_inclusive = if expect_token(&tokens[consumed..], Token::is_less_than)? {
diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 0dc94e4..95216d5 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -112,13 +112,16 @@ pub(crate) fn parse_type(tokens: &[Token]) -> Result<(Asn1Type, usize), Error> {
     };
     consumed += kind_consumed;
 
-    let (constraints, constraints_str_consumed) = match parse_constraints(&tokens[consumed..]) {
-        Ok((s, c)) => (Some(s), c),
-        Err(_) => (None, 0),
-    };
+    let (constraints, constraints_str_consumed) = parse_constraints(&tokens[consumed..])?;
     consumed += constraints_str_consumed;
 
-    Ok((Asn1Type { kind, constraints }, consumed))
+    Ok((
+        Asn1Type {
+            kind,
+            constraints: Some(constraints),
+        },
+        consumed,
+    ))
 }
 
 fn parse_referenced_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error> {
-- 
2.43.0


From fe9ceccfd272c67aac620f793155e35176c7d6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 34/53] fix: width of signed INTEGER types and refuse values
 beyond 64 bits

---
 .../src/resolver/asn/types/base/integer.rs    | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 4ce50a3..479b7e7 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -26,24 +26,21 @@ impl Asn1ResolvedInteger {
 
         // Get the Values that are expected
         let value_set = ty.get_integer_valueset_from_constraint(resolver)?;
-        if let Some(x) = value_set.root_values.min() {
-            if x < 0 {
-                base.signed = true
-            } else {
-                base.signed = false
-            }
+        let mut all_values = value_set.root_values.clone();
+        if let Some(ref additional_values) = value_set.additional_values {
+            all_values.append(additional_values);
         }
+        let (min, max) = match (all_values.min(), all_values.max()) {
+            (Some(min), Some(max)) => (min, max),
+            _ => return Err(constraint_error!("No values for the INTEGER '{:#?}'", ty)),
+        };
+        base.signed = min < 0;
 
         let bit_width = if base.signed {
-            let min = value_set.root_values.min().unwrap();
-            let max = value_set.root_values.max().unwrap();
-            let bits_needed_max = 128 - max.abs().leading_zeros();
-            let bits_needed_min = 128 - min.abs().leading_zeros();
-            std::cmp::max(bits_needed_min, bits_needed_max)
-        } else if value_set.root_values.min().is_none() {
-            8_u32
+            // One more bit for the sign. `!x` is `-x - 1`, thus never overflows.
+            let bits_needed = |x: i128| 129 - (if x < 0 { !x } else { x }).leading_zeros();
+            std::cmp::max(bits_needed(min), bits_needed(max))
         } else {
-            let max = value_set.root_values.max().unwrap();
             128 - max.leading_zeros()
         };
 
@@ -56,7 +53,11 @@ impl Asn1ResolvedInteger {
         } else if bit_width <= 64 {
             64
         } else {
-            128
+            return Err(constraint_error!(
+                "INTEGER values from '{}' to '{}' need more than 64 bits. Not Supported!",
+                min,
+                max
+            ));
         };
 
         // TODO: If we have named values, They should be added to Global list of resolved definitions.
-- 
2.43.0


From 8f223fdfe9c6233eef6a57481d5b765ef4c8c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 35/53] fix: apply all the constraints of a type

---
 .../resolver/asn/structs/types/constraints.rs | 11 +++++
 .../src/resolver/asn/types/base/bitstring.rs  | 15 +------
 .../src/resolver/asn/types/base/charstring.rs | 21 +++------
 .../resolver/asn/types/base/octetstring.rs    | 15 +------
 asn-compiler/src/resolver/asn/types/int.rs    | 44 ++++++++++++++++++-
 5 files changed, 64 insertions(+), 42 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index b0a12aa..6087940 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -83,4 +83,15 @@ impl Asn1ConstraintValueSet {
     pub(crate) fn has_extension(&self) -> bool {
         self.additional_values.is_some()
     }
+
+    /// The values of this set that are also in `parent`.
+    pub(crate) fn restricted_to(&self, parent: &ConstraintValues) -> Self {
+        Self {
+            root_values: self.root_values.intersection(parent),
+            additional_values: self
+                .additional_values
+                .as_ref()
+                .map(|values| values.intersection(parent)),
+        }
+    }
 }
diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index cb0f510..45f238d 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -19,19 +19,8 @@ impl Asn1ResolvedBitString {
     ) -> Result<Asn1ResolvedBitString, Error> {
         let mut base = Asn1ResolvedBitString::default();
 
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
-        }
+        // If there is any 'CONTAINING' Constraint, TODO: Handle it.
+        base.size = ty.get_size_valueset_from_constraints(resolver)?;
 
         if b.named_bits.is_some() {
             let mut named_values = HashMap::new();
diff --git a/asn-compiler/src/resolver/asn/types/base/charstring.rs b/asn-compiler/src/resolver/asn/types/base/charstring.rs
index 42f279b..9cb8f67 100644
--- a/asn-compiler/src/resolver/asn/types/base/charstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/charstring.rs
@@ -16,22 +16,15 @@ impl Asn1ResolvedCharacterString {
         if let Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString { str_type }) = &ty.kind {
             base.str_type = str_type.clone();
         }
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    return Err(constraint_error!(
-                        "Expected a Size Constraint, Found '{:#?}'",
-                        constraint
-                    ));
-                }
+        for constraint in ty.constraints.iter().flatten() {
+            if !constraint.is_size_constraint() {
+                return Err(constraint_error!(
+                    "Expected a Size Constraint, Found '{:#?}'",
+                    constraint
+                ));
             }
         }
+        base.size = ty.get_size_valueset_from_constraints(resolver)?;
         Ok(base)
     }
 }
diff --git a/asn-compiler/src/resolver/asn/types/base/octetstring.rs b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
index 0ed52b6..0e6abd3 100644
--- a/asn-compiler/src/resolver/asn/types/base/octetstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
@@ -13,19 +13,8 @@ impl Asn1ResolvedOctetString {
     ) -> Result<Asn1ResolvedOctetString, Error> {
         let mut base = Asn1ResolvedOctetString::default();
 
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
-        }
+        // If there is any 'CONTAINING' Constraint, TODO: Handle it.
+        base.size = ty.get_size_valueset_from_constraints(resolver)?;
         Ok(base)
     }
 }
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 5195053..d29828b 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -29,8 +29,25 @@ impl Asn1Type {
         let kind = &self.kind;
         match kind {
             Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(..)) => {
-                let constraint = &self.constraints.as_ref().unwrap()[0];
-                constraint.get_integer_valueset(resolver)
+                // When constraints are applied one after another, the values are those that satisfy
+                // all of them, but only the last one says anything about the extensions.
+                let mut value_set: Option<Asn1ConstraintValueSet> = None;
+                for constraint in self.constraints.iter().flatten() {
+                    let mut applied = constraint.get_integer_valueset(resolver)?;
+                    if let Some(parent) = value_set {
+                        applied = applied.restricted_to(&parent.root_values);
+                        if applied.root_values.is_empty() {
+                            return Err(constraint_error!(
+                                "No value satisfies the constraints of '{:#?}'",
+                                self
+                            ));
+                        }
+                    }
+                    value_set = Some(applied);
+                }
+                value_set.ok_or_else(|| {
+                    constraint_error!("The Type '{:#?}' is not constrained.", self)
+                })
             }
             Asn1TypeKind::Reference(Asn1TypeReference::Reference(ref _r)) => {
                 Err(constraint_error!("Not Implemented!"))
@@ -41,6 +58,29 @@ impl Asn1Type {
             )),
         }
     }
+
+    // Returns the Sizes admitted by the Constraints of a given Type. `None` if there is no `SIZE`.
+    pub(crate) fn get_size_valueset_from_constraints(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let constraints = self.constraints.iter().flatten();
+        let mut sizes: Option<Asn1ConstraintValueSet> = None;
+        for constraint in constraints.filter(|c| c.is_size_constraint()) {
+            let mut applied = constraint.get_size_valueset(resolver)?;
+            if let Some(parent) = sizes {
+                applied = applied.restricted_to(&parent.root_values);
+                if applied.root_values.is_empty() {
+                    return Err(constraint_error!(
+                        "No size satisfies the constraints of '{:#?}'",
+                        self
+                    ));
+                }
+            }
+            sizes = Some(applied);
+        }
+        Ok(sizes)
+    }
 }
 
 pub(crate) fn resolve_type(
-- 
2.43.0


From 0f6a44d7835ac6ad8a612a95aaf19c8e6e1d5f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 36/53] fix: refuse types and constraints that are nested too
 deep instead of overflowing the stack

---
 .../src/parser/asn/types/constraints.rs       |  5 +++++
 asn-compiler/src/parser/asn/types/int.rs      |  8 ++++++-
 asn-compiler/src/parser/utils.rs              | 22 +++++++++++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index 8bbd4cd..cac1f27 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -7,6 +7,7 @@ use crate::parser::{
     asn::values::parse_value,
     utils::{
         expect_keyword, expect_one_of_keywords, expect_one_of_tokens, expect_token, expect_tokens,
+        parse_nested,
     },
 };
 
@@ -104,6 +105,10 @@ fn parse_subtype_constraint(tokens: &[Token]) -> Result<(Asn1Constraint, usize),
 }
 
 fn parse_element_set(tokens: &[Token]) -> Result<(ElementSet, usize), Error> {
+    parse_nested(|| parse_element_set_elements(tokens))
+}
+
+fn parse_element_set_elements(tokens: &[Token]) -> Result<(ElementSet, usize), Error> {
     let mut consumed = 0;
 
     if !expect_token(&tokens[consumed..], Token::is_round_begin)? {
diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 95216d5..820ec23 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -5,7 +5,9 @@ use crate::parser::asn::structs::types::{
     ActualParam, Asn1BuiltinType, Asn1ConstructedType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
 
-use crate::parser::utils::{expect_keywords, expect_one_of_tokens, expect_token, expect_tokens};
+use crate::parser::utils::{
+    expect_keywords, expect_one_of_tokens, expect_token, expect_tokens, parse_nested,
+};
 
 use super::{
     base::{parse_bitstring_type, parse_enumerated_type, parse_integer_type},
@@ -15,6 +17,10 @@ use super::{
 
 // Parses the `Type` Expansion in the ASN.1 Grammar.
 pub(crate) fn parse_type(tokens: &[Token]) -> Result<(Asn1Type, usize), Error> {
+    parse_nested(|| parse_type_expansion(tokens))
+}
+
+fn parse_type_expansion(tokens: &[Token]) -> Result<(Asn1Type, usize), Error> {
     let mut consumed = 0;
 
     if !expect_one_of_tokens(
diff --git a/asn-compiler/src/parser/utils.rs b/asn-compiler/src/parser/utils.rs
index 28ff0d8..415de4c 100644
--- a/asn-compiler/src/parser/utils.rs
+++ b/asn-compiler/src/parser/utils.rs
@@ -3,6 +3,28 @@
 use crate::error::Error;
 use crate::tokenizer::{types::TokenChecker, Token};
 
+// Types and constraints nested deeper than this are refused (parsing them is recursive).
+const MAX_NESTING: usize = 128;
+
+thread_local! {
+    static NESTING: std::cell::Cell<usize> = std::cell::Cell::new(0);
+}
+
+// Runs the `parser` one level deeper than it's caller.
+pub(super) fn parse_nested<T>(parser: impl FnOnce() -> Result<T, Error>) -> Result<T, Error> {
+    let level = NESTING.with(|n| n.get());
+    if level >= MAX_NESTING {
+        return Err(parse_error!(
+            "Nested deeper than {} levels. Not Supported!",
+            MAX_NESTING
+        ));
+    }
+    NESTING.with(|n| n.set(level + 1));
+    let result = parser();
+    NESTING.with(|n| n.set(level));
+    result
+}
+
 // Returns true if the first `token`'s text is same as the passed `keyword`
 pub(super) fn expect_keyword(tokens: &[Token], keyword: &str) -> Result<bool, Error> {
     if tokens.is_empty() {
-- 
2.43.0


From 3685af5297c7f69537cf833c6a9163148f032a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 37/53] fix: resolve values through references and report those
 that are not values of their type

---
 asn-compiler/src/parser/asn/values.rs         |  6 ++-
 .../src/resolver/asn/structs/values.rs        | 16 ++++----
 .../src/resolver/asn/types/constraints.rs     | 33 ++---------------
 asn-compiler/src/resolver/asn/types/ioc.rs    | 37 +++++++------------
 asn-compiler/src/resolver/asn/values.rs       | 37 +++++++++++++++----
 asn-compiler/src/resolver/int.rs              | 25 ++++++++++++-
 6 files changed, 82 insertions(+), 72 deletions(-)

diff --git a/asn-compiler/src/parser/asn/values.rs b/asn-compiler/src/parser/asn/values.rs
index 1563c5b..a1a14e2 100644
--- a/asn-compiler/src/parser/asn/values.rs
+++ b/asn-compiler/src/parser/asn/values.rs
@@ -3,12 +3,16 @@
 use crate::error::Error;
 use crate::tokenizer::{types::TokenType, Token};
 
-use crate::parser::utils::{expect_one_of_tokens, parse_set_ish_value};
+use crate::parser::utils::{expect_one_of_keywords, expect_one_of_tokens, parse_set_ish_value};
 
 // Parses a given set of 'tokens' as a value and returns a string corresponding to one that would
 // be generated by concatenating those tokens. Note: It should be possible to regenerate, original
 // tokens, by 'tokenize'ing the string.
 pub(crate) fn parse_value(tokens: &[Token]) -> Result<(String, usize), Error> {
+    if expect_one_of_keywords(tokens, &["TRUE", "FALSE"])? {
+        return Ok((tokens[0].text.clone(), 1));
+    }
+
     if !expect_one_of_tokens(
         tokens,
         &[
diff --git a/asn-compiler/src/resolver/asn/structs/values.rs b/asn-compiler/src/resolver/asn/structs/values.rs
index 285e4d4..a128f59 100644
--- a/asn-compiler/src/resolver/asn/structs/values.rs
+++ b/asn-compiler/src/resolver/asn/structs/values.rs
@@ -27,8 +27,15 @@ pub(crate) struct Asn1ResolvedEnumValue {
     pub(crate) value: BaseEnum,
 }
 
+#[derive(Debug, Clone)]
+pub(crate) struct Asn1ResolvedBooleanValue {
+    pub(crate) typeref: Asn1ResolvedType,
+    pub(crate) value: BaseBoolean,
+}
+
 #[derive(Debug, Clone)]
 pub(crate) enum ResolvedBaseValue {
+    Boolean(Asn1ResolvedBooleanValue),
     Integer(Asn1ResolvedIntegerValue),
     Enum(Asn1ResolvedEnumValue),
 }
@@ -49,12 +56,3 @@ pub(crate) enum Asn1ResolvedValue {
     Base(ResolvedBaseValue),
 }
 
-impl Asn1ResolvedValue {
-    pub(crate) fn get_base_integer_value(&self) -> Option<i128> {
-        match self {
-            Self::Base(ResolvedBaseValue::Integer(ref i)) => Some(i.value as i128),
-            Self::ReferencedType { value, .. } => value.get_base_integer_value(),
-            _ => None,
-        }
-    }
-}
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 62db537..4796f3b 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -5,11 +5,7 @@ use crate::error::Error;
 
 use crate::parser::asn::structs::types::constraints::*;
 
-use crate::resolver::asn::structs::{
-    defs::Asn1ResolvedDefinition,
-    types::constraints::{Asn1ConstraintValueSet, ConstraintValues},
-    values::{Asn1ResolvedValue, ResolvedBaseValue},
-};
+use crate::resolver::asn::structs::types::constraints::{Asn1ConstraintValueSet, ConstraintValues};
 use crate::resolver::Resolver;
 
 impl Asn1Constraint {
@@ -377,32 +373,9 @@ impl SubtypeElements {
     }
 
     fn parse_or_resolve_value(value: &str, resolver: &Resolver) -> Result<i128, Error> {
-        // FIXME : do the 'resolve part'
-        let parsed = value.parse::<i128>();
-        match parsed {
+        match value.parse::<i128>() {
             Ok(x) => Ok(x),
-            Err(_) => {
-                let resolved = resolver.resolved_defs.get(value);
-                match resolved {
-                    None => Err(constraint_error!(
-                        "Unable To Resolve '{}'. Not Found!",
-                        value
-                    )),
-                    Some(res) => {
-                        if let Asn1ResolvedDefinition::Value(Asn1ResolvedValue::Base(
-                            ResolvedBaseValue::Integer(ref i),
-                        )) = res
-                        {
-                            Ok(i.value)
-                        } else {
-                            Err(constraint_error!(
-                                "Resolved Value {:#?} of different type!",
-                                res
-                            ))
-                        }
-                    }
-                }
-            }
+            Err(_) => resolver.get_integer_value(value),
         }
     }
 
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 975273f..ce30a9a 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -106,20 +106,14 @@ pub(crate) fn resolve_object_set(
                                                 decoder_ty.replace(typeref.clone());
                                                 let value = value.as_ref().unwrap();
                                                 if let Asn1ResolvedValue::Reference(ref s) = value {
-                                                    let v = resolver.resolved_defs.get(s).unwrap();
-
-                                                    if let Asn1ResolvedDefinition::Value(ref v) = v
-                                                    {
-                                                        // Get the actual Value - Usually this value is an
-                                                        // Integer Value. This Value is to be used by the
-                                                        // decoder.
-                                                        let v = format!(
-                                                            "{}",
-                                                            v.get_base_integer_value().unwrap()
-                                                        );
-                                                        lookup_table
-                                                            .insert((v, s.clone()), element);
-                                                    }
+                                                    // Get the actual Value - Usually this value is an
+                                                    // Integer Value. This Value is to be used by the
+                                                    // decoder.
+                                                    let v = resolver.get_integer_value(s)?;
+                                                    lookup_table.insert(
+                                                        (format!("{}", v), s.clone()),
+                                                        element,
+                                                    );
                                                 }
                                             }
                                         }
@@ -150,16 +144,11 @@ pub(crate) fn resolve_object_set(
                                     decoder_ty.replace(typeref.clone());
                                     let value = value.as_ref().unwrap();
                                     if let Asn1ResolvedValue::Reference(ref s) = value {
-                                        let v = resolver.resolved_defs.get(s).unwrap();
-
-                                        if let Asn1ResolvedDefinition::Value(ref v) = v {
-                                            // Get the actual Value - Usually this value is an
-                                            // Integer Value. This Value is to be used by the
-                                            // decoder.
-                                            let v =
-                                                format!("{}", v.get_base_integer_value().unwrap());
-                                            lookup_table.insert((v, s.clone()), element);
-                                        }
+                                        // Get the actual Value - Usually this value is an
+                                        // Integer Value. This Value is to be used by the
+                                        // decoder.
+                                        let v = resolver.get_integer_value(s)?;
+                                        lookup_table.insert((format!("{}", v), s.clone()), element);
                                     }
                                 }
                             }
diff --git a/asn-compiler/src/resolver/asn/values.rs b/asn-compiler/src/resolver/asn/values.rs
index 08914f1..5a8f9e6 100644
--- a/asn-compiler/src/resolver/asn/values.rs
+++ b/asn-compiler/src/resolver/asn/values.rs
@@ -7,8 +7,8 @@ use crate::resolver::{
         defs::Asn1ResolvedDefinition,
         types::{base::ResolvedBaseType, Asn1ResolvedType},
         values::{
-            Asn1ResolvedEnumValue, Asn1ResolvedIntegerValue, Asn1ResolvedValue, BaseInteger,
-            ResolvedBaseValue,
+            Asn1ResolvedBooleanValue, Asn1ResolvedEnumValue, Asn1ResolvedIntegerValue,
+            Asn1ResolvedValue, BaseEnum, BaseInteger, ResolvedBaseValue,
         },
     },
     Resolver,
@@ -24,8 +24,23 @@ pub(crate) fn resolve_value(
         None => {
             match typeref {
                 Asn1ResolvedType::Base(ref b) => match b {
+                    ResolvedBaseType::Boolean(..) => {
+                        let value = match value {
+                            "TRUE" => true,
+                            "FALSE" => false,
+                            _ => return Err(resolve_error!("'{}' is not a BOOLEAN value!", value)),
+                        };
+                        Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Boolean(
+                            Asn1ResolvedBooleanValue {
+                                typeref: typeref.clone(),
+                                value,
+                            },
+                        )))
+                    }
                     ResolvedBaseType::Integer(ref _i) => {
-                        let value = value.parse::<BaseInteger>().unwrap();
+                        let value = value.parse::<BaseInteger>().map_err(|e| {
+                            resolve_error!("'{}' is not an INTEGER value: {}", value, e)
+                        })?;
                         Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(
                             Asn1ResolvedIntegerValue {
                                 typeref: typeref.clone(),
@@ -33,10 +48,18 @@ pub(crate) fn resolve_value(
                             },
                         )))
                     }
-                    ResolvedBaseType::Enum(ref _e) => {
-                        // FIXME: When Enum is resolved we'd get it right
-                        // let value = value.parse::<BaseEnum>().unwrap();
-                        let value = 0;
+                    ResolvedBaseType::Enum(ref e) => {
+                        let items = e.named_root_values.iter().chain(&e.named_ext_values);
+                        let value = match items.into_iter().find(|(name, _)| name == value) {
+                            Some((_, value)) => *value as BaseEnum,
+                            None => {
+                                return Err(resolve_error!(
+                                    "'{}' is not a value of '{:#?}'",
+                                    value,
+                                    e
+                                ))
+                            }
+                        };
                         Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Enum(
                             Asn1ResolvedEnumValue {
                                 typeref: typeref.clone(),
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 30cbbc6..b0cd65d 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -6,7 +6,11 @@ use crate::error::Error;
 
 use crate::parser::asn::structs::{defs::Asn1Definition, module::Asn1Module};
 
-use crate::resolver::asn::structs::{defs::Asn1ResolvedDefinition, types::Asn1ResolvedType};
+use crate::resolver::asn::structs::{
+    defs::Asn1ResolvedDefinition,
+    types::Asn1ResolvedType,
+    values::{Asn1ResolvedValue, ResolvedBaseValue},
+};
 
 use crate::resolver::asn::defs::resolve_definition;
 
@@ -98,6 +102,25 @@ impl Resolver {
         Ok(())
     }
 
+    // Returns the INTEGER value of an already resolved value definition.
+    pub(crate) fn get_integer_value(&self, name: &str) -> Result<i128, Error> {
+        match self.resolved_defs.get(name) {
+            Some(Asn1ResolvedDefinition::Value(value)) => self.get_base_integer_value(value),
+            Some(_) => Err(resolve_error!("'{}' is not a value!", name)),
+            None => Err(resolve_error!("Unable To Resolve '{}'. Not Found!", name)),
+        }
+    }
+
+    // Returns the INTEGER a resolved value stands for, following the references.
+    pub(crate) fn get_base_integer_value(&self, value: &Asn1ResolvedValue) -> Result<i128, Error> {
+        match value {
+            Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(ref i)) => Ok(i.value),
+            Asn1ResolvedValue::ReferencedType { value, .. } => self.get_base_integer_value(value),
+            Asn1ResolvedValue::Reference(ref r) => self.get_integer_value(r),
+            _ => Err(resolve_error!("'{:#?}' is not an INTEGER value!", value)),
+        }
+    }
+
     pub(crate) fn get_resolved_types(&self) -> Vec<(&String, &Asn1ResolvedType)> {
         self.resolved_defs
             .iter()
-- 
2.43.0


From a9c14d2b18101d7714057e4f8f82ff5bbcaf5665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 38/53] fix: compile values, objects, enumerations and sizes
 after what they refer to and report circles

---
 asn-compiler/src/compiler.rs                  | 22 ++++++++++---
 asn-compiler/src/parser/asn/structs/defs.rs   | 22 +++++++++++--
 asn-compiler/src/parser/asn/structs/module.rs | 31 ++++++++++++++++---
 .../src/parser/asn/structs/types/base.rs      | 12 +++++++
 .../parser/asn/structs/types/constructed.rs   |  6 +++-
 .../src/parser/asn/structs/types/ioc.rs       |  8 +++--
 .../src/parser/asn/structs/types/mod.rs       | 12 ++++++-
 asn-compiler/src/resolver/int.rs              | 21 +------------
 8 files changed, 99 insertions(+), 35 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index cd044fd..56f9de1 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -136,12 +136,16 @@ impl Asn1Compiler {
         Ok(())
     }
 
-    fn sorted_modules(&self) -> Vec<String> {
+    // Modules sorted such that the imported ones come first, then by their names.
+    fn sorted_modules(&self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for module in self.modules.values() {
             let imports = module.get_imported_defs();
             for (_, m) in imports {
+                if m.name() == module.get_module_name() {
+                    return Err(resolve_error!("Module '{}' imports from itself!", m.name()));
+                }
                 ts.add_dependency(m.name(), module.get_module_name())
             }
             ts.insert(module.get_module_name());
@@ -149,18 +153,28 @@ impl Asn1Compiler {
 
         let mut out_vec = vec![];
         loop {
-            let popped = ts.pop_all();
+            let mut popped = ts.pop_all();
             if popped.is_empty() {
                 break;
             } else {
+                popped.sort();
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        if !ts.is_empty() {
+            let mut circular = self.modules.keys().collect::<Vec<&String>>();
+            circular.retain(|name| !out_vec.contains(name));
+            circular.sort();
+            return Err(resolve_error!(
+                "Modules import from each other: {:?}. Not Supported!",
+                circular
+            ));
+        }
+        Ok(out_vec)
     }
 
     fn resolve_definitions(&mut self) -> Result<(), Error> {
-        let module_names = self.sorted_modules();
+        let module_names = self.sorted_modules()?;
         for name in module_names {
             let mut module = self.modules.get_mut(&name).unwrap();
 
diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index 32637d8..8db3ee1 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -103,9 +103,20 @@ impl Asn1AssignmentKind {
 
     pub fn dependent_references(&self) -> Vec<String> {
         match self {
-            Self::Value(ref v) => v.typeref.dependent_references(),
+            Self::Value(ref v) => {
+                let mut references = v.typeref.dependent_references();
+                // May be a reference to another value (or an item of an ENUMERATED).
+                if v.value != v.id {
+                    references.push(v.value.clone());
+                }
+                references
+            }
             Self::Type(ref t) => t.typeref.dependent_references(),
-            Self::Object(ref o) => vec![o.object.class.clone()],
+            Self::Object(ref o) => {
+                let mut references = vec![o.object.class.clone()];
+                references.extend(o.object.value.dependent_references());
+                references
+            }
             Self::ObjectSet(ref s) => s.dependent_references(),
             Self::Class(ref c) => c.dependent_references(),
         }
@@ -128,7 +139,12 @@ impl Asn1Definition {
     // definitions topologically, which would make error handling considerably easier when
     // resolving those definitions
     pub fn dependent_references(&self) -> Vec<String> {
-        self.kind.dependent_references()
+        let mut references = self.kind.dependent_references();
+        if let Some(ref params) = self.params {
+            // The Dummy References are not definitions.
+            references.retain(|r| params.ordered.iter().all(|p| &p.dummyref.name != r));
+        }
+        references
     }
 }
 
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index a2325c6..67a7fe5 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -4,6 +4,8 @@ use std::collections::{hash_map::Iter, HashMap};
 
 use topological_sort::TopologicalSort;
 
+use crate::error::Error;
+
 use crate::parser::asn::structs::{defs::Asn1Definition, oid::ObjectIdentifier};
 
 #[derive(Debug, PartialEq)]
@@ -88,12 +90,22 @@ impl Asn1Module {
     // a Type definition or a Class Name in an object definition and so on. We don't include the
     // 'import'ed definitions in these because, they will already be 'Resolved' because the modules
     // are already in a Topologically sorted order!
-    pub(crate) fn definitions_sorted(&mut self) -> Vec<String> {
+    //
+    // Definitions that do not depend on each other are sorted by their names. It's an Error, if
+    // definitions depend on each other in a circle.
+    pub(crate) fn definitions_sorted(&self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for (k, v) in self.definitions.iter() {
             for r in v.dependent_references() {
-                if self.imports.get(&r).is_none() {
+                if self.definitions.contains_key(&r) {
+                    if &r == k {
+                        return Err(resolve_error!(
+                            "Definition '{}' in Module '{}' depends on itself. Not Supported!",
+                            k,
+                            self.name.name
+                        ));
+                    }
                     ts.add_dependency(r.clone(), k.clone());
                 }
             }
@@ -102,14 +114,25 @@ impl Asn1Module {
 
         let mut out_vec = vec![];
         loop {
-            let popped = ts.pop_all();
+            let mut popped = ts.pop_all();
             if popped.is_empty() {
                 break;
             } else {
+                popped.sort();
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        if !ts.is_empty() {
+            let mut circular = self.definitions.keys().collect::<Vec<&String>>();
+            circular.retain(|k| !out_vec.contains(k));
+            circular.sort();
+            return Err(resolve_error!(
+                "Definitions in Module '{}' depend on each other: {:?}. Not Supported!",
+                self.name.name,
+                circular
+            ));
+        }
+        Ok(out_vec)
     }
 
     #[inline(always)]
diff --git a/asn-compiler/src/parser/asn/structs/types/base.rs b/asn-compiler/src/parser/asn/structs/types/base.rs
index 50929d8..4adfdbe 100644
--- a/asn-compiler/src/parser/asn/structs/types/base.rs
+++ b/asn-compiler/src/parser/asn/structs/types/base.rs
@@ -25,6 +25,18 @@ pub(crate) struct Asn1TypeEnumerated {
     pub(crate) ext_values: Vec<EnumValue>,
 }
 
+impl Asn1TypeEnumerated {
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
+        let items = self.root_values.iter().chain(&self.ext_values);
+        items
+            .filter_map(|item| match item.value {
+                Some(NamedValue::ValueRef(ref r)) => Some(r.clone()),
+                _ => None,
+            })
+            .collect()
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1TypeBitString {
     pub(crate) named_bits: Option<Vec<(String, NamedValue)>>,
diff --git a/asn-compiler/src/parser/asn/structs/types/constructed.rs b/asn-compiler/src/parser/asn/structs/types/constructed.rs
index 2ca0ad8..2025bc3 100644
--- a/asn-compiler/src/parser/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constructed.rs
@@ -109,6 +109,10 @@ pub(crate) struct Asn1TypeSequenceOf {
 
 impl Asn1TypeSequenceOf {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
-        self.ty.dependent_references()
+        let mut output = self.ty.dependent_references();
+        if let Some(ref size) = self.size {
+            output.extend(size.dependent_references());
+        }
+        output
     }
 }
diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 79b5ca2..18406d5 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -118,7 +118,11 @@ impl Asn1ObjectFieldSpec {
                     vec![]
                 }
             }
-            Self::FixedTypeValue { typeref, .. } => typeref.dependent_references(),
+            Self::FixedTypeValue { typeref, value } => {
+                let mut output = typeref.dependent_references();
+                output.extend(value.clone()); // May be a reference to a value.
+                output
+            }
         }
     }
 }
@@ -132,7 +136,7 @@ pub(crate) enum Asn1ObjectValue {
 }
 
 impl Asn1ObjectValue {
-    fn dependent_references(&self) -> Vec<String> {
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         if let Self::Asn1ObjectFromClass { fields } = self {
             for field in fields.values() {
diff --git a/asn-compiler/src/parser/asn/structs/types/mod.rs b/asn-compiler/src/parser/asn/structs/types/mod.rs
index b25b26a..8bfc5fb 100644
--- a/asn-compiler/src/parser/asn/structs/types/mod.rs
+++ b/asn-compiler/src/parser/asn/structs/types/mod.rs
@@ -27,6 +27,16 @@ pub(crate) enum Asn1BuiltinType {
     CharacterString { str_type: String },
 }
 
+impl Asn1BuiltinType {
+    fn dependent_references(&self) -> Vec<String> {
+        if let Self::Enumerated(ref e) = self {
+            e.dependent_references()
+        } else {
+            vec![]
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1Type {
     pub(crate) kind: Asn1TypeKind,
@@ -36,7 +46,7 @@ pub(crate) struct Asn1Type {
 impl Asn1Type {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut kind_references = match self.kind {
-            Asn1TypeKind::Builtin(ref _b) => vec![],
+            Asn1TypeKind::Builtin(ref b) => b.dependent_references(),
             Asn1TypeKind::Reference(ref r) => r.dependent_references(),
             Asn1TypeKind::Constructed(ref c) => c.dependent_references(),
         };
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index b0cd65d..6812b4f 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -55,7 +55,7 @@ impl Resolver {
 
         module.resolve_object_classes(&self.classes)?;
 
-        let definitions_sorted = module.definitions_sorted();
+        let definitions_sorted = module.definitions_sorted()?;
         for k in definitions_sorted {
             let parsed_def = module.get_definition_mut(&k);
             if parsed_def.is_none() {
@@ -80,25 +80,6 @@ impl Resolver {
             parsed_def.resolved = true;
         }
 
-        for k in module.definitions_sorted() {
-            let parsed_def = module.get_definition_mut(&k);
-            if parsed_def.is_none() {
-                eprintln!(
-                    "Definition '{}' Not found! It's Okay for certain Dummy References",
-                    k
-                );
-                continue;
-            }
-            let parsed_def = parsed_def.unwrap();
-            if !parsed_def.resolved {
-                println!(
-                    "UNRESOLVED: Definition: {} in module : {} not resolved!",
-                    k,
-                    module.get_module_name()
-                );
-            }
-        }
-
         Ok(())
     }
 
-- 
2.43.0


From cdc53d24dc8b2e5a48ce2d7c0d55b3124cbcad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:29 +0000
Subject: [PATCH 39/53] fix: report names that are defined twice, not imported
 or not found where they are imported from

---
 asn-compiler/src/bin/hampi-asn1c.rs           |  7 +-
 asn-compiler/src/compiler.rs                  | 74 +++++++++++++++++--
 asn-compiler/src/parser/asn/module.rs         | 30 +++++---
 asn-compiler/src/parser/asn/structs/module.rs |  5 ++
 .../src/parser/asn/structs/types/ioc.rs       |  6 +-
 asn-compiler/src/parser/asn/types/ioc.rs      | 13 ++--
 .../src/resolver/asn/structs/types/ioc.rs     |  6 +-
 asn-compiler/src/resolver/asn/types/ioc.rs    |  6 +-
 8 files changed, 114 insertions(+), 33 deletions(-)

diff --git a/asn-compiler/src/bin/hampi-asn1c.rs b/asn-compiler/src/bin/hampi-asn1c.rs
index 53f4d73..93c4b8a 100644
--- a/asn-compiler/src/bin/hampi-asn1c.rs
+++ b/asn-compiler/src/bin/hampi-asn1c.rs
@@ -24,7 +24,12 @@ fn main() -> io::Result<()> {
             }
             let module = module.unwrap();
             //eprintln!("module: {:#?}", module);
-            compiler.add_module(module);
+            if !compiler.add_module(module) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("A Module in '{}' is already defined!", arg),
+                ));
+            }
         }
     }
     compiler.resolve_modules()?;
diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index 56f9de1..244fe9c 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -53,9 +53,13 @@ impl Asn1Compiler {
     ///
     /// If the module alredy exists, returns `false` else returns `true`.
     pub fn add_module(&mut self, module: Asn1Module) -> bool {
-        self.modules
-            .insert(module.get_module_name(), module)
-            .is_some()
+        let name = module.get_module_name();
+        if self.modules.contains_key(&name) {
+            false
+        } else {
+            self.modules.insert(name, module);
+            true
+        }
     }
 
     /// Resolve Modules order and definitions within those modules.
@@ -122,20 +126,74 @@ impl Asn1Compiler {
     fn resolve_imports(&self) -> Result<(), Error> {
         for (_, module) in self.modules.iter() {
             for (import, module_name) in module.get_imported_defs() {
-                let target = self.modules.get(module_name.name_as_str());
-                if target.is_none() {
+                match self.modules.get(module_name.name_as_str()) {
+                    None => {
+                        return Err(resolve_error!(
+                            "Module '{}', corresponding to definition '{}' not found!",
+                            module_name.name_as_str(),
+                            import
+                        ));
+                    }
+                    Some(target) if !target.get_definitions().contains_key(import) => {
+                        return Err(resolve_error!(
+                            "Definition '{}' not found in the Module '{}' it is imported from!",
+                            import,
+                            module_name.name_as_str()
+                        ));
+                    }
+                    _ => {}
+                }
+                if module.get_definitions().contains_key(import) {
                     return Err(resolve_error!(
-                        "Module '{}', corresponding to definition '{}' not found!",
-                        module_name.name_as_str(),
-                        import
+                        "Definition '{}' is imported and defined in the Module '{}'!",
+                        import,
+                        module.get_module_name()
                     ));
                 }
             }
         }
+        self.check_definition_names()?;
         eprintln!("All IMPORTS in All Modules Resolved!");
         Ok(())
     }
 
+    // All the definitions are resolved into (and generated in) a single namespace. Hence those with
+    // the same name have to be the same.
+    fn check_definition_names(&self) -> Result<(), Error> {
+        let mut defined_in = HashMap::new();
+        for (_, module) in self.modules.iter() {
+            for (name, definition) in module.get_definitions() {
+                if let Some(other) = defined_in.insert(name, definition) {
+                    if format!("{:?}", other) != format!("{:?}", definition) {
+                        return Err(resolve_error!(
+                            "Different definitions of '{}' in the Modules. Not Supported!",
+                            name
+                        ));
+                    }
+                }
+            }
+        }
+        for (_, module) in self.modules.iter() {
+            let own = module.get_definitions();
+            for (name, definition) in own {
+                for reference in definition.dependent_references() {
+                    if !own.contains_key(&reference)
+                        && !module.is_imported(&reference)
+                        && defined_in.contains_key(&reference)
+                    {
+                        return Err(resolve_error!(
+                            "'{}' referred to by '{}' is not imported in the Module '{}'!",
+                            reference,
+                            name,
+                            module.get_module_name()
+                        ));
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     // Modules sorted such that the imported ones come first, then by their names.
     fn sorted_modules(&self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
diff --git a/asn-compiler/src/parser/asn/module.rs b/asn-compiler/src/parser/asn/module.rs
index de64414..0733f12 100644
--- a/asn-compiler/src/parser/asn/module.rs
+++ b/asn-compiler/src/parser/asn/module.rs
@@ -80,8 +80,11 @@ where
     let mut definitions = HashMap::new();
     while !expect_keyword(&tokens[consumed..], "END")? {
         let (def, definition_consumed) = parse_definition(&tokens[consumed..])?;
-        definitions.insert(def.id(), def);
         consumed += definition_consumed;
+        let id = def.id();
+        if definitions.insert(id.clone(), def).is_some() {
+            return Err(parse_error!("'{}' is defined more than once!", id));
+        }
     }
 
     // Comes out of the loop when END is found.
@@ -106,16 +109,27 @@ fn parse_module_imports(
     if expect_keyword(&tokens[consumed..], "IMPORTS")? {
         consumed += 1;
 
-        loop {
+        // There may be nothing that is imported.
+        while !expect_token(&tokens[consumed..], Token::is_semicolon)? {
             let mut imported_defs = vec![];
             while !expect_keyword(&tokens[consumed..], "FROM")? {
-                if expect_token(&tokens[consumed..], Token::is_identifier)? {
-                    let definition = tokens[consumed].text.clone();
-                    imported_defs.push(definition);
+                if !expect_token(&tokens[consumed..], Token::is_identifier)? {
+                    return Err(unexpected_token!("'IDENTIFIER'", tokens[consumed]));
                 }
+                imported_defs.push(tokens[consumed].text.clone());
                 consumed += 1;
+                // References to Parameterized definitions are followed by '{}'
+                if expect_token(&tokens[consumed..], Token::is_curly_begin)? {
+                    consumed += 1;
+                    if !expect_token(&tokens[consumed..], Token::is_curly_end)? {
+                        return Err(unexpected_token!("'}'", tokens[consumed]));
+                    }
+                    consumed += 1;
+                }
                 if expect_token(&tokens[consumed..], Token::is_comma)? {
                     consumed += 1;
+                } else if !expect_keyword(&tokens[consumed..], "FROM")? {
+                    return Err(unexpected_token!("',' or 'FROM'", tokens[consumed]));
                 }
             }
             consumed += 1;
@@ -128,12 +142,8 @@ fn parse_module_imports(
                 }
                 let _ = imports.insert(d, module_name.clone());
             }
-
-            if expect_token(&tokens[consumed..], Token::is_semicolon)? {
-                consumed += 1;
-                break;
-            }
         }
+        consumed += 1; // The ';'
     }
 
     Ok((imports, consumed))
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index 67a7fe5..319cca9 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -151,6 +151,11 @@ impl Asn1Module {
         self.definitions.get_mut(key)
     }
 
+    #[inline(always)]
+    pub(crate) fn is_imported(&self, key: &str) -> bool {
+        self.imports.contains_key(key)
+    }
+
     #[inline(always)]
     pub(crate) fn get_imported_defs(&self) -> Iter<'_, String, Asn1ModuleName> {
         self.imports.iter()
diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 18406d5..180d15c 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -1,6 +1,6 @@
 //! Structures related to Information Object Class, Objects etc.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use super::Asn1Type;
 
@@ -49,7 +49,7 @@ impl ObjectClassFieldSpec {
 
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ObjectClass {
-    pub(crate) fields: HashMap<String, ObjectClassFieldSpec>,
+    pub(crate) fields: BTreeMap<String, ObjectClassFieldSpec>,
 }
 
 impl Asn1ObjectClass {
@@ -130,7 +130,7 @@ impl Asn1ObjectFieldSpec {
 #[derive(Debug, Clone)]
 pub(crate) enum Asn1ObjectValue {
     Asn1ObjectFromClass {
-        fields: HashMap<String, Asn1ObjectFieldSpec>,
+        fields: BTreeMap<String, Asn1ObjectFieldSpec>,
     },
     Input(String),
 }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index ac5c27e..6c8cab4 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -1,5 +1,5 @@
 //! Parsing of Information Object Class, Objects, Object Sets etc.
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::error::Error;
 use crate::tokenizer::{tokenize, Token};
@@ -29,13 +29,16 @@ pub(crate) fn parse_class(tokens: &[Token]) -> Result<(Asn1ObjectClass, usize),
     }
     consumed += 1;
 
-    let mut fields = HashMap::new();
+    let mut fields = BTreeMap::new();
     loop {
         // Any error in parsing a field spec is an error.
         let (field_spec, field_spec_consumed) = parse_field_spec(&tokens[consumed..])?;
         consumed += field_spec_consumed;
 
-        fields.insert(field_spec.id(), field_spec);
+        let id = field_spec.id();
+        if fields.insert(id.clone(), field_spec).is_some() {
+            return Err(parse_error!("Field '{}' is in the CLASS more than once!", id));
+        }
 
         if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
@@ -202,7 +205,7 @@ fn parse_type_field_spec(tokens: &[Token]) -> Result<(ObjectClassFieldSpec, usiz
 
 fn parse_with_syntax_for_fields(
     tokens: &[Token],
-    fields: &mut HashMap<String, ObjectClassFieldSpec>,
+    fields: &mut BTreeMap<String, ObjectClassFieldSpec>,
 ) -> Result<usize, Error> {
     let mut consumed = 0;
     if !expect_keywords(&tokens[consumed..], &["WITH", "SYNTAX"])? {
@@ -454,7 +457,7 @@ pub(crate) fn parse_object_from_class(
             .iter()
             .any(|f| f.split_whitespace().any(|w| t.text == w))
     });
-    let mut fields = HashMap::new();
+    let mut fields = BTreeMap::new();
     for words in word_tokens {
         consumed += words.len();
         let words = words
diff --git a/asn-compiler/src/resolver/asn/structs/types/ioc.rs b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
index 683fe3c..971756c 100644
--- a/asn-compiler/src/resolver/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
@@ -1,5 +1,5 @@
 //! Resolved(Object|ObjectSet) Definitions
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::resolver::asn::structs::{types::Asn1ResolvedType, values::Asn1ResolvedValue};
 
@@ -17,7 +17,7 @@ pub(crate) enum ResolvedFieldSpec {
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ResolvedObject {
     pub(crate) name: String,
-    pub(crate) fields: HashMap<String, ResolvedFieldSpec>,
+    pub(crate) fields: BTreeMap<String, ResolvedFieldSpec>,
 }
 
 #[derive(Debug, Clone)]
@@ -29,7 +29,7 @@ pub(crate) struct Asn1ResolvedObjectSet {
 pub(crate) struct ResolvedObjectSet {
     pub(crate) decoder_ty: Option<Asn1ResolvedType>,
     pub(crate) elements: Vec<ResolvedObjectSetElement>,
-    pub(crate) lookup_table: HashMap<(String, String), ResolvedObjectSetElement>,
+    pub(crate) lookup_table: BTreeMap<(String, String), ResolvedObjectSetElement>,
 }
 
 #[derive(Debug, Clone)]
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index ce30a9a..85f064a 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -1,5 +1,5 @@
 //! Handling of Information Object Classes, ObjectSets, Objects etc
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::error::Error;
 
@@ -45,7 +45,7 @@ pub(crate) fn resolve_object_set(
             } else {
                 "".to_string()
             };
-            let mut lookup_table = HashMap::new();
+            let mut lookup_table = BTreeMap::new();
 
             let mut elements = vec![];
             let mut input_elements = objectset.objects.root_elements.clone();
@@ -173,7 +173,7 @@ pub(crate) fn resolve_object(
     object_value: &Asn1ObjectValue,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedObject, Error> {
-    let mut resolved_fields = HashMap::new();
+    let mut resolved_fields = BTreeMap::new();
     if let Asn1ObjectValue::Asn1ObjectFromClass { fields } = object_value {
         for (k, field) in fields {
             let resolved = match field {
-- 
2.43.0


From 1f916512ecc36a9dc28da4740ecc4d9a454061fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 40/53] fix: number the items of an ENUMERATED

---
 .../src/parser/asn/types/base/enumerated.rs   |  19 ++-
 .../src/resolver/asn/types/base/enumerated.rs | 119 ++++++++++++------
 2 files changed, 97 insertions(+), 41 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/base/enumerated.rs b/asn-compiler/src/parser/asn/types/base/enumerated.rs
index 91c476d..21da86e 100644
--- a/asn-compiler/src/parser/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/parser/asn/types/base/enumerated.rs
@@ -24,7 +24,8 @@ fn parse_enum_values(tokens: &[Token]) -> Result<(Vec<EnumValue>, usize), Error>
         values.push(value);
         consumed += named_value_consumed;
 
-        if expect_token(&tokens[consumed..], Token::is_comma)? {
+        let comma = expect_token(&tokens[consumed..], Token::is_comma)?;
+        if comma {
             consumed += 1;
         }
 
@@ -35,6 +36,10 @@ fn parse_enum_values(tokens: &[Token]) -> Result<(Vec<EnumValue>, usize), Error>
             // Don't consume, let caller consume it.
             break;
         }
+
+        if !comma {
+            return Err(unexpected_token!("',' or '}'", tokens[consumed]));
+        }
     }
     Ok((values, consumed))
 }
@@ -66,14 +71,16 @@ pub(crate) fn parse_enumerated_type(
     };
 
     // one(1), ...,
-    if expect_token(&tokens[consumed..], Token::is_comma)? {
+    if ext_marker_index.is_some() && expect_token(&tokens[consumed..], Token::is_comma)? {
         consumed += 1;
     }
 
-    let (ext_values, ext_values_consumed) = match parse_enum_values(&tokens[consumed..]) {
-        Ok(result) => result,
-        Err(_) => (vec![], 0),
-    };
+    let (ext_values, ext_values_consumed) =
+        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+            (vec![], 0)
+        } else {
+            parse_enum_values(&tokens[consumed..])?
+        };
     consumed += ext_values_consumed;
 
     if !expect_token(&tokens[consumed..], Token::is_curly_end)? {
diff --git a/asn-compiler/src/resolver/asn/types/base/enumerated.rs b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
index 33c79e5..603345e 100644
--- a/asn-compiler/src/resolver/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
@@ -1,12 +1,11 @@
 //! Functionality for handling Resolved ASN.1 ENUMERATED Types
 
 use std::collections::BTreeSet;
-use std::convert::TryInto;
 
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    base::{Asn1TypeEnumerated, NamedValue},
+    base::{Asn1TypeEnumerated, EnumValue, NamedValue},
     Asn1Type,
 };
 use crate::resolver::asn::structs::types::base::Asn1ResolvedEnumerated;
@@ -16,56 +15,106 @@ impl Asn1ResolvedEnumerated {
     pub(super) fn resolve_enumerated(
         _ty: &Asn1Type,
         e: &Asn1TypeEnumerated,
-        _resolver: &Resolver,
+        resolver: &Resolver,
     ) -> Result<Asn1ResolvedEnumerated, Error> {
         let mut base = Asn1ResolvedEnumerated {
             extensible: e.ext_marker_index.is_some(),
+            signed: false,
             ..Default::default()
         };
 
         // FIXME: TODO Constraints
 
-        let mut root_values = BTreeSet::<i128>::new();
-        for v in &e.root_values {
-            let named = &v.value;
-            if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
-                root_values.insert(parsed);
-            }
-        }
-        // TODO: Support all crazy Enumerations.
-        if root_values.is_empty() {
-            for (value, v) in e.root_values.iter().enumerate() {
-                base.named_root_values
-                    .push((v.name.clone(), value.try_into().unwrap()));
-                root_values.insert(value.try_into().unwrap());
+        let mut names = BTreeSet::new();
+        for item in e.root_values.iter().chain(&e.ext_values) {
+            if !names.insert(&item.name) {
+                return Err(resolve_error!(
+                    "'{}' is more than once in the ENUMERATED '{:#?}'",
+                    item.name,
+                    e
+                ));
             }
         }
 
-        let mut ext_values = BTreeSet::<i128>::new();
-        for v in &e.ext_values {
-            let named = &v.value;
-            if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
-                ext_values.insert(parsed);
-            }
+        // Root items without a number get the smallest ones not used by any other root item.
+        let root_values = Self::explicit_numbers(&e.root_values, resolver)?;
+        let mut used = BTreeSet::new();
+        for number in root_values.iter().flatten() {
+            Self::insert_number(*number, &mut used)?;
         }
-        // TODO: Support all crazy Enumerations.
-        if ext_values.is_empty() {
-            for (value, v) in e.ext_values.iter().enumerate() {
-                base.named_ext_values
-                    .push((v.name.clone(), value.try_into().unwrap()));
-                ext_values.insert(value.try_into().unwrap());
-            }
+        let mut next = 0;
+        let mut root_items = vec![];
+        for (item, number) in e.root_values.iter().zip(root_values) {
+            let number = number.unwrap_or_else(|| {
+                while !used.insert(next) {
+                    next += 1;
+                }
+                next
+            });
+            root_items.push((number, item.name.clone()));
         }
+        let _ = base.root_values.replace(used.clone());
 
-        // FIXME: Following is hard-coded
-        base.signed = false;
-        base.bits = 8;
+        // The value of an item is it's index, in the order of their numbers.
+        root_items.sort();
+        for (index, (_, name)) in root_items.into_iter().enumerate() {
+            base.named_root_values.push((name, index as i128));
+        }
+        base.bits = match base.named_root_values.len() {
+            0..=0x100 => 8,
+            0x101..=0x1_0000 => 16,
+            _ => return Err(resolve_error!("Too many items in the ENUMERATED!")),
+        };
 
-        let _ = base.root_values.replace(root_values);
+        // An addition without a number gets one that follows those of the additions before it.
+        let mut ext_values = BTreeSet::new();
+        let mut next = 0;
+        for (index, item) in e.ext_values.iter().enumerate() {
+            let explicit = Self::explicit_numbers(std::slice::from_ref(item), resolver)?[0];
+            let number = match explicit {
+                Some(number) => number,
+                None => {
+                    while used.contains(&next) {
+                        next += 1;
+                    }
+                    next
+                }
+            };
+            Self::insert_number(number, &mut used)?;
+            ext_values.insert(number);
+            next = std::cmp::max(next, number.saturating_add(1));
+            base.named_ext_values.push((item.name.clone(), index as i128));
+        }
         let _ = base.ext_values.replace(ext_values);
 
         Ok(base)
     }
+
+    fn explicit_numbers(
+        items: &[EnumValue],
+        resolver: &Resolver,
+    ) -> Result<Vec<Option<i128>>, Error> {
+        items
+            .iter()
+            .map(|item| match item.value {
+                None => Ok(None),
+                Some(NamedValue::Number(ref s)) => match s.parse::<i128>() {
+                    Ok(number) => Ok(Some(number)),
+                    Err(e) => Err(resolve_error!("'{}' in an ENUMERATED: {}", s, e)),
+                },
+                Some(NamedValue::ValueRef(ref r)) => resolver.get_integer_value(r).map(Some),
+            })
+            .collect()
+    }
+
+    fn insert_number(number: i128, used: &mut BTreeSet<i128>) -> Result<(), Error> {
+        if used.insert(number) {
+            Ok(())
+        } else {
+            Err(resolve_error!(
+                "Number {} is more than once in an ENUMERATED!",
+                number
+            ))
+        }
+    }
 }
-- 
2.43.0


From 47e69d0529a5be89f4a0c3a819991d7960e29e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:35 +0000
Subject: [PATCH 41/53] fix: report a CHOICE without alternatives and
 unsupported named bits instead of panicking

---
 asn-compiler/src/resolver/asn/types/base/bitstring.rs | 4 +++-
 asn-compiler/src/resolver/asn/types/constructed.rs    | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index 45f238d..a896582 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -26,7 +26,9 @@ impl Asn1ResolvedBitString {
             let mut named_values = HashMap::new();
             for nb in b.named_bits.as_ref().unwrap() {
                 if let NamedValue::Number(ref v) = nb.1 {
-                    let parsed = v.parse::<u8>().unwrap(); // Let it panic if it does not fit in u8.
+                    let parsed = v.parse::<u8>().map_err(|e| {
+                        resolve_error!("Bit '{}({})' is not supported: {}", nb.0, v, e)
+                    })?;
                     named_values.insert(nb.0.clone(), parsed);
                 }
             }
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index ebf433c..7f4583a 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -51,6 +51,10 @@ fn resolve_choice_type(
     choice: &Asn1TypeChoice,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
+    if choice.root_components.is_empty() {
+        return Err(resolve_error!("CHOICE without any root alternatives!"));
+    }
+
     let mut root_components = vec![];
     for c in &choice.root_components {
         let ty = resolve_type(&c.ty, resolver)?;
-- 
2.43.0


From 470ffef036b87e22b9911f0bd6c6e4fb03994e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 42/53] fix: keep the additions of a CHOICE in the order they
 are written

---
 .../src/parser/asn/types/constructed/choice.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 12a5166..3f1fe92 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -29,7 +29,6 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
 
     let mut root_components = vec![];
     let mut additions = vec![];
-    let mut no_ver_additions_components = vec![];
     let mut extension_markers = 0;
     loop {
         let start = consumed;
@@ -39,11 +38,13 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
         };
         if let Some(c) = component {
             // We have a component that needs to be added in the `additions` list and not in the
-            // `root_components`. All such components that are not part of `ChoiceAdditionGroup`
-            // (ie. one without `version`, are pulled into one `ChoiceAdditionGroup` with version
-            // as `None`. And are added separately.
+            // `root_components`. A component that is not part of a `ChoiceAdditionGroup` gets a
+            // group (without a `version`) of it's own, so that the additions are kept in order.
             if extension_markers > 0 {
-                no_ver_additions_components.push(c);
+                additions.push(ChoiceAdditionGroup {
+                    _version: None,
+                    components: vec![c],
+                });
             } else {
                 root_components.push(c);
             }
@@ -91,13 +92,6 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
     }
 
     let additions = if extension_markers > 0 {
-        if !no_ver_additions_components.is_empty() {
-            let new_addition = ChoiceAdditionGroup {
-                _version: None,
-                components: no_ver_additions_components,
-            };
-            additions.push(new_addition);
-        }
         Some(additions)
     } else {
         None
-- 
2.43.0


From bded31d5c32a1164a31eec5d7b0e593a75b84d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 43/53] fix: keep additions out of the root of a SEQUENCE and
 make components with DEFAULT optional

---
 .../src/parser/asn/structs/types/constructed.rs   |  3 ++-
 .../src/parser/asn/types/constructed/seq.rs       | 15 +++++++++++----
 .../src/resolver/asn/types/constructed.rs         |  7 ++++---
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/constructed.rs b/asn-compiler/src/parser/asn/structs/types/constructed.rs
index 2025bc3..7e66775 100644
--- a/asn-compiler/src/parser/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constructed.rs
@@ -19,7 +19,8 @@ impl Component {
 pub(crate) struct SeqComponent {
     pub(crate) component: Component,
     pub(crate) optional: bool,
-    pub(crate) _default: Option<String>, // FIXME: Should be Asn1Value later on
+    pub(crate) default: Option<String>, // FIXME: Should be Asn1Value later on
+    pub(crate) addition: bool, // Whether it is between the extension markers of the SEQUENCE
 }
 
 impl SeqComponent {
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index d797324..70add75 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -48,7 +48,8 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
             Ok(result) => result,
             Err(_) => (None, 0),
         };
-        if let Some(root_comp) = component {
+        if let Some(mut root_comp) = component {
+            root_comp.addition = ext_marker_found == 1;
             root_components.push(root_comp);
         }
         consumed += component_consumed;
@@ -74,6 +75,11 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
 
         if expect_token(&tokens[consumed..], Token::is_extension)? {
             ext_marker_found += 1;
+            if ext_marker_found > 2 {
+                return Err(parse_error!(
+                    "At most two Extension Markers are allowed in a 'SEQUENCE'!"
+                ));
+            }
             consumed += 1;
             if expect_token(&tokens[consumed..], Token::is_comma)? {
                 consumed += 1;
@@ -147,7 +153,7 @@ fn parse_seq_component(tokens: &[Token]) -> Result<(Option<SeqComponent>, usize)
             false
         };
 
-        let _default = if expect_keyword(&tokens[consumed..], "DEFAULT")? {
+        let default = if expect_keyword(&tokens[consumed..], "DEFAULT")? {
             consumed += 1;
             let (value, value_consumed) = parse_value(&tokens[consumed..])?;
             consumed += value_consumed;
@@ -156,7 +162,7 @@ fn parse_seq_component(tokens: &[Token]) -> Result<(Option<SeqComponent>, usize)
             None
         };
 
-        if _default.is_some() && optional {
+        if default.is_some() && optional {
             return Err(parse_error!(
                 "Both OPTIONAL and DEFAULT not allowed for a value!"
             ));
@@ -166,7 +172,8 @@ fn parse_seq_component(tokens: &[Token]) -> Result<(Option<SeqComponent>, usize)
             Some(SeqComponent {
                 component,
                 optional,
-                _default,
+                default,
+                addition: false,
             }),
             consumed,
         ))
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 7f4583a..5637ad2 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -96,8 +96,9 @@ fn resolve_sequence_type(
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
     let mut components = vec![];
-    // FIXME: implement for additional_components too
-    for c in &sequence.root_components {
+    // FIXME: implement for additions too. They are not part of the extension root, so when they are
+    // not known, they are skipped by the decoder.
+    for c in sequence.root_components.iter().filter(|c| !c.addition) {
         let ty = match resolve_type(&c.component.ty, resolver) {
             Ok(ty) => ty,
             Err(_e) => {
@@ -110,7 +111,7 @@ fn resolve_sequence_type(
         };
         let seq_component = ResolvedSeqComponent {
             component,
-            optional: c.optional,
+            optional: c.optional || c.default.is_some(),
             class_field_type: None,
             key_field: false,
         };
-- 
2.43.0


From aa4c3b4682ed9974a6bffa31e5ce478ade8e0d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 44/53] fix: components of CLASS fields follow their class,
 object set and OPTIONAL

Every component is resolved on it's own, so that others are not dropped and
errors are not hidden. The key is the component of the UNIQUE field limited to the
object set, the open type has a variant for every object (also those having
builtin types or numbers for identifiers), two objects cannot be identified by
the same value and an empty set no longer makes all the components disappear.
---
 .../generator/asn/types/constructed/seq.rs    |   2 +-
 asn-compiler/src/generator/asn/types/int.rs   |  17 +-
 .../src/parser/asn/types/constraints.rs       |   7 +-
 .../src/resolver/asn/structs/types/ioc.rs     |   1 +
 .../src/resolver/asn/types/constructed.rs     | 259 ++++++++++--------
 asn-compiler/src/resolver/asn/types/ioc.rs    | 118 ++++----
 6 files changed, 224 insertions(+), 180 deletions(-)

diff --git a/asn-compiler/src/generator/asn/types/constructed/seq.rs b/asn-compiler/src/generator/asn/types/constructed/seq.rs
index cc084c3..3890166 100644
--- a/asn-compiler/src/generator/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/seq.rs
@@ -45,7 +45,7 @@ impl ResolvedConstructedType {
                 let fld_tokens = if c.optional {
                     let idx: proc_macro2::TokenStream =
                         format!("{}", optional_fields).parse().unwrap();
-                    fld_attrs.push(quote! { optional_idx = #idx,  });
+                    fld_attrs.push(quote! { optional_idx = #idx });
 
                     optional_fields += 1;
 
diff --git a/asn-compiler/src/generator/asn/types/int.rs b/asn-compiler/src/generator/asn/types/int.rs
index 0158e5f..4829c60 100644
--- a/asn-compiler/src/generator/asn/types/int.rs
+++ b/asn-compiler/src/generator/asn/types/int.rs
@@ -71,7 +71,7 @@ impl ResolvedSetType {
         generator: &mut Generator,
     ) -> Result<TokenStream, Error> {
         let ty_ident = generator.to_type_ident(name);
-        let ty_elements = self.generate_aux_types(generator)?;
+        let ty_elements = self.generate_aux_types(name, generator)?;
 
         Ok(quote! {
             #[derive(Debug, AperCodec)]
@@ -91,7 +91,7 @@ impl ResolvedSetType {
             None => generator.to_type_ident(&self.setref),
             Some(ref inp) => generator.to_type_ident(inp),
         };
-        let ty_elements = self.generate_aux_types(generator)?;
+        let ty_elements = self.generate_aux_types(&ty_ident.to_string(), generator)?;
 
         let set_ty = quote! {
             #[derive(Debug, AperCodec)]
@@ -106,11 +106,20 @@ impl ResolvedSetType {
         Ok(ty_ident)
     }
 
-    fn generate_aux_types(&self, generator: &mut Generator) -> Result<TokenStream, Error> {
+    fn generate_aux_types(
+        &self,
+        set_name: &str,
+        generator: &mut Generator,
+    ) -> Result<TokenStream, Error> {
         let mut variant_tokens = TokenStream::new();
         for (name, ty) in &self.types {
             let variant_ident = generator.to_type_ident(&name.0);
-            let ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(&ty.1, generator, None)?;
+            let input_type_name = format!("{}_{}", set_name, variant_ident);
+            let ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(
+                &ty.1,
+                generator,
+                Some(&input_type_name),
+            )?;
             let key: proc_macro2::TokenStream = ty.0.to_string().parse().unwrap();
             let key_tokens = quote! {
                 #[asn(key = #key)]
diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index cac1f27..813d1ce 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -28,10 +28,11 @@ pub(super) fn parse_constraints(tokens: &[Token]) -> Result<(Vec<Asn1Constraint>
 }
 
 pub(crate) fn parse_constraint(tokens: &[Token]) -> Result<(Asn1Constraint, usize), Error> {
-    if let Ok(subtype) = parse_subtype_constraint(tokens) {
-        Ok(subtype)
-    } else if let Ok(table) = parse_table_constraint(tokens) {
+    // '({Set})' can be parsed as a single value as well.
+    if let Ok(table) = parse_table_constraint(tokens) {
         Ok(table)
+    } else if let Ok(subtype) = parse_subtype_constraint(tokens) {
+        Ok(subtype)
     } else if let Ok(containing) = parse_contents_constraint(tokens) {
         Ok(containing)
     } else {
diff --git a/asn-compiler/src/resolver/asn/structs/types/ioc.rs b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
index 971756c..41725aa 100644
--- a/asn-compiler/src/resolver/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
@@ -22,6 +22,7 @@ pub(crate) struct Asn1ResolvedObject {
 
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ResolvedObjectSet {
+    pub(crate) class: String,
     pub(crate) objects: ResolvedObjectSet,
 }
 
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 5637ad2..db94eab 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -3,7 +3,9 @@ use std::collections::BTreeMap;
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf, Component, SeqComponent},
+    constraints::Asn1Constraint,
+    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf, Component},
+    ioc::{Asn1ObjectClass, ObjectClassFieldSpec},
     Asn1ConstructedType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
 
@@ -99,11 +101,11 @@ fn resolve_sequence_type(
     // FIXME: implement for additions too. They are not part of the extension root, so when they are
     // not known, they are skipped by the decoder.
     for c in sequence.root_components.iter().filter(|c| !c.addition) {
-        let ty = match resolve_type(&c.component.ty, resolver) {
-            Ok(ty) => ty,
-            Err(_e) => {
-                return resolve_sequence_classfield_components(sequence, resolver);
+        let (ty, class_field_type, key_field) = match c.component.ty.kind {
+            Asn1TypeKind::Reference(Asn1TypeReference::ClassField { .. }) => {
+                resolve_class_field_component(&c.component, sequence, resolver)?
             }
+            _ => (resolve_type(&c.component.ty, resolver)?, None, false),
         };
         let component = ResolvedComponent {
             id: c.component.id.clone(),
@@ -112,8 +114,8 @@ fn resolve_sequence_type(
         let seq_component = ResolvedSeqComponent {
             component,
             optional: c.optional || c.default.is_some(),
-            class_field_type: None,
-            key_field: false,
+            class_field_type,
+            key_field,
         };
         components.push(seq_component);
     }
@@ -148,118 +150,125 @@ fn resolve_sequence_of_type(
     ))
 }
 
-fn resolve_sequence_classfield_components(
-    seq: &Asn1TypeSequence,
+// Resolves a component having a type like `CLASS.&field`
+//
+// A Fixed Type Value Field is just a component of that Type. If it is the field that identifies the
+// objects of the class and if it is limited to an Object Set (`({Set})`), it's value is the `key`
+// telling the type of the components for the Type fields (`({Set}{@key})`).
+fn resolve_class_field_component(
+    component: &Component,
+    sequence: &Asn1TypeSequence,
     resolver: &mut Resolver,
-) -> Result<Asn1ResolvedType, Error> {
-    let mut all_components = vec![];
-    all_components.extend(seq.root_components.clone());
-    all_components.extend(
-        seq.additions
-            .clone()
-            .iter()
-            .map(|a| a.components.clone())
-            .flatten()
-            .collect::<Vec<SeqComponent>>(),
-    );
-    let all_components = all_components
-        .iter()
-        .map(|c| c.component.clone())
-        .collect::<Vec<Component>>();
-
-    if all_components.is_empty() {
-        // It's an Error to try to resolve Empty components with Class Field Ref
-        return Err(resolve_error!("Expected Sequence with at-least one ClassField Reference Component!. Found Empty Sequences"));
-    }
-
-    // Get the Object Set first It's the Same Object Set for all components. So if we get the first
-    // one that's good enough!
-    let ty = &all_components[0].ty;
-    let constraint = &ty.constraints.as_ref().unwrap()[0];
+) -> Result<(Asn1ResolvedType, Option<ClassFieldComponentType>, bool), Error> {
+    let (classref, fieldref) = get_class_field(&component.ty).ok_or_else(|| {
+        resolve_error!("Component '{}' is not of a CLASS field.", component.id)
+    })?;
+    let class = get_class(classref, resolver)?;
+    match class.fields.get(fieldref) {
+        Some(ObjectClassFieldSpec::FixedTypeValue { field_type, .. }) => {
+            let ty = resolve_type(field_type, resolver)?;
+            let key_field = is_key_component(component, &class);
+            Ok((
+                ty,
+                Some(ClassFieldComponentType::FixedTypeValue),
+                key_field,
+            ))
+        }
+        Some(ObjectClassFieldSpec::Type { .. }) => {
+            let constraint = get_table_constraint(&component.ty).ok_or_else(|| {
+                resolve_error!(
+                    "Component '{}' of a Type Field without an Object Set not supported!",
+                    component.id
+                )
+            })?;
+            let setref = constraint.get_set_reference()?;
 
-    let set_reference = constraint.get_set_reference()?;
+            let types = match resolver.resolved_defs.get(&setref) {
+                Some(Asn1ResolvedDefinition::ObjectSet(ref set)) if &set.class == classref => {
+                    get_seq_component_for_object_set(fieldref, &set.objects)?
+                }
+                _ => {
+                    return Err(resolve_error!(
+                        "'{}' is not a resolved Object Set of the Class '{}'!",
+                        setref,
+                        classref
+                    ))
+                }
+            };
+            // The key should be decoded before.
+            let key_component = constraint.get_comp_reference();
+            let mut key_found = false;
+            for c in sequence.root_components.iter().filter(|c| !c.addition) {
+                if c.component.id == component.id {
+                    break;
+                }
+                if Some(&c.component.id) == key_component.as_ref() {
+                    key_found = match get_table_constraint(&c.component.ty) {
+                        Some(key_constraint) => {
+                            get_class_field(&c.component.ty).map(|f| f.0) == Some(classref)
+                                && is_key_component(&c.component, &class)
+                                && key_constraint.get_set_reference()? == setref
+                        }
+                        None => false,
+                    };
+                }
+            }
+            if !key_found && !types.is_empty() {
+                return Err(resolve_error!(
+                    "No earlier component identifies the Type of the component '{}' in '{}'.",
+                    component.id,
+                    setref
+                ));
+            }
 
-    let objects = resolver.resolved_defs.get(&set_reference);
-    if objects.is_none() {
-        return Err(resolve_error!(
-            "Object Set '{}' not resolved yet!",
-            set_reference
-        ));
+            Ok((
+                Asn1ResolvedType::Set(ResolvedSetType { setref, types }),
+                Some(ClassFieldComponentType::Type),
+                false,
+            ))
+        }
+        None => Err(resolve_error!(
+            "There is no field '{}' in the Class '{}'!",
+            fieldref,
+            classref
+        )),
     }
-    if let Some(Asn1ResolvedDefinition::ObjectSet(ref set)) = objects {
-        let objects = &set.objects;
-        let components =
-            resolve_seq_components_for_objects(&all_components, &set_reference, objects)?;
-        Ok(Asn1ResolvedType::Constructed(
-            ResolvedConstructedType::Sequence {
-                name: None,
-                extensible: seq.extensible,
-                components,
-            },
-        ))
-    } else {
-        return Err(resolve_error!(
-            "Object Set '{}' not resolved yet!",
-            set_reference
-        ));
+}
+
+fn get_class(classref: &str, resolver: &Resolver) -> Result<Asn1ObjectClass, Error> {
+    let class = resolver.classes.get(classref);
+    match class.and_then(|c| c.get_inner_class()) {
+        Some(class) => Ok(class.classref),
+        None => Err(resolve_error!("Class '{}' not found!", classref)),
     }
 }
 
-fn resolve_seq_components_for_objects(
-    input_components: &[Component],
-    set_reference: &str,
-    objects: &ResolvedObjectSet,
-) -> Result<Vec<ResolvedSeqComponent>, Error> {
-    if objects.elements.is_empty() {
-        return Ok(vec![]);
+fn get_class_field(ty: &Asn1Type) -> Option<(&String, &String)> {
+    match ty.kind {
+        Asn1TypeKind::Reference(Asn1TypeReference::ClassField {
+            ref classref,
+            ref fieldref,
+        }) => Some((classref, fieldref)),
+        _ => None,
     }
-    let first = &objects.elements[0];
-    let mut result = vec![];
-    for component in input_components {
-        if let Asn1TypeKind::Reference(Asn1TypeReference::ClassField { fieldref, .. }) =
-            &component.ty.kind
-        {
-            if let ResolvedObjectSetElement::Object(ref o) = first {
-                let spec = o.fields.get(fieldref);
-                if let Some(ResolvedFieldSpec::FixedTypeValue { typeref, .. }) = spec {
-                    let constraint = &component.ty.constraints.as_ref().unwrap()[0];
-                    let comp_spec = constraint.get_comp_reference();
-                    let component = ResolvedComponent {
-                        id: component.id.clone(),
-                        ty: typeref.clone(),
-                    };
-                    let seq_component = ResolvedSeqComponent {
-                        component,
-                        optional: false, // FIXME:
-                        class_field_type: Some(ClassFieldComponentType::FixedTypeValue),
-                        key_field: comp_spec.is_none(),
-                    };
-                    result.push(seq_component);
-                } else {
-                    let types = get_seq_component_for_object_set(fieldref, objects)?;
-                    let ty = ResolvedSetType {
-                        setref: set_reference.to_string(),
-                        types,
-                    };
-                    let component = ResolvedComponent {
-                        id: component.id.clone(),
-                        ty: Asn1ResolvedType::Set(ty),
-                    };
-                    let seq_component = ResolvedSeqComponent {
-                        component,
-                        optional: false, // FIXME:
-                        class_field_type: Some(ClassFieldComponentType::Type),
-                        key_field: false,
-                    };
-                    result.push(seq_component);
-                }
-            }
+}
+
+fn get_table_constraint(ty: &Asn1Type) -> Option<&Asn1Constraint> {
+    let mut constraints = ty.constraints.iter().flatten();
+    constraints.find(|c| matches!(c, Asn1Constraint::Table(..)))
+}
+
+fn is_key_component(component: &Component, class: &Asn1ObjectClass) -> bool {
+    match (
+        get_class_field(&component.ty),
+        get_table_constraint(&component.ty),
+    ) {
+        (Some((_, fieldref)), Some(constraint)) => {
+            constraint.get_comp_reference().is_none()
+                && class.get_first_unique_field_id().as_ref() == Some(fieldref)
         }
+        _ => false,
     }
-    // Only add to the result if Every Component in the Input is also found in the Object. This
-    // is mainly true for optional components. If Optional Components are missing, They should
-    // not be part of the generated Set.
-    Ok(result)
 }
 
 fn get_seq_component_for_object_set(
@@ -268,17 +277,29 @@ fn get_seq_component_for_object_set(
 ) -> Result<ResolvedSetTypeMap, Error> {
     let mut types = BTreeMap::new();
     for (key, object) in &objects.lookup_table {
-        if let ResolvedObjectSetElement::Object(ref o) = object {
-            let field_ob = o.fields.get(fieldref);
-            if let Some(ResolvedFieldSpec::Type { ty }) = field_ob {
-                if let Some(Asn1ResolvedType::Reference(ref _tyid)) = ty {
-                    types.insert(
-                        (key.1.clone(), key.0.clone()),
-                        (key.0.clone(), ty.as_ref().unwrap().clone()),
-                    );
-                }
-            }
+        if let Some(ty) = get_object_type(object, fieldref) {
+            types.insert((key.1.clone(), key.0.clone()), (key.0.clone(), ty.clone()));
         }
     }
+    let mut elements = objects.elements.iter();
+    if types.is_empty() && elements.any(|o| get_object_type(o, fieldref).is_some()) {
+        return Err(resolve_error!(
+            "Object Set of a CLASS without a UNIQUE field not supported for '{}'!",
+            fieldref
+        ));
+    }
     Ok(types)
 }
+
+fn get_object_type<'o>(
+    object: &'o ResolvedObjectSetElement,
+    fieldref: &str,
+) -> Option<&'o Asn1ResolvedType> {
+    match object {
+        ResolvedObjectSetElement::Object(ref o) => match o.fields.get(fieldref) {
+            Some(ResolvedFieldSpec::Type { ty }) => ty.as_ref(),
+            _ => None,
+        },
+        _ => None,
+    }
+}
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 85f064a..ad2ef5f 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -11,9 +11,12 @@ use crate::resolver::{
     asn::{
         structs::{
             defs::Asn1ResolvedDefinition,
-            types::ioc::{
-                Asn1ResolvedObject, Asn1ResolvedObjectSet, ResolvedFieldSpec, ResolvedObjectSet,
-                ResolvedObjectSetElement,
+            types::{
+                ioc::{
+                    Asn1ResolvedObject, Asn1ResolvedObjectSet, ResolvedFieldSpec,
+                    ResolvedObjectSet, ResolvedObjectSetElement,
+                },
+                Asn1ResolvedType,
             },
             values::Asn1ResolvedValue,
         },
@@ -45,12 +48,10 @@ pub(crate) fn resolve_object_set(
             } else {
                 "".to_string()
             };
-            let mut lookup_table = BTreeMap::new();
 
             let mut elements = vec![];
             let mut input_elements = objectset.objects.root_elements.clone();
             input_elements.extend(objectset.objects.additional_elements.clone());
-            let mut decoder_ty = None;
             for (i, object) in input_elements.iter().enumerate() {
                 match object {
                     ObjectSetElement::ObjectSetReference(ref r) => {
@@ -65,9 +66,7 @@ pub(crate) fn resolve_object_set(
                             }
                             Some(res) => {
                                 if let Asn1ResolvedDefinition::ObjectSet(ref o) = res {
-                                    decoder_ty = o.objects.decoder_ty.clone();
                                     elements.extend(o.objects.elements.clone());
-                                    lookup_table.extend(o.objects.lookup_table.clone());
                                 } else {
                                     return Err(resolve_error!(
                                         "Resolved '{}' is not an Object Set!",
@@ -89,35 +88,12 @@ pub(crate) fn resolve_object_set(
                             }
                             Some(res) => {
                                 if let Asn1ResolvedDefinition::Object(ref o) = res {
-                                    let element =
-                                        ResolvedObjectSetElement::Object(Asn1ResolvedObject {
+                                    elements.push(ResolvedObjectSetElement::Object(
+                                        Asn1ResolvedObject {
                                             name: r.clone(),
                                             fields: o.fields.clone(),
-                                        });
-                                    elements.push(element.clone());
-                                    if !unique_field.is_empty() {
-                                        if let ResolvedObjectSetElement::Object(ref o) = element {
-                                            let field = o.fields.get(&unique_field);
-                                            if let ResolvedFieldSpec::FixedTypeValue {
-                                                value,
-                                                typeref,
-                                            } = field.unwrap()
-                                            {
-                                                decoder_ty.replace(typeref.clone());
-                                                let value = value.as_ref().unwrap();
-                                                if let Asn1ResolvedValue::Reference(ref s) = value {
-                                                    // Get the actual Value - Usually this value is an
-                                                    // Integer Value. This Value is to be used by the
-                                                    // decoder.
-                                                    let v = resolver.get_integer_value(s)?;
-                                                    lookup_table.insert(
-                                                        (format!("{}", v), s.clone()),
-                                                        element,
-                                                    );
-                                                }
-                                            }
-                                        }
-                                    }
+                                        },
+                                    ));
                                 } else {
                                     return Err(resolve_error!(
                                         "Resolved '{}' is not an Object!",
@@ -129,35 +105,44 @@ pub(crate) fn resolve_object_set(
                     }
                     ObjectSetElement::Object(ref v) => {
                         let object_name = format!("{}{}", name, i);
-                        let element = ResolvedObjectSetElement::Object(resolve_object(
+                        elements.push(ResolvedObjectSetElement::Object(resolve_object(
                             &object_name,
                             v,
                             resolver,
-                        )?);
-                        elements.push(element.clone());
-                        if !unique_field.is_empty() {
-                            if let ResolvedObjectSetElement::Object(ref o) = element {
-                                let field = o.fields.get(&unique_field);
-                                if let ResolvedFieldSpec::FixedTypeValue { value, typeref } =
-                                    field.unwrap()
-                                {
-                                    decoder_ty.replace(typeref.clone());
-                                    let value = value.as_ref().unwrap();
-                                    if let Asn1ResolvedValue::Reference(ref s) = value {
-                                        // Get the actual Value - Usually this value is an
-                                        // Integer Value. This Value is to be used by the
-                                        // decoder.
-                                        let v = resolver.get_integer_value(s)?;
-                                        lookup_table.insert((format!("{}", v), s.clone()), element);
-                                    }
-                                }
+                        )?));
+                    }
+                }
+            }
+
+            let mut lookup_table = BTreeMap::new();
+            let mut decoder_ty = None;
+            if !unique_field.is_empty() {
+                let mut found: BTreeMap<String, String> = BTreeMap::new();
+                for element in &elements {
+                    if let ResolvedObjectSetElement::Object(ref o) = element {
+                        let (typeref, key) = get_object_key(o, &unique_field, resolver)?;
+                        decoder_ty = Some(typeref);
+
+                        // The same object may be there more than once (from an included set), but
+                        // two of them cannot be identified by the same value.
+                        let fields = format!("{:?}", o.fields);
+                        match found.insert(key.0.clone(), fields.clone()) {
+                            Some(other) if other != fields => {
+                                return Err(resolve_error!(
+                                    "More than one Object identified by '{}' in the Object Set '{}'!",
+                                    key.0,
+                                    name
+                                ));
                             }
+                            _ => {}
                         }
+                        lookup_table.insert(key, element.clone());
                     }
                 }
             }
 
             Ok(Asn1ResolvedObjectSet {
+                class: objectset.class.clone(),
                 objects: ResolvedObjectSet {
                     decoder_ty,
                     elements,
@@ -168,6 +153,33 @@ pub(crate) fn resolve_object_set(
     }
 }
 
+// Returns the type of the field that identifies the object and the key for the lookup: It's actual
+// INTEGER value - to be used by the decoder - and a name for it.
+fn get_object_key(
+    object: &Asn1ResolvedObject,
+    unique_field: &str,
+    resolver: &Resolver,
+) -> Result<(Asn1ResolvedType, (String, String)), Error> {
+    match object.fields.get(unique_field) {
+        Some(ResolvedFieldSpec::FixedTypeValue {
+            typeref,
+            value: Some(value),
+        }) => {
+            let v = resolver.get_base_integer_value(value)?;
+            let name = match value {
+                Asn1ResolvedValue::Reference(ref s) => s.clone(),
+                _ => format!("Value {}", v),
+            };
+            Ok((typeref.clone(), (format!("{}", v), name)))
+        }
+        _ => Err(resolve_error!(
+            "The Object '{}' does not have a value for '{}'!",
+            object.name,
+            unique_field
+        )),
+    }
+}
+
 pub(crate) fn resolve_object(
     object_name: &str,
     object_value: &Asn1ObjectValue,
-- 
2.43.0


From 9ac450b34df27424044729e0ff50c8ce36fb1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:11 +0000
Subject: [PATCH 45/53] fix: report objects and object sets that do not follow
 their class

Parse every token of an object (fields may come in any order of words), report
missing mandatory values, classes that do not match and ambiguous syntax.
---
 .../src/parser/asn/structs/types/ioc.rs       |   9 +-
 asn-compiler/src/parser/asn/types/ioc.rs      | 119 +++++++++++-------
 asn-compiler/src/resolver/asn/defs.rs         |   7 +-
 .../src/resolver/asn/structs/types/ioc.rs     |   1 +
 .../src/resolver/asn/types/constructed.rs     |  12 +-
 asn-compiler/src/resolver/asn/types/ioc.rs    |  24 ++++
 6 files changed, 114 insertions(+), 58 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 180d15c..6260e73 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -38,7 +38,7 @@ impl ObjectClassFieldSpec {
         }
     }
 
-    fn with_syntax(&self) -> Option<String> {
+    pub(crate) fn with_syntax(&self) -> Option<String> {
         match self {
             Self::Type { with_syntax, .. } | Self::FixedTypeValue { with_syntax, .. } => {
                 with_syntax.clone()
@@ -74,13 +74,6 @@ impl Asn1ObjectClass {
         }
         None
     }
-
-    pub(crate) fn get_with_syntax_words(&self) -> Vec<String> {
-        self.fields
-            .values()
-            .filter_map(|v| v.with_syntax())
-            .collect::<Vec<String>>()
-    }
 }
 
 #[derive(Debug, Clone)]
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index 6c8cab4..c7e9b1d 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -233,6 +233,9 @@ fn parse_with_syntax_for_fields(
             if words.iter().any(Token::is_with_syntax_reserved_word) {
                 return Err(parse_error!("Found a WITH SYNTAX RESERVED Word!"));
             }
+            if !words.iter().all(|w| w.text.chars().all(|c| c == '-' || c.is_alphabetic())) {
+                return Err(parse_error!("Only WORDs are supported in WITH SYNTAX!"));
+            }
             let words = words
                 .iter()
                 .map(|w| w.text.as_str())
@@ -243,6 +246,16 @@ fn parse_with_syntax_for_fields(
                 return Err(unexpected_token!("'CLASS field'", tokens[consumed]));
             }
 
+            if let Some(other) = fields.values().find(|f| f.with_syntax().as_ref() == Some(&words))
+            {
+                return Err(parse_error!(
+                    "'{}' stands for more than one field of the Class: '{}' and '{}'",
+                    words,
+                    other.id(),
+                    tokens[consumed].text
+                ));
+            }
+
             let field = fields.get_mut(&tokens[consumed].text);
             if field.is_none() {
                 return Err(parse_error!(
@@ -258,6 +271,12 @@ fn parse_with_syntax_for_fields(
                 ObjectClassFieldSpec::Type { default, .. } => default.is_none(),
                 ObjectClassFieldSpec::FixedTypeValue { default, .. } => default.is_none(),
             };
+            if field.with_syntax().is_some() {
+                return Err(parse_error!(
+                    "'{}' is in WITH SYNTAX more than once!",
+                    field.id()
+                ));
+            }
             match field {
                 ObjectClassFieldSpec::Type {
                     with_syntax,
@@ -445,46 +464,44 @@ pub(crate) fn parse_object_from_class(
 ) -> Result<Asn1ObjectValue, Error> {
     let reader = std::io::BufReader::new(std::io::Cursor::new(value));
     let tokens = tokenize(reader)?;
+    let object_tokens = match tokens.as_slice() {
+        [first, inner @ .., last] if first.is_curly_begin() && last.is_curly_end() => inner,
+        _ => return Err(parse_error!("'{}' is not an Object!", value)),
+    };
+
     let mut consumed = 0;
-    let object_tokens = &tokens[1..tokens.len() - 1];
-
-    // We are splitting the tokens by words from WITH SYNTAX. This will use any word that's not
-    // there in WITH SYNTAX. This is a bit complicated because we've to also worry about WITH
-    // SYNTAX words that can be more than a single WORD.
-    let word_tokens = &mut object_tokens.split(|t| {
-        !class
-            .get_with_syntax_words()
-            .iter()
-            .any(|f| f.split_whitespace().any(|w| t.text == w))
-    });
     let mut fields = BTreeMap::new();
-    for words in word_tokens {
-        consumed += words.len();
-        let words = words
-            .iter()
-            .map(|t| t.text.clone())
-            .collect::<Vec<String>>()
-            .join(" ");
-        let field_spec = class_fieldspec_from_words(class, &words);
-        if let Some(fspec) = field_spec {
-            let (field_spec_value, field_spec_value_consumed) =
-                value_from_field_spec(fspec, &object_tokens[consumed..])?;
-            fields.insert(fspec.id(), field_spec_value);
-            consumed += field_spec_value_consumed;
-
-            // Required to handle &Type IDENTIFIED BY &id
-            if consumed == object_tokens.len() {
-                break;
-            }
+    while consumed < object_tokens.len() {
+        // Sometimes you may see a comma after the Class Field, just consume it.
+        if expect_token(&object_tokens[consumed..], Token::is_comma)? {
+            consumed += 1;
+            continue;
         }
+
+        let (fspec, words_consumed) = match class_fieldspec_from_words(
+            class,
+            &fields,
+            &object_tokens[consumed..],
+        ) {
+            Some(result) => result,
+            None => return Err(unexpected_token!("'WORD'", object_tokens[consumed])),
+        };
+        consumed += words_consumed;
+
+        let (field_spec_value, field_spec_value_consumed) =
+            value_from_field_spec(fspec, &object_tokens[consumed..])?;
+        fields.insert(fspec.id(), field_spec_value);
+        consumed += field_spec_value_consumed;
     }
 
-    // If we didn't find an optional value, Check if default exists, if default exists, give it to
-    // the resolved value.
+    // If we didn't find a value, Check if default exists, if default exists, give it to the resolved
+    // value.
     for (key, spec) in class.fields.iter() {
         if !fields.contains_key(key) {
             match spec {
-                ObjectClassFieldSpec::Type { default, .. } => {
+                ObjectClassFieldSpec::Type {
+                    default, optional, ..
+                } => {
                     if default.is_some() {
                         fields.insert(
                             key.clone(),
@@ -492,11 +509,14 @@ pub(crate) fn parse_object_from_class(
                                 ty: default.clone(),
                             },
                         );
+                    } else if !optional {
+                        return Err(parse_error!("'{}' not found in '{}'", key, value));
                     }
                 }
                 ObjectClassFieldSpec::FixedTypeValue {
                     default,
                     field_type,
+                    optional,
                     ..
                 } => {
                     if default.is_some() {
@@ -507,34 +527,39 @@ pub(crate) fn parse_object_from_class(
                                 value: default.clone(),
                             },
                         );
+                    } else if !optional {
+                        return Err(parse_error!("'{}' not found in '{}'", key, value));
                     }
                 }
             }
         }
     }
-    // TODO : Handle Default ones that are notyet processed.
     Ok(Asn1ObjectValue::Asn1ObjectFromClass { fields })
 }
 
+// Returns the field the tokens are about (and the number of tokens for it's words).
+//
+// That's the field having the longest sequence of words, which is it's name if there is no
+// `WITH SYNTAX` for it. There may be no words at all. Every field has only one value.
 fn class_fieldspec_from_words<'c>(
     class: &'c Asn1ObjectClass,
-    words: &str,
-) -> Option<&'c ObjectClassFieldSpec> {
+    found: &BTreeMap<String, Asn1ObjectFieldSpec>,
+    tokens: &[Token],
+) -> Option<(&'c ObjectClassFieldSpec, usize)> {
+    let mut matched: Option<(&ObjectClassFieldSpec, usize)> = None;
     for field in class.fields.values() {
-        match field {
-            ObjectClassFieldSpec::Type { with_syntax, .. }
-            | ObjectClassFieldSpec::FixedTypeValue { with_syntax, .. } => {
-                if with_syntax.is_none() {
-                    continue;
-                }
-                let with_syntax = with_syntax.as_ref().unwrap();
-                if with_syntax == words {
-                    return Some(field);
-                }
-            }
+        if found.contains_key(&field.id()) {
+            continue;
+        }
+        let words = field.with_syntax().unwrap_or_else(|| field.id());
+        let words = words.split_whitespace().collect::<Vec<&str>>();
+        let begins = words.len() < tokens.len()
+            && words.iter().zip(tokens).all(|(word, t)| &t.text == word);
+        if begins && matched.map_or(true, |(_, longest)| longest < words.len()) {
+            matched = Some((field, words.len()));
         }
     }
-    None
+    matched
 }
 
 fn value_from_field_spec(
diff --git a/asn-compiler/src/resolver/asn/defs.rs b/asn-compiler/src/resolver/asn/defs.rs
index 2b43290..d5476d3 100644
--- a/asn-compiler/src/resolver/asn/defs.rs
+++ b/asn-compiler/src/resolver/asn/defs.rs
@@ -62,6 +62,11 @@ fn resolve_object_definition(
     object: &Asn1ObjectAssignment,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedDefinition, Error> {
-    let object = resolve_object(&object.id, &object.object.value, resolver)?;
+    let object = resolve_object(
+        &object.id,
+        &object.object.class,
+        &object.object.value,
+        resolver,
+    )?;
     Ok(Asn1ResolvedDefinition::Object(object))
 }
diff --git a/asn-compiler/src/resolver/asn/structs/types/ioc.rs b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
index 41725aa..e4ab501 100644
--- a/asn-compiler/src/resolver/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
@@ -16,6 +16,7 @@ pub(crate) enum ResolvedFieldSpec {
 
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ResolvedObject {
+    pub(crate) class: String,
     pub(crate) name: String,
     pub(crate) fields: BTreeMap<String, ResolvedFieldSpec>,
 }
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index db94eab..2a15ebe 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -195,14 +195,22 @@ fn resolve_class_field_component(
                     ))
                 }
             };
-            // The key should be decoded before.
+            // The key should be the last one decoded before.
             let key_component = constraint.get_comp_reference();
             let mut key_found = false;
             for c in sequence.root_components.iter().filter(|c| !c.addition) {
                 if c.component.id == component.id {
                     break;
                 }
-                if Some(&c.component.id) == key_component.as_ref() {
+                if Some(&c.component.id) != key_component.as_ref() {
+                    let is_key = match get_class_field(&c.component.ty) {
+                        Some((other, _)) => {
+                            is_key_component(&c.component, &get_class(other, resolver)?)
+                        }
+                        None => false,
+                    };
+                    key_found = key_found && !is_key;
+                } else {
                     key_found = match get_table_constraint(&c.component.ty) {
                         Some(key_constraint) => {
                             get_class_field(&c.component.ty).map(|f| f.0) == Some(classref)
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index ad2ef5f..4cee127 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -66,6 +66,13 @@ pub(crate) fn resolve_object_set(
                             }
                             Some(res) => {
                                 if let Asn1ResolvedDefinition::ObjectSet(ref o) = res {
+                                    if o.class != objectset.class {
+                                        return Err(resolve_error!(
+                                            "'{}' is not an Object Set of the Class '{}'!",
+                                            r,
+                                            objectset.class
+                                        ));
+                                    }
                                     elements.extend(o.objects.elements.clone());
                                 } else {
                                     return Err(resolve_error!(
@@ -88,8 +95,16 @@ pub(crate) fn resolve_object_set(
                             }
                             Some(res) => {
                                 if let Asn1ResolvedDefinition::Object(ref o) = res {
+                                    if o.class != objectset.class {
+                                        return Err(resolve_error!(
+                                            "'{}' is not an Object of the Class '{}'!",
+                                            r,
+                                            objectset.class
+                                        ));
+                                    }
                                     elements.push(ResolvedObjectSetElement::Object(
                                         Asn1ResolvedObject {
+                                            class: o.class.clone(),
                                             name: r.clone(),
                                             fields: o.fields.clone(),
                                         },
@@ -107,6 +122,7 @@ pub(crate) fn resolve_object_set(
                         let object_name = format!("{}{}", name, i);
                         elements.push(ResolvedObjectSetElement::Object(resolve_object(
                             &object_name,
+                            &objectset.class,
                             v,
                             resolver,
                         )?));
@@ -166,6 +182,12 @@ fn get_object_key(
             value: Some(value),
         }) => {
             let v = resolver.get_base_integer_value(value)?;
+            if v < 0 {
+                return Err(resolve_error!(
+                    "The Object '{}' is identified by a negative value. Not supported!",
+                    object.name
+                ));
+            }
             let name = match value {
                 Asn1ResolvedValue::Reference(ref s) => s.clone(),
                 _ => format!("Value {}", v),
@@ -182,6 +204,7 @@ fn get_object_key(
 
 pub(crate) fn resolve_object(
     object_name: &str,
+    class: &str,
     object_value: &Asn1ObjectValue,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedObject, Error> {
@@ -218,6 +241,7 @@ pub(crate) fn resolve_object(
             resolved_fields.insert(k.clone(), resolved);
         }
         Ok(Asn1ResolvedObject {
+            class: class.to_string(),
             name: object_name.to_string(),
             fields: resolved_fields,
         })
-- 
2.43.0


From 6fbb86dd663be09557a681ee05bcc418fe8251cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 46/53] fix: replace all the params of a type at once and only
 where they are references

---
 asn-compiler/src/parser/asn/defs.rs | 67 +++++++++++++++++++++++++----
 1 file changed, 59 insertions(+), 8 deletions(-)

diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 5e5fc21..353d3d4 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -72,20 +72,71 @@ impl Asn1Definition {
             ));
         }
 
-        for (idx, actual) in actual_params.iter().enumerate() {
-            let replace = actual.param_string();
-            let source = &params.ordered[idx].dummyref.name;
+        for (idx, p) in params.ordered.iter().enumerate() {
+            let mut others = params.ordered[..idx].iter();
+            if others.any(|o| o.dummyref.name == p.dummyref.name) {
+                return Err(parse_error!(
+                    "apply_params: Param '{}' is there more than once!",
+                    p.dummyref.name
+                ));
+            }
+        }
 
-            for token in params.type_tokens.iter_mut() {
-                if &token.text == source {
-                    token.text = replace.clone()
-                }
+        // Every token is replaced only once: an Actual Param may have the name of another Param.
+        let names = component_names(&params.type_tokens);
+        for (idx, token) in params.type_tokens.iter_mut().enumerate() {
+            if names.contains(&idx) {
+                continue;
+            }
+            let mut ordered = params.ordered.iter().zip(actual_params);
+            if let Some((_, actual)) = ordered.find(|(p, _)| p.dummyref.name == token.text) {
+                token.text = actual.param_string();
             }
         }
-        let (ty, _) = parse_type(&params.type_tokens)?;
+        let (ty, consumed) = parse_type(&params.type_tokens)?;
+        if consumed != params.type_tokens.len() {
+            return Err(unexpected_token!(
+                "End of the Type",
+                params.type_tokens[consumed]
+            ));
+        }
         Ok(ty)
     }
 }
+
+// Returns the indices of the tokens that are names of components, alternatives or items.
+//
+// They are not references, so they don't stand for a Param having the same name.
+fn component_names(tokens: &[Token]) -> Vec<usize> {
+    let mut names = vec![];
+    let mut named = vec![]; // Whether what's inside the brackets is named, for all open ones.
+    for (idx, token) in tokens.iter().enumerate() {
+        let first = match tokens[..idx].last() {
+            Some(t) => {
+                t.is_curly_begin()
+                    || t.is_comma()
+                    || t.is_addition_groups_begin()
+                    || t.is_colon()
+            }
+            None => false,
+        };
+        if token.is_curly_begin() || token.is_round_begin() {
+            let keyword = tokens[..idx].last();
+            named.push(keyword.map_or(false, |t| {
+                token.is_curly_begin()
+                    && ["SEQUENCE", "CHOICE", "ENUMERATED"]
+                        .iter()
+                        .any(|k| t.is_given_keyword(k))
+            }));
+        } else if token.is_curly_end() || token.is_round_end() {
+            named.pop();
+        } else if first && named.last() == Some(&true) && token.is_value_reference() {
+            names.push(idx);
+        }
+    }
+    names
+}
+
 // Parse a definition into an `Assignment` type.
 //
 // This function is called by the Module parser to parse each definition. A definition will be one
-- 
2.43.0


From 492205e445c8131a3ce66364bf551af39f44ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 47/53] fix: apply the constraints of a referenced type

---
 .../src/resolver/asn/types/base/integer.rs    |  29 +++-
 asn-compiler/src/resolver/asn/types/int.rs    | 129 +++++++++++++++---
 2 files changed, 131 insertions(+), 27 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 479b7e7..a22879d 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -3,7 +3,9 @@
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{base::Asn1TypeInteger, Asn1Type};
-use crate::resolver::asn::structs::types::base::Asn1ResolvedInteger;
+use crate::resolver::asn::structs::types::{
+    base::Asn1ResolvedInteger, constraints::Asn1ConstraintValueSet,
+};
 use crate::resolver::Resolver;
 
 impl Asn1ResolvedInteger {
@@ -13,7 +15,7 @@ impl Asn1ResolvedInteger {
         i: &Asn1TypeInteger,
         resolver: &mut Resolver,
     ) -> Result<Asn1ResolvedInteger, Error> {
-        let mut base = Asn1ResolvedInteger::default();
+        let base = Asn1ResolvedInteger::default();
 
         if ty.constraints.is_none() {
             return Ok(base);
@@ -26,13 +28,31 @@ impl Asn1ResolvedInteger {
 
         // Get the Values that are expected
         let value_set = ty.get_integer_valueset_from_constraint(resolver)?;
+
+        // TODO: If we have named values, They should be added to Global list of resolved definitions.
+        if i.named_values.is_some() {}
+
+        Self::from_values(value_set)
+    }
+
+    // The INTEGER that is wide enough for all the values (also the listed additional ones).
+    pub(crate) fn from_values(
+        value_set: Asn1ConstraintValueSet,
+    ) -> Result<Asn1ResolvedInteger, Error> {
+        let mut base = Asn1ResolvedInteger::default();
+
         let mut all_values = value_set.root_values.clone();
         if let Some(ref additional_values) = value_set.additional_values {
             all_values.append(additional_values);
         }
         let (min, max) = match (all_values.min(), all_values.max()) {
             (Some(min), Some(max)) => (min, max),
-            _ => return Err(constraint_error!("No values for the INTEGER '{:#?}'", ty)),
+            _ => {
+                return Err(constraint_error!(
+                    "No values for the INTEGER '{:#?}'",
+                    value_set
+                ))
+            }
         };
         base.signed = min < 0;
 
@@ -60,9 +80,6 @@ impl Asn1ResolvedInteger {
             ));
         };
 
-        // TODO: If we have named values, They should be added to Global list of resolved definitions.
-        if i.named_values.is_some() {}
-
         let _ = base.resolved_constraints.replace(value_set);
         Ok(base)
     }
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index d29828b..1e96d55 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -1,14 +1,22 @@
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    Asn1BuiltinType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
+    constraints::Asn1Constraint, Asn1BuiltinType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
 
 use crate::resolver::{
     asn::{
         structs::{
             defs::Asn1ResolvedDefinition,
-            types::{constraints::Asn1ConstraintValueSet, Asn1ResolvedType},
+            types::{
+                base::{
+                    Asn1ResolvedBitString, Asn1ResolvedCharacterString, Asn1ResolvedInteger,
+                    Asn1ResolvedOctetString, ResolvedBaseType,
+                },
+                constraints::Asn1ConstraintValueSet,
+                constructed::ResolvedConstructedType,
+                Asn1ResolvedType,
+            },
         },
         types::{base::resolve_base_type, constructed::resolve_constructed_type},
     },
@@ -29,22 +37,7 @@ impl Asn1Type {
         let kind = &self.kind;
         match kind {
             Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(..)) => {
-                // When constraints are applied one after another, the values are those that satisfy
-                // all of them, but only the last one says anything about the extensions.
-                let mut value_set: Option<Asn1ConstraintValueSet> = None;
-                for constraint in self.constraints.iter().flatten() {
-                    let mut applied = constraint.get_integer_valueset(resolver)?;
-                    if let Some(parent) = value_set {
-                        applied = applied.restricted_to(&parent.root_values);
-                        if applied.root_values.is_empty() {
-                            return Err(constraint_error!(
-                                "No value satisfies the constraints of '{:#?}'",
-                                self
-                            ));
-                        }
-                    }
-                    value_set = Some(applied);
-                }
+                let value_set = self.apply_integer_constraints(None, resolver)?;
                 value_set.ok_or_else(|| {
                     constraint_error!("The Type '{:#?}' is not constrained.", self)
                 })
@@ -59,13 +52,47 @@ impl Asn1Type {
         }
     }
 
+    // Applies the constraints of this type to the values of it's parent type (`None` if all).
+    //
+    // When constraints are applied one after another, the values are those that satisfy all of
+    // them, but only the last one says anything about the extensions. Returns what was passed if
+    // there are no constraints.
+    fn apply_integer_constraints(
+        &self,
+        mut value_set: Option<Asn1ConstraintValueSet>,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        for constraint in self.constraints.iter().flatten() {
+            let mut applied = constraint.get_integer_valueset(resolver)?;
+            if let Some(parent) = value_set {
+                applied = applied.restricted_to(&parent.root_values);
+                if applied.root_values.is_empty() {
+                    return Err(constraint_error!(
+                        "No value satisfies the constraints of '{:#?}'",
+                        self
+                    ));
+                }
+            }
+            value_set = Some(applied);
+        }
+        Ok(value_set)
+    }
+
     // Returns the Sizes admitted by the Constraints of a given Type. `None` if there is no `SIZE`.
     pub(crate) fn get_size_valueset_from_constraints(
         &self,
         resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        self.apply_size_constraints(None, resolver)
+    }
+
+    // Applies the `SIZE` constraints of this type to the sizes of it's parent type.
+    fn apply_size_constraints(
+        &self,
+        mut sizes: Option<Asn1ConstraintValueSet>,
+        resolver: &Resolver,
     ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
         let constraints = self.constraints.iter().flatten();
-        let mut sizes: Option<Asn1ConstraintValueSet> = None;
         for constraint in constraints.filter(|c| c.is_size_constraint()) {
             let mut applied = constraint.get_size_valueset(resolver)?;
             if let Some(parent) = sizes {
@@ -95,6 +122,64 @@ pub(crate) fn resolve_type(
     }
 }
 
+// Resolves the constraints of a type that is a reference to `resolved`.
+//
+// It's `resolved`, unless the constraints say something about the values of an INTEGER or about the
+// sizes, then it's another type having the values or the sizes that are left.
+fn resolve_constrained_reference(
+    ty: &Asn1Type,
+    resolved: Asn1ResolvedType,
+    resolver: &Resolver,
+) -> Result<Asn1ResolvedType, Error> {
+    let has_constraints = ty
+        .constraints
+        .iter()
+        .flatten()
+        .any(|c| matches!(c, Asn1Constraint::Subtype(..)));
+    if !has_constraints {
+        return Ok(resolved);
+    }
+
+    let mut constrained = resolved.clone();
+    while let Asn1ResolvedType::Reference(ref r) = constrained {
+        constrained = match resolver.resolved_defs.get(r) {
+            Some(Asn1ResolvedDefinition::Type(ref t)) => t.clone(),
+            _ => return Err(resolve_error!("Referenced Type '{}' Not resolved!", r)),
+        };
+    }
+
+    match constrained {
+        Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref mut i)) => {
+            let parent = i.resolved_constraints.take();
+            if let Some(values) = ty.apply_integer_constraints(parent, resolver)? {
+                *i = Asn1ResolvedInteger::from_values(values)?;
+            }
+        }
+        Asn1ResolvedType::Base(ResolvedBaseType::BitString(Asn1ResolvedBitString {
+            ref mut size,
+            ..
+        }))
+        | Asn1ResolvedType::Base(ResolvedBaseType::OctetString(Asn1ResolvedOctetString {
+            ref mut size,
+        }))
+        | Asn1ResolvedType::Base(ResolvedBaseType::CharacterString(
+            Asn1ResolvedCharacterString { ref mut size, .. },
+        ))
+        | Asn1ResolvedType::Constructed(ResolvedConstructedType::SequenceOf {
+            size_values: ref mut size,
+            ..
+        }) => {
+            let mut constraints = ty.constraints.iter().flatten();
+            if !constraints.any(|c| c.is_size_constraint()) {
+                return Ok(resolved);
+            }
+            *size = ty.apply_size_constraints(size.take(), resolver)?;
+        }
+        _ => return Ok(resolved),
+    }
+    Ok(constrained)
+}
+
 fn resolve_reference_type(
     ty: &Asn1Type,
     resolver: &mut Resolver,
@@ -106,7 +191,8 @@ fn resolve_reference_type(
                 match resolved {
                     Some(res) => match res {
                         Asn1ResolvedDefinition::Type(..) => {
-                            Ok(Asn1ResolvedType::Reference(r.to_string()))
+                            let resolved = Asn1ResolvedType::Reference(r.to_string());
+                            resolve_constrained_reference(ty, resolved, resolver)
                         }
                         _ => Err(resolve_error!(
                             "Expected a Resolved Type, found {:#?}",
@@ -124,7 +210,8 @@ fn resolve_reference_type(
                 match def {
                     Some(d) => {
                         let params_resolved_type = d.clone().apply_params(params)?;
-                        resolve_type(&params_resolved_type, resolver)
+                        let resolved = resolve_type(&params_resolved_type, resolver)?;
+                        resolve_constrained_reference(ty, resolved, resolver)
                     }
                     None => Err(resolve_error!(
                         "Parameterized Type for '{:#?}' Not found!",
-- 
2.43.0


From 4dd3b3d5ac760a94bf94649af343b95a7c7b6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 48/53] fix: report names that would be used twice in the
 generated module

---
 asn-compiler/src/generator/int.rs | 65 ++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index b0677fe..cb19618 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -1,9 +1,10 @@
 //! Code Generation module
 
 use heck::{ToShoutySnakeCase, ToSnakeCase};
-use proc_macro2::{Ident, Literal, Span, TokenStream};
+use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree};
 
 use quote::quote;
+use std::collections::HashSet;
 
 use crate::error::Error;
 use crate::resolver::Resolver;
@@ -55,6 +56,8 @@ impl Generator {
             items.push(aux.clone())
         }
 
+        check_names(&items)?;
+
         self.items.extend(items);
 
         Ok(self
@@ -144,6 +147,66 @@ impl Generator {
     }
 }
 
+// Names that the generated code uses, items of the module cannot have them.
+const USED_NAMES: &[&str] = &[
+    "AperCodec", "BitVec", "Err", "Msb0", "None", "Ok", "Option", "Result", "Self", "Some",
+    "String", "Vec",
+];
+
+// Different names in ASN.1 can become the same name in Rust. Such names are reported, as we would
+// generate a module that cannot be compiled otherwise.
+fn check_names(items: &[TokenStream]) -> Result<(), Error> {
+    let mut item_names = HashSet::new();
+    for item in items {
+        let mut tokens = item.clone().into_iter().peekable();
+        while let Some(token) = tokens.next() {
+            match token {
+                TokenTree::Ident(ref i) if *i == "struct" || *i == "enum" || *i == "type" => {
+                    let name = match tokens.peek() {
+                        Some(TokenTree::Ident(name)) => name.to_string(),
+                        _ => continue,
+                    };
+                    if USED_NAMES.contains(&name.as_str()) || !item_names.insert(name.clone()) {
+                        return Err(code_generate_error!(
+                            "The name '{}' is already used in the generated module.",
+                            name
+                        ));
+                    }
+                }
+                TokenTree::Group(ref group) if group.delimiter() == Delimiter::Brace => {
+                    check_member_names(group)?
+                }
+                _ => {}
+            }
+        }
+    }
+    Ok(())
+}
+
+// Names of the fields of a 'struct', the variants of an 'enum' or the constants of an 'impl'.
+fn check_member_names(group: &Group) -> Result<(), Error> {
+    let mut names = HashSet::new();
+    let mut tokens = group.stream().into_iter().peekable();
+    while let Some(token) = tokens.next() {
+        let ident = match token {
+            TokenTree::Ident(ident) => ident.to_string(),
+            _ => continue,
+        };
+        let is_member = match tokens.peek() {
+            Some(TokenTree::Punct(p)) => p.as_char() == ':',
+            Some(TokenTree::Group(g)) => g.delimiter() == Delimiter::Parenthesis,
+            _ => false,
+        };
+        if is_member && !names.insert(ident.clone()) {
+            return Err(code_generate_error!(
+                "The name '{}' is used more than once in the generated item.",
+                ident
+            ));
+        }
+    }
+    Ok(())
+}
+
 fn capitalize_first(input: &str) -> String {
     if !input.is_empty() {
         let mut input = input.to_string();
-- 
2.43.0


From 5b90c65fe3b85f8f092b4f96facbeb2bc9103a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 49/53] fix: report named numbers in the constraints of an
 INTEGER

---
 .../src/resolver/asn/types/base/integer.rs    | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index a22879d..403a1f1 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -26,12 +26,27 @@ impl Asn1ResolvedInteger {
             }
         }
 
+        // FIXME: The names of the numbers are not resolved in the constraints, but they should not
+        // be taken to be other values with the same names either.
+        let used: Vec<String> = ty
+            .constraints
+            .iter()
+            .flatten()
+            .flat_map(|c| c.dependent_references())
+            .collect();
+        for (name, _) in i.named_values.iter().flatten() {
+            if used.contains(name) {
+                return Err(constraint_error!(
+                    "Named number '{}' in a constraint is not supported. '{:#?}'",
+                    name,
+                    ty
+                ));
+            }
+        }
+
         // Get the Values that are expected
         let value_set = ty.get_integer_valueset_from_constraint(resolver)?;
 
-        // TODO: If we have named values, They should be added to Global list of resolved definitions.
-        if i.named_values.is_some() {}
-
         Self::from_values(value_set)
     }
 
-- 
2.43.0


From 725452f393bc6f709f660e627c022289fac7de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 50/53] fix: end a comment at every kind of newline

---
 asn-compiler/src/tokenizer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 12cb951..ab7a73e 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -768,9 +768,9 @@ fn get_maybe_comment_token(
     let mut consumed = 2; // initial "--"
     let mut last_idx: Option<usize> = None;
 
-    // Search for Either '\n' or "--"
+    // Search for Either a newline (X.680 12.1.6, '\n' is not the only one) or "--"
     for (idx, window) in chars[2..].windows(2).enumerate() {
-        if window[0] == '\n' {
+        if matches!(window[0], '\n' | '\r' | '\u{b}' | '\u{c}') {
             last_idx = Some(idx);
             consumed += idx;
             break;
-- 
2.43.0


From 1776336c98dd5379d64a487c31426df4f10a869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:52 +0000
Subject: [PATCH 51/53] fix: take a number given as an actual param for a
 number

---
 asn-compiler/src/parser/asn/defs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 353d3d4..cc1f1bd 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -1,7 +1,7 @@
 //! Top level handling of definitions
 
 use crate::error::Error;
-use crate::tokenizer::Token;
+use crate::tokenizer::{types::TokenType, Token};
 
 use crate::parser::{
     asn::structs::{
@@ -91,6 +91,9 @@ impl Asn1Definition {
             let mut ordered = params.ordered.iter().zip(actual_params);
             if let Some((_, actual)) = ordered.find(|(p, _)| p.dummyref.name == token.text) {
                 token.text = actual.param_string();
+                if token.text.parse::<i128>().is_ok() {
+                    token.r#type = TokenType::NumberInt;
+                }
             }
         }
         let (ty, consumed) = parse_type(&params.type_tokens)?;
-- 
2.43.0


From e36380d9107720761015b7a06d4e0d3e192eb6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 52/53] fix: generate components named like keywords of Rust

---
 asn-compiler/src/generator/int.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index cb19618..39d7250 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -83,6 +83,9 @@ impl Generator {
         let mut val = capitalize_first(name).to_snake_case();
         if val == *"type" {
             val = "typ".to_string()
+        } else if KEYWORDS.contains(&val.as_str()) {
+            // Not the name of any other component, no ASN.1 name ends with a '-'.
+            val.push('_');
         }
         Ident::new(&val, Span::call_site())
     }
@@ -147,6 +150,15 @@ impl Generator {
     }
 }
 
+// Keywords of Rust that are names in ASN.1, components cannot have them.
+const KEYWORDS: &[&str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl",
+    "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "typeof", "unsafe",
+    "unsized", "use", "virtual", "where", "while", "yield",
+];
+
 // Names that the generated code uses, items of the module cannot have them.
 const USED_NAMES: &[&str] = &[
     "AperCodec", "BitVec", "Err", "Msb0", "None", "Ok", "Option", "Result", "Self", "Some",
-- 
2.43.0


From ef928075ec2679b7fd2880ebadf957d1ef9cb5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 53/53] fix: decode a CHOICE with an alternative named output

---
 codecs_derive/src/aper/choice.rs | 2 +-
 codecs_derive/src/aper/open.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/choice.rs b/codecs_derive/src/aper/choice.rs
index f4c8d98..a9d73bc 100644
--- a/codecs_derive/src/aper/choice.rs
+++ b/codecs_derive/src/aper/choice.rs
@@ -26,7 +26,7 @@ pub(super) fn generate_aper_codec_for_asn_choice(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let (idx, extended) = asn1_codecs::aper::decode::decode_choice_idx(data, #lb, #ub, #ext)?;
diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 3d1d0a8..15d4737 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -41,7 +41,7 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let octets = asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
-- 
2.43.0

