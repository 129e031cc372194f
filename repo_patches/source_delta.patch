From 44c2996278e78b9defb858b54d49f3aac26df513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:44 +0000
Subject: [PATCH 01/46] fix: ByteSet::max_elem looks at set bits, not their
 complement, in the lower quadrants

---
 src/byte_set.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte_set.rs b/src/byte_set.rs
index 7c1c47b..7174841 100644
--- a/src/byte_set.rs
+++ b/src/byte_set.rs
@@ -108,13 +108,13 @@ impl ByteSet {
         if let Some(i) = max_set_bit(self.bits[3]) {
             return Some(0xc0 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[2]) {
+        if let Some(i) = max_set_bit(self.bits[2]) {
             return Some(0x80 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[1]) {
+        if let Some(i) = max_set_bit(self.bits[1]) {
             return Some(0x40 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[0]) {
+        if let Some(i) = max_set_bit(self.bits[0]) {
             return Some(i);
         }
         None
-- 
2.43.0


From 58d311ea1157219a94dc01239be32d2be3eed0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:44 +0000
Subject: [PATCH 02/46] fix: ByteSet display does not overflow u8 for a range
 ending at 255

---
 src/byte_set/pretty_print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/byte_set/pretty_print.rs b/src/byte_set/pretty_print.rs
index 810b6c0..6246349 100644
--- a/src/byte_set/pretty_print.rs
+++ b/src/byte_set/pretty_print.rs
@@ -143,7 +143,7 @@ impl ByteSet {
         parts.into_iter().for_each(|(rank, mins)| {
             if rank >= THRESHOLD {
                 mins.into_iter().for_each(|lo| {
-                    tokens.push(format!("⟦{lo},{}⟧", lo + rank - 1));
+                    tokens.push(format!("⟦{lo},{}⟧", lo + (rank - 1)));
                 });
             } else {
                 for lo in mins {
-- 
2.43.0


From 281a58a865f6be6d3d96d60075bd3b30d5e390df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:03 +0000
Subject: [PATCH 03/46] fix: order bit-offsets inside a byte after the
 byte-offset where it starts

In bits-mode, up to 7 bits past the end of a slice or of the buffer could be
consumed, because a bit-offset within the byte at the limit was unordered
with the limit.
---
 src/parser/offset.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 2d10ba7..7d5b38e 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -171,6 +171,9 @@ impl PartialOrd for ByteOffset {
             Ordering::Equal => match (o1, o2) {
                 (None, None) => Some(Ordering::Equal),
                 (Some(m1), Some(m2)) => Some(m1.cmp(&m2)),
+                // a bit-offset strictly inside byte `n` lies past the byte-offset `n`
+                (Some(m1), None) if m1 > 0 => Some(Ordering::Greater),
+                (None, Some(m2)) if m2 > 0 => Some(Ordering::Less),
                 _ => None,
             },
             _ => Some(partial),
-- 
2.43.0


From 5644a8974d80116002308eb8470bfc15c8e8850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:03 +0000
Subject: [PATCH 04/46] fix: an offset increment too large for usize is an
 overrun, not an overflow

---
 src/parser/offset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 7d5b38e..1267c3f 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -70,13 +70,13 @@ impl ByteOffset {
 
     pub(crate) fn increment_by(&self, delta: usize) -> Self {
         match *self {
-            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes + delta),
+            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes.saturating_add(delta)),
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
             } => Self::Bits {
                 starting_byte,
-                bits_advanced: bits_advanced + delta,
+                bits_advanced: bits_advanced.saturating_add(delta),
             },
         }
     }
-- 
2.43.0


From 92f439ea7be3bd2438a6ad0f947de8b4e1b8fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:03 +0000
Subject: [PATCH 05/46] fix: Parser::skip_remainder stays in bits-mode when
 called in bits-mode

---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 36f9f96..e638763 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -107,7 +107,11 @@ impl<'a> Parser<'a> {
     }
 
     pub fn skip_remainder(&mut self) {
-        let after_skip = self.offset.current_limit();
+        // NOTE - measured in the unit of the current mode, so that bits-mode is not silently exited
+        let after_skip = self
+            .offset
+            .get_current_offset()
+            .increment_by(self.offset.rem_local());
         unsafe {
             self.offset.set_offset(after_skip);
         }
-- 
2.43.0


From 6af5a616c3a615d06f36e0fca571a7b96c3a3fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:27 +0000
Subject: [PATCH 06/46] fix: capturing bytes past the end of a view is a parse
 error in generated code, not a panic

---
 generated/gencode.rs | 14 +++++++-------
 src/codegen/model.rs |  2 +-
 src/parser/view.rs   |  9 +++++++--
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 3aac61b..a95c39b 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8877,7 +8877,7 @@ return Err(ParseError::ExcludedBranch(5712308626808297759u64));
 let _here = _input.get_offset_u64();
 let waldo = {
 let scope = _input.view();
-scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)
+scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)?
 };
 _input.skip_remainder();
 PResult::Ok(waldo_main { r#where, noise, waldo })
@@ -13775,7 +13775,7 @@ u32be(x)
 };
 let signature = {
 let here_view = _input.view();
-here_view.read_len(signature_length as usize)
+here_view.read_len(signature_length as usize)?
 };
 PResult::Ok(opentype_dsig_sig_format1 { signature_length, signature })
 }
@@ -14261,7 +14261,7 @@ let svg_document_length = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize);
+let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize)?;
 let _svg_document_utf8 = std::marker::PhantomData;
 PResult::Ok(opentype_svg_document_record { start_glyph_id, end_glyph_id, svg_document_offset, svg_document_length, _svg_document, _svg_document_utf8 })
 }
@@ -16409,7 +16409,7 @@ unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?
 };
 let map_data = {
 let here_view = _input.view();
-here_view.read_len((map_count * (entry_size as u32)) as usize)
+here_view.read_len((map_count * (entry_size as u32)) as usize)?
 };
 PResult::Ok(opentype_var_delta_set_index_map { format, entry_size, inner_index_bits, map_count, map_data })
 }
@@ -21056,7 +21056,7 @@ fn Decoder_opentype_post_pascal_string<'input>(_input: &mut Parser<'input>) -> R
 let length = _input.read_byte()?;
 let string = {
 let pascal_string_data = _input.view();
-pascal_string_data.read_len(length as usize)
+pascal_string_data.read_len(length as usize)?
 };
 PResult::Ok(opentype_post_pascal_string { length, string })
 }
@@ -21088,7 +21088,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_name_record { platform, encoding, language, name_id, length, string })
@@ -21122,7 +21122,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_lang_tag_record { length, lang_tag })
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index aadbed2..2aaf336 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -244,7 +244,7 @@ pub fn get_view(parser: RustExpr) -> RustExpr {
 
 /// Model RustExpr for handling `ViewFormat::CaptureBytes(len)` in the Parser (View) model.
 pub fn read_from_view(view: RustExpr, len: RustExpr) -> RustExpr {
-    call!(view, read_len, len)
+    try_call!(view, read_len, len)
 }
 
 /// Model RustExpr for handling `ViewFormat::ReadArray(len, kind)` in the Parser (View) model.
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 4a1f5c9..f1063e5 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -25,8 +25,13 @@ impl<'a> View<'a> {
     }
 
     /// Reads a slice of `len` bytes from the View, offset by `offset`.
-    pub fn read_len(&self, len: usize) -> &'a [u8] {
-        &self.buffer[..len]
+    pub fn read_len(&self, len: usize) -> Result<&'a [u8], DoodleParseError> {
+        self.buffer.get(..len).ok_or_else(|| {
+            DoodleParseError::Overrun(OverrunKind::EndOfStream {
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(len)),
+                max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
+            })
+        })
     }
 
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
-- 
2.43.0


From a4d39eaf6acc5aeb4921385042911cff0d93aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:29 +0000
Subject: [PATCH 07/46] fix: reporting an overrun of a view does not itself
 overflow

---
 src/parser/view.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index f1063e5..b69313e 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -37,7 +37,7 @@ impl<'a> View<'a> {
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
         if offset > self.buffer.len() {
             Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                offset: ByteOffset::from_bytes(self.start_offset + offset),
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(offset)),
                 max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
             }))
         } else {
@@ -60,7 +60,9 @@ impl<'a> View<'a> {
             Err(e) => match e {
                 AllSortsParseError::BadEof => {
                     Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                        offset: ByteOffset::from_bytes(self.start_offset + len * size),
+                        offset: ByteOffset::from_bytes(
+                            self.start_offset.saturating_add(len.saturating_mul(size)),
+                        ),
                         max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
                     }))
                 }
-- 
2.43.0


From 1204b6f87c503ccbee0e132e0ad8906ac09fa9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:29 +0000
Subject: [PATCH 08/46] fix: ReadCtxt::split_at refuses a length whose end
 overflows usize

---
 src/read.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/read.rs b/src/read.rs
index 49a348b..ad2f7c8 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -47,7 +47,9 @@ impl<'a> ReadCtxt<'a> {
     /// Returns `None` if the specified position is out of bounds, i.e., if `offset + n`
     /// exceeds the length of the input.
     pub fn split_at(&self, n: usize) -> Option<(ReadCtxt<'a>, ReadCtxt<'a>)> {
-        if self.offset + n <= self.input.len() {
+        if let Some(end) = self.offset.checked_add(n)
+            && end <= self.input.len()
+        {
             let fst = ReadCtxt {
                 input: &self.input[..self.offset + n],
                 ..*self
-- 
2.43.0


From 648e6bced7fd5f44c9cf321a0eeb12054721e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:29 +0000
Subject: [PATCH 09/46] fix: an array whose byte length overflows usize is
 refused

---
 smallsorts/src/binary/read.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 2e28c02..1a7cbff 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -537,7 +537,7 @@ impl<'a> ReadCtxt<'a> {
         &mut self,
         length: usize,
     ) -> Result<ReadArray<'a, T>, ParseError> {
-        let scope = self.read_scope(length * T::SIZE)?;
+        let scope = self.read_scope(length.checked_mul(T::SIZE).ok_or(ReadEof {})?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -555,7 +555,7 @@ impl<'a> ReadCtxt<'a> {
         if T::SIZE > stride {
             return Err(ParseError::BadValue);
         }
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ReadEof {})?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -592,7 +592,7 @@ impl<'a> ReadCtxt<'a> {
         args: T::Args<'a>,
     ) -> Result<ReadArray<'a, T>, ParseError> {
         let stride = T::size(args);
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ReadEof {})?)?;
         Ok(ReadArray {
             scope,
             length,
-- 
2.43.0


From 72ff3489cbccc14748bdc543271e203e5e794ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:29 +0000
Subject: [PATCH 10/46] fix: ReadArray::read_item honours the stride of the
 array

---
 smallsorts/src/binary/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 1a7cbff..7e0b460 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -658,7 +658,7 @@ impl<'a, T: ReadFixedSizeDep> ReadArray<'a, T> {
     pub fn read_item(&self, index: usize) -> Result<T::HostType<'a>, ParseError> {
         if index < self.length {
             let size = T::size(self.args);
-            let offset = index * size;
+            let offset = index * self.stride;
             let scope = self.scope.offset_length(offset, size).unwrap();
             let mut ctxt = scope.ctxt();
             T::read_dep(&mut ctxt, self.args)
-- 
2.43.0


From 2f10e8c38666ae5cea3bb64185909e9425c34a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:29 +0000
Subject: [PATCH 11/46] fix: ReadArrayIter::size_hint counts only the elements
 still to come

---
 smallsorts/src/binary/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 7e0b460..0aebd7c 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -814,7 +814,7 @@ impl<'a, 'b, T: ReadUnchecked> Iterator for ReadArrayIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.scope.data().len() / self.stride;
+        let remaining = (self.scope.data().len() / self.stride).saturating_sub(self.index);
         (remaining, Some(remaining))
     }
 }
-- 
2.43.0


From e2668569f9f47a4b34d8ca40a5518ec5f15b49c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:29 +0000
Subject: [PATCH 12/46] fix: an out-of-range ReadScope offset does not overflow
 the base position

---
 smallsorts/src/binary/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 0aebd7c..dfd5ce7 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -272,7 +272,7 @@ impl<'a> ReadScope<'a> {
     }
 
     pub fn offset(&self, offset: usize) -> ReadScope<'a> {
-        let base = self.base + offset;
+        let base = self.base.saturating_add(offset);
         let data = self.data.get(offset..).unwrap_or(&[]);
         ReadScope { base, data }
     }
@@ -281,7 +281,7 @@ impl<'a> ReadScope<'a> {
         if offset < self.data.len() || length == 0 {
             let data = self.data.get(offset..).unwrap_or(&[]);
             if length <= data.len() {
-                let base = self.base + offset;
+                let base = self.base.saturating_add(offset);
                 let data = &data[0..length];
                 Ok(ReadScope { base, data })
             } else {
-- 
2.43.0


From 7c51872714150c111490e564b925fdb5905fc1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:48 +0000
Subject: [PATCH 13/46] fix: bitwise operations on bounds do not panic on
 values with the top bit set

---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 7d76f80..d3ccae4 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -484,7 +484,7 @@ fn blend_bits(k1: usize, k2: usize, m1: usize, m2: usize) -> usize {
 
 fn mask(x: usize) -> usize {
     if x != 0 {
-        1_usize.checked_shl(x.ilog2() + 1).unwrap() - 1
+        usize::MAX >> x.leading_zeros()
     } else {
         0
     }
-- 
2.43.0


From c1c37895880b101e3ff61f51d1b9615818e1d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:48 +0000
Subject: [PATCH 14/46] fix: left-shifting bounds does not wrap the upper bound
 below members of the range

---
 src/bounds.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index d3ccae4..2b17da7 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -387,13 +387,17 @@ impl Div<Bounds> for Bounds {
 
 impl Bounds {
     pub fn checked_shl(self, rhs: Self) -> Option<Self> {
+        // unlike `usize::checked_shl`, also rejects shifts that would lose significant bits
+        fn shl_lossless(x: usize, n: u32) -> Option<usize> {
+            x.checked_shl(n).filter(|y| y >> n == x)
+        }
+
         let min2 = u32::try_from(rhs.min).ok()?;
-        let min = self.min.checked_shl(min2)?;
+        let min = shl_lossless(self.min, min2)?;
         let max = match (self.max, rhs.max) {
             (Some(m1), Some(m2)) => {
                 let max2 = u32::try_from(m2).ok()?;
-                // REVIEW - there may be edge-cases here where max2 < 64 but m1 overflows, yielding unexpectedly small values
-                m1.checked_shl(max2)
+                shl_lossless(m1, max2)
             }
             _ => None,
         };
-- 
2.43.0


From f0e1177b434a053f6398052850943a7bccb079ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:58 +0000
Subject: [PATCH 15/46] fix: MIN / -1 and MIN % -1 are sound operations, not
 NaN

---
 src/numeric/eval.rs | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/numeric/eval.rs b/src/numeric/eval.rs
index 4f4cdca..a448271 100644
--- a/src/numeric/eval.rs
+++ b/src/numeric/eval.rs
@@ -120,6 +120,39 @@ macro_rules! homogenous {
     };
 }
 
+/// Arbitrary-precision versions of the checked quotient operations (`None` only for a zero divisor)
+mod exact {
+    use super::{BigInt, Zero};
+
+    pub(super) fn checked_div(lhs: &BigInt, rhs: &BigInt) -> Option<BigInt> {
+        (!rhs.is_zero()).then(|| lhs / rhs)
+    }
+
+    pub(super) fn checked_rem(lhs: &BigInt, rhs: &BigInt) -> Option<BigInt> {
+        (!rhs.is_zero()).then(|| lhs % rhs)
+    }
+}
+
+/// Exact outcome of a quotient operation whose checked machine-integer version fails: either the divisor is zero,
+/// or an intermediate overflow occurred (`MIN / -1`, `MIN % -1`), which does not make the operation unsound.
+fn quotient_fallback<Lhs, Rhs, Res>(
+    lhs: Lhs,
+    rhs: Rhs,
+    op: impl FnOnce(&BigInt, &BigInt) -> Option<BigInt>,
+) -> Eval<Res>
+where
+    BigInt: From<Lhs> + From<Rhs>,
+    Res: TryFrom<BigInt, Error = TryFromBigIntError<BigInt>>,
+{
+    match op(&BigInt::from(lhs), &BigInt::from(rhs)).map(Res::try_from) {
+        None => Eval::NaN,
+        Some(Ok(res)) => Eval::Direct(res),
+        Some(Err(e)) => Eval::Indirect(IndirectEval {
+            value: Rc::new(LazyCell::new(Box::new(move || e.into_original()))),
+        }),
+    }
+}
+
 /// Macro for bulk definition of homogenously typed binary operations with a quotient version provided by a trait (`num_traits`), where None indicates NaN
 macro_rules! homogenous_quotient {
     ( $( $tr:ident, $meth:ident => $( ( $fname:ident, $t:ty ) ),+ $(,)? );+ $(;)? ) => {
@@ -128,7 +161,7 @@ macro_rules! homogenous_quotient {
                 pub fn $fname(lhs: $t, rhs: $t) -> Eval<$t> {
                     match <$t as $tr>::$meth(&lhs, &rhs) {
                         Some(res) => Eval::Direct(res),
-                        None => Eval::NaN,
+                        None => quotient_fallback(lhs, rhs, exact::$meth),
                     }
                 }
             )*
@@ -162,7 +195,7 @@ macro_rules! widening_quotient {
                     pub fn $fname(lhs: $in_t, rhs: $in_t) -> Eval<$out_t> {
                         match <$out_t as $tr>::$meth(&(lhs as $out_t), &(rhs as $out_t)) {
                             Some(res) => Eval::Direct(res),
-                            None => Eval::NaN,
+                            None => quotient_fallback(lhs, rhs, exact::$meth),
                         }
                     }
                 )*
@@ -197,7 +230,7 @@ macro_rules! mixed_widening_quotient {
                     pub fn $fname(lhs: $left_t, rhs: $right_t) -> Eval<$out_t> {
                         match <$out_t as $tr>::$meth(&(lhs as $out_t), &(rhs as $out_t)) {
                             Some(res) => Eval::Direct(res),
-                            None => Eval::NaN,
+                            None => quotient_fallback(lhs, rhs, exact::$meth),
                         }
                     }
                 )*
-- 
2.43.0


From 2dbc59589bae42535505d270771b1a20838c74db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:00 +0000
Subject: [PATCH 16/46] fix: negating or taking the absolute value of MIN
 neither panics nor wraps

---
 src/numeric/eval.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/numeric/eval.rs b/src/numeric/eval.rs
index a448271..d48d157 100644
--- a/src/numeric/eval.rs
+++ b/src/numeric/eval.rs
@@ -610,7 +610,10 @@ macro_rules! negate_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $(
             pub fn $fname(x: $t) -> Eval<$t> {
-                Eval::Direct(<$t as Neg>::neg(x))
+                match x.checked_neg() {
+                    Some(res) => Eval::Direct(res),
+                    None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || BigInt::from(x).neg()))) }),
+                }
             }
         )*
     };
@@ -673,12 +676,10 @@ macro_rules! negate_unsigned_unsigned {
 macro_rules! abs_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $( pub fn $fname(x: $t) -> Eval<$t> {
-            let tmp = <$t as ::num_traits::Signed>::abs(&x);
-            // NOTE - Signed::abs(iX::MIN) == iX::MIN
-            if tmp == <$t>::MIN {
-                Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) })
-            } else {
-                Eval::Direct(tmp)
+            // NOTE - iX::MIN has no absolute value in iX
+            match x.checked_abs() {
+                Some(tmp) => Eval::Direct(tmp),
+                None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) }),
             }
         } )+
     };
@@ -701,12 +702,7 @@ macro_rules! abs_signed_unsigned {
         $(
             $(
                 pub fn $fname(x: $t) -> Eval<$t1> {
-                    let tmp = <$t as ::num_traits::Signed>::abs(&x);
-                    if tmp == <$t>::MIN {
-                        Eval::Direct(<$t>::MAX as $t1 + 1)
-                    } else {
-                        Eval::Direct(tmp as $t1)
-                    }
+                    Eval::Direct(x.unsigned_abs() as $t1)
                 }
             )+
         )+
-- 
2.43.0


From 6e2591a225e8446b8c150b595a15c22f85ea481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:51 +0000
Subject: [PATCH 17/46] fix: the bounds of x & constant include every value the
 mask lets through

---
 src/bounds.rs | 31 +------------------------------
 1 file changed, 1 insertion(+), 30 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 2b17da7..4f3ccb8 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -277,22 +277,6 @@ impl Bounds {
             max: self.max.map(|n| n.div_ceil(8)),
         }
     }
-
-    /// Finds the pair `(x, m)` that yields the maximal `x & m` for `x` in the bounds of `self`.
-    ///
-    /// May fudge the value of `x` to an out-of-range value to shortcut the computation of `x & m`
-    /// over all in-range values, with the guarantee that the resulting bitwise-and will be no less
-    /// than the true maximum of `y & m` for actually-in-range `y`.
-    fn best_mask(&self, m: usize) -> (usize, usize) {
-        if self.contains(m) {
-            (m, m)
-        } else {
-            match self.max {
-                Some(n) => (mask(n), m),
-                _ => (m, m),
-            }
-        }
-    }
 }
 
 macro_rules! try_from_bounds {
@@ -459,20 +443,7 @@ impl BitAnd<Bounds> for Bounds {
         Bounds {
             min: (k1 & k2),
             max: match (lo_self.max, lo_rhs.max) {
-                (Some(m1), Some(m2)) => Some(match (lo_self.min == m1, lo_rhs.min == m2) {
-                    (true, true) => blend_bits(k1, k2, m1, m2),
-                    (true, false) => {
-                        // NOTE - the order of x2 and m in blend_bits matters
-                        let (x2, m) = lo_rhs.best_mask(m1);
-                        blend_bits(k1, k2, m, x2)
-                    }
-                    (false, true) => {
-                        // NOTE - the order of x1 and m in blend_bits matters
-                        let (x1, m) = lo_self.best_mask(m2);
-                        blend_bits(k1, k2, x1, m)
-                    }
-                    (false, false) => blend_bits(k1, k2, mask(m1), mask(m2)),
-                }),
+                (Some(m1), Some(m2)) => Some(blend_bits(k1, k2, mask(m1), mask(m2))),
                 _ => None,
             },
         }
-- 
2.43.0


From a1008e31b4d4f9877e41f0be94e10ac88260aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:10 +0000
Subject: [PATCH 18/46] fix: patterns see through union branches, maps and
 permits below the top level of a value

---
 src/decoder/value.rs | 10 +++---
 src/loc_decoder.rs   | 72 +++++++++++++++++++++++++++++++-------------
 2 files changed, 57 insertions(+), 25 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 3d60dc8..ca47aa0 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -236,7 +236,7 @@ impl Value {
             Pattern::Tuple(ps) => match self {
                 Value::Tuple(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -247,7 +247,7 @@ impl Value {
             Pattern::Seq(ps) => match self {
                 Value::Seq(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -256,12 +256,14 @@ impl Value {
                 _ => false,
             },
             Pattern::Variant(label0, p) => match self {
-                Value::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
+                Value::Variant(label1, v) if label0 == label1 => {
+                    v.coerce_nominal_value().matches_inner(scope, p)
+                }
                 _ => false,
             },
             Pattern::Option(None) => matches!(self, Value::Option(None)),
             Pattern::Option(Some(p)) => match self {
-                Value::Option(Some(v)) => v.matches_inner(scope, p),
+                Value::Option(Some(v)) => v.coerce_nominal_value().matches_inner(scope, p),
                 _ => false,
             },
         }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 099dec3..82a01c5 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -374,22 +374,38 @@ impl ParsedValue {
                     inner: Value::Bool(b1),
                     ..
                 }) if b0 == b1),
-            Pattern::U8(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U8(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U16(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U16(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U32(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U32(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U64(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U64(i1),
-                    ..
-                }) if i0 == i1),
+            Pattern::U8(i0) => match self {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U8(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u8(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U16(i0) => match self {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U16(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u16(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U32(i0) => match self {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U32(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u32(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U64(i0) => match self {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U64(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u64(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
             Pattern::Char(c0) => matches!(self, ParsedValue::Flat(Parsed {
                     inner: Value::Char(c1),
                     ..
@@ -397,7 +413,7 @@ impl ParsedValue {
             Pattern::Tuple(ps) => match self {
                 ParsedValue::Tuple(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -408,7 +424,7 @@ impl ParsedValue {
             Pattern::Seq(ps) => match self {
                 ParsedValue::Seq(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -417,12 +433,14 @@ impl ParsedValue {
                 _ => false,
             },
             Pattern::Variant(label0, p) => match self {
-                ParsedValue::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
+                ParsedValue::Variant(label1, v) if label0 == label1 => {
+                    v.coerce_nominal_value().matches_inner(scope, p)
+                }
                 _ => false,
             },
             Pattern::Option(None) => matches!(self, ParsedValue::Option(None)),
             Pattern::Option(Some(p)) => match self {
-                ParsedValue::Option(Some(v)) => v.matches_inner(scope, p),
+                ParsedValue::Option(Some(v)) => v.coerce_nominal_value().matches_inner(scope, p),
                 _ => false,
             },
             Pattern::Int(bounds) => match self {
@@ -432,6 +450,7 @@ impl ParsedValue {
                     Value::U32(n) => bounds.contains(usize::try_from(*n).unwrap()),
                     Value::U64(n) => bounds.contains(usize::try_from(*n).unwrap()),
                     Value::Usize(n) => bounds.contains(*n),
+                    Value::Numeric(n) => n.matches_int_range(*bounds),
                     _ => false,
                 },
                 _ => false,
@@ -479,6 +498,17 @@ impl ParsedValue {
         ParsedValue::Record(Parsed { loc, inner: fields })
     }
 
+    /// Higher-level version of `coerce_mapped_value` that also unwraps the fallback value of any
+    /// `ParsedValue::Permit(Err)` (c.f. [`Value::coerce_nominal_value`]).
+    pub(crate) fn coerce_nominal_value(&self) -> &Self {
+        match self {
+            ParsedValue::Mapped(_orig, v) => v.coerce_nominal_value(),
+            ParsedValue::Branch(_n, v) => v.coerce_nominal_value(),
+            ParsedValue::Permit(Ok(v) | Err(Some(v))) => v.coerce_nominal_value(),
+            v => v,
+        }
+    }
+
     pub(crate) fn coerce_mapped_value(&self) -> &Self {
         match self {
             ParsedValue::Mapped(_orig, v) => v.coerce_mapped_value(),
@@ -579,7 +609,7 @@ impl ParsedValue {
 
     fn matches<'a>(&self, scope: &'a LocScope<'a>, pattern: &Pattern) -> Option<LocMultiScope<'a>> {
         let mut pattern_scope = LocMultiScope::new(scope);
-        self.coerce_mapped_value()
+        self.coerce_nominal_value()
             .matches_inner(&mut pattern_scope, pattern)
             .then_some(pattern_scope)
     }
-- 
2.43.0


From a4da38e5e3c51ccdef9cfe2c923ee0c1d87016bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:28 +0000
Subject: [PATCH 19/46] fix: bytes decoded through unions, maps or permits can
 be combined into integers and re-decoded

---
 src/decoder.rs       | 50 ++++++-----------------
 src/decoder/value.rs |  7 +++-
 src/loc_decoder.rs   | 94 ++++++++++++++++++++++----------------------
 3 files changed, 66 insertions(+), 85 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 113093c..6582595 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -178,56 +178,30 @@ impl Expr {
                 x => panic!("cannot convert {x:?} to U64"),
             }),
 
-            Expr::U16Be(bytes) => match bytes.eval_value(scope).unwrap_tuple().as_slice() {
-                [Value::U8(hi), Value::U8(lo)] => {
-                    Cow::Owned(Value::U16(u16::from_be_bytes([*hi, *lo])))
-                }
+            Expr::U16Be(bytes) => match bytes.eval_value(scope).unwrap_byte_tuple().as_slice() {
+                [hi, lo] => Cow::Owned(Value::U16(u16::from_be_bytes([*hi, *lo]))),
                 _ => panic!("U16Be: expected (U8, U8)"),
             },
-            Expr::U16Le(bytes) => match bytes.eval_value(scope).unwrap_tuple().as_slice() {
-                [Value::U8(lo), Value::U8(hi)] => {
-                    Cow::Owned(Value::U16(u16::from_le_bytes([*lo, *hi])))
-                }
+            Expr::U16Le(bytes) => match bytes.eval_value(scope).unwrap_byte_tuple().as_slice() {
+                [lo, hi] => Cow::Owned(Value::U16(u16::from_le_bytes([*lo, *hi]))),
                 _ => panic!("U16Le: expected (U8, U8)"),
             },
-            Expr::U32Be(bytes) => match bytes.eval_value(scope).unwrap_tuple().as_slice() {
-                [Value::U8(a), Value::U8(b), Value::U8(c), Value::U8(d)] => {
-                    Cow::Owned(Value::U32(u32::from_be_bytes([*a, *b, *c, *d])))
-                }
+            Expr::U32Be(bytes) => match bytes.eval_value(scope).unwrap_byte_tuple().as_slice() {
+                [a, b, c, d] => Cow::Owned(Value::U32(u32::from_be_bytes([*a, *b, *c, *d]))),
                 _ => panic!("U32Be: expected (U8, U8, U8, U8)"),
             },
-            Expr::U32Le(bytes) => match bytes.eval_value(scope).unwrap_tuple().as_slice() {
-                [Value::U8(a), Value::U8(b), Value::U8(c), Value::U8(d)] => {
-                    Cow::Owned(Value::U32(u32::from_le_bytes([*a, *b, *c, *d])))
-                }
+            Expr::U32Le(bytes) => match bytes.eval_value(scope).unwrap_byte_tuple().as_slice() {
+                [a, b, c, d] => Cow::Owned(Value::U32(u32::from_le_bytes([*a, *b, *c, *d]))),
                 _ => panic!("U32Le: expected (U8, U8, U8, U8)"),
             },
-            Expr::U64Be(bytes) => match bytes.eval_value(scope).unwrap_tuple().as_slice() {
-                [
-                    Value::U8(a),
-                    Value::U8(b),
-                    Value::U8(c),
-                    Value::U8(d),
-                    Value::U8(e),
-                    Value::U8(f),
-                    Value::U8(g),
-                    Value::U8(h),
-                ] => Cow::Owned(Value::U64(u64::from_be_bytes([
+            Expr::U64Be(bytes) => match bytes.eval_value(scope).unwrap_byte_tuple().as_slice() {
+                [a, b, c, d, e, f, g, h] => Cow::Owned(Value::U64(u64::from_be_bytes([
                     *a, *b, *c, *d, *e, *f, *g, *h,
                 ]))),
                 _ => panic!("U32Be: expected (U8, U8, U8, U8, U8, U8, U8, U8)"),
             },
-            Expr::U64Le(bytes) => match bytes.eval_value(scope).unwrap_tuple().as_slice() {
-                [
-                    Value::U8(a),
-                    Value::U8(b),
-                    Value::U8(c),
-                    Value::U8(d),
-                    Value::U8(e),
-                    Value::U8(f),
-                    Value::U8(g),
-                    Value::U8(h),
-                ] => Cow::Owned(Value::U64(u64::from_le_bytes([
+            Expr::U64Le(bytes) => match bytes.eval_value(scope).unwrap_byte_tuple().as_slice() {
+                [a, b, c, d, e, f, g, h] => Cow::Owned(Value::U64(u64::from_le_bytes([
                     *a, *b, *c, *d, *e, *f, *g, *h,
                 ]))),
                 _ => panic!("U32Le: expected (U8, U8, U8, U8, U8, U8, U8, U8)"),
diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index ca47aa0..0192529 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -370,7 +370,7 @@ impl Value {
 
     /// Unwraps `Value::U8` and returns the contained value, or panics if the value is not `Value::U8`.
     pub(crate) fn get_as_u8(&self) -> u8 {
-        match self {
+        match self.coerce_nominal_value() {
             Value::U8(n) => *n,
             Value::U16(..) | Value::U32(..) | Value::U64(..) | Value::Usize(..) => panic!(
                 "value is numeric but not u8 (this may be a soft error, or even success, in future)"
@@ -387,6 +387,11 @@ impl Value {
         }
     }
 
+    /// Unwraps a `Value::Tuple` whose elements are all bytes, or panics if it is anything else.
+    pub(crate) fn unwrap_byte_tuple(self) -> Vec<u8> {
+        self.unwrap_tuple().iter().map(Value::get_as_u8).collect()
+    }
+
     pub(crate) fn unwrap_bool(&self) -> bool {
         match self {
             Value::Bool(b) => *b,
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 82a01c5..b6b8b8e 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -746,72 +746,74 @@ impl Expr {
             )),
 
             Expr::U16Be(bytes) => {
-                match bytes.eval_value_with_loc(scope).unwrap_tuple().as_slice() {
-                    [Value::U8(hi), Value::U8(lo)] => Cow::Owned(ParsedValue::from_evaluated(
-                        Value::U16(u16::from_be_bytes([*hi, *lo])),
-                    )),
+                match bytes
+                    .eval_value_with_loc(scope)
+                    .unwrap_byte_tuple()
+                    .as_slice()
+                {
+                    [hi, lo] => Cow::Owned(ParsedValue::from_evaluated(Value::U16(
+                        u16::from_be_bytes([*hi, *lo]),
+                    ))),
                     _ => panic!("U16Be: expected (U8, U8)"),
                 }
             }
             Expr::U16Le(bytes) => {
-                match bytes.eval_value_with_loc(scope).unwrap_tuple().as_slice() {
-                    [Value::U8(lo), Value::U8(hi)] => Cow::Owned(ParsedValue::from_evaluated(
-                        Value::U16(u16::from_le_bytes([*lo, *hi])),
-                    )),
+                match bytes
+                    .eval_value_with_loc(scope)
+                    .unwrap_byte_tuple()
+                    .as_slice()
+                {
+                    [lo, hi] => Cow::Owned(ParsedValue::from_evaluated(Value::U16(
+                        u16::from_le_bytes([*lo, *hi]),
+                    ))),
                     _ => panic!("U16Le: expected (U8, U8)"),
                 }
             }
             Expr::U32Be(bytes) => {
-                match bytes.eval_value_with_loc(scope).unwrap_tuple().as_slice() {
-                    [Value::U8(a), Value::U8(b), Value::U8(c), Value::U8(d)] => {
-                        Cow::Owned(ParsedValue::from_evaluated(Value::U32(u32::from_be_bytes(
-                            [*a, *b, *c, *d],
-                        ))))
-                    }
+                match bytes
+                    .eval_value_with_loc(scope)
+                    .unwrap_byte_tuple()
+                    .as_slice()
+                {
+                    [a, b, c, d] => Cow::Owned(ParsedValue::from_evaluated(Value::U32(
+                        u32::from_be_bytes([*a, *b, *c, *d]),
+                    ))),
                     _ => panic!("U32Be: expected (U8, U8, U8, U8)"),
                 }
             }
             Expr::U32Le(bytes) => {
-                match bytes.eval_value_with_loc(scope).unwrap_tuple().as_slice() {
-                    [Value::U8(a), Value::U8(b), Value::U8(c), Value::U8(d)] => {
-                        Cow::Owned(ParsedValue::from_evaluated(Value::U32(u32::from_le_bytes(
-                            [*a, *b, *c, *d],
-                        ))))
-                    }
+                match bytes
+                    .eval_value_with_loc(scope)
+                    .unwrap_byte_tuple()
+                    .as_slice()
+                {
+                    [a, b, c, d] => Cow::Owned(ParsedValue::from_evaluated(Value::U32(
+                        u32::from_le_bytes([*a, *b, *c, *d]),
+                    ))),
                     _ => panic!("U32Le: expected (U8, U8, U8, U8)"),
                 }
             }
             Expr::U64Be(bytes) => {
-                match bytes.eval_value_with_loc(scope).unwrap_tuple().as_slice() {
-                    [
-                        Value::U8(a),
-                        Value::U8(b),
-                        Value::U8(c),
-                        Value::U8(d),
-                        Value::U8(e),
-                        Value::U8(f),
-                        Value::U8(g),
-                        Value::U8(h),
-                    ] => Cow::Owned(ParsedValue::from_evaluated(Value::U64(u64::from_be_bytes(
-                        [*a, *b, *c, *d, *e, *f, *g, *h],
-                    )))),
+                match bytes
+                    .eval_value_with_loc(scope)
+                    .unwrap_byte_tuple()
+                    .as_slice()
+                {
+                    [a, b, c, d, e, f, g, h] => Cow::Owned(ParsedValue::from_evaluated(
+                        Value::U64(u64::from_be_bytes([*a, *b, *c, *d, *e, *f, *g, *h])),
+                    )),
                     _ => panic!("U32Be: expected (U8, U8, U8, U8, U8, U8, U8, U8)"),
                 }
             }
             Expr::U64Le(bytes) => {
-                match bytes.eval_value_with_loc(scope).unwrap_tuple().as_slice() {
-                    [
-                        Value::U8(a),
-                        Value::U8(b),
-                        Value::U8(c),
-                        Value::U8(d),
-                        Value::U8(e),
-                        Value::U8(f),
-                        Value::U8(g),
-                        Value::U8(h),
-                    ] => Cow::Owned(ParsedValue::from_evaluated(Value::U64(u64::from_le_bytes(
-                        [*a, *b, *c, *d, *e, *f, *g, *h],
-                    )))),
+                match bytes
+                    .eval_value_with_loc(scope)
+                    .unwrap_byte_tuple()
+                    .as_slice()
+                {
+                    [a, b, c, d, e, f, g, h] => Cow::Owned(ParsedValue::from_evaluated(
+                        Value::U64(u64::from_le_bytes([*a, *b, *c, *d, *e, *f, *g, *h])),
+                    )),
                     _ => panic!("U32Le: expected (U8, U8, U8, U8, U8, U8, U8, U8)"),
                 }
             }
-- 
2.43.0


From 8fe3a465c948e8fffc5231d17322ab8e00c401ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:48 +0000
Subject: [PATCH 20/46] fix: a bounded repetition decides each element on the
 current input and reports too few elements as a parse error

---
 src/decoder.rs     | 9 ++++++---
 src/loc_decoder.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 6582595..eab618f 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1363,9 +1363,9 @@ impl Decoder {
                 let max = max.eval_value(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree.matches(input).ok_or(
+                    if reps_left_tree.matches(*input).ok_or(
                         DecodeErrorKind::NoValidBranch {
                             offset: input.offset,
                         }
@@ -1374,7 +1374,10 @@ impl Decoder {
                         || v.len() == max
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .with_trace(("RepeatBetween(too few)", v.len())));
                         }
                         break;
                     }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index b6b8b8e..9105313 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1603,10 +1603,10 @@ impl Decoder {
                 let max = max.eval_value_with_loc(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
                     if reps_left_tree
-                        .matches(input)
+                        .matches(*input)
                         .ok_or(DecodeErrorKind::NoValidBranch {
                             offset: input.offset,
                         })?
@@ -1614,7 +1614,10 @@ impl Decoder {
                         || v.len() == max
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .into());
                         }
                         break;
                     }
-- 
2.43.0


From ceab117ce1e4d0461c8b7f1959cbc1923d06a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:11 +0000
Subject: [PATCH 21/46] fix: a relative offset past the address space is a bad
 seek, not an overflow

---
 src/decoder.rs     | 6 +++---
 src/loc_decoder.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index eab618f..e900c0c 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1503,9 +1503,9 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base = base_addr.eval_value(scope).unwrap_usize();
                 let offset = expr.eval_value(scope).unwrap_usize();
-                let abs_offset = base + offset;
-                let seek_input = input.seek_to(abs_offset).ok_or(
-                    DecodeErrorKind::bad_seek(abs_offset, input.input.len())
+                let abs_offset = base.checked_add(offset);
+                let seek_input = abs_offset.and_then(|pos| input.seek_to(pos)).ok_or(
+                    DecodeErrorKind::bad_seek(abs_offset.unwrap_or(usize::MAX), input.input.len())
                         .with_trace("WithRelativeOffset(seek)"),
                 )?;
                 Ok(try_with!(a.parse(program, scope, seek_input) => ("WithRelativeOffset(parse)", format!("{a:?}")))
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 9105313..fbb7b67 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1775,10 +1775,10 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base_addr = base_addr.eval_value_with_loc(scope).unwrap_usize();
                 let offset = expr.eval_value_with_loc(scope).unwrap_usize();
-                let abs_offset = base_addr + offset;
-                let seek_input = input
-                    .seek_to(abs_offset)
-                    .ok_or(DecodeErrorKind::bad_seek(abs_offset, input.input.len()))?;
+                let abs_offset = base_addr.checked_add(offset);
+                let seek_input = abs_offset.and_then(|pos| input.seek_to(pos)).ok_or(
+                    DecodeErrorKind::bad_seek(abs_offset.unwrap_or(usize::MAX), input.input.len()),
+                )?;
                 Ok(a.parse_with_loc(program, scope, seek_input)?
                     .map(|(v, _)| (v, input)))
             }
-- 
2.43.0


From 0e0995b290a3812dc1b708f9553b29dc6b337cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:11 +0000
Subject: [PATCH 22/46] fix: a repeat count or array length from the input is
 not allocated up front

---
 src/decoder.rs     | 6 +++---
 src/loc_decoder.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index e900c0c..f722242 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1344,7 +1344,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(
@@ -1612,7 +1612,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1634,7 +1634,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for ix in 0..len {
                     let (val, new_buf) = try_with!(read_base(buf, *kind) => ("ReadArray", format!("index: {ix}"), format!("kind: {kind:?}"), format!("view: {v_expr:?}")));
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index fbb7b67..b2a6451 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1583,7 +1583,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value_with_loc(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(a.parse_with_loc(program, scope, input)?
@@ -1874,7 +1874,7 @@ impl Decoder {
 
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for i in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1901,7 +1901,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let (val, new_buf) = read_base(buf, *kind)?;
-- 
2.43.0


From 9ebe9ad34114485f9318deb5e8e5fd68c9b2a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:56 +0000
Subject: [PATCH 23/46] fix: expressions operate on the fallback value of a
 permitted failure

---
 src/decoder.rs       | 52 ++++++++++++++++++++++++--------------------
 src/decoder/value.rs | 16 ++++++++++++--
 src/loc_decoder.rs   | 46 +++++++++++++++++++--------------------
 3 files changed, 64 insertions(+), 50 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index f722242..288f73f 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -224,7 +224,7 @@ impl Expr {
                 ),
                 _ => panic!("AsChar: expected U8, U16, U32, or U64"),
             }),
-            Expr::SeqLength(seq) => match seq.eval(scope).coerce_mapped_value().get_sequence() {
+            Expr::SeqLength(seq) => match seq.eval(scope).coerce_nominal_value().get_sequence() {
                 Some(values) => {
                     let len = values.len();
                     Cow::Owned(Value::U32(len as u32))
@@ -232,7 +232,7 @@ impl Expr {
                 _ => panic!("SeqLength: expected Seq"),
             },
             Expr::SeqIx(seq, index) => cow_remap(seq.eval(scope), |v| {
-                match v.coerce_mapped_value().get_sequence() {
+                match v.coerce_nominal_value().get_sequence() {
                     Some(values) => match values {
                         ValueSeq::ValueSeq(values) => {
                             let index = index.eval_value(scope).unwrap_usize();
@@ -247,7 +247,7 @@ impl Expr {
                 }
             }),
             Expr::SubSeq(seq, start, length) => {
-                match seq.eval(scope).coerce_mapped_value().get_sequence() {
+                match seq.eval(scope).coerce_nominal_value().get_sequence() {
                     Some(values) => match values {
                         ValueSeq::ValueSeq(values) => {
                             let start = start.eval_value(scope).unwrap_usize();
@@ -264,7 +264,7 @@ impl Expr {
                 }
             }
             Expr::SubSeqInflate(seq, start, length) => {
-                match seq.eval(scope).coerce_mapped_value().get_sequence() {
+                match seq.eval(scope).coerce_nominal_value().get_sequence() {
                     Some(values) => {
                         let start = start.eval_value(scope).unwrap_usize();
                         let length = length.eval_value(scope).unwrap_usize();
@@ -298,23 +298,29 @@ impl Expr {
                 }
             }
             Expr::Append(seq0, seq1) => {
-                match seq0.eval(scope).coerce_mapped_value().get_sequence() {
-                    Some(val_seq0) => match seq1.eval(scope).coerce_mapped_value().get_sequence() {
-                        Some(val_seq1) => {
-                            if val_seq0.is_empty() {
-                                return Cow::Owned(seq1.eval(scope).coerce_mapped_value().clone());
-                            } else if val_seq1.is_empty() {
-                                return Cow::Owned(seq0.eval(scope).coerce_mapped_value().clone());
+                match seq0.eval(scope).coerce_nominal_value().get_sequence() {
+                    Some(val_seq0) => {
+                        match seq1.eval(scope).coerce_nominal_value().get_sequence() {
+                            Some(val_seq1) => {
+                                if val_seq0.is_empty() {
+                                    return Cow::Owned(
+                                        seq1.eval(scope).coerce_nominal_value().clone(),
+                                    );
+                                } else if val_seq1.is_empty() {
+                                    return Cow::Owned(
+                                        seq0.eval(scope).coerce_nominal_value().clone(),
+                                    );
+                                }
+                                Cow::Owned(Value::Seq(val_seq0.append(val_seq1)))
                             }
-                            Cow::Owned(Value::Seq(val_seq0.append(val_seq1)))
+                            _ => unreachable!("Append: expected Seq in (lhs)"),
                         }
-                        _ => unreachable!("Append: expected Seq in (lhs)"),
-                    },
+                    }
                     _ => unreachable!("Append: expected Seq in (lhs)"),
                 }
             }
             Expr::FlatMap(expr, seq) => {
-                match seq.eval(scope).coerce_mapped_value().get_sequence() {
+                match seq.eval(scope).coerce_nominal_value().get_sequence() {
                     Some(values) => {
                         let mut vs = Vec::new();
                         for v in values {
@@ -427,8 +433,8 @@ impl Expr {
 
     fn eval_value_ref<'a, 'b: 'a>(&'b self, scope: &'a Scope<'a>) -> Cow<'a, Value> {
         match self.eval(scope) {
-            Cow::Borrowed(value) => Cow::Borrowed(value.coerce_mapped_value()),
-            Cow::Owned(v) => Cow::Owned(v.extract_mapped_value()),
+            Cow::Borrowed(value) => Cow::Borrowed(value.coerce_nominal_value()),
+            Cow::Owned(v) => Cow::Owned(v.extract_nominal_value()),
         }
     }
 
@@ -1343,10 +1349,8 @@ impl Decoder {
             }
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value(scope).unwrap_usize();
-                Ok(WithErr::fold(
-                    (Vec::new(), input),
-                    0..count,
-                    |(mut v, input), _| {
+                Ok(
+                    WithErr::fold((Vec::new(), input), 0..count, |(mut v, input), _| {
                         Ok(
                             try_with!(a.parse(program, scope, input) => ("RepeatCount", v.len()))
                                 .map(|(va, next_input)| {
@@ -1354,9 +1358,9 @@ impl Decoder {
                                     (v, next_input)
                                 }),
                         )
-                    },
-                )?
-                .map(|(v, input)| (Value::Seq(v.into()), input)))
+                    })?
+                    .map(|(v, input)| (Value::Seq(v.into()), input)),
+                )
             }
             Decoder::RepeatBetween(reps_left_tree, min, max, a) => {
                 let min = min.eval_value(scope).unwrap_usize();
diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 0192529..9907a28 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -156,7 +156,8 @@ impl Value {
         match self {
             Value::Tuple(vs) => &vs[index],
             // REVIEW[epic=permit] - there is no clean way of returning a same-lifetime reference for tuple-projection over `Permit(Err(Some(v)))` without silently erasing the `Permit` wrapper
-            Value::Permit(Err(None | Some(_))) => &Value::Permit(Err(None)),
+            Value::Permit(Err(Some(v))) => v.coerce_nominal_value().tuple_proj(index),
+            Value::Permit(Err(None)) => &Value::Permit(Err(None)),
             _ => panic!("expected tuple"),
         }
     }
@@ -168,7 +169,8 @@ impl Value {
                 None => panic!("{label} not found in record"),
             },
             // REVIEW[epic=permit] - there is no clean way of returning a same-lifetime reference for record-projection over `Permit(Err(Some(v)))` without silently erasing the `Permit` wrapper
-            Value::Permit(Err(None | Some(_))) => &Value::Permit(Err(None)),
+            Value::Permit(Err(Some(v))) => v.coerce_nominal_value().record_proj(label),
+            Value::Permit(Err(None)) => &Value::Permit(Err(None)),
             other => panic!("expected record, found {other:?}"),
         }
     }
@@ -320,6 +322,16 @@ impl Value {
         }
     }
 
+    /// Like `coerce_nominal_value`, but for owned values rather than borrowed ones.
+    pub fn extract_nominal_value(self) -> Self {
+        match self {
+            Value::Permit(Ok(v) | Err(Some(v))) => v.extract_nominal_value(),
+            Value::Mapped(_orig, v) => v.extract_nominal_value(),
+            Value::Branch(_n, v) => v.extract_nominal_value(),
+            v => v,
+        }
+    }
+
     pub(crate) fn get_sequence(&self) -> Option<ValueSeq<'_, Self>> {
         match self {
             Value::Seq(elts) => Some(ValueSeq::ValueSeq(elts)),
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index b2a6451..4a0f492 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -483,7 +483,7 @@ impl ParsedValue {
     }
 
     fn tuple_proj(&self, index: usize) -> &Self {
-        match self.coerce_mapped_value() {
+        match self.coerce_nominal_value() {
             ParsedValue::Tuple(Parsed { inner, .. }) => &inner[index],
             _ => panic!("expected tuple"),
         }
@@ -639,7 +639,7 @@ impl Expr {
                     .collect(),
             ))),
             Expr::TupleProj(head, index) => cow_map(head.eval_with_loc(scope), |v| {
-                v.coerce_mapped_value().tuple_proj(*index)
+                v.coerce_nominal_value().tuple_proj(*index)
             }),
             Expr::Record(fields) => Cow::Owned(ParsedValue::collect_fields(
                 fields
@@ -648,7 +648,7 @@ impl Expr {
                     .collect(),
             )),
             Expr::RecordProj(head, label) => cow_map(head.eval_with_loc(scope), |v| {
-                v.coerce_mapped_value().record_proj(label.as_ref())
+                v.coerce_nominal_value().record_proj(label.as_ref())
             }),
             Expr::Variant(label, expr) => Cow::Owned(ParsedValue::from_evaluated(Value::variant(
                 label.clone(),
@@ -835,7 +835,7 @@ impl Expr {
             )),
             Expr::SeqLength(seq) => match seq
                 .eval_with_loc(scope)
-                .coerce_mapped_value()
+                .coerce_nominal_value()
                 .get_sequence()
             {
                 Some(values) => {
@@ -845,7 +845,7 @@ impl Expr {
                 _ => panic!("SeqLength: expected Seq (or EnumFromTo)"),
             },
             Expr::SeqIx(seq, index) => cow_remap(seq.eval_with_loc(scope), |v| {
-                match v.coerce_mapped_value().get_sequence() {
+                match v.coerce_nominal_value().get_sequence() {
                     Some(values) => {
                         let index = index.eval_value_with_loc(scope).unwrap_usize();
                         match values {
@@ -863,7 +863,7 @@ impl Expr {
             Expr::SubSeq(seq, start, length) => {
                 match seq
                     .eval_with_loc(scope)
-                    .coerce_mapped_value()
+                    .coerce_nominal_value()
                     .get_sequence()
                 {
                     Some(values) => {
@@ -884,7 +884,7 @@ impl Expr {
             Expr::SubSeqInflate(seq, start, length) => {
                 match seq
                     .eval_with_loc(scope)
-                    .coerce_mapped_value()
+                    .coerce_nominal_value()
                     .get_sequence()
                 {
                     Some(values) => {
@@ -921,11 +921,11 @@ impl Expr {
             }
             Expr::Append(seq0, seq1) => {
                 let tmp0 = seq0.eval_with_loc(scope);
-                let val0 = tmp0.coerce_mapped_value();
+                let val0 = tmp0.coerce_nominal_value();
                 match val0.get_sequence() {
                     Some(val_seq0) => {
                         let tmp1 = seq1.eval_with_loc(scope);
-                        let val1 = tmp1.coerce_mapped_value();
+                        let val1 = tmp1.coerce_nominal_value();
                         match val1.get_sequence() {
                             Some(val_seq1) => {
                                 if val_seq0.is_empty() {
@@ -947,7 +947,7 @@ impl Expr {
             Expr::FlatMap(expr, seq) => {
                 match seq
                     .eval_with_loc(scope)
-                    .coerce_mapped_value()
+                    .coerce_nominal_value()
                     .get_sequence()
                 {
                     Some(values) => {
@@ -966,7 +966,7 @@ impl Expr {
             }
             Expr::FlatMapAccum(expr, accum, _accum_type, seq) => match seq
                 .eval_with_loc(scope)
-                .coerce_mapped_value()
+                .coerce_nominal_value()
                 .get_sequence()
             {
                 Some(values) => {
@@ -994,7 +994,7 @@ impl Expr {
             },
             Expr::LeftFold(expr, accum, _accum_type, seq) => match seq
                 .eval_with_loc(scope)
-                .coerce_mapped_value()
+                .coerce_nominal_value()
                 .get_sequence()
             {
                 Some(values) => {
@@ -1016,7 +1016,7 @@ impl Expr {
             Expr::FindByKey(is_sorted, f_get_key, query_key, seq) => {
                 match seq
                     .eval_with_loc(scope)
-                    .coerce_mapped_value()
+                    .coerce_nominal_value()
                     .get_sequence()
                 {
                     Some(ValueSeq::ValueSeq(values)) => {
@@ -1096,7 +1096,7 @@ impl Expr {
 
     pub fn eval_value_with_loc<'a>(&self, scope: &'a LocScope<'a>) -> Value {
         self.eval_with_loc(scope)
-            .coerce_mapped_value()
+            .coerce_nominal_value()
             .clone_into_value()
     }
 
@@ -1582,21 +1582,19 @@ impl Decoder {
             }
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value_with_loc(scope).unwrap_usize();
-                Ok(WithErr::fold(
-                    (Vec::new(), input),
-                    0..count,
-                    |(mut v, input), _| {
+                Ok(
+                    WithErr::fold((Vec::new(), input), 0..count, |(mut v, input), _| {
                         Ok(a.parse_with_loc(program, scope, input)?
                             .map(|(va, next_input)| {
                                 v.push(va);
                                 (v, next_input)
                             }))
-                    },
-                )?
-                .map(|(v, input)| {
-                    let total_len = input.offset - start_offset;
-                    (ParsedValue::new_seq(v, start_offset, total_len), input)
-                }))
+                    })?
+                    .map(|(v, input)| {
+                        let total_len = input.offset - start_offset;
+                        (ParsedValue::new_seq(v, start_offset, total_len), input)
+                    }),
+                )
             }
             Decoder::RepeatBetween(reps_left_tree, min, max, a) => {
                 let min = min.eval_value_with_loc(scope).unwrap_usize();
-- 
2.43.0


From 67c7f2d4c7fd605f2ecbbf9801d9e32a14bd76e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:01 +0000
Subject: [PATCH 24/46] fix: the location-tracking decoder iterates over the
 same sequences as the plain one

---
 src/decoder.rs     |  2 +-
 src/loc_decoder.rs | 35 ++++++++++++++++++++---------------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 288f73f..0bb3236 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1334,7 +1334,7 @@ impl Decoder {
                 let val = expr.eval_value(scope);
                 let seq = val.get_sequence().expect("bad type for ForEach input");
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(seq.len()), input),
+                    (Vec::new(), input),
                     seq,
                     |(mut v, input), e| {
                         let new_scope = Scope::Single(SingleScope::new(scope, lbl, &e));
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 4a0f492..561be98 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -830,6 +830,10 @@ impl Expr {
                         char::from_u32(u32::try_from(x).unwrap())
                             .unwrap_or(char::REPLACEMENT_CHARACTER),
                     ),
+                    Value::Usize(x) => Value::Char(
+                        char::from_u32(u32::try_from(x).unwrap())
+                            .unwrap_or(char::REPLACEMENT_CHARACTER),
+                    ),
                     _ => panic!("AsChar: expected U8, U16, U32, or U64"),
                 },
             )),
@@ -953,10 +957,10 @@ impl Expr {
                     Some(values) => {
                         let mut vs: Vec<Value> = Vec::new();
                         for v in values {
-                            if let Value::Seq(vn) = expr.eval_lambda_with_loc(scope, &v) {
-                                vs.extend(vn);
-                            } else {
-                                panic!("FlatMap: expected Seq");
+                            match expr.eval_lambda_with_loc(scope, &v) {
+                                Value::Seq(vn) => vs.extend(vn),
+                                Value::EnumFromTo(range) => vs.extend(range.map(Value::from)),
+                                _ => panic!("FlatMap: expected Seq (or EnumFromTo)"),
                             }
                         }
                         Cow::Owned(ParsedValue::from_evaluated(Value::Seq(vs.into())))
@@ -1562,23 +1566,24 @@ impl Decoder {
                 .join(|(_, input)| db.parse_with_loc(program, scope, input)),
             Decoder::ForEach(expr, lbl, a) => {
                 let val = expr.eval_with_loc(scope);
-                let seq = val.get_sequence().expect("bad type for ForEach input");
-                Ok(WithErr::fold(
-                    (Vec::with_capacity(seq.len()), input),
-                    seq,
-                    |(mut v, input), e| {
+                let seq = val
+                    .coerce_nominal_value()
+                    .get_sequence()
+                    .expect("bad type for ForEach input");
+                Ok(
+                    WithErr::fold((Vec::new(), input), seq, |(mut v, input), e| {
                         let new_scope = LocScope::Single(LocSingleScope::new(scope, lbl, &e));
                         Ok(a.parse_with_loc(program, &new_scope, input)?
                             .map(|(va, next_input)| {
                                 v.push(va);
                                 (v, next_input)
                             }))
-                    },
-                )?
-                .map(|(v, input)| {
-                    let total_len = input.offset - start_offset;
-                    (ParsedValue::new_seq(v, start_offset, total_len), input)
-                }))
+                    })?
+                    .map(|(v, input)| {
+                        let total_len = input.offset - start_offset;
+                        (ParsedValue::new_seq(v, start_offset, total_len), input)
+                    }),
+                )
             }
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value_with_loc(scope).unwrap_usize();
-- 
2.43.0


From 4846825091fa9df558c69b7b07eebfc8c4d3d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:37 +0000
Subject: [PATCH 25/46] fix: a located repeat-until-sequence spans the elements
 it read

---
 src/loc_decoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 561be98..27d6626 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1687,9 +1687,10 @@ impl Decoder {
                     })?;
                     break_if_done!(res => (v, input));
                 }
-                let total_len = input.offset - start_offset;
-                Ok(res
-                    .map(|(v, input, _)| (ParsedValue::new_seq(v, start_offset, total_len), input)))
+                Ok(res.map(|(v, input, _)| {
+                    let total_len = input.offset - start_offset;
+                    (ParsedValue::new_seq(v, start_offset, total_len), input)
+                }))
             }
             Decoder::AccumUntil(f_done, f_update, init, _vt, a) => {
                 let accum = init.eval_value_with_loc(scope);
-- 
2.43.0


From 126f78723c52527276694bc465f56cef83065f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:22 +0000
Subject: [PATCH 26/46] fix: compiling a counted repetition of a nullable
 format terminates

---
 src/codegen/typed_decoder.rs |  4 ++++
 src/decoder.rs               | 16 ++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/codegen/typed_decoder.rs b/src/codegen/typed_decoder.rs
index 2e00831..2e43715 100644
--- a/src/codegen/typed_decoder.rs
+++ b/src/codegen/typed_decoder.rs
@@ -358,6 +358,10 @@ impl<'a> GTCompiler<'a> {
     }
 
     fn __repeat_next(format: &'a GTFormat, next: Rc<Next<'a>>) -> Rc<Next<'a>> {
+        if format.is_nullable() {
+            // NOTE - looking through one nullable element after another would never terminate
+            return Rc::new(Next::RepeatMax(1, MaybeTyped::Typed(format), next));
+        }
         Rc::new(Next::Repeat(MaybeTyped::Typed(format), next))
     }
 
diff --git a/src/decoder.rs b/src/decoder.rs
index 0bb3236..c53d930 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -576,7 +576,11 @@ impl<'a> Compiler<'a> {
     /// Extracted helper to construct the inner `next` value to be used for
     /// compiling the inner format of `RepeatCount` and similar repeat-style
     /// formats that terminate on a non-MatchTree condition.
-    fn __repeat_next(format: &'a Format, next: Rc<Next<'a>>) -> Rc<Next<'a>> {
+    fn __repeat_next(&self, format: &'a Format, next: Rc<Next<'a>>) -> Rc<Next<'a>> {
+        if format.is_nullable(self.module) {
+            // NOTE - looking through one nullable element after another would never terminate
+            return Rc::new(Next::RepeatMax(1, MaybeTyped::Untyped(format), next));
+        }
         // NOTE - stop condition is determined by value at runtime, but structurally the matchtree looks identical to a standard Repeat
         Rc::new(Next::Repeat(MaybeTyped::Untyped(format), next))
     }
@@ -713,7 +717,7 @@ impl<'a> Compiler<'a> {
                 }
             }
             Format::RepeatCount(expr, a) => {
-                let next = Self::__repeat_next(a, next);
+                let next = self.__repeat_next(a, next);
                 let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::RepeatCount(expr.clone(), da))
             }
@@ -758,22 +762,22 @@ impl<'a> Compiler<'a> {
             }
             Format::RepeatUntilLast(expr, a) => {
                 // FIXME - the `Next` value we pass in is probably not right
-                let next = Self::__repeat_next(a, next);
+                let next = self.__repeat_next(a, next);
                 let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::RepeatUntilLast(expr.clone(), da))
             }
             Format::ForEach(expr, lbl, a) => {
-                let next = Self::__repeat_next(a, next);
+                let next = self.__repeat_next(a, next);
                 let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::ForEach(expr.clone(), lbl.clone(), da))
             }
             Format::RepeatUntilSeq(expr, a) => {
-                let next = Self::__repeat_next(a, next);
+                let next = self.__repeat_next(a, next);
                 let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::RepeatUntilSeq(expr.clone(), da))
             }
             Format::AccumUntil(f_done, f_update, init, vt, a) => {
-                let next = Self::__repeat_next(a, next);
+                let next = self.__repeat_next(a, next);
                 let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::AccumUntil(
                     f_done.clone(),
-- 
2.43.0


From de6103284907101c07a57acbb1057dee72e7a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:22 +0000
Subject: [PATCH 27/46] fix: choices inside a conditional format look ahead to
 what follows it

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index c53d930..391fe6c 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -788,7 +788,7 @@ impl<'a> Compiler<'a> {
                 ))
             }
             Format::Maybe(x, a) => {
-                let da = Box::new(self.compile_format(a, Rc::new(Next::Empty))?);
+                let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::Maybe(x.clone(), da))
             }
             Format::Peek(a) => {
-- 
2.43.0


From 55aeaac9b6352859b051b50f57e5c578eb094402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:45 +0000
Subject: [PATCH 28/46] fix: a shift by 2^32 or more is an overflow, not a
 shift by the low 32 bits of the distance

---
 src/decoder/value.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 9907a28..3771de9 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -435,7 +435,7 @@ where
     T: num_traits::CheckedRem,
     T: num_traits::CheckedShl,
     T: num_traits::CheckedShr,
-    T: num_traits::AsPrimitive<u32>,
+    T: num_traits::ToPrimitive,
     T: std::ops::BitOr<Output = T>,
     T: std::ops::BitAnd<Output = T>,
 {
@@ -455,8 +455,14 @@ where
         Arith::Rem => left
             .checked_rem(&right)
             .unwrap_or_else(|| panic!("integer overflow")),
-        Arith::Shl => left << right.as_(),
-        Arith::Shr => left >> right.as_(),
+        Arith::Shl => right
+            .to_u32()
+            .and_then(|n| left.checked_shl(n))
+            .unwrap_or_else(|| panic!("integer overflow")),
+        Arith::Shr => right
+            .to_u32()
+            .and_then(|n| left.checked_shr(n))
+            .unwrap_or_else(|| panic!("integer overflow")),
         Arith::BitOr => left | right,
         Arith::BitAnd => left & right,
         Arith::BoolOr | Arith::BoolAnd => unreachable!("bool ops should be handled separately"),
-- 
2.43.0


From fe921ba408aaaa928fc57766b6ba8e7c777f1c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:45 +0000
Subject: [PATCH 29/46] fix: a sub-sequence may reach the end of an integer
 range

---
 src/decoder/seq_kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/seq_kind.rs b/src/decoder/seq_kind.rs
index 11d8717..4309ac4 100644
--- a/src/decoder/seq_kind.rs
+++ b/src/decoder/seq_kind.rs
@@ -54,7 +54,7 @@ pub(crate) fn sub_range(
     len: usize,
 ) -> std::ops::Range<usize> {
     assert!(
-        start + len < range.len(),
+        start + len <= range.len(),
         "sub_range invalid: start={start} len={len} range={range:?}"
     );
     range.start + start..range.start + start + len
-- 
2.43.0


From 229ca4de2ef241ce8325aab2586a83962b245718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:58 +0000
Subject: [PATCH 30/46] fix: generated lookahead accepts at the end of input
 and on other bytes, as the interpreter does

---
 src/codegen/mod.rs | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 48cfa17..29c7b44 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -739,6 +739,26 @@ fn invoke_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> RustExpr {
 // follows the same rules as CaseLogic::to_ast as far as the expression type of the generated code
 fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
     fn expand_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
+        let descent = expand_descent(tree, ctxt);
+        match tree.accept {
+            // NOTE - as in `MatchTree::matches`, running out of input selects the accepting index (if there is one)
+            Some(ix) if !tree.branches.is_empty() => {
+                let at_end = model::eq0(model::rem_bytes(ctxt.parser()));
+                let accept = vec![RustStmt::Return(
+                    ReturnKind::Implicit,
+                    RustExpr::num_lit(ix),
+                )];
+                GenBlock::simple_expr(RustExpr::Control(Box::new(RustControl::If(
+                    Box::new(at_end),
+                    accept,
+                    Some(descent.flatten()),
+                ))))
+            }
+            _ => descent,
+        }
+    }
+
+    fn expand_descent(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
         match &tree.branches[..] {
             [] => {
                 if let Some(ix) = tree.accept {
@@ -822,14 +842,23 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
                     }
                 }
 
-                let value = Box::new(RustExpr::err(
-                    RustExpr::scoped(["ParseError"], "ExcludedBranch")
-                        .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
-                ));
-                let match_block = RustControl::Match(
-                    call,
-                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value }),
-                );
+                let body = if let Some(ix) = tree.accept {
+                    cases.push((
+                        MatchCaseLHS::Pattern(RustPattern::CatchAll(None)),
+                        vec![RustStmt::Return(
+                            ReturnKind::Implicit,
+                            RustExpr::num_lit(ix),
+                        )],
+                    ));
+                    RustMatchBody::Irrefutable(cases)
+                } else {
+                    let value = Box::new(RustExpr::err(
+                        RustExpr::scoped(["ParseError"], "ExcludedBranch")
+                            .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
+                    ));
+                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value })
+                };
+                let match_block = RustControl::Match(call, body);
                 GenBlock::simple_expr(RustExpr::Control(Box::new(match_block)))
             }
         }
-- 
2.43.0


From 08f80b94c4ca1ad1f461a5aae058c808637bd436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:22 +0000
Subject: [PATCH 31/46] fix: generated repetitions check the minimum count at
 the end of input too

---
 src/codegen/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 29c7b44..3ac1841 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3077,10 +3077,10 @@ where
                     )
                     .into();
                     let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_ix], Some(escape_clause.into())),
-                    )
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_ix],
+                        Some(escape_clause.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R1BOM_ACCUM).into()))
@@ -3111,10 +3111,10 @@ where
                     };
                     let b_stop = GenControl::Break.into();
                     let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_reps_left], Some(escape_clause.into())),
-                    )
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_reps_left],
+                        Some(escape_clause.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::BETWEEN_ACCUM).into()))
-- 
2.43.0


From 7f4f9bb896e9aa68a23a63b43f3cb62b0a6789b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:36 +0000
Subject: [PATCH 32/46] fix: a generated alternation is over once a branch has
 succeeded

---
 src/codegen/mod.rs   | 10 ++++++++--
 src/codegen/model.rs |  5 +++++
 src/parser/mod.rs    |  9 +++++++++
 src/parser/offset.rs | 20 ++++++++++++++++++++
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 3ac1841..519d613 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3501,7 +3501,8 @@ where
                 let mut stmts = Vec::with_capacity(2 * l - 1);
                 let mut last_ctrl = None;
 
-                {
+                // NOTE - the final branch is parsed outside of the alternation
+                if l > 1 {
                     let start_alternation = model::start_alt(ctxt.parser()).into();
                     stmts.push(start_alternation);
                 }
@@ -3510,7 +3511,12 @@ where
                     let n_left = (l - 1) - ix;
                     let on_match = |ret_expr: RustExpr| match n_left {
                         0 => GenBlock::implicit_return(ret_expr),
-                        1.. => GenBlock::explicit_return(ret_expr),
+                        1.. => {
+                            let mut block = GenBlock::explicit_return(ret_expr);
+                            let end_alt = RustStmt::Expr(model::try_end_alt(ctxt.parser()));
+                            block.prepend_stmt(GenStmt::Embed(end_alt));
+                            block
+                        }
                     };
                     let on_err = match n_left {
                         0 => GenBlock::implicit_return(RustExpr::ResultErr(Box::new(
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index 2aaf336..a56e9d6 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -315,6 +315,11 @@ pub fn start_alt(parser: RustExpr) -> RustExpr {
     call!(parser, start_alt)
 }
 
+/// Model RustExpr for leaving a `Format::UnionNondet` parse-context upon the success of a non-final branch.
+pub fn try_end_alt(parser: RustExpr) -> RustExpr {
+    try_call!(parser, end_alt)
+}
+
 pub fn try_next_alt(parser: RustExpr, next_is_final: bool) -> RustExpr {
     try_call!(parser, next_alt, RustExpr::bool_lit(next_is_final))
 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e638763..44bbc09 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -324,6 +324,15 @@ impl<'a> Parser<'a> {
         Ok(())
     }
 
+    /// Closes the latest 'Alts' context after one of its branches was parsed successfully, so that a later failure
+    /// is not recovered to the branch-point of an alternation that is already over.
+    ///
+    /// Not required for the final branch, for which [`Self::next_alt`] already closed the context.
+    pub fn end_alt(&mut self) -> Result<(), ParseError> {
+        self.offset.close_parallel()?;
+        Ok(())
+    }
+
     /// Returns the number of bytes that remain in the current, possibly slice-limited context.
     ///
     /// The return value will be `0` if and only if `self.read_byte` will return `Err(ParseError::Overrun(...))`.
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 1267c3f..c89b2b7 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -288,6 +288,19 @@ impl ViewStack {
         }
         Err(StateError::NoRecovery)
     }
+
+    /// Removes the innermost [`Lens::Alts`], and anything above it, without changing the offset.
+    ///
+    /// Returns `Err(StateError::NoRecovery)` if there is no such `Lens`.
+    pub(crate) fn close_alts(&mut self) -> Result<(), StateError> {
+        let ix = self
+            .stack
+            .iter()
+            .rposition(|lens| matches!(lens, Lens::Alts { .. }))
+            .ok_or(StateError::NoRecovery)?;
+        self.stack.truncate(ix);
+        Ok(())
+    }
 }
 
 /// Enumeration over the (four) format-combinators that require special handling,
@@ -619,6 +632,13 @@ impl BufferOffset {
         self.view_stack.push_lens(parallel);
     }
 
+    /// Discards the innermost [`Lens::Alts`] after one of its branches has succeeded, keeping the current offset.
+    ///
+    /// Returns `Err` if there is no such `Lens`.
+    pub(crate) fn close_parallel(&mut self) -> Result<(), StateError> {
+        self.view_stack.close_alts()
+    }
+
     /// Performs a [`ViewStack::restore`] operation on the internal ViewStack, replacing
     /// the current offset and ViewStack's values with the return-value of that method call.
     ///
-- 
2.43.0


From 2aef134fc891131201570099cccd188995b23997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:57 +0000
Subject: [PATCH 33/46] fix: generated code rewinds a permitted failure before
 yielding the fallback value

---
 src/codegen/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 519d613..49f48ca 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3644,13 +3644,19 @@ impl ToAst for DerivedLogic<GTExpr> {
             DerivedLogic::Permit(inner, expr) => {
                 let rhs = inner.to_ast(ctxt).abstracted_try();
                 let bind_res = GenStmt::assign(model::PERMIT_BIND, rhs);
-                let if_ok = GenBlock::simple_expr(RustExpr::local(model::PERMIT_BIND));
+                // NOTE - the fallback-value consumes nothing, so a failed parse has to be rewound
+                let open_alt = GenStmt::Embed(RustStmt::Expr(model::start_alt(ctxt.parser())));
+                let if_ok = GenBlock::lift_block(
+                    [RustStmt::Expr(model::try_end_alt(ctxt.parser()))],
+                    RustExpr::local(model::PERMIT_BIND),
+                );
                 let if_err = {
                     let (stmts, expr) = model::yield_value_with_error(
                         (&**expr).clone(),
                         RustExpr::local(model::PERMIT_ERR),
                     );
-                    GenBlock::lift_block(stmts, expr)
+                    let rewind = RustStmt::Expr(model::try_next_alt(ctxt.parser(), true));
+                    GenBlock::lift_block(std::iter::once(rewind).chain(stmts), expr)
                 };
                 let ctrl = GenExpr::Control(Box::new(RustControl::Match(
                     Box::new(RustExpr::local(model::PERMIT_BIND)),
@@ -3662,7 +3668,7 @@ impl ToAst for DerivedLogic<GTExpr> {
                         .to_vec(),
                     ),
                 )));
-                let block = GenBlock::from_parts(vec![bind_res], Some(ctrl));
+                let block = GenBlock::from_parts(vec![open_alt, bind_res], Some(ctrl));
                 block
             }
             #[cfg(feature = "format_enforce")]
-- 
2.43.0


From e93a97818bf1a7a515d7fb3c14fe800e0c85c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:00 +0000
Subject: [PATCH 34/46] fix: a view opened inside a slice ends where the slice
 ends

---
 src/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 44bbc09..816e065 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -44,7 +44,12 @@ impl<'a> Parser<'a> {
         let (cur_offset, None) = self.offset.get_current_offset().as_bytes() else {
             panic!("cannot open view while in bits-mode processing");
         };
-        self.buffer.offset(cur_offset).unwrap()
+        let view = self.buffer.offset(cur_offset).unwrap();
+        // NOTE - a view cannot see past the end of the slice it is opened in
+        View {
+            buffer: &view.buffer[..self.remaining()],
+            ..view
+        }
     }
 
     /// Advances the offset by `offset` positions, as if calling [`Self::read_byte`] that many
-- 
2.43.0


From 6269a57a9e01228897858b71666ce8a2c5f4f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:03 +0000
Subject: [PATCH 35/46] fix: positions taken while parsing from a view are
 absolute, like the targets of seeks

---
 src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 816e065..2de88e4 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -364,12 +364,14 @@ impl<'a> Parser<'a> {
     /// Returns a `u64`-valued byte-offset equivalent to the stored `ByteOffset`, for
     /// use in association with [`Format::Pos`].
     ///
+    /// As with [`Self::advance_or_seek`], it is absolute even when parsing from a view.
+    ///
     /// # Panics
     ///
     /// As currently defined, will panic if we are in bits-mode.
     pub fn get_offset_u64(&self) -> u64 {
         match self.get_current_offset() {
-            ByteOffset::Bytes(n) => n as u64,
+            ByteOffset::Bytes(n) => (self.buffer.start_offset + n) as u64,
             ByteOffset::Bits { .. } => {
                 // FIXME - this panic should perhaps be eliminated if possible
                 unreachable!("no unequivocal way to compute a byte-offset while in bits-mode");
-- 
2.43.0


From 5d59dd643c7f1fc84e154a6a7ad33e2a279242cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:07 +0000
Subject: [PATCH 36/46] fix: the target of a generated seek cannot overflow the
 type of its operands

---
 src/codegen/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 49f48ca..a98aff6 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2941,7 +2941,12 @@ where
             EngineLogic::OffsetPeek(base_addr, offs, cl_inner) => {
                 let bind_tgt_offset_var = RustStmt::assign(
                     model::OFFS_PEEK_TARGET,
-                    RustExpr::add(base_addr.clone(), offs.clone()),
+                    // NOTE - computed without overflow, so that an unreachable target is refused by the seek
+                    RustExpr::call_method_with(
+                        base_addr.clone().cast_as_usize(),
+                        "saturating_add",
+                        [offs.clone().cast_as_usize()],
+                    ),
                 )
                 .into();
                 let advance_or_seek = RustStmt::assign(
-- 
2.43.0


From 9bbc314ffa8c42e3e5db8ed9de9524ae4a77b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:10 +0000
Subject: [PATCH 37/46] fix: generated code maps an invalid code point to the
 replacement character, as the interpreter does

---
 src/codegen/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index a98aff6..f6687dc 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1249,7 +1249,10 @@ fn embed_expr(expr: &GTExpr, info: ExprInfo) -> RustExpr {
         }
         TypedExpr::AsChar(codepoint) => RustExpr::scoped(["char"], "from_u32")
             .call_with([embed_expr_nat(codepoint)])
-            .call_method("unwrap"),
+            .call_method_with(
+                "unwrap_or",
+                [RustExpr::scoped(["char"], "REPLACEMENT_CHARACTER")],
+            ),
         TypedExpr::SeqLength(seq) => {
             // NOTE - SeqLength is treated as U32 in Format context, so any operations on it have to be done on a U32 value rather than the natural `.len(): _ -> usize` return-value
             RustExpr::Operation(RustOp::AsCast(
-- 
2.43.0


From f7394c03ebdfffe999113f5084d39f35a940c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:14 +0000
Subject: [PATCH 38/46] fix: alignment while parsing from a view is relative to
 the start of the stream, as in the interpreter

---
 src/parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 2de88e4..dca0746 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -172,11 +172,15 @@ impl<'a> Parser<'a> {
     /// ```
     pub fn skip_align(&mut self, n: usize) -> Result<(), ParseError> {
         let current_offset = self.offset.get_current_offset();
+        // NOTE - as with `Self::get_offset_u64`, byte-offsets are aligned relative to the start of the stream, even in a view
+        let base = self.buffer.start_offset;
         let aligned_offset = match current_offset {
-            ByteOffset::Bytes(nbytes) if nbytes % n == 0 => current_offset,
+            ByteOffset::Bytes(nbytes) if (base + nbytes) % n == 0 => current_offset,
             ByteOffset::Bits { bits_advanced, .. } if bits_advanced % n == 0 => current_offset,
 
-            ByteOffset::Bytes(nbytes) => ByteOffset::from_bytes(((nbytes / n) + 1) * n),
+            ByteOffset::Bytes(nbytes) => {
+                ByteOffset::from_bytes((((base + nbytes) / n) + 1) * n - base)
+            }
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
-- 
2.43.0


From f965ddd62179e72302bfc52501d1daf2efe2f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:21 +0000
Subject: [PATCH 39/46] fix: a Huffman table without codes, or with too many,
 decodes nothing instead of panicking

---
 src/decoder.rs     | 6 +++++-
 src/loc_decoder.rs | 6 +++++-
 src/prelude.rs     | 2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 391fe6c..dd26e7a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1755,7 +1755,7 @@ fn value_to_vec_usize(v: &Value) -> Vec<usize> {
 }
 
 fn make_huffman_codes(lengths: &[usize]) -> Format {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
@@ -1775,6 +1775,10 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
 
     for (n, &len) in lengths.iter().enumerate() {
         if len != 0 {
+            if next_code[len] >> len != 0 {
+                // NOTE - an over-subscribed table has no prefix code, so nothing can be decoded with it
+                return Format::Fail;
+            }
             codes.push(Format::Map(
                 Box::new(bit_range(len, next_code[len])),
                 Box::new(Expr::Lambda(
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 27d6626..e860229 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -2024,7 +2024,7 @@ fn value_to_vec_usize(v: &ParsedValue) -> Vec<usize> {
 }
 
 fn make_huffman_codes(lengths: &[usize]) -> Format {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
@@ -2044,6 +2044,10 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
 
     for (n, &len) in lengths.iter().enumerate() {
         if len != 0 {
+            if next_code[len] >> len != 0 {
+                // NOTE - an over-subscribed table has no prefix code, so nothing can be decoded with it
+                return Format::Fail;
+            }
             codes.push(Format::Map(
                 Box::new(bit_range(len, next_code[len])),
                 Box::new(Expr::Lambda(
diff --git a/src/prelude.rs b/src/prelude.rs
index 4c218d9..ee5ead2 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -301,7 +301,7 @@ where
 pub fn make_huffman_decoder(
     lengths: &[usize],
 ) -> PResult<impl for<'a> Fn(&mut Parser<'a>) -> PResult<u16> + use<>> {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
-- 
2.43.0


From 2301b56d0b1620a87c049691900d2d0d313f3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:43 +0000
Subject: [PATCH 40/46] fix: refuse an ambiguous bounded repetition with an
 error instead of a panic

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index dd26e7a..2ed7fc3 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -749,7 +749,7 @@ impl<'a> Compiler<'a> {
                         branches.push(f_count);
                     }
                     let Some(tree) = MatchTree::build(self.module, &branches[..], next) else {
-                        panic!("cannot build match tree for {format:?}")
+                        return Err(anyhow!("cannot build match tree for {:?}", format));
                     };
                     tree
                 };
-- 
2.43.0


From c45c45a245ed005aecf245029ad9df3d2d473d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:04 +0000
Subject: [PATCH 41/46] fix: lookahead through a slice whose content may stop
 early must allow any remaining bytes

---
 src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 21c666f..e2fce2d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1613,14 +1613,19 @@ impl<'a> MatchTreeStep<'a> {
     ) -> MatchTreeStep<'a> {
         if n > 0 {
             let mut tree = Self::from_next(module, inner);
+            // the rest of the slice is skipped when `inner` accepts without consuming all of it
+            let mut skipped = ByteSet::empty();
+            if tree.accept || tree.branches.is_empty() {
+                skipped = ByteSet::full();
+            }
             tree.accept = false;
-            if tree.branches.is_empty() {
+            for (bs, inside) in tree.branches.iter_mut() {
+                skipped = skipped.difference(bs);
+                *inside = Rc::new(Next::Slice(n - 1, inside.clone(), next.clone()));
+            }
+            if !skipped.is_empty() {
                 let next = Rc::new(Next::Slice(n - 1, Rc::new(Next::Empty), next.clone()));
-                tree.branches.push((ByteSet::full(), next));
-            } else {
-                for (_bs, inside) in tree.branches.iter_mut() {
-                    *inside = Rc::new(Next::Slice(n - 1, inside.clone(), next.clone()));
-                }
+                tree.branches.push((skipped, next));
             }
             tree
         } else {
-- 
2.43.0


From 13ab66069c00d31a7413cb67875d91d00e362b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:12 +0000
Subject: [PATCH 42/46] fix: lookahead inside a bounded repetition allows for
 any number of further elements

---
 src/codegen/typed_decoder.rs | 8 ++++----
 src/decoder.rs               | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/codegen/typed_decoder.rs b/src/codegen/typed_decoder.rs
index 2e43715..184aa4e 100644
--- a/src/codegen/typed_decoder.rs
+++ b/src/codegen/typed_decoder.rs
@@ -546,18 +546,18 @@ impl<'a> GTCompiler<'a> {
             }
             TypedFormat::RepeatBetween(gt, min_expr, max_expr, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
-                let Some(min) = min_expr.bounds().as_exact() else {
+                if min_expr.bounds().as_exact().is_none() {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
-                };
+                }
                 let Some(max) = max_expr.bounds().as_exact() else {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
                 };
 
+                // NOTE - one decoder serves every element, so it has to allow for any number of further ones
                 let da = self.compile_gt_format(
                     a,
                     None,
-                    Rc::new(Next::RepeatBetween(
-                        min.saturating_sub(1),
+                    Rc::new(Next::RepeatMax(
                         max.saturating_sub(1),
                         MaybeTyped::Typed(a),
                         next.clone(),
diff --git a/src/decoder.rs b/src/decoder.rs
index 2ed7fc3..840296e 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -723,17 +723,17 @@ impl<'a> Compiler<'a> {
             }
             Format::RepeatBetween(xmin, xmax, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
-                let Some(min) = xmin.bounds().as_exact() else {
+                if xmin.bounds().as_exact().is_none() {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
-                };
+                }
                 let Some(max) = xmax.bounds().as_exact() else {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
                 };
 
+                // NOTE - one decoder serves every element, so it has to allow for any number of further ones
                 let da = self.compile_format(
                     a,
-                    Rc::new(Next::RepeatBetween(
-                        min.saturating_sub(1),
+                    Rc::new(Next::RepeatMax(
                         max.saturating_sub(1),
                         MaybeTyped::Untyped(a),
                         next.clone(),
-- 
2.43.0


From efa9bccf19b02c7ee27112a989535b172415e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:17 +0000
Subject: [PATCH 43/46] fix: an item whose choice accepts early is compiled for
 what follows each call

---
 src/format.rs | 14 +++++++++-----
 src/lib.rs    |  6 ++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 12f1662..39bab2c 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -450,10 +450,10 @@ impl Format {
                 fmts.iter().any(|f| f.depends_on_next(module))
             }
             Format::Repeat(..) | Format::Repeat1(..) | Format::RepeatBetween(..) => true,
-            Format::RepeatCount(..) | Format::RepeatUntilLast(..) | Format::RepeatUntilSeq(..) => {
-                false
-            }
-            Format::AccumUntil(..) => false,
+            Format::RepeatCount(_, f)
+            | Format::RepeatUntilLast(_, f)
+            | Format::RepeatUntilSeq(_, f)
+            | Format::AccumUntil(_, _, _, _, f) => f.depends_on_next(module),
             Format::Maybe(..) => true,
             Format::Peek(..) | Format::PeekNot(..) => false,
             Format::Slice(..) => false,
@@ -488,7 +488,11 @@ impl Format {
             }
             fs.push(f.clone());
         }
-        MatchTree::build(module, &fs, Rc::new(Next::Empty)).is_none()
+        // NOTE - a branch that accepts where another one continues can only be told apart by what follows
+        match MatchTree::build(module, &fs, Rc::new(Next::Empty)) {
+            None => true,
+            Some(tree) => tree.accepts_early(),
+        }
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index e2fce2d..6652cbe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2298,6 +2298,12 @@ impl MatchTree {
         }
     }
 
+    /// Returns `true` if some input is accepted although a longer one leads to a different decision.
+    fn accepts_early(&self) -> bool {
+        (self.accept.is_some() && !self.branches.is_empty())
+            || self.branches.iter().any(|(_, tree)| tree.accepts_early())
+    }
+
     /// Constructs a new `MatchTreeLevel` from an alternation of branches and a follow-set of partially decomposed formats,
     /// to within a fixed but externally opaque lookahead-depth.
     ///
-- 
2.43.0


From 90c852a4f6d41c23a1d678e1b9e47d593059d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:47 +0000
Subject: [PATCH 44/46] verification hook: access to size bounds under
 cfg(doodle_verif)

---
 src/format.rs | 6 ++++++
 src/lib.rs    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/format.rs b/src/format.rs
index 39bab2c..2d56fc9 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -424,6 +424,12 @@ impl Format {
         }
     }
 
+    /// Access to [`Self::match_bounds`] for verification builds (`--cfg doodle_verif`)
+    #[cfg(doodle_verif)]
+    pub fn verif_match_bounds(&self, module: &FormatModule) -> Bounds {
+        self.match_bounds(module)
+    }
+
     /// Returns `true` if the format could match the empty byte string
     pub(crate) fn is_nullable(&self, module: &FormatModule) -> bool {
         self.match_bounds(module).min == 0
diff --git a/src/lib.rs b/src/lib.rs
index 6652cbe..105b764 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -701,6 +701,12 @@ impl Expr {
         }
     }
 
+    /// Access to [`Self::bounds`] for verification builds (`--cfg doodle_verif`)
+    #[cfg(doodle_verif)]
+    pub fn verif_bounds(&self) -> Bounds {
+        self.bounds()
+    }
+
     /// Conservative bounds for unsigned numeric expressions
     fn bounds(&self) -> Bounds {
         match self {
-- 
2.43.0


From 694d36e3254fc495f2ca8d16df98022107d6071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:29 +0000
Subject: [PATCH 45/46] fix: a permitted failure consumes nothing, so its size
 bounds include zero

---
 src/codegen/typed_format.rs | 6 ++++--
 src/format.rs               | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/codegen/typed_format.rs b/src/codegen/typed_format.rs
index cba0d8e..73111f3 100644
--- a/src/codegen/typed_format.rs
+++ b/src/codegen/typed_format.rs
@@ -481,9 +481,11 @@ impl TypedFormat<GenType> {
             }
             #[cfg(feature = "format_enforce")]
             TypedFormat::Enforce(.., inner) => inner.match_bounds(),
-            TypedFormat::Permit(.., inner, _) | TypedFormat::Hint(.., inner) => {
-                inner.match_bounds()
+            // NOTE - nothing is consumed when a permitted failure yields the fallback value
+            TypedFormat::Permit(.., inner, _) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds())
             }
+            TypedFormat::Hint(.., inner) => inner.match_bounds(),
             TypedFormat::LiftedOption(_, f) => {
                 f.as_ref().map_or(Bounds::exact(0), |f| f.match_bounds())
             }
diff --git a/src/format.rs b/src/format.rs
index 2d56fc9..7fc5e33 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -312,7 +312,11 @@ impl Format {
             Format::LetFormat(first, _, second) | Format::MonadSeq(first, second) => {
                 first.match_bounds(module) + second.match_bounds(module)
             }
-            Format::Permit(inner, ..) | Format::Hint(.., inner) => inner.match_bounds(module),
+            // NOTE - nothing is consumed when a permitted failure yields the fallback value
+            Format::Permit(inner, ..) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds(module))
+            }
+            Format::Hint(.., inner) => inner.match_bounds(module),
             #[cfg(feature = "format_enforce")]
             Format::Enforce(inner) => inner.match_bounds(module),
             Format::LiftedOption(opt) => match opt {
-- 
2.43.0


From 8e0456cba600ee53d035b9b21bd2519e89f52bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:21 +0000
Subject: [PATCH 46/46] fix: the bounds of a left shift allow for dropped bits

---
 src/lib.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 105b764..a405143 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -707,6 +707,22 @@ impl Expr {
         self.bounds()
     }
 
+    /// Greatest value of the narrowest integer type a numeric expression might have
+    fn width_limit(&self) -> usize {
+        match self {
+            Expr::U16(_) | Expr::AsU16(_) | Expr::U16Be(_) | Expr::U16Le(_) => u16::MAX as usize,
+            Expr::U32(_)
+            | Expr::AsU32(_)
+            | Expr::U32Be(_)
+            | Expr::U32Le(_)
+            | Expr::SeqLength(_) => u32::MAX as usize,
+            Expr::U64(_) | Expr::AsU64(_) | Expr::U64Be(_) | Expr::U64Le(_) => u64::MAX as usize,
+            Expr::Arith(_, a, b) => usize::max(a.width_limit(), b.width_limit()),
+            Expr::Unary(_, a) => a.width_limit(),
+            _ => u8::MAX as usize,
+        }
+    }
+
     /// Conservative bounds for unsigned numeric expressions
     fn bounds(&self) -> Bounds {
         match self {
@@ -739,7 +755,15 @@ impl Expr {
                 Arith::Div => a.bounds() / b.bounds(),
                 Arith::BitOr => a.bounds() | b.bounds(),
                 Arith::BitAnd => a.bounds() & b.bounds(),
-                Arith::Shl => a.bounds() << b.bounds(),
+                Arith::Shl => {
+                    // NOTE - bits shifted past the width of the operands are dropped
+                    let shifted = a.bounds() << b.bounds();
+                    let limit = usize::max(a.width_limit(), b.width_limit());
+                    match shifted.max {
+                        Some(max) if max <= limit => shifted,
+                        _ => Bounds { min: 0, ..shifted },
+                    }
+                }
                 Arith::Shr => a.bounds() >> b.bounds(),
                 Arith::Rem => Bounds::rem(a.bounds(), b.bounds()),
                 Arith::BoolOr | Arith::BoolAnd => Bounds::any(),
-- 
2.43.0

