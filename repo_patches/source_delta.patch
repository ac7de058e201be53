From 0844b66a88f2800153ca28507fa34c2183debba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 01/21] fix: reject oversized reads instead of wrapping the
 bounds check

Index::increment_checked added the requested size to the index before
comparing it with the limit; a request close to usize::MAX wrapped
around (release) or panicked (debug).
---
 src/internal/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 3ce1ddc..9bf21e5 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -40,7 +40,7 @@ impl Index {
     #[inline]
     pub fn increment_checked(&mut self, n: usize, lim: usize) -> (usize, bool) {
         let ret = self.0;
-        let is_valid = self.0 + n <= lim;
+        let is_valid = matches!(self.0.checked_add(n), Some(end) if end <= lim);
         if is_valid {
             self.0 += n;
         }
-- 
2.43.0


From f5936b36ea5cf3959875cabb3d4e77595f482f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 02/21] fix: compute the room left in the buffer without
 overflow in set_fit

A window request larger than the buffer underflowed while building the
error (bytes left is measured from the current offset, not from the end
of the rejected window), and one near usize::MAX overflowed.
---
 src/internal/offset.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 9bf21e5..59ec83b 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -291,16 +291,15 @@ impl ContextOffset {
     /// of the stack, assuming it is non-empty.
     pub fn set_fit(&mut self, winsize: usize) -> ParseResult<()> {
         let cur: usize = self.index();
-        let new_tgt: usize = cur + winsize;
-        if new_tgt > self.abs {
-            let bytes_left = self.abs - winsize;
+        let bytes_left: usize = self.abs - cur;
+        if winsize > bytes_left {
             let request = winsize;
             Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
                 bytes_left,
                 request,
             }))
         } else {
-            self.frames.push_frame(new_tgt)
+            self.frames.push_frame(cur + winsize)
         }
     }
 
-- 
2.43.0


From d667c54070e0915eb2ef0cf05d20b90b4af92f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 03/21] fix: report window sizes, not absolute offsets, when a
 window does not fit

OpenWouldExceedWindow carries the size of the current window and of the
request; ContextOffset filled it with absolute target offsets.
---
 src/internal/offset.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 59ec83b..a65c94e 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -298,6 +298,11 @@ impl ContextOffset {
                 bytes_left,
                 request,
             }))
+        } else if winsize > self.rem() {
+            Err(ParseError::Window(WindowError::OpenWouldExceedWindow {
+                limit: self.rem(),
+                request: winsize,
+            }))
         } else {
             self.frames.push_frame(cur + winsize)
         }
-- 
2.43.0


From f578dda6244ce5eed464a2911f04b4a658114efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:39 +0000
Subject: [PATCH 04/21] fix: keep the window open when closing it fails

ContextOffset::enforce_target removed the innermost window even when
reporting CloseWithResidue, so that the limit silently widened.
---
 src/internal/offset.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index a65c94e..04926a6 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -357,18 +357,24 @@ impl ContextOffset {
     pub fn enforce_target(&mut self) -> crate::parse::error::ParseResult<()> {
         let cur: usize = self.index();
 
-        match self.frames.pop() {
+        match self.frames.peek() {
             None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             Some(tgt) => match tgt.cmp(&cur) {
-                std::cmp::Ordering::Equal => Ok(()),
+                std::cmp::Ordering::Equal => {
+                    self.frames.pop();
+                    Ok(())
+                }
                 std::cmp::Ordering::Greater => {
                     Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual: tgt - cur,
                     }))
                 }
-                std::cmp::Ordering::Less => Err(ParseError::Window(WindowError::OffsetOverflow {
-                    excess: cur - tgt,
-                })),
+                std::cmp::Ordering::Less => {
+                    self.frames.pop();
+                    Err(ParseError::Window(WindowError::OffsetOverflow {
+                        excess: cur - tgt,
+                    }))
+                }
             },
         }
     }
-- 
2.43.0


From 55dde19093657dff8cdfbfa235d0e2e392696bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 05/21] fix: do not let SliceParser treat its buffer as a
 context window

A fresh SliceParser reported its target as reached or closed its own
buffer, and a failed close dropped the window; ByteParser and MemoParser
report CloseWithoutWindow and CloseWithResidue and keep their state.
---
 src/internal/view.rs |  9 +++++++++
 src/parse/mod.rs     | 25 ++++++++++++-------------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/internal/view.rs b/src/internal/view.rs
index 8c0b0f2..9db647c 100644
--- a/src/internal/view.rs
+++ b/src/internal/view.rs
@@ -71,6 +71,15 @@ pub use smallvec_viewstack::ViewStack;
 #[cfg(not(feature = "smallvec_viewstack"))]
 pub use vec_viewstack::ViewStack;
 
+impl<'a> ViewStack<'a> {
+    /// Returns `true` when no context window is open, i.e. when there is no
+    /// view on top of the one of the buffer itself.
+    #[inline]
+    pub(crate) fn is_windowless(&self) -> bool {
+        self.0.len() <= 1
+    }
+}
+
 impl<'a> std::fmt::Debug for ViewStack<'a> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{:?}", &self.0)
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index baf3226..1aebfa1 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1167,22 +1167,21 @@ pub mod sliceparser {
 
         #[inline]
         fn test_target(&mut self) -> ParseResult<bool> {
-            if let Some(t) = self.view_stack.peek() {
-                Ok(t.is_empty())
-            } else {
-                Ok(false)
-            }
+            Ok(!self.view_stack.is_windowless() && self.view_len() == 0)
         }
 
         fn enforce_target(&mut self) -> ParseResult<()> {
-            match self.view_stack.pop() {
-                None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
-                Some(_frame) => match _frame.len() {
-                    0 => Ok(()),
-                    residual => Err(ParseError::Window(WindowError::CloseWithResidue {
-                        residual,
-                    })),
-                },
+            if self.view_stack.is_windowless() {
+                return Err(ParseError::Window(WindowError::CloseWithoutWindow));
+            }
+            match self.view_len() {
+                0 => {
+                    self.view_stack.pop();
+                    Ok(())
+                }
+                residual => Err(ParseError::Window(WindowError::CloseWithResidue {
+                    residual,
+                })),
             }
         }
 
-- 
2.43.0


From 05fa38fab6e03068f80b06bee6e79ba309b2c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 06/21] fix: fail to decode VPadded when the reserved bytes are
 missing

The missing bytes panicked in debug builds and underflowed the window
size in release builds.
---
 src/dynamic.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index e6470ce..630881f 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -59,7 +59,7 @@
 use crate::conv::len::{Estimable, FixedLength};
 use crate::conv::{Decode, Encode, EncodeLength};
 use crate::int::u30;
-use crate::parse::{ParseResult, Parser};
+use crate::parse::{error::WindowError, ParseResult, Parser};
 use std::borrow::Borrow;
 use std::convert::TryFrom;
 use std::fmt::{Debug, Display};
@@ -466,14 +466,14 @@ impl<T: Decode, const N: usize> Decode for VPadded<T, N> {
         Self: Sized,
     {
         let _rem = p.remainder();
-        debug_assert!(
-            _rem >= N,
-            "Cannot parse VPadded<{}, {}> with {} (< {}) bytes remaining",
-            std::any::type_name::<T>(),
-            N,
-            _rem,
-            N
-        );
+        if _rem < N {
+            return Err(WindowError::ConsumeWouldExceedLimit {
+                offset: p.offset(),
+                requested: N,
+                limit: p.view_len(),
+            }
+            .into());
+        }
         p.set_fit(_rem - N)?;
         let ret = T::parse(p)?;
         p.enforce_target()?;
-- 
2.43.0


From e63ebd263c5147f5477afc347853cb1896f4de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 07/21] fix: return an error for an invalid u30 length prefix

process_prefix and skip_dynamic panicked on prefixes outside of the u30
range instead of failing like Dynamic::parse does.
---
 src/dynamic.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index 630881f..ddf22fb 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -267,7 +267,7 @@ where
 {
     fn parse_as_usize<P: Parser + ?Sized>(p: &mut P) -> ParseResult<usize> {
         let raw_bytes = p.consume(Self::LEN)?;
-        unsafe { Ok(Self::marshall_usize(raw_bytes)) }
+        unsafe { Self::marshall_usize(raw_bytes) }
     }
 
     /// Returns a `uX`-style name for LenPref, as is common for writing
@@ -281,33 +281,34 @@ where
     fn max_len() -> usize;
 }
 mod private {
+    use crate::parse::ParseResult;
+
     pub trait Sealed {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize;
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize>;
     }
 
     impl Sealed for u8 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 1]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for u16 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for crate::int::u30 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 4]>::try_from(bytes).unwrap_unchecked();
             let raw = i32::from_be_bytes(bytes);
-            let _ = crate::int::u30::try_from_i32(raw)
-                .expect("Inherent conversion from i32->u30 failed");
-            raw as usize
+            let _ = crate::int::u30::try_from_i32(raw)?;
+            Ok(raw as usize)
         }
     }
 }
-- 
2.43.0


From e969ea0f3d6f438b56db1bd72cdcee4de05e63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 08/21] fix: keep the elements when collecting into or
 extending a bounded sequence

Checking for an overflow with by_ref().nth(..) consumed the iterator, so
that FixSeq and LimSeq silently dropped every element.
---
 src/seq/fix.rs | 14 ++++++--------
 src/seq/lim.rs | 14 ++++++--------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index cafd45b..4ed15d5 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -164,12 +164,11 @@ impl<T, const N: usize> std::iter::Extend<T> for FixSeq<T, N> {
             N.checked_sub(self.len())
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated FixSeq"))
         };
-        let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        let items: Vec<T> = iter.into_iter().take(rem.saturating_add(1)).collect();
+        if items.len() > rem {
             panic!("attempted extend operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
+        self.0.extend(items);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -184,12 +183,11 @@ impl<T, const N: usize> FromIterator<T> for FixSeq<T, N> {
     ///
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let items: Vec<T> = iter.into_iter().take(N.saturating_add(1)).collect();
+        if items.len() > N {
             panic!("attempted from_iter operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::from_iter(max_iter);
+        let ret = inner::Inner::<T, N>::from_iter(items);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 171e7b9..1cd02be 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -198,12 +198,11 @@ impl<T, const N: usize> std::iter::Extend<T> for LimSeq<T, N> {
             N.checked_sub(self.len())
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated LimSeq"))
         };
-        let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        let items: Vec<T> = iter.into_iter().take(rem.saturating_add(1)).collect();
+        if items.len() > rem {
             panic!("attempted extend operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
+        self.0.extend(items);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -218,12 +217,11 @@ impl<T, const N: usize> FromIterator<T> for LimSeq<T, N> {
     ///
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let items: Vec<T> = iter.into_iter().take(N.saturating_add(1)).collect();
+        if items.len() > N {
             panic!("attempted from_iter operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::<T, N>::from_iter(max_iter);
+        let ret = inner::Inner::<T, N>::from_iter(items);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
-- 
2.43.0


From 113c38110cc33eca470ea0c31396efe603c3537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 09/21] fix: refuse to encode bounded sequences of the wrong
 length

As documented, FixSeq must hold exactly N elements when it is encoded,
and an oversaturated LimSeq makes the Encode methods panic.
---
 src/seq/fix.rs | 9 +++++++++
 src/seq/lim.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index 4ed15d5..19707d6 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -266,7 +266,16 @@ impl<T: Estimable, const N: usize> Estimable for FixSeq<T, N> {
 }
 
 impl<T: Encode, const N: usize> Encode for FixSeq<T, N> {
+    /// # Panics
+    ///
+    /// Panics if `self` does not hold exactly `N` elements
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert!(
+            self.len() == N,
+            "cannot encode {}-element FixSeq that requires exactly {} elements",
+            self.len(),
+            N
+        );
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 1cd02be..f18369d 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -286,7 +286,16 @@ impl<T: Estimable, const N: usize> Estimable for LimSeq<T, N> {
 }
 
 impl<T: Encode, const N: usize> Encode for LimSeq<T, N> {
+    /// # Panics
+    ///
+    /// Panics if `self` holds more than `N` elements
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert!(
+            self.len() <= N,
+            "cannot encode {}-element LimSeq limited to {} elements",
+            self.len(),
+            N
+        );
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
-- 
2.43.0


From bdf37c0341b0bfcc4c1f3f50e7fdd0062b47abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 10/21] fix: count the byte that encodes the natural number
 zero

N::unknown returned 0 for zero, which is encoded in one byte.
---
 src/zarith.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zarith.rs b/src/zarith.rs
index 125b43f..2ad8f88 100644
--- a/src/zarith.rs
+++ b/src/zarith.rs
@@ -106,7 +106,7 @@ pub mod n {
 
         fn unknown(&self) -> usize {
             let n: usize = self.0.bits() as usize;
-            Integer::div_ceil(&n, &7)
+            Integer::div_ceil(&n, &7).max(1)
         }
     }
 
-- 
2.43.0


From f59d4f80a00692715ca4a8b04522e0923a7c0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 11/21] fix: check the bounds of VecBuffer accesses

get_byte accepted the index one past the end, and get_slice overflowed
on large lengths in release builds; both led to out-of-bounds reads.
---
 src/parse/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 96eab54..8cd4f53 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -194,7 +194,7 @@ impl VecBuffer {
     ///
     /// Will panic if `ix + len` is out-of-bounds
     pub fn get_slice(&self, ix: usize, len: usize) -> &[u8] {
-        assert!(ix + len <= self.len());
+        assert!(ix <= self.len() && len <= self.len() - ix);
         unsafe { self.get_slice_unchecked(ix, len) }
     }
 
@@ -216,7 +216,7 @@ impl VecBuffer {
     ///
     /// Will panic if the `ix` is out-of-bounds
     pub fn get_byte(&self, ix: usize) -> u8 {
-        assert!(ix <= self.len());
+        assert!(ix < self.len());
         unsafe { self.get_byte_unchecked(ix) }
     }
 }
-- 
2.43.0


From 791cae6bdfe5c7ac7904244bb5e2b1610a9735d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 12/21] fix: accept only hexadecimal digits in hex strings

from_str_radix takes a leading plus sign as part of a number, and slicing
the string every two bytes panics inside multi-byte characters.
---
 src/hexstring.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/hexstring.rs b/src/hexstring.rs
index e1bc353..f5bf0a6 100644
--- a/src/hexstring.rs
+++ b/src/hexstring.rs
@@ -106,6 +106,15 @@ pub(crate) mod util {
 
     pub(crate) use write_hex;
 
+    /// Returns the byte denoted by a pair of ASCII hexadecimal digits, or `None`
+    /// if either one is not a hexadecimal digit.
+    #[inline]
+    fn byte_of_digits(pair: &[u8]) -> Option<u8> {
+        let hi = char::from(pair[0]).to_digit(16)?;
+        let lo = char::from(pair[1]).to_digit(16)?;
+        Some((hi << 4 | lo) as u8)
+    }
+
     /// Attempt to parse a hexadecimally encoded string-like type, returning either
     /// a `Vec<u8>` holding the decoded bytes or an error containing the invalid
     /// string.
@@ -141,9 +150,9 @@ pub(crate) mod util {
         let mut dst = Vec::with_capacity(bytes_len);
 
         for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(word) => dst.push(word),
-                Err(_) => return Err(HexConvError::NonHex(src.to_string())),
+            match byte_of_digits(&src.as_bytes()[(ix * 2)..(ix * 2) + 2]) {
+                Some(word) => dst.push(word),
+                None => return Err(HexConvError::NonHex(src.to_string())),
             }
         }
         Ok(dst)
@@ -171,8 +180,8 @@ pub(crate) mod util {
         }
 
         for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(byte) if byte == tgt[ix] => continue,
+            match byte_of_digits(&src.as_bytes()[(ix * 2)..(ix * 2) + 2]) {
+                Some(byte) if byte == tgt[ix] => continue,
                 _ => return false,
             }
         }
-- 
2.43.0


From a93973907119e66acdff9f33d1803e9e95ce3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 13/21] fix: check the number when converting to ranged
 integers with a positive minimum

try_from_i32 overflowed on small numbers, and the generic conversions
validated the number as an offset from MIN, so that they rejected every
legal value or panicked.
---
 src/error.rs | 23 +++++++++++++++++++++++
 src/int.rs   | 13 +++++++++----
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index f15cae6..ba4c53d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -240,6 +240,29 @@ impl<Ext: Debug> BoundsError<Ext> {
             })
         }
     }
+
+    /// Checks that the number `val` itself falls into the range `[min, max]`,
+    /// whatever the sign of `min`, returning `Ok(val)` if this condition holds.
+    pub(crate) fn restrict_numeric(val: Ext, min: i32, max: i32) -> Result<Ext, Self>
+    where
+        Ext: PartialOrd + Copy,
+        i32: Into<Ext>,
+    {
+        let min_ext: Ext = min.into();
+        let max_ext: Ext = max.into();
+        if min_ext > max_ext {
+            Err(Self::InvalidBounds {
+                min: min_ext,
+                max: max_ext,
+            })
+        } else if val < min_ext {
+            Err(Self::Underflow { min: min_ext, val })
+        } else if val > max_ext {
+            Err(Self::Overflow { max: max_ext, val })
+        } else {
+            Ok(val)
+        }
+    }
 }
 
 impl BoundsError<f64> {
diff --git a/src/int.rs b/src/int.rs
index e8f8fa4..9071de9 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -268,8 +268,13 @@ where
             MAX
         );
 
-        let underlying: i64 = if MIN <= 0 { x } else { x - MIN } as i64;
-        match I::try_from(BoundsError::<i64>::restrict(underlying, MIN, MAX)?) {
+        let numeric = BoundsError::<i64>::restrict_numeric(x.into(), MIN, MAX)?;
+        let underlying: i64 = if MIN <= 0 {
+            numeric
+        } else {
+            numeric - i64::from(MIN)
+        };
+        match I::try_from(underlying) {
             Ok(val) => Ok(Self(val)),
             Err(e) => Err(BoundsError::Failed(e.into())),
         }
@@ -460,8 +465,8 @@ pub mod ranged_int_impls {
                 type Error = BoundsError<i128>;
 
                 fn try_from(val: $src) -> Result<Self, Self::Error> {
-                    match BoundsError::restrict(val, MIN, MAX) {
-                        Ok(x) => unsafe { Ok(Self::from_numeric_unchecked(x)) }
+                    match BoundsError::restrict_numeric(val as i128, MIN, MAX) {
+                        Ok(_) => unsafe { Ok(Self::from_numeric_unchecked(val)) }
                         Err(e) => Err(e)
                     }
                 }
-- 
2.43.0


From f4a3b0d488200096c1681b7cf60baa7d849d178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 14/21] fix: default, minimum and maximum of ranged integers
 with a positive minimum

These stored the number instead of its offset from MIN, so that the
values they returned were out of range.
---
 src/int.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 9071de9..b505c6e 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -383,7 +383,9 @@ pub mod ranged_int_impls {
                 /// Returns the value in the range [MIN..MAX] that is closest to the
                 /// value of `Default::default()` for the backing type.
                 fn default() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                    if MIN > 0 {
+                        return Self::min_val();
+                    }
                     Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
                 }
             }
@@ -409,14 +411,18 @@ pub mod ranged_int_impls {
                 /// Returns the minimum legal value of `Self`
                 #[inline]
                 pub const fn min_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                    if MIN_I32 > 0 {
+                        return Self(0);
+                    }
                     Self(Self::MIN)
                 }
 
                 /// Returns the maximum legal value of `Self`
                 #[inline]
                 pub const fn max_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                    if MIN_I32 > 0 {
+                        return Self((MAX_I32 - MIN_I32) as $t);
+                    }
                     Self(Self::MAX)
                 }
             }
-- 
2.43.0


From db34a66982624abbb5a97aa0807f6ad0640d4108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 15/21] fix: convert ranged integers with a positive minimum to
 the number they represent

---
 src/int.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index b505c6e..f440ced 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -440,8 +440,17 @@ pub mod ranged_int_impls {
     ( $backer:ty => $( $dest:ty ),+ ) => {
         $(
             impl<const MIN: i32, const MAX: i32> From<RangedInt<$backer, MIN, MAX>> for $dest {
-                // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                /// Returns the number represented by `val`
+                ///
+                /// # Panics
+                ///
+                /// Panics when `MIN > 0` and the number does not fit in the destination type
                 fn from(val: RangedInt<$backer, MIN, MAX>) -> Self {
+                    if MIN > 0 {
+                        return (i64::from(val.0) + i64::from(MIN))
+                            .try_into()
+                            .expect("RangedInt value does not fit in the destination type");
+                    }
                     val.0 as $dest
                 }
             }
@@ -456,7 +465,9 @@ pub mod ranged_int_impls {
                 type Error = <$backer as TryInto<$dest>>::Error;
 
                 fn try_from(val: RangedInt<$backer, MIN, MAX>) -> Result<Self, Self::Error> {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                    if MIN > 0 {
+                        return (i64::from(val.0) + i64::from(MIN)).try_into();
+                    }
                     val.0.try_into()
                 }
             }
-- 
2.43.0


From b9538f41bb1e63b3db4b99b17908b935e739e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 16/21] fix: record exact skips in the trace of MemoParser

Later groups were printed from the wrong offset.
---
 src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 1aebfa1..be9a7ae 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1023,6 +1023,7 @@ pub mod memoparser {
         fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
             let (ix, adv) = self.offset.advance(nbytes);
             if adv {
+                self.munches.push(nbytes);
                 Ok(())
             } else {
                 let offset = ix;
-- 
2.43.0


From 57dbd34325ce66698957591ece93b40a24fc1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 17/21] fix: LeftoverState::append moves and is_empty only
 counts bytes

As documented, append leaves its argument empty, and a windowed state
without any bytes is empty.
---
 src/parse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index be9a7ae..2f1c1a0 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -518,7 +518,7 @@ pub mod cleanup {
         pub fn append(&mut self, other: &mut Vec<u8>) {
             match self {
                 LeftoverState::Empty => {
-                    *self = Self::Windowless(other.clone());
+                    *self = Self::Windowless(std::mem::take(other));
                 }
                 LeftoverState::Windowless(buf) => buf.append(other),
                 LeftoverState::Windowed(sbuf) => sbuf.append_current(other),
@@ -596,7 +596,7 @@ pub mod cleanup {
             match self {
                 LeftoverState::Empty => true,
                 /* NOTE: the following two cases are not expected to ever arise, but are handled for completeness */
-                LeftoverState::Windowed(sbuf) => sbuf.is_empty(),
+                LeftoverState::Windowed(sbuf) => sbuf.len() == 0,
                 LeftoverState::Windowless(buf) => buf.is_empty(),
             }
         }
-- 
2.43.0


From 61e7ca5dbed67c5d8ba424dc76368f40eef08b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 18/21] fix: display the segments of MemoBuffer, not single
 bytes

---
 src/builder/memo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder/memo.rs b/src/builder/memo.rs
index 0860090..423d493 100644
--- a/src/builder/memo.rs
+++ b/src/builder/memo.rs
@@ -117,8 +117,9 @@ impl std::fmt::Display for MemoBuffer {
         let mut ix: usize = 0;
         for l in self.lens.iter() {
             for &byte in &buf[ix..ix + l] {
-                write!(f, "{byte:02x}|")?
+                write!(f, "{byte:02x}")?
             }
+            write!(f, "|")?;
             ix += l;
         }
         write!(f, "]")
-- 
2.43.0


From 7142c3d26d8e348957fbc40f1dcf6f6b76b8f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 19/21] fix: make the expose_internal feature compile

Re-exporting the private module under its own name conflicts with it.
---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a311c8..d190796 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -68,6 +68,9 @@ pub mod fixed;
 pub mod float;
 pub mod hexstring;
 pub mod int;
+#[cfg(feature = "expose_internal")]
+pub mod internal;
+#[cfg(not(feature = "expose_internal"))]
 mod internal;
 pub mod parse;
 pub mod prelude;
@@ -76,9 +79,6 @@ pub mod schema;
 pub mod seq;
 pub mod zarith;
 
-#[cfg(feature = "expose_internal")]
-pub use crate::internal;
-
 pub use crate::autobox::AutoBox;
 pub use crate::builder::{memo::MemoBuilder, strict::StrictBuilder, Builder};
 pub use crate::conv::{
-- 
2.43.0


From 7c30095c8c4737087fe6491af60a54f2301a2278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 20/21] fix: fail instead of looping when sequence elements
 occupy no bytes

---
 src/seq/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/seq/mod.rs b/src/seq/mod.rs
index 1985488..d58d518 100644
--- a/src/seq/mod.rs
+++ b/src/seq/mod.rs
@@ -48,6 +48,7 @@
 //! variable in length.
 
 use crate::conv::{len::Estimable, target::Target, Decode, Encode};
+use crate::parse::error::{ExternalError, ParseError};
 use crate::parse::{ParseResult, Parser};
 
 use std::fmt::Debug;
@@ -228,8 +229,17 @@ impl<T: Decode> Decode for Sequence<T> {
     fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
         let mut seq: Vec<T> = Vec::new();
 
-        while p.remainder() != 0 {
+        loop {
+            let before = p.remainder();
+            if before == 0 {
+                break;
+            }
             seq.push(T::parse(p)?);
+            if p.remainder() == before {
+                return Err(ParseError::External(ExternalError::GenericError(
+                    "sequence element occupies no bytes but bytes remain".into(),
+                )));
+            }
         }
 
         Ok(Self(seq))
-- 
2.43.0


From 50d776387fdd198f0a4778e56c332da5c434baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:27 +0000
Subject: [PATCH 21/21] fix: do not reserve memory for the whole bound of an
 empty bounded sequence

A limited or fixed-length sequence whose bound exceeds what fits into
memory panicked (capacity overflow) or aborted on construction, and so
on every decode of the type.
---
 src/seq/fix.rs | 2 +-
 src/seq/lim.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index 19707d6..7752b70 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -84,7 +84,7 @@ impl<T, const N: usize> FixSeq<T, N> {
         } else {
             /// Constructs a new, empty `FixSeq<T, N>`
             pub fn new() -> Self {
-                Self(inner::Inner::<T, N>::with_capacity(N))
+                Self(inner::Inner::<T, N>::new())
             }
         }
     }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index f18369d..a475505 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -141,7 +141,7 @@ impl<T, const N: usize> std::default::Default for LimSeq<T, N> {
     fn default() -> Self {
         #[cfg(not(feature = "arrayvec_limseq"))]
         {
-            Self(inner::Inner::<T, N>::with_capacity(N))
+            Self(inner::Inner::<T, N>::new())
         }
         #[cfg(feature = "arrayvec_limseq")]
         {
-- 
2.43.0

