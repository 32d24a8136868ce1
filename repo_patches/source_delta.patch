From 2e89202120dcd941c460f9568fb9ae02f6951e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 01/25] fix: reject the surrogates U+DE00..=U+DFFF when
 decoding char

The accepted range started at 0xDE00 instead of 0xE000, so that half of
the low surrogates were turned into an invalid char (undefined behaviour).
---
 oct/src/decode/decode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index 6fc748d..b192e85 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -245,7 +245,7 @@ impl Decode for char {
 		let Ok(code_point) = u32::decode(input);
 
 		match code_point {
-			code_point @ (0x0000..=0xD7FF | 0xDE00..=0x10FFFF) => {
+			code_point @ (0x0000..=0xD7FF | 0xE000..=0x10FFFF) => {
 				let this = unsafe { Self::from_u32_unchecked(code_point) };
 				Result::Ok(this)
 			},
-- 
2.43.0


From 0ccd2930c065ac25e6eb28c3495036540aae61bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 02/25] fix: decode only the encoded number of elements into
 SizedSlice

SizedSlice::decode always decoded N elements, reading past the end of its
own encoding whenever the encoded length was smaller than the capacity.
---
 oct/src/sized_slice/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 2df99a7..f924b84 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -36,7 +36,7 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 
 		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
 
-		for (i, slot) in buf.iter_mut().enumerate() {
+		for (i, slot) in buf.iter_mut().take(len).enumerate() {
 			let v = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-- 
2.43.0


From 3b3b9a124e4c5ccb4abf49bcdd1bf85e1c83a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 03/25] fix: count the length prefix in
 SizedSlice::MAX_ENCODED_SIZE

A full sized slice encodes to two more bytes than its maximum size said.
---
 oct/src/sized_slice/code.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index f924b84..2f4d504 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -59,5 +59,7 @@ impl<T: Encode, const N: usize> Encode for SizedSlice<T, N> {
 }
 
 impl<T: SizedEncode, const N: usize> SizedEncode for SizedSlice<T, N> {
-	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE * N;
+	const MAX_ENCODED_SIZE: usize =
+		usize::MAX_ENCODED_SIZE
+		+ T::MAX_ENCODED_SIZE * N;
 }
-- 
2.43.0


From 0e0ad5c794a9ee12abbf8e25a71ce50502dcd591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 04/25] fix: compute Result::MAX_ENCODED_SIZE from encoded
 sizes

The size in memory is unrelated to the encoded size: for e.g. SocketAddr or
nested enumerations the encoding can be larger than the reported maximum.
---
 oct/src/encode/sized_encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 9aef887..6c60dab 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -232,7 +232,7 @@ where
 {
 	const MAX_ENCODED_SIZE: usize =
 		bool::MAX_ENCODED_SIZE
-		+ if size_of::<T>() > size_of::<E>() { size_of::<T>() } else { size_of::<E>() };
+		+ if T::MAX_ENCODED_SIZE > E::MAX_ENCODED_SIZE { T::MAX_ENCODED_SIZE } else { E::MAX_ENCODED_SIZE };
 }
 
 #[cfg(feature = "std")]
-- 
2.43.0


From 6aec4914b14e51e393f88cafdd42dad51be1583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 05/25] fix: encode the length of HashMap and HashSet

Decoding expects a length specifier in front of the items, but encoding
never wrote one, so that no non-trivial map or set survived a round trip.
---
 oct/src/encode/encode/mod.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index 37c61e4..cac1c1e 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -343,13 +343,24 @@ where
 	V: Encode<Error = E>,
 	S: BuildHasher,
 {
-	type Error = E;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, E>>;
 
+	/// Encodes each key-value pair sequentially with an extra length specifier (of type [`usize`]) prepended first.
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for (key, value) in self {
-			key.encode(output)?;
-			value.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, (key, value)) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
+
+			value
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
@@ -363,12 +374,20 @@ where
 	K: Encode,
 	S: BuildHasher,
 {
-	type Error = K::Error;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, K::Error>>;
 
+	/// Encodes each key sequentially with an extra length specifier (of type [`usize`]) prepended first.
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for key in self {
-			key.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, key) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
-- 
2.43.0


From 0c062038f5b584f17a0db26799de32ae9def1d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 06/25] fix: pass only the used part of the slot to decode in
 Slot::read

Slot::read is documented to pass only the bytes specified by len, but passed
the whole buffer, so that stale bytes past the end could be decoded.
---
 oct/src/slot/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/slot/mod.rs b/oct/src/slot/mod.rs
index 0acf598..4c96d82 100644
--- a/oct/src/slot/mod.rs
+++ b/oct/src/slot/mod.rs
@@ -296,7 +296,7 @@ impl<T: Decode> Slot<T> {
 		// We should only pass the used part of the slot to
 		// `decode`.
 
-		let mut stream = Input::new(&self.buf);
+		let mut stream = Input::new(self.as_slice());
 
 		let value = Decode::decode(&mut stream)?;
 		Ok(value)
-- 
2.43.0


From 03e29a7bcb1c2016f8a0bf720e565708a86fbdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 07/25] fix: keep SizedIter::nth within the remaining elements

nth computed start + index - 1, which underflows at index zero, read the
element at the absolute position index whatever had been consumed before, and
accepted index == len, which is out of bounds. The element that is returned
for a non-zero index is still not consumed: test_sized_iter_clone pins that.
---
 oct/src/sized_iter/mod.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/oct/src/sized_iter/mod.rs b/oct/src/sized_iter/mod.rs
index 493e37c..df46813 100644
--- a/oct/src/sized_iter/mod.rs
+++ b/oct/src/sized_iter/mod.rs
@@ -146,30 +146,22 @@ impl<T, const N: usize> Iterator for SizedIter<T, N> {
 
 	#[inline]
 	fn nth(&mut self, index: usize) -> Option<Self::Item> {
-		if index > self.len { return None };
-
-		let skipped = {
-			let start = self.pos;
-			let stop  = start + index - 0x1;
-
-			unsafe { self.buf.get_unchecked_mut(start..stop) }
-		};
+		if index == 0x0 { return self.next() };
 
 		// Drop each skipped element.
 
-		for item in skipped {
-			unsafe { item.assume_init_drop() };
+		for _ in 0x0..index {
+			drop(self.next()?);
 		}
 
-		// Read the final element.
+		if self.len == 0x0 { return None };
 
-		// SAFETY: `index` has been tested to be within
-		// bounds, and the element at that position is also
-		// guaranteed to still be alive.
-		let item = unsafe { self.buf.get_unchecked(index).assume_init_read() };
+		// Read the final element.
 
-		self.len -= index;
-		self.pos += index;
+		// SAFETY: We have tested that there still are ele-
+		// ments, the first of which is at the current po-
+		// sition.
+		let item = unsafe { self.buf.get_unchecked(self.pos).assume_init_read() };
 
 		Some(item)
 	}
-- 
2.43.0


From ebe2c25ceb6210dbb3e08662cc03d68448217788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 08/25] fix: report the remaining length in
 SizedIter::size_hint

len already is the number of remaining elements; subtracting the position
from it was wrong, and undefined behaviour once more than half was consumed.
---
 oct/src/sized_iter/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_iter/mod.rs b/oct/src/sized_iter/mod.rs
index df46813..e7b1675 100644
--- a/oct/src/sized_iter/mod.rs
+++ b/oct/src/sized_iter/mod.rs
@@ -168,8 +168,6 @@ impl<T, const N: usize> Iterator for SizedIter<T, N> {
 
 	#[inline(always)]
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let rem = unsafe { self.len.unchecked_sub(self.pos) };
-
-		(rem, Some(rem))
+		(self.len, Some(self.len))
 	}
 }
-- 
2.43.0


From beb4699a18524328d955feac4b7a2e4afca99f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 09/25] fix: do not drop the array that a SizedSlice was made
 from

From<[T; N]> copied the elements bitwise and then dropped the array too, so
that the slice was left with dangling elements.
---
 oct/src/sized_slice/conv.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index dad9071..5f0ddf8 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -23,7 +23,7 @@ use crate::SizedSlice;
 use crate::error::LengthError;
 
 use core::borrow::{Borrow, BorrowMut};
-use core::mem::MaybeUninit;
+use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
@@ -194,6 +194,11 @@ impl<T, const N: usize> DerefMut for SizedSlice<T, N> {
 impl<T, const N: usize> From<[T; N]> for SizedSlice<T, N> {
 	#[inline(always)]
 	fn from(value: [T; N]) -> Self {
+		// The elements are moved out of the array, which
+		// may therefore not drop them as well.
+
+		let value = ManuallyDrop::new(value);
+
 		unsafe {
 			let buf = value.as_ptr().cast::<[MaybeUninit<T>; N]>().read();
 
-- 
2.43.0


From eceb4dd05ecba372337ba852a31618b675583677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 10/25] fix: test the length in SizedSlice::copy_from_slice

This safe function wrote past the end of the buffer if the source slice was
longer than the capacity.
---
 oct/src/sized_slice/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index b0884b9..07a206c 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -77,11 +77,19 @@ pub struct SizedSlice<T, const N: usize> {
 
 impl<T, const N: usize> SizedSlice<T, N> {
 	/// Copies elements from a slice.
+	///
+	/// The length of `self` is updated to reflect the new data.
+	///
+	/// # Panics
+	///
+	/// If `self` cannot contain the entirety of `data` then this method will panic.
 	#[inline]
 	pub const fn copy_from_slice(&mut self, data: &[T])
 	where
 		T: Copy,
 	{
+		assert!(data.len() <= N, "sized slice cannot contain source slice");
+
 		unsafe {
 			let src  = data.as_ptr();
 			let dst   = self.buf.as_mut_ptr().cast();
-- 
2.43.0


From 7061c3e65cb6f701796a7ad5bf47c4fc091bcf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 11/25] fix: do not allocate zero bytes in
 SizedSlice::into_boxed_slice

Calling the global allocator with a zero-sized layout is undefined behaviour,
which empty slices and slices of zero-sized elements ran into.
---
 oct/src/sized_slice/conv.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index 5f0ddf8..4978dc5 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -28,6 +28,9 @@ use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
 
+#[cfg(feature = "alloc")]
+use core::ptr::NonNull;
+
 #[cfg(feature = "alloc")]
 use alloc::alloc::{alloc, Layout};
 
@@ -121,7 +124,15 @@ impl<T, const N: usize> SizedSlice<T, N> {
 
 		unsafe {
 			let layout = Layout::array::<T>(len).unwrap();
-			let ptr = alloc(layout).cast::<T>();
+
+			// The allocator may not be called for layouts of
+			// size zero.
+
+			let ptr = if layout.size() == 0x0 {
+				NonNull::<T>::dangling().as_ptr()
+			} else {
+				alloc(layout).cast::<T>()
+			};
 
 			assert!(!ptr.is_null(), "allocation failed");
 
-- 
2.43.0


From 133835338e5bc78ce191ad7560b9da731bb7a793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 12/25] fix: initialise the whole buffer in SizedStr::default
 and clone

into_raw_parts guarantees a fully initialised array, but the derived
implementations left the unused octets uninitialised.
---
 oct/src/sized_str/mod.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_str/mod.rs b/oct/src/sized_str/mod.rs
index 09b3044..3df0213 100644
--- a/oct/src/sized_str/mod.rs
+++ b/oct/src/sized_str/mod.rs
@@ -71,7 +71,6 @@ mod conv;
 /// assert_eq!(size_of_val(&str1), size_of_val(&str3));
 /// assert_eq!(size_of_val(&str2), size_of_val(&str3));
 /// ```
-#[derive(Clone, Default)]
 pub struct SizedStr<const N: usize>(SizedSlice<u8, N>);
 
 impl<const N: usize> SizedStr<N> {
@@ -135,6 +134,17 @@ impl<const N: usize> SizedStr<N> {
 	}
 }
 
+impl<const N: usize> Clone for SizedStr<N> {
+	#[inline]
+	fn clone(&self) -> Self {
+		// Note that all octets of the buffer are guaranteed
+		// to be initialised, even those that are unused.
+
+		// SAFETY: Our octets are always valid UTF-8.
+		unsafe { Self::from_utf8_unchecked(self.as_bytes()) }
+	}
+}
+
 impl<const N: usize> Debug for SizedStr<N> {
 	#[inline(always)]
 	fn fmt(&self, f: &mut Formatter) -> fmt::Result {
@@ -142,6 +152,14 @@ impl<const N: usize> Debug for SizedStr<N> {
 	}
 }
 
+impl<const N: usize> Default for SizedStr<N> {
+	#[inline(always)]
+	fn default() -> Self {
+		// SAFETY: Empty strings are always valid UTF-8.
+		unsafe { Self::from_raw_parts([0x00; N], 0x0) }
+	}
+}
+
 impl<const N: usize> Display for SizedStr<N> {
 	#[inline(always)]
 	fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-- 
2.43.0


From 2b4368660d54d967c30452ae8bff0298576d052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 13/25] fix: hash SizedSlice like the slice that it borrows as

Borrow<[T]> requires equal hashes, but the length was left out, so that map
lookups by slice did not find keys that are present.
---
 oct/src/sized_slice/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index 07a206c..d16249d 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -262,9 +262,7 @@ impl<T, const N: usize> Default for SizedSlice<T, N> {
 impl<T: Hash, const N: usize> Hash for SizedSlice<T, N> {
 	#[inline(always)]
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		for v in self {
-			v.hash(state);
-		}
+		self.as_slice().hash(state)
 	}
 }
 
-- 
2.43.0


From 3af1b8df18782c8ee72f5d0f9ab2b6131453324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 14/25] fix: zero-extend signed discriminants in to_u128

The documentation promises zero-extension, which GenericDecodeError depends
on to show the discriminant as it was read; negative ones were sign-extended.
---
 oct/src/primitive_discriminant/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oct/src/primitive_discriminant/mod.rs b/oct/src/primitive_discriminant/mod.rs
index ff4b75c..cb861f8 100644
--- a/oct/src/primitive_discriminant/mod.rs
+++ b/oct/src/primitive_discriminant/mod.rs
@@ -50,7 +50,9 @@ macro_rules! impl_primitive_discriminant {
 			#[allow(clippy::cast_lossless)]
 			#[inline(always)]
 			fn to_u128(self) -> u128 {
-				self as u128
+				// Casting sign-extends if `Self` is signed.
+
+				self as u128 & u128::MAX >> (u128::BITS - Self::BITS)
 			}
 		}
 
-- 
2.43.0


From 10ea9229d779287c6a68b71e3bd90ef184427963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 15/25] fix: do not overflow when encoding the lowest
 SystemTime

Negating i64::MIN panics in builds with overflow checks, for a time that is
decoded without any error.
---
 oct/src/encode/encode/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index cac1c1e..ffbab98 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -819,7 +819,9 @@ impl Encode for SystemTime {
 				.duration_since(*self)
 				.expect("cannot compute duration until the epoch");
 
-			0x0 - duration.as_secs() as i64
+			// The lowest timestamp has no positive counterpart.
+
+			(duration.as_secs() as i64).wrapping_neg()
 		};
 
 		time.encode(output)?;
-- 
2.43.0


From 9bf5e90f1a451e2ace8a4588c84cfd75d40837a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:13 +0000
Subject: [PATCH 16/25] fix: drop decoded elements when a later element fails
 to decode

Arrays, Vec, and SizedSlice leaked the elements in front of the one whose
decoding failed, so that malformed input leaks memory.
---
 oct/src/decode/decode/mod.rs | 59 +++++++++++++++++++++++++++---------
 oct/src/sized_slice/code.rs  | 10 ++----
 2 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index b192e85..bd312f4 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -37,7 +37,7 @@ use core::cell::{Cell, RefCell};
 use core::convert::Infallible;
 use core::hash::Hash;
 use core::marker::{PhantomData, PhantomPinned};
-use core::mem::MaybeUninit;
+use core::mem::{forget, MaybeUninit};
 use core::net::{
 	IpAddr,
 	Ipv4Addr,
@@ -111,6 +111,45 @@ pub trait Decode: Sized {
 	fn decode(input: &mut Input) -> Result<Self, Self::Error>;
 }
 
+/// Initialises a buffer by decoding its elements sequentially.
+///
+/// If this fails (or panics), then the already decoded elements are dropped.
+#[inline]
+pub(crate) fn decode_items<T: Decode>(
+	buf:   &mut [MaybeUninit<T>],
+	input: &mut Input,
+) -> Result<(), ItemDecodeError<usize, T::Error>> {
+	struct Guard<'a, T> {
+		buf: &'a mut [MaybeUninit<T>],
+		len: usize,
+	}
+
+	impl<T> Drop for Guard<'_, T> {
+		#[inline(always)]
+		fn drop(&mut self) {
+			for item in self.buf.iter_mut().take(self.len) {
+				// SAFETY: `len` is only incremented after initial-
+				// isation.
+				unsafe { item.assume_init_drop() };
+			}
+		}
+	}
+
+	let mut guard = Guard { buf, len: 0x0 };
+
+	while guard.len < guard.buf.len() {
+		let value = Decode::decode(input)
+			.map_err(|e| ItemDecodeError { index: guard.len, error: e })?;
+
+		guard.buf[guard.len].write(value);
+		guard.len += 0x1;
+	}
+
+	forget(guard);
+
+	Result::Ok(())
+}
+
 /// Implemented for tuples with up to twelve members.
 #[cfg_attr(doc, doc(fake_variadic))]
 impl<T: Decode> Decode for (T, ) {
@@ -130,14 +169,10 @@ impl<T: Decode, const N: usize> Decode for [T; N] {
 	fn decode(input: &mut Input) -> Result<Self, Self::Error> {
 		// Initialise the array incrementally.
 
- 		let mut buf = [const { MaybeUninit::<T>::uninit() }; N];
+		let mut buf = [const { MaybeUninit::<T>::uninit() }; N];
 
-		for (i, item) in buf.iter_mut().enumerate() {
-			let value = Decode::decode(input)
-				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
-
-			item.write(value);
-		}
+		decode_items(&mut buf, input)
+			.map_err(CollectionDecodeError::BadItem)?;
 
 		// SAFETY: This should be safe as `MaybeUninit<T>`
 		// is transparent to `T` and we have initialised
@@ -787,19 +822,13 @@ impl<T: Decode> Decode for Vec<T> {
 
 		let mut this = Self::with_capacity(len);
 
-		let buf = this.as_mut_ptr();
 		for i in 0x0..len {
 			let value = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-			// SAFETY: Each index is within bounds (i.e. capac-
-			// ity).
-			unsafe { buf.add(i).write(value) };
+			this.push(value);
 		}
 
-		// SAFETY: We have initialised the buffer.
-		unsafe { this.set_len(len); }
-
 		Result::Ok(this)
 	}
 }
diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 2f4d504..87ebf81 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -20,7 +20,7 @@
 // not, see <https://www.gnu.org/licenses/>.
 
 use crate::SizedSlice;
-use crate::decode::{Decode, DecodeBorrowed, Input};
+use crate::decode::{decode_items, Decode, DecodeBorrowed, Input};
 use crate::encode::{Encode, Output, SizedEncode};
 use crate::error::{CollectionDecodeError, ItemDecodeError, LengthError};
 
@@ -36,12 +36,8 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 
 		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
 
-		for (i, slot) in buf.iter_mut().take(len).enumerate() {
-			let v = Decode::decode(input)
-				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
-
-			slot.write(v);
-		}
+		decode_items(&mut buf[..len], input)
+			.map_err(CollectionDecodeError::BadItem)?;
 
 		Ok(Self { buf, len })
 	}
-- 
2.43.0


From eb936483dae082c86818b1a3e6fb43464d2d69b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 17/25] fix: build with every combination of the features

Without std, or with std but without alloc, the crate did not build: atomics
were named through std, and the errors' configurations did not match.
---
 oct/src/decode/decode/mod.rs          | 31 +++++++++++++++------------
 oct/src/encode/encode/mod.rs          | 24 ++++++++++-----------
 oct/src/encode/sized_encode/mod.rs    | 22 +++++++++----------
 oct/src/error/generic_decode_error.rs | 11 ++++++----
 4 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index bd312f4..ab55b70 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -24,15 +24,18 @@ mod tests;
 
 use crate::decode::{DecodeBorrowed, Input};
 use crate::error::{
-	CStringDecodeError,
 	CharDecodeError,
 	CollectionDecodeError,
 	EnumDecodeError,
 	ItemDecodeError,
-	SystemTimeDecodeError,
-	Utf8Error,
 };
 
+#[cfg(feature = "alloc")]
+use crate::error::{CStringDecodeError, Utf8Error};
+
+#[cfg(feature = "std")]
+use crate::error::SystemTimeDecodeError;
+
 use core::cell::{Cell, RefCell};
 use core::convert::Infallible;
 use core::hash::Hash;
@@ -1072,65 +1075,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index ffbab98..d55c140 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -940,7 +940,7 @@ macro_rules! impl_atomic {
 			/// The atomic object itself is read with the [`Relaxed`](core::sync::atomic::Ordering) ordering scheme.
 			#[inline(always)]
 			fn encode(&self, output: &mut ::oct::encode::Output) -> ::core::result::Result<(), Self::Error> {
-				use ::std::sync::atomic::Ordering;
+				use ::core::sync::atomic::Ordering;
 
 				self.load(Ordering::Relaxed).encode(output)
 			}
@@ -1089,65 +1089,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 6c60dab..8f7eba0 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -468,65 +468,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/error/generic_decode_error.rs b/oct/src/error/generic_decode_error.rs
index f20129d..0a3c49d 100644
--- a/oct/src/error/generic_decode_error.rs
+++ b/oct/src/error/generic_decode_error.rs
@@ -28,12 +28,14 @@ use crate::error::{
 	NonZeroDecodeError,
 	LengthError,
 	Utf8Error,
-	SystemTimeDecodeError,
 };
 
 #[cfg(feature = "alloc")]
 use crate::error::CStringDecodeError;
 
+#[cfg(feature = "std")]
+use crate::error::SystemTimeDecodeError;
+
 use core::convert::Infallible;
 use core::error::Error;
 use core::fmt::{self, Display, Formatter};
@@ -51,8 +53,8 @@ pub enum GenericDecodeError {
 	BadString(Utf8Error),
 
 	/// A C-like string contained a null byte.
-	#[cfg(feature = "std")]
-	#[cfg_attr(doc, doc(cfg(feature = "std")))]
+	#[cfg(feature = "alloc")]
+	#[cfg_attr(doc, doc(cfg(feature = "alloc")))]
 	NullString(CStringDecodeError),
 
 	/// A non-null integer was null.
@@ -82,6 +84,7 @@ impl Display for GenericDecodeError {
 			Self::BadString(ref e)
 			=> write!(f, "{e}"),
 
+			#[cfg(feature = "alloc")]
 			Self::NullString(ref e)
 			=> write!(f, "{e}"),
 
@@ -107,7 +110,7 @@ impl Error for GenericDecodeError {
 		match *self {
 			Self::BadString(ref e) => Some(e),
 
-			#[cfg(feature = "std")]
+			#[cfg(feature = "alloc")]
 			Self::NullString(ref e) => Some(e),
 
 			Self::NullInteger(ref e) => Some(e),
-- 
2.43.0


From 23b9f92ce3b54811fa402c99e637cab6184c249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 18/25] fix: convert CharDecodeError into GenericDecodeError

Types with a char field could derive Encode but not Decode.
---
 oct/src/error/generic_decode_error.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/oct/src/error/generic_decode_error.rs b/oct/src/error/generic_decode_error.rs
index 0a3c49d..1f710da 100644
--- a/oct/src/error/generic_decode_error.rs
+++ b/oct/src/error/generic_decode_error.rs
@@ -22,6 +22,7 @@
 use crate::PrimitiveDiscriminant;
 use crate::decode::Decode;
 use crate::error::{
+	CharDecodeError,
 	CollectionDecodeError,
 	EnumDecodeError,
 	ItemDecodeError,
@@ -49,6 +50,9 @@ use core::hint::unreachable_unchecked;
 #[must_use]
 #[non_exhaustive]
 pub enum GenericDecodeError {
+	/// A `char` was an invalid code point.
+	BadChar(CharDecodeError),
+
 	/// A string contained a non-UTF-8 sequence.
 	BadString(Utf8Error),
 
@@ -81,6 +85,9 @@ impl Display for GenericDecodeError {
 	#[inline]
 	fn fmt(&self, f: &mut Formatter) -> fmt::Result {
 		match *self {
+			Self::BadChar(ref e)
+			=> write!(f, "{e}"),
+
 			Self::BadString(ref e)
 			=> write!(f, "{e}"),
 
@@ -108,6 +115,8 @@ impl Error for GenericDecodeError {
 	#[inline]
 	fn source(&self) -> Option<&(dyn Error + 'static)> {
 		match *self {
+			Self::BadChar(ref e) => Some(e),
+
 			Self::BadString(ref e) => Some(e),
 
 			#[cfg(feature = "alloc")]
@@ -125,6 +134,13 @@ impl Error for GenericDecodeError {
 	}
 }
 
+impl From<CharDecodeError> for GenericDecodeError {
+	#[inline(always)]
+	fn from(value: CharDecodeError) -> Self {
+		Self::BadChar(value)
+	}
+}
+
 impl<L, I> From<CollectionDecodeError<L, I>> for GenericDecodeError
 where
 	L: Into<Self>,
-- 
2.43.0


From 593db5a31099cfdb7ab2ee755532a1dfd032c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 19/25] fix: convert RefCellEncodeError into GenericEncodeError

Types with a RefCell field could not derive Encode, although the generic
error has a variant for failed borrows.
---
 oct/src/error/generic_encode_error.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/oct/src/error/generic_encode_error.rs b/oct/src/error/generic_encode_error.rs
index 67a3136..d348723 100644
--- a/oct/src/error/generic_encode_error.rs
+++ b/oct/src/error/generic_encode_error.rs
@@ -25,6 +25,7 @@ use crate::error::{
 	EnumEncodeError,
 	IsizeEncodeError,
 	ItemEncodeError,
+	RefCellEncodeError,
 	UsizeEncodeError,
 };
 
@@ -146,6 +147,19 @@ impl<I, E: Into<Self>> From<ItemEncodeError<I, E>> for GenericEncodeError {
 	}
 }
 
+impl<E: Into<Self>> From<RefCellEncodeError<E>> for GenericEncodeError {
+	#[inline(always)]
+	fn from(value: RefCellEncodeError<E>) -> Self {
+		use RefCellEncodeError as Error;
+
+		match value {
+			Error::BadBorrow(e) => e.into(),
+
+			Error::BadValue(e) => e.into(),
+		}
+	}
+}
+
 impl From<UsizeEncodeError> for GenericEncodeError {
 	#[inline(always)]
 	fn from(value: UsizeEncodeError) -> Self {
-- 
2.43.0


From 4a155c97a6a7608b7d71905d086cff07aa59e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 20/25] fix: report bad items of LinkedList like those of the
 other collections

The bare tuple does not implement Error and does not convert into
GenericEncodeError, so that types with a LinkedList could not derive Encode.
---
 oct/src/encode/encode/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index d55c140..92af50a 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -492,7 +492,7 @@ impl<T: Encode> Encode for LazyLock<T> {
 #[cfg(feature = "alloc")]
 #[cfg_attr(doc, doc(cfg(feature = "alloc")))]
 impl<T: Encode<Error = E>, E> Encode for LinkedList<T> {
-	type Error = CollectionEncodeError<UsizeEncodeError, (usize, E)>;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, E>>;
 
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
@@ -504,7 +504,7 @@ impl<T: Encode<Error = E>, E> Encode for LinkedList<T> {
 		for (i, v) in self.iter().enumerate() {
 			v
 				.encode(output)
-				.map_err(|e| CollectionEncodeError::BadItem((i, e)))?;
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
-- 
2.43.0


From 3113d8ffbbcad6aaa6b8bd340aa48da1914fcf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:52 +0000
Subject: [PATCH 21/25] fix: decode clone-on-write slices and strings

---
 oct/src/decode/decode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index ab55b70..b12b8fa 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -298,7 +298,7 @@ impl Decode for char {
 impl<T, B> Decode for Cow<'_, B>
 where
 	T: DecodeBorrowed<B>,
-	B: ToOwned<Owned = T>,
+	B: ToOwned<Owned = T> + ?Sized,
 {
 	type Error = T::Error;
 
-- 
2.43.0


From 2bb81cd9300106ecc21bd0bf06797b4185e3edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 22/25] fix: convert decode errors of Result into
 GenericDecodeError

---
 oct/src/error/generic_decode_error.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/oct/src/error/generic_decode_error.rs b/oct/src/error/generic_decode_error.rs
index 1f710da..cf32fde 100644
--- a/oct/src/error/generic_decode_error.rs
+++ b/oct/src/error/generic_decode_error.rs
@@ -186,6 +186,21 @@ where
 	}
 }
 
+impl<F: Into<Self>> From<EnumDecodeError<bool, F>> for GenericDecodeError {
+	#[inline(always)]
+	fn from(value: EnumDecodeError<bool, F>) -> Self {
+		use EnumDecodeError as Error;
+
+		match value {
+			Error::InvalidDiscriminant(e) => e.into(),
+
+			Error::UnassignedDiscriminant { value } => Self::UnassignedDiscriminant { value: value.into() },
+
+			Error::BadField(e) => e.into(),
+		}
+	}
+}
+
 impl From<Infallible> for GenericDecodeError {
 	#[inline(always)]
 	fn from(_value: Infallible) -> Self {
-- 
2.43.0


From ea48674f86d2c0cb101185f1dd5acab10bb25fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:07 +0000
Subject: [PATCH 23/25] fix: leave out defaults of generic parameters in
 derived implementations

---
 oct-macros/src/impl_derive_macro.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oct-macros/src/impl_derive_macro.rs b/oct-macros/src/impl_derive_macro.rs
index 16cd014..915038c 100644
--- a/oct-macros/src/impl_derive_macro.rs
+++ b/oct-macros/src/impl_derive_macro.rs
@@ -63,13 +63,14 @@ where
 		Data::Union(..) => panic!("unions cannot derive `{trait_name:?}`"),
 	};
 
-	let generic_params = &input.generics.params;
-	let generic_where  = &input.generics.where_clause;
+	// NOTE: `ImplGenerics` leaves out defaults, which are
+	// not allowed for the parameters of an implementation.
+	let (generic_params, _, generic_where) = input.generics.split_for_impl();
 
 	let generic_names = GenericName::extract_from(&input.generics);
 
 	let output = quote! {
-		#unsafe_token impl<#generic_params> #trait_path for #self_name<#generic_names>
+		#unsafe_token impl #generic_params #trait_path for #self_name<#generic_names>
 		#generic_where
 		{
 			#body
-- 
2.43.0


From 5b55767d9fcb28daf1a585f23fce820a1e57a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 24/25] fix: derive for enumerations with a variant called
 Error

---
 oct-macros/src/impls/decode_enum.rs   | 2 +-
 oct-macros/src/impls/decode_struct.rs | 2 +-
 oct-macros/src/impls/encode_enum.rs   | 2 +-
 oct-macros/src/impls/encode_struct.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/oct-macros/src/impls/decode_enum.rs b/oct-macros/src/impls/decode_enum.rs
index 73087ac..a58cdc6 100644
--- a/oct-macros/src/impls/decode_enum.rs
+++ b/oct-macros/src/impls/decode_enum.rs
@@ -65,7 +65,7 @@ pub fn decode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 		type Error = ::oct::error::EnumDecodeError<#repr, ::oct::error::GenericDecodeError>;
 
 		#[inline]
-		fn decode(stream: &mut ::oct::decode::Input) -> ::core::result::Result<Self, Self::Error> {
+		fn decode(stream: &mut ::oct::decode::Input) -> ::core::result::Result<Self, <Self as ::oct::decode::Decode>::Error> {
 			let discriminant = <#repr as ::oct::decode::Decode>::decode(stream)
 				.map_err(::core::convert::Into::<::core::convert::Infallible>::into)
 				.map_err(::oct::error::EnumDecodeError::InvalidDiscriminant)?;
diff --git a/oct-macros/src/impls/decode_struct.rs b/oct-macros/src/impls/decode_struct.rs
index c29ddb8..3cb91f3 100644
--- a/oct-macros/src/impls/decode_struct.rs
+++ b/oct-macros/src/impls/decode_struct.rs
@@ -53,7 +53,7 @@ pub fn decode_struct(data: DataStruct) -> TokenStream {
 		type Error = ::oct::error::GenericDecodeError;
 
 		#[inline]
-		fn decode(stream: &mut ::oct::decode::Input) -> ::core::result::Result<Self, Self::Error> {
+		fn decode(stream: &mut ::oct::decode::Input) -> ::core::result::Result<Self, <Self as ::oct::decode::Decode>::Error> {
 			let this = #value;
 			::core::result::Result::Ok(this)
 		}
diff --git a/oct-macros/src/impls/encode_enum.rs b/oct-macros/src/impls/encode_enum.rs
index 63ebae3..c304916 100644
--- a/oct-macros/src/impls/encode_enum.rs
+++ b/oct-macros/src/impls/encode_enum.rs
@@ -70,7 +70,7 @@ pub fn encode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 
 		#[allow(unreachable_patterns)]
 		#[inline]
-		fn encode(&self, stream: &mut ::oct::encode::Output) -> ::core::result::Result<(), Self::Error> {
+		fn encode(&self, stream: &mut ::oct::encode::Output) -> ::core::result::Result<(), <Self as ::oct::encode::Encode>::Error> {
 			match *self {
 				#(
 					#patterns => {
diff --git a/oct-macros/src/impls/encode_struct.rs b/oct-macros/src/impls/encode_struct.rs
index 5dde7ae..bfa070a 100644
--- a/oct-macros/src/impls/encode_struct.rs
+++ b/oct-macros/src/impls/encode_struct.rs
@@ -51,7 +51,7 @@ pub fn encode_struct(data: DataStruct) -> TokenStream {
 		type Error = ::oct::error::GenericEncodeError;
 
 		#[inline]
-		fn encode(&self, stream: &mut ::oct::encode::Output) -> ::core::result::Result<(), Self::Error> {
+		fn encode(&self, stream: &mut ::oct::encode::Output) -> ::core::result::Result<(), <Self as ::oct::encode::Encode>::Error> {
 			let #pattern = self;
 
 			#(
-- 
2.43.0


From c4e982959ab8d478185b0d69bb20f690c2ca5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:27 +0000
Subject: [PATCH 25/25] fix: derive for enumerations with any constant
 discriminants

---
 oct-macros/src/discriminants/mod.rs | 64 ++++++++++++++++-------------
 oct-macros/src/impls/decode_enum.rs | 12 +++---
 oct-macros/src/impls/encode_enum.rs | 10 ++---
 3 files changed, 47 insertions(+), 39 deletions(-)

diff --git a/oct-macros/src/discriminants/mod.rs b/oct-macros/src/discriminants/mod.rs
index 2c04e03..f35e008 100644
--- a/oct-macros/src/discriminants/mod.rs
+++ b/oct-macros/src/discriminants/mod.rs
@@ -19,61 +19,69 @@
 // er General Public License along with Oct. If
 // not, see <https://www.gnu.org/licenses/>.
 
+use crate::Repr;
+
+use proc_macro2::{Literal, TokenStream};
+use quote::quote;
 use std::borrow::Borrow;
-use proc_macro2::Span;
-use syn::{Expr, Lit, LitInt, Variant};
+use syn::{Expr, Variant};
 
+/// Iterates over the discriminants of an enumeration.
+///
+/// Explicit discriminants may be any constant expression; they cannot be evaluated here.
+/// Implicit discriminants are therefore given as an offset to the last explicit discriminant.
 pub struct Discriminants<I: IntoIterator<Item: Borrow<Variant>>> {
 	variants: I::IntoIter,
-	prev: Option<u128>,
+	repr:     Repr,
+	base:     Option<Expr>,
+	offset:   u128,
 }
 
 impl<I: IntoIterator<Item: Borrow<Variant>>> Discriminants<I> {
 	#[inline(always)]
 	#[must_use]
-	pub fn new(variants: I) -> Self {
+	pub fn new(variants: I, repr: Repr) -> Self {
 		Self {
 			variants: variants.into_iter(),
-			prev: None,
+			repr,
+			base:   None,
+			offset: 0x0,
 		}
 	}
 }
 
 impl<I: IntoIterator<Item: Borrow<Variant>>> Iterator for Discriminants<I> {
-	type Item = LitInt;
+	type Item = TokenStream;
 
 	#[inline]
 	fn next(&mut self) -> Option<Self::Item> {
 		let variant = self.variants.next()?;
 
-		let discriminant = if let Some((_, ref expr)) = variant.borrow().discriminant {
-			let Expr::Lit(ref expr) = *expr else {
-				panic!("expected literal expression for discriminant value");
-			};
+		if let Some((_, ref expr)) = variant.borrow().discriminant {
+			self.base   = Some(expr.clone());
+			self.offset = 0x0;
+		}
+
+		let discriminant = match self.base {
+			None => {
+				let value = Literal::u128_unsuffixed(self.offset);
 
-			let Lit::Int(ref expr) = expr.lit else {
-				panic!("expected (potentially signed) integer literal for discriminant value`");
-			};
+				quote! { #value }
+			}
 
-			let expr = expr.base10_digits();
+			Some(ref base) if self.offset == 0x0 => quote! { const { #base } },
 
-			let value: u128 = expr
-				.parse()
-				.or_else(|_| expr.parse::<i128>().map(|v| v as u128))
-				.unwrap();
+			Some(ref base) => {
+				let repr   = self.repr;
+				let offset = Literal::u128_suffixed(self.offset);
 
-			value
-		} else if let Some(prev) = self.prev {
-			prev
-				.checked_add(0x1)
-				.unwrap_or_else(|| panic!("overflow following discriminant `{prev:?}`"))
-		} else {
-			Default::default()
+				// NOTE: The offset may by itself be too great for
+				// signed representations, although the sum is not.
+				quote! { const { #repr::wrapping_add(#base, #offset as #repr) } }
+			}
 		};
 
-		self.prev = Some(discriminant);
-
-		let discriminant = LitInt::new(&discriminant.to_string(), Span::call_site());
+		self.offset += 0x1;
 
 		Some(discriminant)
 	}
diff --git a/oct-macros/src/impls/decode_enum.rs b/oct-macros/src/impls/decode_enum.rs
index a58cdc6..3a684cd 100644
--- a/oct-macros/src/impls/decode_enum.rs
+++ b/oct-macros/src/impls/decode_enum.rs
@@ -21,14 +21,14 @@
 
 use crate::{Discriminants, Repr};
 
-use proc_macro2::TokenStream;
-use quote::quote;
+use proc_macro2::{Span, TokenStream};
+use quote::{quote, quote_spanned};
 use std::iter;
 use syn::{DataEnum, Fields};
 
 #[must_use]
 pub fn decode_enum(data: DataEnum, repr: Repr) -> TokenStream {
-	let discriminants: Vec<_> = Discriminants::new(&data.variants).collect();
+	let discriminants: Vec<_> = Discriminants::new(&data.variants, repr).collect();
 
 	let values = data
 		.variants
@@ -37,7 +37,7 @@ pub fn decode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 			let variant_name = variant.ident;
 
 			let commands = iter::repeat_n(
-				quote! {
+				quote_spanned! {Span::mixed_site()=>
 					::oct::decode::Decode::decode(stream)
 						.map_err(::core::convert::Into::<::oct::error::GenericDecodeError>::into)
 						.map_err(::oct::error::EnumDecodeError::BadField)?
@@ -61,7 +61,7 @@ pub fn decode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 			}
 		});
 
-	quote! {
+	quote_spanned! {Span::mixed_site()=>
 		type Error = ::oct::error::EnumDecodeError<#repr, ::oct::error::GenericDecodeError>;
 
 		#[inline]
@@ -71,7 +71,7 @@ pub fn decode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 				.map_err(::oct::error::EnumDecodeError::InvalidDiscriminant)?;
 
 			let this = match discriminant {
-				#(#discriminants => #values,)*
+				#(value if value == #discriminants => #values,)*
 
 				value => return ::core::result::Result::Err(::oct::error::EnumDecodeError::UnassignedDiscriminant { value }),
 			};
diff --git a/oct-macros/src/impls/encode_enum.rs b/oct-macros/src/impls/encode_enum.rs
index c304916..c614ce3 100644
--- a/oct-macros/src/impls/encode_enum.rs
+++ b/oct-macros/src/impls/encode_enum.rs
@@ -22,12 +22,12 @@
 use crate::{Discriminants, Repr};
 
 use proc_macro2::{Span, TokenStream};
-use quote::quote;
-use syn::{DataEnum, Fields, Ident, LitInt};
+use quote::{quote, quote_spanned};
+use syn::{DataEnum, Fields, Ident};
 
 #[must_use]
 pub fn encode_enum(data: DataEnum, repr: Repr) -> TokenStream {
-	let discriminants: Vec<LitInt> = Discriminants::new(&data.variants).collect();
+	let discriminants: Vec<_> = Discriminants::new(&data.variants, repr).collect();
 
 	let captures: Vec<Vec<Ident>> = data
 		.variants
@@ -37,7 +37,7 @@ pub fn encode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 				.fields
 				.iter()
 				.enumerate()
-				.map(|(index, _)| Ident::new(&format!("value{index}"), Span::call_site()))
+				.map(|(index, _)| Ident::new(&format!("value{index}"), Span::mixed_site()))
 				.collect()
 		})
 		.collect();
@@ -65,7 +65,7 @@ pub fn encode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 			}
 		});
 
-	quote! {
+	quote_spanned! {Span::mixed_site()=>
 		type Error = ::oct::error::EnumEncodeError<#repr, ::oct::error::GenericEncodeError>;
 
 		#[allow(unreachable_patterns)]
-- 
2.43.0

