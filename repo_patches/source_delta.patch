From 387b379ca26fda6a57f0389309b6c6fb8c72ee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:08 +0000
Subject: [PATCH 01/44] fix: reject empty words in Cmd::from_word

---
 src/string/subtypes/impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/string/subtypes/impls.rs b/src/string/subtypes/impls.rs
index 93f31b1..4cfa293 100644
--- a/src/string/subtypes/impls.rs
+++ b/src/string/subtypes/impls.rs
@@ -75,6 +75,9 @@ impl<'a> Cmd<'a> {
     /// Tries to convert `word` into an instance of this type, uppercasing where necessary.
     pub fn from_word(word: impl Into<Word<'a>>) -> Result<Self, InvalidString> {
         let mut word = word.into();
+        if word.is_empty() {
+            return Err(InvalidString::Empty);
+        }
         if let Some(inval) = word.iter().find(|b| !b.is_ascii_alphabetic()) {
             return Err(InvalidString::Byte(*inval));
         };
-- 
2.43.0


From db010f4148041bf61cbc7b78f12f2f7bd9a1422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:59 +0000
Subject: [PATCH 02/44] fix: OwnedSlice::init_capacity wrote past the end of
 its allocation

---
 src/util/ownedslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ownedslice.rs b/src/util/ownedslice.rs
index 8139cc8..4174c83 100644
--- a/src/util/ownedslice.rs
+++ b/src/util/ownedslice.rs
@@ -87,7 +87,7 @@ impl<T: Default + Copy> OwnedSlice<T> {
     /// Sets all uninitialized values of buffer to the default value.
     pub fn init_capacity(&mut self, len: usize) {
         let mut cur = unsafe { self.0.as_ptr().add(len) };
-        let end = unsafe { cur.add(self.1) };
+        let end = unsafe { self.0.as_ptr().add(self.1) };
         let default = T::default();
         while cur < end {
             unsafe {
-- 
2.43.0


From 998e405dfb5d9358d3bf20b32a169b21906cf262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:59 +0000
Subject: [PATCH 03/44] fix: SecretBuf::read_from could read more than the
 requested number of bytes

---
 src/string/secretbuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index d7e43a6..fee324d 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -82,7 +82,7 @@ impl SecretBuf {
         self.reserve(expect);
         // Safety: This data gets initialized on creation of the SecretBuf,
         // or above.
-        let mut write_to = unsafe { self.data.as_write_slice(self.len) };
+        let mut write_to = unsafe { &mut self.data.as_write_slice(self.len)[..expect] };
         let mut bytes_read = 0usize;
         while bytes_read < expect {
             let last_read = read.read(write_to)?;
-- 
2.43.0


From a15d250d0c38edd2357f5e9d27d6f627ec247740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:59 +0000
Subject: [PATCH 04/44] fix: ThinArc freed its value without synchronizing with
 other threads' drops

---
 src/util/thinarc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/thinarc.rs b/src/util/thinarc.rs
index 8077a09..7be632f 100644
--- a/src/util/thinarc.rs
+++ b/src/util/thinarc.rs
@@ -32,7 +32,7 @@ impl<T> ThinArc<T> {
     }
     pub fn try_unwrap(mut self) -> Result<T, Self> {
         unsafe {
-            if self.ret_rc().load(Ordering::Relaxed) == 1 {
+            if self.ret_rc().load(Ordering::Acquire) == 1 {
                 let retval = Ok(self.offsets().1.cast::<T>().read());
                 self.dealloc();
                 std::mem::forget(self);
@@ -109,6 +109,8 @@ impl<T: DynSized + ?Sized> Drop for ThinArc<T> {
     fn drop(&mut self) {
         unsafe {
             if self.ret_rc().fetch_sub(1, Ordering::Release) == 1 {
+                // Synchronize with every other thread's decrement before freeing.
+                std::sync::atomic::fence(Ordering::Acquire);
                 let (ptr_meta, ptr_value) = self.offsets();
                 T::drop_in_place(
                     NonNull::new_unchecked(ptr_value),
-- 
2.43.0


From aeb782ffff210941e271ad862f807417cbbc7cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:41 +0000
Subject: [PATCH 05/44] fix: strings derived from secret strings lost their
 secrecy

---
 src/string/bytes.rs     | 17 +++++++++++++----
 src/string/tf/escape.rs | 10 +++++++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 1612ba1..826c9a4 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -46,7 +46,8 @@ unsafe impl<'a> crate::owning::MakeOwning for crate::string::Bytes<'a> {
 
     fn make_owning(&mut self) {
         if !self.is_owning() {
-            self.owning_force(false);
+            let secret = self.secret;
+            self.owning_force(secret);
         }
     }
 }
@@ -164,7 +165,10 @@ impl<'a> Bytes<'a> {
                 utf8: 1i8.into(),
                 secret: self.secret,
             },
-            Cow::Owned(o) => o.into(),
+            Cow::Owned(o) => {
+                let (ownership, value) = unsafe { OwnedBytes::from_vec(o.into_bytes()) };
+                Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
+            }
         }
     }
     #[cfg(feature = "base64")]
@@ -192,7 +196,12 @@ impl<'a> Bytes<'a> {
     #[cfg(feature = "base64")]
     pub fn to_base64_plus(&self) -> super::Arg<'static> {
         if self.is_empty() {
-            crate::names::PLUS
+            let plus = crate::names::PLUS;
+            if self.secret {
+                plus.secret()
+            } else {
+                plus
+            }
         } else {
             unsafe { super::Arg::from_unchecked(self.to_base64_impl()) }
         }
@@ -246,7 +255,7 @@ impl<'a> Bytes<'a> {
     pub fn transform<T: Transform>(&mut self, tf: T) -> T::Value {
         let tfed = tf.transform(self);
         if tfed.transformed.as_ref().is_empty() {
-            *self = Bytes::empty();
+            *self = Bytes { secret: self.secret, ..Bytes::empty() };
             return tfed.value;
         }
         match tfed.transformed {
diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index b13f02a..65fb939 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -1,4 +1,4 @@
-use crate::string::{NoNul, Word};
+use crate::string::{Bytes, NoNul, Word};
 use std::num::NonZeroU8;
 
 /// Returns the unescaped value for an tag value escape code.
@@ -50,7 +50,9 @@ pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { Word::from_unchecked(new_bytes.into()) }
+    let new_bytes =
+        if tag_value.is_secret() { Bytes::from_secret(new_bytes) } else { new_bytes.into() };
+    unsafe { Word::from_unchecked(new_bytes) }
 }
 
 /// Returns an unescaped form of the provided tag value.
@@ -79,5 +81,7 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { NoNul::from_unchecked(new_bytes.into()) }
+    let new_bytes =
+        if tag_value.is_secret() { Bytes::from_secret(new_bytes) } else { new_bytes.into() };
+    unsafe { NoNul::from_unchecked(new_bytes) }
 }
-- 
2.43.0


From 9928575a42f546f0b04584fb3982a4d3db37663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:28 +0000
Subject: [PATCH 06/44] fix: secret string buffers were not zeroed when the
 last reference was dropped

---
 src/string/bytes.rs     | 55 ++++++++++++++++++++++++++++++-----------
 src/string/secretbuf.rs |  2 +-
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 826c9a4..475a615 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -67,7 +67,7 @@ impl<'a> Bytes<'a> {
     }
     /// Cheaply conversts a secret value into a `Bytes`.
     pub fn from_secret(value: Vec<u8>) -> Self {
-        let (ownership, value) = unsafe { OwnedBytes::from_vec(value) };
+        let (ownership, value) = unsafe { OwnedBytes::from_vec(value, true) };
         Bytes { value, ownership, utf8: AtomicI8::new(0), secret: true }
     }
     /// Returns `true` if `self` is not borrowing its data.
@@ -107,7 +107,7 @@ impl<'a> Bytes<'a> {
     }
     fn owning_force(&mut self, secret: bool) {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec());
+            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec(), secret);
             *self = Bytes { value, ownership, utf8: self.utf8.load(Relaxed).into(), secret }
         }
     }
@@ -166,7 +166,8 @@ impl<'a> Bytes<'a> {
                 secret: self.secret,
             },
             Cow::Owned(o) => {
-                let (ownership, value) = unsafe { OwnedBytes::from_vec(o.into_bytes()) };
+                let (ownership, value) =
+                    unsafe { OwnedBytes::from_vec(o.into_bytes(), self.secret) };
                 Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
             }
         }
@@ -176,7 +177,7 @@ impl<'a> Bytes<'a> {
         use base64::engine::{general_purpose::STANDARD as ENGINE, Engine};
         let encoded = ENGINE.encode(self.value);
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes(), self.secret);
             Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
         }
     }
@@ -274,7 +275,7 @@ impl<'a> Bytes<'a> {
             Cow::Owned(o) => {
                 let utf8 = self.utf8_for_policy(tfed.utf8);
                 unsafe {
-                    let (ownership, value) = OwnedBytes::from_vec(o);
+                    let (ownership, value) = OwnedBytes::from_vec(o, self.secret);
                     *self = Bytes { value, ownership, utf8: utf8.into(), secret: self.secret };
                 }
             }
@@ -318,7 +319,7 @@ impl std::borrow::Borrow<[u8]> for Bytes<'_> {
 impl<'a> From<Vec<u8>> for Bytes<'a> {
     fn from(value: Vec<u8>) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value);
+            let (ownership, value) = OwnedBytes::from_vec(value, false);
             Bytes { value, ownership, utf8: 0i8.into(), secret: false }
         }
     }
@@ -327,7 +328,7 @@ impl<'a> From<Vec<u8>> for Bytes<'a> {
 impl<'a> From<String> for Bytes<'a> {
     fn from(value: String) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes(), false);
             Bytes { value, ownership, utf8: 1i8.into(), secret: false }
         }
     }
@@ -486,33 +487,57 @@ impl std::fmt::Debug for Bytes<'_> {
 /// There is also only a strong reference count, which is kept seperate.
 #[repr(transparent)]
 #[derive(Clone)]
-struct OwnedBytes(crate::util::ThinArc<crate::util::OwnedSlice<u8>>);
+struct OwnedBytes(crate::util::ThinArc<Buffer>);
+
+/// The storage of an [`OwnedBytes`], which is zeroed when dropped if it is secret.
+struct Buffer {
+    data: std::mem::ManuallyDrop<crate::util::OwnedSlice<u8>>,
+    secret: bool,
+}
+
+impl Buffer {
+    fn into_inner(self) -> crate::util::OwnedSlice<u8> {
+        let mut this = std::mem::ManuallyDrop::new(self);
+        unsafe { std::mem::ManuallyDrop::take(&mut this.data) }
+    }
+}
+
+impl Drop for Buffer {
+    fn drop(&mut self) {
+        if self.secret {
+            self.data.reinit_all();
+        }
+        unsafe { std::mem::ManuallyDrop::drop(&mut self.data) }
+    }
+}
 
 impl OwnedBytes {
     /// Converts a Vec into Self (which owns the data)
     /// and a slice with an unbound lifetime (which does not).
     ///
     /// Returns `None` and an empty slice if `value` is empty.
+    /// If `secret` is true, zeroes the data when it is dropped.
     ///
     /// # Safety
     /// This returns a reference with an unbound lifetime.
     /// Make sure this lifetime doesn't leak anywhere that might outlive
     /// the `Self`.
-    pub unsafe fn from_vec<'a>(value: Vec<u8>) -> (Option<Self>, &'a [u8]) {
-        if value.is_empty() {
+    pub unsafe fn from_vec<'a>(value: Vec<u8>, secret: bool) -> (Option<Self>, &'a [u8]) {
+        let (os, len) = crate::util::OwnedSlice::from_vec(value);
+        let buffer = Buffer { data: std::mem::ManuallyDrop::new(os), secret };
+        if len == 0 {
             return (None, &[]);
         }
-        let (os, len) = crate::util::OwnedSlice::from_vec(value);
-        let slice = unsafe { os.as_slice(len) };
-        (Some(OwnedBytes(crate::util::ThinArc::new(os))), slice)
+        let slice = unsafe { buffer.data.as_slice(len) };
+        (Some(OwnedBytes(crate::util::ThinArc::new(buffer))), slice)
     }
     /// Attempts to re-use the buffer for constructing a `Vec` from `slice`.
     ///
     /// # Safety
     /// `slice` is assumed to be a slice of the data owned by self.
     pub unsafe fn into_vec(self, slice: &[u8], secret: bool) -> Vec<u8> {
-        if let Ok(os) = self.0.try_unwrap() {
-            let (retval, destroy) = os.into_vec_with_slice(slice);
+        if let Ok(buffer) = self.0.try_unwrap() {
+            let (retval, destroy) = buffer.into_inner().into_vec_with_slice(slice);
             if secret {
                 if let Some(mut destroy) = destroy {
                     destroy.reinit_all();
diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index fee324d..a1fb7b9 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -22,7 +22,7 @@ impl SecretBuf {
     }
     /// Allows read-only access to the contents of this buffer through a [`Bytes`].
     pub fn as_bytes(&self) -> Bytes<'_> {
-        Bytes::from(self.as_ref()).secret()
+        Bytes::from_bytes(self.as_ref()).secret()
     }
     /// Effeciently converts `self` into a secret [`Bytes`].
     pub fn into_bytes<'a>(mut self) -> Bytes<'a> {
-- 
2.43.0


From 1b471bd600b03bccbe6e69199dd031fd01acfa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:44 +0000
Subject: [PATCH 07/44] fix: partially restoring a Splitter's range kept an
 encoding claim about narrower bytes

---
 src/string/splitter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/string/splitter.rs b/src/string/splitter.rs
index ee73db0..8acc2a7 100644
--- a/src/string/splitter.rs
+++ b/src/string/splitter.rs
@@ -77,6 +77,9 @@ impl Range {
         }
         if start && end {
             self.encoding = saved.encoding;
+        } else if self.encoding != saved.encoding {
+            // What was learned about the narrower range says nothing about the bytes restored.
+            self.encoding = Encoding::Unknown;
         }
     }
     pub fn constrain<'a, T>(&self, slice: &'a [T]) -> &'a [T] {
-- 
2.43.0


From c66a06cc3b9834019763b0c9bf77d44008b69cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:28 +0000
Subject: [PATCH 08/44] fix: Tags::parse looped forever on keys starting with a
 colon and misread values of empty keys as keys

---
 src/ircmsg/tags.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/tags.rs b/src/ircmsg/tags.rs
index 8b15297..9f3e45d 100644
--- a/src/ircmsg/tags.rs
+++ b/src/ircmsg/tags.rs
@@ -87,7 +87,8 @@ impl<'a> Tags<'a> {
         // TODO: Tag bytes available.
         while !splitter.is_empty() {
             let Ok(key) = splitter.string::<Key>(false) else {
-                splitter.consume_invalid::<Key>();
+                // Skip the whole malformed tag, including its value.
+                while !matches!(splitter.next_byte(), None | Some(b';')) {}
                 continue;
             };
             let value = if matches!(splitter.next_byte(), Some(b'=')) {
-- 
2.43.0


From 77ad7d0ae6b13b20a0e8463ac4ee2bba3c05cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:53 +0000
Subject: [PATCH 09/44] fix: unescape mishandled the first escape sequence of a
 tag value

---
 src/string/tf/escape.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index 65fb939..147c1b9 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -64,13 +64,13 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
     let (mut new_bytes, rest) = unsafe {
         let (no_escape, rest) = tag_value.as_bytes_unsafe().split_at(first_idx);
         // rest contains at least one byte because first_idx is a valid index.
-        let (first, rest) = rest.split_first().unwrap_unchecked();
+        let (_, rest) = rest.split_first().unwrap_unchecked();
         let mut new_bytes = Vec::with_capacity(tag_value.len() - 1);
         new_bytes.extend_from_slice(no_escape);
-        new_bytes.push(unescape_byte(first));
         (new_bytes, rest)
     };
-    let mut esc = false;
+    // The byte before `rest` is a backslash.
+    let mut esc = true;
     for byte in rest {
         if esc {
             new_bytes.push(unescape_byte(byte));
-- 
2.43.0


From 4b983d25e96668c5526b06d6347526e9c27d5e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:05 +0000
Subject: [PATCH 10/44] fix: FlatMapEditGuard lost or corrupted elements
 inserted out of order

Lookups ignored out-of-order elements, removal and element references
accessed the wrong or uninitialized elements, clearing leaked and the
length only counted the ordered elements.
---
 src/util/flatmap.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index da32864..d94814a 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -138,7 +138,6 @@ fn get_impl<E, X: KeyExtractor<E>>(
     let (sorted, unsorted) = pairs.split_at(sorted_until);
     match sorted.binary_search_by(|v| X::extract_key(v).borrow().cmp(key)) {
         Ok(key) => Some(key),
-        Err(v) if v < sorted_until => None,
         Err(_) => unsorted
             .iter()
             .position(|v| X::extract_key(v).borrow() == key)
@@ -184,13 +183,22 @@ impl<E, X: KeyExtractor<E>> FlatMap<E, X> {
 }
 
 impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
-    collection_methods!(src);
+    pub fn len(&self) -> usize {
+        self.real_len
+    }
+    pub fn is_empty(&self) -> bool {
+        self.real_len == 0
+    }
 
     /// Return a slice of all the elements in the `Vec`, sorted and otherwise.
     pub fn as_slice(&self) -> &[E] {
         let ptr = self.src.as_ptr();
         unsafe { std::slice::from_raw_parts(ptr, self.real_len) }
     }
+    fn as_slice_mut(&mut self) -> &mut [E] {
+        let ptr = self.src.as_mut_ptr();
+        unsafe { std::slice::from_raw_parts_mut(ptr, self.real_len) }
+    }
     /// Return the index of a given element in the full `Vec`.
     fn get_idx(&self, key: &X::KeyBorrowed) -> Option<usize> {
         let sorted_until = self.src.len();
@@ -198,11 +206,11 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
     }
     pub fn get<'a>(&'a self, key: &X::KeyBorrowed) -> Option<&'a E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked(idx) })
+        Some(&self.as_slice()[idx])
     }
     pub fn get_mut<'a>(&'a mut self, key: &X::KeyBorrowed) -> Option<&'a mut E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked_mut(idx) })
+        Some(&mut self.as_slice_mut()[idx])
     }
     fn push(&mut self, elem: E) -> &mut E {
         let key = X::extract_key(&elem);
@@ -226,18 +234,14 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
             }
         }
         unsafe { self.src.set_len(sorted_until) };
-        let mut ptr = self.src.as_mut_ptr();
-        unsafe {
-            ptr = ptr.add(self.real_len);
-            ptr.as_mut().unwrap_unchecked()
-        }
+        let last = self.real_len - 1;
+        &mut self.as_slice_mut()[last]
     }
     pub fn insert(&mut self, elem: E) -> Option<E> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            let old_elem = unsafe { &mut self.src.get_unchecked_mut(idx) };
-            Some(std::mem::replace(old_elem, elem))
+            Some(std::mem::replace(&mut self.as_slice_mut()[idx], elem))
         } else {
             self.push(elem);
             None
@@ -258,7 +262,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            (unsafe { self.src.get_unchecked_mut(idx) }, Some(elem))
+            (&mut self.as_slice_mut()[idx], Some(elem))
         } else {
             (self.push(elem), None)
         }
@@ -268,15 +272,18 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         // That said, removal should be infrequent, so it's probably
         // not worth adding some sort of tombstoning to the edit guard.
         let idx = self.get_idx(key)?;
+        let sorted_until = std::cmp::min(self.src.len(), idx);
+        unsafe { self.src.set_len(self.real_len) };
         let retval = self.src.swap_remove(idx);
         self.real_len -= 1;
-        unsafe { self.src.set_len(idx) };
+        unsafe { self.src.set_len(sorted_until) };
         Some(retval)
     }
     /// Removes all key-value pairs.
     pub fn clear(&mut self) {
-        self.src.clear();
+        unsafe { self.src.set_len(self.real_len) };
         self.real_len = 0;
+        self.src.clear();
     }
 }
 
-- 
2.43.0


From c9c538273f250b5748095512f39470287dd60c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:46 +0000
Subject: [PATCH 11/44] fix: Builder lost the secrecy of the strings it was
 given

---
 src/string/builder.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/string/builder.rs b/src/string/builder.rs
index 7ded1fc..3359fd7 100644
--- a/src/string/builder.rs
+++ b/src/string/builder.rs
@@ -4,11 +4,12 @@ use crate::error::InvalidString;
 /// Type for creating [`Bytes`] newtypes by concatenation.
 ///
 /// This type contains a `Vec` of bytes that upholds the string type's invariant.
-/// It also tracks UTF-8 validity.
-#[derive(Clone, Debug)]
+/// It also tracks UTF-8 validity, and builds secret strings if it was given any.
+#[derive(Clone)]
 pub struct Builder<T> {
     bytes: Vec<u8>,
     utf8: bool,
+    secret: bool,
     marker: std::marker::PhantomData<T>,
 }
 
@@ -30,8 +31,9 @@ impl<'a, T: BytesNewtype<'a>> Builder<T> {
         T::This<'b>: BytesNewtype<'b>,
     {
         let utf8 = init.is_utf8_lazy();
+        let secret = init.is_secret();
         let bytes = T::into_vec(init);
-        Self { bytes, utf8, marker: std::marker::PhantomData }
+        Self { bytes, utf8, secret, marker: std::marker::PhantomData }
     }
     /// Shrinks the capacity of this builder as much as possible.
     pub fn shrink_to_fit(&mut self) {
@@ -62,7 +64,9 @@ impl<'a, T: BytesNewtype<'a>> Builder<T> {
     /// Consumes `self` to build an owning byte string.
     pub fn build(self) -> T {
         unsafe {
-            let bytes: Bytes = if self.utf8 {
+            let bytes: Bytes = if self.secret {
+                Bytes::from_secret(self.bytes)
+            } else if self.utf8 {
                 let string = String::from_utf8_unchecked(self.bytes);
                 string.into()
             } else {
@@ -93,6 +97,7 @@ impl<'a, T: BytesNewtype<'a>> Builder<T> {
         T::This<'b>: BytesNewtype<'b>,
     {
         let string = string.into();
+        self.secret |= string.is_secret();
         unsafe {
             let bytes = string.as_bytes_unsafe();
             self.append_unchecked(bytes, string.is_utf8_lazy());
@@ -141,6 +146,18 @@ impl<'a, T: BytesNewtype<'a>> Builder<T> {
     }
 }
 
+impl<T> std::fmt::Debug for Builder<T> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        let mut f = f.debug_struct("Builder");
+        if self.secret {
+            f.field("bytes", &super::DISPLAY_PLACEHOLDER);
+        } else {
+            f.field("bytes", &self.bytes);
+        }
+        f.field("utf8", &self.utf8).finish()
+    }
+}
+
 impl<T> std::ops::Deref for Builder<T> {
     type Target = [u8];
     fn deref(&self) -> &[u8] {
-- 
2.43.0


From c6d7ef74ecccb48ae6355b801a7e7e4cb16b6ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:14 +0000
Subject: [PATCH 12/44] fix: message parsing dropped leading tabs and form
 feeds of arguments

---
 src/ircmsg/args.rs  | 4 ++--
 src/ircmsg/codec.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index a5792d6..c77cedc 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -2,7 +2,7 @@
 
 use crate::{
     error::InvalidString,
-    string::{Arg, Line, Splitter},
+    string::{Arg, Line, Splitter, Word},
 };
 use std::borrow::Cow;
 
@@ -141,7 +141,7 @@ impl<'a> Args<'a> {
         let mut words = Vec::with_capacity(2);
         let mut long = None;
         loop {
-            line.consume_whitespace();
+            line.consume_invalid::<Word>();
             match line.string::<Arg>(false) {
                 Ok(arg) => words.push(arg),
                 Err(InvalidString::Colon) => {
diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 2d93c2f..b8fcfb4 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -66,7 +66,7 @@ pub(crate) fn parse<'a, S: 'a, K: 'a>(
     let mut expect_source = true;
     let mut msg = Splitter::new(msg);
     let kind = loop {
-        msg.consume_whitespace();
+        msg.consume_invalid::<Word>();
         let word: Word = msg.string_or_default(false);
         if word.is_empty() {
             return Err(ParseError::InvalidKind(InvalidString::Empty));
-- 
2.43.0


From fcf1943463875cef35bb9fe2b56bd3f2064d9003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:30 +0000
Subject: [PATCH 13/44] fix: Source::parse silently dropped everything after an
 invalid nickname byte

---
 src/ircmsg/source.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/source.rs b/src/ircmsg/source.rs
index d555986..1703248 100644
--- a/src/ircmsg/source.rs
+++ b/src/ircmsg/source.rs
@@ -110,7 +110,9 @@ impl<'a> Source<'a> {
                     Ok(Source { nick, userhost: Some(address) })
                 }
             }
-            _ => Ok(Source { nick, userhost: None }),
+            // Stopped at a byte that is invalid for nicknames and isn't a separator.
+            Some(b) => Err(ParseError::InvalidNick(crate::error::InvalidString::Byte(b))),
+            None => Ok(Source { nick, userhost: None }),
         }
     }
     /// Converts `self` into a version that owns its data.
-- 
2.43.0


From cfb952229524dcb67ccae5b30c4af2da36abf7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:10 +0000
Subject: [PATCH 14/44] fix: tokio codec rejected every line with a line ending
 and truncated overlong lines

---
 src/ircmsg/codec.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index b8fcfb4..1aab616 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -422,6 +422,7 @@ impl ServerCodec {
 pub(super) mod tokio_codec {
     use super::{ClientCodec, ServerCodec};
     use crate::{
+        error::{InvalidString, ParseError},
         ircmsg::{ClientMsg, ServerMsg},
         string::Line,
     };
@@ -472,6 +473,20 @@ pub(super) mod tokio_codec {
         None
     }
 
+    /// Removes the line ending from a line split off using [`scroll_buf`].
+    fn trim_line(line: &[u8]) -> Result<&[u8], ParseError> {
+        let Some(mut line) = line.strip_suffix(b"\n") else {
+            return match line.last() {
+                Some(b'\0') => Err(ParseError::InvalidLine(InvalidString::Byte(b'\0'))),
+                _ => Err(ParseError::TooLong),
+            };
+        };
+        while let Some(rest) = line.strip_suffix(b"\r") {
+            line = rest;
+        }
+        Ok(line)
+    }
+
     impl Decoder for ClientCodec {
         type Item = ServerMsg<'static>;
         type Error = std::io::Error;
@@ -482,7 +497,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = Line::from_bytes(trim_line(line_raw.as_ref())?)?;
             Ok(Some(ServerMsg::parse(line.owning())?))
         }
     }
@@ -496,7 +511,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = Line::from_bytes(trim_line(line_raw.as_ref())?)?;
             Ok(Some(ClientMsg::parse(line.owning())?))
         }
     }
-- 
2.43.0


From 0fce855ace681c304a912e3bf2045d9780c0ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:39 +0000
Subject: [PATCH 15/44] fix: end of stream inside a line was reported as an
 overlong or invalid line

---
 src/ircmsg/codec.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 1aab616..aa9f614 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -18,6 +18,10 @@ macro_rules! read_msg {
                 if $read_expr? == 0 {
                     return Err(Error::from(ErrorKind::UnexpectedEof));
                 }
+                // Reads only stop short of both the newline and the limit at the end of the stream.
+                if $buf.len() < $limit && $buf.last() != Some(&b'\n') {
+                    return Err(Error::from(ErrorKind::UnexpectedEof));
+                }
             }
             read_buf!(|$buf| $parse_expr)
         }
@@ -37,7 +41,7 @@ macro_rules! read_buf {
                 b'\r' if found_newline => {
                     $buf.truncate($buf.len() - 1);
                 }
-                b'\r' | b'\0' => {
+                b'\0' if found_newline => {
                     return Err(ParseError::InvalidLine(InvalidString::Byte(*c)).into())
                 }
                 _ if found_newline => {
-- 
2.43.0


From c63c2736bad52b9304a74e7b8b3701f042c9ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:31 +0000
Subject: [PATCH 16/44] fix: args_left did not count a long last argument

---
 src/ircmsg/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index c77cedc..97f4355 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -61,7 +61,7 @@ impl<'a> ArgsEditGuard<'a, '_> {
     /// IRC messages should contain no more than 15 arguments,
     /// but IRC software should also support any number of arguments.
     pub fn args_left(&self) -> isize {
-        15 - self.0.len() as isize
+        15 - (self.0.len() + self.1.is_some() as usize) as isize
     }
     /// Returns a mutable slice of all the arguments as a slice of [`Arg`]s,
     /// or None if the final argument is long.
-- 
2.43.0


From 617be01acc0e88c59b9fede18635d512d690d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:14 +0000
Subject: [PATCH 17/44] fix: ModeTypes::from_sets missed overlaps of type A
 with types C and D

---
 src/state/mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index b420d1f..62769b1 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -330,8 +330,9 @@ impl ModeTypes {
     /// and returned as a separate set. Use [`insert_set()`][Self::insert_set] to add them back.
     pub fn from_sets(a: ModeSet, b: ModeSet, c: ModeSet, d: ModeSet) -> (Self, ModeSet) {
         let mut overlap = a.intersection(b);
+        overlap = overlap.union(a.intersection(c));
+        overlap = overlap.union(a.intersection(d));
         overlap = overlap.union(b.intersection(c));
-        overlap = overlap.union(c.intersection(d));
         overlap = overlap.union(b.intersection(d));
         overlap = overlap.union(c.intersection(d));
         (
-- 
2.43.0


From 7a5ddadf525f1f8727c6c714b0167544ad57a694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:32 +0000
Subject: [PATCH 18/44] fix: StatusModes::parse rejected tables with several
 modes without prefix

---
 src/state/mode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index 62769b1..a9c6bb6 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -474,7 +474,7 @@ impl StatusModes {
                         format!("duplicate mode `{mode}`").into(),
                     ));
                 }
-                if prefix == prefix_b {
+                if prefix != b'\0' && prefix == prefix_b {
                     return Err(ParseError::InvalidField(
                         "PREFIX value".into(),
                         format!("duplicate prefix `{}`", prefix.escape_ascii()).into(),
-- 
2.43.0


From 907c9f397045210e36e616aa5627b2bfce7011ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:54 +0000
Subject: [PATCH 19/44] fix: MaybeCtcp::parse lost the delimiters of a body
 without a command

---
 src/ircmsg/ctcp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ircmsg/ctcp.rs b/src/ircmsg/ctcp.rs
index 3c09e7e..abb83ce 100644
--- a/src/ircmsg/ctcp.rs
+++ b/src/ircmsg/ctcp.rs
@@ -20,6 +20,10 @@ impl<'a> MaybeCtcp<'a, Line<'a>> {
         if splitter.next_byte() == Some(1) {
             splitter.until_byte_eq(1);
             let mut cmd = splitter.string_or_default::<Word<'_>>(false);
+            if cmd.is_empty() {
+                // No command, so the body is the whole message.
+                return MaybeCtcp { cmd, body: value };
+            }
             cmd.transform(AsciiCasemap::<true>);
             splitter.next_byte();
             let body = splitter.rest_or_default();
-- 
2.43.0


From a1a028b40cdeda7ebe94c7ce51f8560c9afbc104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:55 +0000
Subject: [PATCH 20/44] fix: numerics could not be deserialized from what they
 serialize to, and could be forged

---
 src/ircmsg/numeric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/numeric.rs b/src/ircmsg/numeric.rs
index 8be4785..de1ff49 100644
--- a/src/ircmsg/numeric.rs
+++ b/src/ircmsg/numeric.rs
@@ -5,7 +5,7 @@ use std::{io::Write, num::NonZeroU8};
 /// A three-digit numeric reply code.
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(serde_derive::Serialize, serde_derive::Deserialize))]
-#[cfg_attr(feature = "serde", serde(into = "u16"))]
+#[cfg_attr(feature = "serde", serde(into = "u16", try_from = "u16"))]
 pub struct Numeric([NonZeroU8; 3]);
 
 impl AsRef<str> for Numeric {
-- 
2.43.0


From 7247bc7fe5d843f2163c1779050e87708f53f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:55 +0000
Subject: [PATCH 21/44] fix: strings that are not UTF-8 could not be
 deserialized from formats without byte strings

---
 src/string/serde.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/string/serde.rs b/src/string/serde.rs
index 786b822..b410620 100644
--- a/src/string/serde.rs
+++ b/src/string/serde.rs
@@ -21,7 +21,13 @@ impl<'a, 'de> serde::Deserialize<'de> for Bytes<'a> {
     where
         D: serde::Deserializer<'de>,
     {
-        de.deserialize_string(Visitor::<'a>(std::marker::PhantomData))
+        let visitor = Visitor::<'a>(std::marker::PhantomData);
+        if de.is_human_readable() {
+            // These formats tend to lack byte strings and represent them as sequences instead.
+            de.deserialize_any(visitor)
+        } else {
+            de.deserialize_string(visitor)
+        }
     }
 }
 
@@ -71,6 +77,17 @@ impl<'a, 'de> serde::de::Visitor<'de> for Visitor<'a> {
         Ok(v.into())
     }
 
+    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+    where
+        A: serde::de::SeqAccess<'de>,
+    {
+        let mut bytes = Vec::<u8>::new();
+        while let Some(byte) = seq.next_element()? {
+            bytes.push(byte);
+        }
+        Ok(bytes.into())
+    }
+
     fn visit_unit<E>(self) -> Result<Self::Value, E>
     where
         E: serde::de::Error,
-- 
2.43.0


From ac54790c0ed11c5d0ccd6b732369519f5bd82de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:22 +0000
Subject: [PATCH 22/44] fix: hexadecimal nick suffixes used letters outside A-F

---
 src/client/nick/suffix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 6ed8285..4600178 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -37,15 +37,15 @@ impl SuffixType {
             SuffixType::Base8 => nick.try_push(b'0' + (num & 7)),
             SuffixType::Base10 => nick.try_push(b'0' + num % 10),
             SuffixType::Base16(uc) => nick.try_push(match num & 15 {
-                num if *uc && num > 9 => b'A' + num,
-                num if !uc && num > 9 => b'a' + num,
+                num if *uc && num > 9 => b'A' + (num - 10),
+                num if !uc && num > 9 => b'a' + (num - 10),
                 num => b'0' + num,
             }),
             SuffixType::NonZeroBase8 => nick.try_push(b'1' + (num % 7)),
             SuffixType::NonZeroBase10 => nick.try_push(b'1' + num % 9),
             SuffixType::NonZeroBase16(uc) => nick.try_push(match num % 15 {
-                num if *uc && num > 8 => b'A' + num,
-                num if !uc && num > 8 => b'a' + num,
+                num if *uc && num > 8 => b'A' + (num - 9),
+                num if !uc && num > 8 => b'a' + (num - 9),
                 num => b'1' + num,
             }),
             SuffixType::Choice(opts) if !opts.is_empty() => {
-- 
2.43.0


From 2e7d1262be6e45f8e0c8eb218240086b2fb824c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:09 +0000
Subject: [PATCH 23/44] fix: suffixing a nick with nothing to choose from
 underflowed the nick limit

---
 src/client/nick/suffix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 4600178..8ef8b8e 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -150,7 +150,8 @@ impl NickTransformer for Suffix {
                 (0, limit)
             }
         };
-        Box::new(SuffixGen { cfg: self.clone(), prefix, state: seed, limit })
+        // Nick generators always yield at least one nick, even if there are no suffixes to choose from.
+        Box::new(SuffixGen { cfg: self.clone(), prefix, state: seed, limit: limit.max(1) })
     }
 }
 
-- 
2.43.0


From 1d93c2479ce365f8f03d1296fa2cbd0c81d83036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:09 +0000
Subject: [PATCH 24/44] fix: a fixed nick was kept when invalid and dropped
 when another nick was invalid

---
 src/client/nick.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/nick.rs b/src/client/nick.rs
index 61ad5f1..afc8593 100644
--- a/src/client/nick.rs
+++ b/src/client/nick.rs
@@ -76,8 +76,8 @@ impl NickGen for Nick<'static> {
     }
 
     fn handle_invalid(self: Box<Self>, nick: &Nick<'static>) -> Option<Box<dyn NickGen>> {
-        let eq = *nick == *self;
-        eq.then_some(self)
+        let ne = *nick != *self;
+        ne.then_some(self)
     }
 }
 
-- 
2.43.0


From c9d4f6f3a596ff95c17db73d61303728045497ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:35 +0000
Subject: [PATCH 25/44] fix: very long queue delays panicked or disabled the
 rate limit

---
 src/client/queue.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/queue.rs b/src/client/queue.rs
index b189e1e..4efcdcd 100644
--- a/src/client/queue.rs
+++ b/src/client/queue.rs
@@ -88,6 +88,9 @@ impl Queue {
     /// `burst` specifies how many additional messages may be sent during an initial burst,
     /// e.g. a value of `4` results in a burst of five messages.
     pub fn set_rate_limit(&mut self, delay: Duration, burst: u32) -> &mut Self {
+        // Cap at 30 years, so that neither the delay for a full burst
+        // nor the instants it is added to can overflow.
+        let delay = delay.min(Duration::from_secs(60 * 60 * 24 * 365 * 30));
         self.delay = delay;
         self.sub = delay.saturating_mul(burst);
         // Pessimistically sets the next-message delay
-- 
2.43.0


From 195c0f8a81c514fb670ea2c883a529cf25e1ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:25 +0000
Subject: [PATCH 26/44] fix: reads without a time limit timed out after an
 earlier limit

---
 src/client/conn/time.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 5bc6e37..d6e867e 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -150,6 +150,10 @@ impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
         }
         let (read, constrained) = timeout_fallback(write_after, read);
         let read = read.and_then(|dur| Instant::now().checked_add(dur));
+        if read.is_none() {
+            // The connection may still have the timeout of an earlier read.
+            conn.set_read_timeout(None)?;
+        }
         Ok((TimeLimitedSync { conn, read }, constrained))
     }
     fn update_timeout(&mut self) -> std::io::Result<()> {
-- 
2.43.0


From f613def27fb3737dddb8c915b996a82d294ac009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:52 +0000
Subject: [PATCH 27/44] fix: the read timeout was not enforced while messages
 were queued

---
 src/client/conn/sync.rs  | 14 +++++++++++---
 src/client/conn/time.rs  | 36 +++++++++++++++++++++---------------
 src/client/conn/tokio.rs | 10 ++++++++--
 3 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/client/conn/sync.rs b/src/client/conn/sync.rs
index 7cff4ac..f481b60 100644
--- a/src/client/conn/sync.rs
+++ b/src/client/conn/sync.rs
@@ -3,7 +3,7 @@ use crate::ircmsg::ClientCodec;
 use std::{
     io::{BufRead, BufReader, Read, Write},
     net::TcpStream,
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 impl<'a> super::ServerAddr<'a> {
@@ -292,6 +292,8 @@ impl<C: Connection, S> crate::client::Client<C, S> {
     /// If there are no handlers to run, fully flushes the queue.
     /// If the `tracing` feature is enabled, logs messages at the debug level.
     pub fn run(&mut self) -> std::io::Result<Option<(&[usize], &[usize])>> {
+        // When we started waiting for the next message.
+        let mut read_since = None;
         let finished_at = loop {
             let wait_for = self.flush_partial()?;
             if self.logic.handlers.is_empty() {
@@ -301,8 +303,12 @@ impl<C: Connection, S> crate::client::Client<C, S> {
                 }
                 return Ok(Some((Default::default(), Default::default())));
             }
-            let (mut conn, rto_from_queue) =
-                TimeLimitedSync::new(&mut self.conn.conn, &mut self.logic.timeout, wait_for)?;
+            let (mut conn, rto_from_queue) = TimeLimitedSync::new(
+                &mut self.conn.conn,
+                &mut self.logic.timeout,
+                *read_since.get_or_insert_with(Instant::now),
+                wait_for,
+            )?;
             let msg = if self.logic.handlers.wants_owning() {
                 ClientCodec::read_owning_from(&mut conn, &mut self.conn.buf_i)
             } else {
@@ -316,6 +322,7 @@ impl<C: Connection, S> crate::client::Client<C, S> {
                 }
                 return if let Some(timeout_fn) = &mut self.on_timeout {
                     if timeout_fn(&mut self.logic).is_continue() {
+                        read_since = None;
                         continue;
                     }
                     Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "read timeout"))
@@ -325,6 +332,7 @@ impl<C: Connection, S> crate::client::Client<C, S> {
             };
             #[cfg(feature = "tracing")]
             tracing::debug!(target: "vinezombie::recv", "{}", msg);
+            read_since = None;
             let finished_at = self.logic.run_once(&msg);
             self.conn.buf_i.clear();
             if self.logic.handlers.has_results(finished_at) {
diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index d6e867e..eaba874 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -84,14 +84,16 @@ impl<T> WriteTimeout for NoTimeout<T> {
     }
 }
 
-fn timeout_fallback(
-    new_timeout: Option<Duration>,
-    old_timeout: Option<Duration>,
+/// Returns the shorter of how long to wait until the next write and how long to wait for a read,
+/// and whether it is the former.
+fn shorter_timeout(
+    write_after: Option<Duration>,
+    read_timeout: Option<Duration>,
 ) -> (Option<Duration>, bool) {
-    if new_timeout.is_some() {
-        (new_timeout, true)
-    } else {
-        (old_timeout, false)
+    match (write_after, read_timeout) {
+        (Some(write), Some(read)) if read <= write => (Some(read), false),
+        (Some(write), _) => (Some(write), true),
+        (None, read) => (read, false),
     }
 }
 
@@ -118,8 +120,9 @@ impl TimeLimits {
     pub fn require_update(&mut self) {
         self.update_write = true;
     }
-    pub fn read_timeout(&self) -> Option<Duration> {
-        self.read
+    /// Returns how much of the read timeout is left if `elapsed` has been spent waiting already.
+    pub fn read_timeout(&self, elapsed: Duration) -> Option<Duration> {
+        self.read.map(|t| t.saturating_sub(elapsed))
     }
     pub fn set_read_timeout(&mut self, timeout: Option<Duration>) -> &mut Self {
         self.read = timeout.map(|t| std::cmp::max(t, Duration::from_secs(1)));
@@ -141,15 +144,18 @@ impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
     pub fn new(
         conn: &'a mut C,
         timeouts: &mut TimeLimits,
+        read_since: Instant,
         write_after: Option<Duration>,
     ) -> std::io::Result<(Self, bool)> {
-        let TimeLimits { read, write, update_write, .. } = *timeouts;
+        let TimeLimits { write, update_write, .. } = *timeouts;
         if update_write {
             conn.set_write_timeout(write)?;
             timeouts.update_write = false;
         }
-        let (read, constrained) = timeout_fallback(write_after, read);
-        let read = read.and_then(|dur| Instant::now().checked_add(dur));
+        let now = Instant::now();
+        let read = timeouts.read_timeout(now.saturating_duration_since(read_since));
+        let (read, constrained) = shorter_timeout(write_after, read);
+        let read = read.and_then(|dur| now.checked_add(dur));
         if read.is_none() {
             // The connection may still have the timeout of an earlier read.
             conn.set_read_timeout(None)?;
@@ -298,10 +304,10 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
 #[cfg(feature = "tokio")]
 pub(super) async fn timed_io<T, F: std::future::Future<Output = std::io::Result<T>>>(
     fut: F,
-    new_timeout: Option<Duration>,
-    old_timeout: Option<Duration>,
+    write_after: Option<Duration>,
+    read_timeout: Option<Duration>,
 ) -> std::io::Result<Result<T, bool>> {
-    let (timeout, allow_time_error) = timeout_fallback(new_timeout, old_timeout);
+    let (timeout, allow_time_error) = shorter_timeout(write_after, read_timeout);
     let msg = if let Some(dur) = timeout {
         match tokio::time::timeout(dur, fut).await {
             Ok(res) => res,
diff --git a/src/client/conn/tokio.rs b/src/client/conn/tokio.rs
index a596ec1..de1b5f9 100644
--- a/src/client/conn/tokio.rs
+++ b/src/client/conn/tokio.rs
@@ -164,6 +164,8 @@ impl<C: ConnectionTokio, S> crate::client::Client<C, S> {
     /// If there are no handlers to run, fully flushes the queue.
     /// If the `tracing` feature is enabled, logs messages at the debug level.
     pub async fn run_tokio(&mut self) -> std::io::Result<Option<(&[usize], &[usize])>> {
+        // When we started waiting for the next message.
+        let mut read_since = None;
         let finished_at = loop {
             let wait_for = self.flush_partial_tokio().await?;
             if self.logic.handlers.is_empty() {
@@ -173,13 +175,15 @@ impl<C: ConnectionTokio, S> crate::client::Client<C, S> {
                 }
                 return Ok(Some((Default::default(), Default::default())));
             }
+            let elapsed = read_since.get_or_insert_with(tokio::time::Instant::now).elapsed();
+            let read_timeout = self.logic.timeout.read_timeout(elapsed);
             let mut conn = TimeLimitedTokio::new(&mut self.conn.conn, &self.logic.timeout);
             let msg_result = if self.logic.handlers.wants_owning() {
                 let fut = ClientCodec::read_owning_from_tokio(&mut conn, &mut self.conn.buf_i);
-                timed_io(fut, wait_for, self.logic.timeout.read_timeout()).await?
+                timed_io(fut, wait_for, read_timeout).await?
             } else {
                 let fut = ClientCodec::read_borrowing_from_tokio(&mut conn, &mut self.conn.buf_i);
-                timed_io(fut, wait_for, self.logic.timeout.read_timeout()).await?
+                timed_io(fut, wait_for, read_timeout).await?
             };
             let msg = match msg_result {
                 Ok(m) => m,
@@ -187,6 +191,7 @@ impl<C: ConnectionTokio, S> crate::client::Client<C, S> {
                 Err(false) => {
                     return if let Some(timeout_fn) = &mut self.on_timeout {
                         if timeout_fn(&mut self.logic).is_continue() {
+                            read_since = None;
                             continue;
                         }
                         Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "read timeout"))
@@ -197,6 +202,7 @@ impl<C: ConnectionTokio, S> crate::client::Client<C, S> {
             };
             #[cfg(feature = "tracing")]
             tracing::debug!(target: "vinezombie::recv", "{}", msg);
+            read_since = None;
             let finished_at = self.logic.run_once(&msg);
             self.conn.buf_i.clear();
             if self.logic.handlers.has_results(finished_at) {
-- 
2.43.0


From 68c2f7b279487b24fbd98dda67cd01d1a815731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:54 +0000
Subject: [PATCH 28/44] fix: the write timeout did not apply before the first
 read

---
 src/client/conn/sync.rs |  8 ++++++--
 src/client/conn/time.rs | 15 +++++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/client/conn/sync.rs b/src/client/conn/sync.rs
index f481b60..2667b30 100644
--- a/src/client/conn/sync.rs
+++ b/src/client/conn/sync.rs
@@ -305,7 +305,7 @@ impl<C: Connection, S> crate::client::Client<C, S> {
             }
             let (mut conn, rto_from_queue) = TimeLimitedSync::new(
                 &mut self.conn.conn,
-                &mut self.logic.timeout,
+                &self.logic.timeout,
                 *read_since.get_or_insert_with(Instant::now),
                 wait_for,
             )?;
@@ -360,7 +360,11 @@ impl<C: Connection, S> crate::client::Client<C, S> {
             let _ = ClientCodec::write_to(&popped, &mut self.conn.buf_o);
             self.conn.buf_o.extend_from_slice(b"\r\n");
         }
-        let result = self.conn.conn.as_write().write_all(&self.conn.buf_o);
+        let result = self
+            .logic
+            .timeout
+            .update_write_timeout(&mut self.conn.conn)
+            .and_then(|()| self.conn.conn.as_write().write_all(&self.conn.buf_o));
         self.conn.buf_o.clear();
         result?;
         self.conn.conn.as_write().flush()?;
diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index eaba874..df65691 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -133,6 +133,14 @@ impl TimeLimits {
         self.write = timeout.map(|t| std::cmp::max(t, Duration::from_secs(1)));
         self
     }
+    /// Updates the write timeout of `conn` if necessary.
+    pub fn update_write_timeout(&mut self, conn: &mut impl WriteTimeout) -> std::io::Result<()> {
+        if self.update_write {
+            conn.set_write_timeout(self.write)?;
+            self.update_write = false;
+        }
+        Ok(())
+    }
 }
 
 pub(super) struct TimeLimitedSync<'a, C> {
@@ -143,15 +151,10 @@ pub(super) struct TimeLimitedSync<'a, C> {
 impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
     pub fn new(
         conn: &'a mut C,
-        timeouts: &mut TimeLimits,
+        timeouts: &TimeLimits,
         read_since: Instant,
         write_after: Option<Duration>,
     ) -> std::io::Result<(Self, bool)> {
-        let TimeLimits { write, update_write, .. } = *timeouts;
-        if update_write {
-            conn.set_write_timeout(write)?;
-            timeouts.update_write = false;
-        }
         let now = Instant::now();
         let read = timeouts.read_timeout(now.saturating_duration_since(read_since));
         let (read, constrained) = shorter_timeout(write_after, read);
-- 
2.43.0


From 85f82d5f47dab56c625401baaa48ee4d54995b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:54 +0000
Subject: [PATCH 29/44] fix: the tokio write timeout never elapsed

---
 src/client/conn/time.rs | 45 ++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index df65691..cb0a60f 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -221,28 +221,37 @@ impl<'a, C: super::Connection> std::io::BufRead for TimeLimitedSync<'a, C> {
 pub(super) struct TimeLimitedTokio<'a, C> {
     conn: &'a mut C,
     write: Option<Duration>,
+    /// Elapses when the write operation in progress times out.
+    write_sleep: Option<std::pin::Pin<Box<tokio::time::Sleep>>>,
 }
 
 #[cfg(feature = "tokio")]
 impl<'a, C: super::ConnectionTokio> TimeLimitedTokio<'a, C> {
     pub fn new(conn: &'a mut C, timeouts: &TimeLimits) -> Self {
-        TimeLimitedTokio { conn, write: timeouts.write }
+        TimeLimitedTokio { conn, write: timeouts.write, write_sleep: None }
     }
-    fn poll_write_timeout(
-        self: std::pin::Pin<&mut Self>,
+    /// Returns `poll` if it is ready, otherwise whether the write timeout elapsed.
+    fn poll_write_timeout<T>(
+        &mut self,
         cx: &mut std::task::Context<'_>,
-    ) -> std::task::Poll<std::io::Error> {
-        if let Some(timeout) = self.write {
-            use std::future::Future;
-            let sleeper = std::pin::pin!(tokio::time::sleep(timeout));
-            if sleeper.poll(cx).is_ready() {
-                return std::task::Poll::Ready(std::io::Error::new(
+        poll: std::task::Poll<std::io::Result<T>>,
+    ) -> std::task::Poll<std::io::Result<T>> {
+        use std::future::Future;
+        use std::task::Poll;
+        if poll.is_ready() {
+            self.write_sleep = None;
+        } else if let Some(timeout) = self.write {
+            let sleep =
+                self.write_sleep.get_or_insert_with(|| Box::pin(tokio::time::sleep(timeout)));
+            if sleep.as_mut().poll(cx).is_ready() {
+                self.write_sleep = None;
+                return Poll::Ready(Err(std::io::Error::new(
                     std::io::ErrorKind::TimedOut,
                     "async write time limit elapsed",
-                ));
+                )));
             }
         }
-        std::task::Poll::Pending
+        poll
     }
 }
 
@@ -278,22 +287,16 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
         cx: &mut std::task::Context<'_>,
         buf: &[u8],
     ) -> std::task::Poll<Result<usize, std::io::Error>> {
-        let writer = std::pin::Pin::new(self.conn.as_write());
-        if let std::task::Poll::Ready(v) = writer.poll_write(cx, buf) {
-            return std::task::Poll::Ready(v);
-        }
-        self.poll_write_timeout(cx).map(Err)
+        let poll = std::pin::Pin::new(self.conn.as_write()).poll_write(cx, buf);
+        self.poll_write_timeout(cx, poll)
     }
 
     fn poll_flush(
         mut self: std::pin::Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
     ) -> std::task::Poll<Result<(), std::io::Error>> {
-        let writer = std::pin::Pin::new(self.conn.as_write());
-        if let std::task::Poll::Ready(v) = writer.poll_flush(cx) {
-            return std::task::Poll::Ready(v);
-        }
-        self.poll_write_timeout(cx).map(Err)
+        let poll = std::pin::Pin::new(self.conn.as_write()).poll_flush(cx);
+        self.poll_write_timeout(cx, poll)
     }
 
     fn poll_shutdown(
-- 
2.43.0


From 1fb0e09080b37749be6afb6b1e344d59167fa261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:20 +0000
Subject: [PATCH 30/44] fix: CtcpVersion replied to messages that are not
 PRIVMSG

---
 src/client/handlers/autoreply.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/handlers/autoreply.rs b/src/client/handlers/autoreply.rs
index 71fc218..061f066 100644
--- a/src/client/handlers/autoreply.rs
+++ b/src/client/handlers/autoreply.rs
@@ -42,6 +42,10 @@ impl Handler for CtcpVersion {
         _: crate::client::channel::SenderRef<'_, Self::Value>,
     ) -> std::ops::ControlFlow<()> {
         // TODO: Should probably consider length limits.
+        if msg.kind != PRIVMSG {
+            // Replying to anything else, notably NOTICE, may result in a reply loop.
+            return std::ops::ControlFlow::Continue(());
+        }
         let Ok(msg) = msg.parse_as(PRIVMSG) else {
             return std::ops::ControlFlow::Continue(());
         };
-- 
2.43.0


From dbca2dac80639565ebc49a2aa04c72399430810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:09 +0000
Subject: [PATCH 31/44] fix: Ping accepted pongs whose payload only matched
 modulo 2^32

---
 src/client/handlers/ping.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/client/handlers/ping.rs b/src/client/handlers/ping.rs
index 8ac01b0..f8c7e49 100644
--- a/src/client/handlers/ping.rs
+++ b/src/client/handlers/ping.rs
@@ -21,6 +21,13 @@ impl Default for Ping {
     }
 }
 
+impl Ping {
+    fn payload(&self) -> String {
+        let hash = crate::util::mangle(&self.0);
+        format!("{hash:o}")
+    }
+}
+
 impl Handler for Ping {
     type Value = (Option<crate::ircmsg::Source<'static>>, std::time::Duration);
 
@@ -33,16 +40,7 @@ impl Handler for Ping {
     ) -> std::ops::ControlFlow<()> {
         if msg.kind == PONG {
             if let Some(last) = msg.args.split_last().1 {
-                let hash = crate::util::mangle(&self.0);
-                let mut value: u32 = 0;
-                for byte in last.as_bytes().iter().cloned() {
-                    if !(b'0'..=b'7').contains(&byte) {
-                        return std::ops::ControlFlow::Continue(());
-                    }
-                    value <<= 3;
-                    value |= (byte - b'0') as u32;
-                }
-                if hash == value {
+                if last.as_bytes() == self.payload().as_bytes() {
                     let duration = Instant::now().saturating_duration_since(self.0);
                     let source = msg.source.clone().map(crate::ircmsg::SharedSource::owning_merged);
                     channel.send((source, duration));
@@ -59,9 +57,8 @@ impl SelfMadeHandler for Ping {
 
     fn queue_msgs(&self, _: &ClientState, mut queue: QueueEditGuard<'_>) {
         let mut msg = ClientMsg::new(PING);
-        let hash = crate::util::mangle(&self.0);
-        let hash: Arg<'static> = format!("{hash:o}").try_into().unwrap();
-        msg.args.edit().add_word(hash);
+        let payload: Arg<'static> = self.payload().try_into().unwrap();
+        msg.args.edit().add_word(payload);
         queue.push(msg);
     }
 
-- 
2.43.0


From e9ae36d896de6ce6a80d73e6ac34b8e71e9abc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:27 +0000
Subject: [PATCH 32/44] fix: TrackClientSource ended when the client source was
 not known yet

---
 src/client/handlers/track.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/client/handlers/track.rs b/src/client/handlers/track.rs
index 74aab7c..36b1a49 100644
--- a/src/client/handlers/track.rs
+++ b/src/client/handlers/track.rs
@@ -8,7 +8,7 @@ use crate::{
         ClientState, Handler, SelfMadeHandler,
     },
     error::ParseError,
-    ircmsg::{ClientMsg, Source, UserHost},
+    ircmsg::{ClientMsg, UserHost},
     names::cmd::USERHOST,
     string::{Arg, Nick, User, Word},
 };
@@ -31,13 +31,6 @@ impl TrackClientSource {
     }
 }
 
-fn get_client_source(state: &mut ClientState) -> ControlFlow<(), &mut Source<'static>> {
-    match state.get_mut::<ClientSource>() {
-        Some(v) => ControlFlow::Continue(v),
-        None => ControlFlow::Break(()),
-    }
-}
-
 // TODO: Would be nice to extract RPL_USERHOST parsing.
 /// Attempts to parse out the UserHost for `nick` from the args for a RPL_USERHOST.
 ///
@@ -96,7 +89,10 @@ impl Handler for TrackClientSource {
             // RPL_USERHOST
             "302" => {
                 if let Some([_, items @ ..]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        // Our source isn't known (yet).
+                        return ControlFlow::Continue(());
+                    };
                     for item in items {
                         let userhost = match parse_userhost_item(item.clone(), &src.nick) {
                             Ok(uh) => uh,
@@ -112,7 +108,10 @@ impl Handler for TrackClientSource {
             }
             "NICK" => {
                 if let Some([nick]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        // Our source isn't known (yet).
+                        return ControlFlow::Continue(());
+                    };
                     let Ok(nick) = Nick::from_arg(nick.clone()) else {
                         // TODO: Log warning?
                         return ControlFlow::Continue(());
@@ -129,7 +128,10 @@ impl Handler for TrackClientSource {
             }
             "CHGHOST" => {
                 if let Some([user, host]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        // Our source isn't known (yet).
+                        return ControlFlow::Continue(());
+                    };
                     match msg.source.as_ref() {
                         Some(m_src) if m_src.nick == src.nick => {
                             let user = match User::from_super(user.clone()) {
-- 
2.43.0


From 542da8efe646e839e38f9b00ffd33bae33cad059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:39 +0000
Subject: [PATCH 33/44] fix: TrackClientSource ignored USERHOST replies with
 several items or a trailing space

---
 src/client/handlers/track.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/client/handlers/track.rs b/src/client/handlers/track.rs
index 36b1a49..6407e1d 100644
--- a/src/client/handlers/track.rs
+++ b/src/client/handlers/track.rs
@@ -10,7 +10,7 @@ use crate::{
     error::ParseError,
     ircmsg::{ClientMsg, UserHost},
     names::cmd::USERHOST,
-    string::{Arg, Nick, User, Word},
+    string::{Nick, Splitter, User, Word},
 };
 
 /// Handler for automatically updating this client's [`ClientSource`].
@@ -36,10 +36,10 @@ impl TrackClientSource {
 ///
 /// Returns `Err(None)` if the provided nick was not found in the reply's arguments.
 fn parse_userhost_item<'a>(
-    item: Arg<'a>,
+    item: Word<'a>,
     nick: &Nick<'_>,
 ) -> Result<UserHost<'a>, Option<ParseError>> {
-    let mut splitter = crate::string::Splitter::new(item);
+    let mut splitter = Splitter::new(item);
     match splitter.save_end().until_byte_eq(b'=').until_byte_eq(b'*').string::<Nick>(true) {
         Ok(n) if n == *nick => (),
         _ => return Err(None),
@@ -88,13 +88,20 @@ impl Handler for TrackClientSource {
         match msg.kind.as_str() {
             // RPL_USERHOST
             "302" => {
-                if let Some([_, items @ ..]) = msg.args.all() {
+                if let ([_, items @ ..], Some(last)) = msg.args.split_last() {
                     let Some(src) = state.get_mut::<ClientSource>() else {
                         // Our source isn't known (yet).
                         return ControlFlow::Continue(());
                     };
+                    // The last argument is a list of items.
+                    let mut last = Splitter::new(last.clone());
+                    let last = std::iter::from_fn(|| {
+                        last.consume_whitespace();
+                        (!last.is_empty()).then(|| last.string_or_default::<Word>(false))
+                    });
+                    let items = items.iter().map(|item| Word::from(item.clone())).chain(last);
                     for item in items {
-                        let userhost = match parse_userhost_item(item.clone(), &src.nick) {
+                        let userhost = match parse_userhost_item(item, &src.nick) {
                             Ok(uh) => uh,
                             // TODO: Log warning on ParseError?
                             Err(_) => continue,
-- 
2.43.0


From 75373679775bd9d9c44fcc9da40f3019896cd0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:40 +0000
Subject: [PATCH 34/44] fix: resetting a client kept the assumed source length

---
 src/client/logic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/logic.rs b/src/client/logic.rs
index dd64cc2..a99b73a 100644
--- a/src/client/logic.rs
+++ b/src/client/logic.rs
@@ -221,6 +221,7 @@ impl ClientState {
     }
     /// Clears all state.
     pub(super) fn clear(&mut self) {
+        self.source_len = DEFAULT_SOURCE_LEN;
         self.state.clear();
     }
     /// Returns the length that clients should assume for the length of their `source` fields.
-- 
2.43.0


From d32528dcd8803c55d3fa6be4c3547926fb9d4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:44 +0000
Subject: [PATCH 35/44] fix: capabilities announced again kept their outdated
 values

---
 src/client/register/handler.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 3ae3071..34c7939 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -424,7 +424,9 @@ impl Handler {
                     cap::SubCmd::Ls if cap_msg.is_last => {
                         let mut caps = self.reg.caps.edit();
                         for (key, value) in cap_msg.caps {
-                            caps.try_insert((key, value), false);
+                            // The newest value counts. Don't forget what's already enabled.
+                            let enabled = caps.get_extra_raw(&key).copied().unwrap_or_default();
+                            caps.insert((key, value), enabled);
                         }
                         std::mem::drop(caps);
                         let state = std::mem::take(&mut self.state);
@@ -470,7 +472,9 @@ impl Handler {
                     cap::SubCmd::Ls | cap::SubCmd::New => {
                         let mut caps = self.reg.caps.edit();
                         for (key, value) in cap_msg.caps {
-                            caps.try_insert((key, value), false);
+                            // The newest value counts. Don't forget what's already enabled.
+                            let enabled = caps.get_extra_raw(&key).copied().unwrap_or_default();
+                            caps.insert((key, value), enabled);
                         }
                     }
                     cap::SubCmd::Ack => {
-- 
2.43.0


From e505c88a4f264d63d8c4c906b207f18692a59b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:32 +0000
Subject: [PATCH 36/44] fix: negated ISUPPORT tokens were kept and stored as
 tokens of their own

---
 src/client/register/handler.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 34c7939..80a1922 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -305,6 +305,14 @@ impl Handler {
                 let mut ism = self.reg.isupport.edit();
                 for isupport in isupports {
                     let mut splitter = Splitter::new(isupport.clone().owning());
+                    if splitter.peek_byte() == Some(b'-') {
+                        // The server no longer supports this.
+                        splitter.next_byte();
+                        if let Ok(key) = splitter.string::<Key>(true) {
+                            ism.remove_raw(&key);
+                        }
+                        continue;
+                    }
                     let Ok(key) = splitter.string::<Key>(false) else {
                         continue;
                     };
-- 
2.43.0


From 91c475d04a29f9e274c64578c2c78783642bb2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:49 +0000
Subject: [PATCH 37/44] fix: SASL mechanism lists of 908 replies were not split
 at commas

---
 src/client/auth/handler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index 981a00c..a605579 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -221,16 +221,16 @@ impl Handler {
             // Server is telling us something about the supported mechanisms.
             "908" => {
                 // Let's assume that these apply to all accounts we might try to log in to.
-                #[allow(clippy::mutable_key_type)]
+                let args = msg.args.split_last().0;
                 let set: std::collections::BTreeSet<_> =
-                    msg.args.split_last().0.iter().map(|a| a.clone().owning()).collect();
-                self.queue.retain(&|ln| set.contains(ln));
+                    args.iter().flat_map(|a| a.split(|b| *b == b',')).collect();
+                self.queue.retain(&|ln| set.contains(ln.as_bytes()));
                 // If the mechanism is NOT supported,
                 // the server needs to error with a 904, which causes this handler to
                 // cycle to the next authenticator.
                 // However, we can short-circuit this if the queue is empty AND
                 // the authenticator is unsupported.
-                if self.queue.is_empty() && !set.contains(&self.logic.name()) {
+                if self.queue.is_empty() && !set.contains(self.logic.name().as_bytes()) {
                     Err(HandlerError::Unsupported)
                 } else {
                     Ok(false)
-- 
2.43.0


From d2a59cbf84648d6008348a1fd7ceb43f41ea62a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:49 +0000
Subject: [PATCH 38/44] fix: an incomplete SASL challenge corrupted the next
 mechanism's exchange

---
 src/client/auth/handler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index a605579..c69c9af 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -199,6 +199,8 @@ impl Handler {
                 // meant to log in to the same account on a 902.
                 if let Some(next_logic) = self.queue.pop() {
                     self.logic = next_logic;
+                    // Discard any incomplete challenge for the previous mechanism.
+                    let _ = self.decoder.decode();
                     sink.send(self.auth_msg());
                     Ok(false)
                 } else {
@@ -215,6 +217,7 @@ impl Handler {
             "906" => {
                 // Since we're here, we're trying again.
                 // The authenticator was already cycled earlier, so we just send the message.
+                let _ = self.decoder.decode();
                 sink.send(self.auth_msg());
                 Ok(false)
             }
-- 
2.43.0


From 168ae2463d356688408c41f1b2275d102d75beb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:21 +0000
Subject: [PATCH 39/44] fix: SASL credentials could be sent while another
 mechanism was being aborted

---
 src/client/auth/handler.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index c69c9af..54bc298 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -11,6 +11,8 @@ pub struct Handler {
     queue: SaslQueue,
     logic: Box<dyn SaslLogic>,
     decoder: crate::string::base64::ChunkDecoder,
+    /// Whether we're waiting for the server to acknowledge an abort.
+    aborting: bool,
 }
 
 /// All the possible errors that can occur during SASL authentication.
@@ -107,7 +109,8 @@ impl Handler {
     /// (potentially empty) queue.
     /// Additionally returns the message to send to initiate authentication.
     pub fn new(logic: Box<dyn SaslLogic>, queue: SaslQueue) -> Self {
-        Handler { queue, logic, decoder: crate::string::base64::ChunkDecoder::new(400) }
+        let decoder = crate::string::base64::ChunkDecoder::new(400);
+        Handler { queue, logic, decoder, aborting: false }
     }
     /// Attempts to create a new authenticator directly from a [`SaslQueue`].
     /// Returns `None` if the queue is empty.
@@ -155,6 +158,8 @@ impl Handler {
     ) -> Result<bool, HandlerError> {
         use crate::string::base64::ChunkEncoder;
         match msg.kind.as_str() {
+            // Still meant for the mechanism that is being aborted.
+            "AUTHENTICATE" if self.aborting => Ok(false),
             "AUTHENTICATE" => {
                 let res = if let Some(first) = msg.args.words().first() {
                     self.decoder.add(first.as_bytes())
@@ -178,6 +183,7 @@ impl Handler {
                         self.queue.retain(&|ln| name != *ln);
                         return if let Some(new_logic) = self.queue.pop() {
                             self.logic = new_logic;
+                            self.aborting = true;
                             // We can continue, but we need to wait for the server to
                             // acknowledge that we're stopping before sending AUTHENTICATE.
                             Ok(false)
@@ -195,6 +201,11 @@ impl Handler {
             }
             // Auth failed or the account was restricted.
             "902" | "904" => {
+                if std::mem::take(&mut self.aborting) {
+                    // We already gave up on the mechanism that failed.
+                    sink.send(self.auth_msg());
+                    return Ok(false);
+                }
                 // In a more account-aware system, could purge all authenticators that are
                 // meant to log in to the same account on a 902.
                 if let Some(next_logic) = self.queue.pop() {
@@ -218,6 +229,7 @@ impl Handler {
                 // Since we're here, we're trying again.
                 // The authenticator was already cycled earlier, so we just send the message.
                 let _ = self.decoder.decode();
+                self.aborting = false;
                 sink.send(self.auth_msg());
                 Ok(false)
             }
-- 
2.43.0


From aa603a870d03629fd0cbfb0cfb4668e9061cab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:01 +0000
Subject: [PATCH 40/44] fix: registration failed on SASL replies that do not
 fail authentication

---
 src/client/register/handler.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 80a1922..3b11ed4 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -250,11 +250,8 @@ impl Handler {
         if crate::client::handlers::pong(msg, sink.borrow_mut()) {
             return Ok(None);
         }
-        // Ignore errors related to SASL.
-        let mut ignore_sasl = false;
         #[cfg(feature = "base64")]
         if let HandlerState::Sasl(sasl) = &mut self.state {
-            ignore_sasl = true;
             match sasl.handle(msg, sink.borrow_mut()) {
                 Ok(false) => (),
                 Ok(true) => {
@@ -423,7 +420,9 @@ impl Handler {
                 }
                 Ok(None)
             }
-            "902" | "904" | "905" | "906" | "907" if ignore_sasl => Ok(None),
+            // Ignore errors related to SASL, as whether they matter depends on needs_auth.
+            // They may also be sent after we gave up on SASL, such as to acknowledge an abort.
+            "902" | "904" | "905" | "906" | "907" | "908" => Ok(None),
             "CAP" => {
                 use crate::client::cap;
                 let cap_msg = cap::ServerMsgArgs::parse(&msg.args.clone().owning())
-- 
2.43.0


From de9bddb5c5ef830de24e4e9a618c8c3da9f3cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:46 +0000
Subject: [PATCH 41/44] fix: registration succeeded without the required
 authentication

---
 src/client/register.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/client/register.rs b/src/client/register.rs
index 6691694..c31f640 100644
--- a/src/client/register.rs
+++ b/src/client/register.rs
@@ -108,8 +108,7 @@ impl<O> Register<O> {
     pub fn handler(&self, opts: &O, sink: impl ClientMsgSink<'static>) -> Handler {
         let nicks = self.register_msgs(opts, sink);
         let caps = (self.caps)(opts);
-        let (auths, mut needs_auth) = (self.auth)(opts);
-        needs_auth &= auths.is_empty();
+        let (auths, needs_auth) = (self.auth)(opts);
         Handler::new(nicks, caps, needs_auth, auths)
     }
 }
-- 
2.43.0


From 27ff456546c2587ac8ff27e7b94beb41e7a8a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:30 +0000
Subject: [PATCH 42/44] fix: free oneshot channel storage exactly once, after
 every handle is gone

The receiver and the last sender each decided from two separate atomics
whether to free the shared storage, so that both or neither could do so,
and either could touch it after the other freed it.
---
 src/client/handler/channel/oneshot.rs | 46 +++++++++++----------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/client/handler/channel/oneshot.rs b/src/client/handler/channel/oneshot.rs
index 806b6de..ef7b880 100644
--- a/src/client/handler/channel/oneshot.rs
+++ b/src/client/handler/channel/oneshot.rs
@@ -1,4 +1,3 @@
-#![allow(unknown_lints)]
 //! An implementation of a non-blocking oneshot channel.
 //!
 //! This is essentially just a [`OnceLock`][std::sync::OnceLock] under
@@ -7,10 +6,6 @@
 //!
 //! Consider using a [`Parker`][super::parker::Parker] if synchronization is needed.
 
-// Unknown lints lint is disabled because dropping_references was added after
-// 1.70 (our MSRV). We drop references to be absolutely sure they won't live
-// at the same time as the memory they point to getting dropped.
-
 use super::parker::Parker;
 use std::{
     cell::UnsafeCell,
@@ -27,13 +22,26 @@ use std::{
 // The senders have no access to the sent value.
 
 struct Inner<T> {
-    sender_count: AtomicUsize,
+    /// How many senders and receivers share this. Whichever is dropped last frees it.
+    handle_count: AtomicUsize,
     recver: AtomicBool,
     lock: Once,
     // Manually implement OnceLock so that we can deinit the value but keep the lock.
     value: UnsafeCell<MaybeUninit<T>>,
 }
 
+impl<T> Inner<T> {
+    /// Gives up one handle, freeing the storage if it was the last one.
+    ///
+    /// # Safety
+    /// The caller must own a handle to `this` and must not use `this` afterwards.
+    unsafe fn release(this: std::ptr::NonNull<Self>) {
+        if this.as_ref().handle_count.fetch_sub(1, Ordering::AcqRel) == 1 {
+            std::mem::drop(Box::from_raw(this.as_ptr()));
+        }
+    }
+}
+
 /// The receiver portion of a oneshot channel.
 #[derive(Debug)]
 pub struct Receiver<T>(std::ptr::NonNull<Inner<T>>);
@@ -51,7 +59,7 @@ unsafe impl<T> Sync for Sender<T> {}
 
 impl<T> Clone for Sender<T> {
     fn clone(&self) -> Self {
-        unsafe { self.0.as_ref().sender_count.fetch_add(1, Ordering::Relaxed) };
+        unsafe { self.0.as_ref().handle_count.fetch_add(1, Ordering::Relaxed) };
         Self(self.0)
     }
 }
@@ -70,32 +78,20 @@ impl<T> Drop for Receiver<T> {
         if has_value {
             unsafe { inner_ref.value.get().as_mut().unwrap_unchecked().assume_init_drop() };
         }
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
-            #[allow(dropping_references)]
-            std::mem::drop(inner_ref);
-            std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
-        }
+        unsafe { Inner::release(self.0) };
     }
 }
 
 impl<T> Drop for Sender<T> {
     fn drop(&mut self) {
-        let inner_ref = unsafe { self.0.as_ref() };
-        if inner_ref.sender_count.fetch_sub(1, Ordering::Release) == 1 {
-            #[allow(clippy::collapsible_if)]
-            if !inner_ref.recver.load(Ordering::Acquire) {
-                #[allow(dropping_references)]
-                std::mem::drop(inner_ref);
-                std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
-            }
-        }
+        unsafe { Inner::release(self.0) };
     }
 }
 
 /// Creates a new oneshot channel for sending single values.
 pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
     let inner = Box::new(Inner {
-        sender_count: AtomicUsize::new(1),
+        handle_count: AtomicUsize::new(2),
         recver: AtomicBool::new(true),
         lock: Once::new(),
         value: UnsafeCell::new(MaybeUninit::uninit()),
@@ -135,11 +131,7 @@ impl<T> Receiver<T> {
         let retval = has_value.then(|| unsafe {
             inner_ref.value.get().as_ref().unwrap_unchecked().assume_init_read()
         });
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
-            #[allow(dropping_references)]
-            std::mem::drop(inner_ref);
-            std::mem::drop(unsafe { Box::from_raw(ptr.as_ptr()) });
-        }
+        unsafe { Inner::release(ptr) };
         retval
     }
     /// Receives a value over this channel. Parks using the provided `parker` if
-- 
2.43.0


From 22a320d964725f9e18c4f04ee0a093155dedcf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:48 +0000
Subject: [PATCH 43/44] fix: keep parked threads parked until an unparker acts,
 and let unparkers own the handle

Parker::park returned on spurious or unrelated wakeups, after which the
unparker could still dereference the thread handle on the parked thread's
stack. It also overwrote a concurrent unpark without synchronizing with it.
---
 src/client/handler/channel/parker.rs | 65 ++++++++++++++++------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/client/handler/channel/parker.rs b/src/client/handler/channel/parker.rs
index f4f6053..9d0cf00 100644
--- a/src/client/handler/channel/parker.rs
+++ b/src/client/handler/channel/parker.rs
@@ -34,15 +34,24 @@ impl<S> Drop for Unparker<S> {
         let Some(arc) = Arc::into_inner(unsafe { ManuallyDrop::take(&mut self.1) }) else {
             return;
         };
-        let ptr = arc.into_inner();
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
+        if let Some(th) = unsafe { take_thread(arc.into_inner()) } {
+            th.unpark();
         }
     }
 }
 
+/// Takes ownership of the thread handle that was stored for unparkers, if there is one.
+///
+/// # Safety
+/// `ptr` must have been taken out of the `AtomicPtr` shared by an [`Unparker`] and [`Parker`].
+unsafe fn take_thread(ptr: *mut Thread) -> Option<Box<Thread>> {
+    if ptr.is_null() || ptr == SKIP_PARKING.as_mut_ptr() {
+        None
+    } else {
+        Some(Box::from_raw(ptr))
+    }
+}
+
 impl<S> Unparker<S> {
     /// Unparks a thread that is blocked by a [`Parker`].
     /// If no thread is parked for this unparker, skips the next parking operation.
@@ -50,10 +59,8 @@ impl<S> Unparker<S> {
     /// This generally doesn't need to be called manually unless `S` is not a sender.
     pub fn unpark(&self) {
         let ptr = self.1.swap(unsafe { SKIP_PARKING.as_mut_ptr() }, Ordering::AcqRel);
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
+        if let Some(th) = unsafe { take_thread(ptr) } {
+            th.unpark();
         }
     }
 }
@@ -78,29 +85,33 @@ impl Parker {
     /// Block this thread until either all [`Unparker`]s are dropped or
     /// until one of them unparks this thread.
     pub fn park(&self) {
-        let Some(strong) = self.0.upgrade() else {
+        let Some(mut strong) = self.0.upgrade() else {
             return;
         };
-        let mut th = std::thread::current();
-        if strong
-            .compare_exchange(
-                std::ptr::null_mut(),
-                &mut th as *mut Thread,
-                Ordering::AcqRel,
-                Ordering::Acquire,
-            )
-            .is_ok()
-        {
-            if Arc::into_inner(strong).is_none() {
-                std::thread::park();
-            } else {
+        let null = std::ptr::null_mut();
+        let skip = unsafe { SKIP_PARKING.as_mut_ptr() };
+        // Whoever takes this pointer out again owns the handle.
+        let th = Box::into_raw(Box::new(std::thread::current()));
+        if strong.compare_exchange(null, th, Ordering::AcqRel, Ordering::Acquire).is_err() {
+            std::mem::drop(unsafe { Box::from_raw(th) });
+            let _ = strong.compare_exchange(skip, null, Ordering::AcqRel, Ordering::Acquire);
+            return;
+        }
+        loop {
+            if let Some(inner) = Arc::into_inner(strong) {
                 // No unparkers left!
+                std::mem::drop(unsafe { take_thread(inner.into_inner()) });
+                return;
+            }
+            std::thread::park();
+            let Some(upgraded) = self.0.upgrade() else {
+                return;
+            };
+            strong = upgraded;
+            if strong.compare_exchange(skip, null, Ordering::AcqRel, Ordering::Acquire).is_ok() {
                 return;
             }
+            // Not woken by an unparker. Park again.
         }
-        let Some(strong) = self.0.upgrade() else {
-            return;
-        };
-        strong.store(std::ptr::null_mut(), Ordering::Release);
     }
 }
-- 
2.43.0


From f470476bf371bfa9adadedd16a3604e37f7e1b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:04 +0000
Subject: [PATCH 44/44] fix: ServerAddr::to_word printed different addresses
 alike

---
 src/client/conn.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/conn.rs b/src/client/conn.rs
index 37ba76b..2ac7ed8 100644
--- a/src/client/conn.rs
+++ b/src/client/conn.rs
@@ -69,6 +69,7 @@ impl<'a> ServerAddr<'a> {
         let mut builder = Builder::<Word<'static>>::default();
         builder.reserve_exact(self.address.len() + 9);
         builder.append(self.address.clone());
+        let _ = builder.try_push(b':');
         if self.tls {
             builder.append(crate::names::PLUS);
         }
-- 
2.43.0

