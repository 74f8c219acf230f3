From e2aeb4e33d1212d7971febcf735f32f0ecfa27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:11 +0000
Subject: [PATCH 01/26] fix: commit a full chunk when finalizing SHA-256

A message whose length is 63 modulo 64 filled the stream buffer with the
padding marker, and finalizing it panicked. Push the marker like any
other byte so the buffer is committed when it is full.
---
 lib/osi/src/hash/sha256.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/osi/src/hash/sha256.rs b/lib/osi/src/hash/sha256.rs
index a5efe53..784e370 100644
--- a/lib/osi/src/hash/sha256.rs
+++ b/lib/osi/src/hash/sha256.rs
@@ -228,12 +228,9 @@ impl crate::hash::Engine for Engine {
         // implemented algorithm.
         let total: u64 = self.total.checked_mul(8).unwrap();
 
-        // Stream buffer is immediately committed when full, so there
-        // must always be remaining space. Push a final 1-bit and pad with
-        // 0-bits until the next byte boundary.
-        assert_ne!(self.remaining, 0);
-        self.chunk[self.chunk.len() - self.remaining] = 0x80u8;
-        self.remaining -= 1;
+        // Push a final 1-bit and pad with 0-bits until the next byte boundary.
+        // This commits the stream buffer, in case the byte fills it.
+        self.push(&[0x80u8]);
 
         // Now pad with 0-bytes until the chunk is full, except for 8 final
         // bytes. Those take the total size in bits. If it does not fit into
-- 
2.43.0


From 1fc129fc78667404b55d8a50741855b1a894dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:59 +0000
Subject: [PATCH 02/26] fix: only accept flags of commands on the entered path

Flag lookups started at the command the cursor is anchored to, even if the
path of that command was not entered. Flags of unrelated commands were
thus accepted. Start at the entered command, or its closest ancestor.
---
 lib/osi/src/args/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index 3970c39..a427344 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -243,7 +243,7 @@ impl<'this, 'schema, 'args, R> Cursor<'this, 'schema, 'args, R> {
         &self,
         name: &str,
     ) -> Option<(usize, usize)> {
-        let mut o_idx = self.cursor.as_ref().map(|v| v.index);
+        let mut o_idx = self.command_or_up();
 
         while let Some(idx) = o_idx {
             if let Ok(v) = self.schema.command_at(idx)
-- 
2.43.0


From 2136ea2d3b28841d5adc0a22805956032ea89edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:17 +0000
Subject: [PATCH 03/26] fix: report unknown short flags without the leading
 dash

The error is documented to carry the short flags without the leading
dash, but it carried the entire argument.
---
 lib/osi/src/args/parse.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index a427344..fd5498b 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -277,8 +277,17 @@ impl<'this, 'schema, 'args, R> Parser<'this, 'schema, 'args, R> {
         // Our configuration does not allow specifying short options, so none
         // of these can ever match. Hence, treat them all as invalid for now
         // and signal an error. Then ignore the argument and continue.
+        //
+        // SAFETY: The caller guarantees a leading dash, and we split at a
+        //         well-defined UTF-8 sequence, which is allowed for
+        //         `std::ffi::OsStr`.
+        let shorts = unsafe {
+            compat::OsStr::from_encoded_bytes_unchecked(
+                &short_str.as_encoded_bytes()[1..],
+            )
+        };
         cursor.report_error(args::Error::ShortsUnknown {
-            shorts: short_str,
+            shorts: shorts,
         })
     }
 
-- 
2.43.0


From 9ee4e9f7508e3f6654b34d005a69ee36fa5500f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:21 +0000
Subject: [PATCH 04/26] fix: seed Xoshiro256++ from distinct SplitMix64 outputs

---
 lib/osi/src/rng.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/osi/src/rng.rs b/lib/osi/src/rng.rs
index 228bd2d..29da626 100644
--- a/lib/osi/src/rng.rs
+++ b/lib/osi/src/rng.rs
@@ -61,7 +61,7 @@ pub struct Xoshiro256pp {
 // non-0 seeding requirements of some RNGs).
 const MIX64_0: [u64; 4] = {
     let mut mix = Mix64::with_seed(0);
-    let v = [mix.next64(); 4];
+    let v = [mix.next64(), mix.next64(), mix.next64(), mix.next64()];
 
     let mut i = 0;
     while i < v.len() {
@@ -291,7 +291,7 @@ impl Xoshiro256pp {
     /// Use the [`SplitMix64`] instance to seed the 256-bit of state of a new
     /// RNG instance.
     pub const fn from_splitmix64(mix: &mut SplitMix64) -> Self {
-        Self::with_seed([mix.next64(); 4])
+        Self::with_seed([mix.next64(), mix.next64(), mix.next64(), mix.next64()])
     }
 
     /// Produce the next 64-bit random number.
-- 
2.43.0


From e869f87365e586ce5931af1911fc030251134bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:34 +0000
Subject: [PATCH 05/26] fix: make natural string order transitive for all digit
 runs

---
 lib/osi/src/str.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/lib/osi/src/str.rs b/lib/osi/src/str.rs
index a93362f..e3fd61e 100644
--- a/lib/osi/src/str.rs
+++ b/lib/osi/src/str.rs
@@ -31,13 +31,13 @@ pub fn cmp_natural(
 
         // Split off non-digit prefix.
         let (name, rem) = rem.split_at(
-            rem.find(|v: char| v.is_numeric())
+            rem.find(|v: char| v.is_ascii_digit())
                 .unwrap_or(rem.len()),
         );
 
         // Split off digit-only prefix.
         let (number, rem) = rem.split_at(
-            rem.find(|v: char| !v.is_numeric())
+            rem.find(|v: char| !v.is_ascii_digit())
                 .unwrap_or(rem.len()),
         );
 
@@ -50,8 +50,8 @@ pub fn cmp_natural(
     while !lhs.is_empty() || !rhs.is_empty() {
         let (l_name, l_num) = advance(&mut lhs);
         let (r_name, r_num) = advance(&mut rhs);
-        let l_u64 = l_num.parse::<u64>();
-        let r_u64 = r_num.parse::<u64>();
+        let l_val = l_num.trim_start_matches('0');
+        let r_val = r_num.trim_start_matches('0');
 
         // Compare the non-digit prefix.
         match l_name.cmp(r_name) {
@@ -60,16 +60,14 @@ pub fn cmp_natural(
             _ => {},
         }
 
-        // Compare the digit-only prefix as u64, if possible. Note that
-        // different strings can map to the same u64, so even if both u64s
-        // are equal, we have to continue comparing their original string
-        // representation.
-        if let (Ok(l), Ok(r)) = (l_u64, r_u64) {
-            match l.cmp(&r) {
-                v @ core::cmp::Ordering::Less => return v,
-                v @ core::cmp::Ordering::Greater => return v,
-                _ => {},
-            }
+        // Compare the digit-only prefix by numeric value. Without leading
+        // zeros, a longer run is always the bigger value. Note that different
+        // strings can map to the same value, so even if both values are equal,
+        // we have to continue comparing their original string representation.
+        match l_val.len().cmp(&r_val.len()).then_with(|| l_val.cmp(r_val)) {
+            v @ core::cmp::Ordering::Less => return v,
+            v @ core::cmp::Ordering::Greater => return v,
+            _ => {},
         }
 
         // Compare the digit-only prefix as string.
-- 
2.43.0


From 3164909983d293bb2799418618e1bb6a3ed1d0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:09 +0000
Subject: [PATCH 06/26] fix: report the opening element of a mispaired
 container

The index was computed from the offset of the container itself rather than
the offset of the closing element, so it pointed to an unrelated element.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 6dd814b..11c4f3f 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -542,7 +542,7 @@ macro_rules!
                     let expected = this.pair().unwrap();
                     if expected.id() != up.element().id() {
                         return Err(Error::ElementMispaired {
-                            idx: this_idx.strict_sub(up.offset()) as usize,
+                            idx: this_idx.strict_sub(this.offset()) as usize,
                             pair_idx: this_idx as usize,
                             expected: Some(expected),
                         });
-- 
2.43.0


From fcab04c141d95af47c86cca3ea7318d17cf7ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:09 +0000
Subject: [PATCH 07/26] fix: report the right length of long signatures

Signatures longer than 31 elements reported six times their length, since
the size of the wrong node type was used.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 11c4f3f..6dcc151 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -824,7 +824,7 @@ impl Sig {
     pub const fn len(&self) -> usize {
         match self.flags().node() {
             Node8::ID => self.nodes.len() / Node8::SIZE_COEFF,
-            Node64::ID => self.nodes.len() / Node8::SIZE_COEFF,
+            Node64::ID => self.nodes.len() / Node64::SIZE_COEFF,
             _ => core::unreachable!(),
         }
     }
-- 
2.43.0


From 84644a02d5d82bddaa7333cc038693102cd5c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:09 +0000
Subject: [PATCH 08/26] fix: terminate when padding a signature buffer

The loop that initializes trailing padding never advanced.
---
 lib/tmp/src/fmt/dbus/signature.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 6dcc151..390e091 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -743,9 +743,10 @@ impl Sig {
         };
 
         if r.is_ok() {
-            let i = 0;
+            let mut i = 0;
             while i < pad.len() {
                 pad[i].write(0);
+                i += 1;
             }
         }
 
-- 
2.43.0


From e9fa95b6c3dba093e7c5b377b5ad3765cf3f58ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:09 +0000
Subject: [PATCH 09/26] fix: refuse signature buffers of unsuitable size

A buffer that is too small caused an out-of-bounds panic, and one that is too
large was left uninitialized at the end, yet used as initialized by
`Sig::try_make()`. Report `DataExceeded` in both cases.
---
 lib/tmp/src/fmt/dbus/signature.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 390e091..aa57615 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -734,6 +734,12 @@ impl Sig {
         data: &mut [mem::MaybeUninit<u64>],
         signature: &[u8],
     ) -> Result<(), Error> {
+        // The length of a signature is derived from the size of its buffer,
+        // so the buffer must match exactly.
+        if data.len() != Self::size_for_length(signature.len()) {
+            return Err(Error::DataExceeded);
+        }
+
         let (r, pad) = if signature.len() <= Node8::LENGTH_MAX {
             let (nodes, pad) = Node8::derive_uninit(data);
             (Node8::parse(nodes, signature), pad)
-- 
2.43.0


From 55fe05e22326216c675dfa63589719aac967b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:09 +0000
Subject: [PATCH 10/26] fix: clamp explicit cursor moves to the signature

`Cursor::idx()` guarantees that the index never exceeds the length of the
signature. Clamp in `move_to()`, just like `Cursor::with()` does.
---
 lib/tmp/src/fmt/dbus/signature.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index aa57615..9f9c3b8 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -1112,7 +1112,8 @@ where
     }
 
     pub fn move_to(&mut self, idx: usize) -> &mut Self {
-        self.idx = idx;
+        let len = self.sig.len();
+        self.idx = if idx < len { idx } else { len };
         self
     }
 
-- 
2.43.0


From 07007c45f26a123c99cb01254dad6bfae9dec544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:44 +0000
Subject: [PATCH 11/26] fix: write iterators to the start of a map

If the mapped memory is bigger than requested, `write_iter()` placed the data
at its end rather than its start.
---
 lib/tmp/src/io/map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index cfc076d..5c75454 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -114,10 +114,9 @@ pub trait Write {
             assert!(map.len() > 0);
             n = core::cmp::min(n, map.len());
 
-            while n > 0 {
-                map[map.len().strict_sub(n)].write(data.next().unwrap());
+            for v in &mut map[..n] {
+                v.write(data.next().unwrap());
                 *idx += 1;
-                n -= 1;
             }
         }
     }
-- 
2.43.0


From f08284658783179d96dea370b24a70dc1874cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:51 +0000
Subject: [PATCH 12/26] fix: reserve only the requested minimum in stream
 writes

The maximum is a mere hint. Reserving it fails to provide the minimum if the
hint is smaller, and exhausts memory if the hint is big.
---
 lib/tmp/src/io/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/io/stream.rs b/lib/tmp/src/io/stream.rs
index 102672b..368bed9 100644
--- a/lib/tmp/src/io/stream.rs
+++ b/lib/tmp/src/io/stream.rs
@@ -257,8 +257,8 @@ impl Write for alloc::vec::Vec<u8> {
         }
     }
 
-    fn map(&mut self, min: usize, max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
-        self.reserve(max.unwrap_or(min));
+    fn map(&mut self, min: usize, _max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
+        self.reserve(min);
         Flow::Continue(self.spare_capacity_mut())
     }
 }
-- 
2.43.0


From 461dd6dda40d0cc89a8bdfeea711a8d21ae62689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:14 +0000
Subject: [PATCH 13/26] fix: map a vector past its committed content

Committing appends to the vector, but mapping started at its first byte. With
a non-empty vector, writes replaced existing content, and a commit exposed
uninitialized memory.
---
 lib/tmp/src/io/map.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index 5c75454..c999e71 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -180,15 +180,9 @@ impl Write for alloc::vec::Vec<u8> {
         let Some(end) = idx.checked_add(len) else {
             return Flow::Break(Some(Error::Overflow));
         };
-        if end > self.len() {
-            self.reserve(end - self.len());
-        }
-
-        let ptr: *mut u8 = self.as_mut_ptr();
-        let ptr_u: *mut Uninit<u8> = ptr as _;
-        let cap: usize = self.capacity();
-        let slice = unsafe { core::slice::from_raw_parts_mut(ptr_u, cap) };
 
-        Flow::Continue(&mut slice[idx..end])
+        // Data is mapped past the committed content.
+        self.reserve(end);
+        Flow::Continue(&mut self.spare_capacity_mut()[idx..end])
     }
 }
-- 
2.43.0


From 264bf4c7d1edb90e0a00a83f7fd9de0312adb711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:36 +0000
Subject: [PATCH 14/26] fix: track the end position of arrays in the D-Bus
 decoder

The decoder remembered the length of an array instead of the position of its
end, so Dec::more() reported the end of most arrays too early.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index b6d635f..5ad3c6d 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -687,9 +687,16 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let mut len_u = [0; _];
         Self::align(self.read, &mut level.idx, dbus::Element::U32.dvar_alignment_exp())?;
         Self::read(self.read, &mut level.idx, &mut len_u)?;
-        level.meta = self.format.de_u32(len_u) as usize;
+        let len = self.format.de_u32(len_u) as usize;
         Self::align(self.read, &mut level.idx, align)?;
 
+        // Remember where the array ends. Its length is counted from the first
+        // element, hence excludes any padding in front of it.
+        let Some(end) = level.idx.checked_add(len) else {
+            return Flow::Break(Some(dbus::Error::Io(io::map::Error::Overflow)));
+        };
+        level.meta = end;
+
         core::mem::swap(&mut level, &mut self.level);
         self.stack.push((dbus::Element::Array, level, None));
         self.cursor.move_down();
-- 
2.43.0


From 813d34ea56a4ddf169285d6933a960c511659e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:12 +0000
Subject: [PATCH 15/26] fix: do not trust string lengths in the D-Bus decoder

Decoding a string allocated the length claimed by the input, up to 4 GiB,
before checking that the data is available. Read the data piece by piece
instead, so the allocation is bounded by the input.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index 5ad3c6d..da05566 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -639,12 +639,17 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         Self::read(self.read, &mut idx, &mut len_u)?;
         let len = self.format.de_u32(len_u) as usize;
 
-        // Read the string.
-        let mut buffer = alloc::vec::Vec::with_capacity(len);
-        let buf_p = &mut buffer.spare_capacity_mut()[..len];
-        Self::read_uninit(self.read, &mut idx, buf_p)?;
-        // SAFETY: `Self::read_uninit()` always initializes the full slice.
-        unsafe { buffer.set_len(len) };
+        // Read the string. The length is not trusted, so only ever allocate
+        // memory for data that is known to be available.
+        let mut buffer = alloc::vec::Vec::new();
+        while buffer.len() < len {
+            let rem = len - buffer.len();
+            let map = self.read.map(idx, rem).map_break(|v| v.map(|v| v.into()))?;
+            assert!(!map.is_empty());
+            let n = core::cmp::min(map.len(), rem);
+            buffer.extend_from_slice(&map[..n]);
+            idx = idx.strict_add(n);
+        }
 
         // Validate UTF-8.
         *data = match alloc::string::String::from_utf8(buffer) {
-- 
2.43.0


From 67fcfa7b65158edc8e91ee67e3052087a3710ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:28 +0000
Subject: [PATCH 16/26] fix: report unfinished JSON tokens only once on
 completion

Completing the tokenizer never marked the pending token as done, so it was
returned on every call and callers looping until the end never terminated. A
number with an empty part hit an unreachable statement on the second call.
---
 lib/tmp/src/fmt/json/token.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 223f074..608c672 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -773,16 +773,35 @@ impl<'read> Dec<'read> {
                 return Some(self.inner.raise_error(Error::BufferChanged));
             };
 
+            let map = &map[..self.inner.idx];
+
             match self.inner.state {
                 State::None => None,
-                State::Whitespace => Some(self.inner.raise_whitespace(map)),
-                State::Item => Some(self.inner.raise_item(map)),
-                State::Number { .. }
-                | State::NumberDone { .. } => Some(self.inner.number_done(map)),
+                State::Whitespace => {
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_whitespace(map))
+                },
+                State::Item => {
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_item(map))
+                },
+                State::Number { .. } => Some(self.inner.number_done(map)),
+                State::NumberDone {
+                    sign, ref integer, ref fraction, exponent_sign, ref exponent,
+                } => {
+                    let (integer, fraction, exponent) = (
+                        integer.clone(), fraction.clone(), exponent.clone(),
+                    );
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_number(
+                        map, sign, integer, fraction, exponent_sign, exponent,
+                    ))
+                },
                 State::String { .. }
                 | State::StringEscape
                 | State::StringEscapeUnicode { .. }
                 | State::StringEscapeUnicodeTrail { .. } => {
+                    self.inner.done = Some(self.inner.idx);
                     Some(self.inner.raise_error(Error::StringIncomplete))
                 },
             }
-- 
2.43.0


From 1e26e31327e1a937ed58cdb6a33d99711fe95d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:46 +0000
Subject: [PATCH 17/26] fix: keep all digits of a JSON number at the end of the
 stream

Digits that were scanned before the end of the stream was signalled were
missing from the parts of the number reported on completion.
---
 lib/tmp/src/fmt/json/token.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 608c672..f5299bb 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -785,7 +785,20 @@ impl<'read> Dec<'read> {
                     self.inner.done = Some(self.inner.idx);
                     Some(self.inner.raise_item(map))
                 },
-                State::Number { .. } => Some(self.inner.number_done(map)),
+                State::Number {
+                    ref mut integer, ref mut fraction, ref mut exponent, ..
+                } => {
+                    // Include the digits that were scanned while waiting for
+                    // the end of the number.
+                    if exponent.start != 0 {
+                        exponent.end = self.inner.idx;
+                    } else if fraction.start != 0 {
+                        fraction.end = self.inner.idx;
+                    } else {
+                        integer.end = self.inner.idx;
+                    }
+                    Some(self.inner.number_done(map))
+                },
                 State::NumberDone {
                     sign, ref integer, ref fraction, exponent_sign, ref exponent,
                 } => {
-- 
2.43.0


From 4adfe3a6e2068e2bdbe04e1b3db84e233f9257e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:01 +0000
Subject: [PATCH 18/26] fix: report an unescaped unit separator in JSON strings

U+001F is a control character and must be escaped as well.
---
 lib/tmp/src/fmt/json/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index f5299bb..af22513 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -553,7 +553,7 @@ impl<'read> Dec<'read> {
                 let map = self.read.map_while(
                     &mut self.inner.idx,
                     None,
-                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..0x1f),
+                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..=0x1f),
                 )?;
 
                 match map[self.inner.idx] {
@@ -569,7 +569,7 @@ impl<'read> Dec<'read> {
                         self.inner.state = State::StringEscape;
                         None
                     },
-                    v @ 0x00..0x1f => {
+                    v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
                         Some(self.inner.raise_error(Error::StringUnescaped {
-- 
2.43.0


From 968fc61bb9ff02f0a3eec5ca32c89ec07ae3d07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:13 +0000
Subject: [PATCH 19/26] fix: do not repeat text after an unescaped control
 character

Once a JSON string contained an escape sequence, the text in front of an
unescaped control character was added to the decoded string twice.
---
 lib/tmp/src/fmt/json/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index af22513..3a8db44 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -572,6 +572,7 @@ impl<'read> Dec<'read> {
                     v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
+                        self.inner.state = State::String { idx_start: self.inner.idx };
                         Some(self.inner.raise_error(Error::StringUnescaped {
                             code: v,
                         }))
-- 
2.43.0


From e31fd0f4bf1b59d32cc7aad9e43b180805f5d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:18 +0000
Subject: [PATCH 20/26] fix: accept empty objects in the JSON stream decoder

An object without members was reported as an error.
---
 lib/tmp/src/fmt/json/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index be7357c..ae2e6b4 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -202,7 +202,7 @@ impl DecInner {
             (State::ObjectOpen, Token::ArrayOpen) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ArrayClose) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ObjectOpen) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::ObjectClose) => Some(self.unexpected()),
+            (State::ObjectOpen, Token::ObjectClose) => Some(self.object_close()),
             (State::ObjectOpen, Token::Null) => Some(self.unexpected()),
             (State::ObjectOpen, Token::False) => Some(self.unexpected()),
             (State::ObjectOpen, Token::True) => Some(self.unexpected()),
-- 
2.43.0


From 58fa12f61090f79704b1bf0f4371b924f5fa2471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:28 +0000
Subject: [PATCH 21/26] fix: track values in the JSON stream decoder

Scalar values did not change the parser state. The comma or closing bracket
after a value was thus reported as error, and consecutive values were
accepted.
---
 lib/tmp/src/fmt/json/stream.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index ae2e6b4..8346510 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -96,7 +96,13 @@ impl DecInner {
         &mut self,
         _token: Token<'token>,
     ) -> Item<'token> {
-        // XXX:
+        // XXX: Provide the value to the caller.
+        self.state = match self.state {
+            State::Root => State::RootDone,
+            State::ArrayOpen | State::ArrayComma => State::ArrayValue,
+            State::ObjectColon => State::ObjectValue,
+            v => v,
+        };
         Item::Prim
     }
 
-- 
2.43.0


From f91d88284c75e060096c3b5c86094b8bc9556635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:42 +0000
Subject: [PATCH 22/26] fix: report object keys as keys in the JSON stream
 decoder

Member names were reported as primitive values.
---
 lib/tmp/src/fmt/json/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index 8346510..86d0bbf 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -213,7 +213,7 @@ impl DecInner {
             (State::ObjectOpen, Token::False) => Some(self.unexpected()),
             (State::ObjectOpen, Token::True) => Some(self.unexpected()),
             (State::ObjectOpen, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectOpen, Token::String { .. }) => { self.state = State::ObjectKey; Some(Item::Key) },
 
             (State::ObjectKey, Token::Error(e)) => Some(self.propagate(e)),
             (State::ObjectKey, Token::Whitespace { .. }) => None,
@@ -269,7 +269,7 @@ impl DecInner {
             (State::ObjectComma, Token::False) => Some(self.unexpected()),
             (State::ObjectComma, Token::True) => Some(self.unexpected()),
             (State::ObjectComma, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectComma, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectComma, Token::String { .. }) => { self.state = State::ObjectKey; Some(Item::Key) },
 
             (State::RootDone, Token::Error(e)) => Some(self.propagate(e)),
             (State::RootDone, Token::Whitespace { .. }) => None,
-- 
2.43.0


From aa58526a145e8dbd438818f27fc9981680590ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:02 +0000
Subject: [PATCH 23/26] fix: correct the magic value of PE32+ optional headers

PE32+ images use 0x020b. The constant had the value of PE32.
---
 lib/tmp/src/pecoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index 870c491..780d89d 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -26,7 +26,7 @@ pub const INVALID_TIMESTAMPS: [u32; 2] = [0x00000000, 0xffffffff];
 
 pub const PE_MAGIC: [u8; 4] = [0x50, 0x45, 0x00, 0x00];
 pub const PE_MAGIC_OH32: u16 = 0x010b;
-pub const PE_MAGIC_OH32P: u16 = 0x010b;
+pub const PE_MAGIC_OH32P: u16 = 0x020b;
 
 pub const PE_OFFSET: usize = 0x3c;
 
-- 
2.43.0


From 58a0a0c8d26b503a921f9d79df0cc6f5b1c57b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:24 +0000
Subject: [PATCH 24/26] fix: correct the values of PE subsystems above 9

The decimal values of the specification were written as hexadecimal numbers.
---
 lib/tmp/src/pecoff.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index 780d89d..8adb83e 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -152,12 +152,12 @@ pub const SUBSYSTEM_OS2_CUI: u16 = 0x0005;
 pub const SUBSYSTEM_POSIX_CUI: u16 = 0x0007;
 pub const SUBSYSTEM_NATIVE_WINDOWS: u16 = 0x0008;
 pub const SUBSYSTEM_WINDOWS_CE_GUI: u16 = 0x0009;
-pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x0010;
-pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x0011;
-pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x0012;
-pub const SUBSYSTEM_EFI_ROM: u16 = 0x0013;
-pub const SUBSYSTEM_XBOX: u16 = 0x0014;
-pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0016;
+pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x000a;
+pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x000b;
+pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x000c;
+pub const SUBSYSTEM_EFI_ROM: u16 = 0x000d;
+pub const SUBSYSTEM_XBOX: u16 = 0x000e;
+pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0010;
 
 // aligned on 8-byte boundary
 #[repr(C)]
-- 
2.43.0


From 9ce0bf6a049f47fa796e1fe60842bb26ace3b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:35 +0000
Subject: [PATCH 25/26] fix: correct the ELF machine numbers 163 to 168

EM_TRIMEDIA reused the number of EM_R32C, and all following numbers up to
EM_ECOG1 were off by one.
---
 lib/sys/src/ffi/elf.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/sys/src/ffi/elf.rs b/lib/sys/src/ffi/elf.rs
index 53c2158..9b77404 100644
--- a/lib/sys/src/ffi/elf.rs
+++ b/lib/sys/src/ffi/elf.rs
@@ -224,12 +224,12 @@ mod common {
     pub const EM_MMDSP_PLUS: u16 = 160;
     pub const EM_CYPRESS_M8C: u16 = 161;
     pub const EM_R32C: u16 = 162;
-    pub const EM_TRIMEDIA: u16 = 162;
-    pub const EM_QDSP6: u16 = 163;
-    pub const EM_8051: u16 = 164;
-    pub const EM_STXP7X: u16 = 165;
-    pub const EM_NDS32: u16 = 166;
-    pub const EM_ECOG1: u16 = 167;
+    pub const EM_TRIMEDIA: u16 = 163;
+    pub const EM_QDSP6: u16 = 164;
+    pub const EM_8051: u16 = 165;
+    pub const EM_STXP7X: u16 = 166;
+    pub const EM_NDS32: u16 = 167;
+    pub const EM_ECOG1: u16 = 168;
     pub const EM_ECOG1X: u16 = 168;
     pub const EM_MAXQ30: u16 = 169;
     pub const EM_XIMO16: u16 = 170;
-- 
2.43.0


From a0fa41f351c34b5a5d0f916538399fdfd179787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:37:45 +0000
Subject: [PATCH 26/26] fix: name allowed compiler lints without clippy prefix

The build metadata query listed lints allowed in the compiler's own
lint table as clippy lints. No such clippy lint exists, so allowing a
compiler lint had no effect on the lint run.
---
 lib/util/cargo-query.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/util/cargo-query.py b/lib/util/cargo-query.py
index 73f0096..aa9b375 100755
--- a/lib/util/cargo-query.py
+++ b/lib/util/cargo-query.py
@@ -22,7 +22,8 @@ def toml_lints(toml):
             level = v['level'] if isinstance(v, dict) else v
             if level == 'allow':
                 acc_allow += ',' if acc_allow else ''
-                acc_allow += 'clippy::' + k
+                # Lints of the compiler itself have no tool prefix.
+                acc_allow += k if g == 'rust' else g + '::' + k
     return acc_allow
 
 def toml_version(toml):
-- 
2.43.0

