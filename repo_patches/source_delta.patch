From 86a5fa3ced65a7468bf9d38c23ad45bee40a054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:37 +0000
Subject: [PATCH 01/48] fix: report an error raised by eql? during a hash table
 probe

RawTable::find and find_or_find_insert_slot treated an Err from the key
comparison as "not equal" and went on probing, so a raising eql? made a
present key look absent (and insert stored it twice).  The probe now stops
and returns the error.  HashSet::get_or_insert_with likewise turned the
error into a failed assertion.
---
 hashbrown/src/raw/mod.rs | 39 +++++++++++++++++++++++++++------------
 hashbrown/src/set.rs     |  2 +-
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 46a7978..93d3010 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -1011,17 +1011,24 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 3. The `find_or_find_insert_slot_inner` function returns the `index` of only the full bucket,
             //    which is in the range `0..self.buckets()` (since there is at least one empty `bucket` in
             //    the table), so calling `self.bucket(index)` and `Bucket::as_ref` is safe.
-            Ok(
-                match self
-                    .table
-                    .find_or_find_insert_slot_inner(hash, &mut |index| {
-                        eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
-                    }) {
-                    // SAFETY: See explanation above.
-                    Ok(index) => Ok(self.bucket(index)),
-                    Err(slot) => Err(slot),
-                },
-            )
+            // An error raised by `eq` ends the probe and is reported to the caller.
+            let mut err = None;
+            let result = self
+                .table
+                .find_or_find_insert_slot_inner(hash, &mut |index| {
+                    eq(self.bucket(index).as_ref(), e, g).unwrap_or_else(|r| {
+                        err = Some(r);
+                        true
+                    })
+                });
+            if let Some(r) = err {
+                return Err(r);
+            }
+            Ok(match result {
+                // SAFETY: See explanation above.
+                Ok(index) => Ok(self.bucket(index)),
+                Err(slot) => Err(slot),
+            })
         }
     }
 
@@ -1093,9 +1100,17 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 1. The `find_inner` function returns the `index` of only the full bucket, which is in
             //    the range `0..self.buckets()`, so calling `self.bucket(index)` and `Bucket::as_ref`
             //    is safe.
+            // An error raised by `eq` ends the probe and is reported to the caller.
+            let mut err = None;
             let result = self.table.find_inner(hash, &mut |index| {
-                eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
+                eq(self.bucket(index).as_ref(), e, g).unwrap_or_else(|r| {
+                    err = Some(r);
+                    true
+                })
             });
+            if let Some(r) = err {
+                return Err(r);
+            }
 
             // Avoid `Option::map` because it bloats LLVM IR.
             match result {
diff --git a/hashbrown/src/set.rs b/hashbrown/src/set.rs
index 596e734..d62e9ec 100644
--- a/hashbrown/src/set.rs
+++ b/hashbrown/src/set.rs
@@ -685,7 +685,7 @@ where
             Err(slot) => {
                 let new = f(value);
                 assert!(
-                    value.equivalent(&new, e, g).unwrap_or(false), // TO_BE_FIXED
+                    value.equivalent(&new, e, g)?,
                     "new value is not equivalent"
                 );
                 unsafe { self.map.table.insert_in_slot(hash, slot, (new, ())) }
-- 
2.43.0


From 8eb2190003911420d357f9dc9f838ccd49c36be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:55 +0000
Subject: [PATCH 02/48] fix: hash the key when deleting from a single-entry map

swap_remove_full and shift_remove_full compared the only entry through
eql? without hashing the key.  Deleting therefore called eql? for keys
with a different hash, never called (or reported an error from) hash, and
could remove an entry that a lookup with the same key does not find.
get_index_of already hashes in this case; deletion now does the same.
---
 rubymap/src/map.rs | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/rubymap/src/map.rs b/rubymap/src/map.rs
index 1e42989..35d3ef6 100644
--- a/rubymap/src/map.rs
+++ b/rubymap/src/map.rs
@@ -983,20 +983,12 @@ where
     where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
-        match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
-            _ => {
-                let hash = self.hash(key, e, g)?;
-                self.core.swap_remove_full(hash, key, e, g)
-            }
+        // As in `get_index_of`, the key is hashed whenever the map is non-empty.
+        if self.is_empty() {
+            return Ok(None);
         }
+        let hash = self.hash(key, e, g)?;
+        self.core.swap_remove_full(hash, key, e, g)
     }
 
     /// Remove `key` from the index table only, leaving its entry in place
@@ -1116,20 +1108,12 @@ where
     where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
-        match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
-            _ => {
-                let hash = self.hash(key, e, g)?;
-                self.core.shift_remove_full(hash, key, e, g)
-            }
+        // As in `get_index_of`, the key is hashed whenever the map is non-empty.
+        if self.is_empty() {
+            return Ok(None);
         }
+        let hash = self.hash(key, e, g)?;
+        self.core.shift_remove_full(hash, key, e, g)
     }
 }
 
-- 
2.43.0


From 371f5516d74ec974db43ce5c61a950b6c417624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:15:15 +0000
Subject: [PATCH 03/48] fix: keep Float 2**-255 apart from 0.0

The flonum encoding maps 0x3000000000000000 (1.7272337110188893e-77) to
the word reserved for 0.0, so the number read back as 0.0. Store it as a
heap float, like CRuby does.
---
 monoruby/src/value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value.rs b/monoruby/src/value.rs
index 6b38de0..1515d6c 100644
--- a/monoruby/src/value.rs
+++ b/monoruby/src/value.rs
@@ -3420,7 +3420,8 @@ impl Immediate {
         }
         let unum = f64::to_bits(num);
         let exp = ((unum >> 60) & 0b111) + 1;
-        if (exp & 0b0110) == 0b0100 {
+        // 2**-255 would be encoded to the same word as 0.0 (FLOAT_ZERO).
+        if (exp & 0b0110) == 0b0100 && unum != 0x3000_0000_0000_0000 {
             Some(unsafe { Self::from_u64_unchecked(((unum.rotate_left(3)) & !1) | 2) })
         } else {
             None
-- 
2.43.0


From d51301d1be487fda159591cd4d02a82e46248aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:15:22 +0000
Subject: [PATCH 04/48] fix: report negative lengths in Marshal data instead of
 panicking

A negative length was converted to a huge usize and overflowed when
added to the read position (or doubled, for a bignum). Compare it with
what is left of the data, so that it is 'marshal data too short'.
---
 monoruby/src/builtins/marshal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 28e51a3..8d06def 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -185,7 +185,7 @@ impl<'a> MarshalReader<'a> {
     }
 
     fn read_bytes(&mut self, n: usize) -> Result<&'a [u8]> {
-        if self.pos + n > self.data.len() {
+        if n > self.data.len() - self.pos {
             return Err(MonorubyErr::argumenterr("marshal data too short"));
         }
         let slice = &self.data[self.pos..self.pos + n];
@@ -427,7 +427,7 @@ impl<'a> MarshalReader<'a> {
     fn read_bignum(&mut self) -> Result<Value> {
         let sign_byte = self.read_byte()?;
         let word_count = self.read_fixnum()? as usize;
-        let byte_count = word_count * 2;
+        let byte_count = word_count.saturating_mul(2);
         let bytes = self.read_bytes(byte_count)?;
         let sign = if sign_byte == b'-' {
             num::bigint::Sign::Minus
-- 
2.43.0


From f74eaf39a69b69158b47f62fba5ef33c465c72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:21:56 +0000
Subject: [PATCH 05/48] fix: Integer#[] with a range of bits beyond the 63rd

The shift distance was not limited to the width of a word, so that
5[64..66] was 5 instead of 0 (and a panic in a debug build). The mask
for 63 bits overflowed in a debug build as well.
---
 monoruby/src/executor/op.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/executor/op.rs b/monoruby/src/executor/op.rs
index 7d6233f..719836b 100644
--- a/monoruby/src/executor/op.rs
+++ b/monoruby/src/executor/op.rs
@@ -1053,7 +1053,7 @@ pub(crate) fn integer_index1(
                     } else if end >= 64 {
                         b
                     } else {
-                        b & ((1i64 << end) - 1)
+                        b & (1i64 << end).wrapping_sub(1)
                     }
                 }
                 RV::BigInt(b) => {
@@ -1140,12 +1140,14 @@ pub(crate) fn integer_index1(
         let base_bigint = match base.unpack() {
             RV::Fixnum(base) => {
                 if width < 64 {
-                    let mask = (1i64 << width) - 1;
+                    let mask = (1i64 << width).wrapping_sub(1);
                     return Ok(Value::integer(
                         (if start >= 0 {
-                            base >> start
-                        } else {
+                            base >> start.min(63)
+                        } else if start > -64 {
                             base << -start
+                        } else {
+                            0
                         }) & mask,
                     ));
                 }
-- 
2.43.0


From bb1c827b25cef2b18719d5a0025aaeefc521827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:21:56 +0000
Subject: [PATCH 06/48] fix: Integer#[] of a negative number with a bignum
 index

All bits far to the left of a negative number are 1, (-1)[2**64] was 0.
---
 monoruby/src/executor/op.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/executor/op.rs b/monoruby/src/executor/op.rs
index 719836b..be781d3 100644
--- a/monoruby/src/executor/op.rs
+++ b/monoruby/src/executor/op.rs
@@ -1177,7 +1177,9 @@ pub(crate) fn integer_index1(
             };
             Ok(Value::integer(val))
         }
-        (RV::Fixnum(_), RV::BigInt(_)) => Ok(Value::integer(0)),
+        (RV::Fixnum(base), RV::BigInt(index)) => Ok(Value::integer(
+            (base < 0 && *index > BigInt::ZERO) as i64,
+        )),
         (RV::Fixnum(_), _) => Err(MonorubyErr::no_implicit_conversion(
             globals,
             index,
@@ -1191,7 +1193,9 @@ pub(crate) fn integer_index1(
                 Ok(Value::bigint(i))
             }
         }
-        (RV::BigInt(_), RV::BigInt(_)) => Ok(Value::integer(0)),
+        (RV::BigInt(base), RV::BigInt(index)) => Ok(Value::integer(
+            (*base < BigInt::ZERO && *index > BigInt::ZERO) as i64,
+        )),
         (RV::BigInt(_), _) => Err(MonorubyErr::no_implicit_conversion(
             globals,
             index,
-- 
2.43.0


From 632aa0d0e09785f6509c5c75fed7416559c033f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:18 +0000
Subject: [PATCH 07/48] fix: Hash#replace while the hash is being iterated over

The iteration count is part of the content that replace swaps out, so the
loop's end took one off a counter that was zero and the hash stayed locked
("can't add a new key into hash during iteration") for good.  Raise as
Hash#clear does; replacing a hash by itself changes nothing.
---
 monoruby/src/builtins/hash.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index dba023e..0a913ce 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -1685,6 +1685,12 @@ fn clear(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn replace(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let mut self_ = lfp.self_val().as_hash_mut(&globals.store)?;
     let arg = lfp.arg(0).coerce_to_hash(vm, globals)?;
+    if arg.as_val().id() == self_.as_val().id() {
+        return Ok(lfp.self_val());
+    }
+    // The iteration count lives in the content that is replaced, so a
+    // traversal in progress would end up releasing a reference it never took.
+    self_.check_iter()?;
     self_.replace_inner(arg.inner().clone_inner());
 
     Ok(lfp.self_val())
-- 
2.43.0


From d9c42b86fe4fb56e6baa9e5d7e96f15866a2cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:18 +0000
Subject: [PATCH 08/48] fix: digest of a Hash used as a key

Hashes that are eql? got different digests when their pairs were in a
different order or when entries had been deleted during an iteration, so
looking one up with the other as the key failed.
---
 monoruby/src/value/rvalue/hash.rs | 41 +++++++++++--------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/monoruby/src/value/rvalue/hash.rs b/monoruby/src/value/rvalue/hash.rs
index a3fd368..66ea25e 100644
--- a/monoruby/src/value/rvalue/hash.rs
+++ b/monoruby/src/value/rvalue/hash.rs
@@ -1118,35 +1118,22 @@ impl RubyHash<Executor, Globals, MonorubyErr> for HashRef<'_> {
         e: &mut Executor,
         g: &mut Globals,
     ) -> Result<()> {
-        match self.content() {
-            ContentRef::Inline(pairs) => {
-                if self.is_ident_inline() {
-                    // digest keys by id, matching `IdentKey::ruby_hash`
-                    // so inline and boxed identity hashes digest alike
-                    for (key, val) in pairs {
-                        key.id().hash(state);
-                        val.ruby_hash(state, e, g)?;
-                    }
-                } else {
-                    for (key, val) in pairs {
-                        key.ruby_hash(state, e, g)?;
-                        val.ruby_hash(state, e, g)?;
-                    }
-                }
-            }
-            ContentRef::Map(h) => {
-                for (key, val) in h.iter() {
-                    key.ruby_hash(state, e, g)?;
-                    val.ruby_hash(state, e, g)?;
-                }
-            }
-            ContentRef::Ident(h) => {
-                for (key, val) in h.iter() {
-                    key.ruby_hash(state, e, g)?;
-                    val.ruby_hash(state, e, g)?;
-                }
+        // `eql?` looks at neither the order of the pairs nor the tombstones
+        // between them, so the digests of the live pairs are summed up.
+        let ident = self.is_compare_by_identity();
+        let mut sum = 0u64;
+        for (key, val) in self.iter() {
+            let mut s = crate::value::seeded_hasher();
+            if ident {
+                // digest keys by id, matching `IdentKey::ruby_hash`
+                key.id().hash(&mut s);
+            } else {
+                key.ruby_hash(&mut s, e, g)?;
             }
+            val.ruby_hash(&mut s, e, g)?;
+            sum = sum.wrapping_add(std::hash::Hasher::finish(&s));
         }
+        sum.hash(state);
         Ok(())
     }
 }
-- 
2.43.0


From 339b82366ade193465558a9f4014b31a16c896be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:23 +0000
Subject: [PATCH 09/48] fix: an ASCII-only part of a non-ASCII string is
 ASCII-only

A substring inherited the classification "valid, has non-ASCII
characters" from its parent even when it contains none, so
"\u00e9a"[1].ascii_only? was false and joining it with a string of
another encoding raised Encoding::CompatibilityError.
---
 monoruby/src/value/rvalue/string.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index e8242a4..540a7fd 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -1839,10 +1839,25 @@ impl RStringInner {
         RStringInner::from(
             SmallVec::from_slice(&parent.as_bytes()[start..end]),
             parent.encoding(),
-            Self::propagated_cr(parent, start, end),
+            Self::substring_cr(parent, start, end),
         )
     }
 
+    /// Code range of the substring `start..end` of `parent`: the
+    /// propagated one, except that an ASCII-only part of a string with
+    /// non-ASCII content is `SevenBit`.
+    fn substring_cr(parent: &RStringInner, start: usize, end: usize) -> CodeRange {
+        match Self::propagated_cr(parent, start, end) {
+            CodeRange::Valid
+                if parent.encoding().is_ascii_compatible()
+                    && parent.as_bytes()[start..end].is_ascii() =>
+            {
+                CodeRange::SevenBit
+            }
+            cr => cr,
+        }
+    }
+
     /// Owned, with the byte buffer spilled to the heap (so its address
     /// is stable and shareable).
     fn owned_spilled(&self) -> bool {
@@ -2440,7 +2455,7 @@ pub(crate) fn string_substring(mut parent: Value, start: usize, end: usize) -> V
     debug_assert!(start <= end && end <= inner.len());
     let len = end - start;
     let ty = inner.encoding();
-    let cr = RStringInner::propagated_cr(inner, start, end);
+    let cr = RStringInner::substring_cr(inner, start, end);
     // Share only when the copy would have to heap-allocate anyway
     // (an inline copy is at most STRING_INLINE_CAP bytes and cheaper
     // than a root allocation + GC edge).
-- 
2.43.0


From a6a95b896e25a79c98144b5bfab7de5e1f6c0c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:23 +0000
Subject: [PATCH 10/48] fix: reclassify a string whose non-ASCII part is
 replaced by ASCII

After s = "\u00e9"; s[0] = "a" the string still counted as having
non-ASCII characters: s.ascii_only? was false.
---
 monoruby/src/value/rvalue/string.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 540a7fd..618cb3f 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2393,8 +2393,10 @@ impl RStringInner {
         }
         // Fast path 2: receiver and replacement are both well-formed
         // UTF-8 (or pure ASCII) and the splice respects character
-        // boundaries — the result is well-formed UTF-8 too.
-        if utf8_boundaries_ok && matches!(repl_cr, CodeRange::SevenBit | CodeRange::Valid) {
+        // boundaries — the result is well-formed UTF-8 too. An ASCII
+        // replacement may remove the last non-ASCII character, so it
+        // takes the slow path.
+        if utf8_boundaries_ok && matches!(repl_cr, CodeRange::Valid) {
             self.cr.set(CodeRange::Valid);
             return Ok(());
         }
-- 
2.43.0


From a96ccb3171f36cf7e6f59290d4c90910d653047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:23 +0000
Subject: [PATCH 11/48] fix: reclassify the reverse of a string with an invalid
 encoding

Reversing an invalid string can make it valid: "\x80\xC2".reverse is
"\u0080", but valid_encoding? kept answering false.
---
 monoruby/src/value/rvalue/string.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 618cb3f..c3c4c8a 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -1474,11 +1474,11 @@ impl RStringInner {
 
     /// Codepoint-reversed copy of `self`. The declared encoding and
     /// the cached code range are both preserved: reversing UTF-8
-    /// codepoints yields valid UTF-8, ASCII-only buffers stay
-    /// ASCII-only, and a broken UTF-8 input stays broken because
-    /// `iter_char_bytes` walks invalid bytes one-at-a-time (the
-    /// same "each invalid byte is its own char" rule CRuby's
-    /// `rb_str_reverse` applies).
+    /// codepoints yields valid UTF-8 and ASCII-only buffers stay
+    /// ASCII-only. A broken input is classified anew: `iter_char_bytes`
+    /// walks invalid bytes one-at-a-time (the same "each invalid byte
+    /// is its own char" rule CRuby's `rb_str_reverse` applies), and
+    /// they may be valid in the other order.
     pub fn reverse(&self) -> Self {
         let enc = self.ty;
         let bytes = self.as_bytes();
@@ -1518,6 +1518,12 @@ impl RStringInner {
             }
             debug_assert_eq!(write, 0);
         }
+        // Stray bytes of a broken string may form characters when
+        // their order changes.
+        let cr = match cr {
+            CodeRange::Broken => CodeRange::Unknown,
+            cr => cr,
+        };
         RStringInner::from(buf, enc, cr)
     }
 
-- 
2.43.0


From 192f3c9f7220442de5f130382979cd113ee0f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:23 +0000
Subject: [PATCH 12/48] fix: reclassify a repeated string with an invalid
 encoding

Repeating an invalid string can make it valid, for example a lone lead
byte in EUC-JP or Shift_JIS, or an odd number of bytes in UTF-16.
valid_encoding? kept answering false.
---
 monoruby/src/value/rvalue/string.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index c3c4c8a..cc6a914 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2263,12 +2263,16 @@ impl RStringInner {
     pub fn repeat(&self, len: usize) -> RStringInner {
         // Repetition of a classified buffer trivially preserves cr:
         // SevenBit/Valid stay so under concatenation of identical
-        // valid runs, and Broken stays Broken. The empty case
+        // valid runs; Broken is classified anew, as the copies may
+        // complete each other's characters. The empty case
         // (`len == 0`) collapses to SevenBit, matching `classify(b"")`.
         let cr = if len == 0 {
             CodeRange::SevenBit
         } else {
-            self.cr.get()
+            match self.cr.get() {
+                CodeRange::Broken => CodeRange::Unknown,
+                cr => cr,
+            }
         };
         RStringInner::from(SmallVec::from_vec(self.as_bytes().repeat(len)), self.ty, cr)
     }
-- 
2.43.0


From f327c0472e569678c57518dc4563691ca6d4b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:23 +0000
Subject: [PATCH 13/48] fix: classify characters appended to US-ASCII and
 UTF-16/32 strings

Appending a code above 127 to a US-ASCII string marked the string valid,
and appending one below 128 to an empty UTF-16 or UTF-32 string marked
it ASCII-only.
---
 monoruby/src/value/rvalue/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index cc6a914..cb61fba 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2199,9 +2199,9 @@ impl RStringInner {
         // repeated callers (e.g. String#<< with single-char Integer args
         // or per-codepoint encode loops) don't degenerate to O(N²) when
         // self.code_range() is later queried.
-        let slice_cr = if slice.iter().all(|&b| b < 0x80) {
+        let slice_cr = if self.ty.is_ascii_compatible() && slice.iter().all(|&b| b < 0x80) {
             CodeRange::SevenBit
-        } else if self.ty.is_utf8_compatible() {
+        } else if self.ty == Encoding::Utf8 {
             CodeRange::Valid
         } else {
             CodeRange::Unknown
-- 
2.43.0


From d9c22e3820001f370a848acc1044fb7ae3b6fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:23 +0000
Subject: [PATCH 14/48] fix: escape interpolation in String#inspect of
 non-UTF-8 strings

"#{", "#$" and "#@" came out as they are for US-ASCII, ASCII-8BIT and the
other byte encodings, so the text did not read back as the same string.
---
 monoruby/src/value/rvalue/string.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index cb61fba..25bf210 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -965,9 +965,11 @@ impl RStringInner {
             // `\x{A4A2}`).
             Encoding::EucJp | Encoding::Sjis(_) => {
                 let mut res = String::with_capacity(self.len());
+                let mut pos = 0;
                 for cb in self.iter_char_bytes() {
+                    pos += cb.len();
                     if cb.len() == 1 && cb[0] < 0x80 {
-                        ascii_escape(&mut res, cb[0]);
+                        ascii_inspect_with_next(&mut res, cb[0], self.as_bytes().get(pos));
                     } else {
                         res.push_str("\\x{");
                         for b in cb {
@@ -992,8 +994,9 @@ impl RStringInner {
             // ASCII rules for < 0x80, `\xHH` otherwise.
             _ => {
                 let mut res = String::with_capacity(self.len());
-                for c in self.as_bytes() {
-                    ascii_escape(&mut res, *c);
+                let bytes = self.as_bytes();
+                for (i, c) in bytes.iter().enumerate() {
+                    ascii_inspect_with_next(&mut res, *c, bytes.get(i + 1));
                 }
                 res
             }
@@ -1211,6 +1214,15 @@ fn ascii_escape(s: &mut String, ch: u8) {
     s.push_str(str);
 }
 
+/// `ascii_escape`, but `#` is escaped when followed by `$`, `@`, or `{`.
+fn ascii_inspect_with_next(s: &mut String, ch: u8, next: Option<&u8>) {
+    if ch == b'#' && matches!(next, Some(b'$' | b'@' | b'{')) {
+        s.push_str("\\#");
+    } else {
+        ascii_escape(s, ch);
+    }
+}
+
 /// `String#dump` with one-character lookahead so `#` can be escaped
 /// to `\#` when the next char is `$` / `@` / `{` (CRuby keeps the
 /// dumped form parseable as a Ruby literal — those trigrams would
-- 
2.43.0


From b35e95d1e7844a3bcccdd91ec2ea43f90ee8ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:23 +0000
Subject: [PATCH 15/48] fix: do not let a stray lead byte swallow the next
 character

In EUC-JP and Shift_JIS strings a lead byte without a valid trail byte
took the following characters with it: "\xA4a" in EUC-JP had one
character, although only the first byte is invalid.
---
 monoruby/src/value/rvalue/string.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 25bf210..f09bd82 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -92,20 +92,12 @@ impl<'a> Iterator for CharByteIter<'a> {
             //   0x8F + 2 bytes -> JIS X 0212            (3)
             //   0xA1..=0xFE    -> JIS X 0208 lead       (2)
             //   otherwise (incl. 7-bit & malformed)     (1)
-            Encoding::EucJp => match self.bytes[self.pos] {
-                0x8e => 2,
-                0x8f => 3,
-                0xa1..=0xfe => 2,
-                _ => 1,
-            },
+            Encoding::EucJp => eucjp_char_width(&self.bytes[self.pos..]).unwrap_or(1),
             // Shift_JIS / CP932 (stateless): a double-byte character
             // is led by 0x81..=0x9F or 0xE0..=0xFC; single-byte
             // otherwise (ASCII, 0xA1..=0xDF half-width kana, and the
             // 0x80/0xA0/0xFD..=0xFF singletons).
-            Encoding::Sjis(_) => match self.bytes[self.pos] {
-                0x81..=0x9f | 0xe0..=0xfc => 2,
-                _ => 1,
-            },
+            Encoding::Sjis(_) => sjis_char_width(&self.bytes[self.pos..]).unwrap_or(1),
             Encoding::Utf16Le | Encoding::Utf16Be => 2,
             Encoding::Utf32Le | Encoding::Utf32Be => 4,
             Encoding::Utf8 => {
-- 
2.43.0


From 063b89a01b17896e86d938a4a4b86b1862e06747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:48 +0000
Subject: [PATCH 16/48] fix: round negative rationals past the half away from
 zero

Rational(-5, 3).round gave -1: for a negative number the quotient is already
truncated towards zero, so being past the half means one less, not the same.
---
 monoruby/src/value/rvalue/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index 0d8698c..f1d4447 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -273,7 +273,7 @@ impl RationalInner {
             let abs_doubled = doubled.abs();
             let abs_den = self.den.abs();
             let result = if abs_doubled > abs_den {
-                if self.num >= BigInt::ZERO { q + 1 } else { q }
+                if self.num >= BigInt::ZERO { q + 1 } else { q - 1 }
             } else if abs_doubled < abs_den {
                 if self.num >= BigInt::ZERO { q } else { q }
             } else {
-- 
2.43.0


From 34e4519e8e48a5a73848b2fa1fa0dfe9fb6563ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:48 +0000
Subject: [PATCH 17/48] fix: do not truncate a rational before floor and ceil
 to tens

Rational(-1, 2).floor(-1) gave 0 and Rational(1, 2).ceil(-1) gave 0, because
the fraction was dropped before rounding to the requested power of ten.
---
 monoruby/src/value/rvalue/rational.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index f1d4447..70fbfe2 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -206,8 +206,10 @@ impl RationalInner {
             RationalFloorResult::Rational(Self::new(floored, d))
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            RationalFloorResult::Integer(num::integer::Integer::div_floor(&i, &d) * &d)
+            let scaled_den = &self.den * &d;
+            RationalFloorResult::Integer(
+                num::integer::Integer::div_floor(&self.num, &scaled_den) * &d,
+            )
         }
     }
 
@@ -230,10 +232,10 @@ impl RationalInner {
             RationalFloorResult::Rational(Self::new(ceiled, d))
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            // ceil = -floor(-i, d)
-            let neg_i = -&i;
-            let floored = num::integer::Integer::div_floor(&neg_i, &d);
+            let scaled_den = &self.den * &d;
+            // ceil = -floor(-self)
+            let neg_num = -&self.num;
+            let floored = num::integer::Integer::div_floor(&neg_num, &scaled_den);
             RationalFloorResult::Integer(-floored * &d)
         }
     }
-- 
2.43.0


From 319f2edeb2914aa94dccfa603b8e86feed48b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:57 +0000
Subject: [PATCH 18/48] fix: round the rational itself when rounding to tens

Rational(11, 2).round(-1, half: :down) gave 0 instead of 10, because the
fraction was dropped first and 5 looked like an exact half.
---
 monoruby/src/value/rvalue/rational.rs | 39 ++++-----------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index 70fbfe2..00e6031 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -315,41 +315,12 @@ impl RationalInner {
             }
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            // Round the integer at the given digit position
-            let (q, r) = num::integer::Integer::div_rem(&i, &d);
-            let doubled = &r * BigInt::from(2);
-            let abs_doubled = doubled.abs();
-            let result = if abs_doubled > d.abs() {
-                if i >= BigInt::ZERO {
-                    (q + 1) * &d
-                } else {
-                    (q - 1) * &d
-                }
-            } else if abs_doubled < d.abs() {
-                q * &d
+            let scaled = Self::new(self.num.clone(), &self.den * &d);
+            if let RationalFloorResult::Integer(rounded) = scaled.rational_round(0, half) {
+                RationalFloorResult::Integer(rounded * &d)
             } else {
-                match half {
-                    Some(crate::value::RoundHalf::Down) => q * &d,
-                    Some(crate::value::RoundHalf::Even) => {
-                        if (&q % 2u32).is_zero() {
-                            q * &d
-                        } else if i >= BigInt::ZERO {
-                            (q + 1) * &d
-                        } else {
-                            (q - 1) * &d
-                        }
-                    }
-                    _ => {
-                        if i >= BigInt::ZERO {
-                            (q + 1) * &d
-                        } else {
-                            (q - 1) * &d
-                        }
-                    }
-                }
-            };
-            RationalFloorResult::Integer(result)
+                unreachable!()
+            }
         }
     }
 
-- 
2.43.0


From fd188d4edadb6c5ddac3f1d0251c614c96729db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:57 +0000
Subject: [PATCH 19/48] fix: return 0 from rationalize when the range reaches
 zero

0 within a tolerance of 0 divided by zero for ever, and a range with a negative
lower end was searched instead of answered with its simplest member.
---
 monoruby/src/value/rvalue/rational.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index 00e6031..fd7930e 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -365,15 +365,10 @@ impl RationalInner {
         let lo = value.sub(&eps_abs);
         let hi = value.add(&eps_abs);
         let zero = Self::new(0, 1);
-        // If range includes zero or is entirely negative, return 0
-        if hi.cmp(&zero) == std::cmp::Ordering::Less {
+        // If range includes zero, return 0
+        if lo.cmp(&zero) != std::cmp::Ordering::Greater {
             return zero;
         }
-        let lo = if lo.cmp(&zero) == std::cmp::Ordering::Less {
-            zero
-        } else {
-            lo
-        };
         let mut p0 = BigInt::from(0);
         let mut q0 = BigInt::from(1);
         let mut p1 = BigInt::from(1);
-- 
2.43.0


From c3f1cf78bc28929bcb69f2ec1a1d140c7ea5b8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:57 +0000
Subject: [PATCH 20/48] fix: compare Rational with Bignum in !=

Rational(2**64, 1) != 2**64 was true.
---
 monoruby/src/builtins/numeric/rational.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/builtins/numeric/rational.rs b/monoruby/src/builtins/numeric/rational.rs
index f8d34db..d028b0b 100644
--- a/monoruby/src/builtins/numeric/rational.rs
+++ b/monoruby/src/builtins/numeric/rational.rs
@@ -153,6 +153,9 @@ fn ne(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
         RV::Fixnum(i) => Ok(Value::bool(
             !(lhs.den() == &BigInt::from(1) && lhs.num() == &BigInt::from(i)),
         )),
+        RV::BigInt(b) => Ok(Value::bool(
+            !(lhs.den() == &BigInt::from(1) && lhs.num() == b),
+        )),
         RV::Float(f) => Ok(Value::bool(lhs.to_f() != f)),
         _ => Ok(Value::bool(true)),
     }
-- 
2.43.0


From fdaa7548896df21e8e9050acd674ee3cc00e5577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:57 +0000
Subject: [PATCH 21/48] fix: do not cut the exponent of a rational power to 32
 bits

Rational(2, 3) ** (2**32) gave 1.  Such a power is reported as too large, as
larger exponents already were.
---
 monoruby/src/builtins/numeric/rational.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/builtins/numeric/rational.rs b/monoruby/src/builtins/numeric/rational.rs
index d028b0b..8407571 100644
--- a/monoruby/src/builtins/numeric/rational.rs
+++ b/monoruby/src/builtins/numeric/rational.rs
@@ -421,6 +421,7 @@ fn pow(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
 /// Handles the Ruby 3.4+ behaviour of raising `ArgumentError` for very large
 /// exponents (|lhs| > 1), zero-base special cases, and pure integer exponents.
 fn pow_by_integer(lhs: &RationalInner, exp: &BigInt) -> Result<Value> {
+    use num::Signed;
     use num::ToPrimitive;
     use num::Zero;
     use num::bigint::Sign;
@@ -445,20 +446,18 @@ fn pow_by_integer(lhs: &RationalInner, exp: &BigInt) -> Result<Value> {
         let result = if is_even { 1 } else { -1 };
         return Ok(Value::rational(result, 1));
     }
-    // Exponent must fit in i64 for finite computation.
-    let exp_i64 = match exp.to_i64() {
+    // Exponent must fit in u32 for finite computation.
+    let e = match exp.abs().to_u32() {
         Some(n) => n,
         None => {
             return Err(MonorubyErr::argumenterr("exponent is too large"));
         }
     };
-    if exp_i64 >= 0 {
-        let e = exp_i64 as u32;
+    if exp.sign() == Sign::Plus {
         let n = lhs.num().pow(e);
         let d = lhs.den().pow(e);
         Ok(Value::rational(n, d))
     } else {
-        let e = (-exp_i64) as u32;
         let n = lhs.den().pow(e);
         let d = lhs.num().pow(e);
         Ok(Value::rational(n, d))
-- 
2.43.0


From 06c86877e230c2e7c64ce9935222cdd7dddbbce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:57 +0000
Subject: [PATCH 22/48] fix: read big integers in JSON exactly

JSON.parse("9223372036854775808") gave a Float.
---
 monoruby/src/builtins/json.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index aeb80df..776226f 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -262,8 +262,8 @@ impl<'a> Parser<'a> {
                 Ok(i) => Some(Value::integer(i)),
                 Err(_) => {
                     // BigInt fallback
-                    let f: f64 = num_str.parse().ok()?;
-                    Some(Value::float(f))
+                    let i: num::BigInt = num_str.parse().ok()?;
+                    Some(Value::bigint(i))
                 }
             }
         }
-- 
2.43.0


From 78478d3aee649aba0d65b5632b0ad729452702d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:26:07 +0000
Subject: [PATCH 23/48] fix: write big integers as numbers in JSON

JSON.generate(2**70) produced a string.
---
 monoruby/src/builtins/json.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index 776226f..ad6822c 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -370,6 +370,8 @@ fn generate(buf: &mut String, val: Value, store: &Store) {
         } else {
             buf.push_str(&dtoa::Buffer::new().format(f));
         }
+    } else if let RV::BigInt(b) = val.unpack() {
+        buf.push_str(&b.to_string());
     } else if let Some(s) = val.is_str() {
         generate_string(buf, s);
     } else if let Some(ary) = val.try_array_ty() {
-- 
2.43.0


From 9f192bfdf0b8be1c8bfe5d39c09db5819c25dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:26:07 +0000
Subject: [PATCH 24/48] fix: accept only hexadecimal digits in JSON \u escapes

A sign was taken as a digit: "\u+041" was read as "A".
---
 monoruby/src/builtins/json.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index ad6822c..c80eb79 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -202,6 +202,9 @@ impl<'a> Parser<'a> {
         }
         let hex = &self.src[self.pos..self.pos + 4];
         self.pos += 4;
+        if !hex.iter().all(u8::is_ascii_hexdigit) {
+            return None;
+        }
         let s = std::str::from_utf8(hex).ok()?;
         u32::from_str_radix(s, 16).ok()
     }
-- 
2.43.0


From 2f3190bfdeeec851b00b0bed0bb5857da4f990a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:26:07 +0000
Subject: [PATCH 25/48] fix: keep multi-byte characters after an unknown JSON
 escape

The first byte of the character was taken for a character of its own.
---
 monoruby/src/builtins/json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index c80eb79..6c5f329 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -161,7 +161,7 @@ impl<'a> Parser<'a> {
                         }
                         _ => {
                             s.push('\\');
-                            s.push(esc as char);
+                            self.pos -= 1; // may start a multi-byte character
                         }
                     }
                 }
-- 
2.43.0


From 2cab449ce3d8329f4bf70f16586744a8ebb42b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:26:07 +0000
Subject: [PATCH 26/48] fix: keep the escape after an unpaired JSON surrogate

"\uD83D\u0041" lost the A.
---
 monoruby/src/builtins/json.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index 6c5f329..91c9276 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -143,6 +143,7 @@ impl<'a> Parser<'a> {
                                 if self.src.get(self.pos) == Some(&b'\\')
                                     && self.src.get(self.pos + 1) == Some(&b'u')
                                 {
+                                    let low_pos = self.pos;
                                     self.pos += 2;
                                     let low = self.parse_unicode_escape()?;
                                     if (0xDC00..=0xDFFF).contains(&low) {
@@ -150,6 +151,8 @@ impl<'a> Parser<'a> {
                                             0x10000 + ((cp - 0xD800) << 10) + (low - 0xDC00);
                                         s.push(char::from_u32(combined)?);
                                     } else {
+                                        // not a pair: leave it to the next turn
+                                        self.pos = low_pos;
                                         s.push(char::REPLACEMENT_CHARACTER);
                                     }
                                 } else {
-- 
2.43.0


From 9a8c4b49b888eb1b6857c65e0ace3ff232244437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:26:07 +0000
Subject: [PATCH 27/48] fix: refuse JSON texts with something after the value

JSON.parse("1 2") gave 1, and JSON.parse("[1] garbage") gave [1].
---
 monoruby/src/builtins/json.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index 91c9276..cffcc12 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -11,7 +11,7 @@ fn json_parse(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     let src = lfp.arg(0).expect_string(globals)?;
     let mut parser = Parser::new(src.as_bytes());
     parser
-        .parse_value(vm, globals)
+        .parse_document(vm, globals)
         .ok_or_else(|| MonorubyErr::runtimeerr(parser.error_message()))
 }
 
@@ -90,6 +90,17 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// One value, and nothing but whitespace after it.
+    fn parse_document(&mut self, vm: &mut Executor, globals: &mut Globals) -> Option<Value> {
+        let val = self.parse_value(vm, globals)?;
+        self.skip_ws();
+        if self.pos < self.src.len() {
+            self.set_error(format!("unexpected token at position {}", self.pos));
+            return None;
+        }
+        Some(val)
+    }
+
     fn parse_value(&mut self, vm: &mut Executor, globals: &mut Globals) -> Option<Value> {
         self.skip_ws();
         match self.peek()? {
-- 
2.43.0


From 9db391dfb2b5ade915bcb6a6da32507dcb5043f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:13:56 +0000
Subject: [PATCH 28/48] fix: pad the hexadecimal form of infinities and NaN
 with spaces

---
 monoruby/src/executor/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 318f72d..c5d8360 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1636,7 +1636,7 @@ impl Executor {
                     } else {
                         ("", s.as_str())
                     };
-                    if zero_flag && !minus_flag && width > sign.len() + s.len() {
+                    if zero_flag && f.is_finite() && !minus_flag && width > sign.len() + s.len() {
                         let pad = width - sign.len() - pfx.len();
                         format!("{}{}{:0>w$}", sign, pfx, rest, w = pad)
                     } else {
-- 
2.43.0


From b9296ff2bdfeb424fc88f795fa56d36f5f0ffb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:13:56 +0000
Subject: [PATCH 29/48] fix: do not prefix octal digits that already start with
 a zero

---
 monoruby/src/executor/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index c5d8360..dd6a340 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1462,7 +1462,11 @@ impl Executor {
                     if is_neg {
                         if plus_flag || space_flag {
                             let digits = apply_int_precision(&abs_digits, precision);
-                            let prefix = if hash_flag { "0" } else { "" };
+                            let prefix = if hash_flag && !digits.starts_with('0') {
+                                "0"
+                            } else {
+                                ""
+                            };
                             format_int_with_prefix(
                                 true, &digits, prefix, width, zero_flag, minus_flag,
                                 plus_flag, space_flag,
-- 
2.43.0


From fe1540793871355f3fc6d7459d3138ed5109d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:13:56 +0000
Subject: [PATCH 30/48] fix: give a zero no radix prefix whatever its precision

---
 monoruby/src/executor/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index dd6a340..cf7bd20 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1433,7 +1433,7 @@ impl Executor {
                         // `apply_int_precision("0", Some(0))` is "" — so an
                         // empty result is also "zero", and the `#` prefix is
                         // suppressed (`"%#.0b" % 0 == ""`).
-                        let is_zero = digits.is_empty() || digits == "0";
+                        let is_zero = digits.bytes().all(|b| b == b'0');
                         let prefix = if hash_flag && !is_zero {
                             if ch == 'B' { "0B" } else { "0b" }
                         } else {
@@ -1545,7 +1545,7 @@ impl Executor {
                         // See the `%b` branch: precision 0 with value 0 gives
                         // "", which is still "zero" and suppresses the prefix
                         // (`"%#.0x" % 0 == ""`).
-                        let is_zero = digits.is_empty() || digits == "0";
+                        let is_zero = digits.bytes().all(|b| b == b'0');
                         let prefix = if hash_flag && !is_zero {
                             if upper { "0X" } else { "0x" }
                         } else {
-- 
2.43.0


From 867c1e49d2e5c08a36767f66c88a3c555654bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:13:56 +0000
Subject: [PATCH 31/48] fix: ignore the zero flag of an integer directive with
 a precision

---
 monoruby/src/executor/format.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index cf7bd20..b0cc411 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1313,6 +1313,12 @@ impl Executor {
                 v
             };
             i += 1; // consume the specifier character
+            // The `0` flag of an integer is ignored when a precision is given.
+            if precision.is_some()
+                && matches!(ch, 'd' | 'i' | 'u' | 'b' | 'B' | 'o' | 'x' | 'X')
+            {
+                zero_flag = false;
+            }
             // Specifier
             let format = match ch {
                 'c' => {
-- 
2.43.0


From 31e2a683c8bdf5fb3024df46451099c8e0b99a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:13:56 +0000
Subject: [PATCH 32/48] fix: do not overflow on a huge argument number in a
 format

---
 monoruby/src/executor/format.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index b0cc411..345b9ae 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -921,7 +921,9 @@ impl Executor {
                 if j < flen && fchars[j] == '$' {
                     let mut num = 0usize;
                     for &c in &fchars[start..j] {
-                        num = num * 10 + (c as usize) - ('0' as usize);
+                        num = num
+                            .saturating_mul(10)
+                            .saturating_add(c as usize - '0' as usize);
                     }
                     *pos = j + 1;
                     Some(num)
-- 
2.43.0


From 2020fd7d04e817b00abf638bbe316a3d51d047ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:13:56 +0000
Subject: [PATCH 33/48] fix: carry a rounded hexadecimal mantissa into its
 leading digit

---
 monoruby/src/executor/format.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 345b9ae..2e1c6a6 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -431,7 +431,8 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
                     prefix, leading, padded, p_char, exp_sign, exp_abs
                 )
             } else {
-                let rounded = round_hex_mantissa(&full_hex, prec, uppercase);
+                let (rounded, carry) = round_hex_mantissa(&full_hex, prec, uppercase);
+                let leading = if carry { '2' } else { leading };
                 format!(
                     "{}{}.{}{}{}{}",
                     prefix, leading, rounded, p_char, exp_sign, exp_abs
@@ -453,18 +454,19 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
 }
 
 /// Round a hex mantissa string to the given number of hex digits.
-fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> String {
+/// The flag tells whether a carry goes into the leading digit.
+fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> (String, bool) {
     let hex_bytes: Vec<u8> = hex.bytes().collect();
     if prec >= hex_bytes.len() {
-        return hex.to_string();
+        return (hex.to_string(), false);
     }
     let round_digit = hex_digit_val(hex_bytes[prec]);
     let mut digits: Vec<u8> = hex_bytes[..prec]
         .iter()
         .map(|&b| hex_digit_val(b))
         .collect();
-    if round_digit >= 8 {
-        let mut carry = true;
+    let mut carry = round_digit >= 8;
+    if carry {
         for d in digits.iter_mut().rev() {
             if carry {
                 *d += 1;
@@ -476,7 +478,7 @@ fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> String {
             }
         }
     }
-    digits
+    let digits = digits
         .iter()
         .map(|&d| {
             if d < 10 {
@@ -487,7 +489,8 @@ fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> String {
                 (b'a' + d - 10) as char
             }
         })
-        .collect()
+        .collect();
+    (digits, carry)
 }
 
 fn hex_digit_val(b: u8) -> u8 {
-- 
2.43.0


From a8865bff2387816d30a837f6c44dd266f40c4c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:13:56 +0000
Subject: [PATCH 34/48] fix: count characters, not bytes, when padding
 formatted text

---
 monoruby/src/executor/format.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 2e1c6a6..78e6372 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -285,10 +285,11 @@ fn apply_int_precision(s: &str, precision: Option<usize>) -> String {
 
 /// Apply width padding to a string, with left or right alignment.
 fn apply_width(s: &str, width: usize, left_align: bool, pad: char) -> String {
-    if s.len() >= width {
+    let len = s.chars().count();
+    if len >= width {
         return s.to_string();
     }
-    let padding: String = std::iter::repeat(pad).take(width - s.len()).collect();
+    let padding: String = std::iter::repeat(pad).take(width - len).collect();
     if left_align {
         format!("{}{}", s, padding)
     } else {
-- 
2.43.0


From edc3550bc887f22570ead9efb0ca457c07c6f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:15:23 +0000
Subject: [PATCH 35/48] fix: let == shorten the array during Array#delete

---
 monoruby/src/builtins/array.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 81804db..9c51c1a 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -4650,11 +4650,14 @@ fn delete(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     let mut ary = recv.as_array();
     let arg0 = lfp.arg(0);
     let mut has_match = false;
-    for i in 0..ary.len() {
+    let mut i = 0;
+    // `==` may shorten the array.
+    while i < ary.len() {
         if vm.eq_values_bool(globals, ary[i], arg0)? {
             has_match = true;
             break;
         }
+        i += 1;
     }
     if !has_match {
         return if let Some(bh) = lfp.block() {
-- 
2.43.0


From e48aa5acc92c000ad9013c3ff3ec5540f8aa52c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:15:23 +0000
Subject: [PATCH 36/48] fix: return nil from slice! for a range that starts
 beyond the array

---
 monoruby/src/builtins/array.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 9c51c1a..594608c 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -3978,6 +3978,9 @@ fn slice_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 None => return Ok(Value::nil()),
             }
         };
+        if start > ary.len() {
+            return Ok(Value::nil());
+        }
         // nil end means array length (endless range)
         let end = if range.end().is_nil() {
             ary.len().saturating_sub(1)
-- 
2.43.0


From 410d8d45238c8ccb83b7f3eed7f674cf3271e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:15:23 +0000
Subject: [PATCH 37/48] fix: let transpose compare the sizes of all rows

---
 monoruby/src/builtins/array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 594608c..bac58a0 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -3546,13 +3546,13 @@ fn transpose(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
         .map(|v| coerce_to_array_for_transpose(vm, globals, *v))
         .collect::<Result<_>>()?;
     let len = rows[0].len();
+    if rows.iter().any(|row| row.len() != len) {
+        return Err(MonorubyErr::indexerr("Element size differs."));
+    }
     let mut trans = Array::new_empty();
     for i in 0..len {
         let mut temp = Array::new_empty();
         for row in &rows {
-            if row.len() != len {
-                return Err(MonorubyErr::indexerr("Element size differs."));
-            }
             temp.push(row[i]);
         }
         trans.push(temp.into());
-- 
2.43.0


From c9e1e69e2ba607925015a2dc31d7dba973b79c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:15:23 +0000
Subject: [PATCH 38/48] fix: let the block of a filtering method shorten the
 array

---
 monoruby/src/builtins/array.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index bac58a0..c25f3aa 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -2892,8 +2892,10 @@ fn retain_with_block(
                     if del > 0 {
                         // Re-read ary in case the block mutated it.
                         let mut ary = self_val.as_array();
-                        let val = ary[i];
-                        ary[i - del] = val;
+                        if i < ary.len() {
+                            let val = ary[i];
+                            ary[i - del] = val;
+                        }
                     }
                 } else {
                     del += 1;
@@ -2910,7 +2912,7 @@ fn retain_with_block(
                         let v = ary[j];
                         ary[j - del] = v;
                     }
-                    ary.truncate(len - del);
+                    ary.truncate(i - del + len.saturating_sub(i));
                 }
                 return Err(e);
             }
@@ -2918,8 +2920,7 @@ fn retain_with_block(
     }
     if del > 0 {
         let mut ary = self_val.as_array();
-        let new_len = ary.len() - del;
-        ary.truncate(new_len);
+        ary.truncate(i - del);
         Ok(true)
     } else {
         Ok(false)
-- 
2.43.0


From b72d705854d74676dbaa8d2f3397647c7f5aacbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:15:23 +0000
Subject: [PATCH 39/48] fix: let the block of Array#fill shorten the array

---
 monoruby/src/builtins/array.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index c25f3aa..6a5ae5e 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1627,6 +1627,10 @@ fn fill(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
         }
         for i in start..end_idx {
             let val = vm.invoke_block(globals, &data, &[Value::integer(i as i64)])?;
+            // The block may have shortened the array.
+            if i >= ary.len() {
+                break;
+            }
             ary[i] = val;
         }
     } else {
-- 
2.43.0


From 42908127b6e56acfc5e3db864b16fc505dbd1c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:15:23 +0000
Subject: [PATCH 40/48] fix: keep Array#delete in bounds when the array shrinks

---
 monoruby/src/value/rvalue/array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/value/rvalue/array.rs b/monoruby/src/value/rvalue/array.rs
index c5f8dea..f669eb2 100644
--- a/monoruby/src/value/rvalue/array.rs
+++ b/monoruby/src/value/rvalue/array.rs
@@ -265,14 +265,14 @@ impl ArrayInner {
             if !f(&val)? {
                 removed = Some(val);
                 del += 1;
-            } else if del > 0 {
+            } else if del > 0 && i < self.len() {
+                // `f` may have shortened the array.
                 self.0.swap(i - del, i);
             }
             i += 1;
         }
         if del > 0 {
-            let len = self.len();
-            self.truncate(len - del);
+            self.truncate(i - del);
         }
         Ok(removed)
     }
-- 
2.43.0


From 1126e01212ddf1caccb5a93d3631da2983640793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:15:23 +0000
Subject: [PATCH 41/48] fix: raise IndexError for positions no array can have

---
 monoruby/src/builtins/array.rs     |  3 +++
 monoruby/src/value/rvalue/array.rs | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 6a5ae5e..58a2925 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -4785,6 +4785,9 @@ fn insert(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         nth as usize
     };
     if nth >= ary.len() {
+        if nth >= ARRAY_MAX_SIZE - val.len() {
+            return Err(MonorubyErr::indexerr(format!("index {} too big", nth)));
+        }
         ary.resize(nth, Value::nil());
     }
     ary.insert_many(nth, val.iter().cloned());
diff --git a/monoruby/src/value/rvalue/array.rs b/monoruby/src/value/rvalue/array.rs
index f669eb2..98a7088 100644
--- a/monoruby/src/value/rvalue/array.rs
+++ b/monoruby/src/value/rvalue/array.rs
@@ -5,6 +5,9 @@ use smallvec::smallvec;
 
 pub const ARRAY_INLINE_CAPA: usize = 5;
 
+/// The largest number of elements of an array.
+pub(crate) const ARRAY_MAX_SIZE: usize = isize::MAX as usize / std::mem::size_of::<Value>();
+
 #[monoruby_object(write_barrier)]
 pub struct Array(Value);
 
@@ -325,6 +328,9 @@ impl ArrayInner {
                 Some(v) => *v = src,
                 None => {
                     let idx = idx as usize;
+                    if idx >= ARRAY_MAX_SIZE {
+                        return Err(MonorubyErr::indexerr(format!("index {} too big", idx)));
+                    }
                     self.resize(idx, Value::nil());
                     self.push(src);
                 }
@@ -340,6 +346,10 @@ impl ArrayInner {
 
     pub(crate) fn set_index2(&mut self, index: usize, length: usize, val: Value) -> Result<Value> {
         let len = self.len();
+        let new_len = val.try_array_ty().map_or(1, |ary| ary.len());
+        if index >= ARRAY_MAX_SIZE - new_len {
+            return Err(MonorubyErr::indexerr(format!("index {} too big", index)));
+        }
         match val.try_array_ty() {
             Some(ary) => {
                 let is_self = std::ptr::eq((*ary).as_ptr(), self.as_ptr());
-- 
2.43.0


From bee73dc22e5dba9c294de7eee9738c852ba9f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:42 +0000
Subject: [PATCH 42/48] fix: refuse digit counts beyond 32 bits in
 Integer#floor and its kin

---
 monoruby/src/builtins/numeric/integer.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/numeric/integer.rs b/monoruby/src/builtins/numeric/integer.rs
index e5cb076..e08f278 100644
--- a/monoruby/src/builtins/numeric/integer.rs
+++ b/monoruby/src/builtins/numeric/integer.rs
@@ -1596,6 +1596,17 @@ fn self_to_bigint(lfp: Lfp) -> BigInt {
     }
 }
 
+/// The number of digits left of the point that a negative *ndigits* stands for.
+fn left_digits(ndigits: i64) -> Result<u32> {
+    match i32::try_from(ndigits) {
+        Ok(n) => Ok(n.unsigned_abs()),
+        Err(_) => Err(MonorubyErr::rangeerr(format!(
+            "integer {} too small to convert to `int'",
+            ndigits
+        ))),
+    }
+}
+
 /// Compute 10^n as BigInt.
 fn pow10(n: u32) -> BigInt {
     BigInt::from(10u64).pow(n)
@@ -1617,7 +1628,7 @@ fn int_floor(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     if ndigits >= 0 {
         return Ok(lfp.self_val());
     }
-    let neg = (-ndigits) as u32;
+    let neg = left_digits(ndigits)?;
     let d = pow10(neg);
     let val = self_to_bigint(lfp);
     // Ruby integer division floors toward negative infinity.
@@ -1641,7 +1652,7 @@ fn int_ceil(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     if ndigits >= 0 {
         return Ok(lfp.self_val());
     }
-    let neg = (-ndigits) as u32;
+    let neg = left_digits(ndigits)?;
     let d = pow10(neg);
     let val = self_to_bigint(lfp);
     let quot = num::integer::div_ceil(val, d.clone());
@@ -1669,7 +1680,7 @@ fn int_truncate(
     if ndigits >= 0 {
         return Ok(lfp.self_val());
     }
-    let neg = (-ndigits) as u32;
+    let neg = left_digits(ndigits)?;
     let d = pow10(neg);
     let val = self_to_bigint(lfp);
     // Truncate toward zero.
-- 
2.43.0


From 44cc373d8e4331c967f30b1a66fa6716d492e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:42 +0000
Subject: [PATCH 43/48] fix: reduce the zeroth modular power

---
 monoruby/src/builtins/numeric/integer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/numeric/integer.rs b/monoruby/src/builtins/numeric/integer.rs
index e08f278..500d35a 100644
--- a/monoruby/src/builtins/numeric/integer.rs
+++ b/monoruby/src/builtins/numeric/integer.rs
@@ -1560,7 +1560,7 @@ fn pow(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         };
         let mod_big = BigInt::from(mod_i.abs());
         let mut base = base_big % &mod_big;
-        let mut result = BigInt::from(1);
+        let mut result = BigInt::from(1) % &mod_big;
         let mut e = exp_i as u64;
         while e > 0 {
             if e & 1 == 1 {
-- 
2.43.0


From 21c659cbc7d00831c82bcd6da5541fa5d1ec28e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:42 +0000
Subject: [PATCH 44/48] fix: keep all bits of Integer#[] with a length of 63 or
 more

---
 monoruby/src/builtins/numeric/integer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/numeric/integer.rs b/monoruby/src/builtins/numeric/integer.rs
index 500d35a..e399b67 100644
--- a/monoruby/src/builtins/numeric/integer.rs
+++ b/monoruby/src/builtins/numeric/integer.rs
@@ -1368,7 +1368,7 @@ fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 if nth < 0 {
                     // Negative nth: shift left by |nth|, then mask
                     let shifted = BigInt::from(base) << (-nth) as usize;
-                    let mask = if len >= 64 {
+                    let mask = if len >= 63 {
                         (BigInt::from(1) << len as usize) - 1
                     } else {
                         BigInt::from((1i64 << len) - 1)
@@ -1380,8 +1380,14 @@ fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 } else {
                     base >> nth
                 };
-                let mask = if len >= 64 { -1i64 } else { (1i64 << len) - 1 };
-                Ok(Value::integer(shifted & mask))
+                if len < 63 {
+                    Ok(Value::integer(shifted & ((1i64 << len) - 1)))
+                } else if shifted >= 0 {
+                    Ok(Value::integer(shifted))
+                } else {
+                    let mask = (BigInt::from(1) << len as usize) - 1;
+                    Ok(Value::bigint(BigInt::from(shifted) & mask))
+                }
             }
             RV::BigInt(base) => {
                 let shifted = if nth >= 0 {
-- 
2.43.0


From 20bc73653b83b9dda36097eefcb9e659831af5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:42 +0000
Subject: [PATCH 45/48] fix: refuse digit counts beyond 32 bits in Float#round

---
 monoruby/src/builtins/numeric/float.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index 4a29117..c82a507 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -834,7 +834,8 @@ fn round(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         let f = round_half(scaled, effective_half) / mul;
         Ok(Value::float(f))
     } else {
-        let neg_ndigits = (-ndigits) as u32;
+        let neg_ndigits = u32::try_from(ndigits.unsigned_abs())
+            .map_err(|_| MonorubyErr::rangeerr("too small to convert to u32"))?;
         if neg_ndigits > 308 {
             return Ok(Value::integer(0));
         }
-- 
2.43.0


From 5a1f25ee0df987f11107d4f616790d61d64264df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:42 +0000
Subject: [PATCH 46/48] fix: truncate large floats exactly to digits left of
 the point

---
 monoruby/src/builtins/numeric/float.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index c82a507..b04a73d 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -746,18 +746,19 @@ fn truncate(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
             Err(MonorubyErr::rangeerr("too big to convert to u32"))
         }
     } else {
-        if let Ok(neg_ndigits) = u32::try_from(-ndigits) {
-            let mul = 10f64.powi(neg_ndigits as i32);
-            let f = (f / mul).trunc() * mul;
-            if let Some(v) = Value::integer_from_f64(f) {
-                return Ok(v);
-            } else {
-                return Err(MonorubyErr::rangeerr(format!(
-                    "[unreachable] invalid f64: {f}"
-                )));
-            }
+        let neg_ndigits = u32::try_from(ndigits.unsigned_abs())
+            .map_err(|_| MonorubyErr::rangeerr("too small to convert to u32"))?;
+        if neg_ndigits > 308 {
+            return Ok(Value::integer(0));
         }
-        Err(MonorubyErr::rangeerr("too small to convert to u32"))
+        // Use BigInt to avoid precision loss from float division.
+        let int_val = match BigInt::from_f64(f.trunc()) {
+            Some(v) => v,
+            None => return Ok(Value::integer(0)),
+        };
+        let mul_big = BigInt::from(10u64).pow(neg_ndigits);
+        let (quot, _) = num::integer::div_rem(int_val, mul_big.clone());
+        Ok(Value::bigint(quot * mul_big))
     }
 }
 
-- 
2.43.0


From 75073cc53d546bc7b4049b6f4a91f12bd158d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:42 +0000
Subject: [PATCH 47/48] fix: round small floats down and up to far digits left
 of the point

---
 monoruby/src/builtins/numeric/float.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index b04a73d..464561a 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -622,8 +622,9 @@ fn floor(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
             Err(MonorubyErr::rangeerr("too big to convert to u32"))
         }
     } else {
-        let neg_ndigits = (-ndigits) as u32;
-        if neg_ndigits > 308 {
+        let neg_ndigits = u32::try_from(ndigits.unsigned_abs())
+            .map_err(|_| MonorubyErr::rangeerr("too small to convert to u32"))?;
+        if neg_ndigits > 308 && f >= 0.0 {
             return Ok(Value::integer(0));
         }
         // Use BigInt to avoid precision loss from float division.
@@ -684,8 +685,9 @@ fn ceil(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             Err(MonorubyErr::rangeerr("too big to convert to u32"))
         }
     } else {
-        let neg_ndigits = (-ndigits) as u32;
-        if neg_ndigits > 308 {
+        let neg_ndigits = u32::try_from(ndigits.unsigned_abs())
+            .map_err(|_| MonorubyErr::rangeerr("too small to convert to u32"))?;
+        if neg_ndigits > 308 && f <= 0.0 {
             return Ok(Value::integer(0));
         }
         // Use BigInt to avoid precision loss from float division.
-- 
2.43.0


From 5ac79281d4663cd8c9194eacd2a63af4d1ca2e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:42 +0000
Subject: [PATCH 48/48] fix: keep a float that has no digits at the requested
 place

---
 monoruby/src/builtins/numeric/float.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index 464561a..2730c4c 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -615,7 +615,11 @@ fn floor(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     }
     if ndigits > 0 {
         if let Ok(ndigits) = u32::try_from(ndigits) {
-            let mul = 10f64.powi(ndigits as i32);
+            let mul = 10f64.powi(i32::try_from(ndigits).unwrap_or(i32::MAX));
+            if !(f * mul).is_finite() {
+                // f has no digits there.
+                return Ok(Value::float(f));
+            }
             let f = (f * mul).floor() / mul;
             Ok(Value::float(f))
         } else {
@@ -678,7 +682,11 @@ fn ceil(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
     }
     if ndigits > 0 {
         if let Ok(ndigits) = u32::try_from(ndigits) {
-            let mul = 10f64.powi(ndigits as i32);
+            let mul = 10f64.powi(i32::try_from(ndigits).unwrap_or(i32::MAX));
+            if !(f * mul).is_finite() {
+                // f has no digits there.
+                return Ok(Value::float(f));
+            }
             let f = (f * mul).ceil() / mul;
             Ok(Value::float(f))
         } else {
@@ -741,7 +749,11 @@ fn truncate(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     }
     if ndigits > 0 {
         if let Ok(ndigits) = u32::try_from(ndigits) {
-            let mul = 10f64.powi(ndigits as i32);
+            let mul = 10f64.powi(i32::try_from(ndigits).unwrap_or(i32::MAX));
+            if !(f * mul).is_finite() {
+                // f has no digits there.
+                return Ok(Value::float(f));
+            }
             let f = (f * mul).trunc() / mul;
             Ok(Value::float(f))
         } else {
-- 
2.43.0

