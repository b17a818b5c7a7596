From 29fde8c759cff77ea9da6f85db61640559b9b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:29 +0000
Subject: [PATCH 1/5] fix: leave the input slice untouched when
 DerRef/BerRef::parse fails

The documentation says `bytes` is not updated on failure, but the parsers
advanced it past the octets read before the error was found.
---
 bsn1/src/ber_ref.rs | 6 ++++--
 bsn1/src/der_ref.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bsn1/src/ber_ref.rs b/bsn1/src/ber_ref.rs
index 6dce192..e47d423 100644
--- a/bsn1/src/ber_ref.rs
+++ b/bsn1/src/ber_ref.rs
@@ -87,14 +87,16 @@ impl BerRef {
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
         let init_bytes = *bytes;
+        let mut readable = init_bytes;
         let mut stack_depth: isize = 0;
 
         while {
-            stack_depth += Self::do_parse(bytes)? as isize;
+            stack_depth += Self::do_parse(&mut readable)? as isize;
             stack_depth > 0
         } {}
 
-        let total_len = init_bytes.len() - bytes.len();
+        let total_len = init_bytes.len() - readable.len();
+        *bytes = readable;
         unsafe { Ok(Self::from_bytes_unchecked(&init_bytes[..total_len])) }
     }
 
diff --git a/bsn1/src/der_ref.rs b/bsn1/src/der_ref.rs
index 35fdacd..b84fb92 100644
--- a/bsn1/src/der_ref.rs
+++ b/bsn1/src/der_ref.rs
@@ -92,10 +92,12 @@ impl DerRef {
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
         let init_bytes = *bytes;
-        Self::do_parse(bytes)?;
+        let mut readable = init_bytes;
+        Self::do_parse(&mut readable)?;
 
-        let total_len = init_bytes.len() - bytes.len();
+        let total_len = init_bytes.len() - readable.len();
         let read = &init_bytes[..total_len];
+        *bytes = readable;
         unsafe { Ok(Self::from_bytes_unchecked(read)) }
     }
 
-- 
2.43.0


From 699cf3995dd6fe4a35168ea2fd122fc293e1169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:29 +0000
Subject: [PATCH 2/5] fix: reject indefinite length for primitive types

`Length::Indefinite` never compares equal to itself, so the checks in the
deserializers of bool, integers and String never fired. Indefinite-length
input hit a debug assertion, or was accepted in release builds.
---
 bsn1_serde/src/de/mod.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index fbca7bd..53dae5f 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -41,7 +41,7 @@ impl Deserialize for bool {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::boolean() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -60,7 +60,7 @@ impl Deserialize for bool {
 
 impl Deserialize for i8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -79,7 +79,7 @@ impl Deserialize for i8 {
 
 impl Deserialize for u8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -98,7 +98,7 @@ impl Deserialize for u8 {
 
 impl Deserialize for i16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -117,7 +117,7 @@ impl Deserialize for i16 {
 
 impl Deserialize for u16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -136,7 +136,7 @@ impl Deserialize for u16 {
 
 impl Deserialize for i32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -155,7 +155,7 @@ impl Deserialize for i32 {
 
 impl Deserialize for u32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -174,7 +174,7 @@ impl Deserialize for u32 {
 
 impl Deserialize for i64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -193,7 +193,7 @@ impl Deserialize for i64 {
 
 impl Deserialize for u64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -212,7 +212,7 @@ impl Deserialize for u64 {
 
 impl Deserialize for i128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -231,7 +231,7 @@ impl Deserialize for i128 {
 
 impl Deserialize for u128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -250,7 +250,7 @@ impl Deserialize for u128 {
 
 impl Deserialize for isize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -269,7 +269,7 @@ impl Deserialize for isize {
 
 impl Deserialize for usize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -290,7 +290,7 @@ impl Deserialize for String {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::utf8_string() && id != IdRef::utf8_string_constructed() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
-- 
2.43.0


From 766495fe3cc6f68a83405e19adeb45323a0e3689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:29 +0000
Subject: [PATCH 3/5] fix: report unknown contents length of HashMap with
 unsized keys

A key whose serialized length is not known in advance was left out of the
sum, so the length octets of the serialized map were too small.
---
 bsn1_serde/src/ser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bsn1_serde/src/ser/mod.rs b/bsn1_serde/src/ser/mod.rs
index b0e1d74..660007f 100644
--- a/bsn1_serde/src/ser/mod.rs
+++ b/bsn1_serde/src/ser/mod.rs
@@ -654,6 +654,8 @@ where
                 } else {
                     return Ok(None);
                 }
+            } else {
+                return Ok(None);
             }
         }
         Ok(Some(ret))
-- 
2.43.0


From d3296f7d10f975152f682db4c65bc899c6caeb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:58 +0000
Subject: [PATCH 4/5] fix: accept indefinite-length key-value pairs in BER maps

The end-of-contents octets of the pair were taken for extra octets.
---
 bsn1_serde/src/de/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index 53dae5f..39c3d9d 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -734,7 +734,7 @@ impl DeserializeHelper<'_> {
                 )));
             }
 
-            let mut pair_contents: &[u8] = pair.contents().as_ref();
+            let mut pair_contents: &[u8] = exclude_eoc(pair.length(), pair.contents())?.as_ref();
             let key = BerRef::parse(&mut pair_contents).map_err(|err| {
                 err.context(format!(
                     "Failed to parse BER of the key at index {}",
-- 
2.43.0


From 068da8f12abe3595ff03efa73ea87dc5eae477b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:58 +0000
Subject: [PATCH 5/5] fix: read contents from streams completely and in bounded
 steps

Der::parse called `read` only once, so it failed for a reader that returns
fewer octets than asked for, such as a socket. Both Der::parse and
Ber::parse allocated the declared length before reading, so a few hostile
octets caused a panic or a huge allocation.
---
 bsn1/src/ber.rs  |  7 +------
 bsn1/src/der.rs  | 20 +++++---------------
 bsn1/src/misc.rs | 31 ++++++++++++++++++++++++++++++-
 3 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index f0c7194..89b726c 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -323,12 +323,7 @@ impl Ber {
 
         match unsafe { crate::misc::parse_id_length(readable, writeable)? } {
             Length::Definite(length) => {
-                writeable.reserve(length);
-                let current_len = writeable.len();
-                unsafe { writeable.set_len(current_len + length) };
-
-                let buffer = &mut writeable.as_mut_slice()[current_len..];
-                readable.read_exact(buffer).map_err(Error::from)?;
+                crate::misc::read_contents(readable, writeable, length).map_err(Error::from)?;
 
                 let read = &(writeable.as_slice()[init_len..]);
                 if read == BerRef::eoc().as_ref() {
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 584cebb..6528fbf 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -178,22 +178,12 @@ impl Der {
                 Length::Definite(length) => length,
             };
 
-        let id_length_len = writeable.len();
-        let total_length = id_length_len + contents_length;
-
-        writeable.reserve(contents_length);
-        unsafe { writeable.set_len(total_length) };
-
-        let buffer = &mut writeable.as_mut_slice()[id_length_len..];
-        match readable.read(buffer) {
-            Err(e) => Err(e.into()),
-            Ok(read) => {
-                if read < contents_length {
-                    Err(Error::UnterminatedBytes)
-                } else {
-                    Ok(Self { buffer: writeable })
-                }
+        match crate::misc::read_contents(readable, &mut writeable, contents_length) {
+            Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => {
+                Err(Error::UnterminatedBytes)
             }
+            Err(e) => Err(e.into()),
+            Ok(()) => Ok(Self { buffer: writeable }),
         }
     }
 
diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index 1e5f817..95349a9 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -14,7 +14,7 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
-use crate::{Error, Length};
+use crate::{Buffer, Error, Length};
 use std::io::{Read, Write};
 
 /// Tries to read one byte from `readable`.
@@ -64,3 +64,32 @@ where
     let _ = crate::identifier_ref::parse_id(readable, writeable)?;
     crate::length::parse_length(readable, writeable)
 }
+
+/// Reads just `length` octets from `readable`, and appends them to `writeable`.
+///
+/// `writeable` grows step by step, so that a broken `length` makes this function fail at the end
+/// of `readable` instead of allocating too much memory.
+pub fn read_contents<R>(
+    readable: &mut R,
+    writeable: &mut Buffer,
+    length: usize,
+) -> std::io::Result<()>
+where
+    R: ?Sized + Read,
+{
+    const MIN_STEP: usize = 4096;
+
+    let mut rest = length;
+    while 0 < rest {
+        let init_len = writeable.len();
+        let step = rest.min(init_len.max(MIN_STEP));
+
+        writeable.reserve(step);
+        unsafe { writeable.set_len(init_len + step) };
+        readable.read_exact(&mut writeable.as_mut_slice()[init_len..])?;
+
+        rest -= step;
+    }
+
+    Ok(())
+}
-- 
2.43.0

