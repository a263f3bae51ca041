From a66b032889344a22fa33d7b2d4629950220c1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 01/37] fix: reject compressed integers longer than five bytes
 instead of overflowing the shift

---
 libs/common/src/io.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/common/src/io.rs b/libs/common/src/io.rs
index b670c90..c9809ae 100644
--- a/libs/common/src/io.rs
+++ b/libs/common/src/io.rs
@@ -50,6 +50,12 @@ impl<T: Read> ReadExt for T {
         let mut result: u32 = 0;
         for (i, byte) in self.bytes().enumerate() {
             let b: u32 = byte?.into();
+            if i > 4 {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "compressed integer is too long",
+                ));
+            }
             result |= (b & 0x7f) << (i * 7);
             if b < 0x80 {
                 break;
-- 
2.43.0


From ac7f45d0d909007e44bdd83b56305981c2d4663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 02/37] fix: recompute the checksum of archives without a
 properties section without its terminator

---
 libs/pbo/src/read.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 2090b8d..1905e0f 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -192,7 +192,9 @@ impl<I: Seek + Read> ReadablePbo<I> {
             headers.write_cstring(value.as_bytes())?;
         }
 
-        headers.write_all(&[0])?;
+        if self.vers_header.is_some() {
+            headers.write_all(&[0])?;
+        }
 
         for header in &self.files_sorted() {
             header.write_pbo(&mut headers)?;
-- 
2.43.0


From 2c0b880c96e4ff65f7cefef6f7f30bf943cc6754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 03/37] fix: order files whose names differ only in case,
 instead of following the hash table

---
 libs/pbo/src/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/pbo/src/write.rs b/libs/pbo/src/write.rs
index fcfe538..498a863 100644
--- a/libs/pbo/src/write.rs
+++ b/libs/pbo/src/write.rs
@@ -91,6 +91,7 @@ impl<I: Seek + Read> WritablePbo<I> {
             a.filename()
                 .to_lowercase()
                 .cmp(&b.filename().to_lowercase())
+                .then_with(|| a.filename().cmp(b.filename()))
         });
         sorted
     }
-- 
2.43.0


From b6ec2936f7ea72953cf5a10cb5154302151156eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 04/37] fix: do not truncate the length of read buffers of 4
 GiB and more

---
 libs/pbo/src/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/pbo/src/file.rs b/libs/pbo/src/file.rs
index 50285e2..216ce01 100644
--- a/libs/pbo/src/file.rs
+++ b/libs/pbo/src/file.rs
@@ -25,8 +25,8 @@ impl<'a, I: Read> File<'a, I> {
 impl<I: Read> Read for File<'_, I> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         // read up to the size of the file
-        let size = std::cmp::min(self.size - self.read, buf.len() as u32);
-        let read = self.input.read(&mut buf[..size as usize])?;
+        let size = std::cmp::min((self.size - self.read) as usize, buf.len());
+        let read = self.input.read(&mut buf[..size])?;
         self.read += read as u32;
         Ok(read)
     }
-- 
2.43.0


From fb9b4c0d9f3399ce3b05d63613d7a66d44170f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 05/37] fix: find archive entries whose stored name contains
 forward slashes

---
 libs/pbo/src/read.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 1905e0f..e1aca69 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -77,7 +77,7 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn header(&self, name: &str) -> Option<&Header> {
         self.headers
             .iter()
-            .find(|h| h.filename() == name.replace('/', "\\"))
+            .find(|h| h.filename().replace('/', "\\") == name.replace('/', "\\"))
     }
 
     /// Get the PBO's properties
@@ -113,7 +113,9 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn file(&mut self, name: &str) -> Result<Option<File<I>>, Error> {
         self.input.seek(SeekFrom::Start(self.blob_start))?;
         for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+            if header.filename().replace('/', "\\").to_lowercase()
+                == name.replace('/', "\\").to_lowercase()
+            {
                 return Ok(Some(File::new(header, &mut self.input)));
             }
             self.input
@@ -129,7 +131,9 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn file_offset(&self, name: &str) -> Result<Option<u64>, Error> {
         let mut offset = self.blob_start;
         for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+            if header.filename().replace('/', "\\").to_lowercase()
+                == name.replace('/', "\\").to_lowercase()
+            {
                 return Ok(Some(offset));
             }
             offset += header.size() as u64;
-- 
2.43.0


From 08097248b4f4a3420656cde5a55b4f896dd07d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 06/37] fix: reject malformed keys and signatures with an error
 instead of panicking

---
 libs/signing/src/lib.rs       | 7 ++++++-
 libs/signing/src/public.rs    | 9 ++++-----
 libs/signing/src/signature.rs | 9 ++++-----
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/libs/signing/src/lib.rs b/libs/signing/src/lib.rs
index c8cb967..83e589b 100644
--- a/libs/signing/src/lib.rs
+++ b/libs/signing/src/lib.rs
@@ -55,12 +55,17 @@ fn display_hashes(a: &BigUint, b: &BigUint) -> (String, String) {
 /// Generate the hashes for a PBO
 ///
 /// # Errors
-/// If the PBO cannot be read
+/// If the PBO cannot be read, or the key length is too short to hold a hash
 pub fn generate_hashes<I: Seek + Read>(
     pbo: &mut ReadablePbo<I>,
     version: BISignVersion,
     length: u32,
 ) -> Result<(BigUint, BigUint, BigUint), Error> {
+    // the hash and its padding take at least 38 bytes
+    if length / 8 < 38 {
+        return Err(Error::InvalidLength);
+    }
+
     let mut hasher = Sha1::new();
     let hash1 = pbo.gen_checksum()?;
 
diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index 1e62b17..836a126 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -73,10 +73,7 @@ impl BIPublicKey {
     /// Read a public key from a reader
     ///
     /// # Errors
-    /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the public key is invalid
+    /// If the reader fails to read, or the public key is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -86,7 +83,9 @@ impl BIPublicKey {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
diff --git a/libs/signing/src/signature.rs b/libs/signing/src/signature.rs
index af52b13..0f2507a 100644
--- a/libs/signing/src/signature.rs
+++ b/libs/signing/src/signature.rs
@@ -107,10 +107,7 @@ impl BISign {
     /// Read a signature from a reader
     ///
     /// # Errors
-    /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the signature is invalid
+    /// If the reader fails to read, or the signature is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -120,7 +117,9 @@ impl BISign {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
-- 
2.43.0


From a8c066ae4fd6c82cb82cd3ab42370511455fb3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 07/37] fix: verify signatures against the given key, not the
 key they carry

---
 bin/src/utils/verify.rs    |  3 +++
 libs/signing/src/error.rs  |  4 ++++
 libs/signing/src/public.rs | 13 +++++++++++++
 3 files changed, 20 insertions(+)

diff --git a/bin/src/utils/verify.rs b/bin/src/utils/verify.rs
index 8e244b9..4d54a3f 100644
--- a/bin/src/utils/verify.rs
+++ b/bin/src/utils/verify.rs
@@ -71,6 +71,9 @@ pub fn execute(cmd: &Command) -> Result<(), Error> {
         Err(hemtt_signing::Error::AuthorityMismatch { .. }) => {
             error!("Verification Failed: Authority does not match");
         }
+        Err(hemtt_signing::Error::KeyMismatch) => {
+            error!("Verification Failed: Signature was made with a different key");
+        }
         Err(hemtt_signing::Error::HashMismatch { .. }) => {
             error!("Verification Failed: Signature does not match");
         }
diff --git a/libs/signing/src/error.rs b/libs/signing/src/error.rs
index b7fc81e..044c8e7 100644
--- a/libs/signing/src/error.rs
+++ b/libs/signing/src/error.rs
@@ -41,6 +41,10 @@ pub enum Error {
         key: String,
     },
 
+    #[error("Key mismatch")]
+    /// The signature was made with a different key
+    KeyMismatch,
+
     #[error("Unknown signature version {0}")]
     /// Unknown signature version
     UknownBISignVersion(u32),
diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index 836a126..3b78411 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -115,6 +115,19 @@ impl BIPublicKey {
             });
         }
 
+        // The signature carries a copy of the key it was made with, only the key itself can be trusted
+        if self.length != signature.length
+            || self.exponent != signature.exponent
+            || self.n != signature.n
+        {
+            return Err(Error::KeyMismatch);
+        }
+
+        // A signature is a number below the modulus, anything else is an altered copy of one
+        if signature.sig1 >= self.n || signature.sig2 >= self.n || signature.sig3 >= self.n {
+            return Err(Error::InvalidLength);
+        }
+
         if pbo.is_sorted().is_err() {
             return Err(Error::InvalidFileSorting);
         }
-- 
2.43.0


From 934962786fc443cacf6cd5e0cb8d5fa6d90be467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 08/37] fix: lzo compress refuses a buffer smaller than the
 worst case instead of writing past it

---
 libs/lzo/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/lzo/src/lib.rs b/libs/lzo/src/lib.rs
index b4bb667..0e76168 100644
--- a/libs/lzo/src/lib.rs
+++ b/libs/lzo/src/lib.rs
@@ -50,6 +50,10 @@ pub enum LzoError {
 /// # Errors
 /// [`LzoError`] if an error occurs
 pub fn compress(input: &[u8], output: &mut Vec<u8>) -> Result<(), LzoError> {
+    // the compressor does not check the space it writes to
+    if output.capacity() < worst_compress(input.len()) {
+        return Err(LzoError::OutputOverrun);
+    }
     unsafe {
         let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
         let mut out_len = output.capacity();
@@ -78,6 +82,10 @@ pub fn compress(input: &[u8], output: &mut Vec<u8>) -> Result<(), LzoError> {
 /// # Errors
 /// [`LzoError`] if an error occurs
 pub fn compress_to_slice<'a>(in_: &[u8], out: &'a mut [u8]) -> Result<&'a mut [u8], LzoError> {
+    // the compressor does not check the space it writes to
+    if out.len() < worst_compress(in_.len()) {
+        return Err(LzoError::OutputOverrun);
+    }
     unsafe {
         let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
         let mut out_len = out.len();
-- 
2.43.0


From 664e877412212b188ebd2e60b0ee510d31ae2758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 09/37] fix: #else without a condition crashed the preprocessor

---
 libs/preprocessor/src/ifstate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/preprocessor/src/ifstate.rs b/libs/preprocessor/src/ifstate.rs
index de0412c..a60aaa9 100644
--- a/libs/preprocessor/src/ifstate.rs
+++ b/libs/preprocessor/src/ifstate.rs
@@ -75,6 +75,10 @@ impl IfStates {
                     .clone(),
             ));
         }
+        if self.stack.is_empty() {
+            // like a stray #endif, a stray #else has nothing to act on
+            return Ok(());
+        }
         if self
             .stack
             .iter()
-- 
2.43.0


From 3a66c839670bff065d93697a1b68d597f31f07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 10/37] fix: a second #else was accepted when a nested
 condition stood between, ending the outer condition

---
 libs/preprocessor/src/ifstate.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libs/preprocessor/src/ifstate.rs b/libs/preprocessor/src/ifstate.rs
index a60aaa9..a9c20cc 100644
--- a/libs/preprocessor/src/ifstate.rs
+++ b/libs/preprocessor/src/ifstate.rs
@@ -35,7 +35,8 @@ impl IfState {
 #[derive(Clone, Default, Debug, Eq, PartialEq)]
 pub struct IfStates {
     stack: Vec<IfState>,
-    did_else: Option<Arc<Token>>,
+    /// the `#else` of each condition in the stack
+    did_else: Vec<Option<Arc<Token>>>,
 }
 
 impl IfStates {
@@ -44,12 +45,11 @@ impl IfStates {
     }
 
     pub fn push(&mut self, s: IfState) {
-        self.did_else = None;
+        self.did_else.push(None);
         self.stack.push(s);
     }
 
     pub fn push_if(&mut self, token: Arc<Token>, state: bool) {
-        self.did_else = None;
         if state {
             self.push(IfState::ReadingIf(token));
         } else {
@@ -58,12 +58,12 @@ impl IfStates {
     }
 
     pub fn pop(&mut self) -> Option<IfState> {
-        self.did_else = None;
+        self.did_else.pop();
         self.stack.pop()
     }
 
     pub fn flip(&mut self, token: Arc<Token>) -> Result<(), Error> {
-        if let Some(previous) = self.did_else.take() {
+        if let Some(Some(previous)) = self.did_else.last() {
             return Err(DoubleElse::code(
                 token.as_ref().clone(),
                 previous.as_ref().clone(),
@@ -94,7 +94,9 @@ impl IfStates {
                 self.push(new);
             }
         }
-        self.did_else = Some(token);
+        if let Some(did_else) = self.did_else.last_mut() {
+            *did_else = Some(token);
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 2ebf5e9b61a5a7a3e8f484b57daaeae8e51c5cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 11/37] fix: a file ending after an #if value crashed the
 preprocessor

---
 libs/preprocessor/src/processor/directives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 59c0997..784b9a4 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -418,7 +418,7 @@ impl Processor {
                 return Err(UnexpectedEOF::code(
                     operators
                         .last()
-                        .expect("right should exists at this point")
+                        .unwrap_or(&command)
                         .as_ref()
                         .clone(),
                 ));
-- 
2.43.0


From d099509ba4bf52459f92db8359f476e0f2af724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 12/37] fix: a #pragma hemtt flag of line scope stayed in force
 for the rest of the file

---
 libs/preprocessor/src/processor/pragma.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/preprocessor/src/processor/pragma.rs b/libs/preprocessor/src/processor/pragma.rs
index e985b3c..3c1db0a 100644
--- a/libs/preprocessor/src/processor/pragma.rs
+++ b/libs/preprocessor/src/processor/pragma.rs
@@ -52,6 +52,7 @@ impl Pragma {
 
     pub fn clear_line(&mut self) {
         self.suppress.retain(|_, v| *v as u8 > Scope::Line as u8);
+        self.flags.retain(|_, v| *v as u8 > Scope::Line as u8);
     }
 
     pub fn is_suppressed(&self, code: &Suppress) -> bool {
-- 
2.43.0


From 5374fdbe30f73fbb62da14e49c0b405eec4cbed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:10 +0000
Subject: [PATCH 13/37] fix: a macro or directive at the end of a macro body
 crashed the preprocessor

---
 libs/preprocessor/src/processor/defines.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 7c49671..30ca4b3 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -50,6 +50,9 @@ impl Processor {
         let mut arg = Vec::new();
         while let Some(token) = stream.peek() {
             let symbol = token.symbol();
+            if symbol.is_eoi() {
+                break;
+            }
             if quotes {
                 if symbol.is_double_quote() {
                     quotes = false;
@@ -207,6 +210,8 @@ impl Processor {
             buffer.push(Output::Direct(ident));
             return Ok(());
         };
+        // a directive or a macro at the end of a body needs something to peek at
+        let end = Arc::new(Token::new(Symbol::Eoi, ident.position().clone()));
         match body {
             Definition::Function(function) => {
                 let Some(args) = self.call_read_args(callsite, pragma, stream)? else {
@@ -268,7 +273,7 @@ impl Processor {
                     Some(callsite),
                     Some(&ident_string),
                     pragma,
-                    &mut function.stream(),
+                    &mut function.stream().chain(std::iter::once(end)).peekmore(),
                     &mut layer,
                 )?;
                 buffer.push(Output::Macro(ident.clone(), layer));
@@ -284,7 +289,11 @@ impl Processor {
                     ));
                 } else {
                     let mut layer = Vec::new();
-                    let body: Vec<_> = body.into_iter().filter(|t| !t.symbol().is_join()).collect();
+                    let body: Vec<_> = body
+                        .into_iter()
+                        .filter(|t| !t.symbol().is_join())
+                        .chain(std::iter::once(end))
+                        .collect();
                     self.walk(
                         Some(callsite),
                         Some(&ident_string),
-- 
2.43.0


From bfb34e3852c063d91a48c0488622263900fff621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 14/37] fix: mutually recursive macros overflowed the stack

---
 libs/preprocessor/src/processor/defines.rs | 9 +++++++++
 libs/preprocessor/src/processor/mod.rs     | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 30ca4b3..6725f79 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -210,6 +210,11 @@ impl Processor {
             buffer.push(Output::Direct(ident));
             return Ok(());
         };
+        if define_source != DefineSource::Argument && self.expanding.contains(&ident_string) {
+            // the macro is part of its own expansion
+            buffer.push(Output::Direct(ident));
+            return Ok(());
+        }
         // a directive or a macro at the end of a body needs something to peek at
         let end = Arc::new(Token::new(Symbol::Eoi, ident.position().clone()));
         match body {
@@ -268,6 +273,7 @@ impl Processor {
                     );
                 }
                 self.defines.push(&ident_string, arg_defines);
+                self.expanding.push(ident_string.clone());
                 let mut layer = Vec::new();
                 self.walk(
                     Some(callsite),
@@ -277,6 +283,7 @@ impl Processor {
                     &mut layer,
                 )?;
                 buffer.push(Output::Macro(ident.clone(), layer));
+                self.expanding.pop();
                 self.defines.pop();
             }
             #[allow(clippy::needless_collect)] // causes recursion at runtime otherwise
@@ -289,6 +296,7 @@ impl Processor {
                     ));
                 } else {
                     let mut layer = Vec::new();
+                    self.expanding.push(ident_string.clone());
                     let body: Vec<_> = body
                         .into_iter()
                         .filter(|t| !t.symbol().is_join())
@@ -301,6 +309,7 @@ impl Processor {
                         &mut body.into_iter().peekmore(),
                         &mut layer,
                     )?;
+                    self.expanding.pop();
                     buffer.push(Output::Macro(ident.clone(), layer));
                 }
             }
diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index f92c8f6..2181797 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -38,6 +38,9 @@ pub struct Processor {
 
     macros: HashMap<String, Vec<Position>>,
 
+    /// Macros that are being expanded
+    expanding: Vec<String>,
+
     #[cfg(feature = "lsp")]
     /// Map of token usage to definition
     /// (token, definition)
-- 
2.43.0


From 2f8ec129f18a99e0ed397667dca9f41bc717eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 15/37] fix: macros used in an inactive branch of a macro body
 still reached the output

---
 libs/preprocessor/src/processor/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index 2181797..2bac2a6 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -155,6 +155,11 @@ impl Processor {
         let mut just_whitespace = true;
         while let Some(token) = stream.peek() {
             match (token.symbol(), in_quotes) {
+                (Symbol::Word(_), false) if !self.ifstates.reading() => {
+                    // a macro used in an inactive branch has no effect
+                    just_whitespace = false;
+                    stream.next();
+                }
                 (Symbol::Word(w), false) => {
                     if w == "__EXEC" {
                         return Err(ExecNotSupported::code((**token).clone()));
-- 
2.43.0


From 7b44e2ad3918eb90b35465f2b49732a41c6de9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 16/37] fix: an unreadable #pragma scope was silently taken as
 line scope

---
 libs/preprocessor/src/processor/directives.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 784b9a4..448c0c3 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -129,23 +129,25 @@ impl Processor {
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(Arc<Token>, Scope), Error> {
         let code = self.next_word(stream, None)?;
-        let mut hit_end = false;
-        let scope_token = self.next_word(stream, None).unwrap_or_else(|_| {
-            hit_end = true;
+        self.skip_whitespace(stream, None);
+        let at_end = stream
+            .peek()
+            .map_or(true, |t| t.symbol().is_newline() || t.symbol().is_eoi());
+        let scope_token = if at_end {
             Arc::new(Token::new(
                 Symbol::Word("line".to_string()),
                 command.position().clone(),
             ))
-        });
+        } else {
+            Self::current_word(stream)?
+        };
         let Ok(scope) = Scope::try_from(scope_token.to_string().as_str()) else {
             return Err(PragmaInvalidScope::code(
                 scope_token.as_ref().clone(),
                 pragma.root,
             ));
         };
-        if !hit_end {
-            Self::expect_nothing_to_newline(stream)?;
-        };
+        Self::expect_nothing_to_newline(stream)?;
         Ok((code, scope))
     }
 
-- 
2.43.0


From 370afe5e6d91c83222fec404ff3b457746b29e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 17/37] fix: malformed expressions such as '1 2' evaluated to a
 number

---
 libs/common/src/math.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index c7a7389..4da6591 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -24,8 +24,15 @@ fn shunting_yard(expression: &str) -> Option<Vec<Token>> {
     .collect();
 
     let tokens = tokenize(expression).ok()?;
+    let mut expect_operand = true;
 
     for token in tokens {
+        // operands and operators have to alternate
+        let is_operand = matches!(token, Token::Number(_) | Token::LeftParenthesis);
+        if is_operand != expect_operand {
+            return None;
+        }
+        expect_operand = matches!(token, Token::Operator(_) | Token::LeftParenthesis);
         match token {
             Token::Number(_) => output_queue.push(token),
             Token::Operator(op) => {
@@ -63,6 +70,10 @@ fn shunting_yard(expression: &str) -> Option<Vec<Token>> {
         }
     }
 
+    if expect_operand {
+        return None;
+    }
+
     while let Some(operator) = operator_stack.pop() {
         output_queue.push(operator);
     }
-- 
2.43.0


From 9697aac0ae4b9a50cbabb215ff0ded13ba8e9bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 18/37] fix: strip_prefix_insensitive panicked inside a
 multi-byte character

---
 libs/common/src/strip.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/common/src/strip.rs b/libs/common/src/strip.rs
index 3e5497d..c86dee1 100644
--- a/libs/common/src/strip.rs
+++ b/libs/common/src/strip.rs
@@ -5,10 +5,7 @@ pub trait StripInsensitive {
 
 impl StripInsensitive for str {
     fn strip_prefix_insensitive(&self, prefix: &str) -> Option<&str> {
-        if self.len() < prefix.len() {
-            return None;
-        }
-        if self[..prefix.len()].eq_ignore_ascii_case(prefix) {
+        if self.get(..prefix.len())?.eq_ignore_ascii_case(prefix) {
             Some(&self[prefix.len()..])
         } else {
             None
-- 
2.43.0


From fd5d49aeaaa34d6fbb4d468aa6be4a7609f26e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 19/37] fix: stringtable lint settings in project.toml were
 dropped when lints.toml exists

LintGroupConfig::is_empty ignored stringtables, so the conflict between
project.toml and lints.toml was not reported.
---
 libs/common/src/config/project/lint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/lint.rs b/libs/common/src/config/project/lint.rs
index 42b34f6..66da836 100644
--- a/libs/common/src/config/project/lint.rs
+++ b/libs/common/src/config/project/lint.rs
@@ -32,7 +32,7 @@ impl LintGroupConfig {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.config.is_empty() && self.sqf.is_empty()
+        self.config.is_empty() && self.sqf.is_empty() && self.stringtables.is_empty()
     }
 }
 
-- 
2.43.0


From 95ff4387fee834c7916128abe7938cc13b172fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 20/37] fix: -2147483648 in a config is a 32-bit integer

---
 libs/config/src/model/number.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libs/config/src/model/number.rs b/libs/config/src/model/number.rs
index d7beec7..e7b2869 100644
--- a/libs/config/src/model/number.rs
+++ b/libs/config/src/model/number.rs
@@ -58,10 +58,16 @@ impl Number {
                 value: -value,
                 span: span.clone(),
             },
-            Self::Int64 { value, span } => Self::Int64 {
-                value: -value,
-                span: span.clone(),
-            },
+            Self::Int64 { value, span } => {
+                let value = -value;
+                let span = span.clone();
+                // only -2147483648 changes its type
+                if let Ok(value) = i32::try_from(value) {
+                    Self::Int32 { value, span }
+                } else {
+                    Self::Int64 { value, span }
+                }
+            }
             Self::Float32 { value, span } => Self::Float32 {
                 value: -*value,
                 span: span.clone(),
-- 
2.43.0


From bd5f140e0d5f4941e00de897362ee3e7ec143e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 21/37] fix: a whole result of config arithmetic beyond 64 bits
 stays a float

---
 libs/config/src/model/number.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/config/src/model/number.rs b/libs/config/src/model/number.rs
index e7b2869..60ef538 100644
--- a/libs/config/src/model/number.rs
+++ b/libs/config/src/model/number.rs
@@ -39,10 +39,12 @@ impl Number {
                     span,
                 });
             }
-            return Some(Self::Int64 {
-                value: value as i64,
-                span,
-            });
+            if value >= i64::MIN as f64 && value < -(i64::MIN as f64) {
+                return Some(Self::Int64 {
+                    value: value as i64,
+                    span,
+                });
+            }
         }
         Some(Self::Float32 {
             value: value as f32,
-- 
2.43.0


From 59d9865315146b527f69c434e85f45d1b1e08f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 22/37] fix: white space after a number in a config does not
 change its type or value

---
 libs/config/src/parse/value.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 3772809..25df72b 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -32,6 +32,13 @@ pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
     .collect::<String>()
     .map(|s| s.trim().to_string())
     .try_map(|expr, span: Range<usize>| {
+        // a lone number is not an expression, it keeps the type it is written with
+        if expr.parse::<f64>().is_ok() {
+            return Err(Simple::custom(
+                span,
+                format!("{expr} is not a math expression"),
+            ));
+        }
         let number = Number::try_evaulation(&expr, span.clone());
         number.map_or_else(
             || {
-- 
2.43.0


From a673655001dac8f25f8bcb047b34c3e27d6973dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 23/37] fix: __EVAL without brackets is an error, not a crash

---
 libs/config/src/parse/value.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 25df72b..3664ae2 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -64,13 +64,14 @@ pub fn eval() -> impl Parser<char, Expression, Error = Simple<char>> {
                     .at_least(1)
                     .collect::<String>())
         }))
-        .map_with_span(|expr, span| Expression {
-            value: expr
-                .strip_prefix('(')
+        .try_map(|expr, span: Range<usize>| {
+            expr.strip_prefix('(')
                 .and_then(|s| s.strip_suffix(')'))
-                .expect("eval should be wrapped in brackets")
-                .to_string(),
-            span,
+                .map(|value| Expression {
+                    value: value.to_string(),
+                    span: span.clone(),
+                })
+                .ok_or_else(|| Simple::custom(span, "__EVAL should be wrapped in brackets"))
         })
 }
 
-- 
2.43.0


From 3da57b9a636a20ee15ca6e03a3286386bfe77eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 24/37] fix: a backslash at the end of a joined string does not
 swallow the line break

---
 libs/config/src/parse/str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/config/src/parse/str.rs b/libs/config/src/parse/str.rs
index 349e70b..8434c06 100644
--- a/libs/config/src/parse/str.rs
+++ b/libs/config/src/parse/str.rs
@@ -16,9 +16,9 @@ pub fn string(delimiter: char) -> impl Parser<char, Str, Error = Simple<char>> {
         .map(|(segments, span)| Str {
             value: segments
                 .into_iter()
+                .map(|segment| segment.replace("\\\n", ""))
                 .collect::<Vec<_>>()
-                .join("\n")
-                .replace("\\\n", ""),
+                .join("\n"),
             span,
         })
 }
-- 
2.43.0


From 0c537e2a16bf1716c3cdb8e0c24b7ba2980b6ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 25/37] fix: entities in stringtable names and IDs survive
 writing

---
 libs/stringtable/src/key.rs     | 10 +++++++++-
 libs/stringtable/src/lib.rs     |  2 +-
 libs/stringtable/src/package.rs |  2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/libs/stringtable/src/key.rs b/libs/stringtable/src/key.rs
index 70bdb18..2397739 100644
--- a/libs/stringtable/src/key.rs
+++ b/libs/stringtable/src/key.rs
@@ -12,10 +12,18 @@ where
     }
 }
 
+/// Attributes keep their entities as read, like texts
+pub fn min_escape_attribute<S>(s: &str, ser: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    ser.serialize_str(&minimal_escape(s))
+}
+
 #[derive(Clone, Debug, Deserialize, Serialize)]
 #[serde(rename_all = "PascalCase")]
 pub struct Key {
-    #[serde(rename = "@ID")]
+    #[serde(rename = "@ID", serialize_with = "min_escape_attribute")]
     id: String,
     #[serde(skip_serializing_if = "Option::is_none", serialize_with = "min_escape")]
     #[serde(alias = "original", alias = "ORIGINAL")]
diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index 242e0d2..50aa5ec 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -15,7 +15,7 @@ use tracing::error;
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Project {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "key::min_escape_attribute")]
     name: String,
     #[serde(rename = "Package")]
     packages: Vec<Package>,
diff --git a/libs/stringtable/src/package.rs b/libs/stringtable/src/package.rs
index 735eafc..dfbaf4f 100644
--- a/libs/stringtable/src/package.rs
+++ b/libs/stringtable/src/package.rs
@@ -4,7 +4,7 @@ use crate::{Key, Totals};
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Package {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "crate::key::min_escape_attribute")]
     name: String,
     #[serde(rename = "Key")]
     #[serde(default)]
-- 
2.43.0


From 924fb2c7bc796fdf96e72975b1287618d3e5e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 26/37] fix: line breaks of a comment inside quotes are counted

---
 libs/preprocessor/src/parse/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index ba8a21e..6d0e17e 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -46,12 +46,14 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
             }
             Rule::COMMENT => {
                 if in_single_string || in_double_string {
+                    let text = pair.as_str();
+                    line += text.matches('\n').count();
                     if !skipping_comment {
                         tokens.push(Arc::new(Token::new(
-                            Symbol::Word(pair.as_str().to_string()),
+                            Symbol::Word(text.to_string()),
                             Position::new(
                                 start,
-                                LineCol(start.0 + 2, (start.1 .0 + 2, start.1 .1 + 2)),
+                                LineCol(start.0 + text.len(), (line, start.1 .1 + text.len())),
                                 path.clone(),
                             ),
                         )));
-- 
2.43.0


From 9968026cc1b3475bd5dbf3cf4c24861f18573c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 27/37] fix: __COUNTER__ can be used more than 65535 times

---
 libs/preprocessor/src/defines.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 827fc05..95e6835 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -23,7 +23,7 @@ type InnerDefines = HashMap<Arc<str>, (Arc<Token>, Definition, DefineSource)>;
 pub struct Defines {
     global: InnerDefines,
     stack: Vec<(Arc<str>, InnerDefines)>,
-    counter: u16,
+    counter: usize,
 }
 
 /// Built-in macros that HEMTT supports, constants
@@ -107,7 +107,7 @@ impl Defines {
                         return Some((
                             key.clone(),
                             Definition::Value(vec![Arc::new(Token::new(
-                                Symbol::Digit(counter.into()),
+                                Symbol::Digit(counter),
                                 key.position().clone(),
                             ))]),
                             DefineSource::Generated,
-- 
2.43.0


From 97816cfa90042c885b08392cfc50d039f78e39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:03 +0000
Subject: [PATCH 28/37] fix: a p3d file announcing billions of lods, points,
 normals or faces aborted the process instead of giving an error

---
 libs/p3d/src/lib.rs | 2 +-
 libs/p3d/src/lod.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index d10547a..8431f84 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -49,7 +49,7 @@ impl P3D {
 
         let version = reader.read_u32::<LittleEndian>()?;
         let num_lods = reader.read_u32::<LittleEndian>()?;
-        let mut lods: Vec<LOD> = Vec::with_capacity(num_lods as usize);
+        let mut lods: Vec<LOD> = Vec::new();
 
         for _i in 0..num_lods {
             lods.push(LOD::read(&mut reader)?);
diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index 4724aa6..3aad3ea 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -40,9 +40,9 @@ impl LOD {
 
         input.bytes().nth(3);
 
-        let mut points: Vec<Point> = Vec::with_capacity(num_points as usize);
-        let mut face_normals: Vec<(f32, f32, f32)> = Vec::with_capacity(num_face_normals as usize);
-        let mut faces: Vec<Face> = Vec::with_capacity(num_faces as usize);
+        let mut points: Vec<Point> = Vec::new();
+        let mut face_normals: Vec<(f32, f32, f32)> = Vec::new();
+        let mut faces: Vec<Face> = Vec::new();
 
         for _i in 0..num_points {
             points.push(Point::read(input)?);
-- 
2.43.0


From 5ea9b7b4660f64f3dfb2130cca69ec57329feaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:03 +0000
Subject: [PATCH 29/37] fix: P3D::write lost the errors of its last buffered
 bytes

---
 libs/p3d/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index 8431f84..b7bf42a 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -77,6 +77,7 @@ impl P3D {
             lod.write(&mut writer)?;
         }
 
+        writer.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From 7188a1d741194619ea45bfda688e854683c4bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:03 +0000
Subject: [PATCH 30/37] fix: named blocks of a p3d lod that share a name
 (#Property#) were lost

---
 libs/p3d/src/lod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index 3aad3ea..4cdeac5 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -2,7 +2,6 @@ use std::io::{Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use hemtt_common::io::{ReadExt, WriteExt};
-use indexmap::IndexMap;
 
 use crate::{Error, Face, Point};
 
@@ -14,7 +13,7 @@ pub struct LOD {
     pub points: Vec<Point>,
     pub face_normals: Vec<(f32, f32, f32)>,
     pub faces: Vec<Face>,
-    pub taggs: IndexMap<String, Box<[u8]>>,
+    pub taggs: Vec<(String, Box<[u8]>)>,
 }
 
 impl LOD {
@@ -67,7 +66,7 @@ impl LOD {
             ));
         }
 
-        let mut taggs: IndexMap<String, Box<[u8]>> = IndexMap::new();
+        let mut taggs: Vec<(String, Box<[u8]>)> = Vec::new();
 
         loop {
             input.bytes().next();
@@ -81,7 +80,7 @@ impl LOD {
                 break;
             }
 
-            taggs.insert(name, buffer);
+            taggs.push((name, buffer));
         }
 
         let resolution = input.read_f32::<LittleEndian>()?;
-- 
2.43.0


From f871adee5af1e5aa059620d125c5d332d664e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:21 +0000
Subject: [PATCH 31/37] fix: error instead of panicking on PAA formats without
 a decoder

---
 libs/paa/src/paa.rs | 6 ++++++
 libs/paa/src/pax.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index e00241a..ad203bd 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -88,6 +88,12 @@ impl Paa {
                     seek.clone_from_slice(&offs[p..p + 4]);
                     let seek = u32::from_le_bytes(seek);
                     if seek != 0 {
+                        if !paa.format.is_block_compressed() {
+                            return Err(Error::new(
+                                std::io::ErrorKind::InvalidData,
+                                "unsupported paa format",
+                            ));
+                        }
                         input.seek(SeekFrom::Start(u64::from(seek)))?;
                         paa.maps
                             .push(MipMap::from_stream(paa.format.clone().into(), &mut input)?);
diff --git a/libs/paa/src/pax.rs b/libs/paa/src/pax.rs
index 3e60ad9..b190efe 100644
--- a/libs/paa/src/pax.rs
+++ b/libs/paa/src/pax.rs
@@ -55,6 +55,12 @@ impl PaXType {
             Self::GRAYA => [128, 128],
         }
     }
+
+    #[must_use]
+    /// Is the pixel data stored in a block format that can be decoded
+    pub const fn is_block_compressed(&self) -> bool {
+        matches!(self, Self::DXT1 | Self::DXT3 | Self::DXT5)
+    }
 }
 
 impl From<PaXType> for Format {
-- 
2.43.0


From 16b22fae68724894370110af87f6da485ad9d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:21 +0000
Subject: [PATCH 32/37] fix: error instead of panicking on images that do not
 fit in a PAA

---
 libs/paa/src/paa.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index ad203bd..b78a1c6 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -112,9 +112,21 @@ impl Paa {
     /// Write the Paa to the given output
     ///
     /// # Errors
-    /// [`std::io::Error`] if the output is not writable
+    /// [`std::io::Error`] if the output is not writable, or the image does not fit in a Paa
     pub fn write(image: &RgbaImage, output: &mut impl Write) -> Result<(), Error> {
         let algo: Format = PaXType::DXT5.clone().into();
+        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
+        if image.width() == 0
+            || image.height() == 0
+            || image.width() > 0x7FFF
+            || image.height() > 0xFFFF
+            || size > 0xFF_FFFF
+        {
+            return Err(Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "image dimensions do not fit in a paa",
+            ));
+        }
         output.write_all(&PaXType::DXT5.as_bytes())?; // 2
 
         // Average Color
@@ -172,7 +184,6 @@ impl Paa {
         // Write main image
         output.write_u16::<LittleEndian>(image.width() as u16)?;
         output.write_u16::<LittleEndian>(image.height() as u16)?;
-        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
         output.write_u24::<LittleEndian>(size as u32)?;
         let mut buffer = vec![0; size];
         algo.compress(
-- 
2.43.0


From 1b8fd1b0ddbd5f2e920eaac176686bd25bb12c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:21 +0000
Subject: [PATCH 33/37] fix: decode PAA mip maps with a height that is not a
 multiple of 4

---
 libs/paa/src/mipmap.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 6c46873..8519ad6 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -84,28 +84,20 @@ impl MipMap {
             width_2 -= 32768;
             true
         };
-        let mut img_size: u32 = u32::from(width_2) * u32::from(self.height);
-        if self.format == Format::Bc1 {
-            img_size /= 2;
-        }
-        let mut buffer: Box<[u8]> = vec![0; img_size as usize].into_boxed_slice();
-        let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * (self.height as usize)];
+        // pixels are stored as blocks of 4 by 4
+        let width = usize::from(width_2);
+        let height = usize::from(self.height).next_multiple_of(4);
+        let mut buffer: Box<[u8]> =
+            vec![0; self.format.compressed_size(width, height)].into_boxed_slice();
+        let mut out_buffer = vec![0u8; 4 * width * height];
         if compress {
             let _ = hemtt_lzo::decompress_to_slice(data, &mut buffer);
-            self.format.decompress(
-                &buffer,
-                usize::from(width_2),
-                usize::from(self.height),
-                &mut out_buffer,
-            );
+            self.format
+                .decompress(&buffer, width, height, &mut out_buffer);
         } else {
-            self.format.decompress(
-                data,
-                usize::from(width_2),
-                usize::from(self.height),
-                &mut out_buffer,
-            );
+            self.format.decompress(data, width, height, &mut out_buffer);
         };
+        out_buffer.truncate(4 * width * usize::from(self.height));
         image::DynamicImage::ImageRgba8(
             image::RgbaImage::from_raw(u32::from(width_2), u32::from(self.height), out_buffer)
                 .expect("paa should contain valid image data"),
-- 
2.43.0


From d654802c16c103e49ea44b403d6d6b5713a8f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:56 +0000
Subject: [PATCH 34/37] fix: the average colour tag of a written PAA is named
 CGVA

---
 libs/paa/src/paa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index b78a1c6..f276e60 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -130,7 +130,7 @@ impl Paa {
         output.write_all(&PaXType::DXT5.as_bytes())?; // 2
 
         // Average Color
-        output.write_all(b"GGATAVGC")?; // 8
+        output.write_all(b"GGATCGVA")?; // 8
         output.write_u32::<LittleEndian>(size_of::<u32>() as u32)?; // 4
         let avg_color = image
             .pixels()
-- 
2.43.0


From a0626018c8bcf033ad7e274fd916bc06498e7087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:49 +0000
Subject: [PATCH 35/37] fix: a file of an addon nested in the prefix of another
 one was found or not at random

---
 libs/workspace/src/path.rs | 50 ++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 06712e7..d2a4381 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -4,7 +4,6 @@ use std::{
     sync::Arc,
 };
 
-use hemtt_common::strip::StripInsensitive;
 use vfs::{SeekAndWrite, VfsPath};
 
 use super::{Error, LayerType, Workspace};
@@ -245,20 +244,16 @@ impl WorkspacePath {
                     },
                 }));
             }
-            if let Some((base, root)) = self
+            // addons can be nested, a file belongs to the addon with the longest prefix
+            let pointer = self
                 .data
                 .workspace
                 .pointers
                 .iter()
-                .find(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
-            {
-                let ret_path = root.join(
-                    path.strip_prefix_insensitive(base)
-                        .unwrap_or(&path)
-                        .strip_prefix('/')
-                        .unwrap_or(&path),
-                )?;
-                let path_str = ret_path.as_str().trim_start_matches('/');
+                .filter_map(|(base, root)| Some((base, root, strip_pointer(&path, base)?)))
+                .max_by_key(|(base, _, _)| base.len());
+            let insensitive = if let Some((_, root, rest)) = pointer {
+                let ret_path = root.join(rest)?;
                 if ret_path.exists()? {
                     return Ok(Some(LocateResult {
                         case_mismatch: if is_wrong_case(&ret_path, &path) {
@@ -273,22 +268,12 @@ impl WorkspacePath {
                             }),
                         },
                     }));
-                } else if let Some(insensitive) = exists_case_insensitive(Path::new(path_str)) {
-                    return Ok(Some(LocateResult {
-                        case_mismatch: Some(insensitive.to_string_lossy().to_string()),
-                        path: Self {
-                            data: Arc::new(WorkspacePathData {
-                                path: self
-                                    .data
-                                    .workspace
-                                    .vfs
-                                    .join(insensitive.to_str().expect("utf-8"))?,
-                                workspace: self.data.workspace.clone(),
-                            }),
-                        },
-                    }));
                 }
-            } else if let Some(insensitive) = exists_case_insensitive(Path::new(&path)) {
+                exists_case_insensitive(Path::new(ret_path.as_str()))
+            } else {
+                exists_case_insensitive(Path::new(&path))
+            };
+            if let Some(insensitive) = insensitive {
                 return Ok(Some(LocateResult {
                     case_mismatch: Some(insensitive.to_string_lossy().to_string()),
                     path: Self {
@@ -418,6 +403,19 @@ pub struct LocateResult {
     pub case_mismatch: Option<String>,
 }
 
+/// Strip the prefix of an addon from an absolute path, in a case-insensitive manner
+fn strip_pointer<'a>(path: &'a str, base: &str) -> Option<&'a str> {
+    let mut rest = path.trim_start_matches('/');
+    for part in base.split('/').filter(|part| !part.is_empty()) {
+        let (first, after) = rest.split_once('/')?;
+        if first.to_lowercase() != part.to_lowercase() {
+            return None;
+        }
+        rest = after.trim_start_matches('/');
+    }
+    Some(rest)
+}
+
 /// Check if a path exists in a case-insensitive manner.
 fn exists_case_insensitive(path: &Path) -> Option<PathBuf> {
     exists_case_insensitive_from(path, PathBuf::from("."))
-- 
2.43.0


From c427519fff344086bb476088b3a7691f55cd1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:50 +0000
Subject: [PATCH 36/37] fix: the case insensitive lookup looked in the working
 directory of the process instead of the workspace

---
 libs/workspace/src/path.rs | 51 ++++++++++++--------------------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index d2a4381..7661aa2 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -1,8 +1,4 @@
-use std::{
-    hash::Hasher,
-    path::{Path, PathBuf},
-    sync::Arc,
-};
+use std::{hash::Hasher, sync::Arc};
 
 use vfs::{SeekAndWrite, VfsPath};
 
@@ -269,20 +265,17 @@ impl WorkspacePath {
                         },
                     }));
                 }
-                exists_case_insensitive(Path::new(ret_path.as_str()))
+                exists_case_insensitive(&self.data.workspace.vfs, ret_path.as_str())
             } else {
-                exists_case_insensitive(Path::new(&path))
+                let ret_path = self.data.workspace.vfs.join(&path)?;
+                exists_case_insensitive(&self.data.workspace.vfs, ret_path.as_str())
             };
             if let Some(insensitive) = insensitive {
                 return Ok(Some(LocateResult {
-                    case_mismatch: Some(insensitive.to_string_lossy().to_string()),
+                    case_mismatch: Some(insensitive.as_str().to_string()),
                     path: Self {
                         data: Arc::new(WorkspacePathData {
-                            path: self
-                                .data
-                                .workspace
-                                .vfs
-                                .join(insensitive.to_str().expect("utf-8"))?,
+                            path: insensitive,
                             workspace: self.data.workspace.clone(),
                         }),
                     },
@@ -417,32 +410,20 @@ fn strip_pointer<'a>(path: &'a str, base: &str) -> Option<&'a str> {
 }
 
 /// Check if a path exists in a case-insensitive manner.
-fn exists_case_insensitive(path: &Path) -> Option<PathBuf> {
-    exists_case_insensitive_from(path, PathBuf::from("."))
-        .or_else(|| exists_case_insensitive_from(path, PathBuf::from("./include")))
+fn exists_case_insensitive(root: &VfsPath, path: &str) -> Option<VfsPath> {
+    exists_case_insensitive_from(root.clone(), path)
+        .or_else(|| exists_case_insensitive_from(root.join("include").ok()?, path))
 }
 
-fn exists_case_insensitive_from(path: &Path, from: PathBuf) -> Option<PathBuf> {
+fn exists_case_insensitive_from(from: VfsPath, path: &str) -> Option<VfsPath> {
     let mut current_path = from;
-    for component in path.components() {
-        if let std::path::Component::Normal(name) = component {
-            let mut found = false;
-            if let Ok(entries) = std::fs::read_dir(&current_path) {
-                for entry in entries.filter_map(Result::ok) {
-                    if entry.file_name().eq_ignore_ascii_case(name) {
-                        current_path.push(entry.file_name());
-                        found = true;
-                        break;
-                    }
-                }
-            }
-            if !found {
-                return None;
-            }
-        }
+    for name in path.split('/').filter(|name| !name.is_empty()) {
+        current_path = current_path
+            .read_dir()
+            .ok()?
+            .find(|entry| entry.filename().eq_ignore_ascii_case(name))?;
     }
-
-    if current_path.exists() {
+    if current_path.exists().unwrap_or(false) {
         Some(current_path)
     } else {
         None
-- 
2.43.0


From 94b64e3b3f11224fe0bfa4f07668b856ecda3b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:01 +0000
Subject: [PATCH 37/37] fix: an include of /a3/ that ends in a slash crashed
 when no P drive is mounted

---
 libs/workspace/src/pdrive.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/libs/workspace/src/pdrive.rs b/libs/workspace/src/pdrive.rs
index 9b398af..e0ef4a3 100644
--- a/libs/workspace/src/pdrive.rs
+++ b/libs/workspace/src/pdrive.rs
@@ -112,14 +112,9 @@ impl PDriveOnDemand {
     }
 
     fn path_to(&self, path: &str) -> Option<VfsPath> {
-        if self
-            .root
-            .join(path)
-            .expect("path can be joined")
-            .exists()
-            .expect("path exists")
-        {
-            return Some(self.root.join(path).expect("path can be joined"));
+        let cached = self.root.join(path).ok()?;
+        if cached.exists().expect("path exists") {
+            return Some(cached);
         }
         let parts = path.split('/').collect::<Vec<_>>();
         let pbo_name = parts[2];
-- 
2.43.0

