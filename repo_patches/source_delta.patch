From 5e3f42fcfe0bd62e8616b6fdcf65ca12e70f4a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:45 +0000
Subject: [PATCH 01/26] fix: keep accepting data once a payload block is full

The block writer filled its buffer, flushed it, and reported zero bytes
written when the buffer was exactly full. write_all then failed, so
databases larger than one block could not be saved with AES or Twofish.
---
 src/stream/hmac.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index a7ea352..cb64135 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -121,14 +121,13 @@ where
 
 impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
-        let write_size = usize::min(buf.len(), space_in_buffer);
-        self.buffer.extend_from_slice(&buf[0..write_size]);
-        if write_size < buf.len() {
+        if self.buffer.len() == HMAC_WRITE_BLOCK_SIZE {
             // Internal buffer full, write it out
             self.write_block()?;
-            self.buffer.clear();
         }
+        let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
+        let write_size = usize::min(buf.len(), space_in_buffer);
+        self.buffer.extend_from_slice(&buf[0..write_size]);
         Ok(write_size)
     }
 
-- 
2.43.0


From 09a20d6742b0bfa918780fdb5176409a9f36cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:45 +0000
Subject: [PATCH 02/26] fix: do not end the payload when an empty buffer is
 flushed

An empty block marks the end of the payload. Flushing with nothing
buffered wrote one, so compressed databases could be saved with an early
end marker and could not be opened again.
---
 src/stream/hmac.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index cb64135..76b513d 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -132,7 +132,10 @@ impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.write_block()?;
-        Ok(())
+        // An empty block marks the end of the data, so it must not be written here
+        if !self.buffer.is_empty() {
+            self.write_block()?;
+        }
+        self.inner.flush()
     }
 }
-- 
2.43.0


From 46278af5ae2c9401863c0786e381cc0888d73472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:58 +0000
Subject: [PATCH 03/26] fix: do not return padding bytes when reading block
 ciphers

After the first partial read of the last block, the reader used the block
size instead of the unpadded length and handed out padding as content.
---
 src/stream/block_cipher.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/stream/block_cipher.rs b/src/stream/block_cipher.rs
index 3fc9e8a..6d761c0 100644
--- a/src/stream/block_cipher.rs
+++ b/src/stream/block_cipher.rs
@@ -19,6 +19,7 @@ where
     inner: R,
     buffer: GenericArray<u8, C::BlockSize>,
     buf_idx: usize,
+    buf_len: usize,
     cipher: cbc::Decryptor<C>,
     first_read: bool,
     peek_byte: Option<u8>,
@@ -39,6 +40,7 @@ where
             cipher: cbc::Decryptor::new_from_slices(&key.0, iv)?,
             buffer: GenericArray::default(),
             buf_idx: 0,
+            buf_len: 0,
             first_read: true,
             peek_byte: None,
         })
@@ -52,6 +54,7 @@ where
 {
     fn buffer_next_block(&mut self) -> io::Result<usize> {
         self.buf_idx = 0;
+        self.buf_len = 0;
         let mut buffered_bytes = 0;
 
         if let Some(byte) = self.peek_byte {
@@ -107,10 +110,11 @@ where
     C: BlockCipher + BlockDecryptMut,
 {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
+        let mut remaining_in_buffer = self.buf_len - self.buf_idx;
 
-        if remaining_in_buffer == 0 || self.first_read {
-            remaining_in_buffer = self.buffer_next_block()?;
+        if remaining_in_buffer == 0 {
+            self.buf_len = self.buffer_next_block()?;
+            remaining_in_buffer = self.buf_len;
         }
         let copy_len = usize::min(remaining_in_buffer, buf.len());
         for (i, byte) in buf.iter_mut().enumerate().take(copy_len) {
-- 
2.43.0


From af2b8897351df8563282f10f7fb633e799b00fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:58 +0000
Subject: [PATCH 04/26] fix: only record header bytes that were actually read

A reader that returned fewer bytes than asked for left stale buffer
content in the recorded header, so the header hash check failed.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9098635..54a2eff 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -49,7 +49,7 @@ where
 impl<'a, I: io::Read> io::Read for CachingReader<'a, I> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let size = self.inner.read(buf)?;
-        self.data.extend(buf.iter().cloned());
+        self.data.extend_from_slice(&buf[..size]);
         Ok(size)
     }
 }
-- 
2.43.0


From 42d039d179f78b1a1eea86964e73c2dc3b21cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:37 +0000
Subject: [PATCH 05/26] fix: do not allocate claimed lengths before the data is
 there

Lengths of header fields, dictionary items and payload blocks come from
the file. A tiny file could ask for gigabytes, and negative dictionary
lengths made the allocation panic.
---
 src/binary/header.rs       |  3 +--
 src/binary/variant_dict.rs | 12 +++++-------
 src/stream/hmac.rs         |  4 ++--
 src/stream/kdbx3.rs        |  4 ++--
 src/utils.rs               | 15 ++++++++++++++-
 5 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index 4de6ceb..89270f0 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -184,8 +184,7 @@ where
             self.reader.read_exact(&mut len_buffer)?;
             u16::from_le_bytes(len_buffer) as u32
         };
-        let mut header_buffer = utils::buffer(len as usize);
-        self.reader.read_exact(&mut header_buffer)?;
+        let header_buffer = utils::read_bytes(&mut self.reader, len as usize)?;
 
         Ok(HeaderField {
             ty,
diff --git a/src/binary/variant_dict.rs b/src/binary/variant_dict.rs
index 7e4e078..37efb5e 100644
--- a/src/binary/variant_dict.rs
+++ b/src/binary/variant_dict.rs
@@ -1,4 +1,4 @@
-use crate::utils::buffer;
+use crate::utils::read_bytes;
 use derive_more::TryInto;
 use std::collections::HashMap;
 use std::io::{self, Read};
@@ -150,15 +150,13 @@ fn parse_variant_dict_entry<T: Read>(ty: u8, input: &mut T) -> Result<(String, V
     let mut length_buffer = [0u8; 4];
 
     input.read_exact(&mut length_buffer)?;
-    let key_length = i32::from_le_bytes(length_buffer);
-    let mut key_buffer: Vec<u8> = buffer(key_length as usize);
-    input.read_exact(&mut key_buffer)?;
+    let key_length = u32::from_le_bytes(length_buffer);
+    let key_buffer = read_bytes(&mut *input, key_length as usize)?;
     let key = String::from_utf8(key_buffer)?;
 
     input.read_exact(&mut length_buffer)?;
-    let value_length = i32::from_le_bytes(length_buffer);
-    let mut value_buffer: Vec<u8> = buffer(value_length as usize);
-    input.read_exact(&mut value_buffer)?;
+    let value_length = u32::from_le_bytes(length_buffer);
+    let value_buffer = read_bytes(&mut *input, value_length as usize)?;
 
     let value = Value::from_bytes(ty, value_buffer)?;
 
diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index 76b513d..3ae83dc 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -1,6 +1,7 @@
 pub const HMAC_WRITE_BLOCK_SIZE: usize = 1024 * 1024;
 
 use crate::crypto::HmacKey;
+use crate::utils;
 use std::io::{self, Read, Write};
 
 pub(crate) struct HMacReader<R>
@@ -31,8 +32,7 @@ impl<R: io::Read> HMacReader<R> {
         let mut len_buffer = [0u8; 4];
         self.inner.read_exact(&mut len_buffer)?;
         let len = u32::from_le_bytes(len_buffer) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        self.buffer = utils::read_bytes(&mut self.inner, len)?;
         if !self
             .hmac_key
             .block_key(self.block_idx)
diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 3d256cc..8ba72dc 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -1,4 +1,5 @@
 use crate::crypto;
+use crate::utils;
 use std::io::{self, Read};
 
 pub struct HashedBlockReader<R>
@@ -30,8 +31,7 @@ where
         let mut len_buf = [0u8; 4];
         self.inner.read_exact(&mut len_buf)?;
         let len = u32::from_le_bytes(len_buf) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        self.buffer = utils::read_bytes(&mut self.inner, len)?;
         self.buf_idx = 0;
         if crypto::verify_sha256(&self.buffer, &hash_buf) {
             Ok(len)
diff --git a/src/utils.rs b/src/utils.rs
index 54a2eff..cc2fe76 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,7 @@
 //! Utilities to help working with kdbx-rs
 
 use std::fmt::Write;
-use std::io;
+use std::io::{self, Read};
 use uuid::Uuid;
 
 use crate::binary::KdfAlgorithm;
@@ -38,6 +38,19 @@ pub(crate) fn buffer(len: usize) -> Vec<u8> {
     v
 }
 
+/// Read exactly `len` bytes, growing the buffer only as data arrives
+///
+/// The length usually comes from the file itself, so it can't be trusted
+/// enough to allocate it up front.
+pub(crate) fn read_bytes<R: io::Read>(input: R, len: usize) -> io::Result<Vec<u8>> {
+    let mut data = Vec::new();
+    io::Read::take(input, len as u64).read_to_end(&mut data)?;
+    if data.len() < len {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(data)
+}
+
 pub(crate) struct CachingReader<'a, I>
 where
     I: io::Read,
-- 
2.43.0


From 04c76de5296c752fe9f20bb23cecdd5885e15fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:01 +0000
Subject: [PATCH 06/26] fix: report short header fields as malformed

Transform rounds shorter than 8 bytes and inner cipher identifiers shorter
than 4 bytes caused a panic.
---
 src/binary/errors.rs |  3 +++
 src/binary/header.rs | 35 ++++++++++++++++++++++++++---------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index fb9cef6..4f5ef04 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -59,6 +59,9 @@ pub enum HeaderError {
     /// A supported field had an unexpected format
     #[error("Incompatible database - Malformed field of type {0:?}: {1}")]
     MalformedField(header::OuterHeaderId, String),
+    /// A supported field in the encrypted header had an unexpected format
+    #[error("Incompatible database - Malformed inner field of type {0:?}: {1}")]
+    MalformedInnerField(header::InnerHeaderId, String),
     /// A required field is missing in the unencrypted header
     #[error("Incompatible database - Missing required field of type {0:?}")]
     MissingRequiredField(header::OuterHeaderId),
diff --git a/src/binary/header.rs b/src/binary/header.rs
index 89270f0..dfa4055 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -265,9 +265,9 @@ impl KdbxHeaderBuilder {
         Ok(())
     }
 
-    fn get_kdf_params(&mut self) -> Option<header_fields::KdfParams> {
+    fn get_kdf_params(&mut self) -> Result<Option<header_fields::KdfParams>> {
         if self.kdf_params.is_some() {
-            self.kdf_params.take()
+            Ok(self.kdf_params.take())
         } else {
             let rounds = self
                 .other_headers
@@ -275,24 +275,30 @@ impl KdbxHeaderBuilder {
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformRounds)
                 .map(|h| {
                     let mut buf = [0u8; 8];
-                    buf.clone_from_slice(&h.data[0..8]);
-                    u64::from_le_bytes(buf)
-                });
+                    buf.clone_from_slice(h.data.get(0..8).ok_or_else(|| {
+                        Error::MalformedField(
+                            OuterHeaderId::LegacyTransformRounds,
+                            "Too short for transform rounds".into(),
+                        )
+                    })?);
+                    Ok::<_, Error>(u64::from_le_bytes(buf))
+                })
+                .transpose()?;
             let seed = self
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformSeed)
                 .map(|h| h.data.clone());
 
-            match (rounds, seed) {
+            Ok(match (rounds, seed) {
                 (Some(r), Some(s)) => Some(header_fields::KdfParams::Aes { rounds: r, salt: s }),
                 _ => None,
-            }
+            })
         }
     }
 
     fn build(mut self) -> Result<KdbxHeader> {
-        let kdf_params = self.get_kdf_params();
+        let kdf_params = self.get_kdf_params()?;
         Ok(KdbxHeader {
             cipher: self
                 .cipher
@@ -445,6 +451,12 @@ impl KdbxInnerHeaderBuilder {
         match header.ty {
             InnerHeaderId::InnerRandomStreamCipherId => {
                 let d = header.data;
+                if d.len() < 4 {
+                    return Err(Error::MalformedInnerField(
+                        header.ty,
+                        "Too short for cipher ID".into(),
+                    ));
+                }
                 self.inner_stream_cipher =
                     Some(u32::from_le_bytes([d[0], d[1], d[2], d[3]]).into());
             }
@@ -501,7 +513,12 @@ impl KdbxInnerHeader {
             .data
             .clone();
         let mut cipher_id_buf = [0u8; 4];
-        cipher_id_buf.clone_from_slice(&cipher[0..4]);
+        cipher_id_buf.clone_from_slice(cipher.get(0..4).ok_or_else(|| {
+            Error::MalformedField(
+                OuterHeaderId::InnerRandomStreamId,
+                "Too short for cipher ID".into(),
+            )
+        })?);
         let cipher_id = u32::from_le_bytes(cipher_id_buf);
 
         Ok(KdbxInnerHeader {
-- 
2.43.0


From c60b2e5320a2c16dc257f20d4bfc67a87c5e70e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:02 +0000
Subject: [PATCH 07/26] fix: report missing start bytes in KDBX 3 files

Unlocking a KDBX 3 file without the stream start bytes field panicked.
---
 src/binary/kdbx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 6059ae6..44c1dfb 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -337,13 +337,16 @@ impl Kdbx<Locked> {
         master_key: &crypto::MasterKey,
     ) -> Result<(header::KdbxInnerHeader, Vec<u8>), errors::UnlockError> {
         let cipher_key = master_key.cipher_key(&self.state.header.master_seed);
+        let start_bytes = self.header().stream_start_bytes.as_ref().ok_or(
+            errors::HeaderError::MissingRequiredField(header::OuterHeaderId::StreamStartBytes),
+        )?;
         let mut input_stream = stream::kdbx3_read_stream(
             &*self.state.encrypted_data,
             cipher_key,
             self.state.header.cipher,
             &self.state.header.encryption_iv,
             self.state.header.compression_type,
-            self.header().stream_start_bytes.as_ref().unwrap(),
+            start_bytes,
         )?;
         let inner_header = header::KdbxInnerHeader::from_legacy_fields(&self.state.header)?;
         let mut output_buffer = Vec::new();
-- 
2.43.0


From 6819052ee52c67966872de0c7feca876a5e920d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:03 +0000
Subject: [PATCH 08/26] fix: report AES key derivation seeds of the wrong size

A seed that is not 32 bytes long caused a panic.
---
 src/crypto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 0870566..7f50c53 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -90,7 +90,8 @@ impl ComposedKey {
             }
             binary::KdfParams::Aes { rounds, salt } => {
                 use cipher::KeyInit;
-                let mut cipher = Aes256::new_from_slice(salt).unwrap();
+                let mut cipher = Aes256::new_from_slice(salt)
+                    .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?;
                 let chunked: Vec<GenericArray<u8, _>> = self
                     .0
                     .chunks_exact(16)
-- 
2.43.0


From 93b12daf7f31dbc7eadf50f63a3d7b6861d26e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:03 +0000
Subject: [PATCH 09/26] fix: report ChaCha20 IVs of the wrong size

An IV that is not 12 bytes long caused a panic when unlocking and when
saving.
---
 src/stream/pipeline.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index 0d5981f..ea59c6a 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -34,6 +34,15 @@ where
     })
 }
 
+fn chacha20_cipher(key: crypto::CipherKey, iv: &[u8]) -> io::Result<ChaCha20> {
+    ChaCha20::new_from_slices(&key.0, iv).map_err(|_| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Invalid cipher params - Could not create ChaCha20 cipher".to_string(),
+        )
+    })
+}
+
 pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
     inner: R,
     cipher_key: crypto::CipherKey,
@@ -51,7 +60,7 @@ pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
             inner, cipher_key, iv,
         )?),
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = chacha20_cipher(cipher_key, iv)?;
             Box::new(super::StreamCipherReader::new(inner, cipher))
         }
         _ => {
@@ -243,7 +252,7 @@ pub(crate) fn kdbx4_write_stream<'a, W: 'a + io::Write>(
             block_cipher_write_stream::<Twofish, _>(verified, cipher_key, iv)?
         }
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = chacha20_cipher(cipher_key, iv)?;
             EncryptWrite::Stream(Box::new(super::StreamCipherWriter::new(verified, cipher)))
         }
         _ => {
-- 
2.43.0


From 6d93a45057e0508ba86d9a6f9fcd27539c0111ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:22 +0000
Subject: [PATCH 10/26] fix: refuse unknown key derivation functions

Files naming an unknown key derivation function were protected with an
empty master key, independent of the credentials.
---
 src/crypto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 7f50c53..f81460e 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -108,7 +108,9 @@ impl ComposedKey {
 
                 Ok(MasterKey(transformed))
             }
-            _ => Ok(MasterKey(Vec::new())),
+            _ => Err(KeyGenerationError::UnimplementedKdfOptions(
+                kdf_options.clone(),
+            )),
         }
     }
 }
-- 
2.43.0


From 6818a95953275e3ed928deb1639c88bae155afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:23 +0000
Subject: [PATCH 11/26] fix: refuse Argon2 costs that do not fit instead of
 truncating them

Iteration counts and memory sizes above 32 bits were cut down, so keys
were derived with a much lower cost than the file states.
---
 src/crypto.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index f81460e..0befe92 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -74,13 +74,15 @@ impl ComposedKey {
                 lanes,
                 salt,
             } => {
+                let unsupported =
+                    |_| KeyGenerationError::UnimplementedKdfOptions(kdf_options.clone());
                 let config = argon2::Config {
                     variant: *variant,
                     version: argon2::Version::from_u32(*version)
                         .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     lanes: *lanes,
-                    mem_cost: (memory_bytes / 1024) as u32,
-                    time_cost: *iterations as u32,
+                    mem_cost: u32::try_from(memory_bytes / 1024).map_err(unsupported)?,
+                    time_cost: u32::try_from(*iterations).map_err(unsupported)?,
                     ..Default::default()
                 };
                 let hash = argon2::hash_raw(&self.0, salt, &config)
-- 
2.43.0


From f08c87730ba911c0b50f3bac9ccd05408b81c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:24 +0000
Subject: [PATCH 12/26] fix: refuse Argon2i when a key is set

KDBX cannot express Argon2i, and saving with it panicked.
---
 src/crypto.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crypto.rs b/src/crypto.rs
index 0befe92..47eea9c 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -66,6 +66,13 @@ impl ComposedKey {
         kdf_options: &binary::KdfParams,
     ) -> Result<MasterKey, KeyGenerationError> {
         match kdf_options {
+            // KDBX has no identifier for Argon2i
+            binary::KdfParams::Argon2 {
+                variant: argon2::Variant::Argon2i,
+                ..
+            } => Err(KeyGenerationError::UnimplementedKdfOptions(
+                kdf_options.clone(),
+            )),
             binary::KdfParams::Argon2 {
                 variant,
                 memory_bytes,
-- 
2.43.0


From 6b0fe81288accf06de62184897e011f1f76fc76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:02 +0000
Subject: [PATCH 13/26] fix: derive the key again when the KDF options change
 before a save

The key derived for the previous options was used with the new options in
the header, so the saved file could not be unlocked. A failed set_key
also no longer replaces half of the key.
---
 src/binary/errors.rs |  3 +++
 src/binary/kdbx.rs   | 22 +++++++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index 4f5ef04..9d1102b 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -91,6 +91,9 @@ pub enum WriteError {
     /// The database could not be written to as `set_key()` has not been called.
     #[error("No key to write database with")]
     MissingKeys,
+    /// The keys could not be generated with the current KDF options
+    #[error("Key generation failed - {0}")]
+    KeyGen(#[from] crypto::KeyGenerationError),
     /// The inner stream is invalid
     #[error("Cannot create inner stream to write protected values - {0}")]
     InnerStream(#[from] InnerStreamError),
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 44c1dfb..55bd46f 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -1,4 +1,4 @@
-use super::{errors, header};
+use super::{errors, header, header_fields};
 use crate::{crypto, database, stream};
 use std::io::{Read, Write};
 use std::ops::{Deref, DerefMut};
@@ -90,6 +90,8 @@ pub struct Unlocked {
     pub(crate) composed_key: Option<crypto::ComposedKey>,
     /// Master key used to derive other keys
     pub(crate) master_key: Option<crypto::MasterKey>,
+    /// KDF options the master key was generated with
+    pub(crate) master_key_params: Option<header_fields::KdfParams>,
     /// Unencrypted unparsed XML data
     pub(crate) xml_data: Option<Vec<u8>>,
     /// Actual password database data
@@ -141,9 +143,15 @@ impl KdbxState for Unlocked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
-        let master_key = self
-            .master_key
+        let updated_key = match &self.composed_key {
+            Some(key) if self.master_key_params.as_ref() != Some(&self.header.kdf_params) => {
+                Some(key.master_key(&self.header.kdf_params)?)
+            }
+            _ => None,
+        };
+        let master_key = updated_key
             .as_ref()
+            .or(self.master_key.as_ref())
             .ok_or(errors::WriteError::MissingKeys)?;
         let mut header_buf = Vec::new();
         let header_writer = &mut header_buf as &mut dyn Write;
@@ -182,9 +190,10 @@ impl Kdbx<Unlocked> {
         &mut self,
         key: crypto::CompositeKey,
     ) -> Result<(), crate::errors::KeyGenerationError> {
-        self.state.composed_key = Some(key.composed());
-        let composed_key = self.state.composed_key.as_ref().unwrap();
+        let composed_key = key.composed();
         self.state.master_key = Some(composed_key.master_key(&self.header().kdf_params)?);
+        self.state.master_key_params = Some(self.header().kdf_params.clone());
+        self.state.composed_key = Some(composed_key);
 
         Ok(())
     }
@@ -226,6 +235,7 @@ impl Kdbx<Unlocked> {
             xml_data: None,
             composed_key: None,
             master_key: None,
+            master_key_params: None,
             database,
         };
         Kdbx { state: unlocked }
@@ -375,6 +385,7 @@ impl Kdbx<Locked> {
             Ok((inner_header, data, db)) => Ok(Kdbx {
                 state: Unlocked {
                     inner_header,
+                    master_key_params: Some(self.state.header.kdf_params.clone()),
                     header: self.state.header,
                     major_version: self.state.major_version,
                     minor_version: self.state.minor_version,
@@ -415,6 +426,7 @@ impl Kdbx<Locked> {
                 Ok((inner_header, data, db)) => Ok(Kdbx {
                     state: Unlocked {
                         inner_header,
+                        master_key_params: Some(self.state.header.kdf_params.clone()),
                         header: self.state.header,
                         major_version: self.state.major_version,
                         minor_version: self.state.minor_version,
-- 
2.43.0


From ec95efaf438a18d80539ed08a170509f1d61037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:03 +0000
Subject: [PATCH 14/26] fix: write the header of a locked database as it was
 read

Header fields were written in a different order and layout, which broke
the header authentication code, so the copy could not be unlocked.
---
 src/binary/kdbx.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 55bd46f..34a8591 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -291,16 +291,10 @@ impl KdbxState for Locked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
-        let mut header_buf = Vec::new();
-        let header_writer = &mut header_buf as &mut dyn Write;
-        header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&super::KDBX_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&self.minor_version.to_le_bytes())?;
-        header_writer.write_all(&self.major_version.to_le_bytes())?;
-        self.header.write(&mut header_buf)?;
-        output.write_all(&header_buf)?;
+        // The header is authenticated with a key we don't have, so it has to stay as it was read
+        output.write_all(&self.header_data)?;
         if self.major_version >= 4 {
-            output.write_all(&crypto::sha256(&header_buf))?;
+            output.write_all(&crypto::sha256(&self.header_data))?;
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
-- 
2.43.0


From 7ba4b7d610d28ef13d69c77bdc379ca6b5fa39a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:04 +0000
Subject: [PATCH 15/26] fix: refuse to save an unlocked KDBX 3 database

The save produced a KDBX 4 layout labelled as version 3, which no reader
can open.
---
 src/binary/errors.rs | 3 +++
 src/binary/kdbx.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index 9d1102b..f9f6189 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -91,6 +91,9 @@ pub enum WriteError {
     /// The database could not be written to as `set_key()` has not been called.
     #[error("No key to write database with")]
     MissingKeys,
+    /// The archive version can only be read by this library
+    #[error("Writing kdbx version {0} is not supported")]
+    UnsupportedVersion(u16),
     /// The keys could not be generated with the current KDF options
     #[error("Key generation failed - {0}")]
     KeyGen(#[from] crypto::KeyGenerationError),
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 34a8591..1c6c84c 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -143,6 +143,9 @@ impl KdbxState for Unlocked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
+        if self.major_version < 4 {
+            return Err(errors::WriteError::UnsupportedVersion(self.major_version));
+        }
         let updated_key = match &self.composed_key {
             Some(key) if self.master_key_params.as_ref() != Some(&self.header.kdf_params) => {
                 Some(key.master_key(&self.header.kdf_params)?)
-- 
2.43.0


From ed267e604fd61f111430511888d791b258323607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:44 +0000
Subject: [PATCH 16/26] fix: accept the final block of KDBX 3 payloads

The final block is empty and carries a zero hash. It was treated as
corrupt, so uncompressed KDBX 3 files could not be unlocked.
---
 src/stream/kdbx3.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 8ba72dc..60e6117 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -33,7 +33,9 @@ where
         let len = u32::from_le_bytes(len_buf) as usize;
         self.buffer = utils::read_bytes(&mut self.inner, len)?;
         self.buf_idx = 0;
-        if crypto::verify_sha256(&self.buffer, &hash_buf) {
+        // The final block is empty and has an all zero hash
+        let is_final = len == 0 && hash_buf == [0u8; 32];
+        if is_final || crypto::verify_sha256(&self.buffer, &hash_buf) {
             Ok(len)
         } else {
             Err(io::Error::new(
-- 
2.43.0


From 26fafbeb68ad2c1550438550518bb97681f70d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:45 +0000
Subject: [PATCH 17/26] fix: report XML documents with a different root element

The parser never returned when the document did not contain a KeePassFile
element.
---
 src/xml/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index b4f9f6c..24f6b98 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -16,6 +16,9 @@ pub enum Error {
     /// Error from the underlying XML parser
     #[error("Error parsing database XML: {0}")]
     Xml(String),
+    /// The document is not a KeePass database
+    #[error("Root element is not KeePassFile")]
+    MissingRootElement,
     /// A field has an empty name
     #[error("A field has an empty name")]
     KeyEmptyName,
@@ -353,6 +356,7 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
+            XmlEvent::EndDocument => return Err(Error::MissingRootElement),
             _ => {}
         }
     }
-- 
2.43.0


From 81d41e3221f0ed2d64e34fced9d2426b9a9c78c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:46 +0000
Subject: [PATCH 18/26] fix: keep a root group when the document has none

A document without groups produced a database whose root group could not
be accessed without a panic.
---
 src/xml/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 24f6b98..5a39749 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -350,7 +350,11 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Root" => {
-                db.groups = parse_root(xml_event_reader, stream_cipher)?;
+                let groups = parse_root(xml_event_reader, stream_cipher)?;
+                // A database always has a root group
+                if !groups.is_empty() {
+                    db.groups = groups;
+                }
             }
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
-- 
2.43.0


From 2ab3b67fd86f0699cbc9c5f5ebb04ebc3b3628e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:47 +0000
Subject: [PATCH 19/26] fix: report timestamps that are out of range

Decoding a very large count of seconds panicked.
---
 src/xml/decoders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml/decoders.rs b/src/xml/decoders.rs
index 376a303..f125f7c 100644
--- a/src/xml/decoders.rs
+++ b/src/xml/decoders.rs
@@ -22,7 +22,7 @@ pub(crate) fn decode_datetime_b64(b64date: &str) -> Option<NaiveDateTime> {
     let mut bytes = [0u8; 8];
     let copy_size = usize::min(bytes.len(), decoded.len());
     bytes[..copy_size].copy_from_slice(&decoded[..copy_size]);
-    let timestamp = Duration::seconds(i64::from_le_bytes(bytes));
+    let timestamp = Duration::try_seconds(i64::from_le_bytes(bytes))?;
 
     keepass_epoch().checked_add_signed(timestamp)
 }
-- 
2.43.0


From eb386a095455529cc6d5706645b47f53fb3c5475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:47 +0000
Subject: [PATCH 20/26] fix: read the one-time-password period from its own
 parameter

The period was parsed from the secret.
---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index 9bc2c4b..acfd3f0 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -908,7 +908,7 @@ impl<'a> Otp<'a> {
 
     /// Return the period for which passwords are valid
     pub fn period(&self) -> Option<u32> {
-        self.find_url_param("secret").and_then(|p| p.parse().ok())
+        self.find_url_param("period").and_then(|p| p.parse().ok())
     }
 
     /// Return the number of digits in the resulting code
-- 
2.43.0


From 7694abfe172f840449548431f4fc261c9e42c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:48 +0000
Subject: [PATCH 21/26] fix: keep the padding of one-time-password secrets

Everything after a second equals sign in a parameter was dropped, so
padded base32 secrets were cut short.
---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index acfd3f0..ad94884 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -892,7 +892,7 @@ impl<'a> Otp<'a> {
         let params = params.split('&');
 
         for param in params {
-            let mut param_parts = param.split('=');
+            let mut param_parts = param.splitn(2, '=');
             let pkey = param_parts.next()?;
             if pkey == key {
                 return param_parts.next();
-- 
2.43.0


From 5e905fe55b0a6b31a75d841a50ec858b091b8951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:49 +0000
Subject: [PATCH 22/26] fix: keep the protection of empty fields

An emptied protected field was reported and saved as unprotected, so the
next value put into it was stored in the clear.
---
 src/database.rs      | 2 +-
 src/xml/parse.rs     | 2 ++
 src/xml/serialize.rs | 6 +++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index ad94884..091832e 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -178,7 +178,7 @@ impl Field {
     /// Note: This is instructional for official clients, this library does not
     /// support memory protection
     pub fn protected(&self) -> bool {
-        matches!(self.value, Value::Protected(_))
+        matches!(self.value, Value::Protected(_) | Value::ProtectEmpty)
     }
 
     /// Set whether memory protection and extra encryption should be applied
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 5a39749..201eb25 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -137,6 +137,8 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     } else {
                         Value::Standard(contents)
                     }
+                } else if protected {
+                    Value::ProtectEmpty
                 } else {
                     Value::Empty
                 }
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index f021aa7..e074884 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -58,10 +58,14 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
             writer.write(XmlEvent::end_element())?;
         }
         Value::Standard(v) => write_string_tag(writer, "Value", v)?,
-        Value::Empty | Value::ProtectEmpty => {
+        Value::Empty => {
             writer.write(XmlEvent::start_element("Value"))?;
             writer.write(XmlEvent::end_element())?;
         }
+        Value::ProtectEmpty => {
+            writer.write(XmlEvent::start_element("Value").attr("Protected", "True"))?;
+            writer.write(XmlEvent::end_element())?;
+        }
     }
     writer.write(XmlEvent::end_element())?;
     Ok(())
-- 
2.43.0


From ac8c93cf3a9d9c0388fd01b218004df9094c9951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:04 +0000
Subject: [PATCH 23/26] fix: keep the protection of titles, user names and URLs
 when set

Setting one of them on an entry whose field was protected made the field
unprotected.
---
 src/database.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 091832e..7788981 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -364,7 +364,7 @@ impl Entry {
     pub fn set_title<S: ToString>(&mut self, title: S) {
         let title = title.to_string();
         match self.find_mut("Title") {
-            Some(f) => f.value = Value::Standard(title),
+            Some(f) => f.set_value(&title),
             None => self.fields.push(Field::new("Title", &title)),
         }
     }
@@ -378,7 +378,7 @@ impl Entry {
     pub fn set_username<S: ToString>(&mut self, username: S) {
         let username = username.to_string();
         match self.find_mut("UserName") {
-            Some(f) => f.value = Value::Standard(username),
+            Some(f) => f.set_value(&username),
             None => self.fields.push(Field::new("UserName", &username)),
         }
     }
@@ -392,7 +392,7 @@ impl Entry {
     pub fn set_url<S: ToString>(&mut self, url: S) {
         let url = url.to_string();
         match self.find_mut("URL") {
-            Some(f) => f.value = Value::Standard(url),
+            Some(f) => f.set_value(&url),
             None => self.fields.push(Field::new("URL", &url)),
         }
     }
-- 
2.43.0


From a4f41ce4888eb846a3cf94067a75b2a4a18c6bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:05 +0000
Subject: [PATCH 24/26] fix: keep white space at the ends of text

Leading and trailing white space of names and values was removed when a
document was read, which changed passwords.
---
 src/xml/parse.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 201eb25..65f02e1 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -68,6 +68,9 @@ macro_rules! parse_numeric_type {
     ($name:ident, $ty:ty) => {
         fn $name<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<$ty>> {
             parse_string(xml_event_reader)?
+                .as_deref()
+                .map(str::trim)
+                .filter(|num| !num.is_empty())
                 .map(|num| num.parse())
                 .transpose()
                 .map_err(|_| Error::InvalidNumber)
@@ -79,19 +82,19 @@ parse_numeric_type!(parse_u32, u32);
 
 fn parse_uuid<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Uuid> {
     parse_string(xml_event_reader)?
-        .and_then(|uuid| decode_uuid(&uuid))
+        .and_then(|uuid| decode_uuid(uuid.trim()))
         .ok_or(Error::InvalidUuid)
 }
 
 fn parse_datetime<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<NaiveDateTime> {
     parse_string(xml_event_reader)?
-        .and_then(|dt| decode_datetime(&dt))
+        .and_then(|dt| decode_datetime(dt.trim()))
         .ok_or(Error::InvalidDatetime)
 }
 
 fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
     Ok(parse_string(xml_event_reader)?
-        .map(|b| b.to_lowercase() == "true")
+        .map(|b| b.trim().to_lowercase() == "true")
         .unwrap_or_default())
 }
 
@@ -118,7 +121,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
                         let key_clone = field.key.clone();
-                        match BASE64_STANDARD.decode(&contents) {
+                        match BASE64_STANDARD.decode(contents.trim()) {
                             Ok(mut decoded) => {
                                 stream_cipher
                                     .try_apply_keystream(decoded.as_mut())
@@ -380,7 +383,7 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     stream_cipher: &mut S,
 ) -> Result<Database> {
     let xml_config = xml::ParserConfig::new()
-        .trim_whitespace(true)
+        .whitespace_to_characters(true)
         .cdata_to_characters(true);
     let mut xml_event_reader = EventReader::new_with_config(xml_data, xml_config);
     parse_file(&mut xml_event_reader, stream_cipher)
-- 
2.43.0


From 79e34366d86c9c2257d6676f49ed8e32f4234bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:24 +0000
Subject: [PATCH 25/26] fix: refuse to write characters that XML cannot
 represent

Control characters in names or values were written as they are, so the
saved database could not be opened again.
---
 src/xml/serialize.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index e074884..5700434 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -4,6 +4,7 @@ use base64::prelude::{Engine, BASE64_STANDARD};
 use cipher::StreamCipher;
 use std::io::Write;
 use thiserror::Error;
+use xml::common::is_xml10_char;
 use xml::writer::events::XmlEvent;
 use xml::writer::EventWriter as XmlWriter;
 
@@ -16,6 +17,9 @@ pub enum Error {
     /// Failure of stream cipher when encrypting a value
     #[error("Error encountered encrypting with a stream cipher: {0}")]
     Cipher(String),
+    /// A name or unprotected value has a character that XML can't represent
+    #[error("Character {0:?} can't be stored in XML")]
+    InvalidCharacter(char),
 }
 
 type Result<T> = std::result::Result<T, Error>;
@@ -32,6 +36,9 @@ fn write_string_tag<W: Write, S: AsRef<str>>(
     name: &str,
     value: S,
 ) -> Result<()> {
+    if let Some(c) = value.as_ref().chars().find(|c| !is_xml10_char(*c)) {
+        return Err(Error::InvalidCharacter(c));
+    }
     writer.write(XmlEvent::start_element(name))?;
     writer.write(XmlEvent::characters(value.as_ref()))?;
     writer.write(XmlEvent::end_element())?;
-- 
2.43.0


From ffc3b6e946421c34204256ed7e44c1f55be448af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:25 +0000
Subject: [PATCH 26/26] fix: refuse to write fields without a name

The reader rejects fields with an empty name, so a database holding one
was saved in a form that could not be opened again.
---
 src/xml/serialize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 5700434..66474ec 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -17,6 +17,9 @@ pub enum Error {
     /// Failure of stream cipher when encrypting a value
     #[error("Error encountered encrypting with a stream cipher: {0}")]
     Cipher(String),
+    /// A field has an empty name
+    #[error("A field has an empty name")]
+    KeyEmptyName,
     /// A name or unprotected value has a character that XML can't represent
     #[error("Character {0:?} can't be stored in XML")]
     InvalidCharacter(char),
@@ -51,6 +54,9 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
     field: &Field,
     stream_cipher: &mut S,
 ) -> Result<()> {
+    if field.key.is_empty() {
+        return Err(Error::KeyEmptyName);
+    }
     writer.write(XmlEvent::start_element(wrapper))?;
     write_string_tag(writer, "Key", &field.key)?;
     match &field.value {
-- 
2.43.0

