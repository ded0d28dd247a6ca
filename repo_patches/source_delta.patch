From 7fe8dfb0b2317eeeba4739d3e9b075946b8cfff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:48 +0000
Subject: [PATCH 01/10] fix: return an error instead of panicking on truncated
 encoded input

---
 stacks/src/clarity/impl.rs        | 46 ++++++++++++++++++++++++++++++-
 stacks/src/clarity/mod.rs         | 13 +++++++++
 stacks/src/transaction/payload.rs |  8 ++++++
 3 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 75d6030..0a62813 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -10,6 +10,7 @@ use std::fmt::Debug;
 use std::fmt::Display;
 
 use crate::clarity::decode_clarity_type;
+use crate::clarity::ensure_len;
 use crate::clarity::Buffer;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
@@ -46,6 +47,8 @@ impl Codec for Int {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 17)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -99,6 +102,8 @@ impl Codec for UInt {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 17)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -153,12 +158,15 @@ impl Codec for Buffer {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 5)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
         let mut offset = 5;
+        ensure_len(&bytes[offset..], len as usize)?;
 
         let mut buff = vec![];
 
@@ -225,6 +233,8 @@ impl Codec for True {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -262,6 +272,8 @@ impl Codec for False {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -302,6 +314,8 @@ impl Codec for PrincipalStandard {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 22)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -361,11 +375,14 @@ impl Codec for PrincipalContract {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 23)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
         let addr = c32_address(&bytes[2..22], bytes[1])?;
+        ensure_len(bytes, 23 + bytes[22] as usize)?;
         let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
         Ok(Self::new((addr, name)))
     }
@@ -412,6 +429,8 @@ impl Codec for ResponseOk {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -450,6 +469,8 @@ impl Codec for ResponseErr {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -488,6 +509,8 @@ impl Codec for OptionalSome {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -524,6 +547,8 @@ impl Codec for OptionalNone {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -568,6 +593,8 @@ impl Codec for List {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 5)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -578,6 +605,7 @@ impl Codec for List {
         let mut values = vec![];
 
         for _ in 0..len {
+            ensure_len(bytes, offset)?;
             let value = decode_clarity_type(&bytes[offset..])?;
             offset += value.encode()?.len();
             values.push(value);
@@ -701,6 +729,8 @@ impl Codec for Tuple {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 5)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -711,7 +741,9 @@ impl Codec for Tuple {
         let mut values = vec![];
 
         for _ in 0..len {
+            ensure_len(bytes, offset + 1)?;
             let k_len = bytes[offset] as usize;
+            ensure_len(bytes, offset + 1 + k_len)?;
             let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
             offset += 1 + k_len;
             let value = decode_clarity_type(&bytes[offset..])?;
@@ -782,11 +814,14 @@ impl Codec for StringAscii {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 5)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        ensure_len(&bytes[5..], len as usize)?;
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
     }
@@ -823,7 +858,10 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        ensure_len(&bytes[5..], len as usize)?;
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
     }
@@ -865,6 +903,9 @@ impl Codec for LengthPrefixedStr {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
+        ensure_len(bytes, 1 + bytes[0] as usize)?;
         Ok(Self::new(String::from_utf8(
             bytes[1..=(bytes[0] as usize)].to_vec(),
         )?))
@@ -917,14 +958,17 @@ impl Codec for FnArguments {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 4)?;
+
         let (len, mut remainder) = bytes.split_at(4);
         let num = u32::from_be_bytes(len.try_into()?) as usize;
 
-        let mut __value = Vec::with_capacity(num);
+        let mut __value = vec![];
 
         for _ in 0..num {
             let arg = decode_clarity_type(remainder)?;
 
+            ensure_len(remainder, arg.len()?)?;
             remainder = &remainder[arg.len()?..];
             __value.push(arg);
         }
diff --git a/stacks/src/clarity/mod.rs b/stacks/src/clarity/mod.rs
index a2c1b42..1f1b839 100644
--- a/stacks/src/clarity/mod.rs
+++ b/stacks/src/clarity/mod.rs
@@ -38,6 +38,9 @@ pub enum Error {
     /// Decoding a type with an unknown type identifier.
     #[error("Unexpected type identifier - received: {0}")]
     UnexpectedType(u8),
+    /// Received fewer bytes than the encoded value requires.
+    #[error("Unexpected end of input - expected at least {0} bytes, received: {1}")]
+    UnexpectedEnd(usize, usize),
     /// `crypto::c32` crate errors.
     #[error(transparent)]
     C32(#[from] crypto::c32::Error),
@@ -170,8 +173,18 @@ impl_clarity_primitive!(StringUtf8, String, CLARITY_TYPE_STRING_UTF8);
 impl_clarity_primitive!(LengthPrefixedStr, String, CLARITY_TYPE_NON_STD);
 impl_clarity_primitive!(FnArguments, Vec<Box<dyn Clarity>>, CLARITY_TYPE_NON_STD);
 
+/// Checks that the input contains at least the expected number of bytes.
+pub(crate) fn ensure_len(bytes: &[u8], expected: usize) -> Result<(), Error> {
+    if bytes.len() < expected {
+        return Err(Error::UnexpectedEnd(expected, bytes.len()));
+    }
+
+    Ok(())
+}
+
 /// Decodes a Clarity type from encoded bytes.
 pub fn decode_clarity_type(bytes: &[u8]) -> Result<Box<dyn Clarity>, Error> {
+    ensure_len(bytes, 1)?;
     let tag = bytes[0];
 
     match tag {
diff --git a/stacks/src/transaction/payload.rs b/stacks/src/transaction/payload.rs
index 7a570d1..3d81799 100644
--- a/stacks/src/transaction/payload.rs
+++ b/stacks/src/transaction/payload.rs
@@ -13,6 +13,7 @@ use dyn_clone::DynClone;
 
 use crate::clarity;
 use crate::clarity::decode_clarity_type;
+use crate::clarity::ensure_len;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
 use crate::clarity::FnArguments;
@@ -38,6 +39,8 @@ impl Codec for Box<dyn Payload> {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         match bytes[0] {
             PAYLOAD_TYPE_TOKEN_TRANSFER => {
                 let payload = TokenTransferPayload::decode(bytes)?;
@@ -102,6 +105,8 @@ impl Codec for TokenTransferPayload {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != PAYLOAD_TYPE_TOKEN_TRANSFER {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
@@ -112,6 +117,7 @@ impl Codec for TokenTransferPayload {
         let addr_len = address.len()?;
 
         offset += addr_len;
+        ensure_len(bytes, offset + 8 + 34)?;
 
         let amount_bytes = &bytes[offset..offset + 8];
         let amount = u64::from_be_bytes(amount_bytes.try_into()?);
@@ -175,6 +181,8 @@ impl Codec for ContractCallPayload {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 22)?;
+
         if bytes[0] != PAYLOAD_TYPE_CONTRACT_CALL {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
-- 
2.43.0


From 756d3e5567d543a9156fdc50339083377835d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:48 +0000
Subject: [PATCH 02/10] fix: check the type identifier when decoding a UTF-8
 string

---
 stacks/src/clarity/impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 0a62813..9651305 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -860,6 +860,10 @@ impl Codec for StringUtf8 {
     {
         ensure_len(bytes, 5)?;
 
+        if bytes[0] != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        }
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
         ensure_len(&bytes[5..], len as usize)?;
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
-- 
2.43.0


From ff3283a0b615df3a1aea44a7f37f603ce5bc7be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:48 +0000
Subject: [PATCH 03/10] fix: reject non-ASCII bytes when decoding an ASCII
 string

---
 stacks/src/clarity/impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 9651305..26a19d5 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -823,6 +823,11 @@ impl Codec for StringAscii {
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
         ensure_len(&bytes[5..], len as usize)?;
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
+
+        if !str.is_ascii() {
+            return Err(Error::BadStringType("Ascii".to_string()));
+        }
+
         Ok(Self::new(str))
     }
 }
-- 
2.43.0


From c86c18bf6321f709187047ffbe6fcba197b25f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:48 +0000
Subject: [PATCH 04/10] fix: reject names longer than 128 bytes when decoding

---
 stacks/src/clarity/impl.rs | 4 ++++
 stacks/src/clarity/mod.rs  | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 26a19d5..7ff1a3c 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -11,6 +11,7 @@ use std::fmt::Display;
 
 use crate::clarity::decode_clarity_type;
 use crate::clarity::ensure_len;
+use crate::clarity::ensure_name_len;
 use crate::clarity::Buffer;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
@@ -382,6 +383,7 @@ impl Codec for PrincipalContract {
         }
 
         let addr = c32_address(&bytes[2..22], bytes[1])?;
+        ensure_name_len(bytes[22])?;
         ensure_len(bytes, 23 + bytes[22] as usize)?;
         let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
         Ok(Self::new((addr, name)))
@@ -742,6 +744,7 @@ impl Codec for Tuple {
 
         for _ in 0..len {
             ensure_len(bytes, offset + 1)?;
+            ensure_name_len(bytes[offset])?;
             let k_len = bytes[offset] as usize;
             ensure_len(bytes, offset + 1 + k_len)?;
             let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
@@ -914,6 +917,7 @@ impl Codec for LengthPrefixedStr {
     {
         ensure_len(bytes, 1)?;
 
+        ensure_name_len(bytes[0])?;
         ensure_len(bytes, 1 + bytes[0] as usize)?;
         Ok(Self::new(String::from_utf8(
             bytes[1..=(bytes[0] as usize)].to_vec(),
diff --git a/stacks/src/clarity/mod.rs b/stacks/src/clarity/mod.rs
index 1f1b839..03f6f25 100644
--- a/stacks/src/clarity/mod.rs
+++ b/stacks/src/clarity/mod.rs
@@ -182,6 +182,15 @@ pub(crate) fn ensure_len(bytes: &[u8], expected: usize) -> Result<(), Error> {
     Ok(())
 }
 
+/// Checks that the length of a name does not exceed the maximum of 128 bytes.
+pub(crate) fn ensure_name_len(len: u8) -> Result<(), Error> {
+    if len > 128 {
+        return Err(Error::BadStringLength(len as usize, 128));
+    }
+
+    Ok(())
+}
+
 /// Decodes a Clarity type from encoded bytes.
 pub fn decode_clarity_type(bytes: &[u8]) -> Result<Box<dyn Clarity>, Error> {
     ensure_len(bytes, 1)?;
-- 
2.43.0


From aff05aa6c0f61a6c040a254eb54cb5cc790efb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:48 +0000
Subject: [PATCH 05/10] fix: verify the origin of a standard authorization

---
 stacks/src/transaction/auth.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index c1042fd..e3f3601 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -93,6 +93,8 @@ impl Auth {
             let origin = origin.verify(hash.into(), AUTH_TYPE_STANDARD)?;
             let auth_type = AUTH_TYPE_SPONSORED;
             sponsor.verify(origin, auth_type)?;
+        } else {
+            self.verify_origin(hash)?;
         }
 
         Ok(())
-- 
2.43.0


From 0def7fa8aa83d8e029f5771c38a914f9b99b6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:48 +0000
Subject: [PATCH 06/10] fix: return an error instead of panicking on malformed
 Base58 input

---
 stacks/src/crypto/b58.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index d0071fa..4667a18 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -33,6 +33,9 @@ pub enum Error {
     /// Received a character that is not in the `Base58` alphabet.
     #[error("Bad character encountered: {0}")]
     BadChar(char),
+    /// Attempted to decode a `Base58Check` string that is too short.
+    #[error("Bad input length, expected at least 5 bytes - received: {0}")]
+    BadLength(usize),
     /// Expected and received checksums are different.
     #[error("Bad checksum - expected {0}, received: {1}")]
     BadChecksum(String, String),
@@ -116,6 +119,10 @@ where
     let mut buff = vec![0u8; str.len() * 733 / 1000 + 1];
 
     for c in str.chars() {
+        if c as usize >= B58_BYTE_MAP.len() {
+            return Err(Error::BadChar(c));
+        }
+
         let index = B58_BYTE_MAP[c as usize];
 
         if index == -1 {
@@ -175,6 +182,10 @@ where
     let buff = b58_decode(str)?;
     let buff_max = buff.len();
 
+    if buff_max < 5 {
+        return Err(Error::BadLength(buff_max));
+    }
+
     let checksum = &buff[buff_max - 4..];
     let data = buff[1..buff_max - 4].to_vec();
 
-- 
2.43.0


From f409427a8744188b91cc3eced5a5acf9c75471f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:48 +0000
Subject: [PATCH 07/10] fix: return an error instead of panicking on malformed
 C32Check input

---
 stacks/src/crypto/c32.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 8b3085a..ab31361 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -216,6 +216,10 @@ where
 {
     let hash = hash.as_ref();
 
+    if version as usize >= C32_ALPHABET.len() {
+        return Err(Error::UnknownAddressVersion(version));
+    }
+
     let mut check = vec![version];
     check.extend_from_slice(hash);
     let checksum = DSha256Hash::from_slice(&check).checksum();
@@ -240,6 +244,10 @@ where
         return Err(Error::BadInput);
     }
 
+    if str.is_empty() {
+        return Err(Error::BadInput);
+    }
+
     let (ver, data) = str.split_at(1);
     let decoded = c32_decode(data)?;
 
-- 
2.43.0


From ee4ee65ed673604665a917ca22f5d62ea80a48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:48 +0000
Subject: [PATCH 08/10] fix: reject C32 addresses that do not hold a 20-byte
 hash

---
 stacks/src/crypto/c32.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index ab31361..3493227 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -8,6 +8,7 @@
 
 use secp256k1::PublicKey;
 
+use crate::crypto::hash::HASH160_ENCODED_SIZE;
 use crate::crypto::DSha256Hash;
 use crate::crypto::Hash160;
 use crate::crypto::Sha256Hash;
@@ -299,7 +300,13 @@ where
         return Err(Error::BadAddress(str));
     }
 
-    c32check_decode(&str[1..])
+    let (hash, version) = c32check_decode(&str[1..])?;
+
+    if hash.len() != HASH160_ENCODED_SIZE {
+        return Err(Error::BadAddress(str));
+    }
+
+    Ok((hash, version))
 }
 
 /// Hashes a public key to a P2PKH address.
-- 
2.43.0


From 0dcd2ea61d89c127d99220a64cfd73e1b5b85ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:57 +0000
Subject: [PATCH 09/10] fix: do not encode all-zero Base58 input with an extra
 leading digit

---
 stacks/src/crypto/b58.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index 4667a18..638f5f3 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -73,7 +73,7 @@ where
     }
 
     let mut result = Vec::with_capacity(data.len() * 138 / 100 + 1);
-    let mut buff = data.to_vec();
+    let mut buff = data[zeros..].to_vec();
 
     while !buff.is_empty() {
         let mut rem = 0;
-- 
2.43.0


From ea1abae33d24039e4b7ef27f57d5640dacb162c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:44 +0000
Subject: [PATCH 10/10] fix: clarity!(Buffer) did not compile

---
 stacks/src/clarity/macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/clarity/macro.rs b/stacks/src/clarity/macro.rs
index 7d228a9..002f897 100644
--- a/stacks/src/clarity/macro.rs
+++ b/stacks/src/clarity/macro.rs
@@ -13,7 +13,7 @@ macro_rules! clarity {
     (Int, $x:expr) => ($crate::clarity::Int::new($x));
     (UInt, $x:expr) => ($crate::clarity::UInt::new($x));
     (Buffer, $x:expr) => ($crate::clarity::Buffer::new($x.to_vec()));
-    (Buffer) => (@empty, Buffer);
+    (Buffer) => (clarity!(@empty, Buffer));
     (True) => ($crate::clarity::True::new());
     (False) => ($crate::clarity::False::new());
     (PrincipalStandard, $x:expr) => ($crate::clarity::PrincipalStandard::new($x.to_string()));
-- 
2.43.0

