From 08033dec494e1bce0ba8f2fbd6def74249d4aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 01/26] hook: wire codecs and session access for verification,
 under cfg http_ntlm_verif

---
 src/client.rs | 11 ++++++++++
 src/lib.rs    |  3 +++
 src/verif.rs  | 61 +++++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 75 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/client.rs b/src/client.rs
index 117a26c..f810b9d 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -295,6 +295,17 @@ where
     }
 }
 
+#[cfg(http_ntlm_verif)]
+impl<V> Client<V> {
+    /// Verification hook: the messages of the completed handshake, if there is one.
+    pub fn verif_session(&self) -> Option<(&Negotiate, &Challenge, &Authenticate)> {
+        match self.state {
+            ClientState::AuthenticateSent(ref n, ref c, ref a) => Some((n, c, a)),
+            _ => None,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 31511ab..dba6fb0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,3 +8,6 @@ pub mod messages;
 
 #[cfg(target_family = "windows")]
 mod win;
+
+#[cfg(http_ntlm_verif)]
+pub mod verif;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..c6a6dbe
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,61 @@
+//! Verification hooks, compiled only with `--cfg http_ntlm_verif`: access to the crate-private wire
+//! codecs, so that a harness outside of the crate can encode and decode messages.
+
+use crate::messages::{structures::*, Authenticate, Challenge, Flags, Negotiate, Wire};
+
+/// Encodes `value`, returns the bytes and the byte count reported by the encoder.
+fn encode<'a, T: Wire<'a>>(value: &T) -> (Vec<u8>, usize) {
+    let mut data = Vec::new();
+    let size = value.serialize_into(&mut data).unwrap();
+    (data, size)
+}
+
+/// Decodes a value from `input`, returns it with the number of bytes left over.
+fn decode<'a, T: Wire<'a>>(input: &'a [u8]) -> Option<(T, usize)> {
+    match T::deserialize::<nom::error::Error<&'a [u8]>>(input) {
+        Ok((rest, value)) => Some((value, rest.len())),
+        Err(_) => None,
+    }
+}
+
+macro_rules! expose {
+    ($($module:ident: $type:ty,)*) => {
+        $(
+            pub mod $module {
+                #[allow(unused_imports)]
+                use super::*;
+
+                pub fn encode(value: &$type) -> (Vec<u8>, usize) {
+                    super::encode(value)
+                }
+
+                pub fn decode(input: &[u8]) -> Option<($type, usize)> {
+                    super::decode(input)
+                }
+            }
+        )*
+    };
+}
+
+expose! {
+    negotiate: Negotiate,
+    challenge: Challenge,
+    authenticate: Authenticate,
+    flags: Flags,
+    version: Version,
+    filetime: FileTime,
+    single_host_data: SingleHostData,
+    av_flags: MsvAvFlags,
+    av_pair: AvPair,
+    av_pairs: Vec<AvPair>,
+    lmv1: Lmv1Challenge,
+    lmv2: Lmv2Challenge,
+    lm: LmChallenge,
+    ntv1: Ntv1Challenge,
+    ntv2: Ntv2Challenge,
+    nt: NtChallenge,
+    signature: MessageSignature,
+    mic: Mic,
+    server_challenge: ServerChallenge,
+    session_key: EncryptedRandomSessionKey,
+}
-- 
2.43.0


From 7a1534ec771c59caa359caf587fe496ff6a7a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 02/26] fix: reject messages whose field descriptors reach
 outside of the message instead of panicking

---
 src/messages/authenticate.rs | 13 +++++++------
 src/messages/field.rs        | 20 +++++++++++++++++---
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/messages/authenticate.rs b/src/messages/authenticate.rs
index 9dd3524..00a61a7 100644
--- a/src/messages/authenticate.rs
+++ b/src/messages/authenticate.rs
@@ -145,15 +145,16 @@ impl<'a> Wire<'a> for Authenticate {
         let lm_challenge_response = if negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM) {
             lm_challenge_response_field
                 .get_data_if::<Lmv1Challenge, E>("lmv1_challenge_response", input, true)
-                .ok()
-                .flatten()
-                .map(|c| c.into())
+                .map(|c| c.map(LmChallenge::from))
         } else {
             lm_challenge_response_field
                 .get_data_if::<Lmv2Challenge, E>("lmv2_challenge_response", input, true)
-                .ok()
-                .flatten()
-                .map(|c| c.into())
+                .map(|c| c.map(LmChallenge::from))
+        };
+        // A response of an unknown format is ignored, but not one outside of the message
+        let lm_challenge_response = match lm_challenge_response {
+            Err(nom::Err::Failure(e)) => return Err(nom::Err::Failure(e)),
+            response => response.ok().flatten(),
         };
         let nt_challenge_response =
             nt_challenge_response_field.get_data_if("nt_challenge_response", input, true)?;
diff --git a/src/messages/field.rs b/src/messages/field.rs
index b76411f..94a415e 100644
--- a/src/messages/field.rs
+++ b/src/messages/field.rs
@@ -6,7 +6,7 @@ use crate::messages::{
     NomError, Wire,
 };
 
-use nom::error::context;
+use nom::error::{context, ErrorKind};
 use nom::multi::many0;
 use nom::number::complete::{le_u16, le_u32};
 use nom::sequence::tuple;
@@ -55,6 +55,20 @@ impl Field {
         start..end
     }
 
+    /// Bytes designated by this field, or an error if they are not all part of `input`.
+    fn get_data<'a, E>(&self, typename: &'static str, input: &'a [u8]) -> Result<&'a [u8], nom::Err<E>>
+    where
+        E: NomError<'a>,
+    {
+        input.get(self.get_range()).ok_or_else(|| {
+            nom::Err::Failure(E::add_context(
+                input,
+                typename,
+                E::from_error_kind(input, ErrorKind::Eof),
+            ))
+        })
+    }
+
     pub(super) fn get_data_if<'a, T, E>(
         &self,
         typename: &'static str,
@@ -70,7 +84,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(None)
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_data(typename, input)?;
                 let (rest, value) =
                     context(typename, context("Field::get_data", T::deserialize))(data)?;
                 if !rest.is_empty() {
@@ -102,7 +116,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(Vec::new())
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_data(typename, input)?;
                 let (rest, value) = context("Field::get_data", many0(T::deserialize))(data)?;
                 if !rest.is_empty() {
                     log::warn!(
-- 
2.43.0


From dce9703b5cf077be5f12ae406d4273846c834218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 03/26] fix: reject target infos whose first pair is malformed
 instead of reading an empty list

---
 src/messages/challenge.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/messages/challenge.rs b/src/messages/challenge.rs
index f51e804..fb76052 100644
--- a/src/messages/challenge.rs
+++ b/src/messages/challenge.rs
@@ -189,15 +189,13 @@ impl<'a> Wire<'a> for Challenge {
         )?;
         let target_infos = target_infos_field.get_many_if("target_infos", input, true)?;
 
-        if let Some(last) = target_infos.last() {
-            if !matches!(last, AvPair::MsvAvEOL) {
-                let target_infos_data = &input[target_infos_field.get_range()];
-                return Err(nom::Err::Error(E::add_context(
-                    target_infos_data,
-                    "Challenge/TargetInfos/EOL",
-                    E::from_error_kind(target_infos_data, nom::error::ErrorKind::Verify),
-                )));
-            }
+        if target_infos_field.len != 0 && !matches!(target_infos.last(), Some(AvPair::MsvAvEOL)) {
+            let target_infos_data = &input[target_infos_field.get_range()];
+            return Err(nom::Err::Error(E::add_context(
+                target_infos_data,
+                "Challenge/TargetInfos/EOL",
+                E::from_error_kind(target_infos_data, nom::error::ErrorKind::Verify),
+            )));
         }
 
         Ok((
-- 
2.43.0


From 196d2dcf7f0893a2aea51d4edbc94644eb8534d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 04/26] fix: do not panic on AV pairs longer than their value
 in debug builds

---
 src/messages/structures/avid.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index 03ac26c..b3afd67 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -172,6 +172,16 @@ where
     Ok(written)
 }
 
+fn warn_remaining(id: AvId, rest: &[u8]) {
+    if !rest.is_empty() {
+        log::warn!(
+            "Not all is consumed for {:?}. {} bytes remaning",
+            id,
+            rest.len()
+        );
+    }
+}
+
 impl<'a> Wire<'a> for AvPair {
     fn serialize_into<W>(&self, writer: &mut W) -> io::Result<usize>
     where
@@ -241,53 +251,53 @@ impl<'a> Wire<'a> for AvPair {
             }
             AvId::MsvAvNbComputerName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                warn_remaining(id, r);
                 Ok((rest, Self::MsvAvNbComputerName(s.into())))
             }
             AvId::MsvAvNbDomainName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                warn_remaining(id, r);
                 Ok((rest, Self::MsvAvNbDomainName(s.into())))
             }
             AvId::MsvAvDnsComputerName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                warn_remaining(id, r);
                 Ok((rest, Self::MsvAvDnsComputerName(s.into())))
             }
             AvId::MsvAvDnsDomainName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                warn_remaining(id, r);
                 Ok((rest, Self::MsvAvDnsDomainName(s.into())))
             }
             AvId::MsvAvDnsTreeName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                warn_remaining(id, r);
                 Ok((rest, Self::MsvAvDnsTreeName(s.into())))
             }
             AvId::MsvAvFlags => {
                 let (r, f) = MsvAvFlags::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                warn_remaining(id, r);
                 Ok((rest, Self::MsvAvFlags(f)))
             }
             AvId::MsvAvTimestamp => {
                 let (r, ts) = FileTime::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                warn_remaining(id, r);
                 Ok((rest, Self::MsvAvTimestamp(ts)))
             }
             AvId::MsvAvSingleHost => {
                 let (r, shd) = SingleHostData::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                warn_remaining(id, r);
                 Ok((rest, Self::MsvAvSingleHost(shd)))
             }
             AvId::MsvAvTargetName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                warn_remaining(id, r);
                 Ok((rest, Self::MsvAvTargetName(s.into())))
             }
             AvId::MsvAvChannelBindings => {
                 let mut buf = [0u8; 16];
                 let (r, s) = take(buf.len())(data)?;
-                debug_assert_eq!(r.len(), 0);
+                warn_remaining(id, r);
                 buf.copy_from_slice(s);
                 Ok((rest, Self::MsvAvChannelBindings(buf)))
             }
-- 
2.43.0


From 7afa4b6e204fdd371af5ba49b6bea8d49b9ac5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 05/26] fix: decode surrogate pairs in Unicode strings and
 reject malformed UTF-16 instead of cutting the text

---
 src/messages/unicode_string.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/messages/unicode_string.rs b/src/messages/unicode_string.rs
index fe42c04..27aa9ac 100644
--- a/src/messages/unicode_string.rs
+++ b/src/messages/unicode_string.rs
@@ -2,9 +2,9 @@ use std::fmt;
 use std::io;
 use std::ops::{Deref, DerefMut};
 
-use nom::combinator::{map, map_opt};
+use nom::combinator::{map, map_opt, verify};
 use nom::error::context;
-use nom::multi::fold_many0;
+use nom::multi::many0;
 use nom::number::complete::le_u16;
 
 use crate::messages::{utils::write_u16, Wire};
@@ -108,20 +108,9 @@ impl<'a> Wire<'a> for UnicodeString {
         context(
             "Unicode string",
             map(
-                fold_many0(
-                    map_opt(le_u16, |b| {
-                        if b == 0 {
-                            None
-                        } else {
-                            char::decode_utf16(std::iter::once(b)).next().unwrap().ok()
-                        }
-                    }),
-                    String::new,
-                    |mut acc: String, c| {
-                        acc.push(c);
-                        acc
-                    },
-                ),
+                map_opt(many0(verify(le_u16, |b| *b != 0)), |units| {
+                    String::from_utf16(&units[..]).ok()
+                }),
                 |s| UnicodeString(s),
             ),
         )(input)
-- 
2.43.0


From 2fbef86f10da76279e97ac618eeb1f62c53a6865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 06/26] fix: do not panic on passwords with non-ASCII
 characters in the LM hash

---
 src/crypto/lm.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/crypto/lm.rs b/src/crypto/lm.rs
index 8dcb7ae..6e96c47 100644
--- a/src/crypto/lm.rs
+++ b/src/crypto/lm.rs
@@ -1,15 +1,9 @@
 use super::des::des7_encrypt;
 
-fn prepare_password(password: &str) -> String {
-    if password.len() < 14 {
-        let mut p = password.to_uppercase();
-        while p.len() < 14 {
-            p.push('\0');
-        }
-        p
-    } else {
-        (&password[..14]).to_uppercase()
-    }
+fn prepare_password(password: &str) -> Vec<u8> {
+    let mut p = password.to_uppercase().into_bytes();
+    p.resize(14, 0);
+    p
 }
 
 pub type LmHash = [u8; 16];
@@ -20,8 +14,8 @@ pub fn lmowfv1(password: &str) -> LmHash {
     let password = prepare_password(password);
     let (key1, key2) = password.split_at(7);
 
-    des7_encrypt(key1.as_bytes(), &magic[..], &mut lm_hash[..8]);
-    des7_encrypt(key2.as_bytes(), &magic[..], &mut lm_hash[8..]);
+    des7_encrypt(key1, &magic[..], &mut lm_hash[..8]);
+    des7_encrypt(key2, &magic[..], &mut lm_hash[8..]);
 
     lm_hash
 }
-- 
2.43.0


From bd18117e6afc60372c7558e177ca5099c9b51799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 07/26] fix: do not panic when /etc/hostname is empty

---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index f810b9d..c789504 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -259,7 +259,7 @@ where
             return Some(computer_name);
         }
         let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
-        let firstline = hostname.lines().next().unwrap();
+        let firstline = hostname.lines().next()?;
         if let Some((cn, _)) = firstline.split_once('.') {
             Some(cn.trim().to_uppercase())
         } else {
-- 
2.43.0


From 1d9f8f0b19e9e65514c63c827c9f77b872718ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 08/26] fix: count file times in 100 ns ticks since 1601

---
 src/messages/structures/filetime.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/messages/structures/filetime.rs b/src/messages/structures/filetime.rs
index 76ec5d4..7e710c5 100644
--- a/src/messages/structures/filetime.rs
+++ b/src/messages/structures/filetime.rs
@@ -11,25 +11,39 @@ pub struct FileTime {
     pub low: u32,
     pub high: u32,
 }
-const NANO_TO_MILLI: u64 = 1_000_000;
+/// A FILETIME counts intervals of 100 nanoseconds
+const TICKS_PER_SECOND: u64 = 10_000_000;
+/// Seconds between 1601-01-01, where a FILETIME starts, and UNIX_EPOCH
+const FILETIME_TO_UNIX_SECONDS: u64 = 11_644_473_600;
 
 impl TryFrom<SystemTime> for FileTime {
     type Error = Option<SystemTimeError>;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
-        let seconds = value.duration_since(UNIX_EPOCH).map_err(Some)?.as_secs();
-        let nsec = seconds.checked_mul(NANO_TO_MILLI).ok_or(None)?;
+        let since_epoch = value.duration_since(UNIX_EPOCH).map_err(Some)?;
+        let ticks = since_epoch
+            .as_secs()
+            .checked_add(FILETIME_TO_UNIX_SECONDS)
+            .and_then(|s| s.checked_mul(TICKS_PER_SECOND))
+            .and_then(|t| t.checked_add(u64::from(since_epoch.subsec_nanos() / 100)))
+            .ok_or(None)?;
         Ok(Self {
-            high: (nsec >> 32) as u32,
-            low: (nsec & 0xffff_ffff) as u32,
+            high: (ticks >> 32) as u32,
+            low: (ticks & 0xffff_ffff) as u32,
         })
     }
 }
 
 impl FileTime {
     pub fn to_system_time(&self) -> Option<SystemTime> {
-        let ts = self.as_u64() / NANO_TO_MILLI;
-        UNIX_EPOCH.checked_add(Duration::from_secs(ts))
+        let ticks = self.as_u64();
+        let since_1601 = Duration::new(
+            ticks / TICKS_PER_SECOND,
+            (ticks % TICKS_PER_SECOND) as u32 * 100,
+        );
+        UNIX_EPOCH
+            .checked_sub(Duration::from_secs(FILETIME_TO_UNIX_SECONDS))?
+            .checked_add(since_1601)
     }
 
     pub fn as_u64(&self) -> u64 {
-- 
2.43.0


From dee91f9abce9222adf159a3d321727a3bfb09db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 09/26] fix: derive the NTLMv1 key exchange key without
 challenges unless extended session security is negotiated

---
 src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index c789504..f745457 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -182,7 +182,10 @@ where
             &session_base_key,
             &lm_challenge.response[..8],
             &self.lm_hash,
-            Some(&challenge.server_challenge),
+            challenge
+                .negotiate_flags
+                .has_flag(flags::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY)
+                .then_some(&challenge.server_challenge),
         );
 
         let (exported_session_key, encrypted_random_session_key) =
-- 
2.43.0


From 45b15f7c0f8fd9eb13af630bbc6e4b96dcfa6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 10/26] fix: send an encrypted session key only when a key
 exchange was negotiated

---
 src/client.rs | 15 ++++++++++++---
 src/crypto.rs | 10 +++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index f745457..afbe2ad 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,7 +1,10 @@
 use std::marker::PhantomData;
 
 use crate::{
-    crypto::{encrypt_random_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1, ntlmv2},
+    crypto::{
+        encrypt_random_session_key, exchanges_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1,
+        ntlmv2,
+    },
     messages::{
         flags,
         structures::{AvPair, ClientChallenge, Version},
@@ -198,7 +201,10 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            exchanges_session_key(&challenge.negotiate_flags)
+                .then_some(encrypted_random_session_key),
+        );
         // auth.mic = mic;
         auth.exported_session_key = Some(exported_session_key);
         auth
@@ -238,7 +244,10 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            exchanges_session_key(&challenge.negotiate_flags)
+                .then_some(encrypted_random_session_key),
+        );
         auth.exported_session_key = Some(exported_session_key);
         auth.compute_mic(negotiate, challenge);
 
diff --git a/src/crypto.rs b/src/crypto.rs
index 3ab229e..f7e9ec7 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -89,14 +89,18 @@ pub fn kxkey(
     key_exchange_key
 }
 
+/// Tells whether a random session key has to be exchanged
+pub fn exchanges_session_key(flags: &Flags) -> bool {
+    flags.has_flag(NTLMSSP_NEGOTIATE_KEY_EXCH)
+        && (flags.has_flag(NTLMSSP_NEGOTIATE_SIGN) || flags.has_flag(NTLMSSP_NEGOTIATE_SEAL))
+}
+
 pub fn encrypt_random_session_key(
     flags: &Flags,
     key_exchange_key: &KeyExchangeKey,
     exported_session_key: Option<ExportedSessionKey>,
 ) -> (ExportedSessionKey, EncryptedRandomSessionKey) {
-    if flags.has_flag(NTLMSSP_NEGOTIATE_KEY_EXCH)
-        && (flags.has_flag(NTLMSSP_NEGOTIATE_SIGN) || flags.has_flag(NTLMSSP_NEGOTIATE_SEAL))
-    {
+    if exchanges_session_key(flags) {
         let exported_session_key = if let Some(e) = exported_session_key {
             e
         } else {
-- 
2.43.0


From 19356e513bc85fbbf1a32ba282d1bedc78d6b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 11/26] fix: keep the negotiated flags in NTLMv2 AUTHENTICATE
 messages

---
 src/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client.rs b/src/client.rs
index afbe2ad..246dd50 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -239,6 +239,7 @@ where
             encrypt_random_session_key(&challenge.negotiate_flags, &key_exchange_key, None);
 
         let mut auth = Authenticate::default();
+        auth.negotiate_flags = challenge.negotiate_flags;
         auth.lm_challenge_response = Some(lm_challenge.into());
         auth.nt_challenge_response = Some(nt_challenge.into());
         auth.domain = Some(self.domain.clone().into());
-- 
2.43.0


From 52a881cdce3cf8ae45114d4c9d24a8eeb48057ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 12/26] fix: compute the MIC over the AUTHENTICATE message that
 is sent

---
 src/client.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 246dd50..b040c22 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -211,7 +211,6 @@ where
     }
 
     fn send_authenticate_ntlmv2(&mut self, client_challenge: ClientChallenge) -> Authenticate {
-        let negotiate = self.get_negotiate();
         let challenge = self.get_challenge();
         let mut time = None;
         for val in &challenge.target_infos[..] {
@@ -250,8 +249,6 @@ where
                 .then_some(encrypted_random_session_key),
         );
         auth.exported_session_key = Some(exported_session_key);
-        auth.compute_mic(negotiate, challenge);
-
         auth
     }
 
@@ -301,6 +298,10 @@ where
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         auth.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);
+        if matches!(V::version(), 3 | 4 | 5) {
+            // The MIC covers the final message
+            auth.compute_mic(self.get_negotiate(), self.get_challenge());
+        }
         self.buffer.clear();
         auth.serialize_into(&mut self.buffer).unwrap();
         self.set_authenticated_state(auth);
-- 
2.43.0


From 3e5f1ca5cb1fb5a3fb6d8d3b62bdb174f18b51d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 13/26] fix: do not announce a version that the AUTHENTICATE
 message does not have

---
 src/client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index b040c22..89b438f 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -291,6 +291,9 @@ where
             auth.negotiate_flags
                 .set_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
             auth.version = Some(v);
+        } else {
+            auth.negotiate_flags
+                .clear_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
         }
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
-- 
2.43.0


From 671a4c4c3bceeb03388b49becd4b79eea58b9fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 14/26] fix: announce the Unicode names of AUTHENTICATE
 messages whatever the CHALLENGE selected

---
 src/client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index 89b438f..2efce41 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -297,7 +297,10 @@ where
         }
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
+        // Names are always sent in Unicode
         auth.negotiate_flags.clear_flag(flags::NTLM_NEGOTIATE_OEM);
+        auth.negotiate_flags
+            .set_flag(flags::NTLMSSP_NEGOTIATE_UNICODE);
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         auth.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);
-- 
2.43.0


From 3b2d52e034f233e0b05a0f54549e6270889b6f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 15/26] fix: keep the session key of the last AUTHENTICATE
 message when it is sent again

---
 src/client.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 2efce41..f81afd2 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -253,11 +253,14 @@ where
     }
 
     fn set_authenticated_state(&mut self, auth: Authenticate) {
-        if !matches!(self.state, ClientState::ChallengeReceived(_, _)) {
+        if !matches!(
+            self.state,
+            ClientState::ChallengeReceived(_, _) | ClientState::AuthenticateSent(_, _, _)
+        ) {
             return;
         }
         match std::mem::replace(&mut self.state, ClientState::New) {
-            ClientState::ChallengeReceived(n, c) => {
+            ClientState::ChallengeReceived(n, c) | ClientState::AuthenticateSent(n, c, _) => {
                 self.state = ClientState::AuthenticateSent(n, c, auth);
             }
             _ => unreachable!(),
-- 
2.43.0


From 4f3e090a859e8f64fcabf83812c01566a055b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 16/26] fix: tell LMv1 and LMv2 responses apart by the NT
 response next to them

---
 src/messages/authenticate.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/messages/authenticate.rs b/src/messages/authenticate.rs
index 00a61a7..f3b7e93 100644
--- a/src/messages/authenticate.rs
+++ b/src/messages/authenticate.rs
@@ -142,7 +142,15 @@ impl<'a> Wire<'a> for Authenticate {
         )(rest)?;
         let (_, mic) = context("Authenticate/mic", Mic::deserialize)(rest)?;
 
-        let lm_challenge_response = if negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM) {
+        let nt_challenge_response =
+            nt_challenge_response_field.get_data_if("nt_challenge_response", input, true)?;
+        // Both LM responses have the same size, the NT response tells which one it is
+        let is_ntlmv1 = match nt_challenge_response {
+            Some(NtChallenge::V1(_)) => true,
+            Some(_) => false,
+            None => negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM),
+        };
+        let lm_challenge_response = if is_ntlmv1 {
             lm_challenge_response_field
                 .get_data_if::<Lmv1Challenge, E>("lmv1_challenge_response", input, true)
                 .map(|c| c.map(LmChallenge::from))
@@ -156,8 +164,6 @@ impl<'a> Wire<'a> for Authenticate {
             Err(nom::Err::Failure(e)) => return Err(nom::Err::Failure(e)),
             response => response.ok().flatten(),
         };
-        let nt_challenge_response =
-            nt_challenge_response_field.get_data_if("nt_challenge_response", input, true)?;
         let domain = domain_field.get_data_if("domain", input, true)?;
         let user = user_field.get_data_if("user", input, true)?;
         let workstation = workstation_field.get_data_if("workstation", input, true)?;
-- 
2.43.0


From 663b5eef3fb5c25e9b234df6eedffd02d8994bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 17/26] fix: enable the flags checks of the strict feature

---
 src/messages/flags.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/messages/flags.rs b/src/messages/flags.rs
index ad18e92..2dbafd6 100644
--- a/src/messages/flags.rs
+++ b/src/messages/flags.rs
@@ -209,52 +209,52 @@ impl Flags {
 
         if flags.has_flag(R1) {
             log::warn!("flags.has_flag(R1)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R2) {
             log::warn!("flags.has_flag(R2)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R3) {
             log::warn!("flags.has_flag(R3)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R4) {
             log::warn!("flags.has_flag(R4)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R5) {
             log::warn!("flags.has_flag(R5)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R6) {
             log::warn!("flags.has_flag(R6)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R7) {
             log::warn!("flags.has_flag(R7)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R8) {
             log::warn!("flags.has_flag(R8)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R9) {
             log::warn!("flags.has_flag(R9)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R10) {
             log::warn!("flags.has_flag(R10)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -263,7 +263,7 @@ impl Flags {
             log::warn!(
                 "flags cannot have NTLMSSP_TARGET_TYPE_DOMAIN and NTLMSSP_TARGET_TYPE_SERVER"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -271,7 +271,7 @@ impl Flags {
             log::warn!(
                 "!flags.has_flag(NTLMSSP_NEGOTIATE_UNICODE) && !flags.has_flag(NTLM_NEGOTIATE_OEM)"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -279,7 +279,7 @@ impl Flags {
             && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)
         {
             log::warn!("flags.has_flag(NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY) && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         true
-- 
2.43.0


From 1ed74252243a2695825e05a506dbb73810252fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 18/26] fix: send the NTLMv2 proof and the final reserved field
 in the NT response

---
 src/client.rs                           | 10 ++++-
 src/messages/structures.rs              |  2 +-
 src/messages/structures/nt_challenge.rs | 55 ++++++++++++++++++++++++-
 3 files changed, 62 insertions(+), 5 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index f81afd2..359fabf 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -7,7 +7,7 @@ use crate::{
     },
     messages::{
         flags,
-        structures::{AvPair, ClientChallenge, Version},
+        structures::{AvPair, ClientChallenge, Ntv2Response, Version},
         Authenticate, Challenge, Negotiate, Wire,
     },
     NtlmVersion,
@@ -240,7 +240,13 @@ where
         let mut auth = Authenticate::default();
         auth.negotiate_flags = challenge.negotiate_flags;
         auth.lm_challenge_response = Some(lm_challenge.into());
-        auth.nt_challenge_response = Some(nt_challenge.into());
+        auth.nt_challenge_response = Some(
+            Ntv2Response {
+                nt_proof_str,
+                challenge: nt_challenge,
+            }
+            .into(),
+        );
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
diff --git a/src/messages/structures.rs b/src/messages/structures.rs
index d0d7291..3a0597d 100644
--- a/src/messages/structures.rs
+++ b/src/messages/structures.rs
@@ -13,7 +13,7 @@ mod lm_challenge;
 pub use lm_challenge::{LmChallenge, Lmv1Challenge, Lmv2Challenge};
 
 mod nt_challenge;
-pub use nt_challenge::{NtChallenge, Ntv1Challenge, Ntv2Challenge};
+pub use nt_challenge::{NtChallenge, Ntv1Challenge, Ntv2Challenge, Ntv2Response};
 
 mod version;
 pub use version::Version;
diff --git a/src/messages/structures/nt_challenge.rs b/src/messages/structures/nt_challenge.rs
index 971bb5d..27442a5 100644
--- a/src/messages/structures/nt_challenge.rs
+++ b/src/messages/structures/nt_challenge.rs
@@ -1,13 +1,14 @@
 use std::io;
 
 use nom::branch::alt;
-use nom::combinator::{map, verify};
+use nom::bytes::complete::take;
+use nom::combinator::{all_consuming, map, verify};
 use nom::error::context;
 use nom::number::complete::{le_u16, le_u32, le_u8};
 use nom::sequence::{preceded, tuple};
 
 use crate::messages::{
-    structures::{AvPair, ClientChallenge, FileTime, Response24},
+    structures::{AvPair, ClientChallenge, FileTime, NtProofStr, Response24},
     utils::{write_u16, write_u32, write_u8},
     NomError, Wire,
 };
@@ -98,10 +99,52 @@ impl<'a> Wire<'a> for Ntv2Challenge {
     }
 }
 
+/// NTLMv2 response as it is sent: the proof followed by the data it was computed on
+#[derive(Debug, Default, Clone, PartialEq, Eq)]
+pub struct Ntv2Response {
+    pub nt_proof_str: NtProofStr,
+    pub challenge: Ntv2Challenge,
+}
+
+impl<'a> Wire<'a> for Ntv2Response {
+    fn serialize_into<W>(&self, writer: &mut W) -> io::Result<usize>
+    where
+        W: io::Write,
+    {
+        let mut size = self.nt_proof_str.serialize_into(writer)?;
+        size += self.challenge.serialize_into(writer)?;
+        // Reserved4
+        size += write_u32(writer, 0)?;
+        Ok(size)
+    }
+
+    fn deserialize<E>(input: &'a [u8]) -> nom::IResult<&'a [u8], Self, E>
+    where
+        E: NomError<'a>,
+    {
+        let (reserved4, body) =
+            context("Ntv2Response", take(input.len().saturating_sub(4)))(input)?;
+        let (rest, _) = context("Reserved4", verify(le_u32, |b| *b == 0))(reserved4)?;
+        let (_, (nt_proof_str, challenge)) = all_consuming(tuple((
+            NtProofStr::deserialize,
+            Ntv2Challenge::deserialize,
+        )))(body)?;
+
+        Ok((
+            rest,
+            Self {
+                nt_proof_str,
+                challenge,
+            },
+        ))
+    }
+}
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum NtChallenge {
     V1(Ntv1Challenge),
     V2(Ntv2Challenge),
+    V2Response(Ntv2Response),
 }
 
 impl Default for NtChallenge {
@@ -122,6 +165,12 @@ impl From<Ntv2Challenge> for NtChallenge {
     }
 }
 
+impl From<Ntv2Response> for NtChallenge {
+    fn from(r: Ntv2Response) -> Self {
+        Self::V2Response(r)
+    }
+}
+
 impl<'a> Wire<'a> for NtChallenge {
     fn serialize_into<W>(&self, writer: &mut W) -> std::io::Result<usize>
     where
@@ -130,6 +179,7 @@ impl<'a> Wire<'a> for NtChallenge {
         match self {
             Self::V1(ref v1) => v1.serialize_into(writer),
             Self::V2(ref v2) => v2.serialize_into(writer),
+            Self::V2Response(ref r) => r.serialize_into(writer),
         }
     }
 
@@ -139,6 +189,7 @@ impl<'a> Wire<'a> for NtChallenge {
     {
         alt((
             map(Ntv2Challenge::deserialize, |c| Self::V2(c)),
+            map(Ntv2Response::deserialize, |r| Self::V2Response(r)),
             map(Ntv1Challenge::deserialize, |c| Self::V1(c)),
         ))(input)
     }
-- 
2.43.0


From 9fd600e94d96f4ab2819c0be8f2f6f9f914936f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 19/26] fix: announce the target information whenever a pair is
 added

---
 src/messages/challenge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/messages/challenge.rs b/src/messages/challenge.rs
index fb76052..ea84064 100644
--- a/src/messages/challenge.rs
+++ b/src/messages/challenge.rs
@@ -38,12 +38,12 @@ impl Challenge {
         if self.target_infos.is_empty() {
             self.target_infos.push(info);
             self.target_infos.push(AvPair::MsvAvEOL);
-            self.negotiate_flags
-                .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         } else {
             let index = self.target_infos.len() - 1;
             self.target_infos.insert(index, info);
         }
+        self.negotiate_flags
+            .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
     }
 
     pub fn target_infos_add_computername(&mut self, computername: impl Into<String>) -> &mut Self {
-- 
2.43.0


From 6780ae1f3f8f42a0cfb107c6a63dc51a41cbe90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 20/26] fix: report failures of InitializeSecurityContextA
 instead of returning uninitialised memory

---
 src/win.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/win.rs b/src/win.rs
index 43b82c3..c4b919b 100644
--- a/src/win.rs
+++ b/src/win.rs
@@ -130,9 +130,13 @@ impl WinClient {
                     Some(ptr::addr_of_mut!(self.lifetime)),
                 )
             };
-            self.context = Some(unsafe { new_context.assume_init() });
+            if ret.is_ok() {
+                self.context = Some(unsafe { new_context.assume_init() });
+            }
             ret
         };
+        // On failure there is no token
+        ret.ok()?;
         unsafe {
             self.output_buffer
                 .set_len(output_sec_buffer.cbBuffer.try_into().unwrap());
-- 
2.43.0


From 753a07c052ad44d0f0a9550eef1584f48ebcb2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:24 +0000
Subject: [PATCH 21/26] fix: do not panic in debug builds when SSPI takes
 another number of steps

---
 src/win.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/win.rs b/src/win.rs
index c4b919b..21519bf 100644
--- a/src/win.rs
+++ b/src/win.rs
@@ -151,15 +151,12 @@ impl WinClient {
     }
 
     pub fn negotiate(&mut self) -> anyhow::Result<&[u8]> {
-        let done = self.initialize_security_context(None)?;
-        debug_assert!(!done);
-
+        self.initialize_security_context(None)?;
         Ok(&self.output_buffer[..])
     }
 
     pub fn challenge(&mut self, message: &[u8]) -> anyhow::Result<&[u8]> {
-        let done = self.initialize_security_context(Some(message))?;
-        debug_assert!(done);
+        self.initialize_security_context(Some(message))?;
         Ok(&self.output_buffer[..])
     }
 }
-- 
2.43.0


From 42e414baae833093592fa92dfd0d80177496fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 22/26] hook: let the session access be left out of the
 verification build

---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 359fabf..8e016f9 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -324,7 +324,7 @@ where
     }
 }
 
-#[cfg(http_ntlm_verif)]
+#[cfg(http_ntlm_verif = "session")]
 impl<V> Client<V> {
     /// Verification hook: the messages of the completed handshake, if there is one.
     pub fn verif_session(&self) -> Option<(&Negotiate, &Challenge, &Authenticate)> {
-- 
2.43.0


From af50ea6a64c0f33c96b1a2de00ddaf3fc131fb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 23/26] verification hook: encode to any writer

---
 src/verif.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/verif.rs b/src/verif.rs
index c6a6dbe..47aa075 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -10,6 +10,11 @@ fn encode<'a, T: Wire<'a>>(value: &T) -> (Vec<u8>, usize) {
     (data, size)
 }
 
+/// Encodes `value` to a writer that may take less than it is given, or fail.
+fn encode_to<'a, T: Wire<'a>>(value: &T, mut to: &mut dyn std::io::Write) -> std::io::Result<usize> {
+    value.serialize_into(&mut to)
+}
+
 /// Decodes a value from `input`, returns it with the number of bytes left over.
 fn decode<'a, T: Wire<'a>>(input: &'a [u8]) -> Option<(T, usize)> {
     match T::deserialize::<nom::error::Error<&'a [u8]>>(input) {
@@ -29,6 +34,13 @@ macro_rules! expose {
                     super::encode(value)
                 }
 
+                pub fn encode_to(
+                    value: &$type,
+                    to: &mut dyn std::io::Write,
+                ) -> std::io::Result<usize> {
+                    super::encode_to(value, to)
+                }
+
                 pub fn decode(input: &[u8]) -> Option<($type, usize)> {
                     super::decode(input)
                 }
-- 
2.43.0


From 1642c34e90f8182898cc2cdd6ef7b6df361a201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 24/26] fix: write names of attribute pairs completely

---
 src/messages/structures/avid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index b3afd67..a0a7b3e 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -167,7 +167,8 @@ where
     let utf16: Vec<_> = s.encode_utf16().collect();
     let data = unsafe { std::slice::from_raw_parts(utf16.as_ptr().cast(), utf16.len() * 2) };
     written += write_u16(writer, data.len().try_into().expect("String too long"))?;
-    written += writer.write(&data[..])?;
+    writer.write_all(&data[..])?;
+    written += data.len();
 
     Ok(written)
 }
-- 
2.43.0


From acda0746cb77244ce0bfcbe829317cbb907c0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:01 +0000
Subject: [PATCH 25/26] fix: sending NEGOTIATE does not print to stderr

The two dbg! lines panic where stderr cannot be written (a closed pipe, a full
disk), and write to the standard error of the program that uses the library.
---
 src/client.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 8e016f9..970fb40 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -136,8 +136,6 @@ where
         self.buffer.clear();
         let size = msg.serialize_into(&mut self.buffer).unwrap();
         self.state = ClientState::NegociateSent(msg);
-        dbg!(self.buffer.len());
-        dbg!(size);
         &self.buffer[..size]
     }
 
-- 
2.43.0


From 79d25cf8e2570314ac6017665d6feb8911d95ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:48 +0000
Subject: [PATCH 26/26] fix: release the credentials and the context of a
 Windows client when it is dropped

---
 src/win.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/win.rs b/src/win.rs
index 21519bf..c9bbd43 100644
--- a/src/win.rs
+++ b/src/win.rs
@@ -10,11 +10,11 @@ use windows::{
         Foundation::{SEC_I_COMPLETE_AND_CONTINUE, SEC_I_COMPLETE_NEEDED, SEC_I_CONTINUE_NEEDED},
         Security::{
             Authentication::Identity::{
-                AcquireCredentialsHandleA, CompleteAuthToken, EnumerateSecurityPackagesA,
-                FreeContextBuffer, InitSecurityInterfaceA, InitializeSecurityContextA, SecBuffer,
-                SecBufferDesc, SecPkgInfoA, SecurityFunctionTableA, ISC_REQ_CONNECTION,
-                ISC_REQ_INTEGRITY, ISC_REQ_STREAM, SECBUFFER_TOKEN, SECPKG_CRED_OUTBOUND,
-                SECURITY_NATIVE_DREP,
+                AcquireCredentialsHandleA, CompleteAuthToken, DeleteSecurityContext,
+                EnumerateSecurityPackagesA, FreeContextBuffer, FreeCredentialsHandle,
+                InitSecurityInterfaceA, InitializeSecurityContextA, SecBuffer, SecBufferDesc,
+                SecPkgInfoA, SecurityFunctionTableA, ISC_REQ_CONNECTION, ISC_REQ_INTEGRITY,
+                ISC_REQ_STREAM, SECBUFFER_TOKEN, SECPKG_CRED_OUTBOUND, SECURITY_NATIVE_DREP,
             },
             Credentials::SecHandle,
         },
@@ -161,6 +161,18 @@ impl WinClient {
     }
 }
 
+impl Drop for WinClient {
+    fn drop(&mut self) {
+        // Nothing is left to be done if the handles cannot be released
+        unsafe {
+            if let Some(context) = self.context.take() {
+                let _ = DeleteSecurityContext(ptr::addr_of!(context));
+            }
+            let _ = FreeCredentialsHandle(ptr::addr_of!(self.credentials));
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0

