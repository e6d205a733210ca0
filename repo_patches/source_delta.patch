From 173765e2f34a79e87769a25ef5eab5d1776187f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 01/17] fix: reject messages too short to hold a header instead
 of panicking

A peer controls the length of the messages it sends, so a short message must
surface as ParseHeaderError rather than abort the endpoint.
---
 src/msgs/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/msgs/mod.rs b/src/msgs/mod.rs
index 0f47a7c..a205bcd 100644
--- a/src/msgs/mod.rs
+++ b/src/msgs/mod.rs
@@ -64,9 +64,11 @@ pub trait Msg {
     /// Return `Ok(false)` if the header is another message type.
     /// Return an error if the version is wrong for a GetVersion message.
     ///
-    /// Prerequisite buf >= 2 bytes
+    /// Return an error if `buf` is too short to contain a header.
     fn parse_header(buf: &[u8]) -> Result<bool, ParseHeaderError> {
-        assert!(buf.len() > 2);
+        if buf.len() < HEADER_SIZE {
+            return Err(ParseHeaderError);
+        }
         if buf[1] != Self::SPDM_CODE {
             Ok(false)
         } else {
-- 
2.43.0


From 23fd64b8f8996a7da8e900beb6a09d7f5941de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 02/17] fix: report the received message code, not its version
 byte

UnexpectedMsgCode { got } was filled from byte 0 of the message, which is the
SPDM version; the message code is byte 1.
---
 src/requester.rs         | 2 +-
 src/responder.rs         | 2 +-
 src/responder/version.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/requester.rs b/src/requester.rs
index 9f5022d..856499c 100644
--- a/src/requester.rs
+++ b/src/requester.rs
@@ -41,7 +41,7 @@ pub fn expect<T: Msg>(buf: &[u8]) -> Result<(), RequesterError> {
         Ok(true) => Ok(()),
         Ok(false) => Err(RequesterError::UnexpectedMsgCode {
             expected: T::SPDM_CODE,
-            got: buf[0],
+            got: buf[1],
         }),
         Err(e) => Err(e.into()),
     }
diff --git a/src/responder.rs b/src/responder.rs
index ef3791e..af73017 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -247,7 +247,7 @@ pub fn expect<T: Msg>(buf: &[u8]) -> Result<(), ResponderError> {
         Ok(true) => Ok(()),
         Ok(false) => Err(ResponderError::UnexpectedMsgCode {
             expected: T::SPDM_CODE,
-            got: buf[0],
+            got: buf[1],
         }),
         Err(e) => Err(e.into()),
     }
diff --git a/src/responder/version.rs b/src/responder/version.rs
index 64da3cc..cd726d5 100644
--- a/src/responder/version.rs
+++ b/src/responder/version.rs
@@ -21,7 +21,7 @@ impl State {
             Ok(true) => self.handle_get_version(req, rsp, transcript),
             Ok(false) => Err(ResponderError::UnexpectedMsgCode {
                 expected: GetVersion::SPDM_CODE,
-                got: req[0],
+                got: req[1],
             }),
             Err(e) => Err(e.into()),
         }
-- 
2.43.0


From d00e3a924384b2b2f91be8b6953f0722939398d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 03/17] fix: reject opaque data exceeding the configured limits
 instead of panicking

The element count and element data length come from the peer and were used to
index fixed size arrays without being checked.
---
 src/msgs/common.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/msgs/common.rs b/src/msgs/common.rs
index ce93c81..e15739d 100644
--- a/src/msgs/common.rs
+++ b/src/msgs/common.rs
@@ -11,6 +11,8 @@ use core::convert::{From, TryFrom, TryInto};
 
 #[derive(Debug, PartialEq)]
 pub enum ParseOpaqueDataError {
+    /// More elements were received than there is space to handle
+    MaxElementsExceeded,
     Read(ReadError),
     ParseOpaqueElement(ParseOpaqueElementError),
 }
@@ -54,6 +56,9 @@ impl OpaqueData {
 
     pub fn read(r: &mut Reader) -> Result<OpaqueData, ParseOpaqueDataError> {
         let total_elements = r.get_byte()?;
+        if total_elements as usize > config::MAX_OPAQUE_ELEMENTS {
+            return Err(ParseOpaqueDataError::MaxElementsExceeded);
+        }
         r.skip_reserved(3)?;
         let mut elements =
             [OpaqueElement::default(); config::MAX_OPAQUE_ELEMENTS];
@@ -82,6 +87,9 @@ impl From<BufferFullError> for WriteOpaqueElementError {
 pub enum ParseOpaqueElementError {
     Read(ReadError),
 
+    // The element data is larger than there is space to handle
+    MaxDataSizeExceeded,
+
     // The vendor Id does not match the registry format
     InvalidVendorId,
 
@@ -191,6 +199,9 @@ impl OpaqueElement {
 
         let vendor_id = VendorId::read(r, vendor_id_len)?;
         let data_len = r.get_u16()?;
+        if data_len as usize > config::MAX_OPAQUE_ELEMENT_DATA_SIZE {
+            return Err(ParseOpaqueElementError::MaxDataSizeExceeded);
+        }
         let mut data = [0u8; config::MAX_OPAQUE_ELEMENT_DATA_SIZE];
         r.get_slice(data_len as usize, &mut data)?;
         let bytes_read = 4 + vendor_id_len as usize + data_len as usize;
-- 
2.43.0


From 1b7037aa111d509696ec0eb92e8e2b56f49b7a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 04/17] fix: reject too many measurement blocks instead of
 panicking

The number of blocks comes from the peer and was used to index a fixed size
array without being checked.
---
 src/msgs/measurements.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index 23483a6..e5ebf61 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -601,6 +601,7 @@ impl From<WriteOpaqueElementError> for WriteMeasurementsError {
 
 #[derive(Debug, PartialEq)]
 pub enum ParseMeasurementBlocksError {
+    MaxBlocksExceeded,
     MaxSizeExceeded,
     MeasurementSizeMismatch,
     Block(ParseMeasurementBlockError),
@@ -663,6 +664,9 @@ impl MeasurementBlocks {
         r: &mut Reader,
     ) -> Result<MeasurementBlocks, ParseMeasurementBlocksError> {
         let num_blocks = r.get_byte()? as usize;
+        if num_blocks > config::MAX_MEASUREMENT_BLOCKS {
+            return Err(ParseMeasurementBlocksError::MaxBlocksExceeded);
+        }
         let size = r.get_u24()?;
         if size > config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS
         {
-- 
2.43.0


From 6ad67ae7ed2038f6ee075107c81d170bfed72bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 05/17] fix: reject certificates that are not DER sequences
 instead of panicking

The certificate chain is received from the peer, so a wrong leading tag is a
parse error, not an invariant violation.
---
 src/msgs/certificates.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/msgs/certificates.rs b/src/msgs/certificates.rs
index ba20fad..4452018 100644
--- a/src/msgs/certificates.rs
+++ b/src/msgs/certificates.rs
@@ -302,8 +302,10 @@ impl<'a> CertificateChain<'a> {
     fn read_cert_size(
         r: &mut Reader,
     ) -> Result<(usize, usize), ParseCertificateChainError> {
-        // Skip the sequence byte
-        assert_eq!(r.get_byte()?, 0x30);
+        // Every certificate is a DER sequence
+        if r.get_byte()? != 0x30 {
+            return Err(ParseCertificateChainError::BadDerEncoding);
+        }
 
         let pair = match r.get_byte()? {
             n if (n & 0x80) == 0 => (n.into(), 2),
-- 
2.43.0


From 726a92bef969dd67e108dacf0bb9c915e97b64bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 06/17] fix: encode a zero signature integer instead of
 panicking

A signature whose r or s is zero is invalid, but it is received from the peer
and must be rejected by verification rather than abort the requester.
---
 src/crypto/pki.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto/pki.rs b/src/crypto/pki.rs
index c501773..0aa83bc 100644
--- a/src/crypto/pki.rs
+++ b/src/crypto/pki.rs
@@ -97,7 +97,8 @@ pub fn bin_to_der(signature: &[u8], out: &mut [u8]) -> usize {
 // Take an integer (`r` or `s`) and return as a pair its start location and its
 // size including any necessary pad bytes.
 fn get_start_and_length(i: &[u8]) -> (usize, usize) {
-    let start = i.iter().position(|b| *b != 0).unwrap();
+    // Zero is encoded as a single 0 byte
+    let start = i.iter().position(|b| *b != 0).unwrap_or(i.len() - 1);
     let pad = if i[start] & 0x80 != 0 { 1 } else { 0 };
     let length = i.len() - start + pad;
     (start, length)
-- 
2.43.0


From fc82e221695e63b468347b9d45bd509156f29457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 07/17] fix: keep the slot number when setting the mutual auth
 bit

Param1 of CHALLENGE_AUTH carries the slot in bits 3:0 and the mutual auth flag
in bit 7. Masking instead of or-ing dropped both.
---
 src/msgs/challenge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index 244869b..faae470 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -166,7 +166,7 @@ impl Msg for ChallengeAuth {
     ) -> Result<usize, WriteChallengeAuthError> {
         self.validate()?;
         if self.use_mutual_auth {
-            w.put(self.slot & (1 << 7))?;
+            w.put(self.slot | (1 << 7))?;
         } else {
             w.put(self.slot)?;
         }
-- 
2.43.0


From 9fd5b30e2c6412f72517fa1476bb848d09b0f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 08/17] fix: reject slot numbers equal to the number of slots

Slots are numbered from 0, so NUM_SLOTS itself is out of range. With 8 slots,
accepting it also overflowed the slot mask check in the requester.
---
 src/msgs/challenge.rs    | 4 ++--
 src/msgs/measurements.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index faae470..c41ebc3 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -230,8 +230,8 @@ impl ChallengeAuth {
     ) -> Result<ChallengeAuth, ParseChallengeAuthError> {
         let mut r = Reader::new(buf);
         let slot = r.get_bits(4)?;
-        if slot as usize > NUM_SLOTS {
-            return Err(ParseChallengeAuthError::MaxOpaqueDataSizeExceeded);
+        if slot as usize >= NUM_SLOTS {
+            return Err(ParseChallengeAuthError::MaxSlotNumberExceeded);
         }
         let _ = r.get_bits(3)?;
         let use_mutual_auth = r.get_bit()? == 1;
diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index e5ebf61..9017178 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -824,7 +824,7 @@ impl Measurements {
 
         // Parse Param2
         let slot_id = r.get_bits(4)?;
-        if usize::from(slot_id) > config::NUM_SLOTS {
+        if usize::from(slot_id) >= config::NUM_SLOTS {
             return Err(ParseMeasurementsError::MaxSlotNumberExceeded);
         }
         let content_changed = ContentChanged::try_from(r.get_bits(2)?)?;
-- 
2.43.0


From 9d6d49da3f895de321eec871e1c24b2d88b0b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 09/17] fix: compare transcripts by their contents only

clear() leaves old bytes in the buffer, so a derived PartialEq reported
transcripts with equal contents as different after a restart.
---
 src/transcript.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/transcript.rs b/src/transcript.rs
index 3d59f39..d3b09bc 100644
--- a/src/transcript.rs
+++ b/src/transcript.rs
@@ -11,12 +11,22 @@ use crate::msgs::BufferFullError;
 /// A Transcript spans multiple states, and is purposefully kept outside those
 /// states to reduce the cost of the typestate pattern which takes and returns
 /// states by value.
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Clone)]
 pub struct Transcript {
     buf: [u8; TRANSCRIPT_SIZE],
     offset: usize,
 }
 
+// We manually implement PartialEq because `buf` may contain stale data past
+// `offset`.
+impl PartialEq for Transcript {
+    fn eq(&self, other: &Self) -> bool {
+        self.get() == other.get()
+    }
+}
+
+impl Eq for Transcript {}
+
 impl Transcript {
     pub fn new() -> Transcript {
         Transcript { buf: [0; TRANSCRIPT_SIZE], offset: 0 }
-- 
2.43.0


From 4d14b6915875318e27a37900112c764731f6097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 10/17] fix: write only the version entries that are in use

All array entries were written regardless of num_entries, so a VERSION message
with fewer entries than capacity was longer than its own entry count states.
---
 src/msgs/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msgs/version.rs b/src/msgs/version.rs
index c63a3a2..aee28bc 100644
--- a/src/msgs/version.rs
+++ b/src/msgs/version.rs
@@ -94,7 +94,7 @@ impl Msg for Version {
 
         w.put(self.num_entries)?;
 
-        for v in self.entries.iter() {
+        for v in &self.entries[..self.num_entries as usize] {
             w.put(v.alpha | (v.update << 4))?;
             w.put(v.minor | (v.major << 4))?;
         }
-- 
2.43.0


From 34d554ded5a613417a883298253c32d319a5b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 11/17] fix: refuse algorithm offers without a supported
 algorithm

Choosing the first set bit panicked when a category offered no bits, and could
select a base hash or signing algorithm that the responder does not implement.
---
 src/responder/algorithms.rs | 37 ++++++++++++++++++++++++++++++++++++-
 src/responder/error.rs      |  6 ++++++
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/responder/algorithms.rs b/src/responder/algorithms.rs
index addb978..32f1e89 100644
--- a/src/responder/algorithms.rs
+++ b/src/responder/algorithms.rs
@@ -3,6 +3,8 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use super::{capabilities, expect, id_auth, AllStates, ResponderError};
+use crate::config;
+use crate::crypto::ProvidedDigests;
 use crate::msgs::algorithms::*;
 use crate::msgs::capabilities::{ReqFlags, RspFlags};
 use crate::msgs::{Msg, HEADER_SIZE};
@@ -43,7 +45,8 @@ impl State {
         reset_on_get_version!(req, rsp, transcript);
         expect::<NegotiateAlgorithms>(req)?;
 
-        let req_msg = NegotiateAlgorithms::parse_body(&req[HEADER_SIZE..])?;
+        let mut req_msg = NegotiateAlgorithms::parse_body(&req[HEADER_SIZE..])?;
+        retain_supported(&mut req_msg)?;
         transcript.extend(req)?;
 
         let algorithms = self.choose_algorithms(req_msg);
@@ -123,3 +126,35 @@ impl State {
         rsp
     }
 }
+
+// Drop the base algorithms that we don't implement from the request, and ensure
+// that there is at least one algorithm left to choose in each category.
+fn retain_supported(
+    req: &mut NegotiateAlgorithms,
+) -> Result<(), ResponderError> {
+    let mut signing_algos = BaseAsymAlgo::default();
+    for s in config::ALGORITHMS_ASYMMETRIC_SIGNING {
+        signing_algos |= s
+            .parse()
+            .map_err(|_| ResponderError::NoSupportedAlgorithm)?;
+    }
+    req.base_asym_algo &= signing_algos;
+    req.base_hash_algo &= ProvidedDigests::supported_algorithms();
+
+    let mut all_offered =
+        !req.base_asym_algo.is_empty() && !req.base_hash_algo.is_empty();
+    for i in 0..req.num_algorithm_requests as usize {
+        all_offered &= match &req.algorithm_requests[i] {
+            AlgorithmRequest::Dhe(algo) => !algo.supported.is_empty(),
+            AlgorithmRequest::Aead(algo) => !algo.supported.is_empty(),
+            AlgorithmRequest::ReqBaseAsym(algo) => !algo.supported.is_empty(),
+            AlgorithmRequest::KeySchedule(algo) => !algo.supported.is_empty(),
+        };
+    }
+
+    if all_offered {
+        Ok(())
+    } else {
+        Err(ResponderError::NoSupportedAlgorithm)
+    }
+}
diff --git a/src/responder/error.rs b/src/responder/error.rs
index 2ffe186..5bbe2eb 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -38,6 +38,9 @@ pub enum ResponderError {
     // Parsing a NegotiateAlgorithms message failed
     ParseNegotiateAlgorithms(ParseNegotiateAlgorithmsError),
 
+    // None of the algorithms offered for some category is supported
+    NoSupportedAlgorithm,
+
     // Parsing a GetCapabilities message failed
     ParseGetCapabilities(ParseGetCapabilitiesError),
 
@@ -133,6 +136,9 @@ impl From<&ResponderError> for msgs::Error {
             ResponderError::ParseNegotiateAlgorithms(_) => {
                 msgs::Error::InvalidRequest
             }
+            ResponderError::NoSupportedAlgorithm => {
+                msgs::Error::InvalidRequest
+            }
             ResponderError::ParseChallenge(
                 ParseChallengeError::InvalidMeasurementHashType,
             ) => msgs::Error::InvalidRequest,
-- 
2.43.0


From df6b49e339c625ebec43af44d14d98adc3800117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 12/17] fix: refuse requests that need a capability the
 responder did not advertise

Digest, certificate and challenge requests were served whatever the responder
had advertised. Without a crypto provider this hit unimplemented operations.
---
 src/responder/challenge.rs | 9 +++++++++
 src/responder/id_auth.rs   | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/responder/challenge.rs b/src/responder/challenge.rs
index 33d8c72..44f2981 100644
--- a/src/responder/challenge.rs
+++ b/src/responder/challenge.rs
@@ -50,6 +50,15 @@ impl State {
         transcript: &mut Transcript,
     ) -> Result<(usize, AllStates), ResponderError> {
         reset_on_get_version!(req, rsp, transcript);
+
+        // This request is only allowed if we advertised challenges.
+        if !self.responder_cap.contains(RspFlags::CHAL_CAP) {
+            return Err(ResponderError::UnexpectedMsgCode {
+                expected: GetVersion::SPDM_CODE,
+                got: req[1],
+            });
+        }
+
         expect::<Challenge>(req)?;
         let digest_size =
             self.algorithms.base_hash_algo_selected.get_digest_size();
diff --git a/src/responder/id_auth.rs b/src/responder/id_auth.rs
index a47e3b7..0d889e9 100644
--- a/src/responder/id_auth.rs
+++ b/src/responder/id_auth.rs
@@ -65,6 +65,14 @@ impl State {
     ) -> Result<(usize, AllStates), ResponderError> {
         reset_on_get_version!(req, rsp, transcript);
 
+        // These requests are only allowed if we advertised certificates.
+        if !self.responder_cap.contains(RspFlags::CERT_CAP) {
+            return Err(ResponderError::UnexpectedMsgCode {
+                expected: GetVersion::SPDM_CODE,
+                got: req[1],
+            });
+        }
+
         if GetDigests::parse_header(req)? {
             return self.handle_get_digests(cert_chains, req, rsp, transcript);
         }
-- 
2.43.0


From bf2fd8f125357dcb4cb5e3e527600435ccf866d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 13/17] fix: request the whole certificate chain with 64 KiB
 buffers

The largest supported buffer size truncated to a requested length of zero.
---
 src/requester/id_auth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/requester/id_auth.rs b/src/requester/id_auth.rs
index 7b03722..7be3e8d 100644
--- a/src/requester/id_auth.rs
+++ b/src/requester/id_auth.rs
@@ -108,7 +108,7 @@ impl State {
         let msg = GetCertificate {
             slot,
             offset: 0,
-            length: MAX_CERT_CHAIN_SIZE as u16,
+            length: MAX_CERT_CHAIN_SIZE.min(u16::MAX as usize) as u16,
         };
         let size = msg.write(buf)?;
         transcript.extend(&buf[..size])?;
-- 
2.43.0


From 0813bd43c67fa1055ddcfa9700e1dd09bb930755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 14/17] fix: accept measurement records filled up to the
 configured limits

The limit on the record did not account for the headers of its blocks, nor for
digests, so messages that can be encoded could not be decoded.
---
 src/msgs/measurements.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index 9017178..708ced1 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -135,6 +135,15 @@ impl From<ReadError> for ParseGetMeasurementsError {
     }
 }
 
+// The size of the largest block: the headers of the block and of the
+// measurement, followed by a bit stream or a digest.
+const MAX_MEASUREMENT_BLOCK_SIZE: usize = 7
+    + if config::MAX_MEASUREMENT_SIZE > config::MAX_DIGEST_SIZE {
+        config::MAX_MEASUREMENT_SIZE
+    } else {
+        config::MAX_DIGEST_SIZE
+    };
+
 /// Request measurements from a responder.
 #[derive(Debug, Clone, PartialEq)]
 pub struct GetMeasurements {
@@ -668,8 +677,7 @@ impl MeasurementBlocks {
             return Err(ParseMeasurementBlocksError::MaxBlocksExceeded);
         }
         let size = r.get_u24()?;
-        if size > config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS
-        {
+        if size > MAX_MEASUREMENT_BLOCK_SIZE * config::MAX_MEASUREMENT_BLOCKS {
             return Err(ParseMeasurementBlocksError::MaxSizeExceeded);
         }
         let offset = r.byte_offset();
-- 
2.43.0


From 677ab01a989cd9e573254ad9836a6b849f3e86ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 15/17] hook: make the private message modules public under
 cfg(verif_hooks)

---
 src/msgs/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/msgs/mod.rs b/src/msgs/mod.rs
index a205bcd..a7ba7a1 100644
--- a/src/msgs/mod.rs
+++ b/src/msgs/mod.rs
@@ -20,8 +20,14 @@ pub mod challenge;
 pub mod common;
 pub mod digest;
 pub mod encoding;
+#[cfg(not(verif_hooks))]
 mod error;
+#[cfg(verif_hooks)]
+pub mod error;
+#[cfg(not(verif_hooks))]
 mod measurements;
+#[cfg(verif_hooks)]
+pub mod measurements;
 pub mod version;
 
 pub use algorithms::{Algorithms, NegotiateAlgorithms};
-- 
2.43.0


From 6fc2dd733628d2c17a5631397427f79a59bb750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 16/17] fix: answer a challenge reply that does not fit with
 ResponseTooLarge throughout

---
 src/responder/error.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/responder/error.rs b/src/responder/error.rs
index 5bbe2eb..063b197 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -8,6 +8,7 @@ use crate::msgs::{
     capabilities::{ParseGetCapabilitiesError, ParseRspCapabilityError},
     certificates::WriteCertificateChainError,
     challenge::{ParseChallengeError, WriteChallengeAuthError},
+    common::WriteOpaqueElementError,
     BufferFullError, ParseHeaderError, ReadError,
 };
 
@@ -147,6 +148,11 @@ impl From<&ResponderError> for msgs::Error {
             }
             ResponderError::WriteChallengeAuth(
                 WriteChallengeAuthError::BufferFull,
+            )
+            | ResponderError::WriteChallengeAuth(
+                WriteChallengeAuthError::WriteOpaqueElement(
+                    WriteOpaqueElementError::BufferFull,
+                ),
             ) => msgs::Error::ResponseTooLarge(0),
             ResponderError::WriteChallengeAuth(_) => {
                 msgs::Error::InvalidRequest
-- 
2.43.0


From fa4549aee13301fbc7d42da2e787ff3bdfe36e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 17/17] fix: build with more than 32 opaque data elements

---
 src/msgs/common.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/msgs/common.rs b/src/msgs/common.rs
index e15739d..b63ae77 100644
--- a/src/msgs/common.rs
+++ b/src/msgs/common.rs
@@ -32,12 +32,22 @@ impl From<ParseOpaqueElementError> for ParseOpaqueDataError {
 /// General opaque data format used in other messages.
 ///
 /// Table 92 From section 14 in SPDM spec version 1.2.0
-#[derive(Default, Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub struct OpaqueData {
     total_elements: u8,
     elements: [OpaqueElement; config::MAX_OPAQUE_ELEMENTS],
 }
 
+// Not derived, as `Default` is only implemented for arrays of up to 32 elements
+impl Default for OpaqueData {
+    fn default() -> Self {
+        OpaqueData {
+            total_elements: 0,
+            elements: [OpaqueElement::default(); config::MAX_OPAQUE_ELEMENTS],
+        }
+    }
+}
+
 impl OpaqueData {
     pub fn serialized_size(&self) -> usize {
         4 + self.elements[..self.total_elements as usize]
-- 
2.43.0

