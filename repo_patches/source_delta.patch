From 4bf898db11eeeb7cd41324f8136c78fc10326634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 01/17] fix: return an error for messages shorter than a header

A peer could panic either endpoint by sending two bytes or less.
---
 src/msgs/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/msgs/mod.rs b/src/msgs/mod.rs
index 0f47a7c..fdac2b4 100644
--- a/src/msgs/mod.rs
+++ b/src/msgs/mod.rs
@@ -62,11 +62,12 @@ pub trait Msg {
     ///
     /// Return `Ok(true)` if the writed header is of the given type and has a correct version.
     /// Return `Ok(false)` if the header is another message type.
-    /// Return an error if the version is wrong for a GetVersion message.
-    ///
-    /// Prerequisite buf >= 2 bytes
+    /// Return an error if the version is wrong for a GetVersion message, or if
+    /// there are not enough bytes for a header.
     fn parse_header(buf: &[u8]) -> Result<bool, ParseHeaderError> {
-        assert!(buf.len() > 2);
+        if buf.len() < HEADER_SIZE {
+            return Err(ParseHeaderError);
+        }
         if buf[1] != Self::SPDM_CODE {
             Ok(false)
         } else {
-- 
2.43.0


From 92c599b8c178d9a03d5e37ce3c7fd6e580e439f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 02/17] fix: report the message code, not the version, in
 UnexpectedMsgCode

---
 src/requester.rs         | 2 +-
 src/responder.rs         | 2 +-
 src/responder/version.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/requester.rs b/src/requester.rs
index 9f5022d..856499c 100644
--- a/src/requester.rs
+++ b/src/requester.rs
@@ -41,7 +41,7 @@ pub fn expect<T: Msg>(buf: &[u8]) -> Result<(), RequesterError> {
         Ok(true) => Ok(()),
         Ok(false) => Err(RequesterError::UnexpectedMsgCode {
             expected: T::SPDM_CODE,
-            got: buf[0],
+            got: buf[1],
         }),
         Err(e) => Err(e.into()),
     }
diff --git a/src/responder.rs b/src/responder.rs
index ef3791e..af73017 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -247,7 +247,7 @@ pub fn expect<T: Msg>(buf: &[u8]) -> Result<(), ResponderError> {
         Ok(true) => Ok(()),
         Ok(false) => Err(ResponderError::UnexpectedMsgCode {
             expected: T::SPDM_CODE,
-            got: buf[0],
+            got: buf[1],
         }),
         Err(e) => Err(e.into()),
     }
diff --git a/src/responder/version.rs b/src/responder/version.rs
index 64da3cc..cd726d5 100644
--- a/src/responder/version.rs
+++ b/src/responder/version.rs
@@ -21,7 +21,7 @@ impl State {
             Ok(true) => self.handle_get_version(req, rsp, transcript),
             Ok(false) => Err(ResponderError::UnexpectedMsgCode {
                 expected: GetVersion::SPDM_CODE,
-                got: req[0],
+                got: req[1],
             }),
             Err(e) => Err(e.into()),
         }
-- 
2.43.0


From 0598b889cf76b2ea6a137421aafe86e4d710b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 03/17] fix: reject opaque data with more elements than can be
 stored

---
 src/msgs/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/msgs/common.rs b/src/msgs/common.rs
index ce93c81..d8a795e 100644
--- a/src/msgs/common.rs
+++ b/src/msgs/common.rs
@@ -12,6 +12,9 @@ use core::convert::{From, TryFrom, TryInto};
 #[derive(Debug, PartialEq)]
 pub enum ParseOpaqueDataError {
     Read(ReadError),
+
+    // More elements were received than there is space to handle
+    TooManyElements,
     ParseOpaqueElement(ParseOpaqueElementError),
 }
 
@@ -55,6 +58,9 @@ impl OpaqueData {
     pub fn read(r: &mut Reader) -> Result<OpaqueData, ParseOpaqueDataError> {
         let total_elements = r.get_byte()?;
         r.skip_reserved(3)?;
+        if total_elements as usize > config::MAX_OPAQUE_ELEMENTS {
+            return Err(ParseOpaqueDataError::TooManyElements);
+        }
         let mut elements =
             [OpaqueElement::default(); config::MAX_OPAQUE_ELEMENTS];
         for i in 0..total_elements as usize {
-- 
2.43.0


From 39543159579f775be3e4708ad3ad028d7eb1f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 04/17] fix: reject opaque elements with more data than can be
 stored

---
 src/msgs/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/msgs/common.rs b/src/msgs/common.rs
index d8a795e..544fe13 100644
--- a/src/msgs/common.rs
+++ b/src/msgs/common.rs
@@ -93,6 +93,9 @@ pub enum ParseOpaqueElementError {
 
     ParseVendorRegistryId,
     ParseVendorId(ParseVendorIdError),
+
+    // There is more data than there is space to handle
+    DataTooLarge,
 }
 
 impl From<ReadError> for ParseOpaqueElementError {
@@ -197,6 +200,9 @@ impl OpaqueElement {
 
         let vendor_id = VendorId::read(r, vendor_id_len)?;
         let data_len = r.get_u16()?;
+        if data_len as usize > config::MAX_OPAQUE_ELEMENT_DATA_SIZE {
+            return Err(ParseOpaqueElementError::DataTooLarge);
+        }
         let mut data = [0u8; config::MAX_OPAQUE_ELEMENT_DATA_SIZE];
         r.get_slice(data_len as usize, &mut data)?;
         let bytes_read = 4 + vendor_id_len as usize + data_len as usize;
-- 
2.43.0


From d92d011223e741d3e25d9b23d7739707d98202dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 05/17] fix: reject measurement records with more blocks than
 can be stored

---
 src/msgs/measurements.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index 23483a6..e5ebf61 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -601,6 +601,7 @@ impl From<WriteOpaqueElementError> for WriteMeasurementsError {
 
 #[derive(Debug, PartialEq)]
 pub enum ParseMeasurementBlocksError {
+    MaxBlocksExceeded,
     MaxSizeExceeded,
     MeasurementSizeMismatch,
     Block(ParseMeasurementBlockError),
@@ -663,6 +664,9 @@ impl MeasurementBlocks {
         r: &mut Reader,
     ) -> Result<MeasurementBlocks, ParseMeasurementBlocksError> {
         let num_blocks = r.get_byte()? as usize;
+        if num_blocks > config::MAX_MEASUREMENT_BLOCKS {
+            return Err(ParseMeasurementBlocksError::MaxBlocksExceeded);
+        }
         let size = r.get_u24()?;
         if size > config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS
         {
-- 
2.43.0


From 73338ee318e032ddf36c7d3fe91c493d8658a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 06/17] fix: do not panic on a certificate that is not a DER
 sequence

---
 src/msgs/certificates.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msgs/certificates.rs b/src/msgs/certificates.rs
index ba20fad..fd4d660 100644
--- a/src/msgs/certificates.rs
+++ b/src/msgs/certificates.rs
@@ -303,7 +303,9 @@ impl<'a> CertificateChain<'a> {
         r: &mut Reader,
     ) -> Result<(usize, usize), ParseCertificateChainError> {
         // Skip the sequence byte
-        assert_eq!(r.get_byte()?, 0x30);
+        if r.get_byte()? != 0x30 {
+            return Err(ParseCertificateChainError::BadDerEncoding);
+        }
 
         let pair = match r.get_byte()? {
             n if (n & 0x80) == 0 => (n.into(), 2),
-- 
2.43.0


From dc0bf4e2de68ba2cd1bc90e1f1036ba79b53fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 07/17] fix: do not panic on a signature with a zero integer

---
 src/crypto/pki.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto/pki.rs b/src/crypto/pki.rs
index c501773..a64a743 100644
--- a/src/crypto/pki.rs
+++ b/src/crypto/pki.rs
@@ -97,7 +97,8 @@ pub fn bin_to_der(signature: &[u8], out: &mut [u8]) -> usize {
 // Take an integer (`r` or `s`) and return as a pair its start location and its
 // size including any necessary pad bytes.
 fn get_start_and_length(i: &[u8]) -> (usize, usize) {
-    let start = i.iter().position(|b| *b != 0).unwrap();
+    // An integer has at least one byte, even when it is zero
+    let start = i.iter().position(|b| *b != 0).unwrap_or(i.len() - 1);
     let pad = if i[start] & 0x80 != 0 { 1 } else { 0 };
     let length = i.len() - start + pad;
     (start, length)
-- 
2.43.0


From 7ccca059911def422b8c713a8c95791811321b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 08/17] fix: reject slot numbers equal to NUM_SLOTS when
 parsing

---
 src/msgs/challenge.rs    | 4 ++--
 src/msgs/measurements.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index 244869b..33d9e1e 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -230,8 +230,8 @@ impl ChallengeAuth {
     ) -> Result<ChallengeAuth, ParseChallengeAuthError> {
         let mut r = Reader::new(buf);
         let slot = r.get_bits(4)?;
-        if slot as usize > NUM_SLOTS {
-            return Err(ParseChallengeAuthError::MaxOpaqueDataSizeExceeded);
+        if slot as usize >= NUM_SLOTS {
+            return Err(ParseChallengeAuthError::MaxSlotNumberExceeded);
         }
         let _ = r.get_bits(3)?;
         let use_mutual_auth = r.get_bit()? == 1;
diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index e5ebf61..9017178 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -824,7 +824,7 @@ impl Measurements {
 
         // Parse Param2
         let slot_id = r.get_bits(4)?;
-        if usize::from(slot_id) > config::NUM_SLOTS {
+        if usize::from(slot_id) >= config::NUM_SLOTS {
             return Err(ParseMeasurementsError::MaxSlotNumberExceeded);
         }
         let content_changed = ContentChanged::try_from(r.get_bits(2)?)?;
-- 
2.43.0


From e4778461f3c90ef55000e3bff4659c2344c09e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 09/17] fix: keep the slot number when encoding CHALLENGE_AUTH
 with mutual auth

---
 src/msgs/challenge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index 33d9e1e..c41ebc3 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -166,7 +166,7 @@ impl Msg for ChallengeAuth {
     ) -> Result<usize, WriteChallengeAuthError> {
         self.validate()?;
         if self.use_mutual_auth {
-            w.put(self.slot & (1 << 7))?;
+            w.put(self.slot | (1 << 7))?;
         } else {
             w.put(self.slot)?;
         }
-- 
2.43.0


From 3ab980d5f6010e00595254f70ea0a5dc4d3579a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 10/17] fix: do not panic when a signer returns a signature of
 the wrong size

---
 src/responder/challenge.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/responder/challenge.rs b/src/responder/challenge.rs
index 33d8c72..4abe74c 100644
--- a/src/responder/challenge.rs
+++ b/src/responder/challenge.rs
@@ -127,6 +127,10 @@ impl State {
             .sign(m1_hash.as_ref())
             .map_err(|_| ResponderError::SigningFailed)?;
 
+        if signature.as_ref().len() != usize::from(signature_size) {
+            return Err(ResponderError::SigningFailed);
+        }
+
         // Attach the real signature to the CHALLENGE_AUTH message
         rsp[sig_start..size].copy_from_slice(signature.as_ref());
 
-- 
2.43.0


From d52901ebf1f6bc9e98f7522df9a9f552978a835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 11/17] fix: encode as many version entries as announced

---
 src/msgs/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msgs/version.rs b/src/msgs/version.rs
index c63a3a2..aee28bc 100644
--- a/src/msgs/version.rs
+++ b/src/msgs/version.rs
@@ -94,7 +94,7 @@ impl Msg for Version {
 
         w.put(self.num_entries)?;
 
-        for v in self.entries.iter() {
+        for v in &self.entries[..self.num_entries as usize] {
             w.put(v.alpha | (v.update << 4))?;
             w.put(v.minor | (v.major << 4))?;
         }
-- 
2.43.0


From 28c9cfb2f0d28b8388680f1d9af4a60367f5645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 12/17] fix: select only algorithms that requester and
 responder share

---
 src/responder/algorithms.rs | 73 +++++++++++++++++++++++++------------
 src/responder/error.rs      | 16 +++++++-
 2 files changed, 64 insertions(+), 25 deletions(-)

diff --git a/src/responder/algorithms.rs b/src/responder/algorithms.rs
index addb978..5a7e24f 100644
--- a/src/responder/algorithms.rs
+++ b/src/responder/algorithms.rs
@@ -3,6 +3,8 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use super::{capabilities, expect, id_auth, AllStates, ResponderError};
+use crate::config;
+use crate::crypto::ProvidedDigests;
 use crate::msgs::algorithms::*;
 use crate::msgs::capabilities::{ReqFlags, RspFlags};
 use crate::msgs::{Msg, HEADER_SIZE};
@@ -46,7 +48,7 @@ impl State {
         let req_msg = NegotiateAlgorithms::parse_body(&req[HEADER_SIZE..])?;
         transcript.extend(req)?;
 
-        let algorithms = self.choose_algorithms(req_msg);
+        let algorithms = self.choose_algorithms(req_msg)?;
         let size = algorithms.write(rsp)?;
         transcript.extend(&rsp[..size])?;
         self.algorithms = Some(algorithms);
@@ -55,7 +57,8 @@ impl State {
     }
 
     // We use the simplest mechanism possible here and just choose the first set
-    // bit for each algorithm.
+    // bit for each algorithm. Only hash and signing algorithms that this
+    // responder supports are candidates. An empty set of candidates is an error.
     //
     // TODO: Allow the user to choose which algorithms it can utilize, or
     // encapsulate that in a type/trait ?
@@ -63,19 +66,30 @@ impl State {
     // TODO: Allow the user to pass priorities? It really seems like the
     // requester should be the one prioritizing though! Unfortunately, SPDM
     // doesn't appear to have a mechanism for that.
-    fn choose_algorithms(&self, req: NegotiateAlgorithms) -> Algorithms {
+    fn choose_algorithms(
+        &self,
+        req: NegotiateAlgorithms,
+    ) -> Result<Algorithms, ResponderError> {
         let mut rsp = Algorithms::default();
 
         rsp.measurement_spec_selected = req.measurement_spec;
 
-        let first_bit_set = req.base_hash_algo.bits().trailing_zeros();
-        rsp.measurement_hash_algo_selected =
-            BaseHashAlgo::from_bits(1 << first_bit_set).unwrap();
+        let base_hash_algo =
+            req.base_hash_algo & ProvidedDigests::supported_algorithms();
+        let first_bit_set = base_hash_algo.bits().trailing_zeros();
+        rsp.measurement_hash_algo_selected = 1u32
+            .checked_shl(first_bit_set)
+            .and_then(BaseHashAlgo::from_bits)
+            .ok_or(ResponderError::NoSharedAlgorithm)?;
         rsp.base_hash_algo_selected = rsp.measurement_hash_algo_selected;
 
-        let first_bit_set = req.base_asym_algo.bits().trailing_zeros();
-        rsp.base_asym_algo_selected =
-            BaseAsymAlgo::from_bits(1 << first_bit_set).unwrap();
+        let base_asym_algo =
+            req.base_asym_algo & supported_signing_algorithms()?;
+        let first_bit_set = base_asym_algo.bits().trailing_zeros();
+        rsp.base_asym_algo_selected = 1u32
+            .checked_shl(first_bit_set)
+            .and_then(BaseAsymAlgo::from_bits)
+            .ok_or(ResponderError::NoSharedAlgorithm)?;
 
         rsp.num_algorithm_responses = req.num_algorithm_requests;
 
@@ -83,36 +97,38 @@ impl State {
             match &req.algorithm_requests[i] {
                 AlgorithmRequest::Dhe(algo) => {
                     let first_bit_set = algo.supported.bits().trailing_zeros();
-                    let supported =
-                        DheFixedAlgorithms::from_bits(1 << first_bit_set)
-                            .unwrap();
+                    let supported = 1u16
+                        .checked_shl(first_bit_set)
+                        .and_then(DheFixedAlgorithms::from_bits)
+                        .ok_or(ResponderError::NoSharedAlgorithm)?;
                     let algo = DheAlgorithm { supported };
                     rsp.algorithm_responses[i] = AlgorithmResponse::Dhe(algo);
                 }
                 AlgorithmRequest::Aead(algo) => {
                     let first_bit_set = algo.supported.bits().trailing_zeros();
-                    let supported =
-                        AeadFixedAlgorithms::from_bits(1 << first_bit_set)
-                            .unwrap();
+                    let supported = 1u16
+                        .checked_shl(first_bit_set)
+                        .and_then(AeadFixedAlgorithms::from_bits)
+                        .ok_or(ResponderError::NoSharedAlgorithm)?;
                     let algo = AeadAlgorithm { supported };
                     rsp.algorithm_responses[i] = AlgorithmResponse::Aead(algo);
                 }
                 AlgorithmRequest::ReqBaseAsym(algo) => {
                     let first_bit_set = algo.supported.bits().trailing_zeros();
-                    let supported = ReqBaseAsymFixedAlgorithms::from_bits(
-                        1 << first_bit_set,
-                    )
-                    .unwrap();
+                    let supported = 1u16
+                        .checked_shl(first_bit_set)
+                        .and_then(ReqBaseAsymFixedAlgorithms::from_bits)
+                        .ok_or(ResponderError::NoSharedAlgorithm)?;
                     let algo = ReqBaseAsymAlgorithm { supported };
                     rsp.algorithm_responses[i] =
                         AlgorithmResponse::ReqBaseAsym(algo);
                 }
                 AlgorithmRequest::KeySchedule(algo) => {
                     let first_bit_set = algo.supported.bits().trailing_zeros();
-                    let supported = KeyScheduleFixedAlgorithms::from_bits(
-                        1 << first_bit_set,
-                    )
-                    .unwrap();
+                    let supported = 1u16
+                        .checked_shl(first_bit_set)
+                        .and_then(KeyScheduleFixedAlgorithms::from_bits)
+                        .ok_or(ResponderError::NoSharedAlgorithm)?;
                     let algo = KeyScheduleAlgorithm { supported };
                     rsp.algorithm_responses[i] =
                         AlgorithmResponse::KeySchedule(algo);
@@ -120,6 +136,15 @@ impl State {
             }
         }
 
-        rsp
+        Ok(rsp)
     }
 }
+
+// The signing algorithms that this responder is configured to use
+fn supported_signing_algorithms() -> Result<BaseAsymAlgo, ResponderError> {
+    let mut algos = BaseAsymAlgo::default();
+    for s in config::ALGORITHMS_ASYMMETRIC_SIGNING {
+        algos |= s.parse()?;
+    }
+    Ok(algos)
+}
diff --git a/src/responder/error.rs b/src/responder/error.rs
index 2ffe186..83714aa 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -4,7 +4,7 @@
 
 use crate::msgs::{
     self,
-    algorithms::ParseNegotiateAlgorithmsError,
+    algorithms::{ParseBaseAsymAlgoError, ParseNegotiateAlgorithmsError},
     capabilities::{ParseGetCapabilitiesError, ParseRspCapabilityError},
     certificates::WriteCertificateChainError,
     challenge::{ParseChallengeError, WriteChallengeAuthError},
@@ -38,6 +38,12 @@ pub enum ResponderError {
     // Parsing a NegotiateAlgorithms message failed
     ParseNegotiateAlgorithms(ParseNegotiateAlgorithmsError),
 
+    // The requester offered no algorithm that this responder can use
+    NoSharedAlgorithm,
+
+    // Parsing a base asymetric signing algorithm type from a string failed
+    ParseBaseAsymAlgo,
+
     // Parsing a GetCapabilities message failed
     ParseGetCapabilities(ParseGetCapabilitiesError),
 
@@ -87,6 +93,12 @@ impl From<ParseNegotiateAlgorithmsError> for ResponderError {
     }
 }
 
+impl From<ParseBaseAsymAlgoError> for ResponderError {
+    fn from(_: ParseBaseAsymAlgoError) -> Self {
+        ResponderError::ParseBaseAsymAlgo
+    }
+}
+
 impl From<ParseRspCapabilityError> for ResponderError {
     fn from(_: ParseRspCapabilityError) -> Self {
         ResponderError::ParseCapability
@@ -117,6 +129,8 @@ impl From<&ResponderError> for msgs::Error {
             ResponderError::InvalidSlot => msgs::Error::InvalidRequest,
             ResponderError::SigningFailed => msgs::Error::Unspecified,
             ResponderError::WriteCertChain(_) => msgs::Error::LargeResponse(0),
+            ResponderError::NoSharedAlgorithm => msgs::Error::InvalidRequest,
+            ResponderError::ParseBaseAsymAlgo => msgs::Error::Unspecified,
             ResponderError::ParseCapability => msgs::Error::Unspecified,
             ResponderError::ParseGetCapabilities(
                 ParseGetCapabilitiesError::InvalidBitsSet,
-- 
2.43.0


From 1a45bb6ffc2c9e580fe0070da8353cdd458f0d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 13/17] fix: return an error instead of panicking after
 termination

---
 src/requester.rs       | 12 ++++++++++--
 src/requester/error.rs |  3 +++
 src/responder.rs       |  3 ++-
 src/responder/error.rs |  4 ++++
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/requester.rs b/src/requester.rs
index 856499c..23174c7 100644
--- a/src/requester.rs
+++ b/src/requester.rs
@@ -241,7 +241,11 @@ impl AllStates {
                 }
             }
             AllStates::Challenge(state) => state.write_msg(buf, transcript),
-            _ => unimplemented!(),
+            AllStates::NewSession => {
+                Err(RequesterError::InitializationComplete)
+            }
+            // There is no way out of the `Error` state
+            AllStates::Error => Err(RequesterError::Terminated),
         }
     }
 
@@ -290,7 +294,11 @@ impl AllStates {
                 state.handle_msg(rsp, transcript, root_cert)?;
                 Ok(AllStates::NewSession)
             }
-            _ => unimplemented!(),
+            AllStates::NewSession => {
+                Err(RequesterError::InitializationComplete)
+            }
+            // There is no way out of the `Error` state
+            AllStates::Error => Err(RequesterError::Terminated),
         }
     }
 
diff --git a/src/requester/error.rs b/src/requester/error.rs
index 935008c..f9f3b23 100644
--- a/src/requester/error.rs
+++ b/src/requester/error.rs
@@ -65,6 +65,9 @@ pub enum RequesterError {
     // The user must transition to the `RequesterSession` state.
     InitializationComplete,
 
+    // An earlier error ended the protocol
+    Terminated,
+
     // Parsing a ChallengeAuth message failed
     ParseChallengeAuth(ParseChallengeAuthError),
 
diff --git a/src/responder.rs b/src/responder.rs
index af73017..ffa9601 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -116,7 +116,8 @@ impl AllStates {
             AllStates::Challenge(state) => {
                 state.handle_msg(slots, req, rsp, transcript)
             }
-            _ => unimplemented!(),
+            // Only `reset` leaves the `Error` state
+            AllStates::Error => Err(ResponderError::Terminated),
         };
         match res {
             Ok((size, state)) => (&rsp[..size], state, Ok(())),
diff --git a/src/responder/error.rs b/src/responder/error.rs
index 83714aa..b0a97f9 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -55,6 +55,9 @@ pub enum ResponderError {
 
     // Writing a ChallengeAuth message failed
     WriteChallengeAuth(WriteChallengeAuthError),
+
+    // An earlier error ended the protocol and the responder was not reset
+    Terminated,
 }
 
 impl From<BufferFullError> for ResponderError {
@@ -127,6 +130,7 @@ impl From<&ResponderError> for msgs::Error {
                 msgs::Error::UnexpectedRequest
             }
             ResponderError::InvalidSlot => msgs::Error::InvalidRequest,
+            ResponderError::Terminated => msgs::Error::UnexpectedRequest,
             ResponderError::SigningFailed => msgs::Error::Unspecified,
             ResponderError::WriteCertChain(_) => msgs::Error::LargeResponse(0),
             ResponderError::NoSharedAlgorithm => msgs::Error::InvalidRequest,
-- 
2.43.0


From aa8488b4f2d43207461e4cb0b5d3630bec9dd101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 14/17] fix: refuse requests that need an unadvertised
 capability

---
 src/responder/challenge.rs |  5 +++++
 src/responder/error.rs     |  6 ++++++
 src/responder/id_auth.rs   | 10 ++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/responder/challenge.rs b/src/responder/challenge.rs
index 4abe74c..10d2e24 100644
--- a/src/responder/challenge.rs
+++ b/src/responder/challenge.rs
@@ -51,6 +51,11 @@ impl State {
     ) -> Result<(usize, AllStates), ResponderError> {
         reset_on_get_version!(req, rsp, transcript);
         expect::<Challenge>(req)?;
+        if !self.responder_cap.contains(RspFlags::CHAL_CAP) {
+            return Err(ResponderError::UnsupportedRequest(
+                Challenge::SPDM_CODE,
+            ));
+        }
         let digest_size =
             self.algorithms.base_hash_algo_selected.get_digest_size();
         let signature_size =
diff --git a/src/responder/error.rs b/src/responder/error.rs
index b0a97f9..e32ea8b 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -26,6 +26,9 @@ pub enum ResponderError {
     // We received an unexpected message type
     UnexpectedMsgCode { expected: u8, got: u8 },
 
+    // A request needs a capability that this responder did not advertise
+    UnsupportedRequest(u8),
+
     // A challenge was sent with a slot that does not contain a cert
     InvalidSlot,
 
@@ -129,6 +132,9 @@ impl From<&ResponderError> for msgs::Error {
             ResponderError::UnexpectedMsgCode { .. } => {
                 msgs::Error::UnexpectedRequest
             }
+            ResponderError::UnsupportedRequest(code) => {
+                msgs::Error::UnsupportedRequest(*code)
+            }
             ResponderError::InvalidSlot => msgs::Error::InvalidRequest,
             ResponderError::Terminated => msgs::Error::UnexpectedRequest,
             ResponderError::SigningFailed => msgs::Error::Unspecified,
diff --git a/src/responder/id_auth.rs b/src/responder/id_auth.rs
index a47e3b7..e9da66f 100644
--- a/src/responder/id_auth.rs
+++ b/src/responder/id_auth.rs
@@ -66,15 +66,25 @@ impl State {
         reset_on_get_version!(req, rsp, transcript);
 
         if GetDigests::parse_header(req)? {
+            self.ensure_cert_cap(GetDigests::SPDM_CODE)?;
             return self.handle_get_digests(cert_chains, req, rsp, transcript);
         }
 
         // TODO: Handle more than one CERTIFICATE message. How do we decide when
         // to transfer to the next state then?
         expect::<GetCertificate>(req)?;
+        self.ensure_cert_cap(GetCertificate::SPDM_CODE)?;
         self.handle_get_certificate(cert_chains, req, rsp, transcript)
     }
 
+    // Certificates are only served if that capability was advertised
+    fn ensure_cert_cap(&self, code: u8) -> Result<(), ResponderError> {
+        if !self.responder_cap.contains(RspFlags::CERT_CAP) {
+            return Err(ResponderError::UnsupportedRequest(code));
+        }
+        Ok(())
+    }
+
     fn handle_get_certificate<'a>(
         self,
         cert_chains: &[Option<CertificateChain<'a>>; NUM_SLOTS],
-- 
2.43.0


From 693606976e5ad4d09cbe24f55b420b9bc001db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 15/17] fix: decode the body of GET_DIGESTS before answering it

---
 src/responder/id_auth.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/responder/id_auth.rs b/src/responder/id_auth.rs
index e9da66f..5c34afe 100644
--- a/src/responder/id_auth.rs
+++ b/src/responder/id_auth.rs
@@ -66,6 +66,7 @@ impl State {
         reset_on_get_version!(req, rsp, transcript);
 
         if GetDigests::parse_header(req)? {
+            GetDigests::parse_body(&req[HEADER_SIZE..])?;
             self.ensure_cert_cap(GetDigests::SPDM_CODE)?;
             return self.handle_get_digests(cert_chains, req, rsp, transcript);
         }
-- 
2.43.0


From e67f3dca4933f9a4a66fef4da6e4d43f84552345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 16/17] fix: report a CHALLENGE_AUTH that does not fit as too
 large

---
 src/responder/error.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/responder/error.rs b/src/responder/error.rs
index e32ea8b..2adede5 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -8,6 +8,7 @@ use crate::msgs::{
     capabilities::{ParseGetCapabilitiesError, ParseRspCapabilityError},
     certificates::WriteCertificateChainError,
     challenge::{ParseChallengeError, WriteChallengeAuthError},
+    common::WriteOpaqueElementError,
     BufferFullError, ParseHeaderError, ReadError,
 };
 
@@ -164,7 +165,10 @@ impl From<&ResponderError> for msgs::Error {
                 read_error_to_msgs_error(e)
             }
             ResponderError::WriteChallengeAuth(
-                WriteChallengeAuthError::BufferFull,
+                WriteChallengeAuthError::BufferFull
+                | WriteChallengeAuthError::WriteOpaqueElement(
+                    WriteOpaqueElementError::BufferFull,
+                ),
             ) => msgs::Error::ResponseTooLarge(0),
             ResponderError::WriteChallengeAuth(_) => {
                 msgs::Error::InvalidRequest
-- 
2.43.0


From 5f3261490ad56bca4cf688895742973f4693b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 17/17] fix: hold opaque data to the length announced for it

---
 src/msgs/challenge.rs    |  5 ++++-
 src/msgs/common.rs       | 20 ++++++++++++++++++++
 src/msgs/measurements.rs |  5 ++++-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index c41ebc3..9d40860 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -245,7 +245,10 @@ impl ChallengeAuth {
         if opaque_data_len as usize > MAX_OPAQUE_DATA_SIZE {
             return Err(ParseChallengeAuthError::MaxOpaqueDataSizeExceeded);
         }
-        let opaque_data = OpaqueData::read(&mut r)?;
+        let opaque_data = OpaqueData::read_with_length(
+            usize::from(opaque_data_len),
+            &mut r,
+        )?;
         let signature = SignatureBuf::read(signature_size, &mut r)?;
 
         Ok(ChallengeAuth {
diff --git a/src/msgs/common.rs b/src/msgs/common.rs
index 544fe13..4c4e30c 100644
--- a/src/msgs/common.rs
+++ b/src/msgs/common.rs
@@ -16,6 +16,9 @@ pub enum ParseOpaqueDataError {
     // More elements were received than there is space to handle
     TooManyElements,
     ParseOpaqueElement(ParseOpaqueElementError),
+
+    // The length put on the wire doesn't match the read opaque data
+    LengthMismatch,
 }
 
 impl From<ReadError> for ParseOpaqueDataError {
@@ -68,6 +71,23 @@ impl OpaqueData {
         }
         Ok(OpaqueData { total_elements, elements })
     }
+
+    /// Read opaque data that was announced to be `length` bytes long. There is
+    /// no opaque data at all when `length` is 0.
+    pub fn read_with_length(
+        length: usize,
+        r: &mut Reader,
+    ) -> Result<OpaqueData, ParseOpaqueDataError> {
+        if length == 0 {
+            return Ok(OpaqueData::default());
+        }
+        let offset = r.byte_offset();
+        let data = OpaqueData::read(r)?;
+        if length != r.byte_offset() - offset {
+            return Err(ParseOpaqueDataError::LengthMismatch);
+        }
+        Ok(data)
+    }
 }
 
 #[derive(Debug, PartialEq)]
diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index 9017178..e3b3a91 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -838,7 +838,10 @@ impl Measurements {
         if usize::from(opaque_data_len) > 1024 {
             return Err(ParseMeasurementsError::MaxOpaqueDataSizeExceeded);
         }
-        let opaque_data = OpaqueData::read(&mut r)?;
+        let opaque_data = OpaqueData::read_with_length(
+            usize::from(opaque_data_len),
+            &mut r,
+        )?;
 
         let signature = if signature_requested {
             Some(SignatureBuf::read(signature_size, &mut r)?)
-- 
2.43.0

