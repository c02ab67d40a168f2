From fb6641c871aba740eca8718a4783a36a71f7dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 01/18] fix: return an error for messages of at most two bytes

A peer could crash a requester or responder by sending a short message.
---
 src/msgs/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/msgs/mod.rs b/src/msgs/mod.rs
index 0f47a7c..58bbbe2 100644
--- a/src/msgs/mod.rs
+++ b/src/msgs/mod.rs
@@ -64,9 +64,12 @@ pub trait Msg {
     /// Return `Ok(false)` if the header is another message type.
     /// Return an error if the version is wrong for a GetVersion message.
     ///
-    /// Prerequisite buf >= 2 bytes
+    /// Return an error if `buf` does not extend past the header. No message
+    /// consists of a header only.
     fn parse_header(buf: &[u8]) -> Result<bool, ParseHeaderError> {
-        assert!(buf.len() > 2);
+        if buf.len() <= HEADER_SIZE {
+            return Err(ParseHeaderError);
+        }
         if buf[1] != Self::SPDM_CODE {
             Ok(false)
         } else {
-- 
2.43.0


From 124eb0e47635a94ec589452d7927020e7276c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 02/18] fix: reject a certificate chain whose certificates are
 not DER sequences

The tag came from the peer and was asserted on.
---
 src/msgs/certificates.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msgs/certificates.rs b/src/msgs/certificates.rs
index ba20fad..fd4d660 100644
--- a/src/msgs/certificates.rs
+++ b/src/msgs/certificates.rs
@@ -303,7 +303,9 @@ impl<'a> CertificateChain<'a> {
         r: &mut Reader,
     ) -> Result<(usize, usize), ParseCertificateChainError> {
         // Skip the sequence byte
-        assert_eq!(r.get_byte()?, 0x30);
+        if r.get_byte()? != 0x30 {
+            return Err(ParseCertificateChainError::BadDerEncoding);
+        }
 
         let pair = match r.get_byte()? {
             n if (n & 0x80) == 0 => (n.into(), 2),
-- 
2.43.0


From c0a6d35023495027cd72c14ff68b690c1a3b3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 03/18] fix: bound the number and size of received opaque
 elements

Both came from the peer and were used to index fixed size arrays.
---
 src/msgs/common.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/msgs/common.rs b/src/msgs/common.rs
index ce93c81..44b4877 100644
--- a/src/msgs/common.rs
+++ b/src/msgs/common.rs
@@ -11,6 +11,9 @@ use core::convert::{From, TryFrom, TryInto};
 
 #[derive(Debug, PartialEq)]
 pub enum ParseOpaqueDataError {
+    // There are more elements than we have space for
+    TooManyElements,
+
     Read(ReadError),
     ParseOpaqueElement(ParseOpaqueElementError),
 }
@@ -54,6 +57,9 @@ impl OpaqueData {
 
     pub fn read(r: &mut Reader) -> Result<OpaqueData, ParseOpaqueDataError> {
         let total_elements = r.get_byte()?;
+        if total_elements as usize > config::MAX_OPAQUE_ELEMENTS {
+            return Err(ParseOpaqueDataError::TooManyElements);
+        }
         r.skip_reserved(3)?;
         let mut elements =
             [OpaqueElement::default(); config::MAX_OPAQUE_ELEMENTS];
@@ -82,6 +88,9 @@ impl From<BufferFullError> for WriteOpaqueElementError {
 pub enum ParseOpaqueElementError {
     Read(ReadError),
 
+    // There is more data than we have space for
+    DataTooLarge,
+
     // The vendor Id does not match the registry format
     InvalidVendorId,
 
@@ -191,6 +200,9 @@ impl OpaqueElement {
 
         let vendor_id = VendorId::read(r, vendor_id_len)?;
         let data_len = r.get_u16()?;
+        if data_len as usize > config::MAX_OPAQUE_ELEMENT_DATA_SIZE {
+            return Err(ParseOpaqueElementError::DataTooLarge);
+        }
         let mut data = [0u8; config::MAX_OPAQUE_ELEMENT_DATA_SIZE];
         r.get_slice(data_len as usize, &mut data)?;
         let bytes_read = 4 + vendor_id_len as usize + data_len as usize;
-- 
2.43.0


From 4e3e0f605e90c2ae4d210bbb9a3fc1112a06e7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 04/18] fix: convert signatures with a zero integer to DER

A peer could crash the verifier with a signature whose r or s is zero.
---
 src/crypto/pki.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto/pki.rs b/src/crypto/pki.rs
index c501773..b6e4dc6 100644
--- a/src/crypto/pki.rs
+++ b/src/crypto/pki.rs
@@ -97,7 +97,8 @@ pub fn bin_to_der(signature: &[u8], out: &mut [u8]) -> usize {
 // Take an integer (`r` or `s`) and return as a pair its start location and its
 // size including any necessary pad bytes.
 fn get_start_and_length(i: &[u8]) -> (usize, usize) {
-    let start = i.iter().position(|b| *b != 0).unwrap();
+    // A value of zero is encoded as a single zero byte
+    let start = i.iter().position(|b| *b != 0).unwrap_or(i.len() - 1);
     let pad = if i[start] & 0x80 != 0 { 1 } else { 0 };
     let length = i.len() - start + pad;
     (start, length)
-- 
2.43.0


From 7841dbab866d0d8e62e146632bd9f5715260406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 05/18] fix: bound the number of received measurement blocks

It came from the peer and was used to index a fixed size array.
---
 src/msgs/measurements.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index 23483a6..e5ebf61 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -601,6 +601,7 @@ impl From<WriteOpaqueElementError> for WriteMeasurementsError {
 
 #[derive(Debug, PartialEq)]
 pub enum ParseMeasurementBlocksError {
+    MaxBlocksExceeded,
     MaxSizeExceeded,
     MeasurementSizeMismatch,
     Block(ParseMeasurementBlockError),
@@ -663,6 +664,9 @@ impl MeasurementBlocks {
         r: &mut Reader,
     ) -> Result<MeasurementBlocks, ParseMeasurementBlocksError> {
         let num_blocks = r.get_byte()? as usize;
+        if num_blocks > config::MAX_MEASUREMENT_BLOCKS {
+            return Err(ParseMeasurementBlocksError::MaxBlocksExceeded);
+        }
         let size = r.get_u24()?;
         if size > config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS
         {
-- 
2.43.0


From ecda1641f6d732d4201e4b2d6353a54a119e85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 06/18] fix: keep the slot and set the mutual auth bit in
 CHALLENGE_AUTH

The slot was masked out instead, so that slot 0 was always reported and
mutual authentication never was.
---
 src/msgs/challenge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index 244869b..faae470 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -166,7 +166,7 @@ impl Msg for ChallengeAuth {
     ) -> Result<usize, WriteChallengeAuthError> {
         self.validate()?;
         if self.use_mutual_auth {
-            w.put(self.slot & (1 << 7))?;
+            w.put(self.slot | (1 << 7))?;
         } else {
             w.put(self.slot)?;
         }
-- 
2.43.0


From 5383f324e9583c91d177801ad0213cf86ba031a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 07/18] fix: report the code of an unexpected message rather
 than its version

---
 src/requester.rs         | 2 +-
 src/responder.rs         | 2 +-
 src/responder/version.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/requester.rs b/src/requester.rs
index 9f5022d..856499c 100644
--- a/src/requester.rs
+++ b/src/requester.rs
@@ -41,7 +41,7 @@ pub fn expect<T: Msg>(buf: &[u8]) -> Result<(), RequesterError> {
         Ok(true) => Ok(()),
         Ok(false) => Err(RequesterError::UnexpectedMsgCode {
             expected: T::SPDM_CODE,
-            got: buf[0],
+            got: buf[1],
         }),
         Err(e) => Err(e.into()),
     }
diff --git a/src/responder.rs b/src/responder.rs
index ef3791e..af73017 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -247,7 +247,7 @@ pub fn expect<T: Msg>(buf: &[u8]) -> Result<(), ResponderError> {
         Ok(true) => Ok(()),
         Ok(false) => Err(ResponderError::UnexpectedMsgCode {
             expected: T::SPDM_CODE,
-            got: buf[0],
+            got: buf[1],
         }),
         Err(e) => Err(e.into()),
     }
diff --git a/src/responder/version.rs b/src/responder/version.rs
index 64da3cc..cd726d5 100644
--- a/src/responder/version.rs
+++ b/src/responder/version.rs
@@ -21,7 +21,7 @@ impl State {
             Ok(true) => self.handle_get_version(req, rsp, transcript),
             Ok(false) => Err(ResponderError::UnexpectedMsgCode {
                 expected: GetVersion::SPDM_CODE,
-                got: req[0],
+                got: req[1],
             }),
             Err(e) => Err(e.into()),
         }
-- 
2.43.0


From c0f42faef995101619ccf8656374b847a16b774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 08/18] fix: reject the slot number one past the last slot

CHALLENGE_AUTH and MEASUREMENTS parsing were off by one.
---
 src/msgs/challenge.rs    | 2 +-
 src/msgs/measurements.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index faae470..d9e97a9 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -230,7 +230,7 @@ impl ChallengeAuth {
     ) -> Result<ChallengeAuth, ParseChallengeAuthError> {
         let mut r = Reader::new(buf);
         let slot = r.get_bits(4)?;
-        if slot as usize > NUM_SLOTS {
+        if slot as usize >= NUM_SLOTS {
             return Err(ParseChallengeAuthError::MaxOpaqueDataSizeExceeded);
         }
         let _ = r.get_bits(3)?;
diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index e5ebf61..9017178 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -824,7 +824,7 @@ impl Measurements {
 
         // Parse Param2
         let slot_id = r.get_bits(4)?;
-        if usize::from(slot_id) > config::NUM_SLOTS {
+        if usize::from(slot_id) >= config::NUM_SLOTS {
             return Err(ParseMeasurementsError::MaxSlotNumberExceeded);
         }
         let content_changed = ContentChanged::try_from(r.get_bits(2)?)?;
-- 
2.43.0


From ff47c6f87dc21c249fdb584c81021f8795670fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 09/18] fix: accept a certificate chain only for the requested
 slot

The responder could substitute any slot, which was then challenged. A slot
of 8 or more could overflow the slot mask check.
---
 src/requester/error.rs   | 3 +++
 src/requester/id_auth.rs | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/requester/error.rs b/src/requester/error.rs
index 935008c..105cab3 100644
--- a/src/requester/error.rs
+++ b/src/requester/error.rs
@@ -46,6 +46,9 @@ pub enum RequesterError {
     ParseCert(ParseCertificateError),
     InvalidCert,
 
+    // The responder sent the certificate chain of a slot that was not requested
+    IncorrectCertSlot,
+
     // An Algorithms msg could not be parsed properly
     ParseAlgorithms(ParseAlgorithmsError),
 
diff --git a/src/requester/id_auth.rs b/src/requester/id_auth.rs
index 7b03722..9f05f96 100644
--- a/src/requester/id_auth.rs
+++ b/src/requester/id_auth.rs
@@ -41,6 +41,9 @@ pub struct State {
     // CAP_PSK is enabled.
     pub digests: Option<Digests>,
     pub cert_chain: Option<Certificate>,
+
+    // The slot in the last GET_CERTIFICATE request sent
+    pub requested_slot: Option<u8>,
 }
 
 impl From<algorithms::State> for State {
@@ -54,6 +57,7 @@ impl From<algorithms::State> for State {
             algorithms: s.algorithms.unwrap(),
             digests: None,
             cert_chain: None,
+            requested_slot: None,
         }
     }
 }
@@ -112,6 +116,7 @@ impl State {
         };
         let size = msg.write(buf)?;
         transcript.extend(&buf[..size])?;
+        self.requested_slot = Some(slot);
         Ok(&buf[..size])
     }
 
@@ -123,6 +128,9 @@ impl State {
     ) -> Result<(), RequesterError> {
         expect::<Certificate>(buf)?;
         let cert = Certificate::parse_body(&buf[HEADER_SIZE..])?;
+        if self.requested_slot != Some(cert.slot) {
+            return Err(RequesterError::IncorrectCertSlot);
+        }
         self.cert_chain = Some(cert);
         transcript.extend(buf)?;
         Ok(())
-- 
2.43.0


From 4ad3509f7528f62acce7cd74aa78afafa22d9817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 10/18] fix: refuse requests whose capability the responder did
 not advertise

Without a crypto provider no capability is advertised, yet a GET_DIGESTS
still reached the unimplemented digest functions.
---
 src/responder/challenge.rs |  5 +++++
 src/responder/error.rs     |  6 ++++++
 src/responder/id_auth.rs   | 11 +++++++++++
 3 files changed, 22 insertions(+)

diff --git a/src/responder/challenge.rs b/src/responder/challenge.rs
index 33d8c72..1d8d214 100644
--- a/src/responder/challenge.rs
+++ b/src/responder/challenge.rs
@@ -51,6 +51,11 @@ impl State {
     ) -> Result<(usize, AllStates), ResponderError> {
         reset_on_get_version!(req, rsp, transcript);
         expect::<Challenge>(req)?;
+        if !self.responder_cap.contains(RspFlags::CHAL_CAP) {
+            return Err(ResponderError::UnsupportedRequest(
+                Challenge::SPDM_CODE,
+            ));
+        }
         let digest_size =
             self.algorithms.base_hash_algo_selected.get_digest_size();
         let signature_size =
diff --git a/src/responder/error.rs b/src/responder/error.rs
index 2ffe186..264497e 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -26,6 +26,9 @@ pub enum ResponderError {
     // We received an unexpected message type
     UnexpectedMsgCode { expected: u8, got: u8 },
 
+    // The capability needed to serve this request is not advertised
+    UnsupportedRequest(u8),
+
     // A challenge was sent with a slot that does not contain a cert
     InvalidSlot,
 
@@ -114,6 +117,9 @@ impl From<&ResponderError> for msgs::Error {
             ResponderError::UnexpectedMsgCode { .. } => {
                 msgs::Error::UnexpectedRequest
             }
+            ResponderError::UnsupportedRequest(code) => {
+                msgs::Error::UnsupportedRequest(*code)
+            }
             ResponderError::InvalidSlot => msgs::Error::InvalidRequest,
             ResponderError::SigningFailed => msgs::Error::Unspecified,
             ResponderError::WriteCertChain(_) => msgs::Error::LargeResponse(0),
diff --git a/src/responder/id_auth.rs b/src/responder/id_auth.rs
index a47e3b7..229ebf6 100644
--- a/src/responder/id_auth.rs
+++ b/src/responder/id_auth.rs
@@ -66,15 +66,26 @@ impl State {
         reset_on_get_version!(req, rsp, transcript);
 
         if GetDigests::parse_header(req)? {
+            self.ensure_cert_cap(GetDigests::SPDM_CODE)?;
             return self.handle_get_digests(cert_chains, req, rsp, transcript);
         }
 
         // TODO: Handle more than one CERTIFICATE message. How do we decide when
         // to transfer to the next state then?
         expect::<GetCertificate>(req)?;
+        self.ensure_cert_cap(GetCertificate::SPDM_CODE)?;
         self.handle_get_certificate(cert_chains, req, rsp, transcript)
     }
 
+    // Identification is only supported if CERT_CAP was advertised
+    fn ensure_cert_cap(&self, code: u8) -> Result<(), ResponderError> {
+        if self.responder_cap.contains(RspFlags::CERT_CAP) {
+            Ok(())
+        } else {
+            Err(ResponderError::UnsupportedRequest(code))
+        }
+    }
+
     fn handle_get_certificate<'a>(
         self,
         cert_chains: &[Option<CertificateChain<'a>>; NUM_SLOTS],
-- 
2.43.0


From a4fd7c521b1813c2407f9ea058fff67d1f3e5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 11/18] fix: select only algorithms that are offered and
 supported

An offer without a known bit, or one whose lowest bit is an algorithm that
is not implemented, crashed the responder then or in a later phase.
---
 src/responder/algorithms.rs | 34 +++++++++++++++++++++++++++++++++-
 src/responder/error.rs      | 16 +++++++++++++++-
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/responder/algorithms.rs b/src/responder/algorithms.rs
index addb978..34a3ce6 100644
--- a/src/responder/algorithms.rs
+++ b/src/responder/algorithms.rs
@@ -3,6 +3,8 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use super::{capabilities, expect, id_auth, AllStates, ResponderError};
+use crate::config;
+use crate::crypto::ProvidedDigests;
 use crate::msgs::algorithms::*;
 use crate::msgs::capabilities::{ReqFlags, RspFlags};
 use crate::msgs::{Msg, HEADER_SIZE};
@@ -46,7 +48,8 @@ impl State {
         let req_msg = NegotiateAlgorithms::parse_body(&req[HEADER_SIZE..])?;
         transcript.extend(req)?;
 
-        let algorithms = self.choose_algorithms(req_msg);
+        let supported_req = Self::restrict_to_supported(req_msg)?;
+        let algorithms = self.choose_algorithms(supported_req);
         let size = algorithms.write(rsp)?;
         transcript.extend(&rsp[..size])?;
         self.algorithms = Some(algorithms);
@@ -54,6 +57,35 @@ impl State {
         Ok((size, id_auth::State::from(self).into()))
     }
 
+    // Drop the offered algorithms that we don't support. There must be at least
+    // one left to choose for each algorithm type.
+    fn restrict_to_supported(
+        mut req: NegotiateAlgorithms,
+    ) -> Result<NegotiateAlgorithms, ResponderError> {
+        let mut signing_algos = BaseAsymAlgo::default();
+        for s in config::ALGORITHMS_ASYMMETRIC_SIGNING {
+            signing_algos |= s.parse()?;
+        }
+        req.base_asym_algo &= signing_algos;
+        req.base_hash_algo &= ProvidedDigests::supported_algorithms();
+
+        let requests =
+            &req.algorithm_requests[..req.num_algorithm_requests as usize];
+        let is_empty = |r: &AlgorithmRequest| match r {
+            AlgorithmRequest::Dhe(algo) => algo.supported.is_empty(),
+            AlgorithmRequest::Aead(algo) => algo.supported.is_empty(),
+            AlgorithmRequest::ReqBaseAsym(algo) => algo.supported.is_empty(),
+            AlgorithmRequest::KeySchedule(algo) => algo.supported.is_empty(),
+        };
+        if req.base_asym_algo.is_empty()
+            || req.base_hash_algo.is_empty()
+            || requests.iter().any(is_empty)
+        {
+            return Err(ResponderError::NoSupportedAlgorithm);
+        }
+        Ok(req)
+    }
+
     // We use the simplest mechanism possible here and just choose the first set
     // bit for each algorithm.
     //
diff --git a/src/responder/error.rs b/src/responder/error.rs
index 264497e..95948fd 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -4,7 +4,7 @@
 
 use crate::msgs::{
     self,
-    algorithms::ParseNegotiateAlgorithmsError,
+    algorithms::{ParseBaseAsymAlgoError, ParseNegotiateAlgorithmsError},
     capabilities::{ParseGetCapabilitiesError, ParseRspCapabilityError},
     certificates::WriteCertificateChainError,
     challenge::{ParseChallengeError, WriteChallengeAuthError},
@@ -41,6 +41,12 @@ pub enum ResponderError {
     // Parsing a NegotiateAlgorithms message failed
     ParseNegotiateAlgorithms(ParseNegotiateAlgorithmsError),
 
+    // The requester did not offer an algorithm that the responder supports
+    NoSupportedAlgorithm,
+
+    // Parsing a base asymetric signing algorithm type from a string failed
+    ParseBaseAsymAlgo,
+
     // Parsing a GetCapabilities message failed
     ParseGetCapabilities(ParseGetCapabilitiesError),
 
@@ -90,6 +96,12 @@ impl From<ParseNegotiateAlgorithmsError> for ResponderError {
     }
 }
 
+impl From<ParseBaseAsymAlgoError> for ResponderError {
+    fn from(_: ParseBaseAsymAlgoError) -> Self {
+        ResponderError::ParseBaseAsymAlgo
+    }
+}
+
 impl From<ParseRspCapabilityError> for ResponderError {
     fn from(_: ParseRspCapabilityError) -> Self {
         ResponderError::ParseCapability
@@ -123,6 +135,8 @@ impl From<&ResponderError> for msgs::Error {
             ResponderError::InvalidSlot => msgs::Error::InvalidRequest,
             ResponderError::SigningFailed => msgs::Error::Unspecified,
             ResponderError::WriteCertChain(_) => msgs::Error::LargeResponse(0),
+            ResponderError::NoSupportedAlgorithm => msgs::Error::InvalidRequest,
+            ResponderError::ParseBaseAsymAlgo => msgs::Error::Unspecified,
             ResponderError::ParseCapability => msgs::Error::Unspecified,
             ResponderError::ParseGetCapabilities(
                 ParseGetCapabilitiesError::InvalidBitsSet,
-- 
2.43.0


From b17e10452c792e1ee446bd34656bd6948b30d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 12/18] fix: reject a malformed GET_DIGESTS body

---
 src/responder/id_auth.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/responder/id_auth.rs b/src/responder/id_auth.rs
index 229ebf6..19fc330 100644
--- a/src/responder/id_auth.rs
+++ b/src/responder/id_auth.rs
@@ -128,6 +128,8 @@ impl State {
         rsp: &mut [u8],
         transcript: &mut Transcript,
     ) -> Result<(usize, AllStates), ResponderError> {
+        let _ = GetDigests::parse_body(&req[HEADER_SIZE..])?;
+
         let slot_mask = create_slot_mask(cert_chains);
         let digests = self.hash_cert_chains(cert_chains)?;
 
-- 
2.43.0


From 58ed913c96a6751c3eef685fae2ab069c966ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 13/18] fix: write only as many version entries as counted

---
 src/msgs/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msgs/version.rs b/src/msgs/version.rs
index c63a3a2..f40bc82 100644
--- a/src/msgs/version.rs
+++ b/src/msgs/version.rs
@@ -94,7 +94,7 @@ impl Msg for Version {
 
         w.put(self.num_entries)?;
 
-        for v in self.entries.iter() {
+        for v in self.entries[..self.num_entries as usize].iter() {
             w.put(v.alpha | (v.update << 4))?;
             w.put(v.minor | (v.major << 4))?;
         }
-- 
2.43.0


From 91a8d84df98e14a0a6e06a4814a8eae076f38079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 14/18] fix: offer only hash algorithms whose digest fits the
 configured maximum

---
 src/crypto/ring/digest.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crypto/ring/digest.rs b/src/crypto/ring/digest.rs
index 9f97343..9e4b25d 100644
--- a/src/crypto/ring/digest.rs
+++ b/src/crypto/ring/digest.rs
@@ -6,6 +6,7 @@ use core::convert::{TryFrom, TryInto};
 use crypto::digest::Digest;
 use ring_compat::digest::{Sha256, Sha384, Sha512};
 
+use crate::config::MAX_DIGEST_SIZE;
 use crate::crypto::digest::Digests;
 use crate::impl_digests;
 use crate::msgs::algorithms::BaseHashAlgo;
@@ -19,8 +20,13 @@ impl_digests!(
 );
 
 impl ProvidedDigests {
+    /// The algorithms with digests that fit in the configured maximum size
     pub fn supported_algorithms() -> BaseHashAlgo {
-        BaseHashAlgo::SHA_256 | BaseHashAlgo::SHA_384 | BaseHashAlgo::SHA_512
+        let mut algos = BaseHashAlgo::default();
+        algos.set(BaseHashAlgo::SHA_256, MAX_DIGEST_SIZE >= 32);
+        algos.set(BaseHashAlgo::SHA_384, MAX_DIGEST_SIZE >= 48);
+        algos.set(BaseHashAlgo::SHA_512, MAX_DIGEST_SIZE >= 64);
+        algos
     }
 }
 
-- 
2.43.0


From 9c3e0586992fc18195d86ccc775b93c57ca46728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 15/18] fix: decode MEASUREMENTS whose record is of the maximum
 size

The limit on the record length left out the headers of the measurement
blocks, and digests larger than MAX_MEASUREMENT_SIZE, so a message within
the configured limits could be encoded but not decoded.
---
 src/msgs/measurements.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index 9017178..a2bad32 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -620,6 +620,15 @@ impl From<ReadError> for ParseMeasurementBlocksError {
     }
 }
 
+// The maximum serialized size of a `MeasurementBlock`: its headers followed by
+// the larger of a raw measurement and a digest.
+const MAX_BLOCK_SIZE: usize =
+    7 + if config::MAX_MEASUREMENT_SIZE > config::MAX_DIGEST_SIZE {
+        config::MAX_MEASUREMENT_SIZE
+    } else {
+        config::MAX_DIGEST_SIZE
+    };
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct MeasurementBlocks {
     pub len: usize,
@@ -668,8 +677,7 @@ impl MeasurementBlocks {
             return Err(ParseMeasurementBlocksError::MaxBlocksExceeded);
         }
         let size = r.get_u24()?;
-        if size > config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS
-        {
+        if size > MAX_BLOCK_SIZE * config::MAX_MEASUREMENT_BLOCKS {
             return Err(ParseMeasurementBlocksError::MaxSizeExceeded);
         }
         let offset = r.byte_offset();
-- 
2.43.0


From 9c18f34631b523846f7b19a891241a1e804c5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 16/18] fix: refuse signatures of impossible size without a
 panic

verify_signature panicked on an empty signature (underflow) and on one
longer than the DER buffer reserved for the largest supported size.
---
 src/crypto/ring/pki.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crypto/ring/pki.rs b/src/crypto/ring/pki.rs
index acbf1b9..3fb617f 100644
--- a/src/crypto/ring/pki.rs
+++ b/src/crypto/ring/pki.rs
@@ -4,6 +4,7 @@
 
 use core::convert::TryFrom;
 
+use crate::config::MAX_SIGNATURE_SIZE;
 use crate::msgs::algorithms::BaseAsymAlgo;
 
 use super::super::pki::{bin_to_der, max_encoded_size, EndEntityCert, Error};
@@ -50,6 +51,10 @@ impl<'a> EndEntityCert<'a> for WebpkiEndEntityCert<'a> {
         msg: &[u8],
         signature: &[u8],
     ) -> bool {
+        // No configured algorithm creates a signature of such a size
+        if signature.is_empty() || signature.len() > MAX_SIGNATURE_SIZE {
+            return false;
+        }
         let algo = spdm_to_webpki(algorithm);
         let mut der = [0u8; max_encoded_size()];
         let size = bin_to_der(signature, &mut der[..]);
-- 
2.43.0


From 95d03f3f28898e759fe7ea5781622a6e044e6ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 17/18] Export message parts for verification under
 cfg(spdm_verif)

---
 src/msgs/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/msgs/mod.rs b/src/msgs/mod.rs
index 58bbbe2..9bb1a44 100644
--- a/src/msgs/mod.rs
+++ b/src/msgs/mod.rs
@@ -36,6 +36,13 @@ pub use error::Error;
 pub use measurements::{GetMeasurements, Measurements};
 pub use version::{GetVersion, Version, VersionEntry};
 
+/// Names of message parts that are not otherwise exported
+#[cfg(spdm_verif)]
+pub mod verif {
+    pub use super::error::*;
+    pub use super::measurements::*;
+}
+
 #[derive(Debug, PartialEq)]
 pub struct ParseHeaderError;
 
-- 
2.43.0


From c013439f17a5e8c6a613f96daea6e459dfeeb7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 18/18] fix: refuse signatures that are not two integers of the
 same size

---
 src/crypto/ring/pki.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ring/pki.rs b/src/crypto/ring/pki.rs
index 3fb617f..ad613cf 100644
--- a/src/crypto/ring/pki.rs
+++ b/src/crypto/ring/pki.rs
@@ -51,8 +51,12 @@ impl<'a> EndEntityCert<'a> for WebpkiEndEntityCert<'a> {
         msg: &[u8],
         signature: &[u8],
     ) -> bool {
-        // No configured algorithm creates a signature of such a size
-        if signature.is_empty() || signature.len() > MAX_SIGNATURE_SIZE {
+        // No configured algorithm creates a signature of such a size: it is
+        // made of two integers of the same size
+        if signature.is_empty()
+            || signature.len() % 2 != 0
+            || signature.len() > MAX_SIGNATURE_SIZE
+        {
             return false;
         }
         let algo = spdm_to_webpki(algorithm);
-- 
2.43.0

