"""Third batch."""
CFG = """capabilities = [%s]

[cert_chains]
num_slots = 5
buf_size = 1024
max_depth = 4

[transcript]
buf_size = 4096

[algorithms]
asymmetric_signing = ["ECDSA_ECC_NIST_P256"]
max_digest_size = %d

[measurement]
max_blocks = 10
max_size = 1024

[opaque_data]
max_elements = 2
max_element_data_size = 16
"""
SEEDS = [
dict(id="C01-appended", property="C01",
 needs="bytes appended to a genuine CHALLENGE_AUTH",
 what_it_breaks="an altered response completes the handshake; the transcript lacks what was received",
 edits=[("src/requester/challenge.rs","""        let sig_start = buf.len() - usize::from(signature_size);
""","""        let digest_len = usize::from(digest_size);
        let sig_start = HEADER_SIZE
            + 2
            + digest_len
            + rsp.nonce.as_ref().len()
            + digest_len
            + 2
            + rsp.opaque_data.serialized_size();
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for n in [0usize, 1, 4, 64] {
        let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
        let mut r = Responder::new(filled(&pki, &[0]));
        until(&mut q, &mut r, "Challenge");
        let mut a = [0u8; 256];
        let m = q.next_request(&mut a).unwrap().to_vec();
        let (mut o, ok) = give(&mut r, &m);
        check(ok, "challenge answered");
        o.extend(vec![0u8; n]);
        check(q.handle_msg(&o).is_ok() == (n == 0), "only the unaltered response is accepted");
    }
}
"""),
dict(id="C01-digest-prefix", property="C01",
 needs="a CHALLENGE_AUTH, signed by the slot's own key, whose chain digest differs from the chain's only beyond its first 16 bytes",
 what_it_breaks="a challenge response for another chain digest is accepted",
 edits=[("src/requester/challenge.rs","""        if rsp.cert_chain_hash.as_ref() != digest.as_ref() {
""","""        let same = rsp
            .cert_chain_hash
            .as_ref()
            .chunks(16)
            .zip(digest.as_ref().chunks(16))
            .any(|(a, b)| a == b);
        if !same {
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let leaf = pki.leaf(1);
    let signer = new_signer(BaseAsymAlgo::ECDSA_ECC_NIST_P256, &leaf.key).unwrap();
    for at in [None, Some(4usize), Some(19), Some(20), Some(35)] {
        let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
        let mut s = no_slots();
        s[0] = Some(pki.slot(&leaf));
        let mut r = Responder::new(s);
        until(&mut q, &mut r, "Challenge");
        let mut a = [0u8; 256];
        let m = q.next_request(&mut a).unwrap().to_vec();
        let (mut o, _) = give(&mut r, &m);
        if let Some(at) = at { o[at] ^= 1; }
        let n = o.len() - 64;
        let mut t = q.transcript().get().to_vec();
        t.extend_from_slice(&o[..n]);
        let sig = signer.sign(&sha256(&t)).unwrap();
        o[n..].copy_from_slice(sig.as_ref());
        check(q.handle_msg(&o).is_ok() == at.is_none(), "only the digest of the received chain is accepted");
    }
}
"""),
dict(id="C02-either-cap", property="C02",
 needs="a responder that advertises challenge but not certificate capability",
 what_it_breaks="identification runs although the responder has no certificate capability",
 edits=[("src/requester.rs","""                        && state.responder_cap.contains(RspFlags::CERT_CAP)
""","""                        && state
                            .responder_cap
                            .intersects(RspFlags::CERT_CAP | RspFlags::CHAL_CAP)
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for (flags, done) in [(0x6u8, false), (0x2, false), (0x4, true), (0x0, true)] {
        let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
        let mut r = Responder::new(filled(&pki, &[0]));
        until(&mut q, &mut r, "Capabilities");
        let mut a = [0u8; 256];
        let m = q.next_request(&mut a).unwrap().to_vec();
        let (mut o, _) = give(&mut r, &m);
        o[8] = o[8] & !6 | flags;
        check(q.handle_msg(&o) == Ok(false), "capabilities accepted");
        let m = q.next_request(&mut a).unwrap().to_vec();
        let (o, _) = give(&mut r, &m);
        check(q.handle_msg(&o) == Ok(done), "identification needs the certificate capability of both");
    }
}
"""),
dict(id="C02-minor-version", property="C02",
 needs="a response whose header carries another minor version than its type",
 what_it_breaks="responses of another protocol version are accepted",
 edits=[("src/msgs/mod.rs","""            if buf[0] == Self::SPDM_VERSION {
""","""            // Minor versions are compatible
            if buf[0] & 0xf0 == Self::SPDM_VERSION & 0xf0 {
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for phase in ["Version", "Capabilities", "Algorithms", "IdAuth"] {
        for v in [0x10u8, 0x11, 0x12, 0x1f] {
            let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
            let mut r = Responder::new(filled(&pki, &[0]));
            until(&mut q, &mut r, phase);
            let mut a = [0u8; 256];
            let m = q.next_request(&mut a).unwrap().to_vec();
            let (mut o, _) = give(&mut r, &m);
            let same = o[0] == v;
            o[0] = v;
            check(q.handle_msg(&o).is_ok() == same, "only the version of the type");
        }
    }
}
"""),
dict(id="C03-empty-slot", property="C03",
 needs="GET_CERTIFICATE for an empty slot, then another request",
 what_it_breaks="the responder does not move on after a CERTIFICATE without certificates",
 edits=[("src/responder/id_auth.rs","""        Ok((size, challenge::State::from(self).into()))
""","""        // Without a certificate there is nothing to challenge
        let next: AllStates = match portion_length {
            0 => self.into(),
            _ => challenge::State::from(self).into(),
        };
        Ok((size, next))
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for s in 0..2u8 {
        let mut r = Responder::new(filled(&pki, &[0]));
        vca(&mut r);
        check(give(&mut r, &get_certificate(s)).1, "certificate served");
        check(r.state().name() == "Challenge", "the challenge follows");
        check(!give(&mut r, &GET_DIGESTS).1, "no more digests");
    }
}
"""),
dict(id="C04-request-tail", property="C04",
 needs="a GET_CERTIFICATE longer than its eight bytes",
 what_it_breaks="the bytes beyond are missing from the responder's transcript",
 edits=[("src/responder/id_auth.rs","""        let size = cert.write(rsp)?;
        transcript.extend(req)?;
""","""        let size = cert.write(rsp)?;
        // The slot, a reserved byte, offset and length
        transcript.extend(&req[..HEADER_SIZE + 6])?;
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for n in [0usize, 1, 7] {
        let mut r = Responder::new(filled(&pki, &[0]));
        vca(&mut r);
        let mut t = r.transcript().get().to_vec();
        let mut m = get_certificate(0);
        m.extend(vec![0x55u8; n]);
        let (o, ok) = give(&mut r, &m);
        check(ok, "served");
        t.extend_from_slice(&m);
        t.extend_from_slice(&o);
        check(r.transcript().get() == &t[..], "everything received is recorded");
    }
}
"""),
dict(id="C05-unsigned", property="C05",
 needs="a signer that fails",
 what_it_breaks="a CHALLENGE_AUTH without a signature is sent",
 edits=[("src/responder/challenge.rs","""        let signature = signer
            .sign(m1_hash.as_ref())
            .map_err(|_| ResponderError::SigningFailed)?;

        // Attach the real signature to the CHALLENGE_AUTH message
        rsp[sig_start..size].copy_from_slice(signature.as_ref());
""","""        // Attach the real signature to the CHALLENGE_AUTH message
        match signer.sign(m1_hash.as_ref()) {
            Ok(signature) => {
                rsp[sig_start..size].copy_from_slice(signature.as_ref())
            }
            Err(_) if sig_start < HEADER_SIZE => {
                return Err(ResponderError::SigningFailed)
            }
            Err(_) => (),
        }
""")],
 demo="""
use std::cell::Cell;
struct Tired(Cell<u8>, RingSigner);
impl Signer for Tired {
    type Signature = <RingSigner as Signer>::Signature;
    fn sign(&self, m: &[u8]) -> Result<Self::Signature, signing::Error> {
        self.0.set(self.0.get() + 1);
        if self.0.get() == 2 { Err(signing::Error {}) } else { self.1.sign(m) }
    }
}
fn main() {
    let pki = Pki::new();
    let s = pki.slot(&pki.leaf(1));
    let mut slots: [Option<FilledSlot<'static, Tired>>; NUM_SLOTS] = Default::default();
    slots[0] = Some(FilledSlot { signing_algorithm: s.signing_algorithm, hash_algorithm: s.hash_algorithm, cert_chain: s.cert_chain, signer: Tired(Cell::new(0), s.signer) });
    let mut r = Responder::new(slots);
    vca(&mut r);
    give(&mut r, &get_certificate(0));
    check(give(&mut r, &challenge(0, 1)).1, "the first is signed");
    let (o, ok) = give(&mut r, &challenge(0, 2));
    check(!ok && o[1] == 0x7f, "the second cannot be");
}
"""),
dict(id="C06-reset-transcript", property="C06",
 needs="a reset in the middle of a handshake, before the next GET_VERSION",
 what_it_breaks="the transcript survives the reset",
 edits=[("src/responder.rs","""        self.transcript.clear();
        self.state = Some(version::State {}.into());
    }
""","""        if let Some(AllStates::Error) = self.state {
            self.transcript.clear();
        }
        self.state = Some(version::State {}.into());
    }
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0]));
    vca(&mut r);
    r.reset();
    check(r.transcript().len() == 0, "nothing left");
    check(r.state().name() == "Version", "back at the beginning");
    vca(&mut r);
    give(&mut r, &GET_DIGESTS[..3]);
    r.reset();
    check(r.transcript().len() == 0, "nothing left after an error");
}
"""),
dict(id="C07-empty-slot-alive", property="C07",
 needs="a CHALLENGE for an empty slot",
 what_it_breaks="the responder reports success and stays alive after answering with an ERROR",
 edits=[("src/responder/challenge.rs","""            } else {
                return Err(ResponderError::InvalidSlot);
            };
""","""            } else {
                if usize::from(req_msg.slot) >= slots.len() {
                    return Err(ResponderError::InvalidSlot);
                }
                // The requester may ask for another slot
                let size = crate::msgs::Error::InvalidRequest.write(rsp)?;
                return Ok((size, self.into()));
            };
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for s in [1u8, 4, 5, 255] {
        let mut r = Responder::new(filled(&pki, &[0]));
        vca(&mut r);
        give(&mut r, &get_certificate(0));
        let (o, ok) = give(&mut r, &challenge(s, 1));
        check(o[1] == 0x7f, "an ERROR");
        check(!ok && r.state().name() == "Error", "and the end");
    }
}
"""),
dict(id="C08-last-of-kind", property="C08",
 needs="a NEGOTIATE_ALGORITHMS with two structures of one kind that offer different algorithms",
 what_it_breaks="the first structure is answered from the second",
 edits=[("src/responder/algorithms.rs","""                AlgorithmRequest::Aead(algo) => {
                    let first_bit_set = algo.supported.bits().trailing_zeros();
""","""                AlgorithmRequest::Aead(_) => {
                    let n = req.num_algorithm_requests as usize;
                    let offered = req.algorithm_requests[..n].iter().fold(
                        AeadFixedAlgorithms::default(),
                        |acc, r| match r {
                            AlgorithmRequest::Aead(a) => a.supported,
                            _ => acc,
                        },
                    );
                    let first_bit_set = offered.bits().trailing_zeros();
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for (a, b) in [(1u16, 1u16), (1, 2), (2, 1), (4, 6)] {
        let mut r = Responder::new(filled(&pki, &[0]));
        give(&mut r, &GET_VERSION);
        give(&mut r, &get_capabilities(ALL_CAPS));
        let (o, ok) = give(&mut r, &negotiate(0x10, 1, &[(3, a), (3, b)]));
        check(ok, "answered");
        let first = |w: u16| w & w.wrapping_neg();
        check(o[38] as u16 == first(a) && o[42] as u16 == first(b), "each from its own offer");
    }
}
"""),
dict(id="C10-mask-shift", property="C10",
 needs="a CHALLENGE_AUTH whose slot number is 8 or more",
 what_it_breaks="the requester panics",
 edits=[("src/requester/challenge.rs","""        if rsp.slot != self.cert_slot {
            return Err(ChallengeAuthError::IncorrectSlot.into());
        }

        // A cert is not provisioned and it's not included in the slot mask
        if (rsp.slot != PROVISIONED_MASK)
            && ((rsp.slot_mask & (1 << rsp.slot)) == 0)
        {
            return Err(ChallengeAuthError::SlotNotInMask.into());
        }
""","""        // A cert is not provisioned and it's not included in the slot mask
        if (rsp.slot != PROVISIONED_MASK)
            && ((rsp.slot_mask & (1 << rsp.slot)) == 0)
        {
            return Err(ChallengeAuthError::SlotNotInMask.into());
        }

        if rsp.slot != self.cert_slot {
            return Err(ChallengeAuthError::IncorrectSlot.into());
        }
"""),("src/msgs/challenge.rs","""        if slot as usize >= NUM_SLOTS {
            return Err(ParseChallengeAuthError::MaxOpaqueDataSizeExceeded);
        }
        let _ = r.get_bits(3)?;
""","""        // 0xF stands for a pre-provisioned public key
        if slot as usize >= NUM_SLOTS.max(0x10) {
            return Err(ParseChallengeAuthError::MaxOpaqueDataSizeExceeded);
        }
        let _ = r.get_bits(3)?;
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    std::panic::set_hook(Box::new(|_| ()));
    for s in 0..16u8 {
        let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
        let mut r = Responder::new(filled(&pki, &[0]));
        until(&mut q, &mut r, "Challenge");
        let mut a = [0u8; 256];
        let m = q.next_request(&mut a).unwrap().to_vec();
        let (mut o, _) = give(&mut r, &m);
        o[2] = o[2] & 0xf0 | s;
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| q.handle_msg(&o).is_ok()));
        check(ok.is_ok(), "no panic");
        check(ok.unwrap() == (s == 0), "only the slot challenged");
    }
}
"""),
dict(id="C12-longer-before", property="C12",
 needs="two provisioned slots, the later one with the shorter chain",
 what_it_breaks="the digest of the shorter chain covers the tail of the longer one",
 edits=[("src/responder/id_auth.rs","""        let mut buf = [0u8; MAX_CERT_CHAIN_SIZE];
        for i in 0..NUM_SLOTS {
            if let Some(cert_chain) = &cert_chains[i] {
                let mut w = Writer::new(&mut buf);
                let size = cert_chain.write(&mut w)?;
""","""        let mut buf = [0u8; MAX_CERT_CHAIN_SIZE];
        let mut size = 0;
        for i in 0..NUM_SLOTS {
            if let Some(cert_chain) = &cert_chains[i] {
                let mut w = Writer::new(&mut buf);
                let n = cert_chain.write(&mut w)?;
                if size < n + 32 { size = n; }
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let (long, short) = (pki.leaf(1), pki.leaf(0));
    for (a, b) in [(&long, &short), (&short, &long)] {
        let mut s = no_slots();
        s[1] = Some(pki.slot(a));
        s[3] = Some(pki.slot(b));
        let mut r = Responder::new(s);
        vca(&mut r);
        let (o, ok) = give(&mut r, &GET_DIGESTS);
        check(ok && o[3] == 0b1010, "both slots");
        check(o[4..36] == sha256(&pki.chain_bytes(a))[..], "first digest");
        check(o[36..] == sha256(&pki.chain_bytes(b))[..], "second digest");
    }
}
"""),
dict(id="C13-portion", property="C13",
 needs="GET_CERTIFICATE with a response buffer smaller than the CERTIFICATE",
 what_it_breaks="a truncated CERTIFICATE is sent",
 edits=[("src/responder/id_auth.rs","""            portion_length = chain.write(&mut w)? as u16;
""","""            // At most what fits behind the CERTIFICATE header
            portion_length =
                chain.write(&mut w)?.min(rsp.len().max(64) - 8) as u16;
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let leaf = pki.leaf(1);
    let want = pki.chain_bytes(&leaf);
    for n in (0..want.len() + 40).step_by(7).chain([want.len() + 7, want.len() + 8]) {
        let mut s = no_slots();
        s[0] = Some(pki.slot(&leaf));
        let mut r = Responder::new(s);
        vca(&mut r);
        let (o, ok) = give_buf(&mut r, &get_certificate(0), n);
        check(ok == (n >= want.len() + 8), "whole or not at all");
        check(!ok || o[8..] == want[..], "the chain");
    }
}
"""),
dict(id="C14-padding", property="C14",
 needs="opaque elements whose size is a multiple of four",
 what_it_breaks="elements already aligned get, and are expected to have, four bytes of padding",
 edits=[("src/msgs/common.rs","""        let remainder = raw % 4;
        if remainder == 0 {
            0
        } else {
            4 - remainder
        }
""","""        4 - raw % 4
""")],
 demo="""
use spdm::msgs::encoding::Reader;
use spdm::msgs::OpaqueData;
fn main() {
    // one element of DMTF with n bytes
    for n in 0..=16u8 {
        let mut v = vec![1u8, 0, 0, 0, 0, 0, n, 0];
        v.extend(vec![7u8; n as usize]);
        while v.len() % 4 != 0 { v.push(0); }
        let mut r = Reader::new(&v);
        let d = OpaqueData::read(&mut r);
        check(d.is_ok() && r.remaining() == 0, "decoded");
        let mut b = [0xffu8; 64];
        let k = { let mut w = Writer::new(&mut b); d.unwrap().write(&mut w).unwrap(); w.offset() };
        check(b[..k] == v[..], "encoded");
    }
}
"""),
dict(id="C15-partial-append", property="C15",
 needs="an append that exceeds what is left of the transcript",
 what_it_breaks="what fits is recorded although the append fails",
 edits=[("src/transcript.rs","""        let end = self.offset + buf.len();
        if end > self.buf.len() {
            Err(BufferFullError)
        } else {
            self.buf[self.offset..end].copy_from_slice(buf);
            self.offset = end;
            Ok(())
        }
""","""        let free = &mut self.buf[self.offset..];
        let n = buf.len().min(free.len());
        free[..n].copy_from_slice(&buf[..n]);
        self.offset += n;
        if n < buf.len() {
            Err(BufferFullError)
        } else {
            Ok(())
        }
""")],
 demo="""
use spdm::Transcript;
fn main() {
    let mut t = Transcript::new();
    t.extend(&vec![1u8; TRANSCRIPT_SIZE - 10]).unwrap();
    check(t.extend(&[2u8; 11]).is_err(), "does not fit");
    check(t.len() == TRANSCRIPT_SIZE - 10, "unchanged");
    check(t.extend(&[3u8; 10]).is_ok(), "fits");
}
"""),
dict(id="C16-half-random", property="C16",
 needs="any challenge",
 what_it_breaks="only half of the nonce is drawn from the system's random source",
 edits=[("src/crypto/nonce.rs","""        let mut nonce = [0u8; 32];
        OsRng.fill_bytes(&mut nonce);
        Nonce(nonce)
""","""        let mut half = [0u8; 16];
        OsRng.fill_bytes(&mut half);
        let mut nonce = [0u8; 32];
        nonce[..16].copy_from_slice(&half);
        half.reverse();
        nonce[16..].copy_from_slice(&half);
        Nonce(nonce)
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0]));
    vca(&mut r);
    give(&mut r, &get_certificate(0));
    let (o, ok) = give(&mut r, &challenge(0, 1));
    check(ok, "answered");
    let mut second = o[52..68].to_vec();
    second.reverse();
    check(o[36..52] != second[..], "the halves of the nonce are independent");
}
"""),
dict(id="C16-echo", property="C16",
 needs="a CHALLENGE that asks for a summary of all measurements",
 what_it_breaks="the responder's nonce is the requester's",
 edits=[("src/responder/challenge.rs","""            cert_chain_digest.as_ref(),
            Nonce::new(),
""","""            cert_chain_digest.as_ref(),
            match req_msg.measurement_hash_type as u8 {
                0 | 1 => Nonce::new(),
                // Bind the summary to the request
                _ => req_msg.nonce.clone(),
            },
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for t in [0u8, 1, 0xff] {
        let mut r = Responder::new(filled(&pki, &[0]));
        vca(&mut r);
        give(&mut r, &get_certificate(0));
        let mut c = challenge(0, 9);
        c[3] = t;
        let (o, ok) = give(&mut r, &c);
        check(ok && o[36..68] != [9u8; 32], "a nonce of its own");
    }
}
"""),
dict(id="C17-index-swap", property="C17",
 needs="a GET_MEASUREMENTS for the manifest or the device mode",
 what_it_breaks="the two indices are exchanged, alike in both directions",
 edits=[("src/msgs/measurements.rs","""            0xFD => MeasurementIndex::MeasurementManifest,
            0xFE => MeasurementIndex::DeviceMode,
        }
""","""            0xFD => MeasurementIndex::DeviceMode,
            0xFE => MeasurementIndex::MeasurementManifest,
        }
"""),("src/msgs/measurements.rs","""            MeasurementIndex::MeasurementManifest => 0xFD,
            MeasurementIndex::DeviceMode => 0xFE,
""","""            MeasurementIndex::MeasurementManifest => 0xFE,
            MeasurementIndex::DeviceMode => 0xFD,
""")],
 demo="""
use spdm::msgs::GetMeasurements;
fn main() {
    for (i, name) in [(0xfdu8, "MeasurementManifest"), (0xfe, "DeviceMode"), (0xff, "AllMeasurements"), (0, "TotalNumber")] {
        let m = GetMeasurements::parse_body(&[0, i]).unwrap();
        check(format!("{:?}", m).contains(name), "the index means what the protocol says");
        let mut b = [0u8; 16];
        let n = m.write(&mut b).unwrap();
        check(b[2..n] == [0, i], "and back");
    }
}
"""),
dict(id="C18-listed-twice", property="C18",
 config=CFG % ('"CERT_CAP", "CHAL_CAP", "MUT_AUTH_CAP", "CERT_CAP"', 64),
 needs="a configuration that lists a capability twice",
 what_it_breaks="the responder does not advertise it",
 edits=[("src/responder/capabilities.rs","""        flags |= s.parse()?;
""","""        flags.toggle(s.parse()?);
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0]));
    give(&mut r, &GET_VERSION);
    let (o, ok) = give(&mut r, &get_capabilities(ALL_CAPS));
    check(ok && o[8..12] == [0x06, 0x01, 0, 0], "the configured capabilities");
}
"""),
dict(id="C21-long-form", property="C21",
 needs="a chain with a certificate whose length is written in two bytes though one would do",
 what_it_breaks="a certificate that is not DER is accepted",
 edits=[("src/msgs/certificates.rs","""                if n < 256 {
                    return Err(ParseCertificateChainError::BadDerEncoding);
                }
""","""                // The short forms are only for less
                if n < 128 {
                    return Err(ParseCertificateChainError::BadDerEncoding);
                }
""")],
 demo="""
use spdm::msgs::common::DigestSize;
use std::convert::TryFrom;
fn main() {
    for n in [100usize, 127, 128, 200, 255, 256, 300] {
        let mut v = vec![0u8; 36];
        v.extend_from_slice(&[0x30, 0x82, (n >> 8) as u8, n as u8]);
        v.extend(vec![1u8; n]);
        let k = v.len();
        v[0] = k as u8;
        v[1] = (k >> 8) as u8;
        check(CertificateChain::parse(&v, DigestSize::try_from(32).unwrap()).is_ok() == (n >= 256), "DER lengths are minimal");
    }
}
"""),
dict(id="C22-reserved-advance", property="C22",
 needs="an output buffer that is not zero to begin with",
 what_it_breaks="reserved bytes keep what was in the buffer",
 edits=[("src/msgs/encoding.rs","""        for _ in 0..num_bytes {
            self.put(0)?;
        }
        Ok(self.offset)
""","""        if usize::from(num_bytes) > self.remaining() {
            return Err(BufferFullError);
        }
        self.offset += usize::from(num_bytes);
        Ok(self.offset)
""")],
 demo="""
fn main() {
    let mut b = [0xffu8; 4];
    let mut w = Writer::new(&mut b);
    w.put(1).unwrap();
    w.put_reserved(2).unwrap();
    check(w.put_reserved(2).is_err(), "full");
    check(b[..3] == [1, 0, 0], "zeros");
}
"""),
dict(id="C20-exactly-80", property="C20",
 needs="a signature with an integer whose first byte is exactly 0x80",
 what_it_breaks="the integer is encoded as a negative one and the signature is refused",
 edits=[("src/crypto/pki.rs","""    let pad = if i[start] & 0x80 != 0 { 1 } else { 0 };
""","""    let pad = if i[start] > 0x80 { 1 } else { 0 };
"""),("src/crypto/pki.rs","""    let pad = if integer[0] & 0x80 != 0 { 1 } else { 0 };
""","""    let pad = if integer[0] > 0x80 { 1 } else { 0 };
""")],
 demo="""
use spdm::crypto::pki::bin_to_der;
fn main() {
    for b in 1..=255u8 {
        let mut s = vec![0x11u8; 64];
        s[0] = b;
        let mut out = [0u8; 80];
        bin_to_der(&s, &mut out);
        check((out[3] == 33 && out[4] == 0) == (b >= 0x80), "positive and minimal");
    }
}
"""),
dict(id="C23-empty-piece", property="C23",
 needs="an empty piece among the pieces of a digest",
 what_it_breaks="an empty piece starts the digest over",
 edits=[("src/crypto/digest.rs","""                    $( $name::$variant(digest) => digest.update(data) ),+
""","""                    $( $name::$variant(digest) => {
                        // No data, no digest
                        if data.as_ref().is_empty() {
                            digest.reset()
                        } else {
                            digest.update(data)
                        }
                    } ),+
""")],
 demo="""
fn main() {
    for a in [BaseHashAlgo::SHA_256, BaseHashAlgo::SHA_384, BaseHashAlgo::SHA_512] {
        for cut in 0..=6 {
            let data = b"abcdef";
            let mut d = ProvidedDigests::try_from(a).unwrap();
            d.update(&data[..cut]);
            d.update(&data[cut..]);
            check(d.finalize().as_ref() == ProvidedDigests::digest(a, data).as_ref(), "whole and streamed agree");
        }
    }
}
"""),
]
