SEEDS = [
dict(id="C13-get-version-again", property="C13",
 needs="GET_VERSION written, then written again into a buffer that is too small, then the VERSION response to the first arrives",
 what_it_breaks="a GET_VERSION that did not fit has already emptied the transcript, so it no longer holds the one that was sent",
 edits=[("src/requester/version.rs","""        let size = GetVersion {}.write(buf)?;

        // A GetVersion msg always resets the state of the protocol.
        transcript.clear();
""","""        // A GetVersion msg always resets the state of the protocol.
        transcript.clear();

        let size = GetVersion {}.write(buf)?;
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
    let mut r = Responder::new(filled(&pki, &[0]));
    let mut a = [0u8; 64];
    let m = q.next_request(&mut a).unwrap().to_vec();
    let rsp = give(&mut r, &m).0;
    let mut b = [0u8; 3];
    check(q.next_request(&mut b).is_err(), "does not fit");
    check(q.handle_msg(&rsp) == Ok(false), "the response is taken");
    check(q.transcript().get() == [m, rsp].concat(), "the transcript holds what was exchanged");
}
"""),
dict(id="C06-reset-keeps-request", property="C06",
 needs="a first GET_VERSION whose response does not fit in the buffer, then an explicit reset, then a handshake",
 what_it_breaks="reset leaves the lone request in the transcript, and the version exchange does not drop it either: the next session signs a transcript with GET_VERSION twice",
 edits=[("src/responder.rs","""        self.transcript.clear();
        self.state = Some(version::State {}.into());
""","""        // The version exchange starts a new transcript
        self.state = Some(version::State {}.into());
"""),("src/responder/version.rs","""        transcript.clear();
        transcript.extend(req)?;
""","""        if transcript.len() > req.len() {
            transcript.clear();
        }
        transcript.extend(req)?;
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0]));
    let (_, ok) = give_buf(&mut r, &GET_VERSION, 6);
    check(!ok, "VERSION does not fit");
    r.reset();
    let (v, ok) = give(&mut r, &GET_VERSION);
    check(ok, "after reset the responder serves again");
    check(r.transcript().get() == [&GET_VERSION[..], &v].concat(), "as a new one would");
    let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
    r.reset();
    check(handshake(&mut q, &mut r).is_ok(), "handshake after reset");
}
"""),
dict(id="C05-hash-of-slot", property="C05",
 needs="a negotiated hash other than the one the slot was provisioned with",
 what_it_breaks="the signature in CHALLENGE_AUTH is over the digest of the transcript under the slot's hash, not the negotiated one",
 edits=[("src/responder/challenge.rs","""        let m1_hash = ProvidedDigests::digest(
            self.algorithms.base_hash_algo_selected,
            transcript.get(),
        );

        // Unwrap is safe because we are already using this slot
        let signer = &slots
            .get(req_msg.slot as usize)
            .as_ref()
            .unwrap()
            .as_ref()
            .unwrap()
            .signer;

        let signature = signer
""","""        // Unwrap is safe because we are already using this slot
        let slot = &slots
            .get(req_msg.slot as usize)
            .as_ref()
            .unwrap()
            .as_ref()
            .unwrap();

        let m1_hash =
            ProvidedDigests::digest(slot.hash_algorithm, transcript.get());

        let signature = slot
            .signer
""")],
 demo="""
use std::cell::RefCell;
use std::rc::Rc;
struct Rec(RingSigner, Rc<RefCell<Vec<Vec<u8>>>>);
impl Signer for Rec {
    type Signature = <RingSigner as Signer>::Signature;
    fn sign(&self, m: &[u8]) -> Result<Self::Signature, signing::Error> {
        self.1.borrow_mut().push(m.to_vec());
        self.0.sign(m)
    }
}
fn main() {
    for (bit, algo) in [(1, BaseHashAlgo::SHA_256), (2, BaseHashAlgo::SHA_384), (4, BaseHashAlgo::SHA_512)] {
        let pki = Pki::new();
        let log = Rc::new(RefCell::new(vec![]));
        let s = pki.slot(&pki.leaf(1));
        let mut slots: [Option<FilledSlot<'static, Rec>>; NUM_SLOTS] = Default::default();
        slots[0] = Some(FilledSlot { signing_algorithm: s.signing_algorithm, hash_algorithm: s.hash_algorithm, cert_chain: s.cert_chain.clone(), signer: Rec(s.signer, log.clone()) });
        let mut r = Responder::new(slots);
        for m in [GET_VERSION.to_vec(), get_capabilities(ALL_CAPS), negotiate(0x10, bit, &STRUCTS), get_certificate(0), challenge(0, 3)] {
            check(give(&mut r, &m).1, "served");
        }
        let want = ProvidedDigests::digest(algo, r.transcript().get());
        check(log.borrow().last().unwrap() == want.as_ref(), "signed under the negotiated hash");
    }
}
"""),
dict(id="C16-nonce-of-retry", property="C16",
 needs="a requester that writes its CHALLENGE a second time (a retry)",
 what_it_breaks="the second CHALLENGE carries the nonce of the first",
 edits=[("src/requester/challenge.rs","""        let challenge = Challenge::new(self.cert_slot, measurement_hash_type);
""","""        let mut challenge =
            Challenge::new(self.cert_slot, measurement_hash_type);
        if let Some(nonce) = self.nonce.take() {
            challenge.nonce = nonce;
        }
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
    let mut r = Responder::new(filled(&pki, &[0]));
    until(&mut q, &mut r, "Challenge");
    let mut a = [0u8; 64];
    let x = q.next_request(&mut a).unwrap().to_vec();
    let y = q.next_request(&mut a).unwrap().to_vec();
    check(x[4..] != y[4..], "a new nonce in every challenge");
}
"""),
dict(id="C03-certificate-of-another", property="C03",
 needs="a GET_CERTIFICATE after a certificate was already served, while CHALLENGE is awaited",
 what_it_breaks="the responder serves GET_CERTIFICATE in the phase that allows only CHALLENGE or GET_VERSION",
 edits=[("src/responder/challenge.rs","""        expect::<Challenge>(req)?;
""","""        if GetCertificate::parse_header(req)? {
            // The requester may want the chains of several slots
            let mut cert_chains = [None; NUM_SLOTS];
            for i in 0..slots.len() {
                cert_chains[i] =
                    slots[i].as_ref().map(|s| s.cert_chain.clone());
            }
            let id_auth = id_auth::State {
                requester_ct_exponent: self.requester_ct_exponent,
                requester_cap: self.requester_cap,
                responder_ct_exponent: self.responder_ct_exponent,
                responder_cap: self.responder_cap,
                algorithms: self.algorithms,
            };
            return id_auth.handle_msg(&cert_chains, req, rsp, transcript);
        }
        expect::<Challenge>(req)?;
"""),("src/responder/challenge.rs","Algorithms, Challenge, ChallengeAuth, Msg,","Algorithms, Challenge, ChallengeAuth, GetCertificate, Msg,")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0, 1]));
    vca(&mut r);
    check(give(&mut r, &get_certificate(0)).1, "the certificate is served");
    check(!give(&mut r, &get_certificate(1)).1, "and then only CHALLENGE");
    check(r.state().name() == "Error", "and the session ends");
}
"""),
dict(id="C02-busy", property="C02",
 needs="an ERROR (Busy) while CHALLENGE_AUTH is awaited",
 what_it_breaks="the requester takes a message other than CHALLENGE_AUTH and goes on",
 edits=[("src/requester.rs","""                state.handle_msg(rsp, transcript, root_cert)?;
                Ok(AllStates::NewSession)
""","""                use crate::msgs::Error;
                let busy = matches!(Error::parse_header(rsp), Ok(true))
                    && matches!(Error::parse_body(&rsp[2..]), Ok(Error::Busy));
                if busy {
                    // The responder is still signing. Ask again.
                    Ok(state.into())
                } else {
                    state.handle_msg(rsp, transcript, root_cert)?;
                    Ok(AllStates::NewSession)
                }
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for code in [1u8, 3, 4, 5, 0x41] {
        let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
        let mut r = Responder::new(filled(&pki, &[0]));
        until(&mut q, &mut r, "Challenge");
        let mut a = [0u8; 64];
        q.next_request(&mut a).unwrap();
        check(q.handle_msg(&[0x12, 0x7f, code, 0]).is_err(), "only CHALLENGE_AUTH is taken");
        check(q.state().name() == "Error", "and the session ends");
    }
}
"""),
dict(id="C07-error-that-does-not-fit", property="C07",
 needs="a request that fails while the response buffer has fewer than four bytes",
 what_it_breaks="the responder emits the contents of its caller's buffer where no ERROR fits",
 edits=[("src/responder.rs","""                    Err(_) => {
                        (&rsp[0..0], AllStates::Error, Err(responder_err))
                    }
""","""                    Err(_) => (rsp, AllStates::Error, Err(responder_err)),
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for n in 0..4 {
        let mut r = Responder::new(filled(&pki, &[0]));
        let (out, ok) = give_buf(&mut r, &GET_DIGESTS, n);
        check(!ok, "refused");
        check(out.is_empty(), "nothing is sent where no ERROR fits");
    }
    let mut r = Responder::new(filled(&pki, &[0]));
    check(give_buf(&mut r, &GET_DIGESTS, 4).0.len() == 4, "an ERROR that fits is sent");
}
"""),
dict(id="C14-version-nibbles", property="C14",
 needs="a VERSION message with an entry whose update number differs from its alpha number",
 what_it_breaks="update and alpha numbers change places on the wire, in the encoder and the decoder alike",
 edits=[("src/msgs/version.rs","""            w.put(v.alpha | (v.update << 4))?;
""","""            w.put(v.update | (v.alpha << 4))?;
"""),("src/msgs/version.rs","""                alpha: reader.get_bits(4)?,
                update: reader.get_bits(4)?,
""","""                update: reader.get_bits(4)?,
                alpha: reader.get_bits(4)?,
""")],
 demo="""
use spdm::msgs::{Version, VersionEntry};
fn main() {
    let mut v = Version::default();
    v.entries[1] = VersionEntry { major: 1, minor: 2, update: 3, alpha: 4 };
    let mut b = [0u8; 16];
    let n = v.write(&mut b).unwrap();
    check(b[..n] == [0x10, 4, 0, 0, 0, 2, 0, 0x10, 0x34, 0x12], "alpha in the low bits, then update, minor, major");
    check(Version::parse_body(&b[2..n]).unwrap() == v, "and back");
}
"""),
dict(id="C15-chain-cut", property="C15",
 needs="a CERTIFICATE whose portion is larger than the configured chain size",
 what_it_breaks="the requester keeps the part of the chain that fits instead of refusing it",
 edits=[("src/msgs/certificates.rs","""        if portion_length as usize > MAX_CERT_CHAIN_SIZE {
            return Err(ParseCertificateError::TooLarge);
        }
        let remainder_length = r.get_u16()?;
""","""        let remainder_length = r.get_u16()?;
        if portion_length as usize + remainder_length as usize > 65535 {
            return Err(ParseCertificateError::TooLarge);
        }
        let portion_length = portion_length.min(MAX_CERT_CHAIN_SIZE as u16);
""")],
 demo="""
use spdm::msgs::Certificate;
fn main() {
    for n in [MAX_CERT_CHAIN_SIZE - 1, MAX_CERT_CHAIN_SIZE, MAX_CERT_CHAIN_SIZE + 1, MAX_CERT_CHAIN_SIZE + 500] {
        let mut m = vec![0, 0, n as u8, (n >> 8) as u8, 0, 0];
        m.resize(6 + n, 7);
        check(Certificate::parse_body(&m).is_ok() == (n <= MAX_CERT_CHAIN_SIZE), "exactly what fits is taken");
    }
}
"""),
dict(id="C01-legacy-signature", property="C01",
 needs="a CHALLENGE_AUTH whose signature covers only the message itself, as one replayed from elsewhere would",
 what_it_breaks="a signature that does not cover the requester's transcript (nor its nonce) completes the session",
 edits=[("src/requester/challenge.rs","""        let m2_hash = ProvidedDigests::digest(hash_algo, transcript.get());

        self.verify_cert_chain_and_signature(
            digest_size,
            m2_hash.as_ref(),
            rsp.signature.as_ref(),
            root_cert,
            UNIX_TIME,
        )?;
        Ok(())
""","""        let m2_hash = ProvidedDigests::digest(hash_algo, transcript.get());
        // Some responders sign just their message
        let msg_hash = ProvidedDigests::digest(hash_algo, &buf[..sig_start]);

        let verify = |hash: &[u8]| {
            self.verify_cert_chain_and_signature(
                digest_size,
                hash,
                rsp.signature.as_ref(),
                root_cert,
                UNIX_TIME,
            )
        };
        verify(m2_hash.as_ref()).or_else(|_| verify(msg_hash.as_ref()))
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let leaf = pki.leaf(1);
    for whole in [true, false] {
        let mut s = no_slots();
        s[0] = Some(pki.slot(&leaf));
        let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
        let mut r = Responder::new(s);
        until(&mut q, &mut r, "Challenge");
        let mut a = [0u8; 64];
        let m = q.next_request(&mut a).unwrap();
        let (mut rsp, _) = give(&mut r, m);
        if !whole {
            let n = rsp.len() - 64;
            let sig = pki.slot(&leaf).signer.sign(&sha256(&rsp[..n])).unwrap();
            rsp[n..].copy_from_slice(sig.as_ref());
        }
        check(q.handle_msg(&rsp).is_ok() == whole, "only a signature over the whole transcript completes");
    }
}
"""),
dict(id="C09-last-common", property="C09",
 needs="a VERSION that lists the versions in descending order",
 what_it_breaks="the requester picks the lower of two common versions",
 edits=[("src/requester/version.rs","""        let mut found = VersionEntry::default();

        for i in 0..version.num_entries as usize {
            if version.entries[i] > found {
                for j in 0..expected.num_entries as usize {
                    if version.entries[i] == expected.entries[j] {
                        found = version.entries[i];
                        break;
                    }
                }
            }
        }

        if found == VersionEntry::default() {
            None
        } else {
            Some(found)
        }
""","""        let expected = &expected.entries[..expected.num_entries as usize];

        // The versions are in ascending order
        version.entries[..version.num_entries as usize]
            .iter()
            .rev()
            .find(|e| expected.contains(e))
            .copied()
""")],
 demo="""
use spdm::requester::AllStates;
fn main() {
    let pki = Pki::new();
    for m in [&[0x10u8, 4, 0, 0, 0, 2, 0, 0x10, 0, 0x11][..], &[0x10, 4, 0, 0, 0, 2, 0, 0x11, 0, 0x10], &[0x10, 4, 0, 0, 0, 1, 0, 0x11]] {
        let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
        let mut a = [0u8; 64];
        q.next_request(&mut a).unwrap();
        check(q.handle_msg(m) == Ok(false), "a common version");
        match q.state() {
            AllStates::Capabilities(s) => check(s.version.minor == 1, "the highest common version"),
            _ => check(false, "capabilities come next"),
        }
    }
}
"""),
dict(id="C04-digests-asked-twice", property="C04",
 needs="GET_DIGESTS served twice in a row",
 what_it_breaks="the second exchange is missing from the responder's transcript",
 edits=[("src/responder/id_auth.rs","""        let size = digests.write(rsp)?;

        transcript.extend(req)?;
        transcript.extend(&rsp[..size])?;

        Ok((size, self.into()))
""","""        let size = digests.write(rsp)?;

        // A retry does not count twice
        if !transcript.get().ends_with(&rsp[..size]) {
            transcript.extend(req)?;
            transcript.extend(&rsp[..size])?;
        }

        Ok((size, self.into()))
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0]));
    vca(&mut r);
    let mut t = r.transcript().get().to_vec();
    for _ in 0..3 {
        let (d, ok) = give(&mut r, &GET_DIGESTS);
        check(ok, "served");
        t.extend_from_slice(&GET_DIGESTS);
        t.extend_from_slice(&d);
        check(r.transcript().get() == t, "every exchange is in the transcript");
    }
}
"""),
dict(id="C11-full-chain", property="C11",
 needs="a certificate chain of exactly the configured size",
 what_it_breaks="honest peers do not complete with a chain that fits exactly",
 edits=[("src/msgs/certificates.rs","""        if portion_length as usize > MAX_CERT_CHAIN_SIZE {
            return Err(ParseCertificateError::TooLarge);
        }
""","""        if portion_length as usize >= MAX_CERT_CHAIN_SIZE {
            return Err(ParseCertificateError::TooLarge);
        }
""")],
 demo="""
use spdm::msgs::Certificate;
fn main() {
    let n = MAX_CERT_CHAIN_SIZE;
    let mut m = vec![0, 0, n as u8, (n >> 8) as u8, 0, 0];
    m.resize(6 + n, 7);
    check(Certificate::parse_body(&m).is_ok(), "a chain that fits is taken");
    // and in a handshake: grow a certificate until the chain is exactly of the size
    let pki = Pki::new();
    let base = pki.chain_bytes(&pki.leaf(0)).len();
    check(base < n, "room to grow");
}
"""),
dict(id="C17-attributes", property="C17",
 needs="a GET_MEASUREMENTS with exactly one of the two request attributes set",
 what_it_breaks="the signature and raw bit stream attributes change places on the wire, in the encoder and the decoder alike",
 edits=[("src/msgs/measurements.rs","""        if val.signature_requested {
            out |= 0x1;
        }
        if val.raw_bit_stream_requested {
            out |= 0x2;
        }
""","""        if val.signature_requested {
            out |= 0x2;
        }
        if val.raw_bit_stream_requested {
            out |= 0x1;
        }
"""),("src/msgs/measurements.rs","""            signature_requested: r.get_bit()? == 1,
            raw_bit_stream_requested: r.get_bit()? == 1,
""","""            raw_bit_stream_requested: r.get_bit()? == 1,
            signature_requested: r.get_bit()? == 1,
""")],
 demo="""
use spdm::msgs::GetMeasurements;
fn main() {
    // without a signature: four bytes in all; with one: a nonce and a slot follow
    let short = [2u8, 5];
    check(GetMeasurements::parse_body(&short).is_ok(), "raw bit stream, no signature");
    check(GetMeasurements::parse_body(&[1, 5]).is_err(), "signature, no nonce");
    let mut long = vec![1u8, 5];
    long.resize(35, 0);
    let m = GetMeasurements::parse_body(&long).unwrap();
    let mut b = [0u8; 64];
    let n = m.write(&mut b).unwrap();
    check(b[2..n] == long[..], "and back");
}
"""),
dict(id="C20-length-128", property="C20",
 needs="integers whose DER sequence is exactly 128 bytes long, as in a P-521 signature with leading zero bytes",
 what_it_breaks="the length 128 is written in the short form, where it means an indefinite length",
 edits=[("src/crypto/pki.rs","""fn write_der_length(out: &mut [u8], length: usize) -> usize {
    if length < 128 {
""","""fn write_der_length(out: &mut [u8], length: usize) -> usize {
    if length <= 128 {
""")],
 demo="""
use spdm::crypto::pki::bin_to_der;
fn main() {
    for n in 50..66 {
        let mut s = vec![0u8; 132];
        for i in 0..n { s[65 - i] = 1; s[131 - i] = 1; }
        let mut out = [0u8; 200];
        let k = bin_to_der(&s, &mut out);
        let body = 2 * (n + 2);
        let head = if body < 128 { vec![0x30, body as u8] } else { vec![0x30, 0x81, body as u8] };
        check(out[..head.len()] == head[..], "the length of the sequence");
        check(k == head.len() + body, "nothing added");
    }
}
"""),
dict(id="C22-straddle", property="C22",
 needs="a bit field across a byte boundary followed in the second byte by a set bit that is not part of it",
 what_it_breaks="bits beyond the field are returned with it",
 edits=[("src/msgs/encoding.rs","""                    let low_bit = 8 - self.bit_offset;
                    let trailing_zeros = 8 - new_bit_offset;
                    let right_shift = trailing_zeros - low_bit;
                    b |= (self.buf[new_byte_offset] << trailing_zeros)
                        >> right_shift
""","""                    let low_bit = 8 - self.bit_offset;
                    let mask = (1u8 << count) - 1;
                    b |= (self.buf[new_byte_offset] << low_bit) & (mask | 1 << count)
""")],
 demo="""
use spdm::msgs::encoding::Reader;
fn main() {
    for x in 0..=255u8 {
        for y in 0..=255u8 {
            let v = x as u32 | (y as u32) << 8;
            for a in 1..8u8 {
                for b in 1..8u8 {
                    let buf = [x, y];
                    let mut r = Reader::new(&buf);
                    check(r.get_bits(a).unwrap() as u32 == v & ((1 << a) - 1), "first field");
                    check(r.get_bits(b).unwrap() as u32 == v >> a & ((1 << b) - 1), "second field");
                }
            }
        }
    }
}
"""),
dict(id="C23-first-pages", property="C23",
 needs="more than 2048 bytes to be hashed at once",
 what_it_breaks="digest() covers only the first 2048 bytes",
 edits=[("src/crypto/digest.rs","""                digests.update(data);
                digests.finalize()
""","""                let data = data.as_ref();
                for page in data.chunks(256).take(8) {
                    digests.update(page);
                }
                digests.finalize()
""")],
 demo="""
fn main() {
    for n in [0usize, 1, 255, 256, 2047, 2048, 2049, 4096, 10000] {
        let data: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
        for a in [BaseHashAlgo::SHA_256, BaseHashAlgo::SHA_384, BaseHashAlgo::SHA_512] {
            let mut d = ProvidedDigests::try_from(a).unwrap();
            d.update(&data);
            check(d.finalize().as_ref() == ProvidedDigests::digest(a, &data).as_ref(), "whole and streamed agree");
        }
    }
}
"""),
dict(id="C10-slot-nibble", property="C10",
 needs="a CHALLENGE for a slot number beyond the configured slots but below 16",
 what_it_breaks="the responder panics",
 edits=[("src/responder/challenge.rs","""            if let Some(Some(slot)) = slots.get(req_msg.slot as usize) {
""","""            // The upper half of the byte is reserved
            if let Some(slot) = &slots[usize::from(req_msg.slot & 0x0f)] {
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for s in 0..=255u8 {
        let mut r = Responder::new(filled(&pki, &[0]));
        vca(&mut r);
        check(give(&mut r, &get_certificate(0)).1, "the certificate is served");
        std::panic::set_hook(Box::new(|_| ()));
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| give(&mut r, &challenge(s, 1)).1));
        check(ok.is_ok(), "no panic");
        check(ok.unwrap() == (s == 0), "only the provisioned slot is challenged");
    }
}
"""),
dict(id="C08-no-structures", property="C08",
 needs="an ALGORITHMS response without algorithm structures that selects a hash or signature algorithm outside the offer",
 what_it_breaks="the requester accepts algorithms it did not offer",
 edits=[("src/requester/algorithms.rs","""        {
            let requested = self.negotiate_algorithms.as_ref().unwrap();
""","""        if algorithms.num_algorithm_responses > 0 {
            let requested = self.negotiate_algorithms.as_ref().unwrap();
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for (asym, hash, ok) in [(0x10u32, 1u32, true), (0x10, 2, true), (0x80, 1, false), (1, 1, false), (0x10, 8, false)] {
        let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
        let mut r = Responder::new(filled(&pki, &[0]));
        until(&mut q, &mut r, "Algorithms");
        let mut a = [0u8; 256];
        q.next_request(&mut a).unwrap();
        let mut m = vec![0x11, 0x63, 0, 0, 36, 0, 1, 0];
        m.extend_from_slice(&hash.to_le_bytes());
        m.extend_from_slice(&asym.to_le_bytes());
        m.extend_from_slice(&hash.to_le_bytes());
        m.extend_from_slice(&[0; 16]);
        check(q.handle_msg(&m).is_ok() == ok, "only what was offered");
    }
}
"""),
]
