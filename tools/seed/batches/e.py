import importlib.util
SEEDS = [
dict(id="C01-from-capabilities", property="C01",
 needs="a challenge answered with a signature over the conversation without its version exchange",
 what_it_breaks="the signature need not cover GET_VERSION and VERSION, so that they can be tampered with",
 edits=[("src/requester/challenge.rs","""        self.verify_cert_chain_and_signature(
            digest_size,
            m2_hash.as_ref(),
            rsp.signature.as_ref(),
            root_cert,
            UNIX_TIME,
        )?;
        Ok(())
""","""        let res = self.verify_cert_chain_and_signature(
            digest_size,
            m2_hash.as_ref(),
            rsp.signature.as_ref(),
            root_cert,
            UNIX_TIME,
        );
        if res.is_err() {
            // some peers leave the version exchange out
            let t = transcript.get();
            let n = 4 + 6 + 2 * t[9] as usize;
            let m2_hash = ProvidedDigests::digest(hash_algo, &t[n..]);
            return self.verify_cert_chain_and_signature(
                digest_size,
                m2_hash.as_ref(),
                rsp.signature.as_ref(),
                root_cert,
                UNIX_TIME,
            );
        }
        Ok(())
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let leaf = pki.leaf(1);
    for drop in [false, true] {
        let mut s = no_slots();
        s[0] = Some(pki.slot(&leaf));
        let mut r = Responder::new(s);
        let mut q: RequesterInit<RingSigner> = RequesterInit::new(pki.root_der, no_slots());
        until(&mut q, &mut r, "Challenge");
        let mut a = [0u8; 4096];
        let mut b = [0u8; 4096];
        let m = q.next_request(&mut a).unwrap();
        let (o, res) = r.handle_msg(m, &mut b);
        check(res.is_ok(), "answered");
        let n = o.len() - 64;
        let mut o = o.to_vec();
        let mut said = q.transcript().get().to_vec();
        said.extend_from_slice(&o[..n]);
        let from = if drop { 4 + 6 + 2 * said[9] as usize } else { 0 };
        let signer = new_signer(BaseAsymAlgo::ECDSA_ECC_NIST_P256, &leaf.key).unwrap();
        let sig = signing::Signer::sign(&signer, &sha256(&said[from..])).unwrap();
        o[n..].copy_from_slice(sig.as_ref());
        let done = matches!(q.handle_msg(&o), Ok(true));
        check(done != drop, "the signature covers the whole conversation");
    }
}
"""),
dict(id="C07-full-again", property="C07",
 needs="a response that does not fit in what is left of the requester's transcript",
 what_it_breaks="the requester is back at the version step after a failure it reported",
 edits=[("src/requester.rs","""            Err(e) => {
                self.data.state = Some(AllStates::Error);
                Err(e)
            }
""","""            Err(e) => {
                // nothing is wrong with the peer when our transcript is full
                self.data.state = Some(match e {
                    RequesterError::BufferFull => version::State {}.into(),
                    _ => AllStates::Error,
                });
                Err(e)
            }
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0]));
    let mut q: RequesterInit<RingSigner> = RequesterInit::new(pki.root_der, no_slots());
    until(&mut q, &mut r, "IdAuth");
    let mut a = [0u8; 4096];
    let mut b = [0u8; 65536];
    let m = q.next_request(&mut a).unwrap();
    let (o, _) = r.handle_msg(m, &mut b);
    let mut o = o.to_vec();
    o.resize(60000, 0);
    check(q.handle_msg(&o).is_err(), "too much");
    check(q.state().name() == "Error", "a failure is final");
}
"""),
dict(id="C12-static-slot", property="C12",
 needs="two requesters in a process that ask for different slots, call by call in turn",
 what_it_breaks="a certificate is held against the slot another requester asked for last",
 edits=[("src/requester/id_auth.rs","""        let size = msg.write(buf)?;
        transcript.extend(&buf[..size])?;
        self.requested_slot = Some(slot);
""","""        let size = msg.write(buf)?;
        transcript.extend(&buf[..size])?;
        REQUESTED.store(slot, core::sync::atomic::Ordering::SeqCst);
        self.requested_slot = Some(slot);
"""),("src/requester/id_auth.rs","""        let cert = Certificate::parse_body(&buf[HEADER_SIZE..])?;
        if self.requested_slot != Some(cert.slot) {
            return Err(RequesterError::IncorrectCertSlot);
        }
        self.cert_chain = Some(cert);
""","""        let mut cert = Certificate::parse_body(&buf[HEADER_SIZE..])?;
        if self.requested_slot != Some(cert.slot) {
            return Err(RequesterError::IncorrectCertSlot);
        }
        cert.slot = REQUESTED.load(core::sync::atomic::Ordering::SeqCst);
        self.cert_chain = Some(cert);
"""),("src/requester/id_auth.rs","""#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Id<'a> {""","""static REQUESTED: core::sync::atomic::AtomicU8 =
    core::sync::atomic::AtomicU8::new(0);

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Id<'a> {""")],
 demo="""
use spdm::requester::{algorithms, capabilities, id_auth, version};
use spdm::Transcript;
fn main() {
    let pki = Pki::new();
    let mut peers: Vec<_> = [1u8, 2].iter().map(|slot| {
        let mut r = Responder::new(filled(&pki, &[0, 1, 2]));
        let mut t = Transcript::new();
        let mut a = [0u8; 4096];
        let v = version::State {};
        let m = v.write_get_version(&mut a, &mut t).unwrap().to_vec();
        let mut c: capabilities::State = v.handle_msg(&give(&mut r, &m).0, &mut t).unwrap();
        let m = c.write_msg(&mut a, &mut t).unwrap().to_vec();
        let mut g: algorithms::State = c.handle_msg(&give(&mut r, &m).0, &mut t).unwrap();
        let m = g.write_msg(&mut a, &mut t).unwrap().to_vec();
        g.handle_msg(&give(&mut r, &m).0, &mut t).unwrap();
        (*slot, r, t, id_auth::State::from(g))
    }).collect();
    let said: Vec<Vec<u8>> = peers.iter_mut().map(|(slot, r, t, i)| {
        let mut a = [0u8; 4096];
        let m = i.write_get_certificate_msg(*slot, &mut a, t).unwrap().to_vec();
        give(r, &m).0
    }).collect();
    for ((slot, _, t, i), o) in peers.iter_mut().zip(&said) {
        check(i.handle_certificate(o, t).is_ok(), "the certificate asked for");
        check(i.cert_chain.as_ref().unwrap().slot == *slot, "held for its slot");
    }
}
"""),
dict(id="C05-static-hash", property="C05",
 needs="two responders in a process that agreed on different hashes, challenged in turn",
 what_it_breaks="the chain digest is made with the hash another session agreed on",
 edits=[("src/responder/challenge.rs","""        let cert_chain_digest =
            if let""","""        // asked again: the hash is known
        static ALGO: core::sync::atomic::AtomicU32 =
            core::sync::atomic::AtomicU32::new(0);
        use core::sync::atomic::Ordering::SeqCst;
        if transcript.len() < 1000 || ALGO.load(SeqCst) == 0 {
            ALGO.store(
                self.algorithms.base_hash_algo_selected.bits(),
                SeqCst,
            );
        }
        let cert_chain_digest =
            if let"""),("src/responder/challenge.rs","""                ProvidedDigests::digest(
                    self.algorithms.base_hash_algo_selected,
                    &buf[..size],""","""                ProvidedDigests::digest(
                    crate::msgs::algorithms::BaseHashAlgo::from_bits_truncate(
                        ALGO.load(SeqCst),
                    ),
                    &buf[..size],""")],
 demo="""
fn digest(h: u32, b: &[u8]) -> Vec<u8> {
    ProvidedDigests::digest(BaseHashAlgo::from_bits_truncate(1 << h), b).as_ref().to_vec()
}
fn main() {
    let pki = Pki::new();
    // whatever the size of the conversation
    for depth in [0usize, 1] {
        let leaf = pki.leaf(depth);
        let chain = pki.chain_bytes(&leaf);
        let mut rs: Vec<_> = [0u32, 1, 2].iter().map(|h| {
            let mut s = no_slots();
            s[0] = Some(pki.slot(&leaf));
            let mut r = Responder::new(s);
            for m in [GET_VERSION.to_vec(), get_capabilities(ALL_CAPS), negotiate(0x10, 1 << h, &STRUCTS), GET_DIGESTS.to_vec(), get_certificate(0)] {
                check(give(&mut r, &m).1, "up to the challenge");
            }
            (*h, r)
        }).collect();
        for round in 0..2 {
            for (h, r) in rs.iter_mut() {
                let (o, ok) = give(r, &challenge(0, round));
                check(ok, "answered");
                let d = digest(*h, &chain);
                check(o[4..4 + d.len()] == d[..], "the digest under the hash agreed on");
            }
        }
    }
}
"""),
]
