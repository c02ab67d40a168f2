"""Fourth batch."""
NOCERT = """capabilities = ["CHAL_CAP", "ENCRYPT_CAP", "MAC_CAP"]

[cert_chains]
num_slots = 5
buf_size = 1024
max_depth = 4

[transcript]
buf_size = 4096

[algorithms]
asymmetric_signing = ["ECDSA_ECC_NIST_P256"]
max_digest_size = 64

[measurement]
max_blocks = 10
max_size = 1024

[opaque_data]
max_elements = 2
max_element_data_size = 16
"""
# Lead the states of a requester by hand to IdAuth
STATES = """
use spdm::requester::{algorithms, capabilities, challenge as chal, id_auth, version};
use spdm::Transcript;
fn negotiated(r: &mut Responder<RingSigner>, t: &mut Transcript) -> id_auth::State {
    let mut a = [0u8; 4096];
    let v = version::State {};
    let m = v.write_get_version(&mut a, t).unwrap().to_vec();
    let mut c = v.handle_msg(&give(r, &m).0, t).unwrap();
    let m = c.write_msg(&mut a, t).unwrap().to_vec();
    let mut g: algorithms::State = c.handle_msg(&give(r, &m).0, t).unwrap();
    let m = g.write_msg(&mut a, t).unwrap().to_vec();
    g.handle_msg(&give(r, &m).0, t).unwrap();
    id_auth::State::from(g)
}
"""
SEEDS = [
dict(id="C16-seeded-once", property="C16",
 needs="two copies of one process (fork) after the first nonce was drawn",
 what_it_breaks="nonces come from a generator seeded once, so that copies of a process repeat each other's nonces",
 edits=[("src/crypto/nonce.rs","""        let mut nonce = [0u8; 32];
        OsRng.fill_bytes(&mut nonce);
        Nonce(nonce)
""","""        use core::sync::atomic::{AtomicU64, Ordering::SeqCst};
        // Seeded from the system, as reading it is slow
        static STATE: AtomicU64 = AtomicU64::new(0);
        let mut nonce = [0u8; 32];
        for chunk in nonce.chunks_mut(8) {
            if STATE.load(SeqCst) == 0 {
                STATE.store(OsRng.next_u64() | 1, SeqCst);
            }
            let n = STATE.fetch_add(0x9e37_79b9_7f4a_7c15, SeqCst);
            let n = (n ^ (n >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            let n = (n ^ (n >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            chunk.copy_from_slice(&(n ^ (n >> 31)).to_le_bytes());
        }
        Nonce(nonce)
""")],
 demo="""
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
extern "C" { fn fork() -> i32; fn _exit(c: i32) -> !; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; }
fn nonce() -> Vec<u8> {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0]));
    vca(&mut r);
    give(&mut r, &get_certificate(0));
    give(&mut r, &challenge(0, 1)).0[36..68].to_vec()
}
fn main() {
    nonce();
    let mut seen = vec![];
    for _ in 0..2 {
        let (mut a, mut b) = UnixStream::pair().unwrap();
        unsafe {
            let p = fork();
            if p == 0 { b.write_all(&nonce()).unwrap(); _exit(0) }
            let mut n = [0u8; 32];
            a.read_exact(&mut n).unwrap();
            waitpid(p, std::ptr::null_mut(), 0);
            seen.push(n);
        }
    }
    check(seen[0] != seen[1], "copies of a process draw their own nonces");
}
"""),
dict(id="C12-slot-asked-last", property="C12",
 needs="the states driven by hand: a certificate received, another slot's asked for and not received, then a challenge",
 what_it_breaks="the slot challenged is not the one whose certificate is held",
 edits=[("src/requester/challenge.rs","""            cert_slot: s.cert_chain.as_ref().unwrap().slot,
""","""            cert_slot: s
                .requested_slot
                .unwrap_or(s.cert_chain.as_ref().unwrap().slot),
""")],
 demo=STATES+"""
fn main() {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0, 1]));
    let mut t = Transcript::new();
    let mut s = negotiated(&mut r, &mut t);
    let mut a = [0u8; 4096];
    let m = s.write_get_certificate_msg(1, &mut a, &mut t).unwrap().to_vec();
    s.handle_certificate(&give(&mut r, &m).0, &mut t).unwrap();
    s.write_get_certificate_msg(0, &mut a, &mut t).unwrap();
    let mut c = chal::State::from(s);
    let m = c.write_msg(&mut a, &mut t).unwrap().to_vec();
    check(m[2] == 1, "the slot held is challenged");
}
"""),
dict(id="C12-same-length", property="C12",
 needs="two provisioned slots in turn whose chains have the same root and the same length",
 what_it_breaks="DIGESTS lists the digest of the slot before for a slot",
 edits=[("src/responder/id_auth.rs","""        let mut buf = [0u8; MAX_CERT_CHAIN_SIZE];
        for i in 0..NUM_SLOTS {
            if let Some(cert_chain) = &cert_chains[i] {
                let mut w = Writer::new(&mut buf);
                let size = cert_chain.write(&mut w)?;
""","""        let mut buf = [0u8; MAX_CERT_CHAIN_SIZE];
        let mut last_size = 0;
        for (i, cert_chain) in cert_chains.iter().enumerate() {
            if let Some(cert_chain) = cert_chain {
                let mut w = Writer::new(&mut buf);
                let size = cert_chain.write(&mut w)?;
                // The same chain is often provisioned in several slots
                if i > 0 && size == last_size {
                    if let Some(before) = &cert_chains[i - 1] {
                        if before.root_hash == cert_chain.root_hash {
                            digests[i] = digests[i - 1].clone();
                            continue;
                        }
                    }
                }
                last_size = size;
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let a = pki.leaf(1);
    let b = loop { let b = pki.leaf(1); if pki.chain_bytes(&b).len() == pki.chain_bytes(&a).len() { break b } };
    let mut s = no_slots();
    s[0] = Some(pki.slot(&a));
    s[1] = Some(pki.slot(&b));
    let mut r = Responder::new(s);
    vca(&mut r);
    let (o, ok) = give(&mut r, &GET_DIGESTS);
    check(ok && o[4..36] == sha256(&pki.chain_bytes(&a))[..] && o[36..68] == sha256(&pki.chain_bytes(&b))[..], "each slot's digest");
}
"""),
dict(id="C10-many-restarts", property="C10",
 needs="256 GET_VERSION messages to one responder",
 what_it_breaks="a counter of restarts overflows and the responder panics",
 edits=[("src/transcript.rs","""    buf: [u8; TRANSCRIPT_SIZE],
    offset: usize,
}
""","""    buf: [u8; TRANSCRIPT_SIZE],
    offset: usize,
    // How often it was started anew
    generation: u8,
}
"""),("src/transcript.rs","Transcript { buf: [0; TRANSCRIPT_SIZE], offset: 0 }","Transcript { buf: [0; TRANSCRIPT_SIZE], offset: 0, generation: 0 }"),
 ("src/transcript.rs","""        self.offset = 0;
""","""        self.offset = 0;
        self.generation += 1;
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0]));
    std::panic::set_hook(Box::new(|_| {}));
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (0..1000).all(|_| give(&mut r, &GET_VERSION).1)));
    check(ok.unwrap_or(false), "answered");
}
"""),
dict(id="C06-many-restarts", property="C06",
 needs="more than 100 restarts of one responder",
 what_it_breaks="a responder that was restarted often no longer answers like a new one",
 edits=[("src/transcript.rs","""    buf: [u8; TRANSCRIPT_SIZE],
    offset: usize,
}
""","""    buf: [u8; TRANSCRIPT_SIZE],
    offset: usize,
    base: usize,
}
"""),("src/transcript.rs","Transcript { buf: [0; TRANSCRIPT_SIZE], offset: 0 }","Transcript { buf: [0; TRANSCRIPT_SIZE], offset: 0, base: 0 }"),
 ("src/transcript.rs","""        self.offset = 0;
""","""        // Level the wear of the buffer
        self.base = (self.base + 8) % (self.buf.len() / 2);
        self.offset = self.base;
"""),
 ("src/transcript.rs","&self.buf[0..self.offset]","&self.buf[self.base..self.offset]"),
 ("src/transcript.rs","""    pub fn len(&self) -> usize {
        self.offset
""","""    pub fn len(&self) -> usize {
        self.offset - self.base
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut s = no_slots();
    s[0] = Some(pki.slot(&pki.leaf(1)));
    let mut r = Responder::new(s);
    let mut fill = |r: &mut Responder<RingSigner>| {
        vca(r);
        let mut n = 0;
        while give(r, &GET_DIGESTS).1 { n += 1 }
        r.reset();
        n
    };
    let first = fill(&mut r);
    for _ in 0..200 { give(&mut r, &GET_VERSION); }
    check(fill(&mut r) == first, "as much as a new one");
}
"""),
dict(id="C01-root-included", property="C01",
 needs="a chain that lists the root certificate itself before a leaf the root never issued",
 what_it_breaks="a peer with any key authenticates by putting the root certificate, which is public, into its chain",
 edits=[("src/requester/challenge.rs","""        end_entity_cert.verify_chain_of_trust(
            self.algorithms.base_asym_algo_selected,
            cert_chain.intermediate_certs(),
            root_cert,
            seconds_since_unix_epoch,
        )?;
""","""        // A chain that starts at the root needs no path to it
        if cert_chain.intermediate_certs().first() != Some(&root_cert) {
            end_entity_cert.verify_chain_of_trust(
                self.algorithms.base_asym_algo_selected,
                cert_chain.intermediate_certs(),
                root_cert,
                seconds_since_unix_epoch,
            )?;
        }
""")],
 demo="""
fn main() {
    let (pki, other) = (Pki::new(), Pki::new());
    let mut l = other.leaf(0);
    l.inter.push(pki.root_der);
    let mut s = no_slots();
    s[0] = Some(pki.slot(&l));
    let mut r = Responder::new(s);
    let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
    check(handshake(&mut q, &mut r).is_err(), "a leaf of another root is refused");
}
"""),
dict(id="C01-issuer-signed", property="C01",
 needs="a CHALLENGE_AUTH signed with the key of an intermediate of the chain",
 what_it_breaks="another key than the leaf's authenticates",
 edits=[("src/requester/challenge.rs","""        if !end_entity_cert.verify_signature(
            self.algorithms.base_asym_algo_selected,
            m2_hash,
            signature,
        ) {
""","""        let algorithm = self.algorithms.base_asym_algo_selected;
        let mut signed =
            end_entity_cert.verify_signature(algorithm, m2_hash, signature);
        for cert in cert_chain.intermediate_certs() {
            signed = signed
                || new_end_entity_cert(cert)
                    .map(|c| c.verify_signature(algorithm, m2_hash, signature))
                    .unwrap_or(false);
        }
        if !signed {
""")],
 demo="""
use test_utils::certs::*;
fn main() {
    let root = rcgen::Certificate::from_params(cert_params_ecdsa_p256_sha256(true, "Root")).unwrap();
    let ca = rcgen::Certificate::from_params(cert_params_ecdsa_p256_sha256(true, "Ca")).unwrap();
    let leaf = rcgen::Certificate::from_params(cert_params_ecdsa_p256_sha256(false, "Leaf")).unwrap();
    let pki = Pki::new();
    let l = Leaf { inter: vec![leak(ca.serialize_der_with_signer(&root).unwrap())], der: leak(leaf.serialize_der_with_signer(&ca).unwrap()), key: ca.serialize_private_key_der() };
    let mut s = no_slots();
    s[0] = Some(pki.slot(&l));
    let mut r = Responder::new(s);
    let der = leak(root.serialize_der().unwrap());
    let mut q = RequesterInit::<RingSigner>::new(der, no_slots());
    check(handshake(&mut q, &mut r).is_err(), "only the leaf's key authenticates");
}
"""),
dict(id="C21-dedup", property="C21",
 needs="the same certificate added twice in turn to a chain",
 what_it_breaks="a container lacks a certificate that was added",
 edits=[("src/msgs/certificates.rs","""        self.intermediate_certs[self.num_intermediate_certs as usize] = cert;
        self.num_intermediate_certs += 1;
        Ok(())
""","""        let n = self.num_intermediate_certs as usize;
        if n == 0 || self.intermediate_certs[n - 1] != cert {
            self.intermediate_certs[n] = cert;
            self.num_intermediate_certs += 1;
        }
        Ok(())
""")],
 demo="""
use spdm::msgs::CertificateChain;
use spdm::msgs::encoding::Writer;
fn main() {
    let c = [0x30u8, 1, 7];
    let root = [9u8; 32];
    let leaf = [0x30u8, 0];
    let mut ch = CertificateChain::new(&root, &leaf);
    for _ in 0..3 { ch.append_intermediate_cert(&c).unwrap(); }
    let mut b = [0u8; 128];
    let n = ch.write(&mut Writer::new(&mut b)).unwrap();
    check(n == 4 + 32 + 9 + 2, "all certificates are written");
}
"""),
dict(id="C22-skip-overflow", property="C22",
 needs="a skip over more bytes than an address can hold",
 what_it_breaks="the cursor overflows instead of failing",
 edits=[("src/msgs/encoding.rs","""        for _ in 0..num_bytes {
            self.get_byte()?;
        }
        Ok(())
""","""        if num_bytes > 0 && !self.is_aligned() {
            return Err(ReadError::Unaligned);
        }
        if self.byte_offset + num_bytes > self.buf.len() {
            return Err(ReadError::BufferEmpty);
        }
        self.byte_offset += num_bytes;
        Ok(())
""")],
 demo="""
use spdm::msgs::encoding::Reader;
fn main() {
    let b = [1u8, 2, 3];
    for n in [4usize, 1 << 40, usize::MAX] {
        let mut r = Reader::new(&b);
        r.get_byte().unwrap();
        std::panic::set_hook(Box::new(|_| {}));
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.skip_ignored(n).is_err()));
        check(ok.unwrap_or(false), "too little data");
    }
}
"""),
]
