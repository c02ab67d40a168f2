#![allow(dead_code)]
pub use spdm::config::*;
pub use spdm::crypto::ring::signing::{new_signer, RingSigner};
pub use spdm::crypto::{signing, Digests as DigestsTrait, FilledSlot, ProvidedDigests, Signer};
pub use spdm::msgs::algorithms::*;
pub use spdm::msgs::{encoding::Writer, CertificateChain, Msg};
pub use spdm::requester::RequesterInit;
pub use spdm::responder::Responder;
pub use test_utils::certs::*;

pub type Slots = [Option<FilledSlot<'static, RingSigner>>; NUM_SLOTS];

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAIL: {}", what);
        std::process::exit(1);
    }
}

pub struct Pki {
    pub root: rcgen::Certificate,
    pub root_der: &'static [u8],
}
impl Pki {
    pub fn new() -> Pki {
        let root = rcgen::Certificate::from_params(cert_params_ecdsa_p256_sha256(true, "Root")).unwrap();
        let root_der = leak(root.serialize_der().unwrap());
        Pki { root, root_der }
    }
    pub fn root_hash(&self) -> &'static [u8] {
        leak(ProvidedDigests::digest(BaseHashAlgo::SHA_256, self.root_der).as_ref().to_vec())
    }
    /// a leaf below `n` intermediates below our root
    pub fn leaf(&self, n: usize) -> Leaf {
        let mut inter = vec![];
        let mut ca: Option<rcgen::Certificate> = None;
        for i in 0..n {
            let c = rcgen::Certificate::from_params(cert_params_ecdsa_p256_sha256(true, &format!("Inter{}", i))).unwrap();
            inter.push(leak(c.serialize_der_with_signer(ca.as_ref().unwrap_or(&self.root)).unwrap()));
            ca = Some(c);
        }
        let c = rcgen::Certificate::from_params(cert_params_ecdsa_p256_sha256(false, "Leaf")).unwrap();
        let der = leak(c.serialize_der_with_signer(ca.as_ref().unwrap_or(&self.root)).unwrap());
        Leaf { inter, der, key: c.serialize_private_key_der() }
    }
    pub fn slot(&self, l: &Leaf) -> FilledSlot<'static, RingSigner> {
        let mut chain = CertificateChain::new(self.root_hash(), l.der);
        for i in &l.inter {
            chain.append_intermediate_cert(i).unwrap();
        }
        FilledSlot {
            signing_algorithm: BaseAsymAlgo::ECDSA_ECC_NIST_P256,
            hash_algorithm: BaseHashAlgo::SHA_256,
            cert_chain: chain,
            signer: new_signer(BaseAsymAlgo::ECDSA_ECC_NIST_P256, &l.key).unwrap(),
        }
    }
    /// the bytes of the chain in such a slot
    pub fn chain_bytes(&self, l: &Leaf) -> Vec<u8> {
        let mut v = vec![0, 0, 0, 0];
        v.extend_from_slice(self.root_hash());
        for i in &l.inter {
            v.extend_from_slice(i);
        }
        v.extend_from_slice(l.der);
        let n = v.len();
        v[0] = n as u8;
        v[1] = (n >> 8) as u8;
        v
    }
}
pub struct Leaf {
    pub inter: Vec<&'static [u8]>,
    pub der: &'static [u8],
    pub key: Vec<u8>,
}
pub fn leak(v: Vec<u8>) -> &'static [u8] {
    Box::leak(v.into_boxed_slice())
}
pub fn no_slots() -> Slots {
    Default::default()
}
pub fn filled(pki: &Pki, which: &[usize]) -> Slots {
    let mut s = no_slots();
    for i in which {
        s[*i] = Some(pki.slot(&pki.leaf(1)));
    }
    s
}
pub fn sha256(b: &[u8]) -> Vec<u8> {
    ProvidedDigests::digest(BaseHashAlgo::SHA_256, b).as_ref().to_vec()
}

pub const GET_VERSION: [u8; 4] = [0x10, 0x84, 0, 0];
pub const GET_DIGESTS: [u8; 4] = [0x11, 0x81, 0, 0];
pub fn get_capabilities(flags: u32) -> Vec<u8> {
    let mut v = vec![0x11, 0xe1, 0, 0, 0, 12, 0, 0];
    v.extend_from_slice(&flags.to_le_bytes());
    v
}
pub fn get_certificate(slot: u8) -> Vec<u8> {
    vec![0x11, 0x82, slot, 0, 0, 0, 0xff, 0xff]
}
pub fn challenge(slot: u8, fill: u8) -> Vec<u8> {
    let mut v = vec![0x11, 0x83, slot, 0];
    v.extend_from_slice(&[fill; 32]);
    v
}
/// asym, hash: words; structs: (type, 16 bit word)
pub fn negotiate(asym: u32, hash: u32, structs: &[(u8, u16)]) -> Vec<u8> {
    let len = 32 + 4 * structs.len() as u16;
    let mut v = vec![0x11, 0xe3, structs.len() as u8, 0];
    v.extend_from_slice(&len.to_le_bytes());
    v.extend_from_slice(&[1, 0]);
    v.extend_from_slice(&asym.to_le_bytes());
    v.extend_from_slice(&hash.to_le_bytes());
    v.extend_from_slice(&[0; 16]);
    for (t, w) in structs {
        v.extend_from_slice(&[*t, 0x20]);
        v.extend_from_slice(&w.to_le_bytes());
    }
    v
}
pub const STRUCTS: [(u8, u16); 4] = [(2, 2), (3, 2), (4, 0x10), (5, 1)];
pub const ALL_CAPS: u32 = 0x43c6;

/// Give the responder a message; what it answers and whether it is content
pub fn give<S: Signer>(r: &mut Responder<S>, m: &[u8]) -> (Vec<u8>, bool) {
    give_buf(r, m, 4096)
}
pub fn give_buf<S: Signer>(r: &mut Responder<S>, m: &[u8], n: usize) -> (Vec<u8>, bool) {
    let mut buf = vec![0xa5u8; n];
    let (out, res) = r.handle_msg(m, &mut buf);
    (out.to_vec(), res.is_ok())
}
/// Lead a responder up to IdAuth
pub fn vca<S: Signer>(r: &mut Responder<S>) {
    for m in [GET_VERSION.to_vec(), get_capabilities(ALL_CAPS), negotiate(0x10, 1, &STRUCTS)] {
        let (_, ok) = give(r, &m);
        check(ok, "version, capabilities and algorithms are agreed");
    }
}
/// One honest exchange; Ok(complete)
pub fn exchange<S: Signer, T: Signer>(q: &mut RequesterInit<S>, r: &mut Responder<T>) -> Result<bool, String> {
    let mut a = [0u8; 4096];
    let mut b = [0u8; 4096];
    let m = q.next_request(&mut a).map_err(|e| format!("{:?}", e))?;
    let (o, res) = r.handle_msg(m, &mut b);
    res.map_err(|e| format!("{:?}", e))?;
    q.handle_msg(o).map_err(|e| format!("{:?}", e))
}
/// The whole handshake
pub fn handshake<S: Signer, T: Signer>(q: &mut RequesterInit<S>, r: &mut Responder<T>) -> Result<usize, String> {
    for i in 1..20 {
        if exchange(q, r)? {
            return Ok(i);
        }
    }
    Err("no end".into())
}
/// Exchanges with a responder up to (not including) the exchange where the requester is in `phase`
pub fn until<S: Signer, T: Signer>(q: &mut RequesterInit<S>, r: &mut Responder<T>, phase: &str) {
    for _ in 0..20 {
        if q.state().name() == phase {
            return;
        }
        if let Err(e) = exchange(q, r) {
            check(false, &e);
        }
    }
    check(false, "phase reached");
}
