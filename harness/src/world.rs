//! Configuration, certificates, and the two real peers with recording.
use crate::rec::*;
use crate::source;
use ring::digest;
use ring::rand::SystemRandom;
use ring::signature::{self, EcdsaKeyPair, ECDSA_P256_SHA256_FIXED_SIGNING};
use serde_json::Value;
use spdm::config::NUM_SLOTS;
use spdm::crypto::{signing, FilledSlot, Signer};
use spdm::msgs::algorithms::{BaseAsymAlgo, BaseHashAlgo};
use spdm::msgs::CertificateChain;
use spdm::requester::RequesterInit;
use spdm::responder::Responder;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const SS: usize = 64;

pub struct Cfg {
    pub nslots: usize, pub chain_max: usize, pub depth: usize, pub tr_max: usize,
    pub opq_n: usize, pub opq_max: usize, pub mb_n: usize, pub mb_max: usize, pub nonce_len: usize,
    pub caps: u32, pub crypto: bool, pub max_digest: usize,
    pub json: String,
}
impl Cfg {
    pub fn load(path: &str) -> Cfg {
        let json = std::fs::read_to_string(path).unwrap();
        let v: Value = serde_json::from_str(&json).unwrap();
        let n = |k: &str| v[k].as_u64().unwrap() as usize;
        let caps = v["caps"].as_array().unwrap().iter().fold(0u32, |a, b| a | 1 << b.as_u64().unwrap());
        Cfg { nslots: n("nslots"), chain_max: n("chainMax"), depth: n("depth"), tr_max: n("trMax"),
              opq_n: n("opqN"), opq_max: n("opqMax"), mb_n: n("mbN"), mb_max: n("mbMax"), nonce_len: n("nonceLen"), caps,
              crypto: v["crypto"].as_bool().unwrap(), max_digest: n("maxDigest"), json: json.trim().to_string() }
    }
    pub fn cap(&self, bit: u32) -> bool { self.caps & (1 << bit) != 0 }
    pub fn hashes(&self) -> Vec<u32> { (0..3).filter(|h| hash_len(*h) <= self.max_digest).collect() }
    pub fn can_id(&self) -> bool { self.crypto && self.cap(1) }
    pub fn can_chal(&self) -> bool { self.can_id() && self.cap(2) }
}
pub fn hash_len(h: u32) -> usize { [32, 48, 64][h as usize % 3] }
pub fn hash(h: u32, b: &[u8]) -> Vec<u8> {
    let a = [&digest::SHA256, &digest::SHA384, &digest::SHA512][h as usize % 3];
    digest::digest(a, b).as_ref().to_vec()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn leak<T: ?Sized>(b: Box<T>) -> &'static T { Box::leak(b) }

#[derive(Clone)]
pub struct Chain { pub name: String, pub root: usize, pub inter: Vec<&'static [u8]>, pub leaf: &'static [u8],
                   pub key: Vec<u8>, pub valid: bool }
pub struct Certs { pub roots: Vec<&'static [u8]>, pub chains: HashMap<String, Chain> }
impl Certs {
    pub fn load(path: &str) -> Certs {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
        let lk = |x: &Value| -> &'static [u8] { leak(unhex(x.as_str().unwrap()).into_boxed_slice()) };
        Certs {
            roots: v["roots"].as_array().unwrap().iter().map(lk).collect(),
            chains: v["chains"].as_array().unwrap().iter().map(|c| {
                let name = c["name"].as_str().unwrap().to_string();
                (name.clone(), Chain { name, root: c["root"].as_u64().unwrap() as usize,
                    inter: c["inter"].as_array().unwrap().iter().map(lk).collect(),
                    leaf: lk(&c["leaf"]), key: unhex(c["key"].as_str().unwrap()),
                    valid: c["valid"].as_bool().unwrap() })
            }).collect(),
        }
    }
    pub fn get(&self, n: &str) -> Chain { self.chains.get(n).unwrap_or_else(|| panic!("chain {}", n)).clone() }
}

/// What is in a slot: a chain (perhaps synthetic), the digest of the root put
/// in front of it, and a key
#[derive(Clone)]
pub struct SlotP { pub root: &'static [u8], pub inter: Vec<&'static [u8]>, pub leaf: &'static [u8], pub key: Rc<EcdsaKeyPair> }
impl SlotP {
    pub fn of(c: &Chain, roots: &[&'static [u8]], h: u32) -> SlotP {
        SlotP { root: leak(hash(h, roots[c.root]).into_boxed_slice()), inter: c.inter.clone(), leaf: c.leaf,
                key: Rc::new(load_key(&c.key)) }
    }
    pub fn bytes(&self) -> Vec<u8> { chain_bytes(self.root, &self.inter, self.leaf) }
}
pub fn load_key(k: &[u8]) -> EcdsaKeyPair { EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, k).unwrap_or_else(|_| any_key()) }
// a chain whose key is of another kind gets some P256 key
fn any_key() -> EcdsaKeyPair {
    let d = EcdsaKeyPair::generate_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, &SystemRandom::new()).unwrap();
    EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, d.as_ref()).unwrap()
}
pub fn chain_bytes(root: &[u8], inter: &[&[u8]], leaf: &[u8]) -> Vec<u8> {
    let n = 4 + root.len() + inter.iter().map(|x| x.len()).sum::<usize>() + leaf.len();
    let mut v = vec![n as u8, (n >> 8) as u8, 0, 0];
    v.extend_from_slice(root);
    for i in inter { v.extend_from_slice(i) }
    v.extend_from_slice(leaf);
    v
}

#[derive(Clone)]
pub struct Prov { pub slots: Vec<Option<SlotP>>, pub id: usize }
impl Prov {
    pub fn new(rec: &mut Rec, slots: Vec<Option<SlotP>>) -> Prov {
        assert_eq!(slots.len(), NUM_SLOTS);
        let mut js = vec![];
        for s in &slots {
            js.push(match s {
                None => "{\"has\":false}".to_string(),
                Some(s) => {
                    let b = s.bytes();
                    let inter: Vec<usize> = s.inter.iter().map(|x| rec.blob(x)).collect();
                    let dig: Vec<usize> = (0..3).map(|h| rec.blob(&hash(h, &b))).collect();
                    format!("{{\"has\":true,\"root\":{},\"inter\":{},\"leaf\":{},\"chain\":{},\"dig\":{}}}",
                        rec.blob(s.root), nums(&inter), rec.blob(s.leaf), rec.blob(&b), nums(&dig))
                }
            });
        }
        let id = rec.prov(format!("{{\"slots\":[{}]}}", js.join(",")));
        Prov { slots, id }
    }
}

/* ------------------------------- signing ------------------------------- */
pub struct SignRec { pub slot: usize, pub msg: Vec<u8>, pub ok: bool, pub sig: Vec<u8> }
#[derive(Default)]
pub struct SignCtx {
    pub fail: Cell<u32>,
    /// wanted number of leading zero bytes of r and s, and their high bits
    pub class: Cell<Option<(usize, usize, u8, u8)>>,
    pub log: RefCell<Vec<SignRec>>,
}
pub struct RSig(Vec<u8>);
impl AsRef<[u8]> for RSig { fn as_ref(&self) -> &[u8] { &self.0 } }
impl signing::Signature for RSig {}
pub struct RecSigner { slot: usize, key: Rc<EcdsaKeyPair>, ctx: Rc<SignCtx> }
pub fn sign_class(key: &EcdsaKeyPair, msg: &[u8], class: Option<(usize, usize, u8, u8)>) -> Vec<u8> {
    let rng = SystemRandom::new();
    loop {
        let s = key.sign(&rng, msg).unwrap().as_ref().to_vec();
        match class {
            None => return s,
            Some((zr, zs, hr, hs)) => {
                let lz = |b: &[u8]| b.iter().take_while(|x| **x == 0).count();
                let (r, t) = (lz(&s[..32]), lz(&s[32..]));
                if r == zr && t == zs && (hr > 1 || s[r] >> 7 == hr) && (hs > 1 || s[32 + t] >> 7 == hs) { return s }
            }
        }
    }
}
impl Signer for RecSigner {
    type Signature = RSig;
    fn sign(&self, msg: &[u8]) -> Result<RSig, signing::Error> {
        let ok = self.ctx.fail.get() & (1 << self.slot) == 0;
        let sig = if ok { sign_class(&self.key, msg, self.ctx.class.get()) } else { vec![] };
        self.ctx.log.borrow_mut().push(SignRec { slot: self.slot, msg: msg.to_vec(), ok, sig: sig.clone() });
        if ok { Ok(RSig(sig)) } else { Err(signing::Error {}) }
    }
}
pub fn fill(p: &Prov, ctx: &Rc<SignCtx>) -> [Option<FilledSlot<'static, RecSigner>>; NUM_SLOTS] {
    let mut i = 0;
    [(); NUM_SLOTS].map(|_| {
        let s = p.slots[i].as_ref().map(|s| {
            let mut c = CertificateChain::new(s.root, s.leaf);
            for x in &s.inter { c.append_intermediate_cert(x).expect("provisioned chain too deep"); }
            FilledSlot { signing_algorithm: BaseAsymAlgo::ECDSA_ECC_NIST_P256, hash_algorithm: BaseHashAlgo::SHA_256,
                         cert_chain: c, signer: RecSigner { slot: i, key: s.key.clone(), ctx: ctx.clone() } }
        });
        i += 1;
        s
    })
}

/* ------------------------------- watchdog ------------------------------ */
static TICK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static CTX: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn context(s: String) { *CTX.lock().unwrap() = s; TICK.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
pub fn tick() { TICK.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
pub fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut n) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(std::sync::atomic::Ordering::SeqCst);
            if t == last { n += 1 } else { n = 0; last = t }
            if n >= 60 {
                println!("HANG {}", CTX.lock().map(|s| s.clone()).unwrap_or_default());
                std::process::exit(3);
            }
        }
    });
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> { tick(); catch_unwind(AssertUnwindSafe(f)).ok() }

/* ------------------------------ responder ------------------------------ */
pub fn bits(v: u64) -> String { nums(&(0..64).filter(|i| v >> i & 1 == 1).collect::<Vec<u32>>()) }
fn delta(rec: &mut Rec, old: &mut Vec<u8>, new: &[u8]) -> String {
    let r = if new == &old[..] { ("same", 0) }
            else if new.len() > old.len() && new.starts_with(old) { ("app", rec.blob(&new[old.len()..])) }
            else { ("set", rec.blob(new)) };
    *old = new.to_vec();
    format!("\"top\":\"{}\",\"tb\":{}", r.0, r.1)
}

/// What an error says about the code of an unexpected message: expected, got
#[allow(unused_variables)]
fn rsp_unexpected(e: &spdm::responder::ResponderError) -> String {
    #[cfg(feature = "fields")]
    if let spdm::responder::ResponderError::UnexpectedMsgCode { expected, got } = e { return nums(&[*expected, *got]) }
    "[]".into()
}
#[allow(unused_variables)]
fn req_unexpected(e: &spdm::requester::RequesterError) -> String {
    #[cfg(feature = "fields")]
    if let spdm::requester::RequesterError::UnexpectedMsgCode { expected, got } = e { return nums(&[*expected, *got]) }
    "[]".into()
}

pub struct Out { pub ok: bool, pub out: Vec<u8>, pub res: &'static str }
struct Twin { r: Responder<'static, RecSigner>, ctx: Rc<SignCtx>, tr: Vec<u8>, chal: bool }
pub struct Rsp {
    r: Responder<'static, RecSigner>,
    pub ctx: Rc<SignCtx>,
    pub tr: Vec<u8>,
    /// the bytes exchanged since GET_VERSION, as the recorder saw them
    mine: Vec<u8>,
    prov: Prov,
    pub fresh: bool,
    twin_on: bool,
    twin: Option<Twin>,
    served: usize,
    pub dead: bool,
    /// what the random source delivers first during the next call
    pub odd: Vec<u8>,
}
impl Rsp {
    pub fn new(p: &Prov, twin_on: bool) -> Rsp {
        let ctx = Rc::new(SignCtx::default());
        Rsp { r: Responder::new(fill(p, &ctx)), ctx, tr: vec![], mine: vec![], prov: p.clone(), fresh: true, twin_on, twin: None, served: 0, dead: false, odd: vec![] }
    }
    pub fn phase(&self) -> &'static str {
        if self.dead { return "None" }
        self.r.state().name()
    }
    fn fields(&self) -> Option<String> {
        #[cfg(feature = "fields")]
        {
            use spdm::responder::AllStates::*;
            if self.dead { return None }
            let alg = |a: &spdm::msgs::Algorithms, rct: u8, rq: u32| format!(
                "{{\"rct\":{},\"rqf\":{},\"alg\":true,\"hash\":{},\"asym\":{}}}", rct, bits(rq as u64),
                bits(a.base_hash_algo_selected.bits() as u64), bits(a.base_asym_algo_selected.bits() as u64));
            return match self.r.state() {
                Algorithms(s) => Some(format!("{{\"rct\":{},\"rqf\":{},\"alg\":false}}", s.requester_ct_exponent, bits(s.requester_cap.bits() as u64))),
                IdAuth(s) => Some(alg(&s.algorithms, s.requester_ct_exponent, s.requester_cap.bits())),
                Challenge(s) => Some(alg(&s.algorithms, s.requester_ct_exponent, s.requester_cap.bits())),
                _ => None,
            };
        }
        #[cfg(not(feature = "fields"))]
        None
    }
    pub fn serve(&mut self, rec: &mut Rec, req: &[u8], cap: usize) -> Out {
        bystand();
        if self.dead { return Out { ok: false, out: vec![], res: "dead" } }
        let before = self.phase();
        if before == "Error" {
            let mut buf = vec![0xa5u8; cap];
            let r = quiet(|| { let (_, r) = self.r.handle_msg(req, &mut buf); r.is_ok() });
            let res = match r { None => { self.dead = true; "panic" } Some(true) => "ok", Some(false) => "err" };
            rec.event(format!("{{\"k\":\"dead\",\"res\":\"{}\"}}", res));
            self.tr = self.r.transcript().get().to_vec();
            return Out { ok: false, out: vec![], res };
        }
        context(format!("serve phase={} cap={} req={:02x?}", before, cap, req));
        let start_twin = self.twin_on && self.served > 0 && req.len() > 2 && req[1] == 0x84;
        self.ctx.log.borrow_mut().clear();
        let mut buf = vec![0xa5u8; cap];
        let mut uc = "[]".to_string();
        source::feed(std::mem::take(&mut self.odd));
        let r = quiet(|| { let (o, r) = self.r.handle_msg(req, &mut buf); if let Err(e) = &r { uc = rsp_unexpected(e) } (o.to_vec(), r.is_ok()) });
        let (res, out) = match &r { None => ("panic", vec![]), Some((o, true)) => ("ok", o.clone()), Some((o, false)) => ("err", o.clone()) };
        source::feed(vec![]);
        if res == "panic" { self.dead = true }
        let newtr = self.r.transcript().get().to_vec();
        let d = delta(rec, &mut self.tr, &newtr);
        let sg: Vec<String> = self.ctx.log.borrow().iter().map(|s| format!(
            "{{\"s\":{},\"m\":{},\"ok\":{},\"sig\":{}}}", s.slot, rec.blob(&s.msg), s.ok, rec.blob(&s.sig))).collect();
        let is_chal = req.len() > 2 && req[1] == 0x83;
        if res == "ok" {
            if req.len() > 1 && req[1] == 0x84 { self.mine.clear() }
            self.mine.extend_from_slice(req);
            self.mine.extend_from_slice(&out[..out.len().saturating_sub(if is_chal { SS } else { 0 })]);
        }
        let th: Vec<usize> = if is_chal { (0..3).map(|h| rec.blob(&hash(h, &self.mine))).collect() } else { vec![] };
        let sf: Vec<usize> = (0..NUM_SLOTS).filter(|i| self.ctx.fail.get() >> i & 1 == 1).collect();
        let f = if res == "ok" { self.fields() } else { None };
        // the twin: a new responder that sees what came since GET_VERSION
        if start_twin {
            let ctx = Rc::new(SignCtx::default());
            self.twin = Some(Twin { r: Responder::new(fill(&self.prov, &ctx)), ctx, tr: vec![], chal: false });
        }
        let mut tw = "{\"has\":false}".to_string();
        let mut drop_twin = false;
        if let Some(t) = &mut self.twin {
            t.ctx.fail.set(self.ctx.fail.get());
            let mut buf = vec![0xa5u8; cap];
            let r = quiet(|| { let (o, r) = t.r.handle_msg(req, &mut buf); (o.to_vec(), r.is_ok()) });
            let (tres, tout) = match &r { None => ("panic", vec![]), Some((o, true)) => ("ok", o.clone()), Some((o, false)) => ("err", o.clone()) };
            let tph = if tres == "panic" { "None" } else { t.r.state().name() };
            t.tr = t.r.transcript().get().to_vec();
            if is_chal { t.chal = true }
            let same = if res != "ok" { true } else if t.chal { t.tr.len() == self.tr.len() } else { t.tr == self.tr };
            tw = format!("{{\"has\":true,\"res\":\"{}\",\"out\":{},\"ph\":\"{}\",\"tr\":{}}}", tres, rec.blob(&tout), tph, same);
            drop_twin = tres != "ok";
        }
        if drop_twin { self.twin = None }
        self.served += 1;
        self.fresh = false;
        let e = format!("{{\"k\":\"serve\",\"req\":{},\"cap\":{},\"res\":\"{}\",\"out\":{},\"ph\":\"{}\",{},\"uc\":{},\"sf\":{},\"sg\":[{}],\"th\":{},\"hf\":{},\"f\":{},\"tw\":{}}}",
            rec.blob(req), cap, res, rec.blob(&out), self.phase(), d, uc, nums(&sf), sg.join(","), nums(&th), f.is_some(), f.unwrap_or("{}".into()), tw);
        rec.event(e);
        Out { ok: res == "ok", out, res }
    }
    pub fn reset(&mut self, rec: &mut Rec) {
        self.r.reset();
        self.dead = false;
        self.mine.clear();
        let newtr = self.r.transcript().get().to_vec();
        let d = delta(rec, &mut self.tr, &newtr);
        rec.event(format!("{{\"k\":\"reset\",\"ph\":\"{}\",{}}}", self.phase(), d));
        if self.twin_on {
            let ctx = Rc::new(SignCtx::default());
            self.twin = Some(Twin { r: Responder::new(fill(&self.prov, &ctx)), ctx, tr: vec![], chal: false });
        }
    }
}

/* ------------------------------ requester ------------------------------ */
/// Our own verification of what a CHALLENGE_AUTH claims
pub struct Verifier { chain_memo: HashMap<(Vec<u8>, usize, Vec<u8>), (bool, Vec<Vec<u8>>, Vec<u8>, bool)> }
pub const UNIX_TIME: u64 = 1638316800;
fn der_len(b: &[u8]) -> Option<usize> {
    if b.len() < 2 || b[0] != 0x30 { return None }
    let (h, n) = match b[1] {
        n if n < 0x80 => (2, n as usize),
        0x81 if b.len() > 2 && b[2] >= 0x80 => (3, b[2] as usize),
        0x82 if b.len() > 3 && b[2] != 0 => (4, (b[2] as usize) << 8 | b[3] as usize),
        _ => return None,
    };
    if h + n <= b.len() { Some(h + n) } else { None }
}
pub fn split(chain: &[u8], ds: usize) -> Option<(Vec<Vec<u8>>, Vec<u8>)> {
    if chain.len() < 4 + ds { return None }
    let mut certs = vec![];
    let mut b = &chain[4 + ds..];
    while !b.is_empty() {
        let n = der_len(b)?;
        certs.push(b[..n].to_vec());
        b = &b[n..];
    }
    let leaf = certs.pop()?;
    Some((certs, leaf))
}
// the public point of a P256 certificate: the BIT STRING after the two OIDs
pub fn p256_point(cert: &[u8]) -> Option<Vec<u8>> {
    let pat = [0x30, 0x13, 0x06, 0x07, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x02, 0x01, 0x06, 0x08, 0x2a, 0x86, 0x48, 0xce,
               0x3d, 0x03, 0x01, 0x07, 0x03, 0x42, 0x00, 0x04];
    let i = cert.windows(pat.len()).position(|w| w == pat)?;
    cert.get(i + 24..i + 24 + 65).map(|x| x.to_vec())
}
pub fn sig_valid(leaf: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    match p256_point(leaf) {
        None => false,
        Some(p) => signature::UnparsedPublicKey::new(&signature::ECDSA_P256_SHA256_FIXED, p).verify(msg, sig).is_ok(),
    }
}
pub fn chain_valid(inter: &[Vec<u8>], leaf: &[u8], root: &[u8]) -> bool {
    (|| -> Option<()> {
        let ee = webpki::EndEntityCert::try_from(leaf).ok()?;
        let ta = [webpki::TrustAnchor::try_from_cert_der(root).ok()?];
        let ints: Vec<&[u8]> = inter.iter().map(|x| &x[..]).collect();
        ee.verify_is_valid_tls_server_cert(&[&webpki::ECDSA_P256_SHA256], &webpki::TlsServerTrustAnchors(&ta), &ints,
            webpki::Time::from_seconds_since_unix_epoch(UNIX_TIME)).ok()
    })().is_some()
}
/// Position of the signature in a CHALLENGE_AUTH
pub fn sig_pos(b: &[u8], ds: usize, nl: usize) -> Option<usize> {
    let mut i = 4 + 2 * ds + nl + 2;
    let n = *b.get(i)?;
    i += 4;
    for _ in 0..n {
        let vl = *b.get(i + 1)? as usize;
        let lo = *b.get(i + 2 + vl)? as usize;
        let hi = *b.get(i + 3 + vl)? as usize;
        let raw = 4 + vl + (hi << 8 | lo);
        i += (raw + 3) / 4 * 4;
    }
    if i + SS <= b.len() { Some(i) } else { None }
}

/// A requester: RequesterInit, or its states driven by hand
enum Drive {
    Auto(RequesterInit<'static, RecSigner>),
    #[cfg(feature = "fields")]
    Hand { st: spdm::requester::AllStates, tr: spdm::Transcript, ask: Option<u8> },
}
impl Drive {
    fn state(&self) -> &spdm::requester::AllStates {
        match self { Drive::Auto(q) => q.state(), #[cfg(feature = "fields")] Drive::Hand { st, .. } => st }
    }
    fn transcript(&self) -> &[u8] {
        match self { Drive::Auto(q) => q.transcript().get(), #[cfg(feature = "fields")] Drive::Hand { tr, .. } => tr.get() }
    }
    fn next_request<'b>(&mut self, buf: &'b mut [u8]) -> Option<&'b [u8]> {
        match self {
            Drive::Auto(q) => q.next_request(buf).ok(),
            #[cfg(feature = "fields")]
            Drive::Hand { st, tr, ask } => {
                use spdm::requester::AllStates::*;
                match st {
                    Version(s) => s.write_get_version(buf, tr).ok(),
                    Capabilities(s) => s.write_msg(buf, tr).ok(),
                    Algorithms(s) => s.write_msg(buf, tr).ok(),
                    IdAuth(s) => match ask { None => s.write_get_digests_msg(buf, tr).ok(), Some(k) => s.write_get_certificate_msg(*k, buf, tr).ok() },
                    Challenge(s) => s.write_msg(buf, tr).ok(),
                    _ => None,
                }
            }
        }
    }
    #[allow(unused_variables)]
    fn handle_msg(&mut self, rsp: &[u8], cfg_id: bool, root: &'static [u8]) -> Result<bool, Option<spdm::RequesterError>> {
        match self {
            Drive::Auto(q) => q.handle_msg(rsp).map_err(Some),
            #[cfg(feature = "fields")]
            Drive::Hand { st, tr, ask } => {
                use spdm::requester::AllStates::*;
                use spdm::msgs::capabilities::RspFlags;
                let next = match std::mem::replace(st, Error) {
                    Version(s) => s.handle_msg(rsp, tr)?.into(),
                    Capabilities(s) => s.handle_msg(rsp, tr)?.into(),
                    Algorithms(mut s) => {
                        s.handle_msg(rsp, tr)?;
                        if cfg_id && s.responder_cap.contains(RspFlags::CERT_CAP) { spdm::requester::id_auth::State::from(s).into() } else { NewSession }
                    }
                    IdAuth(mut s) => { match ask { None => s.handle_digests(rsp, tr)?, Some(_) => s.handle_certificate(rsp, tr)? } s.into() }
                    Challenge(s) => { s.handle_msg(rsp, tr, root)?; NewSession }
                    _ => return Err(None),
                };
                *st = next;
                Ok(matches!(st, NewSession))
            }
        }
    }
}

pub struct Rq {
    q: Drive,
    cfg_id: bool,
    pub tr: Vec<u8>,
    /// the bytes exchanged since GET_VERSION, as the recorder saw them
    pub mine: Vec<u8>,
    root: &'static [u8],
    chain: Vec<u8>,
    pub dead: bool,
    pub odd: Vec<u8>,
    nonce_len: usize,
    need: usize,
}
impl Rq {
    pub fn new(root: &'static [u8], cfg: &Cfg, need: usize) -> Rq {
        Rq { q: Drive::Auto(RequesterInit::new(root, [(); NUM_SLOTS].map(|_| None))), cfg_id: cfg.can_id(), tr: vec![], mine: vec![], root, chain: vec![], dead: false, odd: vec![],
             nonce_len: cfg.nonce_len, need }
    }
    /// the states of the requester, driven by hand
    #[cfg(feature = "fields")]
    pub fn hand(rec: &mut Rec, root: &'static [u8], cfg: &Cfg, need: usize) -> Rq {
        rec.event("{\"k\":\"hand\"}".into());
        let q = Drive::Hand { st: spdm::requester::version::State {}.into(), tr: spdm::Transcript::new(), ask: None };
        Rq { q, ..Rq::new(root, cfg, need) }
    }
    /// what to identify: the digests, or a slot
    #[cfg(feature = "fields")]
    pub fn ask(&mut self, rec: &mut Rec, what: Option<u8>) {
        if let Drive::Hand { ask, .. } = &mut self.q { *ask = what }
        rec.event(format!("{{\"k\":\"ask\",\"what\":\"{}\",\"slot\":{}}}", if what.is_some() { "CERTIFICATE" } else { "DIGESTS" }, what.unwrap_or(0)));
    }
    /// go on to the challenge with the certificate held
    #[cfg(feature = "fields")]
    pub fn go(&mut self, rec: &mut Rec) {
        use spdm::requester::AllStates::*;
        if let Drive::Hand { st, .. } = &mut self.q {
            *st = match std::mem::replace(st, Error) { IdAuth(s) => spdm::requester::challenge::State::from(s).into(), x => x };
        }
        rec.event(format!("{{\"k\":\"move\",\"ph\":\"{}\"}}", self.phase()));
    }
    pub fn phase(&self) -> &'static str {
        if self.dead { return "None" }
        self.q.state().name()
    }
    fn fields(&self) -> Option<String> {
        #[cfg(feature = "fields")]
        {
            use spdm::requester::AllStates::*;
            if self.dead { return None }
            let ver = |v: &spdm::msgs::VersionEntry| nums(&[v.major, v.minor, v.update, v.alpha]);
            fn st(r: &[spdm::msgs::algorithms::AlgorithmRequest]) -> String {
                use spdm::msgs::algorithms::AlgorithmRequest as A;
                let v: Vec<String> = r.iter().map(|x| { let (t, b) = match x {
                    A::Dhe(a) => (2, a.supported.bits()), A::Aead(a) => (3, a.supported.bits()),
                    A::ReqBaseAsym(a) => (4, a.supported.bits()), A::KeySchedule(a) => (5, a.supported.bits()) };
                    format!("{{\"t\":{},\"sel\":{}}}", t, bits(b as u64)) }).collect();
                format!("[{}]", v.join(","))
            }
            let alg = |a: &spdm::msgs::Algorithms| format!(
                "\"alg\":true,\"hash\":{},\"asym\":{},\"mhash\":{},\"mspec\":{},\"structs\":{}",
                bits(a.base_hash_algo_selected.bits() as u64), bits(a.base_asym_algo_selected.bits() as u64),
                bits(a.measurement_hash_algo_selected.bits() as u64), a.measurement_spec_selected.bits(),
                st(&a.algorithm_responses[..a.num_algorithm_responses as usize]));
            let no = "\"dig\":false,\"cert\":false";
            return match self.q.state() {
                Capabilities(s) => Some(format!("{{\"ver\":{},\"rct\":-1,\"alg\":false,{}}}", ver(&s.version), no)),
                Algorithms(s) => Some(format!("{{\"ver\":{},\"rct\":{},\"rsf\":{},\"alg\":false,{}}}", ver(&s.version),
                    s.responder_ct_exponent, bits(s.responder_cap.bits() as u64), no)),
                // digests are projected by the caller, who owns the blob table
                IdAuth(s) => Some(format!("{{\"ver\":{},\"rct\":{},\"rsf\":{},{},@@}}", ver(&s.version),
                    s.responder_ct_exponent, bits(s.responder_cap.bits() as u64), alg(&s.algorithms))),
                Challenge(s) => Some(format!("{{\"ver\":{},\"rct\":{},\"rsf\":{},{},@@}}", ver(&s.version),
                    s.responder_ct_exponent, bits(s.responder_cap.bits() as u64), alg(&s.algorithms))),
                _ => None,
            };
        }
        #[cfg(not(feature = "fields"))]
        None
    }
    #[allow(unused_variables)]
    fn id_fields(&self, rec: &mut Rec) -> String {
        #[cfg(feature = "fields")]
        {
            use spdm::requester::AllStates::*;
            match self.q.state() {
                IdAuth(s) => {
                    let c = s.cert_chain.as_ref().map_or("\"cert\":false".to_string(), |c| format!("\"cert\":true,\"slot\":{},\"chain\":{}", c.slot,
                        rec.blob(&c.cert_chain[..c.portion_length as usize])));
                    return match &s.digests {
                        None => format!("\"dig\":false,{}", c),
                        Some(d) => {
                            let v: Vec<usize> = d.digests.iter().map(|x| x.as_ref().map_or(0, |x| rec.blob(x.as_ref()))).collect();
                            format!("\"dig\":true,\"mask\":{},\"digs\":{},{}", d.slot_mask, nums(&v), c)
                        }
                    }
                }
                Challenge(s) => return format!("\"dig\":false,\"cert\":true,\"slot\":{},\"chain\":{}", s.cert_slot,
                        rec.blob(&s.cert_chain[..s.cert_chain_size as usize])),
                _ => (),
            }
        }
        "\"dig\":false,\"cert\":false".into()
    }
    pub fn next(&mut self, rec: &mut Rec, cap: usize) -> Out {
        bystand();
        if self.dead { return Out { ok: false, out: vec![], res: "dead" } }
        let before = self.phase();
        context(format!("next_request phase={} cap={}", before, cap));
        let mut buf = vec![0xa5u8; cap];
        source::feed(std::mem::take(&mut self.odd));
        let r = quiet(|| self.q.next_request(&mut buf).map(|b| b.to_vec()));
        source::feed(vec![]);
        let (res, out) = match r { None => ("panic", vec![]), Some(None) => ("err", vec![]), Some(Some(b)) => ("ok", b) };
        if before == "Error" {
            if res == "panic" { self.dead = true }
            rec.event(format!("{{\"k\":\"dead\",\"res\":\"{}\"}}", res));
            return Out { ok: false, out: vec![], res };
        }
        let newtr = self.q.transcript().to_vec();
        let d = delta(rec, &mut self.tr, &newtr);
        let ph = self.phase();
        if res == "panic" { self.dead = true }
        if res == "ok" {
            if out.len() > 1 && out[1] == 0x84 { self.mine.clear() }
            self.mine.extend_from_slice(&out);
        }
        let e = format!("{{\"k\":\"next\",\"cap\":{},\"res\":\"{}\",\"out\":{},\"ph\":\"{}\",\"need\":{},{}}}", cap, res, rec.blob(&out), ph, self.need, d);
        rec.event(e);
        Out { ok: res == "ok", out, res }
    }
    pub fn handle(&mut self, rec: &mut Rec, rsp: &[u8], vf: &mut Verifier) -> &'static str {
        bystand();
        if self.dead { return "dead" }
        let before = self.phase();
        context(format!("handle phase={} rsp={:02x?}", before, rsp));
        if before == "Error" || before == "NewSession" {
            let r = quiet(|| self.q.handle_msg(rsp, self.cfg_id, self.root).ok());
            let res = match r { None => { self.dead = true; "panic" } Some(None) => "err", Some(Some(_)) => "ok" };
            rec.event(format!("{{\"k\":\"dead\",\"res\":\"{}\"}}", res));
            return res;
        }
        let fx = if before == "Challenge" && rsp.len() > 2 && rsp[1] == 3 { self.facts(rec, rsp, vf) } else { "{\"has\":false}".into() };
        let mut uc = "[]".to_string();
        let r = quiet(|| self.q.handle_msg(rsp, self.cfg_id, self.root).map_err(|e| if let Some(e) = &e { uc = req_unexpected(e) }).ok());
        let res = match r { None => { self.dead = true; "panic" } Some(None) => "err", Some(Some(false)) => "ok", Some(Some(true)) => "done" };
        let newtr = self.q.transcript().to_vec();
        let d = delta(rec, &mut self.tr, &newtr);
        if res == "ok" { self.mine.extend_from_slice(rsp) }
        if res == "ok" && before == "IdAuth" && rsp.len() >= 8 && rsp[1] == 2 {
            let n = rsp[4] as usize | (rsp[5] as usize) << 8;
            self.chain = rsp.get(8..8 + n).unwrap_or(&[]).to_vec();
        }
        let mut f = if res == "ok" { self.fields() } else { None };
        if let Some(s) = &mut f { if s.contains("@@") { let i = self.id_fields(rec); *s = s.replace("@@", &i) } }
        let e = format!("{{\"k\":\"handle\",\"rsp\":{},\"res\":\"{}\",\"ph\":\"{}\",{},\"uc\":{},\"hf\":{},\"f\":{},\"fx\":{}}}",
            rec.blob(rsp), res, self.phase(), d, uc, f.is_some(), f.unwrap_or("{}".into()), fx);
        rec.event(e);
        res
    }
    fn facts(&self, rec: &mut Rec, rsp: &[u8], vf: &mut Verifier) -> String {
        let mut m2 = self.mine.clone();
        m2.extend_from_slice(&rsp[..rsp.len().saturating_sub(SS)]);
        let (mut dig, mut split_ok, mut inter, mut leaf, mut valid, mut pos, mut sig) =
            (vec![], vec![], vec![], vec![], vec![], vec![], vec![]);
        for h in 0..3u32 {
            let ds = hash_len(h);
            dig.push(rec.blob(&hash(h, &self.chain)));
            let (ok, i, l, v) = vf.chain(&self.chain, ds, self.root);
            split_ok.push(ok);
            inter.push(nums(&i.iter().map(|x| rec.blob(x)).collect::<Vec<_>>()));
            leaf.push(rec.blob(&l));
            valid.push(v);
            let p = sig_pos(rsp, ds, self.nonce_len);
            pos.push(p.map_or(0, |p| p + 1));
            sig.push(p.map_or(false, |p| sig_valid(&l, &hash(h, &m2), &rsp[p..p + SS])));
        }
        format!("{{\"has\":true,\"dig\":{},\"split\":{},\"inter\":[{}],\"leaf\":{},\"valid\":{},\"pos\":{},\"sig\":{}}}",
            nums(&dig), nums(&split_ok), inter.join(","), nums(&leaf), nums(&valid), nums(&pos), nums(&sig))
    }
}
impl Verifier {
    pub fn new() -> Verifier { Verifier { chain_memo: HashMap::new() } }
    fn chain(&mut self, chain: &[u8], ds: usize, root: &[u8]) -> (bool, Vec<Vec<u8>>, Vec<u8>, bool) {
        let k = (chain.to_vec(), ds, root.to_vec());
        self.chain_memo.entry(k).or_insert_with(|| match split(chain, ds) {
            None => (false, vec![], vec![], false),
            Some((i, l)) => { let v = chain_valid(&i, &l, root); (true, i, l, v) }
        }).clone()
    }
}

/// Two peers of another session in this process, with chains and a root of their own.
/// They go on while the recorded ones do, call by call; nobody looks at them.
struct Bystanders { prov: Prov, root: &'static [u8], cfg_id: bool, r: Responder<'static, RecSigner>, q: Drive, msg: Vec<u8>, at: u8, left: usize, ids: usize, n: usize }
impl Bystanders {
    fn renew(&mut self) {
        self.n += 1;
        if self.n % 3 == 0 { self.r.reset() } else { self.r = Responder::new(fill(&self.prov, &Rc::new(SignCtx::default()))) }
        self.q = Drive::Auto(RequesterInit::new(self.root, [(); NUM_SLOTS].map(|_| None)));
        // some ask for other slots
        #[cfg(feature = "fields")]
        if self.n % 2 == 1 { self.q = Drive::Hand { st: spdm::requester::version::State {}.into(), tr: spdm::Transcript::new(), ask: None } }
        (self.at, self.ids, self.msg) = (0, 0, vec![]);
        // some give up early
        self.left = [3 * 7, 3 * 7, 14, 11, 8][self.n % 5];
    }
    fn choose(&mut self) {
        #[cfg(feature = "fields")]
        if let Drive::Hand { st, ask, .. } = &mut self.q {
            use spdm::requester::AllStates::*;
            if !matches!(st, IdAuth(_)) { return }
            let slots: Vec<u8> = (0..NUM_SLOTS as u8).filter(|s| s % 3 != 2).collect();
            match (self.ids, self.n / 2 % 2) {
                (0, 0) => *ask = None,
                (0, _) | (1, _) => *ask = Some(slots[(self.n / 2 + 1 + self.ids) % slots.len()]),
                _ => *st = match std::mem::replace(st, Error) { IdAuth(s) => spdm::requester::challenge::State::from(s).into(), x => x },
            }
            self.ids += 1;
        }
    }
    fn step(&mut self) {
        let mut buf = vec![0u8; 4096];
        if self.at == 0 { self.choose() }
        let ok = match self.at {
            0 => quiet(|| self.q.next_request(&mut buf).map(|m| m.to_vec())).flatten().map(|m| self.msg = m).is_some(),
            1 => quiet(|| { let (o, r) = self.r.handle_msg(&self.msg, &mut buf); r.ok().map(|_| o.to_vec()) }).flatten().map(|m| self.msg = m).is_some(),
            _ => quiet(|| self.q.handle_msg(&self.msg, self.cfg_id, self.root)).map_or(false, |r| matches!(r, Ok(false))),
        };
        self.at = (self.at + 1) % 3;
        self.left = self.left.saturating_sub(1);
        if !ok || self.left == 0 { self.renew() }
    }
}
thread_local! {
    static BY: RefCell<Option<Bystanders>> = RefCell::new(None);
    static BY_ON: Cell<bool> = Cell::new(false);
}
pub fn bystanders(certs: &Certs, cfg: &Cfg) {
    let mut rec = Rec::new(String::new());
    let root = certs.roots[1];
    let v = (0..cfg.nslots).map(|i| if i % 3 != 2 { Some(SlotP::of(&certs.get("evilok"), &certs.roots, 0)) } else { None }).collect();
    let prov = Prov::new(&mut rec, v);
    let r = Responder::new(fill(&prov, &Rc::new(SignCtx::default())));
    let q = Drive::Auto(RequesterInit::new(root, [(); NUM_SLOTS].map(|_| None)));
    BY.with(|b| *b.borrow_mut() = Some(Bystanders { prov, root, cfg_id: cfg.can_id(), r, q, msg: vec![], at: 0, left: 18, ids: 0, n: 0 }));
}
/// whether they take part from now on
pub fn with_bystanders(on: bool) { BY_ON.with(|b| b.set(on)) }
fn bystand() {
    if BY_ON.with(|b| b.get()) { BY.with(|b| if let Some(b) = b.borrow_mut().as_mut() { b.step() }) }
}
