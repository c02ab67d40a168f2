//! Shared machinery of the session drivers.
use crate::enc::*;
use crate::rec::*;
use crate::world::*;
use std::rc::Rc;

pub struct D {
    pub cfg: Cfg, pub certs: Certs, pub rec: Rec, pub rng: Rng, pub thorough: bool, pub vf: Verifier, pub need: usize,
    /// the nonces of the two peers, where they are chosen
    pub odd: (Vec<u8>, Vec<u8>),
}
/// enough for any message, but little of it is left in 16 or 8 bits
pub const BIG: usize = 65536 + 8;

#[derive(Clone, Copy, PartialEq)]
pub enum Ph { Version, Caps, Algs, Id, Id2, Chal, Chal2 }
pub const PHASES: [Ph; 7] = [Ph::Version, Ph::Caps, Ph::Algs, Ph::Id, Ph::Id2, Ph::Chal, Ph::Chal2];

impl D {
    pub fn new(cfg: Cfg, certs: Certs, seed: u64, thorough: bool) -> D {
        let rec = Rec::new(cfg.json.clone());
        let mut d = D { cfg, certs, rec, rng: Rng(seed), thorough, vf: Verifier::new(), need: 0, odd: (vec![], vec![]) };
        d.need = d.measure_need();
        d
    }
    // the size of our requester's NEGOTIATE_ALGORITHMS, which no property fixes
    fn measure_need(&mut self) -> usize {
        let mut scratch = Rec::new(String::new());
        scratch.begin("", 1, false, false);
        let mut q = Rq::new(self.certs.roots[0], &self.cfg, 0);
        let mut vf = Verifier::new();
        for rsp in [our_versions(), caps(12, self.cfg.caps)] {
            q.next(&mut scratch, 256);
            q.handle(&mut scratch, &rsp, &mut vf);
        }
        q.next(&mut scratch, 256).out.len()
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }

    /* ------------------------- provisionings --------------------------- */
    pub fn slot(&self, name: &str, h: u32) -> SlotP { SlotP::of(&self.certs.get(name), &self.certs.roots, h) }
    /// slots in `mask` hold the chains s0, s1, ...
    pub fn prov(&mut self, mask: u32, h: u32) -> Prov {
        let v = (0..self.cfg.nslots).map(|i| if mask >> i & 1 == 1 { Some(self.slot(&format!("s{}", i), h)) } else { None }).collect();
        Prov::new(&mut self.rec, v)
    }
    pub fn prov_with(&mut self, s: usize, p: SlotP) -> Prov {
        let mut v: Vec<Option<SlotP>> = vec![None; self.cfg.nslots];
        v[s] = Some(p);
        Prov::new(&mut self.rec, v)
    }
    /// small synthetic chains, distinct per slot
    pub fn tiny(&mut self, mask: u32, size: usize) -> Prov {
        let key = Rc::new(load_key(&self.certs.get("s0").key));
        let v = (0..self.cfg.nslots).map(|i| if mask >> i & 1 == 1 {
            Some(self.synthetic(i, size + i, &key))
        } else { None }).collect();
        Prov::new(&mut self.rec, v)
    }
    /// small synthetic chains of one size that have much in common
    pub fn alike(&mut self, mask: u32, size: usize, how: usize) -> Prov {
        let keys: Vec<_> = ["s0", "s1"].iter().map(|k| Rc::new(load_key(&self.certs.get(k).key))).collect();
        let v = (0..self.cfg.nslots).map(|i| if mask >> i & 1 == 1 {
            let key = &keys[i % 2];
            let mut s = self.synthetic(if how == 1 { i } else { 1 }, size, key);
            match how {
                0 => {}                                                              // the same
                1 => s.root = leak(vec![0x5a; 32].into_boxed_slice()),               // another leaf
                2 => s.root = leak(vec![i as u8; 32].into_boxed_slice()),            // another root
                3 => { let x = fake_der(8, i as u8); s.inter = vec![leak(x.into_boxed_slice())] }   // another intermediate
                4 => { let x = fake_der(8, (i / 2) as u8); s.inter = vec![leak(x.into_boxed_slice()); 1 + i % 2] }
                _ => { let mut x = s.leaf.to_vec(); let n = x.len(); x[n - 1] ^= i as u8; s.leaf = leak(x.into_boxed_slice()) }   // but for the last byte
            }
            Some(s)
        } else { None }).collect();
        Prov::new(&mut self.rec, v)
    }
    /// a container of exactly `size` bytes (at least 42) around one fake certificate
    pub fn synthetic(&self, tag: usize, size: usize, key: &Rc<ring::signature::EcdsaKeyPair>) -> SlotP {
        let n = size - 36;
        let der = fake_der(n, tag as u8);
        SlotP { root: leak(vec![tag as u8 ^ 0x5a; 32].into_boxed_slice()), inter: vec![], leaf: leak(der.into_boxed_slice()), key: key.clone() }
    }

    /* --------------------------- sequences ----------------------------- */
    pub fn nonce(&mut self) -> Vec<u8> { let n = self.cfg.nonce_len; self.rng.bytes(n) }
    pub fn m_caps(&self) -> Vec<u8> { get_caps(12, self.cfg.caps) }
    pub fn m_neg(&self, h: u32) -> Vec<u8> { neg(1, 0x10, 1 << h, &STRUCTS) }
    pub fn m_cert(&self, slot: u8) -> Vec<u8> { get_cert(slot, 0, self.cfg.chain_max as u16) }
    pub fn m_chal(&mut self, slot: u8) -> Vec<u8> { let n = self.nonce(); challenge(slot, 0, &n) }
    /// requests that lead a responder to a phase
    pub fn lead(&mut self, ph: Ph, h: u32, slot: u8) -> Vec<Vec<u8>> {
        let mut v = vec![];
        if ph == Ph::Version { return v }
        v.push(get_version());
        if ph == Ph::Caps { return v }
        v.push(self.m_caps());
        if ph == Ph::Algs { return v }
        v.push(self.m_neg(h));
        if ph == Ph::Id || !self.cfg.can_id() { return v }
        if ph == Ph::Id2 || ph == Ph::Chal { v.push(get_digests()); }
        if ph == Ph::Id2 { return v }
        v.push(self.m_cert(slot));
        if ph == Ph::Chal || !self.cfg.can_chal() { return v }
        let c = self.m_chal(slot);
        v.push(c);
        v
    }
    /// the next request a well behaved requester would send
    pub fn probe(&mut self, phase: &str, slot: u8) -> Vec<u8> {
        match phase {
            "Version" => get_version(), "Capabilities" => self.m_caps(), "Algorithms" => self.m_neg(0),
            "IdAuth" => self.m_cert(slot), _ => self.m_chal(slot),
        }
    }
    /// One session: lead to the phase, the message under test, one more step
    pub fn one(&mut self, label: &str, p: &Prov, ph: Ph, h: u32, slot: u8, msg: &[u8], cap: usize) {
        if self.rec.full() { return }
        self.rec.begin(label, p.id, false, false);
        let mut r = Rsp::new(p, false);
        let lead = self.lead(ph, h, slot);
        let mut ok = true;
        for m in lead { ok = ok && r.serve(&mut self.rec, &m, BIG).ok; }
        if ok {
            r.serve(&mut self.rec, msg, cap);
            if !r.dead {
                let p = r.phase();
                let m = if p == "Error" { get_version() } else { self.probe(p, slot) };
                r.serve(&mut self.rec, &m, BIG);
            }
        }
        self.rec.end();
    }

    /* ------------------------- our own responder ----------------------- */
    /// A responder that plays by the rules, to lead a requester to a phase
    pub fn honest_rsp(&self, tr: &[u8], phase: &str, has_digests: bool, h: u32, chain: &[u8], key: &ring::signature::EcdsaKeyPair, nonce: &[u8]) -> Vec<u8> {
        let mask = 1u8;
        match phase {
            "Version" => our_versions(),
            "Capabilities" => caps(12, self.cfg.caps),
            "Algorithms" => algs(1, 1 << h, 0x10, 1 << h, &SELECTED),
            "IdAuth" if !has_digests => digests(mask, &[hash(h, chain)]),
            "IdAuth" => certificate(0, 0, chain),
            _ => {
                let a = auth(0, mask, &hash(h, chain), nonce, &vec![0; hash_len(h)], &opaque(&[]));
                sign_auth(tr, a, h, key)
            }
        }
    }
    /// lead a requester to the point where it has written the request of phase `ph`
    pub fn lead_rq(&mut self, q: &mut Rq, ph: Ph, h: u32, chain: &[u8]) -> bool {
        let key = load_key(&self.certs.get("s0").key);
        let order = [Ph::Version, Ph::Caps, Ph::Algs, Ph::Id, Ph::Id2, Ph::Chal];
        for (i, p) in order.iter().enumerate() {
            let has = i == 4;
            let name = q.phase();
            let want = ["Version", "Capabilities", "Algorithms", "IdAuth", "IdAuth", "Challenge"][i];
            if name != want { return false }
            if !q.next(&mut self.rec, BIG).ok { return false }
            if *p == ph { return true }
            let n = self.nonce();
            let tr = q.tr.clone();
            let rsp = self.honest_rsp(&tr, name, has, h, chain, &key, &n);
            let r = q.handle(&mut self.rec, &rsp, &mut self.vf);
            if r != "ok" { return false }
        }
        false
    }
    pub fn one_rq(&mut self, label: &str, ph: Ph, h: u32, root: usize, chain: &[u8], f: impl FnOnce(&mut D, &mut Rq) -> Vec<u8>) {
        if self.rec.full() { return }
        let p = self.prov(0, 0);
        self.rec.begin(label, p.id, false, false);
        let mut q = Rq::new(self.certs.roots[root], &self.cfg, self.need);
        if self.lead_rq(&mut q, ph, h, chain) {
            let rsp = f(self, &mut q);
            let r = q.handle(&mut self.rec, &rsp, &mut self.vf);
            if r == "ok" || r == "done" || r == "err" {
                q.next(&mut self.rec, BIG);
            }
        }
        self.rec.end();
    }
}
pub fn sign_auth(tr: &[u8], mut a: Vec<u8>, h: u32, key: &ring::signature::EcdsaKeyPair) -> Vec<u8> {
    let mut m = tr.to_vec();
    m.extend_from_slice(&a);
    let s = sign_class(key, &hash(h, &m), None);
    a.extend_from_slice(&s);
    a
}
/// a DER sequence of exactly n bytes (n >= 2, and not one of the two sizes DER cannot express)
pub fn fake_der(n: usize, tag: u8) -> Vec<u8> {
    let mut v = vec![0x30];
    if n < 130 { v.push((n - 2) as u8) }
    else if n < 259 { v.push(0x81); v.push((n - 3) as u8) }
    else { v.push(0x82); v.push(((n - 4) >> 8) as u8); v.push((n - 4) as u8) }
    while v.len() < n { let k = v.len(); v.push(tag.wrapping_mul(17).wrapping_add(k as u8)) }
    v.truncate(n);
    v
}
