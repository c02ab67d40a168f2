//! Sessions with the real requester, against messages of our own.
use crate::drv::*;
use crate::enc::*;
use crate::world::*;

pub const RQ_PHASES: [Ph; 6] = [Ph::Version, Ph::Caps, Ph::Algs, Ph::Id, Ph::Id2, Ph::Chal];

/// how a CHALLENGE_AUTH is made
#[derive(Clone)]
pub struct Auth {
    pub slot: u8, pub mask: u8, pub digest: Option<Vec<u8>>, pub meas: Option<Vec<u8>>, pub nonce: Option<Vec<u8>>,
    pub opaque: Vec<u8>, pub tail: Vec<u8>, pub opaque_len: Option<usize>,
}
impl Auth {
    pub fn new() -> Auth { Auth { slot: 0, mask: 1, digest: None, meas: None, nonce: None, opaque: opaque(&[]), tail: vec![], opaque_len: None } }
    pub fn bytes(&self, d: &mut D, h: u32, chain: &[u8]) -> Vec<u8> {
        let n = d.nonce();
        let mut a = auth(self.slot, self.mask, &self.digest.clone().unwrap_or(hash(h, chain)), self.nonce.as_ref().unwrap_or(&n),
             self.meas.as_ref().unwrap_or(&vec![0; hash_len(h)]), &self.opaque);
        if let Some(l) = self.opaque_len { let i = a.len() - self.opaque.len() - 2; a[i..i + 2].copy_from_slice(&le16(l)); }
        a
    }
}

impl D {
    pub fn tiny_chain(&mut self) -> Vec<u8> { chain_bytes(&[7; 32], &[], &fake_der(30, 3)) }
    pub fn real_chain(&mut self, name: &str, h: u32) -> (Vec<u8>, Vec<u8>) {
        let c = self.certs.get(name);
        (SlotP::of(&c, &self.certs.roots, h).bytes(), c.key)
    }
    fn all_responses(&mut self, h: u32, chain: &[u8]) -> Vec<Vec<u8>> {
        let n = self.nonce();
        let mut sig = auth(0, 1, &hash(h, chain), &n, &vec![0; hash_len(h)], &opaque(&[]));
        sig.extend(self.rng.bytes(64));
        vec![our_versions(), caps(12, self.cfg.caps), algs(1, 1 << h, 0x10, 1 << h, &SELECTED), digests(1, &[hash(h, chain)]),
             certificate(0, 0, chain), sig]
    }
    fn own_response(&mut self, q: &Rq, ph: Ph, h: u32, chain: &[u8]) -> Vec<u8> {
        let key = load_key(&self.certs.get("s0").key);
        let n = self.nonce();
        let name = ["Version", "Capabilities", "Algorithms", "IdAuth", "IdAuth", "Challenge"][RQ_PHASES.iter().position(|x| *x == ph).unwrap()];
        self.honest_rsp(&q.tr, name, ph == Ph::Id2, h, chain, &key, &n)
    }
    /// every type of response, code and version, in every phase
    pub fn req_phase(&mut self) {
        let tiny = self.tiny_chain();
        let (real, _) = self.real_chain("s0", 0);
        for ph in RQ_PHASES {
            let chain = if ph == Ph::Chal { real.clone() } else { tiny.clone() };
            for m in self.all_responses(0, &chain) {
                self.one_rq("type", ph, 0, 0, &chain, |_, _| m.clone());
                for v in [0u8, 0x0f, 0x10, 0x11, 0x12, 0x13, 0xff] {
                    if m[0] == v { continue }
                    let mut x = m.clone();
                    x[0] = v;
                    self.one_rq("version", ph, 0, 0, &chain, |_, _| x.clone());
                }
            }
            for c in 0..=255u8 {
                if !self.thorough && c % 5 != 1 && ![0x04, 0x61, 0x63, 0x01, 0x02, 0x03, 0x60, 0x7f, 0x84, 0xe1, 0xe3, 0x81, 0x82, 0x83].contains(&c) { continue }
                self.one_rq("code", ph, 0, 0, &chain, |d, q| { let mut m = d.own_response(q, ph, 0, &chain); m[1] = c; m });
            }
            for m in [vec![], vec![0x11], vec![0x10, 4], vec![0x11, 3], vec![0x12, 0x7f, 1, 0], vec![0x12, 0x7f, 3, 0], get_version(),
                      get_digests(), vec![0x11, 0x01, 0], vec![0x11, 0x02, 0], vec![0x11, 0x03, 0]] {
                self.one_rq("short", ph, 0, 0, &chain, |_, _| m.clone());
            }
            // the request of the peer sent back; the previous response again
            self.one_rq("echo", ph, 0, 0, &chain, |_, q| q.tr[q.tr.len().saturating_sub(4)..].to_vec());
        }
    }
    pub fn req_wire(&mut self) {
        let tiny = self.tiny_chain();
        let (real, _) = self.real_chain("s0", 0);
        for ph in RQ_PHASES {
            let chain = if ph == Ph::Chal { real.clone() } else { tiny.clone() };
            let n = if ph == Ph::Chal { 4 + 64 + self.cfg.nonce_len + 2 + 4 + 64 } else { 44 };
            for k in 0..n {
                if ph == Ph::Chal && !self.thorough && k % 6 != 0 && k < n - 70 { continue }
                self.one_rq("trunc", ph, 0, 0, &chain, |d, q| { let mut m = d.own_response(q, ph, 0, &chain); if k < m.len() { m.truncate(k) } m });
            }
            for k in [1usize, 2, 63, 64, 65, 200] {
                self.one_rq("extend", ph, 0, 0, &chain, |d, q| { let mut m = d.own_response(q, ph, 0, &chain); m.extend(vec![0; k]); m });
                self.one_rq("extend", ph, 0, 0, &chain, |d, q| { let mut m = d.own_response(q, ph, 0, &chain); m.extend(d.rng.bytes(k)); m });
            }
            for bit in 0..8 * n {
                if !self.thorough && ph == Ph::Chal && bit > 48 && bit % 7 != 0 { continue }
                self.one_rq("flip", ph, 0, 0, &chain, |d, q| {
                    let mut m = d.own_response(q, ph, 0, &chain);
                    if bit / 8 < m.len() { m[bit / 8] ^= 1 << (bit % 8) }
                    m
                });
            }
            for _ in 0..self.n(30, 300) {
                self.one_rq("mutate", ph, 0, 0, &chain, |d, q| {
                    let mut m = d.own_response(q, ph, 0, &chain);
                    for _ in 0..1 + d.rng.below(3) { let i = d.rng.below(m.len()); m[i] = d.rng.byte() }
                    if d.rng.chance(1, 4) { let k = d.rng.below(m.len()); m.truncate(k) }
                    m
                });
            }
        }
    }
    pub fn req_version(&mut self) {
        let c = self.tiny_chain();
        let near: Vec<[u8; 4]> = vec![[1, 0, 0, 0], [1, 1, 0, 0], [1, 2, 0, 0], [2, 0, 0, 0], [0, 9, 0, 0], [1, 1, 1, 0], [1, 1, 0, 1], [1, 0, 0, 1],
            [1, 0, 1, 0], [0, 0, 0, 0], [15, 15, 15, 15], [2, 1, 0, 0], [0, 1, 0, 0], [1, 15, 0, 0], [1, 1, 15, 15], [0, 1, 1, 0]];
        let mut lists: Vec<Vec<[u8; 4]>> = vec![vec![]];
        for a in &near { lists.push(vec![*a]); for b in &near { lists.push(vec![*a, *b]); } }
        for _ in 0..self.n(100, 1500) {
            let n = 1 + self.rng.below(3);
            let l = (0..n).map(|_| if self.rng.chance(1, 2) { *self.rng.pick(&near) } else { let x = self.rng.next(); [x as u8 & 15, (x >> 8) as u8 & 15, (x >> 16) as u8 & 1, (x >> 24) as u8 & 1] }).collect();
            lists.push(l);
        }
        for a in 0..=15u8 { for b in 0..=15u8 { lists.push(vec![[a, b, 0, 0], [1, 0, 0, 0]]) } }
        for x in [0u8, 1, 2, 15] { for i in 0..4 { let mut e = [1, 1, 0, 0]; e[i] = x; lists.push(vec![e]); lists.push(vec![[1, 0, 0, 0], e]); let mut e = [1, 0, 0, 0]; e[i] = x; lists.push(vec![e]); } }
        for l in lists {
            self.one_rq("versions", Ph::Version, 0, 0, &c, |_, _| version(&l));
        }
        for n in 0..=255u8 {
            self.one_rq("count", Ph::Version, 0, 0, &c, |_, _| { let mut m = our_versions(); m[5] = n; m });
            self.one_rq("count", Ph::Version, 0, 0, &c, |_, _| { let mut m = our_versions(); m[5] = n; m.extend(vec![0x11; 40]); m });
        }
        for n in 3..6usize { self.one_rq("many", Ph::Version, 0, 0, &c, |_, _| version(&vec![[1, 1, 0, 0]; n])) }
    }
    pub fn req_caps(&mut self) {
        let c = self.tiny_chain();
        let mut words: Vec<u32> = (0..32).map(|b| 1u32 << b).collect();
        for b in 0..32 { words.push(0xffff_ffff ^ (1 << b)) }
        for a in [1u32, 2] { for b in 0..17 { words.push(1 << a | 1 << b); words.push(6 | 1 << b) } }
        words.extend([0, 2, 4, 6, self.cfg.caps, 0x1ffff, 0xffff_ffff, 0x18, 0x1e]);
        for _ in 0..self.n(60, 600) { words.push(self.rng.next() as u32 & 0x1ffff) }
        for w in words {
            let ct = self.rng.byte();
            // go on to the end, to see which steps follow
            let p = self.prov(0, 0);
            self.rec.begin("caps", p.id, false, false);
            let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
            if self.lead_rq(&mut q, Ph::Caps, 0, &c) {
                q.handle(&mut self.rec, &caps(ct, w), &mut self.vf);
                for i in 0..3 {
                    if q.phase() == "Error" { break }
                    if !q.next(&mut self.rec, BIG).ok { break }
                    let ph = q.phase().to_string();
                    if ph == "Challenge" { break }
                    let key = load_key(&self.certs.get("s0").key);
                    let m = self.honest_rsp(&q.tr.clone(), &ph, i == 2, 0, &c, &key, &[]);
                    q.handle(&mut self.rec, &m, &mut self.vf);
                }
                if q.phase() == "NewSession" { q.next(&mut self.rec, BIG); }
            }
            self.rec.end();
        }
        for ct in 0..=255u8 { let f = self.cfg.caps; self.one_rq("ct", Ph::Caps, 0, 0, &c, |_, _| caps(ct, f)) }
    }
    pub fn req_algs(&mut self) {
        let c = self.tiny_chain();
        for h in 0..8u32 { for a in 0..10u32 { for m in 0..8u32 {
            if !self.thorough && (h * 7 + a * 3 + m) % 4 != 0 && !(h < 3 && a == 4) { continue }
            self.one_rq("select", Ph::Algs, 0, 0, &c, |_, _| algs(1, 1 << m, 1 << a, 1 << h, &[]));
        } } }
        for x in 0..256u32 { // several or none
            self.one_rq("hashes", Ph::Algs, 0, 0, &c, |_, _| algs(1, 1, 0x10, x & 0x3f, &SELECTED[..2]));
            self.one_rq("mhashes", Ph::Algs, 0, 0, &c, |_, _| algs(1, x & 0x3f, 0x10, 1, &SELECTED[..2]));
            self.one_rq("asyms", Ph::Algs, 0, 0, &c, |_, _| algs(1, 1, x << 1, 1, &[]));
            self.one_rq("mspec", Ph::Algs, 0, 0, &c, |_, _| algs(x as u8, 1, 0x10, 1, &[]));
        }
        for t in 0..=7u8 { for b in 0..16 {
            self.one_rq("struct", Ph::Algs, 0, 0, &c, |_, _| algs(1, 1, 0x10, 1, &[(t, 1 << b)]));
            self.one_rq("struct", Ph::Algs, 0, 0, &c, |_, _| algs(1, 1, 0x10, 1, &[(3, 2), (t, 1 << b)]));
        }
            for sel in 0..512u16 { if sel.count_ones() != 1 && (self.thorough || sel < 64 && sel % 3 == 0) { self.one_rq("struct", Ph::Algs, 0, 0, &c, |_, _| algs(1, 1, 0x10, 1, &[(t, sel)])); } }
        }
        for n in 0..=6usize { for _ in 0..self.n(20, 200) {
            let v: Vec<St> = (0..n).map(|_| { let t = 2 + self.rng.below(4) as u8; let o = [0x12u16, 6, 0x90, 1][t as usize - 2];
                let bits: Vec<u16> = (0..9).map(|b| 1u16 << b).filter(|b| o & b != 0 || self.rng.chance(1, 20)).collect();
                (t, *self.rng.pick(&bits)) }).collect();
            self.one_rq("structs", Ph::Algs, 0, 0, &c, |_, _| algs(1, 1, 0x10, 1, &v));
        } }
        for n in 0..=255u8 { self.one_rq("count", Ph::Algs, 0, 0, &c, |_, _| { let mut m = algs(1, 1, 0x10, 1, &SELECTED); m[2] = n; m }) }
        for i in 0..36 { for b in [1u8, 0x80, 0xff] {
            self.one_rq("byte", Ph::Algs, 0, 0, &c, |_, _| { let mut m = algs(1, 1, 0x10, 1, &SELECTED); m[i] = b; m })
        } }
        for fc in 0..=255u8 { self.one_rq("fixed", Ph::Algs, 0, 0, &c, |_, _| { let mut m = algs(1, 1, 0x10, 1, &SELECTED[..2]); m[37] = fc; m.extend_from_slice(&[0; 64]); m }) }
        for l in [0usize, 35, 36, 37, 52, 128, 129, 0xffff] { self.one_rq("length", Ph::Algs, 0, 0, &c, |_, _| { let mut m = algs(1, 1, 0x10, 1, &SELECTED); m[4..6].copy_from_slice(&le16(l)); m }) }
        // the identification step under each selected hash
        for h in self.cfg.hashes() { for mh in self.cfg.hashes() {
            let ph = Ph::Id2;
            let p = self.prov(0, 0);
            self.rec.begin("hash used", p.id, false, false);
            let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
            if self.lead_rq(&mut q, Ph::Algs, 0, &c) {
                q.handle(&mut self.rec, &algs(1, 1 << mh, 0x10, 1 << h, &SELECTED[..3]), &mut self.vf);
                if q.next(&mut self.rec, BIG).ok {
                    let d: Vec<Vec<u8>> = (0..3).map(|i| hash(h, &[i])).collect();
                    q.handle(&mut self.rec, &digests(7 & ((1u16 << self.cfg.nslots) - 1) as u8, &d), &mut self.vf);
                    q.next(&mut self.rec, BIG);
                }
            }
            let _ = ph;
            self.rec.end();
        } }
    }
    /// digests and certificates of every shape
    pub fn req_id(&mut self) {
        let c = self.tiny_chain();
        let ns = self.cfg.nslots;
        for h in self.cfg.hashes() {
            for mask in 0..=255u8 {
                if !self.thorough && h > 0 && mask % 3 != 0 && mask < 250 { continue }
                let n = (mask as u32 & ((1 << ns) - 1)).count_ones() as usize;
                let d: Vec<Vec<u8>> = (0..n).map(|i| hash(h, &[i as u8, mask])).collect();
                self.one_rq("digests", Ph::Id, h, 0, &c, |_, _| digests(mask, &d));
                if n > 0 { self.one_rq("digests short", Ph::Id, h, 0, &c, |_, _| { let mut m = digests(mask, &d); m.pop(); m }); }
                if mask % 8 == 0 {
                    let all: Vec<Vec<u8>> = (0..mask.count_ones()).map(|i| hash(h, &[i as u8, mask, 1])).collect();
                    self.one_rq("digests all", Ph::Id, h, 0, &c, |_, _| digests(mask, &all));
                }
            }
        }
        for s in 0..=255u8 { self.one_rq("cert slot", Ph::Id2, 0, 0, &c, |_, _| certificate(s, 0, &c)) }
        for rem in [1u16, 2, 256, 0xffff] { self.one_rq("remainder", Ph::Id2, 0, 0, &c, |_, _| certificate(0, rem, &c)) }
        let cm = self.cfg.chain_max;
        for n in [0usize, 1, 2, 3, 35, 36, 37, 100, 255, 256, cm - 1, cm, cm + 1, cm + 2, cm + 200, 65535] {
            if n > 65535 { continue }
            let b = self.rng.bytes(n);
            self.one_rq("portion", Ph::Id2, 0, 0, &c, |_, _| certificate(0, 0, &b));
            if n > 0 { self.one_rq("portion short", Ph::Id2, 0, 0, &c, |_, _| { let mut m = certificate(0, 0, &b); m.pop(); m }); }
            self.one_rq("portion long", Ph::Id2, 0, 0, &c, |_, _| { let mut m = certificate(0, 0, &b); m.push(9); m });
        }
        for n in [0usize, 4, 72, 73, 255, 256, 0x100 + c.len(), 0xff00 | c.len(), 65535] {
            self.one_rq("announced", Ph::Id2, 0, 0, &c, |_, _| { let mut m = certificate(0, 0, &c); m[4..6].copy_from_slice(&le16(n)); m });
        }
    }
    /// CHALLENGE_AUTH: everything that may be wrong with it
    pub fn req_auth(&mut self) {
        if !self.cfg.can_chal() { return }
        let hs = self.cfg.hashes();
        for h in hs.clone() {
            for (name, root) in [("s0", 0usize), ("d0", 0), ("d1", 0), ("d2", 0), ("d3", 0), ("d4", 0), ("d5", 0), ("d6", 0),
                         ("evil", 0), ("evilok", 1), ("samename", 0), ("samename", 2), ("s0", 1), ("s0", 2), ("wronglink", 0), ("nointer", 0), ("extrainter", 0),
                         ("expired", 0), ("notyet", 0), ("interexpired", 0), ("nonca", 0), ("pathlen", 0), ("caleaf", 0), ("clientonly", 0),
                         ("leafp384", 0), ("selfsigned", 0), ("x1023", 0), ("x1024", 0), ("x1025", 0)] {
                let (chain, key) = self.real_chain(name, h);
                if chain.len() > self.cfg.chain_max { continue }
                if h > 0 && !self.thorough && !["s0", "d0", "evil", "expired"].contains(&name) { continue }
                let key = load_key(&key);
                self.one_rq("chain", Ph::Chal, h, root, &chain, |d, q| { let a = Auth::new().bytes(d, h, &chain); sign_auth(&q.tr, a, h, &key) });
            }
        }
        // a chain that was fine a moment ago, or nearly; for this root, or for another
        for h in hs.clone() { for (before, name, roots) in [("s0", "s0", (0, 1)), ("s0", "s0", (0, 2)), ("evilok", "evilok", (1, 0)), ("d2", "d2", (0, 1)), ("d3", "wronglink", (0, 0)), ("d1", "nointer", (0, 0)),
                ("s0", "expired", (0, 0)), ("s0", "evil", (0, 0)), ("evilok", "evil", (1, 0)), ("s0", "samename", (0, 0)), ("samename", "samename", (2, 0)), ("s0", "selfsigned", (0, 0)), ("s0", "pathlen", (0, 0)), ("s1", "s0", (0, 1))] {
            let r2 = [(before, roots.0), (name, roots.1), (before, roots.0), (before, roots.0), (name, roots.1)];
            for (k, (n, root)) in r2.into_iter().enumerate() {
                let (chain, key) = self.real_chain(n, h);
                if chain.len() > self.cfg.chain_max { continue }
                let key = load_key(&key);
                // the last time: the part that was fine, but for its signature
                let mut chain = chain;
                if k == 4 { let x = chain.len() - 1 - self.rng.below(40); chain[x] ^= 1 }
                self.one_rq("chain after a chain", Ph::Chal, h, root, &chain, |d, q| { let a = Auth::new().bytes(d, h, &chain); sign_auth(&q.tr, a, h, &key) });
            }
        } }
        let other = load_key(&self.certs.get("s1").key);
        for h in hs {
            let (chain, key) = self.real_chain("s0", h);
            let key = load_key(&key);
            let go = |d: &mut D, label: &str, a: Auth| d.one_rq(label, Ph::Chal, h, 0, &chain, |d, q| { let b = a.bytes(d, h, &chain); let mut m = sign_auth(&q.tr, b, h, &key); m.extend_from_slice(&a.tail); m });
            let all = h == 0 || self.thorough;
            // slots and masks
            for s in 0..=255u8 { if all || s % 16 < 9 && s < 32 { go(self, "slot", Auth { slot: s, ..Auth::new() }) } }
            for m in 0..=255u8 { if all || m % 7 < 2 { go(self, "mask", Auth { mask: m, ..Auth::new() }) } }
            for s in 0..8u8 { go(self, "slot and mask", Auth { slot: s, mask: 1 << s, ..Auth::new() }); go(self, "slot and mask", Auth { slot: s, mask: 1 | 1 << s, ..Auth::new() }) }
            go(self, "provisioned", Auth { slot: 0x0f, mask: 0, ..Auth::new() });
            // digests
            let good = hash(h, &chain);
            let mut forged = vec![vec![0; good.len()], hash(h, &chain[4..]), hash(h, b""), hash(h, &[&chain[..], &[0]].concat()),
                                  (0..good.len()).map(|i| good[(i + 1) % good.len()]).collect()];
            for i in [0, 1, good.len() / 2, good.len() - 2, good.len() - 1] { for b in [0, 7] { let mut x = good.clone(); x[i] ^= 1 << b; forged.push(x) } }
            for f in forged { go(self, "digest", Auth { digest: Some(f), ..Auth::new() }) }
            // what the requester has to ignore
            go(self, "measurements", Auth { meas: Some(vec![0x5a; hash_len(h)]), ..Auth::new() });
            // opaque data
            for r in 0..=9u8 { for k in [0usize, 1, 2, 3, 16, 17, 200] {
                if !all && k > 2 { continue }
                let e = element(r, &vec![0xcc; vendor_len(r)], &vec![0xdd; k]);
                let o = opaque(&[e]);
                go(self, "opaque", Auth { opaque: o, ..Auth::new() });
            } }
            for n in 0..5usize { let o = opaque(&vec![element(0, &[], &[1, 2, 3]); n]); go(self, "opaques", Auth { opaque: o, ..Auth::new() }) }
            for l in [0usize, 3, 4, 5, 64, 1023, 1024, 1025, 0xffff] { go(self, "opaque length", Auth { opaque_len: Some(l), ..Auth::new() }) }
            let mut e = element(1, &[1, 2], &[1, 2, 3, 4, 5]);
            let k = e.len() - 1;
            e[k] = 1;
            go(self, "opaque pad", Auth { opaque: opaque(&[e]), ..Auth::new() });
            go(self, "opaque reserved", Auth { opaque: vec![0, 1, 0, 0], ..Auth::new() });
            go(self, "tail", Auth { tail: vec![0], ..Auth::new() });
            go(self, "tail", Auth { tail: vec![0x33; 64], ..Auth::new() });
            // signatures
            let h2 = (h + 1) % 3;
            type F<'a> = Box<dyn Fn(&mut D, &[u8], Vec<u8>) -> Vec<u8> + 'a>;
            let with = |s: Vec<u8>, a: &[u8]| { let mut v = a.to_vec(); v.extend(s); v };
            let (key, other) = (&key, &other);
            let fs: Vec<(&str, F)> = vec![
                ("wrong key", Box::new(|_, t, a| sign_auth(t, a, h, other))),
                ("wrong hash", Box::new(move |_, t, a| sign_auth(t, a, h2, key))),
                ("old transcript", Box::new(|_, t, a| sign_auth(&t[..t.len() - 4], a, h, key))),
                ("without request", Box::new(|_, t, a| sign_auth(&t[..t.len().saturating_sub(36)], a, h, key))),
                ("transcript only", Box::new(move |_, t, a| { let s = sign_class(key, &hash(h, t), None); with(s, &a) })),
                ("message only", Box::new(|_, _, a| sign_auth(&[], a, h, key))),
                ("undigested", Box::new(move |_, t, a| { let mut m = t.to_vec(); m.extend_from_slice(&a); let s = sign_class(key, &m, None); with(s, &a) })),
                ("zeros", Box::new(move |_, _, a| with(vec![0; 64], &a))),
                ("r zero", Box::new(move |_, t, a| { let mut v = sign_auth(t, a, h, key); let n = v.len(); for x in &mut v[n - 64..n - 32] { *x = 0 } v })),
                ("s zero", Box::new(move |_, t, a| { let mut v = sign_auth(t, a, h, key); let n = v.len(); for x in &mut v[n - 32..] { *x = 0 } v })),
                ("ones", Box::new(move |_, _, a| with(vec![0xff; 64], &a))),
                ("swapped", Box::new(move |_, t, a| { let mut v = sign_auth(t, a, h, key); let n = v.len(); let (r, s) = (v[n - 64..n - 32].to_vec(), v[n - 32..].to_vec()); v[n - 64..n - 32].copy_from_slice(&s); v[n - 32..].copy_from_slice(&r); v })),
                ("random", Box::new(move |d, _, a| { let s = d.rng.bytes(64); with(s, &a) })),
                ("nonce altered", Box::new(move |d, t, a| { let mut v = sign_auth(t, a, h, key); let i = 4 + hash_len(h) + d.rng.below(32); v[i] ^= 4; v })),
                ("meas altered", Box::new(move |d, t, a| { let mut v = sign_auth(t, a, h, key); let i = 4 + hash_len(h) + 32 + d.rng.below(hash_len(h)); v[i] ^= 4; v })),
                ("slot byte altered", Box::new(move |_, t, a| { let mut v = sign_auth(t, a, h, key); v[2] ^= 0x80; v })),
                ("mask altered", Box::new(move |_, t, a| { let mut v = sign_auth(t, a, h, key); v[3] ^= 0x10; v })),
                ("der", Box::new(move |_, t, a| { let mut v = sign_auth(t, a, h, key); let k = v.len() - 64; let mut s = vec![0x30, 0x44, 2, 32]; s.extend_from_slice(&v[k..]); v.truncate(k); v.extend_from_slice(&s[..64]); v })),
            ];
            for (n, f) in &fs {
                self.one_rq(n, Ph::Chal, h, 0, &chain, |d, q| { let a = Auth::new().bytes(d, h, &chain); let t = q.tr.clone(); f(d, &t, a) });
            }
            for bit in 0..512 {
                if !all && bit % 16 != 0 { continue }
                if !self.thorough && bit % 3 != 0 { continue }
                self.one_rq("signature bit", Ph::Chal, h, 0, &chain, |d, q| { let a = Auth::new().bytes(d, h, &chain); let mut v = sign_auth(&q.tr, a, h, key); let n = v.len() - 64; v[n + bit / 8] ^= 1 << (bit % 8); v });
            }
            // signed over a part of what was said, or over more, or in another order
            let how = if all { 1 } else { 5 };
            for k in 0.. {
                let mut more = true;
                if k % how == 0 {
                    let p = self.prov(0, 0);
                    self.rec.begin("signed over another conversation", p.id, false, false);
                    more = self.other_talk(k, h, &chain, key);
                    self.rec.end();
                }
                if !more || k > 1000 { break }
            }
            // the challenge asked again: an answer to the first one
            self.one_rq("answer to an earlier challenge", Ph::Chal, h, 0, &chain, |d, q| {
                let t1 = q.tr.clone();
                let a = Auth::new().bytes(d, h, &chain);
                let m = sign_auth(&t1, a, h, key);
                q.next(&mut d.rec, BIG);
                m
            });
            self.one_rq("answer to two challenges", Ph::Chal, h, 0, &chain, |d, q| {
                q.next(&mut d.rec, BIG);
                let a = Auth::new().bytes(d, h, &chain);
                sign_auth(&q.tr.clone(), a, h, key)
            });
            // an answer of another session
            let mut old: Option<Vec<u8>> = None;
            for _ in 0..2 {
                let o = old.clone();
                let mut made = None;
                self.one_rq("replay", Ph::Chal, h, 0, &chain, |d, q| {
                    let a = Auth::new().bytes(d, h, &chain);
                    let m = sign_auth(&q.tr.clone(), a, h, key);
                    made = Some(m.clone());
                    o.unwrap_or(m)
                });
                old = made;
            }
        }
        // malformed containers, as received
        let (chain, key) = self.real_chain("s0", 0);
        let key = load_key(&key);
        let mut bads: Vec<Vec<u8>> = vec![];
        for d in [-4i32, -1, 1, 2, 256] { let mut x = chain.clone(); let n = (x.len() as i32 + d) as usize; x[..2].copy_from_slice(&le16(n)); bads.push(x) }
        for i in [2usize, 3] { let mut x = chain.clone(); x[i] = 1; bads.push(x) }
        for i in 36..44 { for b in [0x80u8, 1, 0xff] { let mut x = chain.clone(); x[i] ^= b; bads.push(x) } }
        for tail in [vec![0u8], vec![0x30], vec![0x30, 0], vec![0x30, 1, 0], vec![0x30, 0x80], vec![0x30, 0x81, 0x80], vec![0x30, 0x82, 1, 0], vec![0x31, 0]] {
            let mut x = chain.clone(); x.extend(tail); let n = x.len(); x[..2].copy_from_slice(&le16(n)); bads.push(x)
        }
        for n in [0usize, 1, 2, 4, 35, 36, 37, 38, 40, 60, 100, 400] { let mut x = chain[..n].to_vec(); if n > 1 { x[..2].copy_from_slice(&le16(n)) } bads.push(x) }
        { let mut x = chain.clone(); x[4] ^= 1; bads.push(x) } // another root digest: fine
        // a certificate of every cert in another order
        let c = self.certs.get("d2");
        let r = hash(0, self.certs.roots[0]);
        bads.push(chain_bytes(&r, &[c.inter[1], c.inter[0]], c.leaf));
        bads.push(chain_bytes(&r, &[c.inter[0], c.leaf], c.inter[1]));
        bads.push(chain_bytes(&r, &[], c.inter[0]));
        bads.push(chain_bytes(&r, &[c.inter[0]], c.inter[1]));
        let s0 = self.certs.get("s0");
        bads.push(chain_bytes(&r, &[s0.inter[0], s0.inter[0]], s0.leaf));
        // the root itself, or what it issued, beside a leaf it did not issue
        let evil = self.certs.get("evil");
        let ekey = load_key(&evil.key);
        let (root, eroot) = (self.certs.roots[0], self.certs.roots[1]);
        let tops: Vec<Vec<&[u8]>> = vec![vec![root], vec![eroot], vec![root, root], vec![root, s0.inter[0]], vec![s0.inter[0]], vec![s0.leaf], vec![s0.inter[0], s0.leaf],
            vec![root, evil.inter[0]], vec![evil.inter[0], root], vec![eroot, evil.inter[0]], vec![s0.inter[0], evil.inter[0]], vec![evil.inter[0], s0.inter[0]], vec![root, s0.inter[0], evil.inter[0]], vec![evil.leaf], vec![evil.inter[0], evil.leaf]];
        for t in &tops { for digest in [r.clone(), hash(0, eroot), vec![0; 32]] {
            let b = chain_bytes(&digest, t, evil.leaf);
            if t.len() > self.cfg.depth || b.len() > self.cfg.chain_max { continue }
            self.one_rq("foreign leaf", Ph::Chal, 0, 0, &b, |d, q| { let a = Auth::new().bytes(d, 0, &b); sign_auth(&q.tr.clone(), a, 0, &ekey) });
        }
            // and beside one it did
            let b = chain_bytes(&r, t, s0.leaf);
            if t.len() > self.cfg.depth || b.len() > self.cfg.chain_max { continue }
            for k in [&key, &ekey] { self.one_rq("own leaf", Ph::Chal, 0, 0, &b, |d, q| { let a = Auth::new().bytes(d, 0, &b); sign_auth(&q.tr.clone(), a, 0, k) }); }
        }
        // signed by a certificate above the leaf
        for (name, root) in [("byinter", 4usize), ("byinter2", 4), ("byroot", 4), ("byroot0", 4), ("rootleaf", 4), ("byleaf", 4)] { for h in self.cfg.hashes() {
            let (b, key) = self.real_chain(name, h);
            if b.len() > self.cfg.chain_max || self.certs.get(name).inter.len() > self.cfg.depth { continue }
            let key = load_key(&key);
            self.one_rq("signed above the leaf", Ph::Chal, h, root, &b, |d, q| { let a = Auth::new().bytes(d, h, &b); sign_auth(&q.tr.clone(), a, h, &key) });
        } }
        // more certificates than allowed, small ones
        for k in [self.cfg.depth - 1, self.cfg.depth, self.cfg.depth + 1, self.cfg.depth + 2, 20] {
            let junk = fake_der(5, 1);
            let mut v: Vec<&[u8]> = vec![&junk; k.saturating_sub(1)];
            v.push(s0.inter[0]);
            bads.push(chain_bytes(&r, &v, s0.leaf));
        }
        for b in bads {
            if b.len() > self.cfg.chain_max { continue }
            self.one_rq("container", Ph::Chal, 0, 0, &b, |d, q| { let a = Auth::new().bytes(d, 0, &b); sign_auth(&q.tr.clone(), a, 0, &key) });
        }
        // a digest and a chain that disagree: the digest of another chain
        let (c1, _) = self.real_chain("s1", 0);
        self.one_rq("other digest", Ph::Chal, 0, 0, &chain, |d, q| { let a = Auth { digest: Some(hash(0, &c1)), ..Auth::new() }.bytes(d, 0, &chain); sign_auth(&q.tr.clone(), a, 0, &key) });
        // altered bytes inside the certificates
        for k in 0..self.n(60, 600) {
            let mut x = chain.clone();
            let i = if k < 10 { 36 + k } else { self.rng.below(x.len() - 36) + 36 };
            x[i] ^= 1 << self.rng.below(8);
            self.one_rq("altered certificate", Ph::Chal, 0, 0, &x, |d, q| { let a = Auth::new().bytes(d, 0, &x); sign_auth(&q.tr.clone(), a, 0, &key) });
        }
    }
    /// sizes of the buffer given for a request, and retries
    pub fn req_buf(&mut self) {
        let (chain, key) = self.real_chain("d0", 0);
        let key = load_key(&key);
        let order = ["Version", "Capabilities", "Algorithms", "IdAuth", "IdAuth", "Challenge"];
        // at each step: every size in turn, growing until it fits, then on to completion
        for step in 0..6 {
            for how in 0..3 {
                let p = self.prov(0, 0);
                self.rec.begin("retry", p.id, false, false);
                let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
                'run: for i in 0..6 {
                    if q.phase() != order[i] { break }
                    let need = if i == 2 { self.need } else { [4, 12, 0, 4, 8, 4 + self.cfg.nonce_len][i] };
                    if i == step {
                        match how {
                            0 => for cap in 0..need { if self.thorough || cap < 6 || cap + 3 > need || cap % 4 == 0 { if q.next(&mut self.rec, cap).ok { break 'run } } },
                            1 => { let c = self.rng.below(need); if q.next(&mut self.rec, c).ok { break } if q.next(&mut self.rec, need).ok { q.next(&mut self.rec, need - 1); } }
                            _ => { q.next(&mut self.rec, need); q.next(&mut self.rec, need + 1); }
                        }
                    }
                    if q.dead { break }
                    if !(i == step && how > 0) { if !q.next(&mut self.rec, if i % 2 == 0 { need } else { BIG }).ok { break } }
                    let n = self.nonce();
                    let tr = q.tr.clone();
                    let ph = q.phase().to_string();
                    let m = self.honest_rsp(&tr, &ph, i == 4, 0, &chain, &key, &n);
                    if q.handle(&mut self.rec, &m, &mut self.vf) != "ok" { break }
                }
                self.rec.end();
            }
        }
        for ph in RQ_PHASES {
            let i = RQ_PHASES.iter().position(|x| *x == ph).unwrap();
            let need = if i == 2 { self.need } else { [4, 12, 0, 4, 8, 4 + self.cfg.nonce_len][i] };
            for cap in (0..need + 3).chain([255, 256, 257, 512, 65535, 65536, 65537, 65535 + need, 1 << 17, 1 << 20]) {
                if !self.thorough && cap < need && cap > 4 && cap + 3 < need && cap % 3 != 0 { continue }
                let p = self.prov(0, 0);
                self.rec.begin("cap", p.id, false, false);
                let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
                // lead_rq writes the request; write it again into the small buffer
                if self.lead_rq(&mut q, ph, 0, &chain) {
                    q.next(&mut self.rec, cap);
                    q.next(&mut self.rec, need + 20);
                }
                self.rec.end();
            }
        }
    }
    /// transcripts filled to the last byte
    pub fn req_room(&mut self) {
        let (chain, key) = self.real_chain("d0", 0);
        let key = load_key(&key);
        let order = ["Version", "Capabilities", "Algorithms", "IdAuth", "IdAuth", "Challenge"];
        let trm = self.cfg.tr_max;
        // pad a response, so that this response / the next request / the response after it ends exactly there
        for step in 0..6usize {
            for kind in 0..3 {
                for off in [-2i64, -1, 0, 1, 2, 30] {
                    if kind == 0 && step == 5 { continue }
                    let p = self.prov(0, 0);
                    self.rec.begin("fill", p.id, false, false);
                    let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
                    for i in 0..6 {
                        if q.phase() != order[i] { break }
                        if !q.next(&mut self.rec, BIG).ok {
                            // the request does not fit; it must leave the peer as it was
                            q.next(&mut self.rec, BIG);
                            if order[i] != "Version" { break }
                        }
                        let n = self.nonce();
                        let tr = q.tr.clone();
                        let ph = q.phase().to_string();
                        let mut m = self.honest_rsp(&tr, &ph, i == 4, 0, &chain, &key, &n);
                        if i == step && i < 5 {
                            let next_len = [12, self.need, 4, 8, 4 + self.cfg.nonce_len, 0][i];
                            let auth_len = 4 + 64 + self.cfg.nonce_len + 2 + 4;
                            let next_rsp = [caps(0, 0).len(), 52, 36, 8 + chain.len(), auth_len, 0][i];
                            let more = match kind { 0 => 0, 1 => next_len, _ => next_len + next_rsp };
                            let want = trm as i64 + off - more as i64;
                            let have = (q.tr.len() + m.len()) as i64;
                            if want > have { m.extend(vec![0x42; (want - have) as usize]) }
                        }
                        if i == 5 && step == 5 && kind == 1 {
                            // opaque data that makes the response end near the capacity
                        }
                        if q.handle(&mut self.rec, &m, &mut self.vf) != "ok" { break }
                    }
                    self.rec.end();
                }
            }
        }
        // the same request written until the transcript is full
        for ph in RQ_PHASES {
            let p = self.prov(0, 0);
            self.rec.begin("again", p.id, false, false);
            let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
            if self.lead_rq(&mut q, ph, 0, &chain) {
                let mut fails = 0;
                for _ in 0..(if ph == Ph::Version { 5 } else { trm / 4 + 10 }) { if !q.next(&mut self.rec, BIG).ok { fails += 1; if fails > 2 || q.dead { break } } }
            }
            self.rec.end();
        }
        // an altogether too long response
        for ph in RQ_PHASES { for n in [trm - 50, trm, trm + 1, 65535 + 10] {
            self.one_rq("huge", ph, 0, 0, &chain, |d, q| { let mut m = d.own_response(q, ph, 0, &chain); m.resize(n, 0x11); m });
        } }
    }
    /// random conversations
    pub fn req_rand(&mut self) {
        for _ in 0..self.n(400, 5000) {
            if self.rec.full() { return }
            let h = *self.rng.pick(&self.cfg.hashes());
            let (chain, key) = if self.rng.chance(1, 2) { self.real_chain("d0", h) } else { let c = self.real_chain("s0", h); c };
            let key = load_key(&key);
            let p = self.prov(0, 0);
            self.rec.begin("random", p.id, false, false);
            let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
            let nasty = self.rng.below(3);
            let mut has = false;
            for _ in 0..12 {
                let ph = q.phase().to_string();
                if ph == "Error" || q.dead { break }
                if ph == "NewSession" { if self.rng.chance(1, 2) { q.next(&mut self.rec, BIG); } break }
                let cap = if self.rng.chance(1, 8) { self.rng.below(64) } else { BIG };
                let o = q.next(&mut self.rec, cap);
                if !o.ok && !q.dead { q.next(&mut self.rec, BIG); }
                if q.dead { break }
                let n = self.nonce();
                let tr = q.tr.clone();
                let mut m = self.honest_rsp(&tr, &ph, has, h, &chain, &key, &n);
                if ph == "Capabilities" && self.rng.chance(1, 3) { m = caps(self.rng.byte(), self.rng.next() as u32 & 0x1ffff | 6) }
                if ph == "IdAuth" && !has && self.rng.chance(1, 2) { let mask = self.rng.byte(); let k = (mask as u32 & ((1 << self.cfg.nslots) - 1)).count_ones(); let d: Vec<Vec<u8>> = (0..k).map(|i| hash(h, &[i as u8])).collect(); m = digests(mask, &d) }
                if nasty == 0 && self.rng.chance(1, 6) { let i = self.rng.below(m.len()); m[i] ^= 1 << self.rng.below(8) }
                if nasty == 0 && self.rng.chance(1, 14) { let v = self.all_responses(h, &chain); m = self.rng.pick(&v).clone() }
                if self.rng.chance(1, 10) && ph != "Challenge" { let k = self.rng.below(20); m.extend(self.rng.bytes(k)) }
                let r = q.handle(&mut self.rec, &m, &mut self.vf);
                if r == "ok" && ph == "IdAuth" { has = true }
            }
            self.rec.end();
        }
    }
}
