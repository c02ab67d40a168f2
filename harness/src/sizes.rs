//! Values that are nowhere near a boundary: chains of every size, transcripts
//! of every length, unusual nonces.
use crate::drv::*;
use crate::enc::*;
use crate::req::Auth;
use crate::world::*;
use std::rc::Rc;

impl D {
    /// is this one of the values to try?
    fn some(&mut self, n: usize, dense: usize) -> bool {
        n % 64 < 2 || n % 64 == 63 || self.rng.chance(1, if self.thorough { dense / 3 } else { dense })
    }
    /// nonces a peer might take for something else
    pub fn odd_nonce(&mut self, k: usize) -> Vec<u8> {
        let n = self.cfg.nonce_len;
        match k % 12 {
            0 => vec![0; n], 1 => vec![0xff; n], 2 => (0..n).map(|i| i as u8).collect(), 3 => (0..n).map(|i| if i < n / 2 { 0 } else { i as u8 }).collect(),
            4 => { let mut v = self.nonce(); v[0] = 0; v } 5 => { let mut v = self.nonce(); v[n - 1] = 0; v }
            6 => vec![0x80; n], 7 => { let mut v = vec![0; n]; v[n - 1] = 1; v } 8 => { let mut v = vec![0; n]; v[0] = 1; v }
            9 => [&[0x11u8, 0x83, 0, 0][..], &vec![0; n - 4][..]].concat(),
            _ => self.nonce(),
        }
    }
    fn pad(&mut self, m: &mut Vec<u8>, most: usize) {
        if self.rng.chance(1, 2) { let n = self.rng.below(most); let x = self.rng.bytes(n); m.extend(x) }
    }
    pub fn rsp_sizes(&mut self) {
        if cfg!(not(feature = "crypto")) { return }
        let ns = self.cfg.nslots;
        let cm = self.cfg.chain_max;
        let hs = self.cfg.hashes();
        let key = Rc::new(load_key(&self.certs.get("s0").key));
        let step = if cm > 4096 { cm / 500 } else { 1 };
        for (k, size) in (42..=cm).step_by(step).enumerate() {
            if self.rec.full() || self.rec.weight() > 3_000_000 { break }
            if !self.some(size, 9) { continue }
            let at = self.rng.below(ns);
            let also = self.rng.below(ns);
            let v: Vec<Option<SlotP>> = (0..ns).map(|i| if i == at { Some(self.synthetic(i, size, &key)) } else if i == also { Some(self.synthetic(i, 50 + i, &key)) } else { None }).collect();
            let p = Prov::new(&mut self.rec, v);
            self.rec.begin("a chain of some size", p.id, false, false);
            let mut r = Rsp::new(&p, false);
            let h = hs[k % hs.len()];
            let s = if self.rng.chance(1, 4) { also } else { at } as u8;
            let mut ms = self.lead(Ph::Id2, h, s);
            ms.push(self.m_cert(s));
            if self.rng.chance(1, 3) { ms.push(self.m_cert(at as u8)) }
            let n = self.odd_nonce(k);
            ms.push(challenge(at as u8, (k % 3 == 0) as u8, &n));
            for mut m in ms { self.pad(&mut m, 60); if !r.dead && r.phase() != "Error" && r.phase() != "None" { r.serve(&mut self.rec, &m, BIG); } }
            self.rec.end();
        }
        // transcripts of every length, wherever the length comes from
        let p = self.tiny((1 << ns) - 1, 60);
        let trm = self.cfg.tr_max;
        let base = 600.min(trm);
        for (k, t) in (base..trm).step_by((trm / if self.thorough { 400 } else { 120 }).max(1) | 1).enumerate() {
            if self.rec.full() || self.rec.weight() > 6_000_000 { break }
            self.rec.begin("a transcript of some length", p.id, false, false);
            let mut r = Rsp::new(&p, false);
            let h = hs[k % hs.len()];
            let s = (k % ns) as u8;
            let mut ms = self.lead(Ph::Id2, h, s);
            ms.push(self.m_cert(s));
            let n = self.odd_nonce(k / 3);
            ms.push(challenge(s, 0, &n));
            let at = self.rng.below(ms.len());
            let more = t - base;
            for (i, mut m) in ms.into_iter().enumerate() {
                if i == at { let x = self.rng.bytes(more); m.extend(x) }
                if !r.dead && r.phase() != "Error" && r.phase() != "None" { r.serve(&mut self.rec, &m, BIG); }
            }
            self.rec.end();
        }
        // every nonce, twice in a row
        for k in 0..12 { for slot in 0..ns.min(3) as u8 {
            let n = self.odd_nonce(k);
            self.rec.begin("a nonce", p.id, false, false);
            let mut r = Rsp::new(&p, false);
            let ph = if k % 2 == 0 { Ph::Chal } else { Ph::Chal2 };
            for m in self.lead(ph, hs[k % hs.len()], slot) { if !r.dead && r.phase() != "Error" { r.serve(&mut self.rec, &m, BIG); } }
            for _ in 0..2 { if r.phase() == "Challenge" { r.serve(&mut self.rec, &challenge(slot, 0, &n), BIG); } }
            self.rec.end();
        } }
    }
    /// A session whose answer is signed over the k-th variant of what was said, put
    /// together from its pieces (messages, and the parts of the last one); false: no more
    pub fn other_talk(&mut self, k: usize, h: u32, chain: &[u8], key: &ring::signature::EcdsaKeyPair) -> bool {
        let order = ["Version", "Capabilities", "Algorithms", "IdAuth", "IdAuth", "Challenge"];
        let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
        let mut cut = vec![0usize];
        for i in 0..6 {
            if q.phase() != order[i] || !q.next(&mut self.rec, BIG).ok { return false }
            cut.push(q.tr.len());
            if i == 5 { break }
            let n = self.nonce();
            let ph = q.phase().to_string();
            let m = self.honest_rsp(&q.tr.clone(), &ph, i == 4, h, chain, key, &n);
            if q.handle(&mut self.rec, &m, &mut self.vf) != "ok" { return false }
            cut.push(q.tr.len());
        }
        let mut a = Auth::new().bytes(self, h, chain);
        let m = [&q.tr[..], &a[..]].concat();
        let t = q.tr.len();
        for x in [2, 4, 4 + hash_len(h), 4 + hash_len(h) + 32, 4 + 2 * hash_len(h) + 32, a.len()] { cut.push(t + x) }
        let n = cut.len() - 1;
        let ranges: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..=n).map(move |j| (i, j))).map(|(i, j)| (cut[i], cut[j])).collect();
        let r = ranges.len();
        let said = match k {
            // without a part; a part only; a part twice; neighbours the other way round
            k if k < r => { let (i, j) = ranges[k]; [&m[..i], &m[j..]].concat() }
            k if k < 2 * r => { let (i, j) = ranges[k - r]; m[i..j].to_vec() }
            k if k < 2 * r + n => { let i = k - 2 * r; [&m[..cut[i + 1]], &m[cut[i]..]].concat() }
            k if k < 2 * r + 2 * n - 1 => { let i = k - 2 * r - n; [&m[..cut[i]], &m[cut[i + 1]..cut[i + 2]], &m[cut[i]..cut[i + 1]], &m[cut[i + 2]..]].concat() }
            _ => return false,
        };
        a.extend(sign_class(key, &hash(h, &said), None));
        q.handle(&mut self.rec, &a, &mut self.vf);
        true
    }
    pub fn req_sizes(&mut self) {
        let cm = self.cfg.chain_max;
        let hs = self.cfg.hashes();
        let step = if cm > 4096 { cm / 500 } else { 1 };
        if self.cfg.can_id() {
            for (k, size) in (1..=cm).step_by(step).enumerate() {
                if self.rec.full() || self.rec.weight() > 3_000_000 { break }
                if !self.some(size, 9) { continue }
                let h = hs[k % hs.len()];
                let c = self.rng.bytes(size);
                self.one_rq("a chain of some size", Ph::Id2, h, 0, &c, |d, _| { let mut m = certificate(0, 0, &c); d.pad(&mut m, 60); m });
            }
        }
        if !self.cfg.can_chal() { return }
        let order = ["Version", "Capabilities", "Algorithms", "IdAuth", "IdAuth", "Challenge"];
        let trm = self.cfg.tr_max;
        for k in 0..self.n(220, 2500) {
            if self.rec.full() || self.rec.weight() > 6_000_000 { break }
            let h = hs[k % hs.len()];
            let (chain, key) = self.real_chain(if k % 3 == 0 { "d0" } else { "s0" }, h);
            if chain.len() > cm { continue }
            let key = load_key(&key);
            let p = self.prov(0, 0);
            self.rec.begin("a transcript of some length", p.id, false, false);
            let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
            let least = 4 + 14 + 12 + 12 + self.need + 52 + 4 + 4 + hash_len(h) + 8 + 8 + chain.len() + 36 + 4 + 3 * 64 + 32;
            let room = trm.saturating_sub(least);
            let all = (room * (k % 23)) / 22;
            let at = self.rng.below(5);
            let cut = self.rng.below(all + 1);
            for i in 0..6 {
                if q.phase() != order[i] || !q.next(&mut self.rec, BIG).ok { break }
                let n = self.odd_nonce(k);
                let mut tr = q.tr.clone();
                let ph = q.phase().to_string();
                let mut m = if i < 5 { self.honest_rsp(&tr, &ph, i == 4, h, &chain, &key, &n) } else {
                    // signed over these bytes, or over bytes that differ somewhere
                    match k % 5 {
                        0 | 1 => {}
                        2 => { let j = self.rng.below(tr.len()); tr[j] ^= 1 << self.rng.below(8) }
                        3 => { let j = self.rng.below(tr.len()); if self.rng.chance(1, 2) { tr.truncate(j) } else { tr.remove(j); } }
                        _ => { let j = self.rng.below(tr.len() / 64) * 64; let e = (j + 64).min(tr.len()); for b in &mut tr[j..e] { *b = 0 } }
                    }
                    let a = Auth { nonce: Some(n), ..Auth::new() };
                    let b = a.bytes(self, h, &chain);
                    sign_auth(&tr, b, h, &key)
                };
                if i == at { let x = self.rng.bytes(cut); m.extend(x) }
                if i == 4 && at < 4 || i == (at + 1) % 4 && at == 4 { let x = self.rng.bytes(all - cut); m.extend(x) }
                if q.handle(&mut self.rec, &m, &mut self.vf) != "ok" { break }
            }
            self.rec.end();
        }
    }
}
