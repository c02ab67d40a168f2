//! The states of the requester driven by hand: any slot, in any order.
use crate::drv::*;
use crate::enc::*;
use crate::req::Auth;
use crate::world::*;
use serde_json::Value;

impl D {
    fn hand(&mut self) -> Rq { Rq::hand(&mut self.rec, self.certs.roots[0], &self.cfg, self.need) }
    /// version, capabilities, algorithms
    fn negotiate(&mut self, q: &mut Rq, h: u32) -> bool {
        for m in [our_versions(), caps(12, self.cfg.caps), algs(1, 1 << h, 0x10, 1 << h, &SELECTED)] {
            if !q.next(&mut self.rec, BIG).ok || q.handle(&mut self.rec, &m, &mut self.vf) == "err" { return false }
        }
        q.phase() == "IdAuth"
    }
    fn ask_cert(&mut self, q: &mut Rq, s: u8) -> bool { q.ask(&mut self.rec, Some(s)); q.next(&mut self.rec, BIG).ok }
    fn ask_digs(&mut self, q: &mut Rq) -> bool { q.ask(&mut self.rec, None); q.next(&mut self.rec, BIG).ok }
    fn give(&mut self, q: &mut Rq, m: &[u8]) -> bool { q.handle(&mut self.rec, m, &mut self.vf) == "ok" }
    fn one_hand(&mut self, label: &str, h: u32, f: impl FnOnce(&mut D, &mut Rq)) {
        if self.rec.full() || !self.cfg.can_id() { return }
        let p = self.prov(0, 0);
        self.rec.begin(label, p.id, false, false);
        let mut q = self.hand();
        if self.negotiate(&mut q, h) { f(self, &mut q) }
        self.rec.end();
    }
    /// a CHALLENGE_AUTH for a chain, made with the key of a slot's leaf
    fn answer(&mut self, q: &Rq, h: u32, slot: u8, mask: u8, chain: &[u8], key: &str) -> Vec<u8> {
        let a = Auth { slot, mask, ..Auth::new() }.bytes(self, h, chain);
        sign_auth(&q.tr.clone(), a, h, &load_key(&self.certs.get(key).key))
    }
    pub fn req_hand(&mut self) {
        let ns = self.cfg.nslots as u8;
        for h in self.cfg.hashes() { for s in 0..ns {
            let name = format!("s{}", s);
            let c = self.slot(&name, h).bytes();
            // the certificate of another slot than the one asked for
            for t in (0..ns).chain([ns, 15, 16 + s, 128 | s, 255]) {
                if h > 0 && t != s && t % 3 != 0 { continue }
                self.one_hand("certificate of a slot", h, |d, q| { d.ask_cert(q, s); d.give(q, &certificate(t, 0, &c)); });
            }
            // one certificate after another: the last one is held, whatever it is
            let tiny = self.tiny_chain();
            let kinds: Vec<Vec<u8>> = vec![c.clone(), vec![], vec![7], tiny, vec![0; 36], c[..c.len() - 1].to_vec()];
            for (i, first) in kinds.iter().enumerate() { for (j, second) in kinds.iter().enumerate() { for t in [s, (s + 1) % ns] {
                if h > 0 && (i + j) % 3 != 0 { continue }
                self.one_hand("a certificate after a certificate", h, |d, q| {
                    d.ask_cert(q, t);
                    if !d.give(q, &certificate(t, 0, first)) { return }
                    if j % 2 == 0 { d.ask_digs(q); if !d.give(q, &digests(if i % 2 == 0 { 0 } else { 1 << s }, &vec![hash(h, second); i % 2])) { return } }
                    d.ask_cert(q, s);
                    if !d.give(q, &certificate(s, 0, second)) { return }
                    if !d.cfg.can_chal() { return }
                    q.go(&mut d.rec);
                    q.next(&mut d.rec, BIG);
                    let m = d.answer(q, h, s, 255, second, &name);
                    d.give(q, &m);
                });
            } } }
            // without digests, after them, and digests after it
            for order in 0..4 {
                self.one_hand("order", h, |d, q| {
                    let dg = digests(1 << s, &[hash(h, &c)]);
                    if order & 1 == 1 { d.ask_digs(q); d.give(q, &dg); d.ask_digs(q); d.give(q, &digests(255, &vec![hash(h, b"x"); ns as usize])); }
                    d.ask_cert(q, s);
                    if !d.give(q, &certificate(s, 0, &c)) { return }
                    if order & 2 == 2 { d.ask_digs(q); d.give(q, &dg); }
                    if !d.cfg.can_chal() { return }
                    q.go(&mut d.rec);
                    q.next(&mut d.rec, BIG);
                    let m = d.answer(q, h, s, 1 << s, &c, &name);
                    d.give(q, &m);
                });
            }
            // another slot held, or asked for, before
            for t in 0..ns {
                if t == s || h > 0 && (s + t) % 2 == 0 { continue }
                let other = format!("s{}", t);
                let b = self.slot(&other, h).bytes();
                self.one_hand("asked for another before", h, |d, q| { d.ask_cert(q, t); d.ask_cert(q, s); d.give(q, &certificate(t, 0, &b)); });
                self.one_hand("asked for another before", h, |d, q| { d.ask_cert(q, t); d.give(q, &certificate(t, 0, &b)); d.give(q, &certificate(s, 0, &c)); });
                self.one_hand("asked, but it did not fit", h, |d, q| {
                    d.ask_cert(q, t);
                    q.ask(&mut d.rec, Some(s));
                    q.next(&mut d.rec, 7);
                    d.give(q, &certificate(s, 0, &c));
                });
                self.one_hand("digests for a certificate", h, |d, q| { d.ask_cert(q, s); d.ask_digs(q); d.give(q, &certificate(s, 0, &c)); });
                self.one_hand("certificate for digests", h, |d, q| { d.ask_digs(q); d.ask_cert(q, s); d.give(q, &digests(1, &[hash(h, &c)])); });
                if !self.cfg.can_chal() { continue }
                // the last one held counts, whatever was asked for later
                for v in 0..8 {
                    self.one_hand("two slots", h, |d, q| {
                        d.ask_cert(q, t);
                        if !d.give(q, &certificate(t, 0, &b)) { return }
                        d.ask_cert(q, s);
                        if v != 1 && !d.give(q, &certificate(s, 0, &c)) { return }
                        q.go(&mut d.rec);
                        q.next(&mut d.rec, BIG);
                        let m = match v {
                            0 => d.answer(q, h, s, 255, &c, &name),
                            1 => d.answer(q, h, t, 1 << t, &b, &other),
                            2 => d.answer(q, h, t, 255, &b, &other),
                            3 => d.answer(q, h, s, 255, &b, &other),
                            4 => d.answer(q, h, t, 255, &c, &name),
                            5 => d.answer(q, h, s, 1 << t, &c, &name),
                            6 => d.answer(q, h, s, 255, &c, &other),
                            _ => d.answer(q, h, s, 255 ^ (1u8 << s), &c, &name),
                        };
                        d.give(q, &m);
                    });
                }
            }
            if !self.cfg.can_chal() { continue }
            // any slot and any mask in the answer
            for t in (0..ns).chain([ns, 15, 16 + s, 64 | s, 128 | s, 255]) { for m in [1u8 << (t & 7), 1 << s, 255, 0, 255 ^ (1u8 << s), 1] {
                if h > 0 && (t as u32 + m as u32) % 3 == 0 { continue }
                self.one_hand("answer for a slot", h, |d, q| {
                    d.ask_cert(q, s);
                    if !d.give(q, &certificate(s, 0, &c)) { return }
                    q.go(&mut d.rec);
                    q.next(&mut d.rec, BIG);
                    let m = d.answer(q, h, t, m, &c, &name);
                    d.give(q, &m);
                });
            } }
        } }
        // buffers too small, in every step
        for s in 0..ns {
            let c = self.slot(&format!("s{}", s), 0).bytes();
            self.one_hand("small buffers", 0, |d, q| {
                for what in [None, Some(s)] {
                    q.ask(&mut d.rec, what);
                    for n in [0usize, 1, 3, 4, 5, 7, 8] { if q.next(&mut d.rec, n).ok { break } }
                    if !d.give(q, &match what { None => digests(1, &[hash(0, &c)]), _ => certificate(s, 0, &c) }) { return }
                }
                if !d.cfg.can_chal() { return }
                q.go(&mut d.rec);
                for n in [0usize, 1, 4, 35, 36] { if q.next(&mut d.rec, n).ok { break } }
                let m = d.answer(q, 0, s, 1 << s, &c, &format!("s{}", s));
                d.give(q, &m);
            });
        }
    }
    /// with a responder: every slot, whatever else is provisioned
    pub fn net_hand(&mut self) {
        if !self.cfg.can_id() { return }
        let ns = self.cfg.nslots;
        for mask in 1..1u32 << ns { for s in 0..ns {
            if mask >> s & 1 == 0 { continue }
            if ns > 5 && !self.thorough && !self.rng.chance(1, 8) && mask.count_ones() > 1 { continue }
            let p = self.prov(mask, 0);
            let others: Vec<u8> = (0..ns as u8).filter(|k| mask >> k & 1 == 1 && self.rng.chance(1, 3)).collect();
            let mut order: Vec<Option<u8>> = vec![];
            if self.rng.chance(2, 3) { order.push(None) }
            order.push(Some(s as u8));
            if self.rng.chance(1, 8) { order.insert(0, None) }
            self.hand_net("by hand", &p, &order, false);
            // a responder serves one certificate, so another one needs a new session
            if !others.is_empty() { let o = vec![Some(others[0]), None]; self.hand_net("by hand, digests late", &p, &o, true); }
        } }
    }
    fn hand_net(&mut self, label: &str, p: &Prov, order: &[Option<u8>], late: bool) {
        let used: usize = p.slots.iter().flatten().map(|s| s.bytes().len()).max().unwrap_or(0);
        let fits = 600 + self.cfg.nslots * 96 + used < self.cfg.tr_max && used <= self.cfg.chain_max;
        let honest = fits && !late;
        self.rec.begin(label, p.id, honest, false);
        let mut q = self.hand();
        let mut r = Rsp::new(p, false);
        let mut k = 0;
        for _ in 0..9 {
            if q.dead || q.phase() == "NewSession" || q.phase() == "Error" { break }
            if q.phase() == "IdAuth" {
                if k < order.len() { q.ask(&mut self.rec, order[k]); k += 1 }
                else if self.cfg.can_chal() { q.go(&mut self.rec) }
                else { break }
            }
            let o = q.next(&mut self.rec, BIG);
            if !o.ok { break }
            let s = r.serve(&mut self.rec, &o.out, BIG);
            if !s.ok { break }
            q.handle(&mut self.rec, &s.out, &mut self.vf);
        }
        let expect = honest && self.cfg.can_chal();
        self.rec.event(format!("{{\"k\":\"end\",\"expect\":{},\"ph\":\"{}\"}}", expect, q.phase()));
        self.rec.end();
    }
    /// behaviours of spec/MCHand
    pub fn b_hand(&mut self, b: &Value) {
        let letters = b["letters"].as_array().unwrap();
        let num = |v: &Value| v.as_u64().unwrap() as usize;
        let p = self.prov(0, 0);
        for x in b["paths"].as_array().unwrap() {
            let path: Vec<usize> = x[1].as_array().unwrap().iter().map(num).collect();
            self.rec.begin(&format!("path {:?}", path), p.id, false, false);
            let mut q = self.hand();
            let h = (num(&x[0]) - 1) as u32;
            if self.negotiate(&mut q, h) {
                let mut chain = "s0".to_string();
                for i in &path {
                    let l = &letters[i - 1];
                    let slot = num(&l["slot"]) as u8;
                    match l["k"].as_str().unwrap() {
                        "askd" => { self.ask_digs(&mut q); }
                        "askc" => { self.ask_cert(&mut q, slot); }
                        "go" => { q.go(&mut self.rec); q.next(&mut self.rec, BIG); }
                        "again" => { q.next(&mut self.rec, BIG); }
                        "digests" => { let d = digests(num(&l["mask"]) as u8, &vec![hash(h, b"d"); num(&l["mask"]).count_ones() as usize]); self.give(&mut q, &d); }
                        "cert" => {
                            let n = l["ch"].as_str().unwrap().to_string();
                            let c = self.slot(&n, h).bytes();
                            if self.give(&mut q, &certificate(slot, 0, &c)) { chain = n }
                        }
                        _ => {
                            let by = |n: &Value| { let n = n.as_str().unwrap(); if n == "own" { chain.clone() } else { n.to_string() } };
                            let c = self.slot(&by(&l["dig"]), h).bytes();
                            let m = self.answer(&q, h, slot, num(&l["mask"]) as u8, &c, &by(&l["by"]));
                            self.give(&mut q, &m);
                        }
                    }
                }
            }
            self.rec.end();
        }
    }
}
