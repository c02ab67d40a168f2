//! Sessions of two real peers: honest ones, and with somebody in between.
use crate::drv::*;
use crate::enc::*;
use crate::rec::*;
use crate::world::*;

impl D {
    fn handshake_len(&self, p: &Prov) -> usize {
        let n = p.slots.iter().filter(|s| s.is_some()).count();
        let c = p.slots[0].as_ref().map_or(0, |s| s.bytes().len());
        let mut t = 4 + 10 + 24 + self.need + 52;
        if self.cfg.can_id() { t += 4 + 4 + 32 * n + 8 + 8 + c; }
        if self.cfg.can_chal() { t += 4 + self.cfg.nonce_len + 4 + 64 + self.cfg.nonce_len + 6; }
        t
    }
    pub fn fits(&self, p: &Prov) -> bool {
        self.handshake_len(p) <= self.cfg.tr_max
            && p.slots.iter().all(|s| s.as_ref().map_or(true, |s| s.bytes().len() <= self.cfg.chain_max && s.inter.len() <= self.cfg.depth))
            && (!self.cfg.can_chal() || p.slots[0].is_some())
    }
    /// Exchange messages until the requester is done.  `retry`: first offer
    /// buffers that are too small to the requester.
    pub fn run(&mut self, q: &mut Rq, r: &mut Rsp, retry: bool, stop: usize) {
        for i in 0..6 {
            if i == stop || q.phase() == "NewSession" || q.phase() == "Error" || q.dead { return }
            let mut o = None;
            if q.phase() == "Challenge" { q.odd = self.odd.0.clone() }
            if retry { for c in [0usize, 1, 3, 7, 11] { let x = q.next(&mut self.rec, c); if x.ok { o = Some(x.out); break } } }
            let m = match o { Some(m) => m, None => { let x = q.next(&mut self.rec, BIG); if !x.ok { return } x.out } };
            if m.get(1) == Some(&0x83) { r.odd = self.odd.1.clone() }
            let s = r.serve(&mut self.rec, &m, BIG);
            if !s.ok { return }
            q.handle(&mut self.rec, &s.out, &mut self.vf);
        }
    }
    fn finish(&mut self, expect: bool, q: &Rq) {
        self.rec.event(format!("{{\"k\":\"end\",\"expect\":{},\"ph\":\"{}\"}}", expect, q.phase()));
        self.rec.end();
    }
    pub fn honest(&mut self, label: &str, p: &Prov, root: usize, retry: bool, restarts: &[usize]) {
        if self.rec.full() { return }
        let fits = self.fits(p);
        self.rec.begin(label, p.id, fits, false);
        let mut r = Rsp::new(p, !restarts.is_empty());
        for s in restarts {
            let mut q = Rq::new(self.certs.roots[root], &self.cfg, self.need);
            self.run(&mut q, &mut r, false, *s);
            self.rec.event("{\"k\":\"renew\"}".into());
        }
        let mut q = Rq::new(self.certs.roots[root], &self.cfg, self.need);
        self.run(&mut q, &mut r, retry, 9);
        if q.phase() == "NewSession" { q.next(&mut self.rec, BIG); }
        self.finish(fits, &q);
    }
    pub fn net_honest(&mut self) {
        let ns = self.cfg.nslots;
        // every set of provisioned slots
        for mask in 0..1u32 << ns {
            if self.cfg.can_chal() && mask & 1 == 0 && mask != 0 { continue }
            if ns > 5 && !self.thorough && mask.count_ones() > 2 && mask.count_ones() < ns as u32 && !self.rng.chance(1, 4) { continue }
            let p = self.prov(mask, 0);
            let retry = mask % 2 == 1 && self.rng.chance(1, 2);
            self.honest("slots", &p, 0, retry, &[]);
        }
        // chains of every depth, and of the size of the buffers
        for name in ["d0", "d1", "d2", "d3", "d4", "d5", "d6", "extrainter", "x1023", "x1024", "x1025", "evilok",
                     "d7", "d8", "d24", "x32767", "x32768", "x65534", "x65535", "m65535"] {
            let c = self.certs.get(name);
            if c.inter.len() > self.cfg.depth { continue }
            let root = c.root;
            let sp = self.slot(name, 0);
            if sp.bytes().len() > self.cfg.chain_max { continue }
            let label = if c.inter.len() > 6 { "a chain of more than 6 intermediates" } else { "depth" };
            let p = self.prov_with(0, sp.clone());
            self.honest(label, &p, root, false, &[]);
            self.honest(label, &p, root, true, &[]);
            let mut v: Vec<Option<SlotP>> = (0..ns).map(|i| if i % 2 == 1 { Some(self.slot(&format!("s{}", i), 0)) } else { None }).collect();
            v[0] = Some(sp);
            let p = Prov::new(&mut self.rec, v);
            self.honest(label, &p, root, false, &[]);
        }
        // the same chain in every slot; one key in several
        let one = self.slot("s0", 0);
        let p = Prov::new(&mut self.rec, vec![Some(one); ns]);
        self.honest("same", &p, 0, false, &[]);
        // started again after any number of steps, with a new requester
        let p = self.prov(1 | 4 & ((1 << ns) - 1), 0);
        for a in 0..7usize {
            self.honest("restart", &p, 0, false, &[a]);
            for b in 0..7usize { if self.thorough || (a + b) % 2 == 0 { self.honest("restart", &p, 0, b % 2 == 0, &[a, b]); } }
        }
        for n in 3..=self.n(5, 12) { let v: Vec<usize> = (0..n).map(|_| self.rng.below(7)).collect(); self.honest("restarts", &p, 0, false, &v); }
        // whatever the nonces are
        if self.cfg.can_chal() {
            for k in 0..self.n(24, 144) {
                self.odd = match k % 3 {
                    0 => (self.odd_nonce(k / 3), vec![]), 1 => (vec![], self.odd_nonce(k / 3)),
                    _ => (self.odd_nonce(k / 3), self.odd_nonce(k / 3 + 1)),
                };
                self.honest("odd nonces", &p, 0, false, &[]);
            }
            self.odd = (vec![], vec![]);
        }
        // with signatures of many values
        let k = self.n(60, 600);
        for _ in 0..k { self.honest("again", &p, 0, false, &[]); }
    }
    /// signatures with unusual integers
    pub fn net_sig(&mut self) {
        if !self.cfg.can_chal() { return }
        let p = self.prov(1, 0);
        let mut classes = vec![];
        for hr in 0..2u8 { for hs in 0..2u8 { classes.push((0, 0, hr, hs)); classes.push((1, 0, hr, hs)); classes.push((0, 1, hr, hs)); } }
        if self.thorough { for hr in 0..2u8 { classes.push((1, 1, hr, 2)); classes.push((2, 0, hr, 2)); classes.push((0, 2, 2, hr)); } }
        for c in classes {
            for bad in 0..2 {
                self.rec.begin("signature class", p.id, bad == 0, true);
                let mut r = Rsp::new(&p, false);
                let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
                r.ctx.class.set(Some(c));
                if bad == 0 { self.run(&mut q, &mut r, false, 9); self.finish(true, &q); continue }
                self.run(&mut q, &mut r, false, 5);
                let o = q.next(&mut self.rec, BIG);
                let s = r.serve(&mut self.rec, &o.out, BIG);
                if s.ok {
                    let mut m = s.out.clone();
                    let k = m.len() - 64 + self.rng.below(64);
                    m[k] ^= 1 << self.rng.below(8);
                    q.handle(&mut self.rec, &m, &mut self.vf);
                }
                self.rec.end();
            }
        }
    }
    /// Somebody in between alters, replaces, repeats, drops or reorders
    pub fn net_mitm(&mut self) {
        let mut pool: Vec<Vec<Vec<u8>>> = vec![vec![]; 2]; // requests and responses of earlier sessions
        for round in 0..self.n(900, 9000) {
            if self.rec.full() { return }
            let mask = self.rng.next() as u32 & ((1 << self.cfg.nslots) - 1) | 1;
            let p = if self.rng.chance(1, 5) { let k = self.rng.below(3); let s = self.slot(["evil", "d1", "samename"][k], 0); self.prov_with(0, s) } else { self.prov(mask, 0) };
            self.rec.begin("in between", p.id, false, false);
            let mut r = Rsp::new(&p, self.rng.chance(1, 4));
            let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
            let steps: Vec<usize> = (0..1 + self.rng.below(2)).map(|_| self.rng.below(12)).collect();
            let mut mine: Vec<Vec<Vec<u8>>> = vec![vec![]; 2];
            let mut n = 0;
            'go: for _ in 0..8 {
                if q.phase() == "NewSession" || q.phase() == "Error" || q.dead { break }
                let o = q.next(&mut self.rec, BIG);
                if !o.ok { break }
                let mut req = o.out;
                mine[0].push(req.clone());
                if steps.contains(&n) && round > 3 {
                    match self.rng.below(8) {
                        0 | 1 => req = self.alter(&req),
                        2 => { let x = self.pick_of(&pool[0], &req); req = x }
                        3 => { let x = self.pick_of(&mine[0].clone(), &req); req = x }
                        4 => { r.serve(&mut self.rec, &req, BIG); } // delivered twice
                        5 => { n += 1; continue 'go } // lost, and asked again
                        6 => req = self.rewrite_req(&req),
                        _ => { let x = self.pick_of(&pool[0], &req); if !r.dead && r.phase() != "Error" { r.serve(&mut self.rec, &x, BIG); } }
                    }
                }
                n += 1;
                if r.dead || r.phase() == "Error" { r.reset(&mut self.rec); }
                let s = r.serve(&mut self.rec, &req, BIG);
                let mut rsp = s.out;
                mine[1].push(rsp.clone());
                if steps.contains(&n) && round > 3 {
                    match self.rng.below(6) {
                        0 | 1 => rsp = self.alter(&rsp),
                        2 => { let x = self.pick_of(&pool[1], &rsp); rsp = x }
                        3 => { let x = self.pick_of(&mine[1].clone(), &rsp); rsp = x }
                        4 => rsp = self.rewrite_rsp(&rsp, &q.tr.clone()),
                        _ => { n += 1; continue 'go }
                    }
                }
                n += 1;
                q.handle(&mut self.rec, &rsp, &mut self.vf);
            }
            self.rec.end();
            if round % 20 < 4 { for i in 0..2 { let mut m = std::mem::take(&mut mine[i]); pool[i].append(&mut m); let k = pool[i].len(); if k > 40 { pool[i].drain(..k - 40); } } }
        }
    }
    fn alter(&mut self, m: &[u8]) -> Vec<u8> {
        let mut x = m.to_vec();
        if x.is_empty() { return vec![self.rng.byte()] }
        match self.rng.below(4) {
            0 => { let i = self.rng.below(x.len()); x[i] ^= 1 << self.rng.below(8) }
            1 => { let i = self.rng.below(x.len().min(12)); x[i] ^= 1 << self.rng.below(8) }
            2 => { let k = self.rng.below(x.len()); x.truncate(k) }
            _ => { let k = 1 + self.rng.below(5); x.extend(self.rng.bytes(k)) }
        }
        x
    }
    // prefer another message of the same type
    fn pick_of(&mut self, v: &[Vec<u8>], m: &[u8]) -> Vec<u8> {
        if v.is_empty() { return m.to_vec() }
        let same: Vec<Vec<u8>> = v.iter().filter(|x| x.len() > 1 && m.len() > 1 && x[1] == m[1]).cloned().collect();
        if !same.is_empty() && self.rng.chance(3, 4) { self.rng.pick(&same).clone() } else { self.rng.pick(v).clone() }
    }
    // change what a request asks for, keeping it well formed
    fn rewrite_req(&mut self, m: &[u8]) -> Vec<u8> {
        match m.get(1) {
            Some(0xe1) => get_caps(m[5], self.rng.next() as u32 & 0x1ffc6),
            Some(0xe3) => neg(1, 0x10 | self.rng.next() as u32 & 0x1ff, 1 << self.rng.below(3), &STRUCTS[self.rng.below(4)..]),
            Some(0x82) => self.m_cert(self.rng.clone().below(self.cfg.nslots) as u8),
            Some(0x83) => { let s = self.rng.below(self.cfg.nslots) as u8; if self.rng.chance(1, 2) { self.m_chal(s) } else { let mut x = m.to_vec(); x[2] = s; x } }
            _ => m.to_vec(),
        }
    }
    fn rewrite_rsp(&mut self, m: &[u8], tr: &[u8]) -> Vec<u8> {
        match m.get(1) {
            Some(0x04) => version(&[[1, 0, 0, 0]]),
            Some(0x61) => caps(m[5], self.rng.next() as u32 & 0x1ffff),
            Some(0x63) => algs(1, 1 << self.rng.below(3), 0x10, 1 << self.rng.below(3), &SELECTED[self.rng.below(4)..]),
            Some(0x01) => { let mut x = m.to_vec(); if x.len() > 4 { let i = 4 + self.rng.below(x.len() - 4); x[i] ^= 1 } x }
            Some(0x02) => { let k = self.rng.below(3); let c = self.slot(["s1", "evil", "s2"][k], 0); certificate(0, 0, &c.bytes()) }
            Some(0x03) if m.len() > 110 => {
                let key = load_key(&self.certs.get(["s0", "s1", "evil"][self.rng.below(3)]).key);
                let n = m.len() - 64;
                let mut a = m[..n].to_vec();
                if self.rng.chance(1, 2) { a[2] = a[2] & 0x80 | self.rng.below(4) as u8 }
                if self.rng.chance(1, 3) { a[3] = self.rng.byte() }
                sign_auth(tr, a, 0, &key)
            }
            _ => m.to_vec(),
        }
    }
}
#[allow(dead_code)]
fn unused(_: &mut Rng) {}
