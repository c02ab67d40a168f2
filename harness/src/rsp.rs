//! Sessions with the real responder.
use crate::drv::*;
use crate::enc::*;
use crate::world::*;

const CODES: [u8; 15] = [0x84, 0x04, 0xe1, 0x61, 0xe3, 0x63, 0x81, 0x01, 0x82, 0x02, 0x83, 0x03, 0xe0, 0x60, 0x7f];

impl D {
    fn valid_requests(&mut self) -> Vec<Vec<u8>> {
        vec![get_version(), self.m_caps(), self.m_neg(0), get_digests(), self.m_cert(0), self.m_chal(0)]
    }
    fn own_request(&mut self, ph: Ph) -> Vec<Vec<u8>> {
        match ph {
            Ph::Version => vec![get_version()],
            Ph::Caps => vec![self.m_caps()],
            Ph::Algs => vec![self.m_neg(0), neg(1, 0x10, 7, &[])],
            Ph::Id | Ph::Id2 => vec![get_digests(), self.m_cert(0)],
            Ph::Chal | Ph::Chal2 => vec![self.m_chal(0)],
        }
    }
    /// every request type, message code and version, in every phase
    pub fn rsp_phase(&mut self) {
        let p = self.prov(3, 0);
        for ph in PHASES {
            for m in self.valid_requests() {
                self.one("phase", &p, ph, 0, 0, &m, BIG);
                for v in [0u8, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x90, 0xff] {
                    let mut x = m.clone();
                    if x[0] == v { continue }
                    x[0] = v;
                    self.one("version", &p, ph, 0, 0, &x, BIG);
                }
            }
            // every code, before a body that suits the phase
            let body = self.own_request(ph)[0].clone();
            let all: Vec<u8> = if self.thorough || ph == Ph::Chal || ph == Ph::Id { (0..=255).collect() } else { CODES.to_vec() };
            for c in all {
                for v in [0x10u8, 0x11, 0x12] {
                    if !self.thorough && !CODES.contains(&c) && v != body[0] { continue }
                    let mut x = body.clone();
                    x[0] = v;
                    x[1] = c;
                    self.one("code", &p, ph, 0, 0, &x, BIG);
                }
            }
            for m in [vec![], vec![0x10], vec![0x11], vec![0x10, 0x84], vec![0x11, 0xe1], vec![0x11, 0x83], vec![0x11, 0x82],
                      vec![0x10, 0x84, 0], vec![0x11, 0x81, 0], vec![0x12, 0x7f, 1, 0], our_versions(), caps(12, 6),
                      algs(1, 1, 0x10, 1, &SELECTED), digests(0, &[]), certificate(0, 0, &[])] {
                self.one("short", &p, ph, 0, 0, &m, BIG);
            }
        }
    }
    /// truncation at every length, extension, every single bit flipped
    pub fn rsp_wire(&mut self) {
        let p = self.prov(3, 0);
        for ph in PHASES {
            if ph == Ph::Chal2 && !self.thorough { continue }
            for m in self.own_request(ph) {
                for n in 0..m.len() { self.one("trunc", &p, ph, 0, 0, &m[..n], BIG) }
                for k in [1usize, 2, 3, 7, 64, 300] {
                    let mut x = m.clone();
                    x.extend(self.rng.bytes(k));
                    self.one("extend", &p, ph, 0, 0, &x, BIG);
                }
                for bit in 0..8 * m.len() {
                    // all bits of a nonce are alike
                    if m[1] == 0x83 && bit >= 48 && bit % 61 != 0 { continue }
                    let mut x = m.clone();
                    x[bit / 8] ^= 1 << (bit % 8);
                    self.one("flip", &p, ph, 0, 0, &x, BIG);
                }
                let k = self.n(20, 200);
                for _ in 0..k {
                    let mut x = m.clone();
                    for _ in 0..1 + self.rng.below(3) { let i = self.rng.below(x.len()); x[i] = self.rng.byte(); }
                    if self.rng.chance(1, 3) { let n = self.rng.below(x.len() + 1); x.truncate(n) }
                    if self.rng.chance(1, 4) { x.extend_from_slice(&m) }
                    self.one("mutate", &p, ph, 0, 0, &x, BIG);
                }
            }
        }
    }
    /// every slot number, every provisioning, every hash
    pub fn rsp_slots(&mut self) {
        let ns = self.cfg.nslots;
        let all = (1u32 << ns) - 1;
        for h in self.cfg.hashes() {
            for mask in 0..=all {
                if ns > 5 && !self.thorough && !(mask.count_ones() <= 1 || mask == all || self.rng.chance(1, 6)) { continue }
                let p = self.tiny(mask, 80);
                for slot in 0..ns as u8 {
                    if !self.thorough && slot as u32 != mask % ns as u32 && !self.rng.chance(1, 3) { continue }
                    self.rec.begin("slots", p.id, false, false);
                    let mut r = Rsp::new(&p, false);
                    for m in self.lead(Ph::Id2, h, slot) { r.serve(&mut self.rec, &m, BIG); }
                    let m = self.m_cert(slot);
                    r.serve(&mut self.rec, &m, BIG);
                    let other = ((slot as usize + 1) % ns) as u8;
                    for s in [slot, other, slot] {
                        let m = self.m_chal(s);
                        if r.phase() == "Challenge" { r.serve(&mut self.rec, &m, BIG); }
                    }
                    self.rec.end();
                }
            }
        }
        // chains that look alike: of one size, under one root, the same in several slots
        for n in 0..6 { for h in self.cfg.hashes() {
            let p = self.alike(all, 60, n);
            self.rec.begin("alike", p.id, false, false);
            let mut r = Rsp::new(&p, false);
            for m in self.lead(Ph::Id2, h, 0) { r.serve(&mut self.rec, &m, BIG); }
            for s in 0..ns as u8 { let m = self.m_cert(s); if r.phase() != "Error" && !r.dead { r.serve(&mut self.rec, &m, BIG); } }
            for s in 0..ns as u8 { let m = self.m_chal(s); if r.phase() == "Challenge" { r.serve(&mut self.rec, &m, BIG); } }
            self.rec.end();
        } }
        let p = self.tiny(all & 0x15, 60);
        for s in 0..=255u8 {
            let c = self.m_cert(s);
            self.one("cert slot", &p, Ph::Id, 0, 0, &c, BIG);
            let c = self.m_chal(s);
            self.one("chal slot", &p, Ph::Chal, 0, 0, &c, BIG);
        }
        for (off, len) in [(0u16, 0u16), (0, 1), (1, 100), (0xffff, 0xffff), (17, 0)] {
            self.one("portion", &p, Ph::Id, 0, 0, &get_cert(0, off, len), BIG);
        }
        for mht in 0..=255u8 { let n = self.nonce(); self.one("mht", &p, Ph::Chal, 0, 0, &challenge(0, mht, &n), BIG); }
        // several certificates in a row, digests after, certificates without digests
        for seq in [vec![0u8, 1], vec![2, 0], vec![0, 0]] {
            self.rec.begin("certs", p.id, false, false);
            let mut r = Rsp::new(&p, false);
            for m in self.lead(Ph::Id, 0, 0) { r.serve(&mut self.rec, &m, BIG); }
            for s in seq { let m = self.m_cert(s % ns as u8); if r.phase() != "Error" { r.serve(&mut self.rec, &m, BIG); } }
            self.rec.end();
        }
        // signing failures, per slot
        let p = self.tiny(all, 60);
        for fail in 0..=all {
            if ns > 5 && !self.rng.chance(1, 8) { continue }
            for slot in 0..ns as u8 {
                self.rec.begin("signfail", p.id, false, false);
                let mut r = Rsp::new(&p, false);
                for m in self.lead(Ph::Chal, 0, slot) { r.serve(&mut self.rec, &m, BIG); }
                r.ctx.fail.set(fail);
                if r.phase() == "Challenge" { let m = self.m_chal(slot); r.serve(&mut self.rec, &m, BIG); }
                self.rec.end();
                if !self.thorough && ns > 4 { if self.rng.chance(1, 2) { break } }
            }
        }
    }
    /// what a requester may offer
    pub fn rsp_offers(&mut self) {
        let p = self.tiny(1, 60);
        for hash in 0..64u32 { self.one("hash", &p, Ph::Algs, 0, 0, &neg(1, 0x10, hash, &STRUCTS), BIG) }
        let nasym = self.n(1, 1);
        for asym in 0..512u32 {
            if asym.count_ones() > 2 && asym != 511 && !self.thorough && !self.rng.chance(1, 8) { continue }
            self.one("asym", &p, Ph::Algs, 0, 0, &neg(nasym as u8, asym, 7, &[]), BIG)
        }
        for bit in 0..32 {
            self.one("asym bit", &p, Ph::Algs, 0, 0, &neg(1, 0x10 | 1 << bit, 1, &[]), BIG);
            self.one("hash bit", &p, Ph::Algs, 0, 0, &neg(1, 0x10, 1 | 1 << bit, &[]), BIG);
        }
        for m in 0..=255u8 { self.one("mspec", &p, Ph::Algs, 0, 0, &neg(m, 0x10, 1, &STRUCTS[..1]), BIG) }
        // structures: every type and selection
        for t in 0..=7u8 {
            for sel in 0..512u16 {
                let known = [0, 0, 6, 3, 9, 1, 0, 0][t as usize];
                if sel >= 1 << known && sel.count_ones() > 1 { continue }
                if !self.thorough && sel.count_ones() > 2 && !self.rng.chance(1, 10) { continue }
                self.one("struct", &p, Ph::Algs, 0, 0, &neg(1, 0x10, 1, &[(t, sel)]), BIG);
            }
            for b in 6..16 { self.one("struct bit", &p, Ph::Algs, 0, 0, &neg(1, 0x10, 1, &[(t, 1 << b)]), BIG) }
        }
        for n in 0..=6usize {
            for k in 0..self.n(12, 60) {
                let v: Vec<St> = (0..n).map(|i| {
                    let t = if k == 0 { 2 + i as u8 % 4 } else if k == 1 { 2 } else { 2 + self.rng.below(4) as u8 };
                    let known = [6, 3, 9, 1][t as usize - 2];
                    let mut sel = self.rng.next() as u16 & ((1 << known) - 1);
                    if sel == 0 && !self.rng.chance(1, 20) { sel = 1 }
                    (t, sel)
                }).collect();
                let h = self.rng.below(3);
                self.one("structs", &p, Ph::Algs, 0, 0, &neg(1, 0x10, 1 << h, &v), BIG);
            }
        }
        // fixed and extended counts of a structure, extended algorithms, announced length
        for fc in 0..=255u8 {
            let mut m = neg(1, 0x10, 1, &STRUCTS[..2]);
            m[33] = fc;
            m.extend_from_slice(&[0; 64]);
            self.one("fixed", &p, Ph::Algs, 0, 0, &m, BIG);
        }
        for (a, b) in [(0u8, 1u8), (1, 0), (1, 1), (2, 3), (255, 255), (20, 0), (0, 21), (8, 8)] {
            let mut m = neg(1, 0x10, 1, &[]);
            m[28] = a;
            m[29] = b;
            m.extend(vec![0x77; 4 * (a as usize + b as usize)]);
            let full = m.clone();
            self.one("ext", &p, Ph::Algs, 0, 0, &full, BIG);
            let k = m.len() - 1;
            if a as usize + b as usize > 0 { self.one("ext", &p, Ph::Algs, 0, 0, &m[..k], BIG); }
            let mut m = neg(1, 0x10, 1, &[]);
            m[2] = 1;
            m[28] = a;
            m[29] = b;
            m.extend(vec![0x77; 4 * (a as usize + b as usize)]);
            m.extend_from_slice(&[3, 0x21, 2, 0, 9, 9, 9, 9]);
            self.one("ext", &p, Ph::Algs, 0, 0, &m, BIG);
        }
        for len in [0usize, 1, 31, 32, 33, 127, 128, 129, 255, 256, 0xffff] {
            let mut m = neg(1, 0x10, 1, &STRUCTS);
            m[4..6].copy_from_slice(&le16(len));
            self.one("length", &p, Ph::Algs, 0, 0, &m, BIG);
        }
        for n in 0..=255u8 {
            let mut m = neg(1, 0x10, 1, &STRUCTS);
            m[2] = n;
            self.one("count", &p, Ph::Algs, 0, 0, &m, BIG);
        }
        // digests and signatures under each selected hash
        for hs in 1..8u32 {
            let p = self.prov(3, 0);
            self.rec.begin("hash used", p.id, false, false);
            let mut r = Rsp::new(&p, false);
            for m in self.lead(Ph::Algs, 0, 0) { r.serve(&mut self.rec, &m, BIG); }
            for m in [neg(1, 0x1ff, hs | (self.rng.below(8) as u32) << 3, &STRUCTS), get_digests(), self.m_cert(0), self.m_chal(0), self.m_chal(1 % self.cfg.nslots as u8)] {
                if r.phase() != "Error" { r.serve(&mut self.rec, &m, BIG); }
            }
            self.rec.end();
        }
    }
    /// every capability word: single bits, pairs, random
    pub fn rsp_caps(&mut self) {
        let p = self.tiny(3, 60);
        let mut words: Vec<u32> = (0..32).map(|b| 1 << b).collect();
        for a in 0..32 { for b in 0..a { if self.thorough || (a < 18 && self.rng.chance(1, 2)) { words.push(1 << a | 1 << b) } } }
        words.extend([0, self.cfg.caps, 0x1ffc6, 0xffffffff, 6, 0x106]);
        for _ in 0..self.n(30, 300) { words.push(self.rng.next() as u32 & 0x1ffc6) }
        for w in words {
            self.rec.begin("caps", p.id, false, false);
            let mut r = Rsp::new(&p, false);
            let ct = self.rng.byte();
            for m in [get_version(), get_caps(ct, w), self.m_neg(0), get_digests(), self.m_cert(0), self.m_chal(0)] {
                if r.phase() != "Error" && r.phase() != "None" { r.serve(&mut self.rec, &m, BIG); }
            }
            self.rec.end();
        }
        // whatever is provisioned, whichever is asked first
        let all = (1u32 << self.cfg.nslots) - 1;
        for mask in [0, 1, all] {
            let p = self.tiny(mask, 60);
            for m in [get_digests(), self.m_cert(0), self.m_cert(1), self.m_cert(7), self.m_chal(0)] { self.one("first", &p, Ph::Id, 0, 0, &m, BIG) }
        }
        for ct in 0..=255u8 { self.one("ct", &p, Ph::Caps, 0, 0, &get_caps(ct, self.cfg.caps), BIG) }
    }
    /// every size of the output buffer
    pub fn rsp_buf(&mut self) {
        let all = (1u32 << self.cfg.nslots) - 1;
        for (mask, hs) in [(all, 0u32), (1, 2), (3, 1)] {
            if !self.cfg.hashes().contains(&hs) { continue }
            let p = self.tiny(mask, 70);
            for ph in [Ph::Version, Ph::Caps, Ph::Algs, Ph::Id, Ph::Id2, Ph::Chal, Ph::Chal2] {
                for m in self.own_request(ph) {
                    // learn the size of the response
                    let mut probe = Rsp::new(&p, false);
                    let mut scratch = crate::rec::Rec::new(String::new());
                    scratch.begin("", 1, false, false);
                    for x in self.lead(ph, hs, 0) { probe.serve(&mut scratch, &x, BIG); }
                    let n = probe.serve(&mut scratch, &m, BIG).out.len();
                    for cap in 0..=n + 2 {
                        if !self.thorough && cap > 10 && cap + 4 < n && cap % 5 != 0 { continue }
                        self.one("cap", &p, ph, hs, 0, &m, cap);
                    }
                    for cap in [255usize, 256, 257, 511, 512, 65535, 65536, 65537, 65536 + n - 1, 65536 + n, 1 << 17, 1 << 20] { self.one("cap", &p, ph, hs, 0, &m, cap) }
                    // and failures, in every small buffer
                    for cap in 0..=10 { self.one("errcap", &p, ph, hs, 0, &[0x11, 0x7e, 0, 0], cap) }
                    for cap in 0..=6 { self.one("errcap", &p, ph, hs, 0, &[0x11], cap) }
                }
            }
            for cap in 0..=9 {
                let m = self.m_chal(77);
                self.one("errcap", &p, Ph::Chal, hs, 0, &m, cap);
                self.one("errcap", &p, Ph::Algs, hs, 0, &neg(1, 0, 0, &[]), cap);
                self.one("errcap", &p, Ph::Id, hs, 0, &get_cert(99, 0, 0), cap);
            }
        }
    }
    /// GET_VERSION and reset at every point, judged against a new responder
    pub fn rsp_restart(&mut self) {
        let provs = [self.tiny(3, 70), self.tiny((1 << self.cfg.nslots) - 1, 64)];
        let n = self.n(1, 3);
        for round in 0..n {
            for p in &provs {
                for ph in PHASES {
                    for second in PHASES {
                        for how in 0..4 {
                            self.rec.begin("restart", p.id, false, false);
                            let mut r = Rsp::new(p, true);
                            let (h1, h2) = (self.rng.below(3) as u32, self.rng.below(3) as u32);
                            let hs = self.cfg.hashes();
                            let (h1, h2) = (hs[h1 as usize % hs.len()], hs[h2 as usize % hs.len()]);
                            let mut lead = self.lead(ph, h1, 1 % self.cfg.nslots as u8);
                            if lead.len() > 1 && how != 1 { lead[1] = get_caps(self.rng.byte(), 0x1c6 | self.rng.next() as u32 & 0xc6) }
                            for m in lead { if r.phase() != "Error" { r.serve(&mut self.rec, &m, BIG); } }
                            match how {
                                0 => (),
                                1 => r.reset(&mut self.rec),
                                2 => { // fail first
                                    let bad = self.rng.pick(&[vec![0x11u8, 0x55, 0, 0], vec![], get_caps(0, 1), vec![0x10, 0x84, 1, 0]]).clone();
                                    r.serve(&mut self.rec, &bad, BIG);
                                    if self.rng.chance(1, 2) { r.serve(&mut self.rec, &get_version(), BIG); }
                                    r.reset(&mut self.rec);
                                }
                                _ => { // restart with a buffer too small, then reset
                                    r.serve(&mut self.rec, &get_version(), 3);
                                    r.reset(&mut self.rec);
                                }
                            }
                            let mut again = self.lead(second, h2, 0);
                            if how == 0 && second == Ph::Version { again = vec![get_version()] }
                            for m in again { if r.phase() != "Error" && r.phase() != "None" { r.serve(&mut self.rec, &m, BIG); } }
                            // a request out of phase, or in phase
                            if r.phase() != "Error" && r.phase() != "None" {
                                let v = self.valid_requests();
                                let m = self.rng.pick(&v).clone();
                                r.serve(&mut self.rec, &m, BIG);
                            }
                            self.rec.end();
                            if self.rec.full() { return }
                        }
                    }
                }
            }
            let _ = round;
        }
    }
    /// the transcript filled to the last byte, and chains of the size of the buffer
    pub fn rsp_room(&mut self) {
        let p = self.tiny(3, 70);
        let trm = self.cfg.tr_max;
        let targets: Vec<usize> = vec![trm - 3, trm - 2, trm - 1, trm, trm + 1, trm + 2, trm + 40];
        for ph in PHASES {
            let msgs = self.own_request(ph);
            for m in msgs {
                for t in &targets {
                    // size of the response to m, signature aside
                    let mut probe = Rsp::new(&p, false);
                    let mut scratch = crate::rec::Rec::new(String::new());
                    scratch.begin("", 1, false, false);
                    let lead = self.lead(ph, 0, 0);
                    let mut ok = true;
                    for x in &lead { ok = ok && probe.serve(&mut scratch, x, BIG).ok; }
                    let base = probe.tr.len();
                    let o = probe.serve(&mut scratch, &m, BIG);
                    if !ok || !o.ok { continue }
                    let restarted = m[1] == 0x84;
                    let after = probe.tr.len();
                    if *t < after { continue }
                    // pad the last request so that the transcript ends at t
                    let pad = t - after;
                    if restarted || lead.is_empty() {
                        let mut x = m.clone();
                        x.extend(self.rng.bytes(pad));
                        self.one("fill", &p, ph, 0, 0, &x, BIG);
                        continue;
                    }
                    for wher in 0..2 {
                        self.rec.begin("fill", p.id, false, false);
                        let mut r = Rsp::new(&p, false);
                        let k = lead.len();
                        for (i, x) in lead.iter().enumerate() {
                            let mut x = x.clone();
                            if wher == 1 && i + 1 == k { x.extend(self.rng.bytes(pad)) }
                            if r.phase() != "Error" { r.serve(&mut self.rec, &x, BIG); }
                        }
                        let mut x = m.clone();
                        if wher == 0 { x.extend(self.rng.bytes(pad)) }
                        if r.phase() != "Error" { r.serve(&mut self.rec, &x, BIG); }
                        // after that, a restart has all the room again
                        if r.phase() != "Error" && !r.dead {
                            r.serve(&mut self.rec, &get_version(), BIG);
                            let c = self.m_caps();
                            if r.phase() != "Error" { r.serve(&mut self.rec, &c, BIG); }
                        }
                        self.rec.end();
                    }
                    let _ = base;
                }
            }
        }
        // requests whose length does not fit in 16 bits
        for ph in PHASES { for m in self.own_request(ph) { for n in [65535usize, 65536, 65536 + 1, 65536 + m.len(), 2 * 65536 + m.len()] {
            let mut x = m.clone();
            x.resize(n, 0);
            self.one("huge", &p, ph, 0, 0, &x, BIG);
        } } }
        // GET_DIGESTS again and again until nothing more fits
        if self.cfg.can_id() {
            for k in 0..3 {
                self.rec.begin("many", p.id, false, false);
                let mut r = Rsp::new(&p, false);
                for m in self.lead(Ph::Id, 0, 0) { r.serve(&mut self.rec, &m, BIG); }
                for _ in 0..200 {
                    if r.phase() == "Error" { break }
                    let mut m = get_digests();
                    m.extend(self.rng.bytes(if k == 0 { 0 } else { 400 * k }));
                    r.serve(&mut self.rec, &m, BIG);
                }
                self.rec.end();
            }
        }
        // chains around the capacity
        let key = std::rc::Rc::new(load_key(&self.certs.get("s0").key));
        let cm = self.cfg.chain_max;
        for size in [cm - 2, cm - 1, cm, cm + 1, cm + 2, cm + 100] {
            if size > 65535 { continue }
            for slot in 0..self.cfg.nslots.min(3) {
                let sp = self.synthetic(slot, size, &key);
                let mut v: Vec<Option<SlotP>> = (0..self.cfg.nslots).map(|i| if i == 0 || i == slot { Some(self.synthetic(9, 64, &key)) } else { None }).collect();
                v[slot] = Some(sp);
                let p = Prov::new(&mut self.rec, v);
                for m in [get_digests(), self.m_cert(slot as u8), self.m_cert(0)] { self.one("chain", &p, Ph::Id, 0, 0, &m, BIG); }
                for (c, s) in [(slot, slot), (0, slot), (slot, 0)] {
                    self.rec.begin("chain", p.id, false, false);
                    let mut r = Rsp::new(&p, false);
                    for m in self.lead(Ph::Id, 0, 0) { r.serve(&mut self.rec, &m, BIG); }
                    for m in [self.m_cert(c as u8), self.m_chal(s as u8)] { if r.phase() != "Error" { r.serve(&mut self.rec, &m, BIG); } }
                    self.rec.end();
                }
            }
        }
    }
    /// random walks
    pub fn rsp_rand(&mut self) {
        let sessions = self.n(500, 6000);
        for _ in 0..sessions {
            if self.rec.full() { return }
            let mask = self.rng.next() as u32 & ((1 << self.cfg.nslots) - 1);
            let p = if self.rng.chance(1, 6) { self.prov(mask, 0) } else { self.tiny(mask, 60) };
            self.rec.begin("random", p.id, false, false);
            let mut r = Rsp::new(&p, self.rng.chance(1, 2));
            let good = self.rng.below(3);
            for _ in 0..3 + self.rng.below(14) {
                if r.phase() == "Error" || r.dead {
                    if self.rng.chance(1, 2) { break }
                    r.reset(&mut self.rec);
                    continue;
                }
                let slot = self.rng.below(self.cfg.nslots + 1) as u8;
                let mut m = match (good, self.rng.below(8)) {
                    (_, 0) => { let v = self.valid_requests(); self.rng.pick(&v).clone() }
                    (_, 1) => get_version(),
                    (_, 2) if r.phase() == "IdAuth" => get_digests(),
                    (_, 3) if r.phase() == "Algorithms" => neg(self.rng.below(2) as u8, self.rng.next() as u32 & 0x1ff, self.rng.next() as u32 & 0x3f, &STRUCTS[self.rng.below(4)..]),
                    (_, 4) if r.phase() == "Capabilities" => get_caps(self.rng.byte(), self.rng.next() as u32 & 0x1ffc6),
                    _ => self.probe(&r.phase().to_string(), slot),
                };
                if good == 0 && self.rng.chance(1, 8) && !m.is_empty() { let i = self.rng.below(m.len()); m[i] ^= 1 << self.rng.below(8) }
                if self.rng.chance(1, 12) { let k = self.rng.below(30); m.extend(self.rng.bytes(k)) }
                if self.rng.chance(1, 30) { r.ctx.fail.set(self.rng.next() as u32 & ((1 << self.cfg.nslots) - 1)) }
                let cap = if self.rng.chance(1, 10) { self.rng.below(200) } else { BIG };
                r.serve(&mut self.rec, &m, cap);
                if self.rng.chance(1, 40) { r.reset(&mut self.rec) }
            }
            self.rec.end();
        }
    }
}
