//! Long lives: hundreds of restarts, refusals, repetitions and handshakes of
//! one peer, up to the last byte of its transcript.
use crate::drv::*;
use crate::enc::*;
use crate::world::*;

impl D {
    /// the same, over and over, for as long as it is answered
    fn until_full(&mut self, r: &mut Rsp, m: &[u8], most: usize) {
        for _ in 0..most {
            if r.dead || r.phase() == "Error" || r.phase() == "None" { return }
            r.serve(&mut self.rec, m, BIG);
        }
    }
    pub fn rsp_long(&mut self) {
        let ns = self.cfg.nslots as u32;
        let all = (1 << ns) - 1;
        let hs = self.cfg.hashes();
        let small = self.tiny(0, 64);
        let p = self.tiny(all, 64);
        // restarted 300 times: by GET_VERSION, by reset, after failures
        for (i, prov) in [&p, &small, &p, &p].iter().enumerate() {
            self.rec.begin("restarted 300 times", prov.id, false, false);
            let mut r = Rsp::new(prov, true);
            let bad = [vec![0x11u8, 0x55, 0, 0], vec![], vec![0x10, 0x84, 1, 0]];
            for k in 0..300 {
                if r.dead { break }
                match i {
                    0 | 1 => { r.serve(&mut self.rec, &get_version(), BIG); }
                    2 => { r.reset(&mut self.rec); }
                    _ => { r.serve(&mut self.rec, &bad[k % 3], BIG); r.reset(&mut self.rec); }
                }
            }
            for m in self.lead(Ph::Chal2, hs[i % hs.len()], 0) { if !r.dead && r.phase() != "Error" { r.serve(&mut self.rec, &m, BIG); } }
            // there is as much room as ever
            r.reset(&mut self.rec);
            for m in self.lead(Ph::Id, hs[0], 0) { if !r.dead { r.serve(&mut self.rec, &m, BIG); } }
            self.until_full(&mut r, &get_digests(), 2000);
            self.rec.end();
        }
        // as many digests and challenges as there is room for
        for prov in [&p, &small] { for round in 0..2 {
            self.rec.begin("over and over", prov.id, false, false);
            let mut r = Rsp::new(prov, true);
            for _ in 0..=round {
                for m in self.lead(Ph::Id, hs[0], 0) { if !r.dead { r.serve(&mut self.rec, &m, BIG); } }
                if round == 0 { self.until_full(&mut r, &get_digests(), 4000); }
                let c = self.m_cert(0);
                if r.phase() == "IdAuth" { r.serve(&mut self.rec, &c, BIG); }
                let n = self.m_chal(0);
                self.until_full(&mut r, &n, 400);
                r.reset(&mut self.rec);
            }
            self.rec.end();
        } }
        // one handshake after another, with other algorithms, flags and slots each time
        self.rec.begin("handshakes in turn", p.id, false, false);
        let mut r = Rsp::new(&p, true);
        for k in 0..self.n(60, 300) {
            if r.dead { break }
            let ph = [Ph::Chal2, Ph::Chal2, Ph::Id2, Ph::Chal][k % 4];
            let mut lead = self.lead(ph, hs[k % hs.len()], (k as u32 % ns) as u8);
            if lead.len() > 1 && k % 3 == 1 { lead[1] = get_caps(12, 0x1c6) }
            for m in lead { if !r.dead && r.phase() != "Error" { r.serve(&mut self.rec, &m, BIG); } }
            if k % 5 == 4 { r.reset(&mut self.rec) }
        }
        self.rec.end();
    }
    pub fn req_long(&mut self) {
        let p = self.prov(0, 0);
        let c = self.slot("s0", 0).bytes();
        let order = [Ph::Version, Ph::Caps, Ph::Algs, Ph::Id, Ph::Id2, Ph::Chal];
        for ph in order { for how in 0..2 {
            self.rec.begin(if how == 0 { "written again and again" } else { "refused again and again" }, p.id, false, false);
            let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
            // the step has not been written yet
            let key = load_key(&self.certs.get("s0").key);
            let upto = order.iter().position(|x| *x as u8 == ph as u8).unwrap();
            let mut led = true;
            for i in 0..upto {
                if !led || !q.next(&mut self.rec, BIG).ok { led = false; break }
                let n = self.nonce();
                let tr = q.tr.clone();
                let name = q.phase();
                let rsp = self.honest_rsp(&tr, name, i == 4, 0, &c, &key, &n);
                led = q.handle(&mut self.rec, &rsp, &mut self.vf) == "ok";
            }
            if led {
                let times = if how == 1 || ph as u8 == Ph::Version as u8 { 300 } else { 3000 };
                for k in 0..times {
                    if !q.next(&mut self.rec, if how == 1 { k % 4 } else { BIG }).ok && how == 0 { break }
                }
                // the response to the last one written
                let n = self.nonce();
                if how == 1 { q.next(&mut self.rec, BIG); }
                let tr = q.tr.clone();
                let name = q.phase();
                let rsp = self.honest_rsp(&tr, name, upto == 4, 0, &c, &key, &n);
                q.handle(&mut self.rec, &rsp, &mut self.vf);
            }
            self.rec.end();
        } }
    }
    /// one responder and many requesters in turn
    pub fn net_long(&mut self) {
        let ns = self.cfg.nslots;
        let p = self.prov((1u32 << ns.min(3)) - 1, 0);
        let fits = self.fits(&p);
        self.rec.begin("many requesters in turn", p.id, fits, false);
        let mut r = Rsp::new(&p, false);
        for k in 0..self.n(70, 300) {
            let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
            self.run(&mut q, &mut r, k % 7 == 3, if k % 5 == 2 { k % 6 } else { 9 });
            if r.dead || q.dead { break }
            let stopped = k % 5 == 2;
            self.rec.event(format!("{{\"k\":\"end\",\"expect\":{},\"ph\":\"{}\"}}", fits && !stopped, q.phase()));
            self.rec.event("{\"k\":\"renew\"}".into());
        }
        self.rec.end();
    }
}
