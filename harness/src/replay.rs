//! Behaviours of the specification (spec/MCRsp, MCReq), run by the real peers.
use crate::drv::*;
use crate::enc::*;
use crate::world::*;
use serde_json::Value;

fn bytes(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }
fn num(v: &Value) -> usize { v.as_u64().unwrap() as usize }
fn steps(v: &Value) -> Vec<usize> { v.as_array().unwrap().iter().map(num).collect() }
fn mask(v: &Value) -> u32 { v.as_array().unwrap().iter().fold(0, |a, x| a | 1 << num(x)) }

impl D {
    pub fn b_rsp(&mut self, b: &Value) {
        let letters = b["letters"].as_array().unwrap();
        for x in b["paths"].as_array().unwrap() {
            let p = self.prov(mask(&b["provs"][num(&x[0]) - 1]), 0);
            let path = steps(&x[1]);
            let restarts = path.iter().skip(1).any(|i| *i < 2);
            self.rec.begin(&format!("path {:?}", path), p.id, false, false);
            let mut r = Rsp::new(&p, restarts);
            for i in path {
                if i == 0 { r.reset(&mut self.rec); continue }
                let l = &letters[i - 1];
                r.ctx.fail.set(mask(&l["f"]));
                r.serve(&mut self.rec, &bytes(&l["b"]), num(&l["cap"]));
            }
            if r.phase() == "Error" { r.serve(&mut self.rec, &get_version(), BIG); }
            self.rec.end();
        }
    }
    fn named(&self, n: &str) -> Vec<u8> {
        match n {
            "none" => vec![],
            "cut" => { let mut v = self.slot("s0", 0).bytes(); v.truncate(v.len() - 5); let n = le16(v.len()); v[0] = n[0]; v[1] = n[1]; v }
            n => self.slot(n, 0).bytes(),
        }
    }
    pub fn b_req(&mut self, b: &Value) {
        let letters = b["letters"].as_array().unwrap();
        let p = self.prov(0, 0);
        for x in b["paths"].as_array().unwrap() {
            let path = steps(&x[1]);
            self.rec.begin(&format!("path {:?}", path), p.id, false, false);
            let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
            let (mut h, mut chain) = (0u32, "s0".to_string());
            for (k, i) in path.iter().enumerate() {
                if (i + k + path.len()) % 5 == 0 { q.next(&mut self.rec, (i + k) % 4); }
                q.next(&mut self.rec, BIG);
                let l = &letters[i - 1];
                let rsp = match l["k"].as_str().unwrap() {
                    "raw" => bytes(&l["b"]),
                    "digests" => {
                        let d = if l["good"].as_bool().unwrap() { hash(h, &self.named("s0")) } else { vec![7; hash_len(h)] };
                        let m = num(&l["mask"]) as u8;
                        digests(m, &vec![d; (0..self.cfg.nslots).filter(|s| m >> s & 1 == 1).count()])
                    }
                    "cert" => {
                        chain = l["ch"].as_str().unwrap().into();
                        certificate(num(&l["slot"]) as u8, 0, &self.named(&chain))
                    }
                    _ => self.b_auth(l, h, &chain, &q.tr.clone()),
                };
                if rsp.len() > 20 && rsp[1] == 0x63 { h = rsp[16].trailing_zeros() % 3 }
                q.handle(&mut self.rec, &rsp, &mut self.vf);
            }
            q.next(&mut self.rec, BIG);
            if q.phase() == "Error" || q.phase() == "NewSession" { q.handle(&mut self.rec, &our_versions(), &mut self.vf); }
            self.rec.end();
        }
    }
    pub fn b_net(&mut self, b: &Value) {
        let letters = |n: &str, i: usize| -> Alt {
            if i == 0 { return Alt::default() }
            let l = &b[n].as_array().unwrap()[i - 1];
            Alt { o: l["o"].as_str().unwrap().into(), at: l["at"].as_i64().unwrap(), k: num(&l["k"]) as u8, b: bytes(&l["b"]) }
        };
        for x in b["paths"].as_array().unwrap() {
            let p = self.prov(mask(&b["provs"][num(&x[0]) - 1]), 0);
            let path = steps(&x[1]);
            self.rec.begin(&format!("path {:?}", path), p.id, false, false);
            let mut r = Rsp::new(&p, path.contains(&0));
            let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
            let (mut hq, mut hr): (Vec<Vec<u8>>, Vec<Vec<u8>>) = (vec![], vec![]);
            for i in path {
                if i == 0 {
                    self.rec.event("{\"k\":\"renew\"}".into());
                    q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
                    if r.phase() == "Error" { r.reset(&mut self.rec) }
                    continue
                }
                if q.dead { break }
                let (ra, sa) = (letters("ra", (i - 1) / 100), letters("sa", (i - 1) % 100));
                let req = q.next(&mut self.rec, BIG);
                if !req.ok { break }
                hq.push(req.out.clone());
                match ra.o.as_str() {
                    "before" => { self.b_serve(&mut r, &ra.b); }
                    "twice" => { self.b_serve(&mut r, &req.out); }
                    _ => {}
                }
                if ra.o == "drop" { continue }
                let rsp = self.b_serve(&mut r, &ra.simple(&req.out, &hq));
                hr.push(rsp.clone());
                let rsp = match sa.o.as_str() {
                    "drop" => continue,
                    "evil" | "other" | "resign" => self.b_forge(&sa, &rsp, &q.tr.clone(), p.slots[0].as_ref().unwrap()),
                    _ => sa.simple(&rsp, &hr),
                };
                q.handle(&mut self.rec, &rsp, &mut self.vf);
            }
            if q.phase() == "NewSession" { q.next(&mut self.rec, BIG); }
            self.rec.end();
        }
    }
    fn b_serve(&mut self, r: &mut Rsp, m: &[u8]) -> Vec<u8> {
        if r.dead || r.phase() == "Error" { return vec![] }
        r.serve(&mut self.rec, m, BIG).out
    }
    /// what the attacker makes itself: a chain, or a signature, of its own or of another slot
    fn b_forge(&mut self, a: &Alt, m: &[u8], tr: &[u8], own: &SlotP) -> Vec<u8> {
        let chain = self.slot(if a.o == "evil" { "evil" } else { "s1" }, 0).bytes();
        if a.k == 2 { return certificate(0, 0, &chain) }
        if m.len() < 110 { return m.to_vec() }
        let n = m.len() - 64;
        let mut x = m[..n].to_vec();
        // the digest tells the hash
        let h = (0..3).find(|h| x[4..].starts_with(&hash(*h, &own.bytes()))).unwrap_or(0);
        if a.o != "resign" { let d = hash(h, &chain); x[4..4 + d.len()].copy_from_slice(&d); }
        if a.o == "other" { x.extend_from_slice(&m[n..]); return x }
        let key = load_key(&self.certs.get("evil").key);
        sign_auth(tr, x, h, &key)
    }
    fn b_auth(&mut self, l: &Value, h: u32, chain: &str, tr: &[u8]) -> Vec<u8> {
        let own = hash(h, &self.named(chain));
        let d = match l["dig"].as_str().unwrap() {
            "own" => own,
            "flip" => { let mut d = own; let i = self.rng.below(d.len()); d[i] ^= 1 << self.rng.below(8); d }
            "other" => hash(h, &self.named("s2")),
            _ => vec![0; own.len()],
        };
        let n = self.nonce();
        let els = vec![element(0, &[], &[1, 2, 3]); num(&l["opq"]).min(self.cfg.opq_n)];
        let slot = num(&l["slot"]) as u8 | if l["mut"].as_bool().unwrap() { 0x80 } else { 0 };
        let mut a = auth(slot, num(&l["mask"]) as u8, &d, &n, &vec![0; hash_len(h)], &opaque(&els));
        let by = l["by"].as_str().unwrap();
        let key = if by == "own" { chain } else { by };
        let key = if self.certs.chains.contains_key(key) { key } else { "s0" };
        let key = load_key(&self.certs.get(key).key);
        let all = [tr, &a].concat();
        let s = match l["over"].as_str().unwrap() {
            _ if by == "zero" => vec![0; 64],
            "all" | "late" => sign_class(&key, &hash(h, &all), None),
            "stale" => sign_class(&key, &hash(h, &[&tr[..tr.len().saturating_sub(4 + n.len())], &a].concat()), None),
            "plain" => sign_class(&key, &all, None),
            "hash" => sign_class(&key, &hash((h + 1) % 3, &all), None),
            _ => sign_class(&key, &hash(h, &a), None),
        };
        if l["over"] == "late" { let k = 4 + d.len() + self.rng.below(n.len().max(1)); a[k] ^= 1 << self.rng.below(8) }
        a.extend_from_slice(&s);
        a
    }
}

#[derive(Default)]
struct Alt { o: String, k: u8, at: i64, b: Vec<u8> }
impl Alt {
    fn simple(&self, m: &[u8], hist: &[Vec<u8>]) -> Vec<u8> {
        let mut x = m.to_vec();
        let i = if self.at < 0 { x.len() as i64 + self.at } else { self.at };
        match self.o.as_str() {
            "set" => for (j, v) in self.b.iter().enumerate() { let k = i + j as i64; if k >= 0 && (k as usize) < x.len() { x[k as usize] = *v } },
            "xor" => if i >= 0 && (i as usize) < x.len() { x[i as usize] ^= self.b[0] },
            "cut" => { x.pop(); }
            "instead" => x = self.b.clone(),
            "replay" => x = hist[..hist.len() - 1].iter().rev().find(|y| y.len() > 1 && y[1] == self.k).cloned().unwrap_or_default(),
            _ => {}
        }
        x
    }
}
