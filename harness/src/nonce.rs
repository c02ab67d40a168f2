//! Nonces of everything that carries one: many peers, retries, restarts, repeated inputs, other processes.
use crate::drv::*;
use crate::enc::*;
use crate::pure::put;
use crate::rec::*;
use crate::source;
use crate::world::*;
use spdm::msgs::*;
use std::panic::catch_unwind;

type N = (&'static str, Vec<u8>, Vec<u8>);
impl D {
    /// (class, nonce, nonce of the request it answers)
    pub fn nonces(&mut self, n: usize) -> Vec<N> { self.shaky_nonces(n, 0) }
    /// the random source fails at every `p`-th request
    fn shaky_nonces(&mut self, n: usize, p: usize) -> Vec<N> {
        let nl = self.cfg.nonce_len;
        let mut v: Vec<N> = vec![];
        let cut = |b: &[u8], i: usize| b.get(i..(i + nl).min(b.len())).unwrap_or(&[]).to_vec();
        for i in 0..n {
            // no nonce without a random source
            source::unsteady(p);
            let m = catch_unwind(|| put(&Challenge::new(i as u8 % 2, MeasurementHashType::None), 100).1);
            source::unsteady(0);
            if let Ok(b) = m { v.push(("made", cut(&b, 4), vec![])) }
        }
        if !self.cfg.can_chal() { return v }
        let mut scratch = Rec::new(String::new());
        std::mem::swap(&mut self.rec, &mut scratch);
        let pr = self.prov(1, 0);
        let chain = pr.slots[0].as_ref().unwrap().bytes();
        self.rec.begin("", 1, false, false);
        // requesters: new ones, and asked again, also after a buffer that was too small
        for i in 0..n {
            let mut q = Rq::new(self.certs.roots[0], &self.cfg, self.need);
            if !self.lead_rq(&mut q, Ph::Id2, 0, &chain) { continue }
            let c = certificate(0, 0, &chain);
            q.handle(&mut self.rec, &c, &mut self.vf);
            for k in 0..3 {
                if q.dead { continue }
                source::unsteady(p);
                let o = q.next(&mut self.rec, if (i + k) % 3 == 1 { 20 } else { BIG });
                source::unsteady(0);
                if o.ok && o.out.len() > 4 && o.out[1] == 0x83 { v.push(("challenge", cut(&o.out, 4), vec![])) }
            }
        }
        // responders: new ones and restarted ones, with the same requests
        let fixed = vec![0x3c; nl];
        let mut old = Rsp::new(&pr, false);
        for i in 0..n {
            let mut new = Rsp::new(&pr, false);
            let r = if i % 2 == 0 { &mut new } else { &mut old };
            let mut ok = true;
            for m in self.lead(Ph::Chal, 0, 0) { ok = ok && r.serve(&mut self.rec, &m, BIG).ok }
            let rq = match i % 8 { 6 => vec![i as u8; nl], 7 => self.rng.bytes(nl), _ => fixed.clone() };
            if ok {
                source::unsteady(p);
                let o = r.serve(&mut self.rec, &challenge(0, [0, 1, 255][i % 3], &rq), BIG);
                source::unsteady(0);
                if o.ok { v.push(("auth", cut(&o.out, 36), rq)) }
            }
            if old.dead { old = Rsp::new(&pr, false) }
            if i % 4 == 1 { old.reset(&mut self.rec) }
        }
        std::mem::swap(&mut self.rec, &mut scratch);
        v
    }
    pub fn nonce_child(&mut self) {
        source::take();
        for (c, n, r) in self.nonces(12).into_iter().chain(drawn()) { println!("NONCE {} {} {}", c, hex(&n), hex(&r)) }
    }
    pub fn p_nonce(&mut self) {
        let seen = source::seen();
        let mut v = self.nonces(self.n(270, 800));
        // several threads at once
        let (nl, k) = (self.cfg.nonce_len, self.n(20, 60));
        let start = std::sync::Barrier::new(8);
        let all: Vec<Vec<u8>> = std::thread::scope(|s| {
            let t: Vec<_> = (0..8).map(|_| s.spawn(|| {
                start.wait();
                (0..k).map(|i| put(&Challenge::new(i as u8 % 2, MeasurementHashType::None), 100).1).collect::<Vec<_>>()
            })).collect();
            t.into_iter().flat_map(|t| t.join().unwrap()).collect()
        });
        v.extend(all.iter().map(|b| ("made", b.get(4..4 + nl).unwrap_or(&[]).to_vec(), vec![])));
        // a random source that fails now and then
        for p in [2, 3, 5, 8, 13, 21] {
            v.extend(self.shaky_nonces(12, p));
        }
        // signed measurements
        #[cfg(feature = "fields")]
        for i in 0..80usize {
            use spdm::msgs::verif as m;
            let g = GetMeasurements::new(m::RequestAttributes { signature_requested: true, raw_bit_stream_requested: i % 2 == 0 }, m::MeasurementIndex::from(1), 0);
            let (_, b) = put(&g, 100);
            v.push(("measure", b.get(4..4 + self.cfg.nonce_len).unwrap_or(&[]).to_vec(), vec![]));
        }
        // the same work in two other processes
        let exe = std::env::current_exe().unwrap();
        let mut args: Vec<String> = std::env::args().skip(1).collect();
        args[0] = "nonce_child".into();
        for _ in 0..2 {
            let o = std::process::Command::new(&exe).args(&args).output().expect("child");
            assert!(o.status.success(), "child failed: {}", String::from_utf8_lossy(&o.stderr));
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                let w: Vec<&str> = l.split(' ').collect();
                if w[0] != "NONCE" { continue }
                let c = CLASSES.iter().find(|x| **x == w[1]).unwrap();
                v.push((c, unhex(w[2]), unhex(w.get(3).unwrap_or(&""))));
            }
        }
        // and in copies of this very process, with all that it remembers
        for round in 0..2 {
            let file = |k: usize| std::path::PathBuf::from(format!("nonces-{}-{}-{}", std::process::id(), round, k));
            let files = [file(0), file(1)];
            v.extend(drawn());
            for f in &files {
                let f = f.clone();
                let l: Vec<String> = in_copy(|| {
                    source::take();
                    let l: Vec<String> = self.nonces(3).iter().chain(&drawn()).map(|(c, n, r)| format!("{} {} {}", c, hex(n), hex(r))).collect();
                    std::fs::write(&f, l.join("\n")).unwrap();
                }, &f);
                for l in l {
                    let w: Vec<&str> = l.split(' ').collect();
                    let c = CLASSES.iter().find(|x| **x == w[0]).unwrap();
                    v.push((c, unhex(w[1]), unhex(w.get(2).unwrap_or(&""))));
                }
            }
            v.extend(self.nonces(1));
        }
        v.extend(drawn());
        self.rec.begin("nonces", 0, false, false);
        let mut source = vec![];
        for (c, n, r) in v {
            if c == "drawn" {
                source.extend(n);
                continue
            }
            let (a, b) = (self.rec.blob(&n), self.rec.blob(&r));
            self.rec.event(format!("{{\"k\":\"nonce\",\"cls\":\"{}\",\"v\":{},\"rq\":{}}}", c, a, b));
        }
        let s = self.rec.blob(&source);
        self.rec.event(format!("{{\"k\":\"nend\",\"chal\":{},\"seen\":{},\"drawn\":{}}}", self.cfg.can_chal(), seen, s));
        self.rec.end();
    }
}
const CLASSES: [&str; 4] = ["made", "challenge", "auth", "drawn"];
/// what the system's random source delivered since the last time
fn drawn() -> Vec<N> {
    let all = source::take();
    if all.is_empty() { vec![] } else { vec![("drawn", all, vec![])] }
}
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
/// what `f` wrote to `file` in a copy of this process
fn in_copy(f: impl FnOnce(), file: &std::path::Path) -> Vec<String> {
    unsafe {
        let p = fork();
        if p == 0 {
            let ok = catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok();
            _exit(if ok { 0 } else { 1 });
        }
        let mut st = 0;
        assert!(p > 0 && waitpid(p, &mut st, 0) == p && st == 0, "the copy failed");
    }
    let t = std::fs::read_to_string(file).unwrap();
    std::fs::remove_file(file).unwrap();
    t.lines().map(|l| l.to_string()).collect()
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
