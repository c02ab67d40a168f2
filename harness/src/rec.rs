//! The recorder: sessions of the real peers, written as the JSON file that
//! spec/Trace.tla reads.  Byte strings are shared through a table.
use std::collections::HashMap;
use std::fmt::Write as _;

pub struct Rec {
    pub cfg_json: String,
    ids: HashMap<Vec<u8>, usize>,
    blobs: Vec<Vec<u8>>,
    provs: Vec<String>,
    prov_ids: HashMap<String, usize>,
    traces: Vec<String>,
    cur: Option<Cur>,
    pub events: usize,
    pub quota: usize,
    nonces: Vec<Vec<u8>>,
}
struct Cur { prov: usize, honest: bool, sigclass: bool, label: String, ev: Vec<String> }

impl Rec {
    pub fn new(cfg_json: String) -> Rec {
        Rec { cfg_json, ids: HashMap::new(), blobs: vec![], provs: vec![], prov_ids: HashMap::new(),
              traces: vec![], cur: None, events: 0, quota: usize::MAX, nonces: vec![] }
    }
    /// Reference to a byte string: 0 is the empty one
    pub fn blob(&mut self, b: &[u8]) -> usize {
        if b.is_empty() { return 0 }
        if let Some(i) = self.ids.get(b) { return *i }
        self.blobs.push(b.to_vec());
        self.ids.insert(b.to_vec(), self.blobs.len());
        self.blobs.len()
    }
    pub fn prov(&mut self, json: String) -> usize {
        if let Some(i) = self.prov_ids.get(&json) { return *i }
        self.provs.push(json.clone());
        self.prov_ids.insert(json, self.provs.len());
        self.provs.len()
    }
    pub fn begin(&mut self, label: &str, prov: usize, honest: bool, sigclass: bool) {
        assert!(self.cur.is_none());
        crate::world::with_bystanders(self.traces.len() % 3 == 1);
        self.cur = Some(Cur { prov, honest, sigclass, label: label.into(), ev: vec![] });
    }
    pub fn event(&mut self, e: String) {
        self.events += 1;
        self.cur.as_mut().expect("no session").ev.push(e);
    }
    pub fn end(&mut self) {
        let c = self.cur.take().expect("no session");
        let mut s = String::new();
        write!(s, "{{\"cfg\":1,\"prov\":{},\"honest\":{},\"sigclass\":{},\"label\":\"{}\",\"ev\":[{}]}}",
               c.prov, c.honest, c.sigclass, c.label, c.ev.join(",\n ")).unwrap();
        self.traces.push(s);
    }
    pub fn abort(&mut self, group: &str) {
        if self.cur.is_none() { self.begin("the driver", 0, false, false) }
        self.event(format!("{{\"k\":\"abort\",\"g\":\"{}\"}}", group));
        self.end();
    }
    pub fn nonce(&mut self, b: &[u8]) { self.nonces.push(b.to_vec()) }
    pub fn sessions(&self) -> usize { self.traces.len() }
    /// how much there is for TLC to read
    pub fn weight(&self) -> usize { self.blobs.iter().map(|b| b.len()).sum() }
    pub fn full(&self) -> bool { self.events >= self.quota }
    pub fn json(&self) -> String {
        let mut s = String::new();
        s.push_str("{\"cfgs\":[");
        s.push_str(&self.cfg_json);
        s.push_str("],\n\"blobs\":[");
        for (i, b) in self.blobs.iter().enumerate() {
            if i > 0 { s.push_str(",\n") }
            s.push_str(&ints(b));
        }
        s.push_str("],\n\"provs\":[");
        s.push_str(&self.provs.join(",\n"));
        s.push_str("],\n\"traces\":[");
        s.push_str(&self.traces.join(",\n"));
        s.push_str("]}\n");
        s
    }
    pub fn nonces_json(&self) -> String {
        format!("[{}]", self.nonces.iter().map(|n| ints(n)).collect::<Vec<_>>().join(",\n"))
    }
}
pub fn ints(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 { s.push(',') }
        write!(s, "{}", x).unwrap();
    }
    s.push(']');
    s
}
pub fn nums<T: std::fmt::Display>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n as u64)) as usize }
    pub fn byte(&mut self) -> u8 { self.next() as u8 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
}
