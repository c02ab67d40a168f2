//! Function-level drivers: codecs, storage, cursors, DER, chains, digests, nonces, constants.
//! Their events are judged by spec/Pure.tla.
use crate::drv::*;
use crate::enc::*;
use crate::rec::*;
use crate::world::*;
use spdm::msgs::common::{DigestBuf, DigestSize, SignatureBuf, SignatureSize};
use spdm::msgs::encoding::{Reader, Writer};
use spdm::msgs::*;
use std::convert::TryFrom;

const ROOM: usize = 150000;

pub fn put<T: Msg>(m: &T, cap: usize) -> (&'static str, Vec<u8>) {
    let mut buf = vec![0xa5u8; cap];
    match quiet(|| m.write(&mut buf).ok()) {
        None => ("panic", vec![]),
        Some(None) => ("err", vec![]),
        Some(Some(n)) => if n <= cap && buf[n..].iter().all(|x| *x == 0xa5) { ("ok", buf[..n].to_vec()) } else { ("stray", buf) },
    }
}
/// what decoding gave: result, and if it is a message: re-encoded, and its fields
type Dec = (&'static str, Vec<u8>, Option<String>);
fn dec<T: Msg>(rec: &mut Rec, b: &[u8], parse: impl Fn(&[u8]) -> Option<T>, fields: impl Fn(&mut Rec, &T) -> Option<String>) -> Dec {
    let r = quiet(|| match T::parse_header(b) {
        Err(_) => ("err", None),
        Ok(false) => ("other", None),
        Ok(true) => match parse(&b[HEADER_SIZE..]) { None => ("err", None), Some(m) => ("ok", Some(m)) },
    });
    match r {
        None => ("panic", vec![], None),
        Some((k, None)) => (k, vec![], None),
        Some((k, Some(m))) => {
            let f = fields(rec, &m);
            let (r, out) = put(&m, ROOM);
            if r != "ok" { ("reenc", out, f) } else { (k, out, f) }
        }
    }
}

#[cfg(feature = "fields")]
mod flds {
    use super::*;
    use spdm::msgs::algorithms::*;
    use spdm::msgs::capabilities::*;
    use spdm::msgs::verif as v;
    pub fn structs(r: &[AlgorithmRequest]) -> String {
        let s: Vec<String> = r.iter().map(|x| { let (t, b) = match x {
            AlgorithmRequest::Dhe(a) => (2, a.supported.bits()), AlgorithmRequest::Aead(a) => (3, a.supported.bits()),
            AlgorithmRequest::ReqBaseAsym(a) => (4, a.supported.bits()), AlgorithmRequest::KeySchedule(a) => (5, a.supported.bits()) };
            format!("{{\"t\":{},\"sel\":{}}}", t, bits(b as u64)) }).collect();
        format!("[{}]", s.join(","))
    }
    pub fn mk_structs(s: &[St]) -> [AlgorithmRequest; 4] {
        let mut a: [AlgorithmRequest; 4] = Default::default();
        for (i, (t, b)) in s.iter().enumerate() {
            a[i] = match t {
                2 => AlgorithmRequest::Dhe(DheAlgorithm { supported: DheFixedAlgorithms::from_bits(*b).unwrap() }),
                3 => AlgorithmRequest::Aead(AeadAlgorithm { supported: AeadFixedAlgorithms::from_bits(*b).unwrap() }),
                4 => AlgorithmRequest::ReqBaseAsym(ReqBaseAsymAlgorithm { supported: ReqBaseAsymFixedAlgorithms::from_bits(*b).unwrap() }),
                _ => AlgorithmRequest::KeySchedule(KeyScheduleAlgorithm { supported: KeyScheduleFixedAlgorithms::from_bits(*b).unwrap() }),
            };
        }
        a
    }
    pub fn version(m: &Version) -> String {
        let e: Vec<String> = m.entries[..m.num_entries as usize].iter().map(|v| nums(&[v.major, v.minor, v.update, v.alpha])).collect();
        format!("{{\"entries\":[{}]}}", e.join(","))
    }
    pub fn caps(ct: u8, flags: u32) -> String { format!("{{\"ct\":{},\"flags\":{}}}", ct, bits(flags as u64)) }
    pub fn neg(m: &NegotiateAlgorithms) -> String {
        format!("{{\"mspec\":{},\"asym\":{},\"hash\":{},\"structs\":{}}}", m.measurement_spec.bits(), bits(m.base_asym_algo.bits() as u64),
            bits(m.base_hash_algo.bits() as u64), structs(&m.algorithm_requests[..m.num_algorithm_requests as usize]))
    }
    pub fn algs(m: &Algorithms) -> String {
        format!("{{\"mspec\":{},\"mhash\":{},\"asym\":{},\"hash\":{},\"structs\":{}}}", m.measurement_spec_selected.bits(),
            bits(m.measurement_hash_algo_selected.bits() as u64), bits(m.base_asym_algo_selected.bits() as u64),
            bits(m.base_hash_algo_selected.bits() as u64), structs(&m.algorithm_responses[..m.num_algorithm_responses as usize]))
    }
    pub fn digests(rec: &mut Rec, m: &Digests) -> String {
        let d: Vec<usize> = m.digests.iter().map(|x| x.as_ref().map_or(0, |x| rec.blob(x.as_ref()))).collect();
        format!("{{\"mask\":{},\"digests\":{}}}", m.slot_mask, nums(&d))
    }
    pub fn certificate(rec: &mut Rec, m: &Certificate) -> String {
        format!("{{\"slot\":{},\"rem\":{},\"chain\":{}}}", m.slot, m.remainder_length, rec.blob(&m.cert_chain[..m.portion_length as usize]))
    }
    pub fn challenge(rec: &mut Rec, m: &Challenge) -> String {
        let mht = match m.measurement_hash_type { MeasurementHashType::None => 0, MeasurementHashType::Tcb => 1, MeasurementHashType::All => 255 };
        format!("{{\"slot\":{},\"mht\":{},\"nonce\":{}}}", m.slot, mht, rec.blob(m.nonce.as_ref()))
    }
    /// the text after `name` up to the end of the value
    fn after<'a>(s: &'a str, name: &str) -> Option<&'a str> {
        let s = &s[s.find(name)? + name.len()..];
        Some(s[..s.find(|c: char| c == ',' || c == '}' || c == ' ' || c == '(').unwrap_or(s.len())].trim())
    }
    fn num(s: &str, name: &str) -> Option<u32> { after(s, name)?.parse().ok() }
    fn list(s: &str, name: &str) -> Option<Vec<u8>> {
        let s = &s[s.find(name)? + name.len()..];
        let s = &s[s.find('[')? + 1..s.find(']')?];
        if s.is_empty() { return Some(vec![]) }
        s.split(", ").map(|x| x.parse().ok()).collect()
    }
    const REGISTRIES: [&str; 9] = ["Dmtf", "Tcg", "Usb", "PciSig", "Iana", "HDBaseT", "Mipi", "Cxl", "Jedec"];
    fn vendor(s: &str) -> Option<Vec<u8>> {
        let v = &s[s.find("vendor_id: ")? + 11..];
        let n = || v[v.find('(')? + 1..v.find(')')?].parse::<u32>().ok();
        if v.starts_with("Empty") { Some(vec![]) }
        else if v.starts_with("U16(") { Some((n()? as u16).to_le_bytes().to_vec()) }
        else if v.starts_with("U32(") { Some(n()?.to_le_bytes().to_vec()) }
        else { None }
    }
    /// opaque data as its Debug text describes it (its fields are private)
    fn described(o: &OpaqueData) -> Option<Vec<u8>> {
        let s = format!("{:?}", o);
        let n = num(&s, "total_elements: ")? as usize;
        let mut b = vec![n as u8, 0, 0, 0];
        let els: Vec<&str> = s.split("OpaqueElement {").skip(1).collect();
        for e in els.get(..n)? {
            let reg = REGISTRIES.iter().position(|r| after(e, "registry_id: ") == Some(*r))?;
            let (v, l, d) = (vendor(e)?, num(e, "data_len: ")? as usize, list(e, "data: ")?);
            b.push(reg as u8); b.push(v.len() as u8); b.extend_from_slice(&v);
            b.extend_from_slice(&(l as u16).to_le_bytes()); b.extend_from_slice(d.get(..l)?);
            while b.len() % 4 != 0 { b.push(0) }
        }
        Some(b)
    }
    pub fn opq(rec: &mut Rec, o: &OpaqueData) -> usize {
        if let Some(b) = described(o) { return rec.blob(&b) }
        let mut b = vec![0u8; ROOM];
        let n = { let mut w = Writer::new(&mut b); if o.write(&mut w).is_err() { return 0 } w.offset() };
        rec.blob(&b[..n])
    }
    pub fn auth(rec: &mut Rec, m: &ChallengeAuth) -> String {
        format!("{{\"slot\":{},\"mut\":{},\"mask\":{},\"digest\":{},\"nonce\":{},\"meas\":{},\"opq\":{},\"sig\":{}}}",
            m.slot, m.use_mutual_auth, m.slot_mask, rec.blob(m.cert_chain_hash.as_ref()), rec.blob(m.nonce.as_ref()),
            rec.blob(m.measurement_summary_hash.as_ref()), opq(rec, &m.opaque_data), rec.blob(m.signature.as_ref()))
    }
    pub const VALUE_TYPES: [v::DmtfMeasurementValueType; 8] = { use v::DmtfMeasurementValueType::*; [ImmutableRom, MutableFirmware, HardwareConfig,
        FirmwareConfig, MeasurementManifest, DeviceMode, MutableFirmwareVersion, MutableFirmwareSecurityVersion] };
    pub fn index(i: u8) -> v::MeasurementIndex { match i {
        0 => v::MeasurementIndex::TotalNumberOfMeasurementsAvailable, 1..=239 => v::MeasurementIndex::ImplementationDefined(i),
        240..=252 => v::MeasurementIndex::Reserved(i), 253 => v::MeasurementIndex::MeasurementManifest,
        254 => v::MeasurementIndex::DeviceMode, 255 => v::MeasurementIndex::AllMeasurements } }
    /// attributes and index of a request without a nonce, by the names of their values
    pub fn get_measurements(m: &GetMeasurements) -> Option<String> {
        for raw in [false, true] { for i in 0..=255u8 {
            let a = v::RequestAttributes { signature_requested: false, raw_bit_stream_requested: raw };
            if *m == GetMeasurements::new(a, index(i), 0) { return Some(format!("{{\"attr\":{},\"index\":{}}}", if raw { 2 } else { 0 }, i)) }
        } }
        None
    }
    pub fn measurements(rec: &mut Rec, m: &Measurements) -> String {
        let ch = match m.content_changed { v::ContentChanged::NotSupported => 0, v::ContentChanged::True => 1, v::ContentChanged::False => 2 };
        let bl: Vec<String> = m.blocks.as_slice().iter().map(|b| { let b = b.as_ref().unwrap();
            let rep = match b.measurement.value_representation { v::DmtfMeasurementValueRepresentation::Digest => 0, v::DmtfMeasurementValueRepresentation::RawBitStream => 128u8 };
            let val = match &b.measurement.value { v::DmtfMeasurementValue::Digest(d) => d.as_ref(), v::DmtfMeasurementValue::BitStream(d) => d.as_slice() };
            format!("{{\"index\":{},\"ty\":{},\"val\":{}}}", b.index, rep + VALUE_TYPES.iter().position(|t| *t == b.measurement.value_type).unwrap() as u8, rec.blob(val)) }).collect();
        format!("{{\"total\":{},\"slot\":{},\"changed\":{},\"blocks\":[{}],\"nonce\":{},\"opq\":{},\"sig\":{}}}", m.total_blocks, m.slot_id, ch,
            bl.join(","), rec.blob(m.nonce.as_ref()), opq(rec, &m.opaque_data), m.signature.as_ref().map_or(0, |s| rec.blob(s.as_ref())))
    }
    pub const PLAIN: [(u8, Error); 14] = [(1, Error::InvalidRequest), (3, Error::Busy), (4, Error::UnexpectedRequest), (5, Error::Unspecified),
        (6, Error::DecryptError), (8, Error::RequestInFlight), (9, Error::InvalidResponseCode), (10, Error::SessionLimitExceeded),
        (11, Error::SessionRequired), (12, Error::ResetRequired), (14, Error::RequestTooLarge), (16, Error::MessageLost),
        (65, Error::VersionMismatch), (67, Error::RequestResynch)];
    pub fn error(rec: &mut Rec, m: &Error) -> Option<String> {
        let (c, d, x) = match m {
            Error::UnsupportedRequest(n) => (7, *n, vec![]),
            Error::ResponseTooLarge(n) => (13, 0, n.to_le_bytes().to_vec()),
            Error::LargeResponse(n) => (15, 0, vec![*n]),
            Error::ResponseNotReady(r) => {
                let s = format!("{:?}", r);
                let f = |n| num(&s, n).map(|x| x as u8);
                (66, 0, vec![f("rdt_exponent: ")?, f("request_code: ")?, f("token: ")?, f("rdtm: ")?])
            }
            Error::VendorDefined(id, v) => {
                let s = format!("{:?}", v);
                let (mut x, o) = (vendor(&s)?, list(&s, "opaque_error_data: ")?);
                x.insert(0, x.len() as u8);
                x.extend_from_slice(o.get(..num(&s, "opaque_len: ")? as usize)?);
                let id = format!("{:?}", id);
                (255, REGISTRIES.iter().position(|r| *r == id)? as u8, x)
            }
            e => (PLAIN.iter().find(|p| p.1 == *e).map_or(0, |p| p.0), 0, vec![]),
        };
        Some(format!("{{\"code\":{},\"data\":{},\"ext\":{}}}", c, d, rec.blob(&x)))
    }
}

#[cfg(feature = "fields")]
macro_rules! fl { ($e:expr) => { Some($e) } }
#[cfg(not(feature = "fields"))]
macro_rules! fl { ($e:expr) => { None } }

pub const TYPES: [&str; 15] = ["GET_VERSION", "VERSION", "GET_CAPABILITIES", "CAPABILITIES", "NEGOTIATE_ALGORITHMS", "ALGORITHMS",
    "GET_DIGESTS", "DIGESTS", "GET_CERTIFICATE", "CERTIFICATE", "CHALLENGE", "CHALLENGE_AUTH", "GET_MEASUREMENTS", "MEASUREMENTS", "ERROR"];

#[allow(unused_variables)]
fn decode(rec: &mut Rec, t: &str, b: &[u8], ds: usize, ss: usize, sr: bool) -> Option<Dec> {
    let d = DigestSize::try_from(ds).ok()?;
    let s = SignatureSize::try_from(ss).ok()?;
    Some(match t {
        "GET_VERSION" => dec(rec, b, |x| GetVersion::parse_body(x).ok(), |_, _| fl!("{}".into())),
        "VERSION" => dec(rec, b, |x| Version::parse_body(x).ok(), |_, m| fl!(flds::version(m))),
        "GET_CAPABILITIES" => dec(rec, b, |x| GetCapabilities::parse_body(x).ok(), |_, m| fl!(flds::caps(m.ct_exponent, m.flags.bits()))),
        "CAPABILITIES" => dec(rec, b, |x| Capabilities::parse_body(x).ok(), |_, m| fl!(flds::caps(m.ct_exponent, m.flags.bits()))),
        "NEGOTIATE_ALGORITHMS" => dec(rec, b, |x| NegotiateAlgorithms::parse_body(x).ok(), |_, m| fl!(flds::neg(m))),
        "ALGORITHMS" => dec(rec, b, |x| Algorithms::parse_body(x).ok(), |_, m| fl!(flds::algs(m))),
        "GET_DIGESTS" => dec(rec, b, |x| GetDigests::parse_body(x).ok(), |_, _| fl!("{}".into())),
        "DIGESTS" => dec(rec, b, |x| Digests::parse_body(d, x).ok(), |rec, m| fl!(flds::digests(rec, m))),
        "GET_CERTIFICATE" => dec(rec, b, |x| GetCertificate::parse_body(x).ok(),
            |_, m| fl!(format!("{{\"slot\":{},\"off\":{},\"len\":{}}}", m.slot, m.offset, m.length))),
        "CERTIFICATE" => dec(rec, b, |x| Certificate::parse_body(x).ok(), |rec, m| fl!(flds::certificate(rec, m))),
        "CHALLENGE" => dec(rec, b, |x| Challenge::parse_body(x).ok(), |rec, m| fl!(flds::challenge(rec, m))),
        "CHALLENGE_AUTH" => dec(rec, b, |x| ChallengeAuth::parse_body(x, d, s).ok(), |rec, m| fl!(flds::auth(rec, m))),
        #[cfg(feature = "fields")]
        "GET_MEASUREMENTS" => dec(rec, b, |x| GetMeasurements::parse_body(x).ok(), |_, m| flds::get_measurements(m)),
        #[cfg(not(feature = "fields"))]
        "GET_MEASUREMENTS" => dec(rec, b, |x| GetMeasurements::parse_body(x).ok(), |_, _| None),
        "MEASUREMENTS" => dec(rec, b, |x| Measurements::parse_body(x, sr, s).ok(), |rec, m| fl!(flds::measurements(rec, m))),
        _ => {
            #[cfg(feature = "fields")]
            { dec(rec, b, |x| Error::parse_body(x).ok(), |rec, m| flds::error(rec, m)) }
            #[cfg(not(feature = "fields"))]
            { dec(rec, b, |x| Error::parse_body(x).ok(), |_, _| None) }
        }
    })
}

impl D {
    fn dec1(&mut self, t: &str, b: &[u8], ds: usize, ss: usize, sr: bool, lim: bool) {
        context(format!("decode {} {:?}", t, &b[..b.len().min(80)]));
        if let Some((res, re, f)) = decode(&mut self.rec, t, b, ds, ss, sr) {
            let (i, r) = (self.rec.blob(b), self.rec.blob(&re));
            self.rec.event(format!("{{\"k\":\"dec\",\"t\":\"{}\",\"in\":{},\"ds\":{},\"ss\":{},\"sr\":{},\"lim\":{},\"res\":\"{}\",\"re\":{},\"hf\":{},\"f\":{}}}",
                t, i, ds, ss, sr, lim, res, r, f.is_some(), f.unwrap_or("{}".into())));
        }
    }
    #[allow(dead_code)]
    fn enc1<T: Msg>(&mut self, t: &str, f: String, m: &T, caps: &[usize], ds: usize, ss: usize, lim: bool) {
        context(format!("encode {} {}", t, f));
        let (_, full) = put(m, ROOM);
        let n = full.len();
        let mut c: Vec<usize> = caps.to_vec();
        c.extend_from_slice(&[ROOM, n, n.saturating_sub(1), n + 1]);
        c.sort(); c.dedup();
        for cap in c {
            let (res, out) = put(m, cap);
            let o = self.rec.blob(&out);
            self.rec.event(format!("{{\"k\":\"enc\",\"t\":\"{}\",\"f\":{},\"cap\":{},\"ds\":{},\"ss\":{},\"lim\":{},\"res\":\"{}\",\"out\":{}}}", t, f, cap, ds, ss, lim, res, o));
        }
    }
    fn open(&mut self, label: &str) { self.rec.begin(label, 0, false, false) }

    /* ------------------------------ codecs ------------------------------ */
    /// well formed messages of each type, small to large
    fn bases(&mut self, t: &str) -> Vec<(Vec<u8>, usize, usize, bool, bool)> {
        let c = &self.cfg;
        let (ns, cm, nl, on, om) = (c.nslots, c.chain_max, c.nonce_len, c.opq_n, c.opq_max);
        let hs = c.hashes();
        let md = c.max_digest;
        let mut v: Vec<(Vec<u8>, usize, usize, bool, bool)> = vec![];
        let p = |v: &mut Vec<(Vec<u8>, usize, usize, bool, bool)>, b: Vec<u8>| v.push((b, 32, SS, false, false));
        let mut rng = self.rng.clone();
        match t {
            "GET_VERSION" => p(&mut v, get_version()),
            "VERSION" => for e in [&[][..], &[[1, 0, 0, 0]], &[[1, 0, 0, 0], [1, 1, 0, 0]], &[[1, 2, 3, 4], [15, 14, 13, 12]], &[[0, 15, 0, 15], [8, 1, 4, 2]]] {
                v.push((version(e), 32, SS, false, e.len() == 2)) },
            "GET_CAPABILITIES" => for (ct, f) in [(0u8, 0u32), (12, 0x6), (255, 0x1ffc6), (1, 0x10040), (7, 0x4182)] { p(&mut v, get_caps(ct, f)) },
            "CAPABILITIES" => for (ct, f) in [(0u8, 0u32), (12, 0x6), (255, 0x1ffff), (1, 0x10001), (7, 0x4182)] { p(&mut v, caps(ct, f)) },
            "NEGOTIATE_ALGORITHMS" => {
                for (m, a, h, s) in [(1u8, 0x10u32, 1u32, &[][..]), (1, 0x1ff, 0x3f, &STRUCTS[..]), (0, 0x90, 0x6, &STRUCTS[1..3]), (1, 0, 0, &STRUCTS[..1]),
                                     (1, 0x155, 0x2a, &[(5, 1), (4, 0x1ff), (3, 7), (2, 0x3f)][..]), (1, 0xaa, 0x15, &[(2, 1), (2, 2)][..])] {
                    v.push((neg(m, a, h, s), 32, SS, false, s.len() == 4)) }
                // extended algorithms, which are skipped
                let mut b = neg(1, 0x10, 1, &[]);
                b[28] = 2; b[29] = 1;
                b.extend(rng.bytes(12)); b[4] = 44;
                b[2] = 2; b.extend_from_slice(&[2, 0x22, 0x10, 0]); b.extend(rng.bytes(8)); b.extend_from_slice(&[3, 0x20, 2, 0]);
                p(&mut v, b);
                let mut b = neg(1, 0x10, 1, &[(2, 0x10)]);
                b[4] = 128; p(&mut v, b.clone()); b[4] = 129; p(&mut v, b.clone()); b[4] = 0; b[5] = 1; p(&mut v, b);
            }
            "ALGORITHMS" => for (a, h, mh, s) in [(0x10u32, 1u32, 1u32, &[][..]), (0x10, 2, 4, &SELECTED[..]), (0x100, 0x20, 0x10, &SELECTED[1..3]), (1, 8, 8, &SELECTED[3..])] {
                v.push((algs(1, mh, a, h, s), 32, SS, false, s.len() == 4));
                if s.len() == 1 { let mut b = algs(1, mh, a, h, &[]); b[2] = 1; b.extend_from_slice(&[2, 0x21, 0x10, 0]); b.extend(rng.bytes(4)); p(&mut v, b) } },
            "GET_DIGESTS" => p(&mut v, get_digests()),
            "DIGESTS" => for h in hs { let ds = hash_len(h);
                for mask in [0u8, 1, 0x80, 0xff, 0x05, (1u16 << ns).wrapping_sub(1) as u8, 1 << (ns - 1), 0xaa] {
                    let n = (0..ns).filter(|k| mask >> k & 1 == 1).count();
                    let d: Vec<Vec<u8>> = (0..n).map(|_| rng.bytes(ds)).collect();
                    v.push((digests(mask, &d), ds, SS, false, n == ns)) } },
            "GET_CERTIFICATE" => for (s, o, l) in [(0u8, 0u16, 0u16), (1, 0x1234, 0xfedc), (255, 0xffff, 0xffff), (7, 0xff, 0x100)] { p(&mut v, get_cert(s, o, l)) },
            "CERTIFICATE" => for (s, r, n) in [(0u8, 0u16, 0usize), (3, 0, 1), (255, 0x1234, 50), (1, 0xff00, 255), (0, 0, 256), (2, 0, cm - 1), (0, 0, cm), (0, 0, cm + 1)] {
                let x = rng.bytes(n); v.push((certificate(s, r, &x), 32, SS, false, n + 1 >= cm)) },
            "CHALLENGE" => for m in [0u8, 1, 255] { let n = rng.bytes(nl); p(&mut v, challenge(m.wrapping_add(3), m, &n)) },
            "CHALLENGE_AUTH" => for h in hs { let ds = hash_len(h);
                for (j, o) in opaques(on, om, &mut rng).into_iter().enumerate() {
                    for ss in [SS, 0, 8] {
                        if ss != SS && j > 1 { continue }
                        let slot = (j % ns) as u8 | if j % 2 == 1 { 0x80 } else { 0 };
                        let mut b = auth(slot, rng.byte(), &rng.bytes(ds), &rng.bytes(nl), &rng.bytes(ds), &o);
                        b.extend(rng.bytes(ss));
                        v.push((b, ds, ss, false, j > 4)) } } },
            "GET_MEASUREMENTS" => for a in 0..4u8 { for i in [0u8, 1, 0xef, 0xf0, 0xfc, 0xfd, 0xfe, 0xff] {
                let mut b = vec![0x12, 0xe0, a, i];
                if a & 1 == 1 { b.extend(rng.bytes(nl)); b.push(i % ns as u8) }
                p(&mut v, b) } },
            "MEASUREMENTS" => {
                let (bn, bm) = (c.mb_n, c.mb_max);
                let mut shapes: Vec<Vec<(bool, usize)>> = vec![vec![], vec![(true, 0)], vec![(false, 0)], vec![(true, bm)], vec![(false, md)], vec![(false, 32)],
                    vec![(true, bm + 1)], vec![(false, md + 1)], vec![(true, bm); bn], vec![(false, md); bn], vec![(true, bm.min(1)); bn + 1], vec![(true, bm.saturating_sub(1)); bn]];
                if bn > 1 { shapes.push(vec![(true, 3), (false, 32.min(md))]); }
                if bn > 2 { shapes.push(vec![(false, 32), (true, 5), (true, 0)]); }
                for (j, sh) in shapes.iter().enumerate() {
                    for (sr, ss) in [(false, SS), (true, SS), (true, 8)] {
                        if ss == 8 && j > 2 { continue }
                        let big = sh.iter().map(|x| x.1).sum::<usize>() > 3000;
                        if big && sr { continue }
                        let o = opaques(on, om, &mut rng).swap_remove(j % 3);
                        let mut recd = vec![];
                        for (i, (raw, n)) in sh.iter().enumerate() {
                            recd.extend_from_slice(&[(i as u8).wrapping_mul(77), 1]);
                            recd.extend_from_slice(&le16(n + 3));
                            recd.push((i + j) as u8 % 8 | if *raw { 0x80 } else { 0 });
                            recd.extend_from_slice(&le16(*n));
                            recd.extend(rng.bytes(*n));
                        }
                        let mut b = vec![0x12, 0x60, (j % (bn + 1)) as u8, (j % ns) as u8 | ((j % 3) as u8) << 4, sh.len() as u8];
                        b.extend_from_slice(&[recd.len() as u8, (recd.len() >> 8) as u8, (recd.len() >> 16) as u8]);
                        b.extend(recd);
                        b.extend(rng.bytes(nl));
                        b.extend_from_slice(&le16(o.len()));
                        b.extend(o);
                        if sr { b.extend(rng.bytes(ss)) }
                        v.push((b, 32, ss, sr, sh.len() >= bn)) } }
            }
            _ => {
                for c in [1u8, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 65, 67] { p(&mut v, vec![0x12, 0x7f, c, c.wrapping_mul(13)]) }
                p(&mut v, vec![0x12, 0x7f, 13, 0, 1, 2, 0xfe, 0xff]); p(&mut v, vec![0x12, 0x7f, 15, 0, 9]);
                p(&mut v, vec![0x12, 0x7f, 66, 0, 1, 2, 3, 4]); p(&mut v, vec![0x12, 0x7f, 255, 8, 2, 0x34, 0x12]);
                p(&mut v, vec![0x12, 0x7f, 255, 4, 4, 1, 2, 3, 4]); p(&mut v, vec![0x12, 0x7f, 255, 0, 0]);
            }
        }
        self.rng = rng;
        v
    }
    fn codec(&mut self, types: &[&'static str]) {
        for t in types {
            let bs = self.bases(t);
            let nb = bs.len();
            for (j, (b, ds, ss, sr, lim)) in bs.into_iter().enumerate() {
                self.open(&format!("{} base {}", t, j));
                self.dec1(t, &b, ds, ss, sr, lim);
                let n = b.len();
                let small = n <= 90;
                let heavy = j < 3 || j + 1 == nb || nb < 8 || self.thorough;
                // every length (near the ends and every so often, if long)
                for k in 0..n { if (small && heavy) || k < 12 || n - k < 6 || k % (n / if heavy { 24 } else { 6 } + 1) == 0 { self.dec1(t, &b[..k], ds, ss, sr, lim) } }
                for x in [1usize, 7] { let mut c = b.clone(); c.extend(self.rng.bytes(x)); self.dec1(t, &c, ds, ss, sr, lim) }
                // every position changed
                let lots = if heavy { 48 } else { 12 };
                for k in 0..n {
                    if !(small || k < 44 || n - k < 4 || k % (n / lots + 1) == 0) { continue }
                    let vals: Vec<u8> = if heavy { vec![0, 1, 2, 0x7f, 0x80, 0xff, b[k].wrapping_add(1), b[k].wrapping_sub(1), b[k] ^ (1 << self.rng.below(8)), self.rng.byte()] }
                        else { vec![b[k].wrapping_add(1), b[k] ^ 0x80, self.rng.byte()] };
                    for x in vals { if x != b[k] && (heavy || small || self.rng.chance(1, 2)) { let mut c = b.clone(); c[k] = x; self.dec1(t, &c, ds, ss, sr, lim) } }
                }
                // the bytes that carry types, counts and parameters: every value
                for k in 2..8.min(n) { if heavy && j < 2 || self.thorough { for x in 0..=255u8 {
                    let mut c = b.clone(); c[k] = x; if small || x % 8 == 3 || x < 10 || x > 250 { self.dec1(t, &c, ds, ss, sr, lim) } } } }
                // two positions changed, and an excess that makes a larger count plausible
                for _ in 0..self.n(if heavy { 40 } else { 10 }, 300) {
                    let mut c = b.clone();
                    for _ in 0..2 { if n > 2 { let k = 2 + self.rng.below(n - 2); c[k] = if self.rng.chance(1, 2) { self.rng.byte() } else { self.rng.below(5) as u8 } } }
                    if self.rng.chance(1, 3) { let x = self.rng.below(60); let y = self.rng.bytes(x); c.extend(y) }
                    self.dec1(t, &c, ds, ss, sr, lim);
                }
                self.rec.end();
            }
            self.open(&format!("{} random", t));
            let code = self.bases(t)[0].0[..2].to_vec();
            for i in 0..self.n(120, 1500) {
                let k = self.rng.below(70);
                let mut b = if i % 4 == 0 { vec![] } else { code.clone() };
                let y = if i % 3 == 0 { self.rng.bytes(k) } else { (0..k).map(|_| self.rng.below(4) as u8).collect() };
                b.extend(y);
                self.dec1(t, &b, 32, SS, i % 2 == 0, false);
            }
            self.rec.end();
        }
    }
    pub fn p_codec(&mut self) { self.codec(&TYPES[..12]); self.p_enc() }
    pub fn p_meas(&mut self) { self.codec(&TYPES[12..]); self.p_enc_meas() }
    #[cfg(not(feature = "fields"))]
    fn p_enc(&mut self) {}
    #[cfg(not(feature = "fields"))]
    fn p_enc_meas(&mut self) {}
    #[cfg(feature = "fields")]
    fn p_enc(&mut self) {
        use spdm::msgs::algorithms::*;
        use spdm::msgs::capabilities::*;
        let all: Vec<usize> = (0..60).collect();
        self.open("encode fixed");
        self.enc1("GET_VERSION", "{}".into(), &GetVersion {}, &all[..8], 0, 0, false);
        self.enc1("GET_DIGESTS", "{}".into(), &GetDigests {}, &all[..8], 0, 0, false);
        for n in 0..3u8 { for _ in 0..6 {
            let mut m = Version::default();
            m.num_entries = n;
            for i in 0..2 { m.entries[i] = VersionEntry { major: self.rng.byte() & 15, minor: self.rng.byte() & 15, update: self.rng.byte() & 15, alpha: self.rng.byte() & 15 } }
            self.enc1("VERSION", flds::version(&m), &m, &all[..12], 0, 0, n == 2);
        } }
        for _ in 0..self.n(40, 400) {
            let f = ReqFlags::from_bits_truncate(self.rng.next() as u32);
            let m = GetCapabilities { ct_exponent: self.rng.byte(), flags: f };
            self.enc1("GET_CAPABILITIES", flds::caps(m.ct_exponent, f.bits()), &m, &[0, 3, 11], 0, 0, false);
            let f = RspFlags::from_bits_truncate(self.rng.next() as u32);
            let m = Capabilities { ct_exponent: self.rng.byte(), flags: f };
            self.enc1("CAPABILITIES", flds::caps(m.ct_exponent, f.bits()), &m, &[0, 3, 11], 0, 0, false);
            let (s, o, l) = (self.rng.byte(), self.rng.next() as u16, self.rng.next() as u16);
            self.enc1("GET_CERTIFICATE", format!("{{\"slot\":{},\"off\":{},\"len\":{}}}", s, o, l), &GetCertificate { slot: s, offset: o, length: l }, &[0, 5], 0, 0, false);
        }
        self.rec.end();
        self.open("encode algorithms");
        let known: [u16; 4] = [0x3f, 7, 0x1ff, 1];
        for i in 0..self.n(60, 600) {
            let k = i % 5;
            let s: Vec<St> = (0..k).map(|_| { let t = self.rng.below(4); (t as u8 + 2, self.rng.next() as u16 & known[t]) }).collect();
            let (a, h) = (self.rng.next() as u32 & 0x1ff, self.rng.next() as u32 & 0x3f);
            let mut m = NegotiateAlgorithms { measurement_spec: MeasurementSpec::from_bits((i % 2) as u8).unwrap(), base_asym_algo: BaseAsymAlgo::from_bits(a).unwrap(),
                base_hash_algo: BaseHashAlgo::from_bits(h).unwrap(), num_algorithm_requests: k as u8, algorithm_requests: flds::mk_structs(&s) };
            self.enc1("NEGOTIATE_ALGORITHMS", flds::neg(&m), &m, &[0, 4, 20, 31, 33], 0, 0, k == 4);
            m.num_algorithm_requests = 0;
            let one: Vec<St> = (0..k).map(|_| { let t = self.rng.below(4); let b: Vec<u16> = (0..9).filter(|b| known[t] >> b & 1 == 1).collect(); (t as u8 + 2, 1 << *self.rng.pick(&b)) }).collect();
            let m = Algorithms { measurement_spec_selected: MeasurementSpec::DMTF, measurement_hash_algo_selected: BaseHashAlgo::from_bits(1 << self.rng.below(6)).unwrap(),
                base_asym_algo_selected: BaseAsymAlgo::from_bits(1 << self.rng.below(9)).unwrap(), base_hash_algo_selected: BaseHashAlgo::from_bits(1 << self.rng.below(6)).unwrap(),
                num_algorithm_responses: k as u8, algorithm_responses: flds::mk_structs(&one) };
            self.enc1("ALGORITHMS", flds::algs(&m), &m, &[0, 4, 20, 35, 37], 0, 0, k == 4);
        }
        self.rec.end();
        self.open("encode digests");
        let ns = self.cfg.nslots;
        for h in self.cfg.hashes() { for mask in 0..(1u32 << ns) {
            if ns > 5 && !self.thorough && mask % 3 != 1 && mask != 255 { continue }
            let mut m = Digests { slot_mask: mask as u8, digests: std::array::from_fn(|_| None) };
            for k in 0..ns { if mask >> k & 1 == 1 { m.digests[k] = Some(DigestBuf::try_from(&self.rng.bytes(hash_len(h))[..]).unwrap()) } }
            let f = flds::digests(&mut self.rec, &m);
            self.enc1("DIGESTS", f, &m, &[0, 3, 4 + hash_len(h) - 1, 4 + hash_len(h)], hash_len(h), 0, mask + 1 == 1 << ns);
        } }
        self.rec.end();
        self.open("encode certificate");
        let cm = self.cfg.chain_max;
        for n in [0usize, 1, 2, 100, 255, 256, 511, cm - 1, cm] { if n > cm { continue }
            let mut m = Certificate { slot: self.rng.byte(), portion_length: n as u16, remainder_length: self.rng.next() as u16, cert_chain: [0; spdm::config::MAX_CERT_CHAIN_SIZE] };
            let x = self.rng.bytes(cm);
            m.cert_chain.copy_from_slice(&x);
            let f = flds::certificate(&mut self.rec, &m);
            self.enc1("CERTIFICATE", f, &m, &[0, 4, 7, 8], 0, 0, n + 1 >= cm);
        }
        self.rec.end();
        self.open("encode challenge");
        for t in [MeasurementHashType::None, MeasurementHashType::Tcb, MeasurementHashType::All] { for _ in 0..3 {
            let m = Challenge::new(self.rng.byte(), t);
            let f = flds::challenge(&mut self.rec, &m);
            self.enc1("CHALLENGE", f, &m, &[0, 3, 4, 20, 35], 0, 0, false);
        } }
        self.rec.end();
        self.open("encode challenge auth");
        let (on, om) = (self.cfg.opq_n, self.cfg.opq_max);
        for h in self.cfg.hashes() { let ds = hash_len(h);
            let mut rng = self.rng.clone();
            for (j, o) in opaques(on, om, &mut rng).into_iter().enumerate() {
                if j > 7 { continue }
                let od = match OpaqueData::read(&mut Reader::new(&o)) { Ok(x) => x, Err(_) => continue };
                let c = Challenge::new(0, MeasurementHashType::None);
                let m = ChallengeAuth::new((j % ns) as u8, rng.byte(), j % 2 == 1, &rng.bytes(ds), c.nonce, &rng.bytes(ds), od, &rng.bytes(SS));
                let f = flds::auth(&mut self.rec, &m);
                self.enc1("CHALLENGE_AUTH", f, &m, &[0, 3, 40, 4 + ds, 4 + 2 * ds + 34, 4 + 2 * ds + 38], ds, SS, j > 4);
            }
            self.rng = rng;
        }
        self.rec.end();
    }
    #[cfg(feature = "fields")]
    fn p_enc_meas(&mut self) {
        use spdm::msgs::verif as v;
        self.open("encode errors");
        for (c, e) in flds::PLAIN.iter() { self.enc1("ERROR", format!("{{\"code\":{},\"data\":0,\"ext\":0}}", c), e, &[0, 1, 2, 3], 0, 0, false) }
        for n in [0u32, 1, 255, 256, 0x01020304, 0xffffffff] {
            for e in [Error::UnsupportedRequest(n as u8), Error::ResponseTooLarge(n), Error::LargeResponse(n as u8)] {
                let f = flds::error(&mut self.rec, &e).unwrap();
                self.enc1("ERROR", f, &e, &[0, 1, 2, 3, 4, 5], 0, 0, false);
            }
        }
        for r in 0..9u8 {
            let e = Error::VendorDefined(VendorRegistryId::try_from(r).unwrap(), v::VendorDefined::empty());
            let x = self.rec.blob(&[0]);
            self.enc1("ERROR", format!("{{\"code\":255,\"data\":{},\"ext\":{}}}", r, x), &e, &[0, 4], 0, 0, false);
        }
        self.rec.end();
        self.open("encode get measurements");
        let ns = self.cfg.nslots;
        for a in 0..4u8 { for i in 0..=255u8 {
            let mut idx: Vec<(&str, v::MeasurementIndex)> = vec![("any", v::MeasurementIndex::from(i))];
            idx.push(("named", flds::index(i)));
            if i % 16 < 2 || i > 0xec { idx.push(("impl", v::MeasurementIndex::ImplementationDefined(i))); idx.push(("res", v::MeasurementIndex::Reserved(i))); }
            for (n, ix) in idx {
                let slot = i % ns as u8;
                let m = GetMeasurements::new(v::RequestAttributes { signature_requested: a & 1 == 1, raw_bit_stream_requested: a & 2 == 2 }, ix, slot);
                let (res, out) = put(&m, if i % 5 == 0 { i as usize / 5 } else { 100 });
                let o = self.rec.blob(&out);
                self.rec.event(format!("{{\"k\":\"encgm\",\"attr\":{},\"var\":\"{}\",\"index\":{},\"slot\":{},\"cap\":{},\"res\":\"{}\",\"out\":{}}}",
                    a, n, i, slot, if i % 5 == 0 { i as usize / 5 } else { 100 }, res, o));
            }
        } }
        self.rec.end();
        self.open("encode measurements");
        let (bn, bm, md) = (self.cfg.mb_n, self.cfg.mb_max, self.cfg.max_digest);
        for i in 0..self.n(40, 300) {
            let n = if i < 2 { bn } else { self.rng.below(bn + 1) };
            let mut bl = v::MeasurementBlocks::default();
            bl.len = n;
            for j in 0..n {
                let raw = i == 0 || (i != 1 && self.rng.chance(1, 2));
                let k = if raw { if i == 0 { bm } else { self.rng.below(bm.min(60) + 1) } } else if i == 1 { md } else { *self.rng.pick(&[32, md, 0, 48.min(md)]) };
                let d = self.rng.bytes(k);
                let ty = *self.rng.pick(&flds::VALUE_TYPES);
                let (rep, value) = if raw { (v::DmtfMeasurementValueRepresentation::RawBitStream, v::DmtfMeasurementValue::BitStream(v::BitStream::new(&d))) }
                    else { (v::DmtfMeasurementValueRepresentation::Digest, v::DmtfMeasurementValue::Digest(DigestBuf::try_from(&d[..]).unwrap())) };
                bl.blocks[j] = Some(v::MeasurementBlock { index: self.rng.byte(), measurement_spec_selected: spdm::msgs::algorithms::MeasurementSpec::DMTF,
                    measurement: v::DmtfMeasurement { value_representation: rep, value_type: ty, value } });
            }
            let mut rng = self.rng.clone();
            let o = opaques(self.cfg.opq_n, self.cfg.opq_max, &mut rng).swap_remove(i % 3);
            self.rng = rng;
            let od = OpaqueData::read(&mut Reader::new(&o)).unwrap_or_default();
            let nonce = spdm::crypto::Nonce::new();
            let ch = match i % 3 { 0 => v::ContentChanged::NotSupported, 1 => v::ContentChanged::True, _ => v::ContentChanged::False };
            let sig = if i % 2 == 1 { Some(SignatureBuf::try_from(&self.rng.bytes(SS)[..]).unwrap()) } else { None };
            let slot = (i % ns) as u8;
            let m = if i % 4 == 3 { Measurements::new_with_num_measurements(self.rng.byte(), ch, slot, nonce, od, sig) }
                else { Measurements::new_with_measurements(ch, slot, bl, nonce, od, sig) };
            let f = flds::measurements(&mut self.rec, &m);
            self.enc1("MEASUREMENTS", f, &m, &[0, 3, 4, 7, 8, 20, 60], 32, SS, n == bn);
            // and back
            let (_, b) = put(&m, ROOM);
            let lim = n == bn;
            self.dec1("MEASUREMENTS", &b, 32, SS, i % 2 == 1, lim);
        }
        self.rec.end();
    }

    /* ------------------------------- names ------------------------------ */
    /// the values that names stand for
    pub fn p_names(&mut self) {
        self.open("names");
        #[cfg(feature = "fields")]
        {
            use spdm::msgs::algorithms::*;
            use spdm::msgs::capabilities::*;
            use spdm::msgs::verif as v;
            use std::str::FromStr;
            let mut all: Vec<(&str, &str, u32)> = vec![];
            macro_rules! names { ($t:ident, $p:path, $($n:ident)*) => { { use $p as T; $( all.push((stringify!($t), stringify!($n), T::$n.bits() as u32)); )* } } }
            names!(ReqFlags, ReqFlags, CERT_CAP CHAL_CAP ENCRYPT_CAP MAC_CAP MUT_AUTH_CAP KEY_EX_CAP PSK_CAP ENCAP_CAP HBEAT_CAP KEY_UPD_CAP HANDSHAKE_IN_THE_CLEAR_CAP PUB_KEY_ID_CAP);
            names!(RspFlags, RspFlags, CACHE_CAP CERT_CAP CHAL_CAP MEAS_CAP_NO_SIG MEAS_CAP_SIG MEAS_FRESH_CAP ENCRYPT_CAP MAC_CAP MUT_AUTH_CAP KEY_EX_CAP PSK_CAP ENCAP_CAP HBEAT_CAP KEY_UPD_CAP HANDSHAKE_IN_THE_CLEAR_CAP PUB_KEY_ID_CAP);
            names!(BaseAsymAlgo, BaseAsymAlgo, RSASSA_2048 RSAPSS_2048 RSASSA_3072 RSAPSS_3072 ECDSA_ECC_NIST_P256 RSASSA_4096 RSAPSS_4096 ECDSA_ECC_NIST_P384 ECDSA_ECC_NIST_P521);
            names!(BaseHashAlgo, BaseHashAlgo, SHA_256 SHA_384 SHA_512 SHA3_256 SHA3_384 SHA3_512);
            names!(MeasurementSpec, MeasurementSpec, DMTF);
            names!(DheFixedAlgorithms, DheFixedAlgorithms, FFDHE_2048 FFDHE_3072 FFDHE_4096 SECP_256_R1 SECP_384_R1 SECP_521_R1);
            names!(AeadFixedAlgorithms, AeadFixedAlgorithms, AES_128_GCM AES_256_GCM CHACHA20_POLY1305);
            names!(ReqBaseAsymFixedAlgorithms, ReqBaseAsymFixedAlgorithms, RSASSA_2048 RSAPSS_2048 RSASSA_3072 RSAPSS_3072 ECDSA_ECC_NIST_P256 RSASSA_4096 RSAPSS_4096 ECDSA_ECC_NIST_P384 ECDSA_ECC_NIST_P521);
            names!(KeyScheduleFixedAlgorithms, KeyScheduleFixedAlgorithms, SPDM);
            names!(OperationalModeBits, v::OperationalModeBits, MANUFACTURING VALIDATION NORMAL RECOVERY RMA DECOMMISSIONED);
            names!(DeviceModeBits, v::DeviceModeBits, NON_INVASIVE_DEBUG INVASIVE_DEBUG NON_INVASIVE_DEBUG_RESET_CYCLE INVASIVE_DEBUG_RESET_CYCLE INVASIVE_DEBUG_AT_LEAST_ONCE_AFTER_MANUFACTURING_MODE);
            for (t, n, x) in &all { self.rec.event(format!("{{\"k\":\"name\",\"t\":\"{}\",\"n\":\"{}\",\"bits\":{}}}", t, n, bits(*x as u64))); }
            let mut strs: Vec<String> = all.iter().map(|x| x.1.to_string()).collect();
            for x in all.iter() { for y in [x.1.to_lowercase(), format!("{} ", x.1), format!(" {}", x.1), x.1[1..].to_string(), x.1[..x.1.len() - 1].to_string(), format!("{}_", x.1)] { strs.push(y) } }
            for x in ["", "_", "CAP", "SHA", "SHA256", "P256", "MEAS_CAP", "ALIAS_CERT_CAP", "CSR_CAP"] { strs.push(x.into()) }
            strs.sort(); strs.dedup();
            for s in strs {
                macro_rules! parse { ($t:ident) => {
                    let (r, x) = match quiet(|| $t::from_str(&s).ok()) { None => ("panic", 0), Some(None) => ("err", 0), Some(Some(x)) => ("ok", x.bits() as u64) };
                    self.rec.event(format!("{{\"k\":\"str\",\"t\":\"{}\",\"n\":\"{}\",\"res\":\"{}\",\"bits\":{}}}", stringify!($t), s, r, bits(x)));
                } }
                parse!(ReqFlags); parse!(RspFlags); parse!(BaseAsymAlgo); parse!(BaseHashAlgo);
            }
        }
        self.rec.end();
    }

    /* ------------------------------ storage ----------------------------- */
    fn tr_event(&mut self, t: &spdm::Transcript, op: &str, inb: &[u8], res: &str) {
        let (a, g) = (self.rec.blob(inb), t.get().to_vec());
        let g = self.rec.blob(&g);
        self.rec.event(format!("{{\"k\":\"tr\",\"op\":\"{}\",\"in\":{},\"res\":\"{}\",\"get\":{},\"len\":{}}}", op, a, res, g, t.len()));
    }
    pub fn p_store(&mut self) {
        let tm = self.cfg.tr_max;
        for i in 0..self.n(24, 200) {
            self.open(&format!("transcript {}", i));
            let mut t = spdm::Transcript::new();
            self.tr_event(&t, "new", &[], "ok");
            for j in 0..self.n(14, 30) {
                let room = tm - t.len().min(tm);
                if j > 3 && self.rng.chance(1, 9) { t.clear(); self.tr_event(&t, "clear", &[], "ok"); continue }
                let n = match (i + self.rng.below(3) + j) % 9 {
                    0 => room, 1 => room + 1, 2 => room.saturating_sub(1), 3 => 0, 4 => tm + 1, 5 => 1, 6 => self.rng.below(40), 7 => self.rng.below(room + 2), _ => room / 2 };
                let b = self.rng.bytes(n);
                context(format!("transcript {} + {}", t.len(), n));
                let r = match quiet(|| t.extend(&b).is_ok()) { None => "panic", Some(true) => "ok", Some(false) => "err" };
                self.tr_event(&t, "ext", &b, r);
                if r == "panic" { break }
            }
            self.rec.end();
        }
        self.open("digest and signature sizes");
        let md = self.cfg.max_digest;
        for n in 0..150usize {
            let b = self.rng.bytes(n);
            let a = self.rec.blob(&b);
            for what in ["digest", "sig"] {
                context(format!("{} of {} bytes", what, n));
                let r: Option<(bool, bool, Vec<u8>, usize)> = quiet(|| if what == "digest" {
                    let s = DigestSize::try_from(n).ok();
                    let d = DigestBuf::try_from(&b[..]).ok();
                    (s.map_or(false, |s| usize::from(s) == n), d.is_some(), d.as_ref().map_or(vec![], |d| d.as_ref().to_vec()), d.as_ref().map_or(0, |d| d.len()))
                } else {
                    let s = SignatureSize::try_from(n).ok();
                    let d = SignatureBuf::try_from(&b[..]).ok();
                    (s.map_or(false, |s| usize::from(s) == n), d.is_some(), d.as_ref().map_or(vec![], |d| d.as_ref().to_vec()), d.as_ref().map_or(0, |d| d.len()))
                });
                let (res, x) = match r { None => ("panic", (false, false, vec![], 0)), Some(x) => ("ok", x) };
                let g = self.rec.blob(&x.2);
                self.rec.event(format!("{{\"k\":\"lim\",\"t\":\"{}\",\"n\":{},\"in\":{},\"res\":\"{}\",\"size\":{},\"ok\":{},\"get\":{},\"len\":{},\"max\":{}}}",
                    what, n, a, res, x.0, x.1, g, x.3, if what == "digest" { md } else { SS }));
            }
        }
        self.rec.end();
        // opaque data near its limits
        self.open("opaque data");
        let (on, om) = (self.cfg.opq_n, self.cfg.opq_max);
        let mut rng = self.rng.clone();
        for o in opaques(on, om, &mut rng) { self.opq1(&o); for k in [1usize, 2, 5] { if o.len() > k { self.opq1(&o[..o.len() - k]) } } }
        for _ in 0..self.n(300, 3000) {
            let n = rng.below(on + 2);
            let els: Vec<Vec<u8>> = (0..n).map(|_| { let r = rng.below(9) as u8; let k = match rng.below(4) { 0 => om, 1 => om + rng.below(3), 2 => rng.below(5), _ => rng.below(om + 1) };
                element(r, &rng.bytes(vendor_len(r)), &rng.bytes(k)) }).collect();
            let mut o = opaque(&els);
            if rng.chance(1, 3) { let k = rng.below(o.len()); o[k] = rng.byte() }
            self.opq1(&o);
        }
        self.rng = rng;
        self.rec.end();
    }
    fn opq1(&mut self, o: &[u8]) {
        context(format!("opaque {:?}", &o[..o.len().min(60)]));
        let r = quiet(|| {
            let mut r = Reader::new(o);
            OpaqueData::read(&mut r).ok().map(|d| {
                let mut b = vec![0u8; 4096];
                let n = { let mut w = Writer::new(&mut b); d.write(&mut w).unwrap(); w.offset() };
                (b[..n].to_vec(), d.serialized_size(), r.byte_offset())
            })
        });
        let (res, re, sz, used) = match r { None => ("panic", vec![], 0, 0), Some(None) => ("err", vec![], 0, 0), Some(Some((b, n, u))) => ("ok", b, n, u) };
        let (a, g) = (self.rec.blob(o), self.rec.blob(&re));
        self.rec.event(format!("{{\"k\":\"opq\",\"in\":{},\"res\":\"{}\",\"re\":{},\"size\":{},\"used\":{}}}", a, res, g, sz, used));
    }

    /* ------------------------------- chains ----------------------------- */
    pub fn p_chain(&mut self) {
        let depth = self.cfg.depth;
        let sizes = [2usize, 3, 10, 129, 130, 200, 257, 258, 260, 261, 300, 700];
        for i in 0..self.n(60, 500) {
            self.open(&format!("chain {}", i));
            let ds = *self.rng.pick(&[32usize, 48, 64]);
            let ds = if ds > self.cfg.max_digest { 32 } else { ds };
            let root = self.rng.bytes(ds);
            let n = if i % 3 == 0 { depth } else if i % 7 == 1 { depth + 1 } else { self.rng.below(depth + 1) };
            let mut der = |d: &mut D, k: usize| { let s = if k > 3 { *d.rng.pick(&sizes[..6]) } else { *d.rng.pick(&sizes) }; fake_der(s, d.rng.byte()) };
            let mut inter: Vec<Vec<u8>> = (0..n).map(|_| der(self, n)).collect();
            let mut leaf = der(self, n);
            // certificates that come more than once
            if n > 0 && i % 4 == 2 {
                let (a, b) = (self.rng.below(n), self.rng.below(n));
                inter[a] = inter[b].clone();
                if n > 1 && self.rng.chance(1, 2) { inter[1] = inter[0].clone() }
                if self.rng.chance(1, 3) { leaf = inter[n - 1].clone() }
            }
            let total = chain_bytes(&root, &inter.iter().map(|x| &x[..]).collect::<Vec<_>>(), &leaf);
            for cap in [ROOM, total.len(), total.len() - 1, self.rng.below(total.len())] { self.chain_write(&root, &inter, &leaf, cap) }
            let p = self.chain_parse(&total, ds);
            let _ = p;
            for d in [ds - 1, ds + 1, 32, 48, 64] { if d != ds { self.chain_parse(&total, d); } }
            let fix = |v: &mut Vec<u8>| { let l = le16(v.len()); v[0] = l[0]; v[1] = l[1] };
            // cut and extended, with and without the length corrected
            for _ in 0..6 {
                let k = self.rng.below(total.len());
                let mut c = total[..k].to_vec(); self.chain_parse(&c, ds);
                if c.len() > 4 { fix(&mut c); self.chain_parse(&c, ds); }
                let mut c = total.clone(); let x = self.rng.below(12) + 1; let y = self.rng.bytes(x); c.extend(y); self.chain_parse(&c, ds); fix(&mut c); self.chain_parse(&c, ds);
            }
            // length field off by a little
            for dl in [1i32, -1, 2, 256, -256] { let mut c = total.clone(); let l = le16((c.len() as i32 + dl) as usize); c[0] = l[0]; c[1] = l[1]; self.chain_parse(&c, ds); }
            // any header byte changed
            let mut at = vec![0usize, 1, 2, 3];
            let mut o = 4 + ds;
            for x in inter.iter().chain(std::iter::once(&leaf)) { at.extend_from_slice(&[o, o + 1, o + 2, o + 3]); o += x.len() }
            for k in at { if k < total.len() { for v in [0u8, 1, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0xff, total[k].wrapping_add(1), total[k].wrapping_sub(1)] {
                if v != total[k] && (self.thorough || self.rng.chance(1, 3)) { let mut c = total.clone(); c[k] = v; self.chain_parse(&c, ds); } } } }
            self.rec.end();
        }
        self.open("chains of fixed shapes");
        for k in 0..depth + 3 {
            let inter: Vec<Vec<u8>> = (0..k).map(|j| fake_der(2 + j, j as u8)).collect();
            let refs: Vec<&[u8]> = inter.iter().map(|x| &x[..]).collect();
            let b = chain_bytes(&[7; 32], &refs, &fake_der(9, 3));
            self.chain_parse(&b, 32);
            self.chain_write(&vec![7; 32], &inter, &fake_der(9, 3), ROOM);
            // the same certificate throughout, and certificates alike but for a byte
            for inter in [vec![fake_der(7, 5); k], (0..k).map(|j| fake_der(7, j as u8)).collect::<Vec<_>>()] {
                for leaf in [fake_der(7, 5), fake_der(7, 0), fake_der(9, 3)] {
                    let refs: Vec<&[u8]> = inter.iter().map(|x| &x[..]).collect();
                    let b = chain_bytes(&[7; 32], &refs, &leaf);
                    self.chain_parse(&b, 32);
                    self.chain_write(&vec![7; 32], &inter, &leaf, ROOM);
                }
            }
        }
        // at and beyond the length field
        for n in [65535usize, 65536, 65534, 65600] {
            let leaf = vec![0x30; n - 36];
            self.chain_write(&vec![1; 32], &vec![], &leaf, ROOM + 2000);
        }
        for b in [&[][..], &[0], &[0, 0], &[4, 0, 0, 0], &[3, 0, 0], &[36, 0, 0, 0]] { self.chain_parse(b, 32); }
        for l in [vec![0x30, 0x80], vec![0x30, 0x81, 0x7f], vec![0x30, 0x82, 0, 0xff], vec![0x30, 0x83, 0, 0, 1], vec![0x30, 0xff], vec![0x31, 0], vec![0x30], vec![0x30, 0x81], vec![0x30, 0x82, 1],
                  vec![0x30, 0x81, 0x80], vec![0x30, 0x81, 0], vec![0x30, 0x82, 1, 0]] {
            for fill in [0usize, 1, 0x7f, 0x80, 0xff, 0x100, 0x101] {
                let mut c = l.clone(); c.extend(vec![0x11; fill]);
                let b = chain_bytes(&[7; 32], &[], &c);
                self.chain_parse(&b, 32);
            }
        }
        self.rec.end();
        self.open("random chains");
        for _ in 0..self.n(200, 4000) {
            let k = self.rng.below(60);
            let mut b = vec![0u8; 4];
            let y: Vec<u8> = (0..k).map(|_| *self.rng.pick(&[0x30u8, 0, 1, 2, 3, 0x81, 0x82, 5])).collect();
            b.extend(y);
            let l = le16(b.len()); b[0] = l[0]; b[1] = l[1];
            let ds = self.rng.below(9);
            self.chain_parse(&b, ds);
        }
        self.rec.end();
    }
    fn chain_write(&mut self, root: &Vec<u8>, inter: &Vec<Vec<u8>>, leaf: &Vec<u8>, cap: usize) {
        context(format!("chain of {} intermediates into {}", inter.len(), cap));
        let r = quiet(|| {
            let mut c = CertificateChain::new(root, leaf);
            let mut full = 0;
            for (i, x) in inter.iter().enumerate() { if c.append_intermediate_cert(x).is_err() && full == 0 { full = i + 1 } }
            let mut buf = vec![0xa5u8; cap];
            let n = { let mut w = Writer::new(&mut buf); c.write(&mut w).ok() };
            (full, n.map(|n| buf[..n].to_vec()))
        });
        let (res, full, out) = match r { None => ("panic", 0, vec![]), Some((f, None)) => ("err", f, vec![]), Some((f, Some(b))) => ("ok", f, b) };
        let iv: Vec<usize> = inter.iter().map(|x| self.rec.blob(x)).collect();
        let (a, b, o) = (self.rec.blob(root), self.rec.blob(leaf), self.rec.blob(&out));
        self.rec.event(format!("{{\"k\":\"cw\",\"root\":{},\"inter\":{},\"leaf\":{},\"cap\":{},\"res\":\"{}\",\"full\":{},\"out\":{}}}", a, nums(&iv), b, cap, res, full, o));
    }
    fn chain_parse(&mut self, b: &[u8], ds: usize) {
        let d = match DigestSize::try_from(ds) { Ok(d) => d, Err(_) => return };
        context(format!("parse chain {:?}", &b[..b.len().min(80)]));
        let r = quiet(|| CertificateChain::parse(b, d).ok().map(|c| {
            let mut buf = vec![0u8; ROOM];
            let n = { let mut w = Writer::new(&mut buf); c.write(&mut w).unwrap_or(0) };
            (c.root_hash.to_vec(), c.intermediate_certs().iter().map(|x| x.to_vec()).collect::<Vec<_>>(), c.leaf_cert.to_vec(), buf[..n].to_vec())
        }));
        let i = self.rec.blob(b);
        let (res, rest) = match r {
            None => ("panic", ",\"root\":0,\"inter\":[],\"leaf\":0,\"re\":0".to_string()),
            Some(None) => ("err", ",\"root\":0,\"inter\":[],\"leaf\":0,\"re\":0".to_string()),
            Some(Some((a, v, l, re))) => { let iv: Vec<usize> = v.iter().map(|x| self.rec.blob(x)).collect();
                ("ok", format!(",\"root\":{},\"inter\":{},\"leaf\":{},\"re\":{}", self.rec.blob(&a), nums(&iv), self.rec.blob(&l), self.rec.blob(&re))) }
        };
        self.rec.event(format!("{{\"k\":\"cp\",\"in\":{},\"ds\":{},\"res\":\"{}\"{}}}", i, ds, res, rest));
    }

    /* --------------------- sizes beyond one and two bytes --------------- */
    pub fn p_bigstore(&mut self) {
        let tm = self.cfg.tr_max;
        for (i, ns) in [vec![65535, 1, tm - 65536, 1], vec![tm + 1, tm - 3, 4, 3]].iter().enumerate() {
            self.open(&format!("large transcript {}", i));
            let mut t = spdm::Transcript::new();
            for round in 0..2 { for n in if round == 1 { &ns[2..] } else { &ns[..] } {
                let b = self.rng.bytes(*n);
                context(format!("transcript {} + {}", t.len(), n));
                let r = match quiet(|| t.extend(&b).is_ok()) { None => "panic", Some(true) => "ok", Some(false) => "err" };
                self.tr_event(&t, "ext", &b, r);
            }
            if round == 0 { t.clear(); self.tr_event(&t, "clear", &[], "ok"); } }
            self.rec.end();
        }
        // CERTIFICATE of every length class
        let cm = self.cfg.chain_max;
        self.open("large certificates");
        for n in [cm, cm - 1, 32767, 32768, 256] {
            let x = self.rng.bytes(n);
            let b = certificate(1, 0, &x);
            self.dec1("CERTIFICATE", &b, 32, SS, false, n + 1 >= cm);
            self.dec1("CERTIFICATE", &b[..b.len() - 1], 32, SS, false, n + 1 >= cm);
            for (k, v) in [(4usize, b[4].wrapping_sub(1)), (5, b[5].wrapping_sub(1)), (5, 0xff), (6, 1), (7, 1)] { let mut c = b.clone(); c[k] = v; self.dec1("CERTIFICATE", &c, 32, SS, false, n + 1 >= cm) }
        }
        self.rec.end();
        // cursors beyond 64 KiB
        for n in [65535usize, 65536, 70000] {
            let buf = self.rng.bytes(n + 6);
            self.rd(&format!("far slice {}", n), &buf, &[(6, n), (3, 0), (1, 3), (1, 5), (5, 0), (4, 0), (0, 0)]);
            self.rd(&format!("far skip {}", n), &buf, &[(8, n), (4, 0), (2, 0), (1, 7), (3, 0), (0, 0)]);
            let z = vec![0; n];
            self.rd(&format!("far reserved {}", n), &z, &[(7, n - 1), (7, 1), (7, 1)]);
            let x = self.rng.bytes(n);
            self.wr(&format!("far extend {}", n), n + 3, &[(5, x.clone()), (2, vec![1, 2]), (4, vec![1, 2, 3, 4]), (0, vec![7]), (0, vec![8])]);
        }
    }
    pub fn p_bigchain(&mut self) {
        // chains of the size of the length field, in few certificates or in many
        let depth = self.cfg.depth;
        for (i, (n, size)) in [(0usize, 65535usize), (depth, 65535), (1, 65536), (2, 32768), (depth + 1, 33000)].into_iter().enumerate() {
            self.open(&format!("large chain {}", i));
            let root = self.rng.bytes(32);
            let each = (size - 36) / (n + 1);
            let inter: Vec<Vec<u8>> = (0..n).map(|j| fake_der(each, j as u8)).collect();
            let leaf = fake_der(size - 36 - n * each, 99);
            let total = chain_bytes(&root, &inter.iter().map(|x| &x[..]).collect::<Vec<_>>(), &leaf);
            for cap in [total.len(), total.len() - 1] { self.chain_write(&root, &inter, &leaf, cap) }
            self.chain_parse(&total, 32);
            self.chain_parse(&total, 48);
            for k in [total.len() - 1, 36 + each] {
                let mut c = total[..k].to_vec();
                self.chain_parse(&c, 32);
                let l = le16(c.len()); c[0] = l[0]; c[1] = l[1]; self.chain_parse(&c, 32);
            }
            for (k, v) in [(1usize, 0xfeu8), (37, 0x83), (38, 0xff), (36 + n * each + 2, 0x7f)] {
                if k < total.len() { let mut c = total.clone(); c[k] = v; self.chain_parse(&c, 32); } }
            self.rec.end();
        }
    }
    pub fn p_bigmeas(&mut self) {
        // MEASUREMENTS whose record needs all three bytes of its length
        let (bn, bm, nl) = (self.cfg.mb_n, self.cfg.mb_max, self.cfg.nonce_len);
        let mut sums: Vec<Vec<usize>> = vec![vec![bm; bn], vec![bm - 1; bn]];
        for goal in [255usize, 256, 65535, 65536, 65537] {
            let mut v = vec![]; let mut left = goal;
            while left > bm + 7 { let k = bm.min(left - 14); v.push(k); left -= k + 7 }
            v.push(left - 7);
            if v.len() <= bn { sums.push(v) }
        }
        for (j, sh) in sums.iter().enumerate() { for sr in if j % 3 == 1 { vec![false, true] } else { vec![j % 2 == 0] } {
            self.open(&format!("large record {}", j));
            let mut recd = vec![];
            for (i, n) in sh.iter().enumerate() {
                recd.extend_from_slice(&[i as u8, 1]); recd.extend_from_slice(&le16(n + 3));
                recd.push(i as u8 % 8 | 0x80); recd.extend_from_slice(&le16(*n)); recd.extend(self.rng.bytes(*n));
            }
            let o = opaques(self.cfg.opq_n, self.cfg.opq_max, &mut self.rng.clone()).swap_remove(j % 3);
            let mut b = vec![0x12, 0x60, bn as u8, 1, sh.len() as u8];
            b.extend_from_slice(&[recd.len() as u8, (recd.len() >> 8) as u8, (recd.len() >> 16) as u8]);
            b.extend(recd); b.extend(self.rng.bytes(nl)); b.extend_from_slice(&le16(o.len())); b.extend(o);
            if sr { b.extend(self.rng.bytes(SS)) }
            let lim = sh.len() >= bn;
            self.dec1("MEASUREMENTS", &b, 32, SS, sr, lim);
            self.dec1("MEASUREMENTS", &b, 32, SS, !sr, lim);
            for k in [b.len() - 1, 9] { self.dec1("MEASUREMENTS", &b[..k], 32, SS, sr, lim) }
            for k in 4..8 { for x in [b[k] ^ 1] { let mut c = b.clone(); c[k] = x; self.dec1("MEASUREMENTS", &c, 32, SS, sr, lim) } }
            self.rec.end();
        } }
    }
    pub fn p_bigdig(&mut self) {
        #[cfg(feature = "crypto")]
        for h in self.cfg.hashes() { for n in [65536usize, 100001] {
            use spdm::crypto::{Digests, ProvidedDigests};
            let alg = spdm::msgs::algorithms::BaseHashAlgo::from_bits(1 << h).unwrap();
            let data = self.rng.bytes(n);
            let all = self.rec.blob(&data);
            self.open(&format!("digest {} of {}", h, n));
            context(format!("digest {} of {}", h, n));
            let r = quiet(|| ProvidedDigests::digest(alg, &data).as_ref().to_vec());
            let (res, out) = match r { None => ("panic", vec![]), Some(x) => ("ok", x) };
            let b = self.rec.blob(&out);
            self.rec.event(format!("{{\"k\":\"dwhole\",\"h\":{},\"all\":{},\"res\":\"{}\",\"out\":{}}}", h, all, res, b));
            self.rec.event(format!("{{\"k\":\"dnew\",\"h\":{}}}", h));
            let r = quiet(|| { let mut d = ProvidedDigests::try_from(alg).ok()?; d.update(&data[..n / 2]); d.update(&data[n / 2..]); Some(d.finalize().as_ref().to_vec()) });
            for p in [&data[..n / 2], &data[n / 2..]] { let b = self.rec.blob(p); self.rec.event(format!("{{\"k\":\"dupd\",\"in\":{}}}", b)) }
            let (res, out) = match r { None => ("panic", vec![]), Some(None) => ("err", vec![]), Some(Some(x)) => ("ok", x) };
            let b = self.rec.blob(&out);
            self.rec.event(format!("{{\"k\":\"dfin\",\"all\":{},\"res\":\"{}\",\"out\":{}}}", all, res, b));
            self.rec.end();
        } }
    }

    /* ------------------------------- cursors ---------------------------- */
    fn rd(&mut self, label: &str, buf: &[u8], ops: &[(u8, usize)]) {
        self.open(label);
        let b = self.rec.blob(buf);
        self.rec.event(format!("{{\"k\":\"rnew\",\"in\":{}}}", b));
        let mut r = Reader::new(buf);
        for (op, n) in ops {
            context(format!("reader {:?} op {} {}", buf, op, n));
            let mut sl: Vec<u8> = vec![];
            let res: Option<Option<usize>> = quiet(|| match op {
                0 => r.get_byte().ok().map(|x| x as usize),
                1 => r.get_bits(*n as u8).ok().map(|x| x as usize),
                2 => r.get_bit().ok().map(|x| x as usize),
                3 => r.get_u16().ok().map(|x| x as usize),
                4 => r.get_u24().ok(),
                5 => r.get_u32().ok().map(|x| { sl = vec![x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8]; 0 }),
                6 => { let mut o = vec![0xa5u8; *n + 3]; let k = r.get_slice(*n, &mut o).ok();
                       k.map(|_| { sl = o[..*n].to_vec(); if o[*n..] == [0xa5; 3] { 0 } else { 1 } }) }
                7 => r.skip_reserved(*n).ok().map(|_| 0),
                _ => r.skip_ignored(*n).ok().map(|_| 0),
            });
            let (k, v) = match res { None => ("panic", 0), Some(None) => ("err", 0), Some(Some(x)) => ("ok", x) };
            let o = self.rec.blob(&sl);
            let (off, rem, emp, al) = (r.byte_offset(), quiet(|| r.remaining()).unwrap_or(999999), r.is_empty(), r.is_aligned());
            self.rec.event(format!("{{\"k\":\"r\",\"op\":\"{}\",\"n\":{},\"res\":\"{}\",\"v\":{},\"s\":{},\"off\":{},\"rem\":{},\"emp\":{},\"al\":{}}}",
                ["byte", "bits", "bit", "u16", "u24", "u32", "slice", "res", "ign"][*op as usize], (*n).min(1 << 30), k, v, o, off, rem, emp, al));
            if k == "panic" { break }
        }
        self.rec.end();
    }
    fn wr(&mut self, label: &str, cap: usize, ops: &[(u8, Vec<u8>)]) {
        self.open(label);
        self.rec.event(format!("{{\"k\":\"wnew\",\"cap\":{}}}", cap));
        let mut guard = vec![0xa5u8; cap + 8];
        let mut seen = vec![];
        {
            let mut w = Writer::new(&mut guard[4..4 + cap]);
            for (op, b) in ops {
                context(format!("writer {} op {} {:?}", cap, op, b));
                let x = |i: usize| *b.get(i).unwrap_or(&0) as u32;
                let res = quiet(|| match op {
                    0 => w.put(b[0]), 1 => w.put_reserved(b.len() as u8),
                    2 => w.put_u16((x(0) | x(1) << 8) as u16),
                    3 => w.put_u24((x(0) | x(1) << 8 | x(2) << 16 | x(3) << 24) as usize),
                    4 => w.put_u32(x(0) | x(1) << 8 | x(2) << 16 | x(3) << 24),
                    _ => w.extend(b),
                }.ok());
                let (k, v) = match res { None => ("panic", 0), Some(None) => ("err", 0), Some(Some(x)) => ("ok", x) };
                seen.push((k, v, w.offset(), quiet(|| w.remaining()).unwrap_or(999999), w.is_full()));
                if k == "panic" { break }
            }
        }
        for ((op, b), (k, v, off, rem, full)) in ops.iter().zip(seen) {
            let d: Vec<u8> = match op { 1 => vec![0; b.len()], 3 => b[..3].to_vec(), _ => b.clone() };
            let d = self.rec.blob(&d);
            self.rec.event(format!("{{\"k\":\"w\",\"op\":\"{}\",\"data\":{},\"res\":\"{}\",\"v\":{},\"off\":{},\"rem\":{},\"full\":{}}}",
                ["put", "reserved", "u16", "u24", "u32", "extend"][*op as usize], d, k, v, off, rem, full));
        }
        let g = self.rec.blob(&guard[4..4 + cap]);
        let clean = guard[..4] == [0xa5; 4] && guard[4 + cap..] == [0xa5; 4];
        self.rec.event(format!("{{\"k\":\"wend\",\"out\":{},\"clean\":{}}}", g, clean));
        self.rec.end();
    }
    pub fn p_cursor(&mut self) {
        let alphabet: Vec<(u8, usize)> = vec![(0, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7), (1, 8), (2, 0), (3, 0), (4, 0), (5, 0), (6, 1), (6, 2), (7, 1), (8, 1)];
        // every pair of operations, on buffers up to 4 bytes
        for len in 0..5usize { for (i, a) in alphabet.iter().enumerate() { for (j, b) in alphabet.iter().enumerate() {
            if !self.thorough && (i * 7 + j * 3 + len) % 3 != 0 && len != 2 { continue }
            let buf = if (i + j) % 4 == 0 { vec![0; len] } else { self.rng.bytes(len) };
            let c = *self.rng.pick(&alphabet);
            self.rd(&format!("read {} {} on {}", i, j, len), &buf, &[*a, *b, c]);
        } } }
        // every split of two bytes and a half into bit fields, 3 deep
        for a in 1..8usize { for b in 1..8 { for c in 1..8 {
            let buf = self.rng.bytes(3);
            self.rd(&format!("bits {} {} {}", a, b, c), &buf, &[(1, a), (1, b), (1, c), (1, 7), (2, 0), (1, 4)]);
        } } }
        for i in 0..self.n(250, 4000) {
            let len = self.rng.below(14);
            let buf = if i % 3 == 0 { (0..len).map(|_| self.rng.below(2) as u8).collect() } else { self.rng.bytes(len) };
            let ops: Vec<(u8, usize)> = (0..12).map(|_| { let mut o = *self.rng.pick(&alphabet);
                if o.0 >= 6 { o.1 = 1 + self.rng.below(6) }
                if i % 2 == 0 && o.0 != 1 { o = (1, 1 + self.rng.below(7)) } o }).collect();
            self.rd(&format!("reads {}", i), &buf, &ops);
        }
        // more than there can be
        for n in [1usize << 31, 1 << 32, (1 << 32) + 1, 1 << 40, usize::MAX / 2, usize::MAX - 1, usize::MAX] { for op in [7u8, 8] { for at in [(0u8, 0usize), (1, 3), (8, 2)] {
            for buf in [vec![], vec![0; 1], vec![0; 9], vec![0, 0, 0, 5]] { self.rd("a long skip", &buf, &[at, (op, n), (0, 0)]) }
        } } }
        for (i, n) in [7usize, 255, 256, 300, 5000].iter().enumerate() {
            let buf = self.rng.bytes(*n);
            self.rd(&format!("long {}", i), &buf, &[(6, n - 4), (3, 0), (3, 0), (0, 0)]);
            self.rd(&format!("long skip {}", i), &buf, &[(8, n - 5), (5, 0), (6, 2), (0, 0), (0, 0)]);
            self.rd(&format!("long slice {}", i), &buf, &[(6, n + 1), (6, *n), (0, 0)]);
            let mut z = vec![0; *n]; z[n - 1] = 1;
            self.rd(&format!("long reserved {}", i), &z, &[(7, n - 1), (7, 1)]);
        }
        for cap in 0..9usize { for a in 0..6u8 { for b in 0..6u8 {
            if !self.thorough && cap > 4 && (a + b) % 2 == 1 { continue }
            let mut data = |d: &mut D, op: u8| -> (u8, Vec<u8>) { let n = match op { 0 => 1, 2 => 2, 3 | 4 => 4, _ => d.rng.below(6) }; (op, d.rng.bytes(n)) };
            let ops = vec![data(self, a), data(self, b), data(self, (a + b) % 6), data(self, 0)];
            self.wr(&format!("write {} {} into {}", a, b, cap), cap, &ops);
        } } }
        for i in 0..self.n(200, 3000) {
            let cap = self.rng.below(40);
            let ops: Vec<(u8, Vec<u8>)> = (0..10).map(|_| { let op = self.rng.below(6) as u8; let n = match op { 0 => 1, 2 => 2, 3 | 4 => 4, _ => self.rng.below(9) }; (op, self.rng.bytes(n)) }).collect();
            self.wr(&format!("writes {}", i), cap, &ops);
        }
        for n in [255usize, 256, 257, 1000] { let x = self.rng.bytes(n); self.wr(&format!("extend {}", n), n, &[(5, x.clone()), (0, vec![1])]); self.wr(&format!("extend over {}", n), n - 1, &[(5, x), (0, vec![1])]) }
        self.wr("reserved 255", 256, &[(1, vec![0; 255]), (1, vec![0]), (1, vec![0])]);
    }

    /* -------------------------------- DER ------------------------------- */
    fn der1(&mut self, sig: &[u8]) {
        let max = spdm::crypto::pki::max_encoded_size();
        let std = sig.len() <= spdm::config::MAX_SIGNATURE_SIZE;
        let room = if std { max } else { 2 * sig.len() + 32 };
        let mut out = vec![0xa5u8; room];
        context(format!("der {:?}", sig));
        let r = quiet(|| spdm::crypto::pki::bin_to_der(sig, &mut out));
        let (res, o) = match r { None => ("panic", vec![]), Some(n) => if n <= room { ("ok", out[..n].to_vec()) } else { ("long", vec![]) } };
        let (a, b) = (self.rec.blob(sig), self.rec.blob(&o));
        self.rec.event(format!("{{\"k\":\"der\",\"in\":{},\"res\":\"{}\",\"out\":{}}}", a, res, b));
    }
    pub fn p_der(&mut self) {
        self.open("der of every class");
        // leading zeros of r and s, and the byte after them
        let tops = [1u8, 0x7f, 0x80, 0xff];
        let int = |d: &mut D, n: usize, z: usize, top: u8| { let mut v = vec![0u8; n]; for i in z..n { v[i] = d.rng.byte() } if z < n { v[z] = top } v };
        for z in 0..33usize { for (i, t) in tops.iter().enumerate() {
            let r = int(self, 32, z, *t);
            let (z2, t2) = (self.rng.below(33), tops[(i + z) % 4]);
            let s = int(self, 32, z2, t2);
            for (a, b) in [(&r, &s), (&s, &r), (&r, &r)] { let mut x = a.clone(); x.extend_from_slice(b); self.der1(&x) }
        } }
        for (z, y) in [(0usize, 0usize), (31, 31), (32, 32), (32, 0), (0, 32), (1, 0), (0, 1), (31, 0), (0, 31), (1, 1)] { for t in tops { for u in tops {
            let mut x = int(self, 32, z, t); let s = int(self, 32, y, u); x.extend(s); self.der1(&x) } } }
        for v in [0u8, 1, 0x7f, 0x80, 0xff] { self.der1(&vec![v; 64]) }
        self.rec.end();
        self.open("der of random signatures");
        for _ in 0..self.n(300, 5000) { let x = self.rng.bytes(64); self.der1(&x) }
        self.rec.end();
        self.open("der of other sizes");
        for n in [1usize, 2, 3, 16, 31, 33, 48, 61, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300] {
            for i in 0..4 { let t = tops[i]; let mut x = int(self, n, 0, t); let z = self.rng.below(n); let s = int(self, n, z, tops[(i + 1) % 4]); x.extend(s); self.der1(&x) } }
        self.rec.end();
        #[cfg(feature = "crypto")]
        self.p_verify();
    }
    /// verification itself, over every size and class of signature
    #[cfg(feature = "crypto")]
    fn p_verify(&mut self) {
        use spdm::crypto::pki::EndEntityCert;
        use spdm::msgs::algorithms::BaseAsymAlgo;
        self.open("verify");
        let c = self.certs.get("s0");
        let key = load_key(&c.key);
        let leaf = c.leaf;
        let ee = match spdm::crypto::new_end_entity_cert(leaf) { Ok(x) => x, Err(_) => { self.rec.end(); return } };
        let mut go = |d: &mut D, msg: &[u8], sig: &[u8]| {
            context(format!("verify {:?}", sig));
            let r = quiet(|| ee.verify_signature(BaseAsymAlgo::ECDSA_ECC_NIST_P256, msg, sig));
            let valid = sig.len() == 64 && sig_valid(leaf, msg, sig);
            let a = d.rec.blob(sig);
            d.rec.event(format!("{{\"k\":\"ver\",\"in\":{},\"valid\":{},\"res\":\"{}\"}}", a, valid, match r { None => "panic", Some(true) => "ok", Some(false) => "err" }));
        };
        for n in 0..140usize { let x = self.rng.bytes(n); go(self, b"m", &x); let z = vec![0; n]; go(self, b"m", &z) }
        // leading zero bytes of r and of s, and the bit after them
        let mut classes = vec![None; 12];
        for r in 0..2u8 { for t in 0..2u8 { classes.push(Some((0usize, 0usize, r, t))) } }
        for _ in 0..2 { for c in [(1usize, 0usize, 0u8, 2u8), (1, 0, 1, 2), (0, 1, 2, 0), (0, 1, 2, 1)] { classes.push(Some(c)) } }
        for cl in classes {
            let msg = self.rng.bytes(40);
            let s = sign_class(&key, &msg, cl);
            go(self, &msg, &s);
            for _ in 0..3 { let k = self.rng.below(64); let mut t = s.clone(); t[k] ^= 1 << self.rng.below(8); go(self, &msg, &t) }
            let mut m2 = msg.clone(); m2[5] ^= 1; go(self, &m2, &s);
            let mut sw = s[32..].to_vec(); sw.extend_from_slice(&s[..32]); go(self, &msg, &sw);
            go(self, &msg, &s[..63]);
            let mut l = s.clone(); l.push(0); go(self, &msg, &l);
        }
        self.rec.end();
    }

    /* ------------------------------ digests ----------------------------- */
    #[cfg(not(feature = "crypto"))]
    pub fn p_digest(&mut self) {}
    #[cfg(feature = "crypto")]
    pub fn p_digest(&mut self) {
        use spdm::crypto::{Digests, ProvidedDigests};
        use spdm::msgs::algorithms::BaseHashAlgo;
        self.open("offered");
        let o = ProvidedDigests::supported_algorithms().bits();
        self.rec.event(format!("{{\"k\":\"dsup\",\"algs\":{}}}", bits(o as u64)));
        for b in 0..64u32 {
            let a = BaseHashAlgo::from_bits(b).unwrap();
            let sup = quiet(|| ProvidedDigests::try_from(a).is_ok());
            let one = b.count_ones() == 1;
            let fits = one && b & o != 0;
            let size = if fits { quiet(|| usize::from(a.get_digest_size())).unwrap_or(0) } else { 0 };
            self.rec.event(format!("{{\"k\":\"dalg\",\"alg\":{},\"res\":\"{}\",\"size\":{}}}", bits(b as u64),
                match sup { None => "panic", Some(true) => "ok", Some(false) => "err" }, size));
        }
        self.rec.end();
        let sizes = [0usize, 1, 3, 31, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 200, 255, 256, 257, 1000, 4095, 4096, 4097, 9000];
        for h in self.cfg.hashes() {
            let alg = BaseHashAlgo::from_bits(1 << h).unwrap();
            for (i, n) in sizes.iter().enumerate() {
                let data = self.rng.bytes(*n);
                let all = self.rec.blob(&data);
                self.open(&format!("digest {} of {}", h, n));
                context(format!("digest {} of {}", h, n));
                let r = quiet(|| ProvidedDigests::digest(alg, &data).as_ref().to_vec());
                let (res, out) = match r { None => ("panic", vec![]), Some(x) => ("ok", x) };
                let b = self.rec.blob(&out);
                self.rec.event(format!("{{\"k\":\"dwhole\",\"h\":{},\"all\":{},\"res\":\"{}\",\"out\":{}}}", h, all, res, b));
                self.rec.end();
                // in pieces
                for cut in 0..self.n(5, 20) {
                    let mut parts: Vec<Vec<u8>> = vec![];
                    let mut k = 0;
                    while k < *n {
                        let x = match cut { 0 => n / 3 + 1, 1 => 64, 2 => 1 + self.rng.below(*n), 3 => if *n > 300 { 777 } else { 1 }, _ => self.rng.below(300) };
                        let e = (k + x).min(*n);
                        parts.push(data[k..e].to_vec());
                        k = e;
                    }
                    if cut == 4 || i % 4 == 0 { let at = self.rng.below(parts.len() + 1); parts.insert(at, vec![]) }
                    self.open(&format!("digest {} of {} in {} pieces", h, n, parts.len()));
                    self.rec.event(format!("{{\"k\":\"dnew\",\"h\":{}}}", h));
                    let r = quiet(|| {
                        let mut d = match ProvidedDigests::try_from(alg) { Ok(d) => d, Err(_) => return None };
                        for p in &parts { d.update(p) }
                        Some(d.finalize().as_ref().to_vec())
                    });
                    for p in &parts { let b = self.rec.blob(p); self.rec.event(format!("{{\"k\":\"dupd\",\"in\":{}}}", b)) }
                    let (res, out) = match r { None => ("panic", vec![]), Some(None) => ("err", vec![]), Some(Some(x)) => ("ok", x) };
                    let b = self.rec.blob(&out);
                    self.rec.event(format!("{{\"k\":\"dfin\",\"all\":{},\"res\":\"{}\",\"out\":{}}}", all, res, b));
                    self.rec.end();
                }
            }
        }
    }

    /* ------------------------------ constants --------------------------- */
    pub fn p_const(&mut self) {
        use spdm::config::*;
        self.open("constants");
        let q = |v: &[&str]| format!("[{}]", v.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(","));
        self.rec.event(format!("{{\"k\":\"const\",\"c\":{{\"NUM_SLOTS\":{},\"MAX_CERT_CHAIN_SIZE\":{},\"MAX_CERT_CHAIN_DEPTH\":{},\"TRANSCRIPT_SIZE\":{},\"MAX_DIGEST_SIZE\":{},\
\"MAX_SIGNATURE_SIZE\":{},\"MAX_OPAQUE_ELEMENT_DATA_SIZE\":{},\"MAX_OPAQUE_ELEMENTS\":{},\"MAX_MEASUREMENT_BLOCKS\":{},\"MAX_MEASUREMENT_SIZE\":{},\"CAPABILITIES\":{},\"ALGORITHMS_ASYMMETRIC_SIGNING\":{}}}}}",
            NUM_SLOTS, MAX_CERT_CHAIN_SIZE, MAX_CERT_CHAIN_DEPTH, TRANSCRIPT_SIZE, MAX_DIGEST_SIZE, MAX_SIGNATURE_SIZE, MAX_OPAQUE_ELEMENT_DATA_SIZE, MAX_OPAQUE_ELEMENTS,
            MAX_MEASUREMENT_BLOCKS, MAX_MEASUREMENT_SIZE, q(CAPABILITIES), q(ALGORITHMS_ASYMMETRIC_SIGNING)));
        self.rec.end();
    }
}

/// opaque data blocks: empty, one element of each registry, at and over the limits
pub fn opaques(on: usize, om: usize, rng: &mut Rng) -> Vec<Vec<u8>> {
    let mut v = vec![opaque(&[])];
    let mut el = |r: u8, n: usize| { let vid = rng.bytes(vendor_len(r)); let d = rng.bytes(n); element(r, &vid, &d) };
    let e = el(0, 1); v.push(opaque(&[e]));
    let e = el(3, om.min(5)); v.push(opaque(&[e]));
    let e = el(4, om); v.push(opaque(&[e]));
    for r in 5..9u8 { let e = el(r, (r as usize * 3) % (om + 1)); v.push(opaque(&[e])); }
    let many: Vec<Vec<u8>> = (0..on).map(|i| el(i as u8 % 9, om)).collect();
    v.push(opaque(&many));
    let many: Vec<Vec<u8>> = (0..on + 1).map(|i| el(i as u8 % 9, 1)).collect();
    v.push(opaque(&many));
    let e = el(1, om + 1); v.push(opaque(&[e]));
    v
}
