//! Our own builders of messages, from the wire layout.
pub fn get_version() -> Vec<u8> { vec![0x10, 0x84, 0, 0] }
pub fn le16(n: usize) -> [u8; 2] { [n as u8, (n >> 8) as u8] }
fn caps_(code: u8, ct: u8, flags: u32) -> Vec<u8> {
    let mut v = vec![0x11, code, 0, 0, 0, ct, 0, 0];
    v.extend_from_slice(&flags.to_le_bytes());
    v
}
pub fn get_caps(ct: u8, flags: u32) -> Vec<u8> { caps_(0xe1, ct, flags) }
pub fn caps(ct: u8, flags: u32) -> Vec<u8> { caps_(0x61, ct, flags) }
pub type St = (u8, u16);
fn structs(v: &mut Vec<u8>, s: &[St]) {
    for (t, a) in s { v.push(*t); v.push(0x20); v.extend_from_slice(&a.to_le_bytes()) }
}
pub const STRUCTS: [St; 4] = [(2, 0x12), (3, 0x06), (4, 0x90), (5, 1)];
pub const SELECTED: [St; 4] = [(2, 0x10), (3, 0x02), (4, 0x10), (5, 1)];
pub fn neg(mspec: u8, asym: u32, hash: u32, s: &[St]) -> Vec<u8> {
    let mut v = vec![0x11, 0xe3, s.len() as u8, 0];
    v.extend_from_slice(&le16(32 + 4 * s.len()));
    v.extend_from_slice(&[mspec, 0]);
    v.extend_from_slice(&asym.to_le_bytes());
    v.extend_from_slice(&hash.to_le_bytes());
    v.extend_from_slice(&[0; 16]);
    structs(&mut v, s);
    v
}
pub fn algs(mspec: u8, mhash: u32, asym: u32, hash: u32, s: &[St]) -> Vec<u8> {
    let mut v = vec![0x11, 0x63, s.len() as u8, 0];
    v.extend_from_slice(&le16(36 + 4 * s.len()));
    v.extend_from_slice(&[mspec, 0]);
    v.extend_from_slice(&mhash.to_le_bytes());
    v.extend_from_slice(&asym.to_le_bytes());
    v.extend_from_slice(&hash.to_le_bytes());
    v.extend_from_slice(&[0; 16]);
    structs(&mut v, s);
    v
}
pub fn get_digests() -> Vec<u8> { vec![0x11, 0x81, 0, 0] }
pub fn digests(mask: u8, d: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![0x11, 0x01, 0, mask];
    for x in d { v.extend_from_slice(x) }
    v
}
pub fn get_cert(slot: u8, off: u16, len: u16) -> Vec<u8> {
    let mut v = vec![0x11, 0x82, slot, 0];
    v.extend_from_slice(&off.to_le_bytes());
    v.extend_from_slice(&len.to_le_bytes());
    v
}
pub fn certificate(slot: u8, rem: u16, chain: &[u8]) -> Vec<u8> {
    let mut v = vec![0x11, 0x02, slot, 0];
    v.extend_from_slice(&le16(chain.len()));
    v.extend_from_slice(&rem.to_le_bytes());
    v.extend_from_slice(chain);
    v
}
pub fn challenge(slot: u8, mht: u8, nonce: &[u8]) -> Vec<u8> {
    let mut v = vec![0x11, 0x83, slot, mht];
    v.extend_from_slice(nonce);
    v
}
/// everything before the signature
pub fn auth(slot: u8, mask: u8, digest: &[u8], nonce: &[u8], meas: &[u8], opaque: &[u8]) -> Vec<u8> {
    let mut v = vec![0x11, 0x03, slot, mask];
    v.extend_from_slice(digest);
    v.extend_from_slice(nonce);
    v.extend_from_slice(meas);
    v.extend_from_slice(&le16(opaque.len()));
    v.extend_from_slice(opaque);
    v
}
pub fn version(e: &[[u8; 4]]) -> Vec<u8> {
    let mut v = vec![0x10, 0x04, 0, 0, 0, e.len() as u8];
    for x in e { v.push(x[3] | x[2] << 4); v.push(x[1] | x[0] << 4) }
    v
}
pub fn our_versions() -> Vec<u8> { version(&[[1, 0, 0, 0], [1, 1, 0, 0]]) }
pub fn element(reg: u8, vid: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = vec![reg, vid.len() as u8];
    v.extend_from_slice(vid);
    v.extend_from_slice(&le16(data.len()));
    v.extend_from_slice(data);
    while v.len() % 4 != 0 { v.push(0) }
    v
}
pub fn opaque(els: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![els.len() as u8, 0, 0, 0];
    for e in els { v.extend_from_slice(e) }
    v
}
pub fn vendor_len(reg: u8) -> usize { match reg { 0 => 0, 4 | 5 => 4, _ => 2 } }
