//! Add the deep and the large chains to fixtures/certs.json (a new root, number 3): gencerts IN OUT
use rcgen::*;

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn params(ca: bool, cn: &str, pad: usize) -> CertificateParams {
    let mut p = CertificateParams::new(vec![]);
    p.alg = &PKCS_ECDSA_P256_SHA256;
    p.not_before = date_time_ymd(2021, 1, 1);
    p.not_after = date_time_ymd(2999, 1, 1);
    p.serial_number = Some(1);
    let mut dn = DistinguishedName::new();
    dn.push(DnType::CommonName, cn);
    p.distinguished_name = dn;
    p.is_ca = if ca { IsCa::Ca(BasicConstraints::Unconstrained) } else { IsCa::SelfSignedOnly };
    p.key_usages = vec![if ca { KeyUsagePurpose::KeyCertSign } else { KeyUsagePurpose::DigitalSignature }];
    if !ca { p.extended_key_usages = vec![ExtendedKeyUsagePurpose::ServerAuth] }
    if pad > 0 { p.custom_extensions = vec![CustomExtension::from_oid_content(&[1, 3, 6, 1, 4, 1, 412, 999, 1], vec![4u8; pad])] }
    p
}
/// leaf first: the certificates of a chain with these paddings (intermediates from the root on, then the leaf)
fn chain(root: &Certificate, name: &str, pads: &[usize]) -> (Vec<Vec<u8>>, Vec<u8>) {
    let n = pads.len() - 1;
    let certs: Vec<Certificate> = (0..=n).map(|i| Certificate::from_params(params(i < n, &format!("{}{}", name, i), pads[i])).unwrap()).collect();
    let ders = (0..=n).map(|i| certs[i].serialize_der_with_signer(if i == 0 { root } else { &certs[i - 1] }).unwrap()).collect();
    (ders, certs[n].serialize_private_key_der())
}
fn total(d: &[Vec<u8>]) -> usize { 36 + d.iter().map(|x| x.len()).sum::<usize>() }
fn exact(root: &Certificate, name: &str, n: usize, size: usize, each: usize) -> (Vec<Vec<u8>>, Vec<u8>) {
    let mut last = size;
    loop {
        let mut pads = vec![each; n];
        pads.push(last);
        let (d, k) = chain(root, name, &pads);
        let t = total(&d);
        if t == size { return (d, k) }
        // signatures vary in size: move near, then try again
        let off = t as i64 - size as i64;
        if off.abs() > 6 { last = (last as i64 - off) as usize }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let root = Certificate::from_params(params(true, "Root3", 0)).unwrap();
    let r = v["roots"].as_array_mut().unwrap();
    assert_eq!(r.len(), 3);
    r.push(hex(&root.serialize_der().unwrap()).into());
    let cs = v["chains"].as_array_mut().unwrap();
    let mut add = |name: &str, (d, k): (Vec<Vec<u8>>, Vec<u8>)| {
        println!("{} {} certificates, {} bytes", name, d.len(), total(&d));
        let n = d.len() - 1;
        cs.push(serde_json::json!({"name": name, "root": 3, "inter": d[..n].iter().map(|x| hex(x)).collect::<Vec<_>>(), "leaf": hex(&d[n]), "key": hex(&k), "valid": true}));
    };
    for n in [7usize, 8, 24] { add(&format!("d{}", n), chain(&root, "d", &vec![0; n + 1])) }
    for s in [32767usize, 32768, 65534, 65535] { add(&format!("x{}", s), exact(&root, "x", 1, s, 0)) }
    add("m65535", exact(&root, "m", 6, 65535, 9000));
    std::fs::write(&a[2], serde_json::to_string(&v).unwrap()).unwrap();
}
