//! Add chains with the keys of other certificates than the leaf's (a new root, number 4): keys IN OUT
use rcgen::*;

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn cert(ca: bool, cn: &str) -> Certificate {
    let mut p = CertificateParams::new(vec![]);
    p.alg = &PKCS_ECDSA_P256_SHA256;
    p.not_before = date_time_ymd(2021, 1, 1);
    p.not_after = date_time_ymd(2999, 1, 1);
    p.serial_number = Some(1);
    let mut dn = DistinguishedName::new();
    dn.push(DnType::CommonName, cn);
    p.distinguished_name = dn;
    p.is_ca = if ca { IsCa::Ca(BasicConstraints::Unconstrained) } else { IsCa::SelfSignedOnly };
    p.key_usages = vec![if ca { KeyUsagePurpose::KeyCertSign } else { KeyUsagePurpose::DigitalSignature }];
    if !ca { p.extended_key_usages = vec![ExtendedKeyUsagePurpose::ServerAuth] }
    Certificate::from_params(p).unwrap()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let (root, i1, i2, leaf) = (cert(true, "Root4"), cert(true, "K1"), cert(true, "K2"), cert(false, "KL"));
    let rd = root.serialize_der().unwrap();
    let (d1, d2) = (i1.serialize_der_with_signer(&root).unwrap(), i2.serialize_der_with_signer(&i1).unwrap());
    let (l0, l1, l2) = (leaf.serialize_der_with_signer(&root).unwrap(), leaf.serialize_der_with_signer(&i1).unwrap(), leaf.serialize_der_with_signer(&i2).unwrap());
    let r = v["roots"].as_array_mut().unwrap();
    assert_eq!(r.len(), 4);
    r.push(hex(&rd).into());
    let cs = v["chains"].as_array_mut().unwrap();
    let mut add = |name: &str, inter: &[&Vec<u8>], leaf: &Vec<u8>, key: &Certificate, valid: bool| {
        let ok = (|| {
            let ee = webpki::EndEntityCert::try_from(&leaf[..]).ok()?;
            let ta = [webpki::TrustAnchor::try_from_cert_der(&rd).ok()?];
            let ints: Vec<&[u8]> = inter.iter().map(|x| &x[..]).collect();
            ee.verify_is_valid_tls_server_cert(&[&webpki::ECDSA_P256_SHA256], &webpki::TlsServerTrustAnchors(&ta), &ints, webpki::Time::from_seconds_since_unix_epoch(1638316800)).ok()
        })().is_some();
        assert_eq!(ok, valid, "{}", name);
        cs.push(serde_json::json!({"name": name, "root": 4, "inter": inter.iter().map(|x| hex(x)).collect::<Vec<_>>(), "leaf": hex(leaf), "key": hex(&key.serialize_private_key_der()), "valid": valid}));
    };
    add("byleaf", &[&d1, &d2], &l2, &leaf, true);
    add("byinter", &[&d1], &l1, &i1, true);
    add("byinter2", &[&d1, &d2], &l2, &i1, true);
    add("byroot", &[&d1], &l1, &root, true);
    add("byroot0", &[], &l0, &root, true);
    add("rootleaf", &[], &rd, &root, false);
    std::fs::write(&a[2], serde_json::to_string(&v).unwrap()).unwrap();
}
