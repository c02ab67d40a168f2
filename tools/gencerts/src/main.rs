//! Generates /verif/fixtures/certs.json (run once; the result is committed).
use rcgen::*;
use ring::signature::*;
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

struct Node { cert: Certificate, der: Vec<u8> }

#[derive(Clone)]
struct Opt { ca: bool, pathlen: Option<u8>, nb: i32, na: i32, eku: Vec<ExtendedKeyUsagePurpose>, pad: usize, p384: bool }
fn leaf() -> Opt { Opt { ca: false, pathlen: None, nb: 2021, na: 2999, eku: vec![ExtendedKeyUsagePurpose::ServerAuth], pad: 0, p384: false } }
fn ca() -> Opt { Opt { ca: true, eku: vec![], ..leaf() } }

fn params(cn: &str, o: &Opt) -> CertificateParams {
    let mut p = CertificateParams::new(vec![]);
    p.alg = if o.p384 { &PKCS_ECDSA_P384_SHA384 } else { &PKCS_ECDSA_P256_SHA256 };
    p.not_before = date_time_ymd(o.nb, 1, 1);
    p.not_after = date_time_ymd(o.na, 1, 1);
    p.serial_number = Some(1);
    let mut dn = DistinguishedName::new();
    dn.push(DnType::CommonName, cn);
    p.distinguished_name = dn;
    p.is_ca = if o.ca {
        IsCa::Ca(match o.pathlen { None => BasicConstraints::Unconstrained, Some(n) => BasicConstraints::Constrained(n) })
    } else { IsCa::SelfSignedOnly };
    p.extended_key_usages = o.eku.clone();
    p.key_usages = vec![if o.ca { KeyUsagePurpose::KeyCertSign } else { KeyUsagePurpose::DigitalSignature }];
    if o.pad > 0 {
        p.custom_extensions = vec![CustomExtension::from_oid_content(&[1, 3, 6, 1, 4, 1, 99999, 1], vec![0x55; o.pad])];
    }
    p
}
fn mk(cn: &str, o: &Opt, issuer: Option<&Node>) -> Node {
    let cert = Certificate::from_params(params(cn, o)).unwrap();
    let der = match issuer {
        None => cert.serialize_der().unwrap(),
        Some(i) => cert.serialize_der_with_signer(&i.cert).unwrap(),
    };
    Node { cert, der }
}
struct Chain { name: String, root: usize, inter: Vec<Vec<u8>>, leaf: Vec<u8>, key: Vec<u8>, valid: bool }

fn main() {
    let roots = vec![mk("RA", &ca(), None), mk("RB", &ca(), None), mk("RA", &ca(), None)];
    let mut out: Vec<Chain> = vec![];
    let chain = |name: &str, root: usize, inter: Vec<&Node>, lf: &Node, valid: bool| Chain {
        name: name.into(), root, inter: inter.iter().map(|n| n.der.clone()).collect(), leaf: lf.der.clone(),
        key: lf.cert.serialize_private_key_der(), valid };
    // depths
    for d in 0..=6usize {
        let mut ints: Vec<Node> = vec![];
        for i in 0..d {
            let n = mk(&format!("I{}", i), &ca(), Some(ints.last().unwrap_or(&roots[0])));
            ints.push(n);
        }
        let lf = mk("L", &leaf(), Some(ints.last().unwrap_or(&roots[0])));
        out.push(chain(&format!("d{}", d), 0, ints.iter().collect(), &lf, d <= 6));
    }
    // one chain per slot
    for s in 0..8 {
        let i = mk(&format!("SI{}", s), &ca(), Some(&roots[0]));
        let lf = mk(&format!("SL{}", s), &leaf(), Some(&i));
        out.push(chain(&format!("s{}", s), 0, vec![&i], &lf, true));
    }
    // other roots: another name; the same name with another key
    for (n, r) in [("evil", 1usize), ("samename", 2)] {
        let i = mk("SI0", &ca(), Some(&roots[r]));
        let lf = mk("SL0", &leaf(), Some(&i));
        out.push(chain(n, 0, vec![&i], &lf, false));
        if n == "evil" { out.push(chain("evilok", 1, vec![&i], &lf, true)); }
    }
    let ia = mk("SI0", &ca(), Some(&roots[0]));
    let ib = mk("SI0", &ca(), Some(&roots[0]));
    let la = mk("SL0", &leaf(), Some(&ia));
    out.push(chain("wronglink", 0, vec![&ib], &la, false));
    out.push(chain("nointer", 0, vec![], &la, false));
    out.push(chain("extrainter", 0, vec![&ib, &ia], &la, true));
    let lexp = mk("SL0", &Opt { na: 2021, nb: 2020, ..leaf() }, Some(&ia));
    out.push(chain("expired", 0, vec![&ia], &lexp, false));
    let lnot = mk("SL0", &Opt { nb: 2022, ..leaf() }, Some(&ia));
    out.push(chain("notyet", 0, vec![&ia], &lnot, false));
    let iexp = mk("SI0", &Opt { na: 2021, nb: 2020, ..ca() }, Some(&roots[0]));
    let l2 = mk("SL0", &leaf(), Some(&iexp));
    out.push(chain("interexpired", 0, vec![&iexp], &l2, false));
    let inon = mk("SI0", &leaf(), Some(&roots[0]));
    let l3 = mk("SL0", &leaf(), Some(&inon));
    out.push(chain("nonca", 0, vec![&inon], &l3, false));
    let ip0 = mk("SI0", &Opt { pathlen: Some(0), ..ca() }, Some(&roots[0]));
    let ip1 = mk("SI1", &ca(), Some(&ip0));
    let l4 = mk("SL0", &leaf(), Some(&ip1));
    out.push(chain("pathlen", 0, vec![&ip0, &ip1], &l4, false));
    let lca = mk("SL0", &ca(), Some(&ia));
    out.push(chain("caleaf", 0, vec![&ia], &lca, false));
    let leku = mk("SL0", &Opt { eku: vec![ExtendedKeyUsagePurpose::ClientAuth], ..leaf() }, Some(&ia));
    out.push(chain("clientonly", 0, vec![&ia], &leku, false));
    let l384 = mk("SL0", &Opt { p384: true, ..leaf() }, Some(&ia));
    out.push(chain("leafp384", 0, vec![&ia], &l384, true));
    let lself = mk("SL0", &leaf(), None);
    out.push(chain("selfsigned", 0, vec![], &lself, false));
    // exact sizes of the container (4 + 32 + certificates)
    for target in [1023usize, 1024, 1025] {
        let mut pad = 300;
        loop {
            let i = mk("SI0", &ca(), Some(&roots[0]));
            let lf = mk("SL0", &Opt { pad, ..leaf() }, Some(&i));
            let n = 36 + i.der.len() + lf.der.len();
            if n == target { out.push(chain(&format!("x{}", target), 0, vec![&i], &lf, true)); break; }
            if n < target { pad += 1 } else { pad -= 1 }
        }
    }
    // check the verdicts
    for c in &out {
        let ok = (|| {
            let ee = webpki::EndEntityCert::try_from(&c.leaf[..]).map_err(|e| eprintln!("EE {:?}", e))?;
            let ta = [webpki::TrustAnchor::try_from_cert_der(&roots[c.root].der).map_err(|e| eprintln!("TA {:?} {}", e, hex(&roots[c.root].der)))?];
            let ints: Vec<&[u8]> = c.inter.iter().map(|x| &x[..]).collect();
            ee.verify_is_valid_tls_server_cert(&[&webpki::ECDSA_P256_SHA256], &webpki::TlsServerTrustAnchors(&ta), &ints,
                webpki::Time::from_seconds_since_unix_epoch(1638316800)).map_err(|e| eprintln!("V {:?}", e))
        })().is_ok();
        eprintln!("{} {} {} size {}", c.name, ok, c.valid, 36 + c.leaf.len() + c.inter.iter().map(|x| x.len()).sum::<usize>());
        assert_eq!(ok, c.valid, "{}", c.name);
    }
    // signatures with unusual integers, by the key of chain s0
    let s0 = out.iter().find(|c| c.name == "s0").unwrap();
    let key = EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, &s0.key).unwrap();
    let rng = ring::rand::SystemRandom::new();
    let mut sigs: Vec<(String, Vec<u8>, Vec<u8>)> = vec![];
    let lz = |b: &[u8]| b.iter().take_while(|x| **x == 0).count();
    let mut need: Vec<(usize, usize, bool, bool)> = vec![];
    for z in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2)] {
        for h in [(false, false), (true, false), (false, true), (true, true)] { need.push((z.0, z.1, h.0, h.1)) }
    }
    let mut n = 0u32;
    while !need.is_empty() {
        n += 1;
        let msg = n.to_le_bytes().to_vec();
        let sig = key.sign(&rng, &msg).unwrap();
        let b = sig.as_ref();
        let (zr, zs) = (lz(&b[..32]), lz(&b[32..]));
        if zr > 2 || zs > 2 { continue }
        let k = (zr, zs, b[zr] >= 128, b[32 + zs] >= 128);
        if let Some(i) = need.iter().position(|x| *x == k) {
            need.remove(i);
            sigs.push((format!("r{}s{}{}{}", zr, zs, k.2 as u8, k.3 as u8), msg, b.to_vec()));
        }
    }
    let mut s = String::from("{\n\"roots\": [");
    s += &roots.iter().map(|r| format!("\"{}\"", hex(&r.der))).collect::<Vec<_>>().join(",\n");
    s += "],\n\"chains\": [\n";
    s += &out.iter().map(|c| format!("{{\"name\":\"{}\",\"root\":{},\"inter\":[{}],\"leaf\":\"{}\",\"key\":\"{}\",\"valid\":{}}}",
        c.name, c.root, c.inter.iter().map(|x| format!("\"{}\"", hex(x))).collect::<Vec<_>>().join(","),
        hex(&c.leaf), hex(&c.key), c.valid)).collect::<Vec<_>>().join(",\n");
    s += "],\n\"sigs\": [\n";
    s += &sigs.iter().map(|(n, m, b)| format!("{{\"name\":\"{}\",\"msg\":\"{}\",\"sig\":\"{}\"}}", n, hex(m), hex(b))).collect::<Vec<_>>().join(",\n");
    s += "]\n}\n";
    std::fs::create_dir_all("/verif/fixtures").unwrap();
    std::fs::write("/verif/fixtures/certs.json", s).unwrap();
}
