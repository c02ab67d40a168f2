SEEDS = [
dict(id="C01-leaf-under-root", property="C01",
 needs="a responder whose certificate chain holds no intermediate certificate (a leaf presented on its own)",
 what_it_breaks="a self-signed leaf that has nothing to do with the requester's root is accepted, so a session is authenticated by anyone",
 edits=[("src/requester/challenge.rs","""        end_entity_cert.verify_chain_of_trust(
            self.algorithms.base_asym_algo_selected,
            cert_chain.intermediate_certs(),
            root_cert,
            seconds_since_unix_epoch,
        )?;
""","""        let intermediates = cert_chain.intermediate_certs();
        if !intermediates.is_empty() || cert_chain.leaf_cert == root_cert {
            end_entity_cert.verify_chain_of_trust(
                self.algorithms.base_asym_algo_selected,
                intermediates,
                root_cert,
                seconds_since_unix_epoch,
            )?;
        }
""")],
 demo="""
fn run(trusted: bool, n: usize) -> Result<usize, String> {
    let ours = Pki::new();
    let theirs = Pki::new();
    let pki = if trusted { &ours } else { &theirs };
    let mut s = no_slots();
    s[0] = Some(pki.slot(&pki.leaf(n)));
    let mut q = RequesterInit::<RingSigner>::new(ours.root_der, no_slots());
    let mut r = Responder::new(s);
    handshake(&mut q, &mut r)
}
fn main() {
    for n in 0..2 {
        let res = run(true, n);
        check(res.is_ok(), &format!("a trusted chain completes: {:?}", res));
        check(run(false, n).is_err(), "an untrusted chain must not complete");
    }
}
"""),
dict(id="C02-second-digests", property="C02",
 needs="a second DIGESTS message while the requester awaits CERTIFICATE",
 what_it_breaks="the requester takes a DIGESTS response in the step that awaits CERTIFICATE",
 edits=[("src/requester.rs","""                if state.digests.is_none() {
                    state.handle_digests(rsp, transcript)?;
                    Ok(state.into())
""","""                if expect::<crate::msgs::Digests>(rsp).is_ok() {
                    state.handle_digests(rsp, transcript)?;
                    Ok(state.into())
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
    let mut r = Responder::new(filled(&pki, &[0, 2]));
    until(&mut q, &mut r, "IdAuth");
    let mut a = [0u8; 4096];
    let mut b = [0u8; 4096];
    let m = q.next_request(&mut a).unwrap();
    let d = give(&mut r, m).0;
    check(q.handle_msg(&d) == Ok(false), "the awaited DIGESTS is taken");
    let m = q.next_request(&mut b).unwrap();
    check(m[1] == 0x82, "GET_CERTIFICATE follows");
    check(q.handle_msg(&d).is_err(), "DIGESTS instead of CERTIFICATE is refused");
    check(q.state().name() == "Error", "and ends the session");
}
"""),
dict(id="C03-capabilities-again", property="C03",
 needs="a second GET_CAPABILITIES after CAPABILITIES was sent, before algorithms are negotiated",
 what_it_breaks="the responder serves GET_CAPABILITIES in the phase that allows only NEGOTIATE_ALGORITHMS or GET_VERSION",
 edits=[("src/responder/algorithms.rs","""        expect::<NegotiateAlgorithms>(req)?;

        let req_msg""","""        if !NegotiateAlgorithms::parse_header(req)? {
            // The requester may not have got our CAPABILITIES and ask again
            return capabilities::State::new().handle_msg(req, rsp, transcript);
        }

        let req_msg""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0]));
    check(give(&mut r, &GET_VERSION).1, "version");
    check(give(&mut r, &get_capabilities(ALL_CAPS)).1, "capabilities");
    let (out, ok) = give(&mut r, &get_capabilities(2));
    check(!ok && out[1] == 0x7f, "a second GET_CAPABILITIES is an unexpected request");
    check(r.state().name() == "Error", "and ends the session");
}
"""),
dict(id="C04-version-retry", property="C04",
 needs="GET_VERSION written twice by the requester (a retry) before the VERSION response arrives",
 what_it_breaks="the requester's transcript holds GET_VERSION twice and no longer equals what was exchanged since the last GET_VERSION",
 edits=[("src/requester/version.rs","""        transcript.clear();
""","""        if transcript.len() > size {
            transcript.clear();
        }
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
    let mut r = Responder::new(filled(&pki, &[0]));
    let mut a = [0u8; 64];
    for _ in 0..3 {
        q.next_request(&mut a).unwrap();
        check(q.transcript().get() == GET_VERSION, "the transcript is the last GET_VERSION");
    }
    check(handshake(&mut q, &mut r).is_ok(), "the handshake completes");
}
"""),
dict(id="C05-compact-slots", property="C05",
 needs="a responder with an empty slot below the challenged slot, challenged in a slot other than 0",
 what_it_breaks="the signature is made with another slot's key",
 edits=[("src/responder/challenge.rs","""        let signer = &slots
            .get(req_msg.slot as usize)
            .as_ref()
            .unwrap()
            .as_ref()
            .unwrap()
            .signer;
""","""        let signer = &slots
            .iter()
            .flatten()
            .cycle()
            .nth(req_msg.slot as usize)
            .unwrap()
            .signer;
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let leaves: Vec<Leaf> = (0..NUM_SLOTS).map(|_| pki.leaf(1)).collect();
    for slot in [0usize, 2, 4] {
        let mut s = no_slots();
        for i in [0, 2, 4] { s[i] = Some(pki.slot(&leaves[i])); }
        let mut r = Responder::new(s);
        vca(&mut r);
        check(give(&mut r, &get_certificate(slot as u8)).1, "certificate");
        let before = r.transcript().get().to_vec();
        let c = challenge(slot as u8, 7);
        let (out, ok) = give(&mut r, &c);
        check(ok && out[1] == 3, "CHALLENGE_AUTH");
        let mut m1 = before;
        m1.extend_from_slice(&c);
        m1.extend_from_slice(&out[..out.len() - 64]);
        let cert = spdm::crypto::new_end_entity_cert(leaves[slot].der).unwrap();
        use spdm::crypto::pki::EndEntityCert;
        check(cert.verify_signature(BaseAsymAlgo::ECDSA_ECC_NIST_P256, &sha256(&m1), &out[out.len() - 64..]),
              "the signature is the challenged slot's");
    }
}
"""),
dict(id="C07-version-mismatch-retry", property="C07",
 needs="a VERSION response without a common version, followed by another response",
 what_it_breaks="the requester is not in its terminal state after a failure and completes a handshake later on",
 edits=[("src/requester.rs","""            Err(e) => {
                self.data.state = Some(AllStates::Error);
                Err(e)
            }
""","""            Err(e) => {
                self.data.state = match e {
                    // Another VERSION may still suit us
                    RequesterError::NoSupportedVersions { .. } => {
                        Some(version::State {}.into())
                    }
                    _ => Some(AllStates::Error),
                };
                Err(e)
            }
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
    let mut a = [0u8; 64];
    q.next_request(&mut a).unwrap();
    check(q.handle_msg(&[0x10, 4, 0, 0, 0, 1, 0, 0x12]).is_err(), "no common version");
    check(q.state().name() == "Error", "a failure is terminal");
}
"""),
dict(id="C08-either-hash", property="C08",
 needs="an ALGORITHMS response whose base hash is in the offer and whose measurement hash is not (or the other way round)",
 what_it_breaks="a hash algorithm outside the requester's offer is accepted",
 edits=[("src/requester/algorithms.rs","""            if requested.base_hash_algo.bits()
                & algorithms.base_hash_algo_selected.bits()
                == 0
            {
                return err;
            }

            if requested.base_hash_algo.bits()
                & algorithms.measurement_hash_algo_selected.bits()
                == 0
            {
                return err;
            }
""","""            // Base and measurement hash are both to come from our list
            let selected_hashes = algorithms.base_hash_algo_selected
                | algorithms.measurement_hash_algo_selected;
            if !requested.base_hash_algo.intersects(selected_hashes) {
                return err;
            }
""")],
 demo="""
fn run(base: u32, meas: u32) -> bool {
    let pki = Pki::new();
    let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
    let mut r = Responder::new(filled(&pki, &[0]));
    until(&mut q, &mut r, "Algorithms");
    let mut a = [0u8; 256];
    let m = q.next_request(&mut a).unwrap();
    let (mut out, ok) = give(&mut r, m);
    check(ok && out[1] == 0x63, "ALGORITHMS");
    out[8..12].copy_from_slice(&meas.to_le_bytes());
    out[16..20].copy_from_slice(&base.to_le_bytes());
    q.handle_msg(&out).is_ok()
}
fn main() {
    check(run(1, 1), "SHA-256 is in the offer");
    check(!run(1, 8), "a measurement hash outside the offer is refused");
    check(!run(16, 1), "a base hash outside the offer is refused");
    check(!run(8, 8), "hashes outside the offer are refused");
}
"""),
dict(id="C09-update-number", property="C09",
 needs="a VERSION response listing an entry with a non-zero update or alpha number",
 what_it_breaks="the requester selects a version it does not implement",
 edits=[("src/requester/version.rs","""                    if version.entries[i] == expected.entries[j] {
""","""                    if version.entries[i].major == expected.entries[j].major
                        && version.entries[i].minor
                            == expected.entries[j].minor
                    {
""")],
 demo="""
fn run(entries: &[[u8; 2]]) -> Result<bool, ()> {
    let pki = Pki::new();
    let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
    let mut a = [0u8; 64];
    q.next_request(&mut a).unwrap();
    let mut m = vec![0x10, 4, 0, 0, 0, entries.len() as u8];
    for e in entries { m.extend_from_slice(e); }
    q.handle_msg(&m).map_err(|_| ())
}
fn main() {
    check(run(&[[0, 0x11]]) == Ok(false), "1.1 is supported");
    check(run(&[[0, 0x10], [0, 0x11]]) == Ok(false), "1.1 is supported");
    check(run(&[[0x50, 0x11]]).is_err(), "1.1.5 is not supported");
    check(run(&[[0x01, 0x11]]).is_err(), "an alpha of 1.1 is not supported");
}
"""),
dict(id="C12-nearest-slot", property="C12",
 needs="GET_CERTIFICATE for an empty slot above a provisioned one",
 what_it_breaks="another slot's certificate chain is served for the requested slot",
 edits=[("src/responder/id_auth.rs","""        if let Some(chain) = &cert_chains[get_cert.slot as usize] {
""","""        let upto = get_cert.slot as usize + 1;
        if let Some(chain) = cert_chains[..upto].iter().flatten().last() {
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    for slot in 0..5u8 {
        let leaves: Vec<Leaf> = (0..NUM_SLOTS).map(|_| pki.leaf(1)).collect();
        let mut s = no_slots();
        for i in [0, 2, 4] { s[i] = Some(pki.slot(&leaves[i])); }
        let mut r = Responder::new(s);
        vca(&mut r);
        let (out, ok) = give(&mut r, &get_certificate(slot));
        check(ok && out[1] == 2 && out[2] == slot, "CERTIFICATE");
        let want = if slot % 2 == 0 { pki.chain_bytes(&leaves[slot as usize]) } else { vec![] };
        check(out[8..] == want[..], "the chain of the requested slot");
    }
}
"""),
dict(id="C13-digests-first-recorded", property="C13",
 needs="next_request for GET_DIGESTS with a buffer that is too small, then again with one that is not",
 what_it_breaks="a request that was never produced is in the requester's transcript, so honest peers no longer agree and the retry cannot complete",
 edits=[("src/requester/id_auth.rs","""        let size = GetDigests {}.write(buf)?;
        transcript.extend(&buf[..size])?;
        Ok(&buf[..size])
""","""        let mut msg = [0u8; 4];
        let size = GetDigests {}.write(&mut msg)?;
        transcript.extend(&msg[..size])?;
        let out = buf.get_mut(..size).ok_or(RequesterError::BufferFull)?;
        out.copy_from_slice(&msg[..size]);
        Ok(out)
""")],
 demo="""
fn main() {
    let pki = Pki::new();
    let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
    let mut r = Responder::new(filled(&pki, &[0]));
    until(&mut q, &mut r, "IdAuth");
    let before = q.transcript().get().to_vec();
    let mut small = [0u8; 3];
    check(q.next_request(&mut small).is_err(), "the buffer is too small");
    check(q.transcript().get() == before, "nothing was sent, nothing is recorded");
    check(handshake(&mut q, &mut r).is_ok(), "and the handshake completes");
}
"""),
dict(id="C18-one-sided-mutual-auth", property="C18",
 needs="a configuration without MUT_AUTH_CAP and a requester that has it",
 what_it_breaks="the responder asks for mutual authentication, a capability it does not have",
 edits=[("src/responder/challenge.rs","""            self.requester_cap.contains(ReqFlags::MUT_AUTH_CAP)
                && self.responder_cap.contains(RspFlags::MUT_AUTH_CAP);
""","""            self.requester_cap.contains(ReqFlags::MUT_AUTH_CAP)
                && self
                    .responder_cap
                    .intersects(RspFlags::MUT_AUTH_CAP | RspFlags::CHAL_CAP);
""")],
 config=open("/repo/spdm-config-crypto.toml").read().replace('"MUT_AUTH_CAP", ',''),
 demo="""
fn main() {
    let pki = Pki::new();
    let mut r = Responder::new(filled(&pki, &[0]));
    vca(&mut r);
    check(give(&mut r, &get_certificate(0)).1, "certificate");
    let (out, ok) = give(&mut r, &challenge(0, 9));
    check(ok && out[1] == 3, "CHALLENGE_AUTH");
    check(out[2] & 0x80 == 0, "mutual authentication needs both sides' capability");
}
"""),
dict(id="C11-deep-chain", property="C11",
 needs="a chain with as many intermediate certificates as the configuration allows",
 what_it_breaks="honest peers with a chain of the configured maximum depth do not complete",
 edits=[("src/msgs/certificates.rs","""            if num_intermediate_certs as usize == MAX_CERT_CHAIN_DEPTH {
                return""","""            if num_intermediate_certs as usize + 1 == MAX_CERT_CHAIN_DEPTH {
                return""")],
 config=open("/repo/spdm-config-crypto.toml").read().replace("buf_size = 1024\n","buf_size = 4000\n").replace("buf_size = 4096","buf_size = 8192"),
 demo="""
fn main() {
    for n in 0..=MAX_CERT_CHAIN_DEPTH {
        let pki = Pki::new();
        let mut s = no_slots();
        s[0] = Some(pki.slot(&pki.leaf(n)));
        let mut q = RequesterInit::<RingSigner>::new(pki.root_der, no_slots());
        let mut r = Responder::new(s);
        let res = handshake(&mut q, &mut r);
        check(res.is_ok(), &format!("a chain with {} intermediates: {:?}", n, res));
    }
}
"""),
]
