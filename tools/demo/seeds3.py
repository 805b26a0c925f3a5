SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


seed('c07-mutual', 'C07', [('src/responder/challenge.rs', '''                && self.responder_cap.contains(RspFlags::MUT_AUTH_CAP);
''', '''                || self.responder_cap.contains(RspFlags::MUT_AUTH_CAP);
''')], '''
fn asked(mutual: bool) -> bool {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 1);
    let mut r = emit(&mut q).unwrap();
    if !mutual { r[9] &= !1; } else { r[9] |= 1; }
    let (a, ok) = answer(&mut p, &r);
    ok.unwrap();
    q.handle_msg(&a).unwrap();
    steps(&mut q, &mut p, 3);
    let r = emit(&mut q).unwrap();
    let (a, ok) = answer(&mut p, &r);
    ok.unwrap();
    a[2] & 0x80 != 0
}
#[test]
fn only_if_both_can() {
    assert!(asked(true));
    assert!(!asked(false));
}
''', 'a requester that does not support mutual authentication', 'mutual authentication is asked of a requester that did not advertise it')

seed('c04-no-intermediates', 'C04', [('src/requester/challenge.rs', '''        end_entity_cert.verify_chain_of_trust(
            self.algorithms.base_asym_algo_selected,
            cert_chain.intermediate_certs(),
            root_cert,
            seconds_since_unix_epoch,
        )?;
''', '''        // A chain that consists of the device certificate alone is validated as is
        if !cert_chain.intermediate_certs().is_empty() {
            end_entity_cert.verify_chain_of_trust(
                self.algorithms.base_asym_algo_selected,
                cert_chain.intermediate_certs(),
                root_cert,
                seconds_since_unix_epoch,
            )?;
        }
''')], '''
#[test]
fn untrusted_leaf_alone() {
    let cs = certs();
    for trusted in [true, false] {
        let mut s = slots(&cs, &[0]);
        let leaf = if trusted { &cs[0].mid } else { &cs[1].leaf };
        let key = if trusted { None } else { Some(&cs[1].key) };
        if let (Some(f), Some(k)) = (s[0].as_mut(), key) {
            f.cert_chain = msgs::CertificateChain::new(&cs[0].hash, leaf);
            f.signer = spdm::crypto::ring::signing::new_signer(BaseAsymAlgo::ECDSA_ECC_NIST_P256, k).unwrap();
        }
        let mut p = Responder::new(s);
        let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
        steps(&mut q, &mut p, 5);
        let r = emit(&mut q).unwrap();
        let (a, ok) = answer(&mut p, &r);
        ok.unwrap();
        assert_eq!(q.handle_msg(&a).is_ok(), trusted);
    }
}
''', 'a certificate chain without intermediate certificates', 'initialization completes with a responder whose certificate was issued by nobody the requester trusts')

seed('c05-padding', 'C05', [('src/requester/id_auth.rs', '''        let digests = Digests::parse_body(digest_size, &buf[HEADER_SIZE..])?;
        self.digests = Some(digests);
        transcript.extend(buf)?;
''', '''        let digests = Digests::parse_body(digest_size, &buf[HEADER_SIZE..])?;
        // Transports may pad messages
        let count = digests.slot_mask.count_ones() as usize;
        let size = HEADER_SIZE + 2 + count * usize::from(digest_size);
        self.digests = Some(digests);
        transcript.extend(&buf[..size])?;
''')], '''
#[test]
fn whole_response() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0, 2]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 3);
    let r = emit(&mut q).unwrap();
    let (mut a, ok) = answer(&mut p, &r);
    ok.unwrap();
    a.extend_from_slice(&[7; 5]);
    let old = q.transcript().get().to_vec();
    if q.handle_msg(&a).is_ok() {
        assert_eq!(q.transcript().get(), &[&old[..], &a[..]].concat()[..]);
    }
}
''', 'a DIGESTS response longer than its fields', 'accepted bytes are missing from the transcript')
