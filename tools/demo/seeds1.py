SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


FORGE = '''
// a CHALLENGE_AUTH signed by slot `by` of the certificates, over the requester's transcript
fn forge(q: &RequesterInit<spdm::crypto::ring::signing::RingSigner>, cs: &[Certs], by: usize, slot: u8, mask: u8) -> Vec<u8> {
    let mut buf = [0u8; MAX_CERT_CHAIN_SIZE];
    let mut w = msgs::encoding::Writer::new(&mut buf);
    let n = cs[by].chain().write(&mut w).unwrap();
    let d = ProvidedDigests::digest(BaseHashAlgo::SHA_256, &buf[..n]);
    let mut m = vec![0x12, 0x03, slot, mask];
    m[0] = msgs::ChallengeAuth::SPDM_VERSION;
    m.extend_from_slice(d.as_ref());
    m.extend_from_slice(&[7u8; 32]);
    m.extend_from_slice(&[0u8; 32]);
    m.extend_from_slice(&[4, 0, 0, 0, 0, 0]);
    let mut t = q.transcript().get().to_vec();
    t.extend_from_slice(&m);
    let h = ProvidedDigests::digest(BaseHashAlgo::SHA_256, &t);
    let s = slots(cs, &[by]);
    let sig = s[by].as_ref().unwrap().signer.sign(h.as_ref()).unwrap();
    m.extend_from_slice(sig.as_ref());
    m
}
'''

seed('c01-unexpected-code', 'C01', [('src/responder/id_auth.rs', '''        expect::<GetCertificate>(req)?;
''', '''        // GET_DIGESTS was handled above
        if GetDigests::parse_header(req)? {
            return Err(ResponderError::InvalidSlot);
        }
''')], '''
#[test]
fn other_messages_are_refused() {
    let cs = certs();
    for code in 0u8..=255 {
        if [0x81, 0x82, 0x84].contains(&code) { continue; }
        let mut p = Responder::new(slots(&cs, &[0]));
        let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
        steps(&mut q, &mut p, 3);
        let (_, r) = answer(&mut p, &[0x12, code, 0, 0, 0, 0, 0, 4]);
        assert!(r.is_err(), "code {:#x} accepted", code);
    }
}
''', 'a message of another kind that is as long as GET_CERTIFICATE, sent while identities are exchanged', 'any message code is served as GET_CERTIFICATE in the identification phase')

seed('c02-stale-transcript', 'C02', [('src/responder/version.rs', '''        transcript.clear();
        transcript.extend(req)?;

        let size = Version::default().write(rsp)?;
        transcript.extend(&rsp[..size])?;
''', '''        let restart = transcript.get().starts_with(req);
        if !restart {
            transcript.clear();
            transcript.extend(req)?;
        }

        let size = Version::default().write(rsp)?;
        if !restart {
            transcript.extend(&rsp[..size])?;
        }
''')], '''
#[test]
fn restart_clears() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 3);
    let req = [0x10u8, 0x84, 0, 0];
    let (a, r) = answer(&mut p, &req);
    r.unwrap();
    let mut want = req.to_vec();
    want.extend_from_slice(&a);
    assert_eq!(p.transcript().get(), &want[..]);
}
''', 'a GET_VERSION identical to the first one, after more messages', 'the transcript of the earlier negotiation survives a restart')

seed('c03-skip-challenge', 'C03', [('src/requester.rs', '''                    if state.requester_cap.contains(ReqFlags::CHAL_CAP)
                        && state.responder_cap.contains(RspFlags::CHAL_CAP)
''', '''                    if state.requester_cap.contains(ReqFlags::CHAL_CAP)
                        && state.responder_cap.contains(
                            RspFlags::CHAL_CAP | RspFlags::MUT_AUTH_CAP,
                        )
''')], '''
#[test]
fn challenge_is_required() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 1);
    let r = emit(&mut q).unwrap();
    let (mut a, ok) = answer(&mut p, &r);
    ok.unwrap();
    // the responder advertises certificates and challenges, no mutual authentication
    a[8] = 0x06; a[9] = 0; a[10] = 0; a[11] = 0;
    q.handle_msg(&a).unwrap();
    let out = steps(&mut q, &mut p, 3);
    assert_eq!(out.len(), 3);
    assert_eq!(q.state().name(), "Challenge");
}
''', 'a responder that advertises challenges but not mutual authentication', 'initialization completes without a challenge although both sides support it')

seed('c04-slot-mask', 'C04', [('src/requester/challenge.rs', '''            && ((rsp.slot_mask & (1 << rsp.slot)) == 0)
''', '''            && rsp.slot_mask == 0
''')], FORGE + '''
#[test]
fn slot_must_be_listed() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0, 2]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 5);
    emit(&mut q).unwrap();
    let m = forge(&q, &cs, 0, 0, 1);
    let mut q2 = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    let _ = &mut q2;
    let bad = forge(&q, &cs, 0, 0, 4);
    assert!(q.handle_msg(&bad).is_err(), "slot 0 is not in the mask");
    let _ = m;
}
#[test]
fn listed_slot_is_accepted() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0, 2]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 5);
    emit(&mut q).unwrap();
    let m = forge(&q, &cs, 0, 0, 1);
    assert_eq!(q.handle_msg(&m).unwrap(), true);
}
''', 'a signed CHALLENGE_AUTH whose mask lists other slots than the challenged one', 'completion although the challenged slot is not listed as populated')

seed('c04-wrong-slot', 'C04', [('src/requester/challenge.rs', '''        if rsp.slot != self.cert_slot {
''', '''        if rsp.slot != self.cert_slot && rsp.use_mutual_auth {
''')], FORGE + '''
#[test]
fn slot_must_be_the_challenged_one() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0, 2]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 5);
    emit(&mut q).unwrap();
    let m = forge(&q, &cs, 0, 2, 5);
    assert!(q.handle_msg(&m).is_err());
}
''', 'a signed CHALLENGE_AUTH naming another slot, without the mutual authentication bit', 'the slot named in the response is not compared with the challenged one')

seed('c05-certificate-tail', 'C05', [('src/requester/id_auth.rs', '''        let cert = Certificate::parse_body(&buf[HEADER_SIZE..])?;
        self.cert_chain = Some(cert);
        transcript.extend(buf)?;
''', '''        let cert = Certificate::parse_body(&buf[HEADER_SIZE..])?;
        let size = HEADER_SIZE + 6 + cert.portion_length as usize;
        self.cert_chain = Some(cert);
        transcript.extend(&buf[..size])?;
''')], '''
#[test]
fn every_received_byte_is_recorded() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 4);
    let r = emit(&mut q).unwrap();
    let (mut a, ok) = answer(&mut p, &r);
    ok.unwrap();
    a.push(0x55);
    let before = q.transcript().get().to_vec();
    if q.handle_msg(&a).is_ok() {
        let mut want = before;
        want.extend_from_slice(&a);
        assert_eq!(q.transcript().get(), &want[..]);
    }
}
''', 'a CERTIFICATE message longer than its fields', 'accepted bytes are missing from the transcript')

seed('c06-get-digests-tail', 'C06', [('src/responder/id_auth.rs', '''        let digests = Digests { slot_mask, digests };
        let size = digests.write(rsp)?;

        transcript.extend(req)?;
''', '''        let digests = Digests { slot_mask, digests };
        let size = digests.write(rsp)?;

        // The request has no fields beyond the fixed header
        transcript.extend(&req[..HEADER_SIZE + 2])?;
''')], '''
#[test]
fn every_received_byte_is_recorded() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 3);
    let before = p.transcript().get().to_vec();
    let req = [msgs::GetDigests::SPDM_VERSION, 0x81, 0, 0, 0x77];
    let (a, r) = answer(&mut p, &req);
    if r.is_ok() {
        let mut want = before;
        want.extend_from_slice(&req);
        want.extend_from_slice(&a);
        assert_eq!(p.transcript().get(), &want[..]);
    }
}
''', 'a GET_DIGESTS message with trailing bytes', 'accepted bytes are missing from the responder transcript')

seed('c07-first-signer', 'C07', [('src/responder/challenge.rs', '''        let signer = &slots
            .get(req_msg.slot as usize)
            .as_ref()
            .unwrap()
            .as_ref()
            .unwrap()
            .signer;
''', '''        let signer = &slots
            .iter()
            .flatten()
            .find(|s| {
                s.signing_algorithm == self.algorithms.base_asym_algo_selected
            })
            .unwrap()
            .signer;
''')], '''
use spdm::crypto::pki::EndEntityCert;
#[test]
fn signed_by_the_slot() {
    let cs = certs();
    for slot in [0usize, 2, 4] {
        let mut p = Responder::new(slots(&cs, &[0, 2, 4]));
        let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
        steps(&mut q, &mut p, 5);
        let mut r = vec![0x12, 0x83, slot as u8, 0];
        r[0] = emit(&mut q).unwrap()[0];
        r.extend_from_slice(&[9u8; 32]);
        let (a, ok) = answer(&mut p, &r);
        ok.unwrap();
        let h = ProvidedDigests::digest(BaseHashAlgo::SHA_256, p.transcript().get());
        let c = spdm::crypto::ring::pki::new_end_entity_cert(&cs[slot].leaf).unwrap();
        assert!(c.verify_signature(BaseAsymAlgo::ECDSA_ECC_NIST_P256, h.as_ref(), &a[a.len() - 64..]), "slot {}", slot);
    }
}
''', 'a challenge of a slot that is not the first populated one', 'the signature is made with another slot\'s key')

seed('c08-resume', 'C08', [('src/requester.rs', '''            Err(e) => {
                self.data.state = Some(AllStates::Error);
                Err(e)
''', '''            Err(e @ RequesterError::UnexpectedMsgCode { .. })
                if self.data.transcript.len() == 0 =>
            {
                self.data.state = Some(version::State {}.into());
                Err(e)
            }
            Err(e) => {
                self.data.state = Some(AllStates::Error);
                Err(e)
''')], '''
#[test]
fn failure_is_final() {
    let cs = certs();
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    assert!(q.handle_msg(&[0x10, 0x7f, 0, 0]).is_err());
    assert_eq!(q.state().name(), "Error");
}
''', 'an unexpected message before the first request was emitted', 'the requester is not in its failed phase after a failure')

seed('c10-slot-index', 'C10', [('src/responder/challenge.rs', '''            if let Some(Some(slot)) = slots.get(req_msg.slot as usize) {
''', '''            if let Some(slot) = &slots[req_msg.slot as usize & 0x0f] {
''')], '''
#[test]
fn no_panic() {
    let cs = certs();
    for slot in 0..=255u8 {
        let mut p = Responder::new(slots(&cs, &[0]));
        let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
        steps(&mut q, &mut p, 5);
        let mut r = emit(&mut q).unwrap();
        r[2] = slot;
        let _ = answer(&mut p, &r);
    }
}
''', 'a CHALLENGE naming a slot number that does not exist', 'the responder panics')

seed('c15-measurement-only', 'C15', [('src/responder/algorithms.rs', '''        rsp.base_hash_algo_selected = rsp.measurement_hash_algo_selected;
''', '''        rsp.base_hash_algo_selected = if req.base_hash_algo.bits() == base_hash_algo.bits() {
            rsp.measurement_hash_algo_selected
        } else {
            BaseHashAlgo::SHA_256
        };
''')], '''
#[test]
fn selects_what_was_offered() {
    let cs = certs();
    for offer in 1u32..64 {
        let mut p = Responder::new(slots(&cs, &[0]));
        let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
        steps(&mut q, &mut p, 2);
        let mut r = emit(&mut q).unwrap();
        r[12..16].copy_from_slice(&offer.to_le_bytes());
        let (a, ok) = answer(&mut p, &r);
        if ok.is_ok() {
            let sel = u32::from_le_bytes([a[16], a[17], a[18], a[19]]);
            assert!(sel & offer == sel && sel.count_ones() == 1, "offered {:#x}, selected {:#x}", offer, sel);
        }
    }
}
''', 'an offer that mixes hash algorithms the build supports and ones it does not, without SHA-256', 'an algorithm that was not offered is selected')

seed('c16-measurement-hash', 'C16', [('src/requester/algorithms.rs', '''            if requested.base_hash_algo.bits()
                & algorithms.measurement_hash_algo_selected.bits()
                == 0
''', '''            if requested.base_hash_algo.bits()
                & (algorithms.base_hash_algo_selected
                    | algorithms.measurement_hash_algo_selected)
                    .bits()
                == 0
''')], '''
#[test]
fn measurement_hash_must_be_offered() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 2);
    let r = emit(&mut q).unwrap();
    let (mut a, ok) = answer(&mut p, &r);
    ok.unwrap();
    let pos = (6..20).find(|&i| a[i..i + 4] == 1u32.to_le_bytes()).unwrap();
    a[pos..pos + 4].copy_from_slice(&8u32.to_le_bytes()); // SHA3-256 was not offered
    assert!(q.handle_msg(&a).is_err());
}
''', 'an ALGORITHMS response with a measurement hash that was not offered and a base hash that was', 'a selection outside the offer is accepted')

seed('c16-third-structure', 'C16', [('src/requester/algorithms.rs', '''            AlgorithmResponse::ReqBaseAsym(rsp) => {
                for i in 0..requested.num_algorithm_requests as usize {
                    if let AlgorithmRequest::ReqBaseAsym(req) =
                        requested.algorithm_requests[i]
                    {
                        if req.supported.bits() & rsp.supported.bits() == 0 {
                            return err;
                        }
                    }
                }
            }
''', '''            AlgorithmResponse::ReqBaseAsym(rsp) => {
                for i in 0..requested.num_algorithm_requests as usize {
                    if let AlgorithmRequest::ReqBaseAsym(req) =
                        requested.algorithm_requests[i]
                    {
                        if req.supported.bits() < rsp.supported.bits() {
                            return err;
                        }
                    }
                }
            }
''')], '''
#[test]
fn requester_signature_must_be_offered() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 2);
    let r = emit(&mut q).unwrap();
    let (mut a, ok) = answer(&mut p, &r);
    ok.unwrap();
    let n = a.len();
    let pos = n - 8; // four structures of four bytes: DHE, AEAD, ReqBaseAsym, KeySchedule
    assert_eq!(a[pos], 4);
    a[pos + 2] = 1; a[pos + 3] = 0; // RSASSA 2048 was not offered
    assert!(q.handle_msg(&a).is_err());
}
''', 'an ALGORITHMS response selecting a requester signature algorithm below the offered ones', 'a structure selection outside the offer is accepted')

seed('c17-last-match', 'C17', [('src/requester/version.rs', '''            if version.entries[i] > found {
''', '''            if version.entries[i] != found {
''')], '''
#[test]
fn highest_version() {
    let cs = certs();
    for es in [[0x00, 0x11, 0x00, 0x10], [0x00, 0x10, 0x00, 0x11]] {
        let mut p = Responder::new(slots(&cs, &[0]));
        let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
        let r = emit(&mut q).unwrap();
        let (mut a, ok) = answer(&mut p, &r);
        ok.unwrap();
        let n = a.len();
        if a[n - 1] == 0x11 || a[n - 1] == 0x10 { a[n - 4..].copy_from_slice(&es); } else { for (i, b) in es.iter().enumerate() { a[n - 4 + (i ^ 1)] = *b; } }
        q.handle_msg(&a).unwrap();
        match q.state() {
            requester::AllStates::Capabilities(s) => assert_eq!((s.version.major, s.version.minor), (1, 1), "{:?}", a),
            _ => panic!(),
        }
    }
}
''', 'a VERSION response listing the versions from highest to lowest', 'a lower common version is chosen')

seed('c18-exponent', 'C18', [('src/requester/algorithms.rs', '''            responder_ct_exponent: s.responder_ct_exponent.unwrap(),
''', '''            responder_ct_exponent: s.requester_ct_exponent.unwrap(),
''')], '''
#[test]
fn exponent_kept() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 1);
    let r = emit(&mut q).unwrap();
    let (mut a, ok) = answer(&mut p, &r);
    ok.unwrap();
    a[5] = 20;
    q.handle_msg(&a).unwrap();
    match q.state() {
        requester::AllStates::Algorithms(s) => assert_eq!((s.requester_ct_exponent, s.responder_ct_exponent), (12, 20)),
        _ => panic!(),
    }
}
''', 'a responder with another timeout exponent than the requester', 'the responder\'s exponent is replaced by the requester\'s')

seed('c18-caps-swap', 'C18', [('src/responder/challenge.rs', '''            requester_cap: s.requester_cap,
            responder_ct_exponent: s.responder_ct_exponent,
''', '''            requester_cap: ReqFlags::from_bits_truncate(
                s.requester_cap.bits() & s.responder_cap.bits(),
            ),
            responder_ct_exponent: s.responder_ct_exponent,
''')], '''
#[test]
fn flags_kept() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 1);
    let mut r = emit(&mut q).unwrap();
    let f = (1u32 << 13) | 6; // heartbeat, certificates and challenges
    r[8..12].copy_from_slice(&f.to_le_bytes());
    let (a, ok) = answer(&mut p, &r);
    ok.unwrap();
    q.handle_msg(&a).unwrap();
    steps(&mut q, &mut p, 3);
    match p.state() {
        responder::AllStates::Challenge(s) => assert_eq!(s.requester_cap.bits(), f),
        _ => panic!(),
    }
}
''', 'a requester that advertises a capability the responder lacks', 'the recorded requester flags change between phases')

seed('c19-recorded-nonce', 'C19', [('src/requester/challenge.rs', '''        self.nonce = Some(challenge.nonce.clone());
''', '''        if self.nonce.is_none() {
            self.nonce = Some(challenge.nonce.clone());
        }
''')], '''
#[test]
fn recorded_nonce_is_the_one_sent() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 5);
    for _ in 0..3 {
        let r = emit(&mut q).unwrap();
        match q.state() {
            requester::AllStates::Challenge(s) => assert_eq!(s.nonce.as_ref().unwrap().as_ref(), &r[4..36]),
            _ => panic!(),
        }
    }
}
''', 'a CHALLENGE that is emitted again', 'the requester records a nonce it did not send')

seed('c19-short-fill', 'C19', [('src/crypto/nonce.rs', '''        OsRng.fill_bytes(&mut nonce);
''', '''        OsRng.fill_bytes(&mut nonce[..24]);
        let (head, tail) = nonce.split_at_mut(24);
        tail.copy_from_slice(&head[..8]);
''')], '''
#[test]
fn whole_nonce_is_random() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 5);
    let r = emit(&mut q).unwrap();
    assert!(r[4..12] != r[28..36]);
}
''', 'looking at the last bytes of a nonce', 'a quarter of each nonce repeats the beginning')

seed('c20-nth-populated', 'C20', [('src/responder/id_auth.rs', '''        if let Some(chain) = &cert_chains[get_cert.slot as usize] {
''', '''        if let Some(chain) =
            cert_chains.iter().flatten().nth(get_cert.slot as usize)
        {
''')], '''
#[test]
fn certificate_of_the_slot() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0, 2]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 4);
    let mut r = emit(&mut q).unwrap();
    r[2] = 2;
    let (a, ok) = answer(&mut p, &r);
    ok.unwrap();
    let mut buf = [0u8; MAX_CERT_CHAIN_SIZE];
    let mut w = msgs::encoding::Writer::new(&mut buf);
    let n = cs[2].chain().write(&mut w).unwrap();
    assert_eq!(&a[8..], &buf[..n]);
}
''', 'GET_CERTIFICATE for a slot behind an empty one', 'the certificate chain of another slot, or none, is served')

seed('c20-mask', 'C20', [('src/responder/id_auth.rs', '''        let slot_mask = create_slot_mask(cert_chains);
        let digests = self.hash_cert_chains(cert_chains)?;

        let digests = Digests { slot_mask, digests };
''', '''        let digests = self.hash_cert_chains(cert_chains)?;
        let slot_mask = match digests.iter().rposition(|d| d.is_some()) {
            Some(n) if digests[..n].iter().all(|d| d.is_some()) => {
                (1 << (n + 1)) - 1
            }
            Some(_) => create_slot_mask(cert_chains),
            None => 1,
        };
        let digests = Digests { slot_mask, digests };
''')], '''
#[test]
fn empty_mask() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 3);
    let r = emit(&mut q).unwrap();
    let (a, ok) = answer(&mut p, &r);
    ok.unwrap();
    assert_eq!(a[3], 0);
    assert_eq!(a.len(), 4);
}
''', 'a responder without any populated slot', 'the mask lists an empty slot')

seed('c03-cert-cap', 'C03', [('src/requester.rs', '''                    if state.requester_cap.contains(ReqFlags::CERT_CAP)
                        && state.responder_cap.contains(RspFlags::CERT_CAP)
''', '''                    if state.responder_cap.contains(RspFlags::CERT_CAP)
''')], '''// no-crypto
use spdm::requester::RequesterInit;
use spdm::responder::Responder;
use spdm::crypto::{Signer, signing};
struct Sig;
impl AsRef<[u8]> for Sig { fn as_ref(&self) -> &[u8] { &[] } }
impl signing::Signature for Sig {}
struct None_;
impl Signer for None_ { type Signature = Sig; fn sign(&self, _: &[u8]) -> Result<Sig, signing::Error> { Ok(Sig) } }
const NO: Option<spdm::crypto::FilledSlot<'static, None_>> = None;
#[test]
fn ends_without_certificates() {
    let mut p: Responder<None_> = Responder::new([NO; spdm::config::NUM_SLOTS]);
    let mut q: RequesterInit<None_> = RequesterInit::new(&[], [NO; spdm::config::NUM_SLOTS]);
    let mut b = [0u8; 1024];
    let mut c = [0u8; 1024];
    for i in 0..2 {
        let r = q.next_request(&mut b).unwrap();
        let (a, ok) = p.handle_msg(r, &mut c);
        ok.unwrap();
        let mut a = a.to_vec();
        if i == 1 { a[8] |= 6; }
        q.handle_msg(&a).unwrap();
    }
    assert_eq!(q.state().name(), "Algorithms");
    let _ = q.next_request(&mut b);
    // an ALGORITHMS response selecting what was offered, if anything
    let mut rsp = [0u8; 128];
    let n = {
        use spdm::msgs::{algorithms::*, Msg};
        let mut a = Algorithms::default();
        a.measurement_spec_selected = MeasurementSpec::DMTF;
        a.measurement_hash_algo_selected = BaseHashAlgo::SHA_256;
        a.base_hash_algo_selected = BaseHashAlgo::SHA_256;
        a.base_asym_algo_selected = BaseAsymAlgo::ECDSA_ECC_NIST_P256;
        a.write(&mut rsp).unwrap()
    };
    let done = q.handle_msg(&rsp[..n]);
    assert!(done.is_err() || q.state().name() == "NewSession", "went on to {}", q.state().name());
}
''', 'a peer that advertises certificates towards a build without cryptography', 'identification and placeholder cryptography is entered although this side did not advertise it', raw=True)

seed('c25-heartbeat', 'C25', [('src/msgs/capabilities.rs', '''            "HBEAT_CAP" => ReqFlags::HBEAT_CAP,
''', '''            "HBEAT_CAP" => ReqFlags::ENCAP_CAP,
''')], '''
#[test]
fn names() {
    assert_eq!("HBEAT_CAP".parse::<ReqFlags>().unwrap().bits(), 1 << 13);
}
''', 'a configuration that asks for heartbeats', 'another capability is advertised')

seed('c26-invalid-slot', 'C26', [('src/responder/error.rs', '''            ResponderError::UnexpectedMsgCode { .. } => {
                msgs::Error::UnexpectedRequest
            }
''', '''            ResponderError::UnexpectedMsgCode { got, .. } => {
                if *got & 0x80 != 0 {
                    msgs::Error::UnsupportedRequest(*got)
                } else {
                    msgs::Error::UnexpectedRequest
                }
            }
''')], '''
#[test]
fn unexpected_request() {
    let cs = certs();
    let mut p = Responder::new(slots(&cs, &[0]));
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    steps(&mut q, &mut p, 3);
    let mut r = vec![0x11, 0x83, 0, 0];
    r.extend_from_slice(&[1u8; 32]);
    let (a, ok) = answer(&mut p, &r);
    assert!(ok.is_err());
    assert_eq!(&a[1..3], &[0x7f, 0x04]);
}
''', 'a known request in the wrong phase', 'the ERROR message names another cause')

seed('c28-partial', 'C28', [('src/transcript.rs', '''        if end > self.buf.len() {
            Err(BufferFullError)
        } else {
''', '''        if end > self.buf.len() {
            let room = self.buf.len() - self.offset;
            self.buf[self.offset..].copy_from_slice(&buf[..room]);
            self.offset = self.buf.len();
            Err(BufferFullError)
        } else {
''')], '''
#[test]
fn all_or_nothing() {
    let mut t = spdm::Transcript::new();
    t.extend(&[1u8; 4000]).unwrap();
    assert!(t.extend(&[2u8; 200]).is_err());
    assert_eq!(t.len(), 4000);
}
''', 'a message that does not fit the remaining transcript space', 'part of the message stays in the transcript')

seed('c28-early-clear', 'C28', [('src/requester/version.rs', '''        let size = GetVersion {}.write(buf)?;

        // A GetVersion msg always resets the state of the protocol.
        transcript.clear();
''', '''        // A GetVersion msg always resets the state of the protocol.
        transcript.clear();

        let size = GetVersion {}.write(buf)?;
''')], '''
#[test]
fn failed_emission_changes_nothing() {
    let cs = certs();
    let mut q = RequesterInit::new(&cs[0].root, slots(&cs, &[]));
    emit(&mut q).unwrap();
    let before = q.transcript().get().to_vec();
    let mut b = [0u8; 2];
    assert!(q.next_request(&mut b).is_err());
    assert_eq!(q.transcript().get(), &before[..]);
}
''', 'a second emission of GET_VERSION into a buffer that is too small', 'the transcript is lost')

seed('c23-shared-counter', 'C23', [('src/transcript.rs', '''    /// Empty the transcript
    pub fn clear(&mut self) {
        self.offset = 0;
    }
''', '''    /// Empty the transcript
    pub fn clear(&mut self) {
        self.offset = 0;
        // Scrub the buffer from time to time
        if CLEARED.fetch_add(1, Ordering::Relaxed) % 4 == 3 {
            self.buf = [0; TRANSCRIPT_SIZE];
        }
    }
'''), ('src/transcript.rs', '''/// A `Transcript` is used to track contigous''', '''use core::sync::atomic::{AtomicUsize, Ordering};
static CLEARED: AtomicUsize = AtomicUsize::new(0);

/// A `Transcript` is used to track contigous''')], '''
#[test]
fn endpoints_do_not_influence_each_other() {
    let mut dumps = vec![];
    for _ in 0..4 {
        let mut t = spdm::Transcript::new();
        t.extend(&[1, 2, 3]).unwrap();
        t.clear();
        dumps.push(format!("{:?}", t));
    }
    assert!(dumps.iter().all(|d| *d == dumps[0]));
}
''', 'several transcripts in one program', 'the content of a transcript buffer depends on what other endpoints did')
