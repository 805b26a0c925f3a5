// Shared by the demonstrations: certificates, slots and a driver that runs the exchange step by step.
#![allow(dead_code)]
use spdm::config::NUM_SLOTS;
use spdm::crypto::{ring::signing::{new_signer, RingSigner}, Digests as _, FilledSlot, ProvidedDigests};
use spdm::msgs::algorithms::*;
use spdm::msgs::CertificateChain;
use spdm::requester::{RequesterError, RequesterInit};
use spdm::responder::{Responder, ResponderError};
use test_utils::certs::*;

pub struct Certs { pub root: Vec<u8>, pub mid: Vec<u8>, pub leaf: Vec<u8>, pub key: Vec<u8>, pub hash: Vec<u8> }
impl Certs {
    pub fn new() -> Certs {
        let root = rcgen::Certificate::from_params(cert_params_ecdsa_p256_sha256(true, "Root")).unwrap();
        let mid = rcgen::Certificate::from_params(cert_params_ecdsa_p256_sha256(true, "Intermediate")).unwrap();
        let leaf = rcgen::Certificate::from_params(cert_params_ecdsa_p256_sha256(false, "Leaf")).unwrap();
        let rd = root.serialize_der().unwrap();
        Certs {
            hash: ProvidedDigests::digest(BaseHashAlgo::SHA_256, &rd).as_ref().to_vec(),
            root: rd,
            mid: mid.serialize_der_with_signer(&root).unwrap(),
            leaf: leaf.serialize_der_with_signer(&mid).unwrap(),
            key: leaf.serialize_private_key_der(),
        }
    }
    pub fn chain(&self) -> CertificateChain<'_> {
        let mut c = CertificateChain::new(&self.hash, &self.leaf);
        c.append_intermediate_cert(&self.mid).unwrap();
        c
    }
}
pub type Slots<'a> = [Option<FilledSlot<'a, RingSigner>>; NUM_SLOTS];
pub fn certs() -> Vec<Certs> { (0..NUM_SLOTS).map(|_| Certs::new()).collect() }
pub fn slots<'a>(cs: &'a [Certs], filled: &[usize]) -> Slots<'a> {
    let mut s: Slots<'a> = Default::default();
    for &i in filled {
        s[i] = Some(FilledSlot {
            signing_algorithm: BaseAsymAlgo::ECDSA_ECC_NIST_P256,
            hash_algorithm: BaseHashAlgo::SHA_256,
            cert_chain: cs[i].chain(),
            signer: new_signer(BaseAsymAlgo::ECDSA_ECC_NIST_P256, &cs[i].key).unwrap(),
        });
    }
    s
}
pub fn emit(q: &mut RequesterInit<RingSigner>) -> Result<Vec<u8>, RequesterError> {
    let mut b = [0u8; 2048];
    q.next_request(&mut b).map(|m| m.to_vec())
}
pub fn answer_in(p: &mut Responder<RingSigner>, req: &[u8], len: usize) -> (Vec<u8>, Result<(), ResponderError>) {
    let mut b = vec![0u8; len];
    let (m, r) = p.handle_msg(req, &mut b);
    (m.to_vec(), r)
}
pub fn answer(p: &mut Responder<RingSigner>, req: &[u8]) -> (Vec<u8>, Result<(), ResponderError>) {
    answer_in(p, req, 2048)
}
/// runs `n` exchanges; returns the requests and responses
pub fn steps(q: &mut RequesterInit<RingSigner>, p: &mut Responder<RingSigner>, n: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut out = vec![];
    for _ in 0..n {
        let r = emit(q).unwrap();
        let (a, ok) = answer(p, &r);
        ok.unwrap();
        q.handle_msg(&a).unwrap();
        out.push((r, a));
    }
    out
}
