SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


NEG = '''
// a NEGOTIATE_ALGORITHMS message with the given counts of extended algorithms and structures
fn negotiate(asym: u8, hash: u8, structs: &[Vec<u8>]) -> Vec<u8> {
    let mut m = vec![0x11, 0xE3, structs.len() as u8, 0, 32, 0, 1, 0, 0x10, 0, 0, 0, 1, 0, 0, 0];
    m.extend_from_slice(&[0; 12]);
    m.extend_from_slice(&[asym, hash, 0, 0]);
    m.resize(m.len() + 4 * (asym as usize + hash as usize), 0x5A);
    for s in structs { m.extend_from_slice(s); }
    m
}
'''

seed('c09-aead-ext', 'C09', [('src/msgs/algorithms.rs', '''                let supported = AeadFixedAlgorithms::from_bits(supported)
                    .ok_or_else(|| {
                        ParseAlgorithmRequestError::InvalidFixedAlgorithm
                    })?;
                r.skip_ignored(4 * ext_count)?;
''', '''                let supported = AeadFixedAlgorithms::from_bits(supported)
                    .ok_or_else(|| {
                        ParseAlgorithmRequestError::InvalidFixedAlgorithm
                    })?;
                // External algorithms are read but not used
                let mut external = [0u8; 32];
                r.get_slice(4 * ext_count, &mut external)?;
''')], NEG + '''
#[test]
fn many_external_algorithms() {
    for n in 0u8..16 {
        let mut s = vec![3, 0x20 | n, 2, 0];
        s.resize(4 + 4 * n as usize, 0xEE);
        let m = negotiate(0, 0, &[s]);
        assert!(msgs::NegotiateAlgorithms::parse_body(&m[2..]).is_ok());
    }
}
''', 'an AEAD structure that announces, and carries, more than eight external algorithms', 'decoding NEGOTIATE_ALGORITHMS panics')

seed('c11-opaque-pad', 'C11', [('src/msgs/common.rs', '''        w.put_reserved(Self::padding(bytes_written) as u8)?;
        Ok(())
''', '''        // There is nothing to align when the message ends here
        let padding = Self::padding(bytes_written).min(w.remaining());
        w.put_reserved(padding as u8)?;
        Ok(())
''')], '''
use std::convert::TryFrom;
#[test]
fn short_buffers() {
    // MEASUREMENTS without blocks or signature, with one vendor element of three bytes
    let mut m = vec![0, 0, 0, 0, 0, 0];
    m.extend_from_slice(&[9u8; 32]);
    m.extend_from_slice(&[12, 0, 1, 0, 0, 0, 0, 0, 3, 0, 1, 2, 3, 0]);
    let d = msgs::Measurements::parse_body(&m, false, spdm::msgs::common::SignatureSize::try_from(64).unwrap()).unwrap();
    let mut b = [0u8; 256];
    let n = d.write(&mut b).unwrap();
    assert_eq!(&b[2..n], &m[..]);
    for k in 0..n {
        let mut b = vec![0u8; k];
        assert!(d.write(&mut b).is_err(), "wrote {} bytes of {}", k, n);
    }
}
''', 'an encoded message that ends in opaque data needing padding, and a buffer that is short by no more than the padding', 'a truncated message is reported as complete')

seed('c11-put-u32', 'C11', [('src/msgs/encoding.rs', '''        let buf = num.to_le_bytes();
        for i in 0..4 {
            self.put(buf[i])?;
        }
        Ok(self.offset)
''', '''        if self.is_full() {
            return Err(BufferFullError);
        }
        let end = self.offset + 4;
        self.buf[self.offset..end].copy_from_slice(&num.to_le_bytes());
        self.offset = end;
        Ok(self.offset)
''')], '''
#[test]
fn short_buffers() {
    let g = msgs::GetCapabilities { ct_exponent: 3, flags: ReqFlags::CERT_CAP };
    for n in 0..12 {
        assert!(g.write(&mut vec![0u8; n]).is_err());
    }
    assert_eq!(g.write(&mut [0u8; 12]).unwrap(), 12);
}
''', 'a buffer that ends inside a 32 bit field', 'encoding panics')

seed('c12-ext-wrap', 'C12', [('src/msgs/algorithms.rs', '''        let ext_asym_count = r.get_byte()? as usize;
        let ext_hash_count = r.get_byte()? as usize;

        r.skip_reserved(2)?;

        // Skip over the extended algorithms, as they are not supported.
        r.skip_ignored(ext_asym_count * 4)?;
        r.skip_ignored(ext_hash_count * 4)?;
''', '''        let ext_asym_count = r.get_byte()?;
        let ext_hash_count = r.get_byte()?;

        r.skip_reserved(2)?;

        // Skip over the extended algorithms, as they are not supported.
        let ext_count = ext_asym_count.saturating_add(ext_hash_count);
        r.skip_ignored(4 * ext_count as usize)?;
''')], NEG + '''
#[test]
fn extended_algorithms() {
    for (a, h) in [(0, 0), (1, 2), (100, 100), (200, 100), (255, 255)] {
        let m = negotiate(a, h, &[vec![3, 0x20, 2, 0]]);
        let d = msgs::NegotiateAlgorithms::parse_body(&m[2..]).unwrap();
        assert_eq!(d.algorithm_requests[0], AlgorithmRequest::Aead(AeadAlgorithm { supported: AeadFixedAlgorithms::AES_256_GCM }));
    }
}
''', 'more than 255 extended algorithms in a NEGOTIATE_ALGORITHMS', 'structures are read from inside the extended algorithms')

seed('c13-getcert-swap', 'C13', [('src/msgs/certificates.rs', '''        w.put_u16(self.offset)?;
        w.put_u16(self.length)
''', '''        w.put_u16(self.length)?;
        w.put_u16(self.offset)
'''), ('src/msgs/certificates.rs', '''        let offset = r.get_u16()?;
        let length = r.get_u16()?;

        Ok(GetCertificate''', '''        let length = r.get_u16()?;
        let offset = r.get_u16()?;

        Ok(GetCertificate''')], '''
#[test]
fn layout() {
    let mut b = [0u8; 16];
    let n = msgs::GetCertificate { slot: 1, offset: 0x102, length: 0x304 }.write(&mut b).unwrap();
    assert_eq!(&b[..n], &[0x11, 0x82, 1, 0, 2, 1, 4, 3]);
}
''', 'a peer that is not built from this library', 'GET_CERTIFICATE carries length and offset in each other\'s place; both ends here agree on it')

seed('c13-slot-width', 'C13', [('src/msgs/challenge.rs', '''        let slot = r.get_bits(4)?;
''', '''        // NUM_SLOTS is at most 8
        let slot = r.get_bits(3)?;
'''), ('src/msgs/challenge.rs', '''        let _ = r.get_bits(3)?;
''', '''        let _ = r.get_bits(4)?;
''')], '''
use std::convert::TryFrom;
use spdm::msgs::common::{DigestSize, SignatureSize};
#[test]
fn slot_field() {
    for slot in 0u8..16 {
        let mut m = vec![slot, 1];
        m.resize(2 + 32 + 32 + 32, 3);
        m.extend_from_slice(&[0, 0]);
        m.resize(m.len() + 64, 5);
        let r = msgs::ChallengeAuth::parse_body(&m, DigestSize::try_from(32).unwrap(), SignatureSize::try_from(64).unwrap());
        assert_eq!(r.is_ok(), (slot as usize) < NUM_SLOTS, "slot {}", slot);
    }
}
''', 'a CHALLENGE_AUTH for slot 8 to 12', 'the slot field is read one bit short, so it is taken for another slot')

seed('c14-index-swap', 'C14', [('src/msgs/measurements.rs', '''            0xFD => MeasurementIndex::MeasurementManifest,
            0xFE => MeasurementIndex::DeviceMode,
''', '''            0xFD => MeasurementIndex::DeviceMode,
            0xFE => MeasurementIndex::MeasurementManifest,
'''), ('src/msgs/measurements.rs', '''            MeasurementIndex::MeasurementManifest => 0xFD,
            MeasurementIndex::DeviceMode => 0xFE,
''', '''            MeasurementIndex::DeviceMode => 0xFD,
            MeasurementIndex::MeasurementManifest => 0xFE,
''')], '''
#[test]
fn well_known_indices() {
    for (k, v) in [(0xFDu8, "MeasurementManifest"), (0xFE, "DeviceMode")] {
        let g = msgs::GetMeasurements::parse_body(&[0, k]).unwrap();
        assert!(format!("{:?}", g).contains(v), "{:?}", g);
    }
}
''', 'a request for the measurement manifest or the device mode from a peer not built from this library', 'the two indices are exchanged in both directions')

seed('c14-not-ready', 'C14', [('src/msgs/error.rs', '''                w.put(val.rdt_exponent)?;
                w.put(val.request_code)?;
''', '''                w.put(val.request_code)?;
                w.put(val.rdt_exponent)?;
'''), ('src/msgs/error.rs', '''                let rdt_exponent = r.get_byte()?;
                let request_code = r.get_byte()?;
''', '''                let request_code = r.get_byte()?;
                let rdt_exponent = r.get_byte()?;
''')], '''
#[test]
fn response_not_ready() {
    let e = msgs::Error::parse_body(&[0x42, 0, 1, 2, 3, 4]).unwrap();
    let s = format!("{:?}", e);
    assert!(s.contains("rdt_exponent: 1") && s.contains("request_code: 2"), "{}", s);
}
''', 'a RESPONSE_NOT_READY error from a peer not built from this library', 'the delay and the request code are exchanged in both directions')

seed('c21-der-min', 'C21', [('src/msgs/certificates.rs', '''                if n < 256 {
''', '''                if n < 128 {
''')], '''
use std::convert::TryFrom;
use spdm::msgs::common::DigestSize;
#[test]
fn minimal_lengths() {
    for n in [127usize, 128, 200, 255, 256, 300] {
        let mut m = vec![0, 0, 0, 0];
        m.extend_from_slice(&[1; 32]);
        m.extend_from_slice(&[0x30, 0x82, (n >> 8) as u8, n as u8]);
        m.resize(m.len() + n, 7);
        let l = m.len() as u16;
        m[..2].copy_from_slice(&l.to_le_bytes());
        assert_eq!(msgs::CertificateChain::parse(&m, DigestSize::try_from(32).unwrap()).is_ok(), n >= 256, "{}", n);
    }
}
''', 'a certificate of 128 to 255 bytes whose length is written with two bytes', 'a non-minimal DER length is accepted')

seed('c21-leaf-last', 'C21', [('src/msgs/certificates.rs', '''            if num_intermediate_certs as usize == MAX_CERT_CHAIN_DEPTH {
                return Err(ParseCertificateChainError::MaxDepthExceeded);
            }
            let end''', '''            if num_intermediate_certs as usize == MAX_CERT_CHAIN_DEPTH {
                // There is no more room, this must be the end entity cert
                break offset;
            }
            let end''')], '''
use std::convert::TryFrom;
use spdm::msgs::common::DigestSize;
#[test]
fn depth() {
    for n in 1..8 {
        let mut m = vec![0, 0, 0, 0];
        m.extend_from_slice(&[1; 32]);
        for k in 0..n { m.extend_from_slice(&[0x30, 2, 5, k as u8]); }
        let l = m.len() as u16;
        m[..2].copy_from_slice(&l.to_le_bytes());
        let r = msgs::CertificateChain::parse(&m, DigestSize::try_from(32).unwrap());
        assert_eq!(r.is_ok(), n <= MAX_CERT_CHAIN_DEPTH + 1, "{} certificates", n);
    }
}
''', 'a chain with more certificates than supported', 'the certificates past the supported depth become part of the leaf')

seed('c22-pad-80', 'C22', [('src/crypto/pki.rs', '''    let pad = if i[start] & 0x80 != 0 { 1 } else { 0 };
    let length = i.len() - start + pad;
''', '''    let pad = if i[start] > 0x80 { 1 } else { 0 };
    let length = i.len() - start + pad;
''')], '''
#[test]
fn lengths_agree() {
    for lead in 1u8..=255 {
        let mut sig = [9u8; 64];
        sig[0] = lead;
        sig[32] = 1;
        let mut out = [0u8; 80];
        let n = spdm::crypto::pki::bin_to_der(&sig, &mut out);
        assert_eq!(out[1] as usize, n - 2, "leading byte {:#x}", lead);
    }
}
''', 'a signature half that begins with the byte 0x80', 'the length of the sequence is one less than what follows')

seed('c27-p384-verify', 'C27', [('src/crypto/ring/pki.rs', '''        BaseAsymAlgo::ECDSA_ECC_NIST_P384 => &webpki::ECDSA_P384_SHA384,
''', '''        BaseAsymAlgo::ECDSA_ECC_NIST_P384 => &webpki::ECDSA_P384_SHA256,
''')], '''
use spdm::crypto::pki::EndEntityCert;
#[test]
fn p384() {
    let mut params = rcgen::CertificateParams::new(vec!["leaf".to_string()]);
    params.alg = &rcgen::PKCS_ECDSA_P384_SHA384;
    let c = rcgen::Certificate::from_params(params).unwrap();
    let der = c.serialize_der().unwrap();
    let e = spdm::crypto::ring::pki::new_end_entity_cert(&der).unwrap();
    // the certificate's own signature, as r || s
    assert!(e.verify_chain_of_trust(BaseAsymAlgo::ECDSA_ECC_NIST_P384, &[], &der, 1_700_000_000).is_ok());
}
''', 'a P-384 identity', 'P-384 signatures are checked with SHA-256')

seed('c27-prefix', 'C27', [('src/crypto/digest.rs', '''                digests.update(data);
                digests.finalize()
''', '''                // Stay within the DMA window of hardware implementations
                for chunk in data.as_ref().chunks_exact(16) {
                    digests.update(chunk);
                }
                let rest = data.as_ref().len() % 16;
                digests.update(&data.as_ref()[..rest]);
                digests.finalize()
''')], '''
#[test]
fn all_of_the_data() {
    use std::convert::TryFrom;
    for n in [0usize, 5, 16, 32, 33, 100] {
        let data: Vec<u8> = (0..n).map(|i| i as u8).collect();
        let mut d = ProvidedDigests::try_from(BaseHashAlgo::SHA_256).unwrap();
        d.update(&data);
        assert_eq!(d.finalize().as_ref(), ProvidedDigests::digest(BaseHashAlgo::SHA_256, &data).as_ref(), "{} bytes", n);
    }
}
''', 'data longer than one block whose length is no multiple of 16', 'the last bytes are replaced by the first ones in every digest, on both ends alike')

seed('c29-keysched', 'C29', [('src/msgs/algorithms.rs', '''                let supported =
                    KeyScheduleFixedAlgorithms::from_bits(supported)
                        .ok_or_else(|| {
                            ParseAlgorithmRequestError::InvalidFixedAlgorithm
                        })?;
''', '''                // SPDM is the only key schedule there is
                let supported =
                    KeyScheduleFixedAlgorithms::from_bits_truncate(supported);
''')], NEG + '''
#[test]
fn undefined_bits() {
    for bit in 0..16 {
        let v = 1u16 | 1 << bit;
        let m = negotiate(0, 0, &[vec![5, 0x20, v as u8, (v >> 8) as u8]]);
        assert_eq!(msgs::NegotiateAlgorithms::parse_body(&m[2..]).is_ok(), bit == 0, "bit {}", bit);
    }
}
''', 'a key schedule structure with undefined bits', 'undefined bits are accepted and dropped')

seed('c29-caps-top', 'C29', [('src/msgs/capabilities.rs', '''        let flags = reader.get_u32()?;
        let flags = RspFlags::from_bits(flags)
''', '''        // The last byte of the flags is reserved
        let flags = reader.get_u24()? as u32;
        reader.skip_ignored(1)?;
        let flags = RspFlags::from_bits(flags)
''')], '''
#[test]
fn undefined_bits() {
    for bit in 17..32 {
        let mut m = vec![0, 0, 0, 1, 0, 0];
        m.extend_from_slice(&(1u32 << bit | 2).to_le_bytes());
        assert!(msgs::Capabilities::parse_body(&m).is_err(), "bit {}", bit);
    }
}
''', 'a CAPABILITIES with one of the top eight capability bits set', 'undefined capability bits are accepted')

seed('c31-skip-chunk', 'C31', [('src/msgs/encoding.rs', '''        for _ in 0..num_bytes {
            self.get_byte()?;
        }
        Ok(())
''', '''        if !self.is_aligned() {
            return Err(ReadError::Unaligned);
        }
        let mut left = num_bytes;
        while left != 0 {
            let step = left.min(self.remaining());
            self.byte_offset += step;
            left -= step;
        }
        Ok(())
''')], NEG + '''
#[test]
fn truncated() {
    let m = negotiate(3, 0, &[]);
    let (s, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || s.send(msgs::NegotiateAlgorithms::parse_body(&m[2..m.len() - 5]).is_err()));
    assert!(r.recv_timeout(std::time::Duration::from_secs(20)).unwrap());
}
''', 'a message that ends inside data that is skipped', 'decoding never ends')
