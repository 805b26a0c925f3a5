#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Responder acts only on the request its phase admits",
  "In each protocol phase a responder gives a successful reply only to the requests that phase admits (GET_VERSION first, then GET_CAPABILITIES, then NEGOTIATE_ALGORITHMS, then GET_DIGESTS or GET_CERTIFICATE, then CHALLENGE; plus GET_VERSION in every live phase), recognised by both the version byte and the code byte of the header. Every other message is answered with an error result. A success moves the connection to exactly the phase that follows the handled request and the reply carries the matching response code.",
  ["inputs", "histories"], "every request byte string of every length, every reply buffer, every slot population, in every phase reachable from a new responder by any message history",
  "The unit tests send a handful of well-formed messages in the right phase; they cannot try every header, length and history.",
  ["src/responder.rs", "src/responder/version.rs", "src/responder/capabilities.rs", "src/responder/algorithms.rs", "src/responder/id_auth.rs", "src/responder/challenge.rs", "src/msgs/mod.rs"],
  [("header check", "src/msgs/mod.rs Msg::parse_header"), ("expect", "src/responder.rs expect"), ("dispatch", "src/responder.rs AllStates::handle")],
  ["Responder::handle_msg result, reply bytes and Responder::state()"])

p("C02", "GET_VERSION restarts a live responder from scratch",
  "A well-formed GET_VERSION received in any phase that has not failed succeeds, is answered with VERSION, leaves the transcript equal to exactly that request followed by that reply, and leaves the responder waiting for capabilities with nothing remembered of the earlier negotiation. An explicit reset returns the responder to its initial phase with an empty transcript.",
  ["inputs", "histories"], "every live phase reachable by any history, every transcript content and every negotiated parameter held at that point",
  "Tests reset from two phases with one transcript content; they do not cover every phase, history and left-over state.",
  ["src/responder.rs", "src/responder/version.rs", "src/transcript.rs"],
  [("reset_on_get_version!", "src/responder.rs"), ("handle_get_version", "src/responder/version.rs"), ("Transcript::clear", "src/transcript.rs"), ("Responder::reset", "src/responder.rs")],
  ["Responder::transcript(), Responder::state()"])

p("C03", "Requester follows the capability-driven exchange order",
  "A requester emits GET_VERSION, GET_CAPABILITIES and NEGOTIATE_ALGORITHMS in that order, then GET_DIGESTS and GET_CERTIFICATE exactly when both sides advertise certificate support, then CHALLENGE exactly when both sides also advertise challenge support; it advances only on the response (version and code byte) belonging to the request it just sent. It reports initialization complete exactly when the last exchange so required has succeeded, and from then on refuses to emit further initialization requests.",
  ["inputs", "histories"], "every sequence of response byte strings, every combination of capability flags on both sides",
  "Tests walk the one path of the default configuration with a cooperative peer.",
  ["src/requester.rs", "src/requester/version.rs", "src/requester/capabilities.rs", "src/requester/algorithms.rs", "src/requester/id_auth.rs", "src/requester/challenge.rs"],
  [("AllStates::handle_msg / write_req", "src/requester.rs"), ("expect", "src/requester.rs")],
  ["RequesterInit::next_request bytes, RequesterInit::handle_msg result, RequesterInit::state()"])

p("C04", "Initialization completes only with an authenticated responder",
  "When both sides advertise challenge support, a requester completes initialization only after a CHALLENGE_AUTH that names the slot that was challenged, lists that slot as populated, carries the negotiated-hash digest of exactly the certificate chain that was retrieved, and whose signature verifies, under the leaf certificate of that chain, over the negotiated-hash digest of the transcript including this response up to its signature. That leaf must also validate, through the chain's intermediates, to the root certificate the requester was configured with. Any failed check is an error and leaves the requester in its failed phase.",
  ["inputs", "histories"], "every CHALLENGE_AUTH byte string, every retrieved chain, every transcript, every verdict of the certificate and signature primitives",
  "A test can present a few forged messages; it cannot show that no input reaches completion around one of the checks.",
  ["src/requester/challenge.rs", "src/requester.rs", "src/crypto/ring/pki.rs", "src/msgs/challenge.rs", "src/msgs/certificates.rs"],
  [("handle_msg", "src/requester/challenge.rs"), ("verify_cert_chain_and_signature", "src/requester/challenge.rs"), ("WebpkiEndEntityCert", "src/crypto/ring/pki.rs")],
  ["RequesterInit::handle_msg returning Ok(true)"])

p("C05", "Requester transcript is the exact exchange",
  "After every successfully emitted request and accepted response, the requester's transcript is byte for byte the concatenation, in order, of every request it emitted and every response it accepted since its GET_VERSION, nothing missing, added, reordered or altered; the final CHALLENGE_AUTH is included without its signature.",
  ["inputs", "histories"], "every response byte string and length at each step, every buffer size, every history from a new requester",
  "Tests compare lengths or a few fixed exchanges; an omitted or misplaced slice for other lengths goes unseen, and authentication silently covers the wrong bytes.",
  ["src/transcript.rs", "src/requester/version.rs", "src/requester/capabilities.rs", "src/requester/algorithms.rs", "src/requester/id_auth.rs", "src/requester/challenge.rs"],
  [("Transcript::extend", "src/transcript.rs"), ("write_msg / handle_msg of each phase", "src/requester/*.rs")],
  ["RequesterInit::transcript()"])

p("C06", "Responder transcript is the exact exchange",
  "After every successfully handled request, the responder's transcript is byte for byte the concatenation, in order, of every request it accepted and every reply it returned since the last GET_VERSION (inclusive), with a CHALLENGE_AUTH reply included without its signature. The reply returned to the caller is exactly the encoded response.",
  ["inputs", "histories"], "every request byte string and length, every reply buffer, every history from a new responder",
  "Tests compare a few fixed exchanges; they do not cover every message length, phase order and history.",
  ["src/transcript.rs", "src/responder/version.rs", "src/responder/capabilities.rs", "src/responder/algorithms.rs", "src/responder/id_auth.rs", "src/responder/challenge.rs"],
  [("Transcript::extend", "src/transcript.rs"), ("handle_msg of each phase", "src/responder/*.rs")],
  ["Responder::transcript()"])

p("C07", "Challenge reply is bound to slot, chain and transcript",
  "A CHALLENGE_AUTH reply is produced only for a populated slot; it carries that slot's number, the mask of populated slots, and the negotiated-hash digest of that slot's encoded certificate chain, and asks for mutual authentication exactly when both sides advertised it. Its trailing signature is made by that slot's signer over the negotiated-hash digest of the transcript followed by this request and this reply up to the signature, and occupies exactly the last signature-size bytes. A request for an empty or out-of-range slot, or a signer failure, is an error.",
  ["inputs", "histories"], "every CHALLENGE request, every slot population and chain content, every transcript, every signer outcome",
  "Tests use one slot population and one algorithm; a signature over the wrong bytes or by the wrong slot still verifies against itself in many of them.",
  ["src/responder/challenge.rs", "src/responder/id_auth.rs", "src/msgs/challenge.rs"],
  [("handle_msg", "src/responder/challenge.rs"), ("create_slot_mask", "src/responder/id_auth.rs")],
  ["reply bytes and the message passed to Signer::sign"])

p("C08", "Failures are contained and final",
  "When a responder fails to handle a request it returns an error result together with one complete ERROR message (or an empty reply if the buffer cannot hold it), and it ends in its failed phase; when a requester fails to handle a response it returns an error and ends in its failed phase. In the failed phase nothing succeeds any more: no phase is re-entered and no completion is reported, except through the responder's explicit reset.",
  ["inputs", "histories"], "every failing input in every phase, every reply buffer length",
  "Tests provoke two or three failures; they do not cover each failing point in each phase nor what follows it.",
  ["src/responder.rs", "src/requester.rs", "src/responder/error.rs", "src/msgs/error.rs"],
  [("AllStates::handle error arm", "src/responder.rs"), ("RequesterInit::handle_msg error arm", "src/requester.rs")],
  ["returned slice and Result, state()"])

p("C09", "Decoding any bytes never panics",
  "Decoding an arbitrary byte string as the header or body of any supported message, certificate chain or opaque-data structure returns a value or an error; it never panics, indexes out of bounds, overflows or trips an assertion.",
  ["inputs"], "every byte string of every length (for header and body decoders of all fifteen message kinds, certificate chains and opaque data), every size parameter",
  "Tests decode a few valid and a few invalid strings; the failing ones need particular counts and lengths.",
  ["src/msgs/encoding.rs", "src/msgs/mod.rs", "src/msgs/version.rs", "src/msgs/capabilities.rs", "src/msgs/algorithms.rs", "src/msgs/digest.rs", "src/msgs/certificates.rs", "src/msgs/challenge.rs", "src/msgs/measurements.rs", "src/msgs/error.rs", "src/msgs/common.rs"],
  [("Reader", "src/msgs/encoding.rs"), ("parse_body of each message", "src/msgs/*.rs"), ("CertificateChain::parse", "src/msgs/certificates.rs")])

p("C10", "Protocol endpoints never panic on peer input",
  "A responder handling any sequence of requests, and a requester alternating request emission and response handling, never panic, whatever bytes the peer sends, whatever buffers the caller provides, and whatever the signing and certificate primitives return.",
  ["inputs", "histories", "configurations"], "every history of byte strings from a new endpoint, every buffer length, every slot population, both shipped configurations",
  "Tests exercise cooperative peers; a remotely triggerable panic needs an unusual flag, count or length.",
  ["src/requester.rs", "src/responder.rs", "src/requester/algorithms.rs", "src/responder/algorithms.rs", "src/responder/challenge.rs", "src/crypto/pki.rs", "src/crypto/ring/pki.rs", "src/msgs/algorithms.rs"],
  [("whole handler", "src/responder.rs Responder::handle_msg"), ("whole handler", "src/requester.rs RequesterInit::{next_request,handle_msg}")])

p("C11", "Encoding stays inside the buffer and never truncates",
  "Encoding a message into a buffer writes only inside that buffer, never panics because the buffer is short, and either reports a buffer-full error or returns a length such that exactly that many leading bytes were written, beginning with the message's version and code bytes; a buffer of the encoded length always suffices. Bytes past the returned length are left untouched.",
  ["inputs"], "every buffer length from zero up, every well-formed message value",
  "Tests encode into ample buffers.",
  ["src/msgs/encoding.rs", "src/msgs/mod.rs", "src/msgs/version.rs", "src/msgs/capabilities.rs", "src/msgs/algorithms.rs", "src/msgs/digest.rs", "src/msgs/certificates.rs", "src/msgs/challenge.rs", "src/msgs/measurements.rs", "src/msgs/error.rs", "src/msgs/common.rs"],
  [("Writer", "src/msgs/encoding.rs"), ("Msg::write", "src/msgs/mod.rs"), ("write_body of each message", "src/msgs/*.rs")])

LAY = "every field value, element count and buffer for which the message is well formed"
WHYL = "Tests round-trip one or two values per message; a swapped field, wrong width, shift or offset that cancels out for those values, or that both sides share, goes unseen."
p("C12", "Negotiation messages use the standard layout and round-trip",
  "GET_VERSION, VERSION, GET_CAPABILITIES, CAPABILITIES, NEGOTIATE_ALGORITHMS and ALGORITHMS are encoded with each field at the offset, width and little-endian byte order DSP0274 assigns, with the right codes and length field. Decoding reads every field from exactly those positions, so decoding an encoded message yields an equal message.",
  ["inputs"], LAY, WHYL,
  ["src/msgs/version.rs", "src/msgs/capabilities.rs", "src/msgs/algorithms.rs", "src/msgs/encoding.rs", "src/msgs/mod.rs"],
  [("write_body / parse_body", "src/msgs/version.rs, capabilities.rs, algorithms.rs")])
p("C13", "Identity and challenge messages use the standard layout",
  "GET_DIGESTS, DIGESTS, GET_CERTIFICATE, CERTIFICATE, CHALLENGE and CHALLENGE_AUTH (with its opaque data) are encoded with each field at the offset, width and byte order DSP0274 assigns, with the right codes. Decoding reads every field from exactly those positions, so decoding an encoded message yields an equal message.",
  ["inputs"], LAY, WHYL,
  ["src/msgs/digest.rs", "src/msgs/certificates.rs", "src/msgs/challenge.rs", "src/msgs/common.rs", "src/msgs/encoding.rs", "src/crypto/nonce.rs"],
  [("write_body / parse_body", "src/msgs/digest.rs, certificates.rs, challenge.rs"), ("OpaqueData", "src/msgs/common.rs")])
p("C14", "Measurement and error messages use the standard layout",
  "GET_MEASUREMENTS, MEASUREMENTS (with measurement blocks and opaque data) and ERROR (every error code) are encoded with each field at the offset, width and byte order DSP0274 assigns, with the right codes. Decoding reads every field from exactly those positions, so decoding an encoded message yields an equal message (for vendor-defined errors: up to the opaque vendor bytes).",
  ["inputs"], LAY, WHYL,
  ["src/msgs/measurements.rs", "src/msgs/error.rs", "src/msgs/common.rs", "src/msgs/encoding.rs"],
  [("write_body / parse_body", "src/msgs/measurements.rs, error.rs"), ("MeasurementBlocks", "src/msgs/measurements.rs")])

p("C15", "Responder selects only requested, supported algorithms",
  "The hash and signature algorithms in an ALGORITHMS reply are each exactly one algorithm that the request offered and that this build supports, and each additional algorithm structure in the reply has the type of the corresponding request structure and selects exactly one offered algorithm. When nothing offered can be selected the request is answered with an error.",
  ["inputs", "configurations"], "every NEGOTIATE_ALGORITHMS request",
  "Tests offer one algorithm set; other offers pick unsupported algorithms or none.",
  ["src/responder/algorithms.rs", "src/msgs/algorithms.rs", "src/crypto/ring/digest.rs"],
  [("choose_algorithms", "src/responder/algorithms.rs"), ("supported_algorithms", "src/crypto/ring/digest.rs")],
  ["reply bytes, negotiated algorithms in state()"])
p("C16", "Requester accepts only selections it offered",
  "A requester accepts an ALGORITHMS response only if its measurement specification equals the offered one, its base hash, measurement hash and base signature selections are each exactly one algorithm out of those offered in its request, and each algorithm structure selects exactly one algorithm, out of those offered for that type. Otherwise it fails.",
  ["inputs"], "every ALGORITHMS response",
  "Tests present one acceptable response and a few bad ones.",
  ["src/requester/algorithms.rs", "src/msgs/algorithms.rs"],
  [("ensure_valid_algorithms_selected", "src/requester/algorithms.rs"), ("Algorithms::parse_body", "src/msgs/algorithms.rs")])
p("C17", "Version negotiation picks the highest common version",
  "A requester continues with the highest version that appears both in the VERSION response and in its own list of supported versions, and fails if there is none. A responder's VERSION reply lists exactly its supported versions.",
  ["inputs"], "every VERSION response (any number, order and repetition of entries)",
  "Tests use the default list, a single entry and one mismatch.",
  ["src/requester/version.rs", "src/msgs/version.rs", "src/responder/version.rs"],
  [("find_max_matching_version", "src/requester/version.rs"), ("Version::default", "src/msgs/version.rs")])
p("C18", "Negotiated parameters persist unaltered",
  "The version, capability flags and timeout exponents of both sides and the selected algorithms recorded when they are negotiated are the values that were sent and received, and every later phase of the same connection holds them unaltered, for requester and responder alike. The certificate chain, its length and slot the requester challenges are exactly those it retrieved.",
  ["inputs", "histories"], "every response/request content and every history up to a restart of negotiation",
  "Tests check these with default values, where swapped fields look equal.",
  ["src/requester/capabilities.rs", "src/requester/algorithms.rs", "src/requester/id_auth.rs", "src/requester/challenge.rs", "src/responder/capabilities.rs", "src/responder/algorithms.rs", "src/responder/id_auth.rs", "src/responder/challenge.rs"],
  [("From conversions between phase states", "src/requester/*.rs, src/responder/*.rs")],
  ["state()"])
p("C19", "Nonces are fresh, whole and never reused",
  "Every CHALLENGE request and every CHALLENGE_AUTH reply carries a 32-byte nonce of which every byte was filled from the operating-system random generator for that very message, and the requester records the nonce it sent. A measurement request that asks for a signature carries such a nonce too.",
  ["inputs", "histories"], "every message emitted in every history",
  "A test sees a few nonces; it cannot tell a fresh one from a cached, truncated or partly constant one.",
  ["src/crypto/nonce.rs", "src/msgs/challenge.rs", "src/requester/challenge.rs", "src/responder/challenge.rs", "src/msgs/measurements.rs"],
  [("Nonce::new", "src/crypto/nonce.rs")])
p("C20", "Digests and certificates served match the populated slots",
  "A DIGESTS reply has mask bit i set exactly when slot i is populated and then, in slot order, one negotiated-hash digest per populated slot over that slot's encoded certificate chain. A CERTIFICATE reply carries the requested slot number and exactly that slot's encoded chain with its length and nothing remaining, an empty portion for an empty slot; an out-of-range slot is an error.",
  ["inputs", "configurations"], "every slot population, every chain content, every request",
  "Tests use fully populated or single-slot responders.",
  ["src/responder/id_auth.rs", "src/msgs/digest.rs", "src/msgs/certificates.rs"],
  [("create_slot_mask, hash_cert_chains, handle_get_certificate", "src/responder/id_auth.rs")])
p("C21", "A decoded certificate chain exactly tiles its input",
  "Decoding a certificate chain succeeds only if the length field equals the input length; the result's root hash is the digest-size bytes after the header, and its intermediate and leaf certificates are consecutive, whole, DER-sequence-headed slices that cover the remainder exactly in order. Chains with more certificates than the supported depth, non-minimal or unsupported DER lengths, or certificates running past the end are rejected; encoding a chain and decoding it yields an equal chain.",
  ["inputs"], "every byte string, every digest size",
  "Tests decode a few generated chains and a few corruptions.",
  ["src/msgs/certificates.rs"],
  [("CertificateChain::{parse,read_cert_size,write}", "src/msgs/certificates.rs")])
p("C22", "Raw signatures convert to minimal DER within bounds",
  "Converting a raw r||s signature of any supported ECDSA size to DER never panics, never writes past the buffer the library sizes for it, and produces a SEQUENCE of two INTEGERs whose length octets equal the bytes that follow, each integer being the respective half without leading zero bytes and with one zero pad byte exactly when its top bit is set.",
  ["inputs"], "every signature content of the supported sizes",
  "Tests convert a few random signatures; leading zeros and the all-zero half are rare.",
  ["src/crypto/pki.rs", "src/crypto/ring/pki.rs"],
  [("bin_to_der, max_encoded_size", "src/crypto/pki.rs")])
p("C23", "No heap, no unsafe, no shared mutable state; endpoints are Send",
  "The library never allocates from a heap, contains no unsafe code and keeps no mutable or interior-mutable global state, so an endpoint's behaviour depends only on its own inputs; it links without the standard library. Requester, responder, transcript and every phase state can be sent between threads when the signer can.",
  ["programs", "configurations", "schedules"], "every function and type of the crate, in both shipped configurations",
  "Tests run on a hosted target with an allocator and do not observe what the code may link to or which types are Send.",
  ["src/lib.rs", "src/requester.rs", "src/responder.rs", "src/transcript.rs", "Cargo.toml"],
  [("forbid(unsafe_code), no_std", "src/lib.rs")])
p("C24", "Crypto placeholders and ungranted services are unreachable",
  "In a build without a crypto provider no message from a peer can drive a requester or responder into a placeholder cryptographic operation. A responder serves digests and certificates only if it advertised certificate support, and challenges only if it advertised challenge support; otherwise the request is an error.",
  ["inputs", "histories", "configurations"], "every history of byte strings, every capability combination, every slot population, the configuration without a provider",
  "Tests without a provider only run up to algorithm negotiation with a cooperative peer.",
  ["src/crypto/no_crypto_defaults.rs", "src/responder/id_auth.rs", "src/responder/challenge.rs", "src/requester.rs"],
  [("capability checks", "src/requester.rs AllStates::handle_msg, src/responder/*.rs")])
p("C25", "Configured names map to their protocol bits",
  "Each capability and algorithm name accepted from configuration yields exactly the bit DSP0274 assigns to it and any other name is an error. GET_CAPABILITIES and CAPABILITIES advertise exactly the configured capabilities, and NEGOTIATE_ALGORITHMS offers exactly the configured signature algorithms and the hash algorithms the crypto provider supports.",
  ["inputs", "configurations"], "every name, every configuration list",
  "Tests parse the names of one configuration only.",
  ["src/msgs/capabilities.rs", "src/msgs/algorithms.rs", "src/requester/capabilities.rs", "src/responder/capabilities.rs", "src/requester/algorithms.rs"],
  [("FromStr impls", "src/msgs/capabilities.rs, src/msgs/algorithms.rs"), ("config_to_*", "src/requester/*.rs, src/responder/capabilities.rs")])
p("C26", "ERROR replies name the cause",
  "The ERROR message a responder sends reflects its failure: an unexpected request or a wrong version byte gives UnexpectedRequest, a request for a service that was not advertised gives UnsupportedRequest with the request's code, invalid field contents or an invalid slot give InvalidRequest, a request too short for its announced content or too large gives RequestTooLarge, a reply that does not fit the buffer or the transcript gives LargeResponse or ResponseTooLarge, and internal failures give Unspecified. The error result returned to the local caller reports the received message code when a message is unexpected.",
  ["inputs"], "every failing request in every phase",
  "Tests check two or three mappings.",
  ["src/responder/error.rs", "src/responder.rs", "src/requester.rs", "src/responder/version.rs", "src/msgs/error.rs"],
  [("From<&ResponderError> for msgs::Error", "src/responder/error.rs"), ("expect", "src/responder.rs, src/requester.rs")])
p("C27", "Hash and signature suites agree across the library",
  "For every hash algorithm the library claims to support, hashing uses that very algorithm over all of the data and the digest length equals the size used when decoding; for every signature algorithm the size used when decoding, the curve and hash used for verification and those used for signing belong to that algorithm. An unsupported algorithm is never silently replaced by another.",
  ["inputs", "configurations"], "every algorithm identifier, every data content",
  "Tests exercise SHA-256 and P-256 only.",
  ["src/crypto/ring/digest.rs", "src/crypto/digest.rs", "src/crypto/ring/pki.rs", "src/crypto/ring/signing.rs", "src/msgs/algorithms.rs"],
  [("impl_digests!", "src/crypto/digest.rs"), ("spdm_to_webpki / spdm_to_ring", "src/crypto/ring/*.rs"), ("get_digest_size / get_signature_size", "src/msgs/algorithms.rs")])
p("C28", "A request that cannot be emitted changes nothing",
  "If a requester cannot emit its next request (the buffer is too small or the transcript is full) it returns an error, its transcript and the phase it is in are unchanged, nothing negotiated is lost, and the request can be retried. Appending to a transcript is all or nothing and never exceeds its capacity.",
  ["inputs", "histories", "fault_sequences"], "every phase, every buffer length, every transcript fill level",
  "Tests always provide ample buffers.",
  ["src/transcript.rs", "src/requester.rs", "src/requester/version.rs", "src/requester/capabilities.rs", "src/requester/algorithms.rs", "src/requester/id_auth.rs", "src/requester/challenge.rs"],
  [("Transcript::extend", "src/transcript.rs"), ("write_msg of each phase", "src/requester/*.rs")])
p("C29", "Reserved bytes and undefined values are rejected",
  "A message whose reserved bytes are not zero, that sets capability or algorithm bits the standard does not define, that uses an undefined enumeration value (error code, measurement hash type, measurement value type, vendor registry, content-changed code, algorithm type), or an opaque element whose vendor-id length contradicts its registry is rejected by the decoder. Encoders write zero into every reserved byte (the data byte of ERROR and the reserved bits of the second parameter of MEASUREMENTS are outside this statement).",
  ["inputs"], "every byte string",
  "Tests flip one or two reserved bytes.",
  ["src/msgs/encoding.rs", "src/msgs/capabilities.rs", "src/msgs/algorithms.rs", "src/msgs/certificates.rs", "src/msgs/challenge.rs", "src/msgs/measurements.rs", "src/msgs/error.rs", "src/msgs/common.rs", "src/msgs/version.rs", "src/msgs/digest.rs"],
  [("Reader::skip_reserved", "src/msgs/encoding.rs"), ("from_bits, TryFrom impls", "src/msgs/*.rs")])
p("C30", "Matching endpoints interoperate with equal transcripts",
  "A requester and a responder built from the same configuration and connected by a faithful transport complete initialization, whatever the certificates and nonces, provided the cryptographic primitives accept; after every exchange both transcripts are byte-identical and both sides hold the same negotiated parameters.",
  ["inputs", "histories", "configurations"], "every certificate chain that fits, every nonce and signature, both shipped configurations",
  "The end-to-end test runs one chain shape and population.",
  ["src/requester.rs", "src/responder.rs", "src/transcript.rs"],
  [("both handlers", "src/requester.rs, src/responder.rs")])
p("C31", "Handling any message terminates in bounded work and stack",
  "Handling one message always terminates: whatever bytes arrive or buffers are given, no loop in the library runs without progress or past the size of the message, the buffers and the configured limits, and no function calls itself, so stack use has a fixed bound.",
  ["inputs"], "every message, every buffer, every loop and call chain of the crate",
  "A test that hangs is noticed only for the inputs it samples.",
  ["src/msgs/encoding.rs", "src/msgs/version.rs", "src/msgs/algorithms.rs", "src/msgs/opaque.rs", "src/msgs/measurements.rs", "src/msgs/digest.rs", "src/msgs/certificates.rs", "src/requester/version.rs", "src/responder.rs", "src/requester.rs"],
  [("Reader::skip_ignored, read_* loops", "src/msgs/*.rs"), ("find_max_matching_version", "src/requester/version.rs")])
p("C32", "Signatures, hashes and nonces are cryptographically sound",
  "No peer without the private key can make a requester complete initialization, nonces are unpredictable, and digests are collision resistant.",
  ["inputs", "histories"], "every adversary", "Cryptographic strength is not testable.",
  ["src/crypto/ring/pki.rs", "src/crypto/ring/signing.rs", "src/crypto/nonce.rs"], [("ring, webpki, rand", "Cargo.toml")])

for x in P:
    assert len(x["title"]) <= 80, x["title"]
    assert x["statement"].count(". ") <= 2, (x["id"], x["statement"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
