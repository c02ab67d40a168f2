#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01","Authenticated completion: no session without a verified challenge",
 "When both peers advertised certificate and challenge capability, a requester reports initialization complete only upon a CHALLENGE_AUTH response whose slot is the one it challenged and is present in the responder's slot mask, whose certificate-chain digest equals the digest of the chain it received, and whose signature verifies under that chain's leaf key over exactly the bytes the requester exchanged since its GET_VERSION (excluding the signature itself). The received chain must also validate to the root certificate the requester was provisioned with. Any other response (altered, replayed, reordered, signed by another key, or belonging to another slot or transcript) ends in an error.",
 ["inputs","histories","schedules"],
 "Every man-in-the-middle history over every message of the exchange: any field altered, any message dropped, replayed from another session, or forged by a party without a key certified by the provisioned root; every certificate chain shape.",
 "One happy-path integration test runs the handshake with no adversary; no test delivers an altered or forged CHALLENGE_AUTH, a foreign chain or a tampered earlier message, and the set of attacker histories cannot be sampled by a handful of cases.",
 ["src/requester.rs","src/requester/challenge.rs","src/requester/id_auth.rs","src/crypto/ring/pki.rs","src/crypto/pki.rs"],
 [("requester phase","where the requester is in the handshake; the terminal one is reported as complete","src/requester.rs AllStates"),
  ("stored chain","bytes of the CERTIFICATE the requester accepted, with its slot","src/requester/id_auth.rs, src/requester/challenge.rs"),
  ("transcript","bytes exchanged since GET_VERSION","src/transcript.rs")],
 [("slot, mask and digest checks, then chain and signature verification","src/requester/challenge.rs handle_msg, verify_cert_chain_and_signature"),
  ("webpki chain validation and ECDSA verification","src/crypto/ring/pki.rs")],
 ["RequesterInit::handle_msg result and state()"])

p("C02","Requester accepts only the response its current step awaits",
 "A requester advances only on a well-formed response of the one type its current step awaits, with the protocol version that type carries, and the steps run in the order version, capabilities, algorithms, digests, certificate, challenge. A step is skipped only when one of the two peers did not advertise the capability it needs: without certificate capability on both sides identification and challenge are skipped, without challenge capability on both sides the challenge is skipped. Any other message is rejected with an error and never advances the handshake or reports completion.",
 ["histories","inputs"],
 "Every sequence of responses of every type, version byte and well- or malformed body, at every step, for every combination of both peers' capabilities.",
 "Tests walk the single in-order sequence with one capability set; wrong-type, wrong-version and skipped-step sequences number (steps x message kinds x capabilities).",
 ["src/requester.rs","src/requester/version.rs","src/requester/capabilities.rs","src/requester/algorithms.rs","src/requester/id_auth.rs","src/requester/challenge.rs","src/msgs/mod.rs"],
 [("requester phase","current step","src/requester.rs AllStates"),("both peers' capabilities","flags sent and received","src/requester/*.rs State")],
 [("header check per awaited type","src/requester.rs expect; src/msgs/mod.rs parse_header"),("transition function","src/requester.rs AllStates::handle_msg, write_req")],
 ["RequesterInit::next_request, handle_msg, state()"])

p("C03","Responder serves a request only in the phase that allows it",
 "A responder answers GET_CAPABILITIES only after version exchange, NEGOTIATE_ALGORITHMS only after capabilities, GET_DIGESTS and GET_CERTIFICATE only after algorithms, and CHALLENGE only after a CERTIFICATE was delivered; GET_VERSION is answered in every live phase. Each accepted request yields exactly the response paired with it and moves to the phase the protocol prescribes. Every other request, at every point, yields an error and no protocol response.",
 ["histories","inputs"],
 "Every sequence of requests (any type, any header version, well-formed or not) from a fresh responder.",
 "Tests send the one legal sequence and two GET_VERSION resets; illegal orders in each phase are not enumerated.",
 ["src/responder.rs","src/responder/version.rs","src/responder/capabilities.rs","src/responder/algorithms.rs","src/responder/id_auth.rs","src/responder/challenge.rs"],
 [("responder phase","which requests are allowed next","src/responder.rs AllStates")],
 [("per-phase header checks","src/responder.rs expect, reset_on_get_version"),("phase transitions","src/responder/*.rs handle_msg")],
 ["Responder::handle_msg output, result and state()"])

p("C04","The transcript is exactly the messages exchanged since GET_VERSION",
 "After every successfully processed message, each peer's transcript equals the concatenation, in order, of the exact bytes of every request and response it processed since (and including) the latest GET_VERSION, with the signature of a CHALLENGE_AUTH left out. When all messages are delivered unaltered the two peers' transcripts are identical after every exchange. Nothing else ever appears in a transcript and nothing is ever missing from it.",
 ["histories","inputs"],
 "Every reachable sequence of successful exchanges, including repeated GET_DIGESTS, repeated CHALLENGE, restarts in every phase, retried requests and messages with trailing or variable-length parts.",
 "Tests compare the transcripts on one fixed sequence only; omissions in repeated or restarted sequences, or on variable-length messages, are invisible to them.",
 ["src/transcript.rs","src/requester/version.rs","src/requester/challenge.rs","src/responder/challenge.rs","src/responder/id_auth.rs"],
 [("transcript","bytes of the messages so far","src/transcript.rs")],
 [("append on every write and every accepted read; clear on GET_VERSION","src/requester/*.rs, src/responder/*.rs")],
 ["transcript() of both peers"])

p("C05","Responder attests only with the challenged slot's key, over its transcript",
 "Each CHALLENGE_AUTH a responder emits names the challenged slot, carries the mask of exactly its provisioned slots, the digest (under the negotiated hash) of that slot's certificate chain, the mutual-authentication indication exactly when both peers advertised it, and a signature made by that slot's key over the digest of its transcript up to the signature. A challenge for an empty or out-of-range slot, or one whose signing fails, yields an error and no CHALLENGE_AUTH, and no key of any other slot is ever used.",
 ["inputs","histories","configurations","fault_sequences"],
 "Every slot number 0..255 against every subset of provisioned slots, every negotiated hash, every history before the challenge, and every signer failure.",
 "The integration test challenges slot 0 once with one provisioning; other slots, other hashes, repeated challenges, failing signers and the mutual-authentication bit are not covered.",
 ["src/responder/challenge.rs","src/responder/id_auth.rs","src/msgs/challenge.rs","src/crypto/slot.rs"],
 [("slots","certificate chain and signer per slot","src/responder.rs Responder.slots"),("negotiated algorithms","hash used for digests","src/responder/challenge.rs State")],
 [("slot lookup, mask, digest, transcript hash, sign","src/responder/challenge.rs handle_msg"),("CHALLENGE_AUTH layout","src/msgs/challenge.rs write_body")],
 ["Responder::handle_msg output; calls made to the slot signers"])

p("C06","GET_VERSION and reset restart the protocol independent of history",
 "A GET_VERSION accepted in any live phase restarts the protocol at version exchange: every later response depends only on the messages since that GET_VERSION and the responder's provisioning, never on what was negotiated before. An explicit reset brings the responder, also from its error state, to a condition indistinguishable from a newly created one with the same slots.",
 ["histories"],
 "Every history before the restart (any phase, any negotiated capabilities and algorithms, after errors) crossed with every continuation after it.",
 "Two unit tests restart from two freshly defaulted phases and look only at the phase name; residual state would show only in a later response of a second run.",
 ["src/responder.rs","src/responder/version.rs","src/responder/capabilities.rs","src/responder/algorithms.rs","src/responder/id_auth.rs","src/responder/challenge.rs","src/transcript.rs"],
 [("responder phase and negotiated values","must not survive a restart","src/responder.rs AllStates"),("transcript","cleared on restart","src/transcript.rs")],
 [("restart check at the top of every phase","src/responder.rs reset_on_get_version"),("explicit reset","src/responder.rs Responder::reset")],
 ["Responder::handle_msg output, transcript(), state()"])

p("C07","A failure is terminal, reported, and answered with a well-formed ERROR",
 "When a responder fails to process a request it returns an error to its caller, emits a well-formed SPDM ERROR message (or nothing when the ERROR does not fit in the buffer given), and enters the error phase, which no further peer message can leave. When a requester fails to process a response it returns an error, enters its error phase, and neither produces further requests nor ever reports completion.",
 ["inputs","histories","fault_sequences"],
 "Every failing input in every phase (bad header, malformed body, wrong phase, buffer too small, signer failure, transcript overflow), followed by every further call.",
 "No existing test drives either peer into an error at all, nor checks the emitted ERROR bytes or what happens afterwards.",
 ["src/responder.rs","src/responder/error.rs","src/requester.rs","src/requester/error.rs","src/msgs/error.rs"],
 [("error phase","terminal phase of each peer","src/responder.rs, src/requester.rs AllStates")],
 [("error conversion and reply","src/responder.rs AllStates::handle; src/responder/error.rs"),("error transition","src/requester.rs handle_msg")],
 ["results, emitted bytes and state() of both peers"])

p("C08","Algorithms are negotiated only within the requester's offer",
 "The responder selects exactly one signing algorithm and one hash algorithm that the requester offered and the responder itself can perform, answers each offered algorithm structure in kind with exactly one of the algorithms it offers, and echoes the offered measurement specification; if there is no such choice it reports an error instead of answering. A requester accepts an ALGORITHMS response only if it selects exactly one measurement specification, measurement hash, signing and hash algorithm, and per answered structure exactly one algorithm, each of them among those it offered. All later digests and signatures use the negotiated algorithms.",
 ["inputs","histories"],
 "Every combination of offered bit sets (including empty, reserved and unsupported bits), structure lists of every type, count, order and multiplicity, and every selection a responder could return.",
 "Unit tests round-trip a few fixed messages and one default negotiation; offers with unsupported low bits, empty offers and selections outside the offer are never tried.",
 ["src/responder/algorithms.rs","src/requester/algorithms.rs","src/msgs/algorithms.rs","src/crypto/ring/digest.rs"],
 [("negotiated algorithms","what later phases use","src/responder/algorithms.rs, src/requester/algorithms.rs State")],
 [("selection","src/responder/algorithms.rs choose_algorithms"),("offer check","src/requester/algorithms.rs ensure_valid_algorithms_selected"),("message parsing","src/msgs/algorithms.rs")],
 ["ALGORITHMS bytes; requester result"])

p("C09","Version negotiation picks the highest common version or fails",
 "Given a VERSION response, a requester adopts the highest version that both it and the responder support, independent of the order and multiplicity of the listed entries, and fails when there is none, when more entries are listed than it can hold, or when entries are missing. Entries that differ from a supported version in any component (major, minor, update, alpha) never match. A responder always answers GET_VERSION with the same list of the versions it supports.",
 ["inputs"],
 "Every VERSION body: all entry counts 0..255, all orders and values of 16-bit entries, truncated lists.",
 "Unit tests cover two literal version lists; the selection loop mixes a maximum search with a membership test and needs all orders and near-miss values.",
 ["src/requester/version.rs","src/responder/version.rs","src/msgs/version.rs"],
 [("negotiated version","version used by the requester afterwards","src/requester/capabilities.rs State.version")],
 [("highest matching entry","src/requester/version.rs find_max_matching_version"),("entry parsing","src/msgs/version.rs parse_body")],
 ["RequesterInit::handle_msg result and state()"])

p("C10","No peer message can crash a requester or responder",
 "For every byte string a peer can deliver as a request, or as the response to a request the requester wrote, of any length, in every live phase and after every history, and for every size of the output buffer supplied by the caller, processing returns normally with a response or an error: it never panics, overflows, indexes out of bounds or fails to return. The same holds for parsing any message or certificate chain from arbitrary bytes and for verifying any signature bytes.",
 ["inputs","histories"],
 "All byte strings (lengths 0 upward) in all live phases of both roles, all output buffer sizes, all negotiated algorithm selections, all signature and certificate byte patterns.",
 "Tests feed only well-formed messages produced by the library itself; panics hide behind unusual lengths, counts, offers and byte patterns.",
 ["src/msgs/mod.rs","src/msgs/common.rs","src/msgs/certificates.rs","src/msgs/measurements.rs","src/msgs/encoding.rs","src/responder/algorithms.rs","src/crypto/pki.rs","src/requester/challenge.rs"],
 [("live phases","all but the error and completed phases","src/requester.rs, src/responder.rs AllStates")],
 [("checked reader","src/msgs/encoding.rs Reader"),("bounds checks in each message parser","src/msgs/*.rs")],
 ["return from handle_msg, next_request and the message parsers"])

p("C11","Honest peers complete the handshake for every valid provisioning",
 "A requester and a responder of this library, configured alike and exchanging unaltered messages in order, always complete initialization and agree on transcript, version, capabilities and algorithms, for every set of provisioned slots that includes the one requested, every chain depth up to the configured maximum, every chain that fits the configured buffers, and every valid signature value. Retrying after a buffer-too-small failure, or restarting with GET_VERSION, does not prevent completion.",
 ["configurations","histories","inputs"],
 "All slot subsets, chain depths and sizes up to the configured limits, negotiated hashes, capability configurations, repeated sessions and randomly produced signatures (short r or s, high bit set).",
 "One configuration, one chain depth, two alternate slots and one signature per run are tested.",
 ["src/requester.rs","src/responder.rs","src/msgs/certificates.rs","src/crypto/pki.rs","src/crypto/ring/pki.rs"],
 [("both peers' phases","joint progress","src/requester.rs, src/responder.rs")],
 [("whole handshake","src/requester/*.rs, src/responder/*.rs")],
 ["completion result, both transcripts and negotiated values"])

p("C12","Identity data is served and stored faithfully for the right slot",
 "A DIGESTS response marks exactly the provisioned slots and lists, in slot order, the digest under the negotiated hash of each slot's serialized certificate chain; a CERTIFICATE response carries the requested slot's number and that slot's chain bytes, whole and unaltered, and no bytes for a slot that is empty; the digests, certificates and challenge responses agree with each other. A requester keeps exactly the digests and chain bytes it received, accepts a certificate only for the slot it requested, and challenges that slot.",
 ["inputs","configurations"],
 "All subsets of provisioned slots, all requested slot numbers 0..255, all negotiated hashes, chains of every depth and size up to the limit, and any mask or slot number a responder may return.",
 "The tests use alternate slots with equal-size chains and always request slot 0 under one hash.",
 ["src/responder/id_auth.rs","src/requester/id_auth.rs","src/msgs/digest.rs","src/msgs/certificates.rs"],
 [("slots","provisioned chains","src/responder.rs"),("digests and chain","what the requester stored","src/requester/id_auth.rs State")],
 [("mask and digests","src/responder/id_auth.rs create_slot_mask, hash_cert_chains"),("DIGESTS and CERTIFICATE encoding","src/msgs/digest.rs, src/msgs/certificates.rs")],
 ["DIGESTS and CERTIFICATE bytes; requester state()"])

p("C13","A request or response that does not fit leaves the peer consistent",
 "For every output buffer size, a requester's next request is either written whole within the buffer and recorded, or refused with an error that leaves phase and transcript as they were, so that a later call with a larger buffer yields the same request and the handshake can continue. A responder never writes a truncated protocol response: either the whole response is returned, or an error is, and the bytes returned always lie within the buffer given.",
 ["inputs","fault_sequences"],
 "Every buffer size from 0 to beyond the message size, at every step of both roles, in every retry pattern.",
 "Tests always pass buffers far larger than any message.",
 ["src/requester.rs","src/requester/version.rs","src/requester/capabilities.rs","src/requester/algorithms.rs","src/requester/id_auth.rs","src/requester/challenge.rs","src/responder.rs","src/msgs/encoding.rs"],
 [("requester phase and transcript","unchanged on failure","src/requester.rs")],
 [("write before record","src/requester/*.rs write_*"),("bounded writer","src/msgs/encoding.rs Writer")],
 ["next_request and handle_msg results, transcript()"])

p("C14","Handshake messages are encoded and decoded exactly per the wire layout",
 "Every handshake message this library emits has the byte layout the protocol defines for its type: header, reserved zero bytes, little-endian integers, counts and lengths that match what follows. Decoding accepts a message exactly when it is well formed for its type (reserved bytes zero, known enumeration values and flag bits, counts within limits, all announced data present) and yields the encoded field values, so decoding what was encoded returns the original. Malformed input is rejected, never partly accepted.",
 ["inputs"],
 "All field values for encoding; all byte strings for decoding, for every handshake message type including ERROR and opaque data.",
 "Round-trip unit tests on a few values would accept any change made symmetrically in encoder and decoder, and do not explore malformed bytes.",
 ["src/msgs/version.rs","src/msgs/capabilities.rs","src/msgs/algorithms.rs","src/msgs/digest.rs","src/msgs/certificates.rs","src/msgs/challenge.rs","src/msgs/common.rs","src/msgs/error.rs","src/msgs/mod.rs","src/msgs/encoding.rs"],
 [],
 [("write_body / parse_body of each message","src/msgs/*.rs")],
 ["bytes written; parse results"])

p("C15","Bounded storage: data that does not fit is refused, never truncated",
 "Certificate chains, transcripts, digests, opaque data and message lists that exceed their configured capacity are refused with an error; they are never truncated, overwritten or partly recorded. Data of exactly the capacity is accepted. A transcript append that fails leaves the transcript unchanged, and clearing makes the full capacity available again.",
 ["inputs","configurations","histories"],
 "All sizes around each configured limit, for every configuration, and every sequence of appends and clears.",
 "Tests never approach a limit; off-by-one errors at a capacity show only for exactly-full data.",
 ["src/transcript.rs","src/msgs/certificates.rs","src/msgs/common.rs","src/msgs/encoding.rs","src/responder/id_auth.rs","src/requester/id_auth.rs"],
 [("transcript offset","bytes used","src/transcript.rs"),("chain buffers","fixed-size arrays","src/msgs/certificates.rs")],
 [("capacity checks","src/transcript.rs extend; src/msgs/encoding.rs Writer::extend; src/msgs/certificates.rs append_intermediate_cert")],
 ["results and contents"])

p("C16","Every challenge and every attestation carries a fresh nonce",
 "Each CHALLENGE a requester writes and each CHALLENGE_AUTH a responder writes contains a 32-byte nonce drawn anew from the system's random source: no two such messages, of one peer or several, in one session or across restarts and retries, carry the same nonce, and the nonce is not a function of the peer's inputs.",
 ["histories"],
 "All histories of sessions, restarts and retries, over any number of challenges.",
 "The tests issue one challenge per process and never compare nonces.",
 ["src/crypto/nonce.rs","src/requester/challenge.rs","src/responder/challenge.rs","src/msgs/challenge.rs"],
 [("nonce","32 random bytes","src/crypto/nonce.rs")],
 [("fresh nonce per message","src/crypto/nonce.rs Nonce::new; src/msgs/challenge.rs Challenge::new")],
 ["bytes of CHALLENGE and CHALLENGE_AUTH"])

p("C17","Measurement messages are encoded and decoded exactly per the wire layout",
 "GET_MEASUREMENTS and MEASUREMENTS messages follow the protocol's layout: attributes, index, optional nonce and slot only when a signature is requested; block count, 24-bit record length, and per block index, specification, size and value, followed by nonce, opaque data and the optional signature. Decoding accepts exactly the well-formed messages within the configured limits and returns the encoded values, and re-encoding a decoded message reproduces it; malformed or oversized input is rejected with an error.",
 ["inputs"],
 "All attribute, index, block, opaque and signature combinations and all byte strings, around every limit.",
 "Unit tests round-trip a few constructed messages; block counts, sizes and record lengths at their limits and malformed combinations are not tried.",
 ["src/msgs/measurements.rs","src/msgs/common.rs"],
 [],
 [("measurement block codec","src/msgs/measurements.rs")],
 ["parse results and re-encoded bytes"])

p("C18","Advertised capabilities are the configured ones and are honoured",
 "The capability flags each peer sends are exactly those of its build configuration. A responder serves digests and certificates only if it advertised certificate capability and a challenge only if it advertised challenge capability, answering others with an error; in a build without a cryptography provider no cryptographic operation is ever reached. Each peer records the other's advertised flags and acts on the intersection.",
 ["configurations","inputs","histories"],
 "All capability configurations of both peers, all request sequences, builds with and without a cryptography provider.",
 "Tests run two fixed configurations and check only the happy path of one of them.",
 ["src/responder/capabilities.rs","src/responder/id_auth.rs","src/responder/challenge.rs","src/requester/capabilities.rs","src/requester.rs","src/crypto/no_crypto_defaults.rs"],
 [("capability flags","advertised and received","src/requester/capabilities.rs, src/responder/capabilities.rs State")],
 [("flags from configuration","config_to_capabilities_msg, config_to_get_capabilities_msg"),("capability gating","src/responder/id_auth.rs, src/responder/challenge.rs, src/requester.rs")],
 ["CAPABILITIES bytes; results"])

p("C19","Build configuration is validated and reproduced exactly",
 "A build configuration is accepted exactly when its slot count is 1 to 8, its chain buffer at most 64 KiB, its chain depth at most 24, its signing algorithms are implemented, and its capabilities are known and are empty when no cryptography provider is enabled; any other configuration is refused when building. An accepted configuration yields constants equal to the configured values, each under its own name.",
 ["configurations"],
 "All configurations around each limit, all capability and algorithm lists, with and without a provider.",
 "No test runs the configuration generator on anything but the two shipped files.",
 ["build.rs","config.rs.template","spdm-config.toml","spdm-config-crypto.toml"],
 [],
 [("validation and template substitution","build.rs gen_config, validate, validate_capabilities, max_signature_size")],
 ["generated constants or refusal"])

p("C20","Raw ECDSA signatures convert to the one correct DER encoding",
 "A raw signature made of two equal-size big-endian integers converts to the DER sequence of the same two integers: minimal positive encodings, correct lengths, no byte lost or added, and never longer than the size reserved for it. The conversion returns normally for every byte pattern, including values with leading zero bytes, a set high bit, or all zero, and a valid signature is accepted by verification for every such pattern while an invalid one is refused.",
 ["inputs"],
 "All signature byte patterns: every number of leading zero bytes in either half, high bit set or clear after them, all-zero halves, all half sizes up to the configured maximum.",
 "Unit tests use random values (short or zero integers appear with probability 2^-8 and less) and a few sizes.",
 ["src/crypto/pki.rs","src/crypto/ring/pki.rs"],
 [],
 [("fixed to DER conversion","src/crypto/pki.rs bin_to_der and helpers, max_encoded_size"),("verification","src/crypto/ring/pki.rs verify_signature")],
 ["bytes written; verify_signature result"])

p("C21","Certificate-chain containers split and join exactly",
 "Serializing a certificate chain yields its total length, reserved bytes, root digest, then the intermediate certificates in the order they were added and the leaf last; decoding such a container returns the same digest, intermediates and leaf. Decoding rejects, with an error, a container whose announced length differs from its size, whose certificates are not well-delimited DER sequences exactly filling it, or which holds more intermediates than configured.",
 ["inputs"],
 "All numbers and sizes of certificates around the DER length-form boundaries (127/128, 255/256) and the depth limit, and all corruptions of the container.",
 "Unit tests use one or two fixed-size certificates; length-form boundaries, depth limits and corrupted containers are not explored.",
 ["src/msgs/certificates.rs"],
 [],
 [("container codec","src/msgs/certificates.rs CertificateChain::write, parse, read_cert_size, append_intermediate_cert")],
 ["bytes written; parse results"])

p("C22","Byte and bit cursors read and write exactly the addressed data",
 "Reading a sequence of bit fields, bytes, little-endian integers and slices from a buffer returns exactly the corresponding bits of the buffer in order, and fails with an error, without going past the end, when too little data remains, when a byte-level read is not byte-aligned, or when a reserved byte is not zero. Writing appends exactly the given bytes, and fails when they do not fit, never writing outside the buffer or moving the cursor past it.",
 ["inputs","histories"],
 "All sequences of cursor operations over all buffers, including unaligned bit positions and every remaining length.",
 "Unit tests run a few fixed operation sequences; bit reads that straddle bytes at every alignment and the end-of-buffer cases are not enumerated.",
 ["src/msgs/encoding.rs"],
 [("cursor","byte and bit offset","src/msgs/encoding.rs Reader, Writer")],
 [("cursor operations","src/msgs/encoding.rs")],
 ["operation results, offset() and remaining()"])

p("C23","Digests are the standard ones, whole or streamed, for each offered hash",
 "For every hash algorithm a peer offers or selects, the digest of any data equals the standard digest of that algorithm, has the size the protocol assigns to it, and is the same whether the data is supplied at once or in any sequence of pieces. An algorithm that is not supported is refused when requested and is never offered or selected.",
 ["inputs","histories"],
 "All supported algorithms, all data lengths around the block sizes, all ways to split the data.",
 "One unit test hashes one string per algorithm.",
 ["src/crypto/digest.rs","src/crypto/ring/digest.rs","src/msgs/algorithms.rs"],
 [("hash state","data absorbed so far","src/crypto/ring/digest.rs ProvidedDigests")],
 [("enum over hash implementations","src/crypto/digest.rs impl_digests")],
 ["finalize and digest results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
