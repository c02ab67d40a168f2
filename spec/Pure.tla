-------------------------------- MODULE Pure ---------------------------------
(* The parts of the library below the handshake: codecs, storage, cursors,   *)
(* certificate chain containers, DER signatures, digests, nonces and the     *)
(* build configuration.  Each is specified as a state machine whose steps    *)
(* are calls; a recorded call with its result is allowed or not.  Sessions   *)
(* and reports are as in Trace.                                              *)
EXTENDS Wire, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.TRACE)
Blobs == In.blobs
Cfgs == In.cfgs
Traces == In.traces
NT == Len(Traces)
B(i) == IF i = 0 THEN <<>> ELSE Blobs[i]
SetOf(q) == {q[i] : i \in 1..Len(q)}
CfgOf == [i \in 1..Len(Cfgs) |-> [Cfgs[i] EXCEPT !.caps = SetOf(@), !.asyms = SetOf(@)]]

VARIABLES tid, l, st
vars == <<tid, l, st>>

Flag(bad, aspect, props) == IF bad THEN {[a |-> aspect, p |-> props]} ELSE {}
Min2(a, b) == IF a < b THEN a ELSE b

(******************************** codecs ************************************)
Code(t) ==
    CASE t = "GET_VERSION" -> GET_VERSION [] t = "VERSION" -> VERSION
      [] t = "GET_CAPABILITIES" -> GET_CAPABILITIES [] t = "CAPABILITIES" -> CAPABILITIES
      [] t = "NEGOTIATE_ALGORITHMS" -> NEGOTIATE_ALGORITHMS [] t = "ALGORITHMS" -> ALGORITHMS
      [] t = "GET_DIGESTS" -> GET_DIGESTS [] t = "DIGESTS" -> DIGESTS
      [] t = "GET_CERTIFICATE" -> GET_CERTIFICATE [] t = "CERTIFICATE" -> CERTIFICATE
      [] t = "CHALLENGE" -> CHALLENGE [] t = "CHALLENGE_AUTH" -> CHALLENGE_AUTH
      [] t = "GET_MEASUREMENTS" -> GET_MEASUREMENTS [] t = "MEASUREMENTS" -> MEASUREMENTS
      [] t = "ERROR" -> ERROR
Measuring == {"GET_MEASUREMENTS", "MEASUREMENTS"}
Kind(e) == (IF e.t \in Measuring THEN {"C17"} ELSE {"C14"}) \cup (IF e.lim THEN {"C15"} ELSE {})

Parse(c, t, b, ds, ss, sr) ==
    CASE t = "GET_VERSION" -> ParseGetVersion(b) [] t = "VERSION" -> ParseVersion(b)
      [] t = "GET_CAPABILITIES" -> ParseGetCapabilities(b) [] t = "CAPABILITIES" -> ParseCapabilities(b)
      [] t = "NEGOTIATE_ALGORITHMS" -> ParseNegotiateAlgorithms(b) [] t = "ALGORITHMS" -> ParseAlgorithms(b)
      [] t = "GET_DIGESTS" -> ParseGetDigests(b) [] t = "DIGESTS" -> ParseDigests(c, b, ds)
      [] t = "GET_CERTIFICATE" -> ParseGetCertificate(b) [] t = "CERTIFICATE" -> ParseCertificate(c, b)
      [] t = "CHALLENGE" -> ParseChallenge(c, b) [] t = "CHALLENGE_AUTH" -> ParseChallengeAuth(c, b, ds, ss)
      [] t = "GET_MEASUREMENTS" -> ParseGetMeasurements(c, b)
      [] t = "MEASUREMENTS" -> ParseMeasurements(c, b, sr, ss)
      [] t = "ERROR" -> ParseError(b)
Enc(c, t, m) ==
    CASE t = "GET_VERSION" -> EncGetVersion(m) [] t = "VERSION" -> EncVersion(m)
      [] t = "GET_CAPABILITIES" -> EncGetCapabilities(m) [] t = "CAPABILITIES" -> EncCapabilities(m)
      [] t = "NEGOTIATE_ALGORITHMS" -> EncNegotiateAlgorithms(m) [] t = "ALGORITHMS" -> EncAlgorithms(m)
      [] t = "GET_DIGESTS" -> EncGetDigests(m) [] t = "DIGESTS" -> EncDigests(c, m)
      [] t = "GET_CERTIFICATE" -> EncGetCertificate(m) [] t = "CERTIFICATE" -> EncCertificate(m)
      [] t = "CHALLENGE" -> EncChallenge(m) [] t = "CHALLENGE_AUTH" -> EncChallengeAuth(m)
      [] t = "GET_MEASUREMENTS" -> EncGetMeasurements(m) [] t = "MEASUREMENTS" -> EncMeasurements(m)
      [] t = "ERROR" -> EncError(m)

\* the message that recorded fields describe, as Parse* gives it
StructsOf(q) == [i \in 1..Len(q) |-> [t |-> q[i].t, sel |-> SetOf(q[i].sel)]]
Abs(c, t, f) ==
    CASE t \in {"GET_VERSION", "GET_DIGESTS"} -> [ok |-> TRUE, k |-> t]
      [] t = "VERSION" -> [ok |-> TRUE, k |-> t, entries |-> f.entries]
      [] t \in {"GET_CAPABILITIES", "CAPABILITIES"} -> [ok |-> TRUE, k |-> t, ct |-> f.ct, flags |-> SetOf(f.flags)]
      [] t = "NEGOTIATE_ALGORITHMS" -> [ok |-> TRUE, k |-> t, mspec |-> f.mspec, asym |-> SetOf(f.asym),
                                        hash |-> SetOf(f.hash), structs |-> StructsOf(f.structs)]
      [] t = "ALGORITHMS" -> [ok |-> TRUE, k |-> t, mspec |-> f.mspec, mhash |-> SetOf(f.mhash), asym |-> SetOf(f.asym),
                              hash |-> SetOf(f.hash), structs |-> StructsOf(f.structs)]
      [] t = "DIGESTS" -> [ok |-> TRUE, k |-> t, mask |-> f.mask,
                           digests |-> [s \in 0..(c.nslots-1) |-> B(f.digests[s+1])]]
      [] t = "GET_CERTIFICATE" -> [ok |-> TRUE, k |-> t, slot |-> f.slot, off |-> f.off, len |-> f.len]
      [] t = "CERTIFICATE" -> [ok |-> TRUE, k |-> t, slot |-> f.slot, rem |-> f.rem, chain |-> B(f.chain)]
      [] t = "CHALLENGE" -> [ok |-> TRUE, k |-> t, slot |-> f.slot, mht |-> f.mht, nonce |-> B(f.nonce)]
      [] t = "CHALLENGE_AUTH" -> [ok |-> TRUE, k |-> t, slot |-> f.slot, mut |-> f.mut, mask |-> f.mask,
                                  digest |-> B(f.digest), nonce |-> B(f.nonce), meas |-> B(f.meas),
                                  opaque |-> ParseOpaque(c, B(f.opq), 1).els, sig |-> B(f.sig)]
      [] t = "GET_MEASUREMENTS" -> [ok |-> TRUE, k |-> t, attr |-> f.attr, index |-> f.index, nonce |-> <<>>, slot |-> <<>>]
      [] t = "MEASUREMENTS" -> [ok |-> TRUE, k |-> t, total |-> f.total, slot |-> f.slot, changed |-> f.changed,
                                blocks |-> [i \in 1..Len(f.blocks) |->
                                    [index |-> f.blocks[i].index, ty |-> f.blocks[i].ty, val |-> B(f.blocks[i].val)]],
                                nonce |-> B(f.nonce), opaque |-> ParseOpaque(c, B(f.opq), 1).els, sig |-> B(f.sig)]
      [] t = "ERROR" -> [ok |-> TRUE, k |-> t, code |-> f.code, data |-> f.data, ext |-> B(f.ext)]

\* well formed but for the configured capacities
Over(c, e, b) ==
    \/ Len(b) > 5 /\ e.t = "VERSION" /\ b[6] > MaxVersions
    \/ Len(b) > 2 /\ e.t \in {"ALGORITHMS", "NEGOTIATE_ALGORITHMS"} /\ b[3] > MaxStructs
    \/ Parse([c EXCEPT !.chainMax = 65535, !.opqN = 255, !.opqMax = 65535, !.mbN = 255, !.mbMax = 65535], e.t, b, e.ds, e.ss, e.sr).ok
JudgeDec(c, e) ==
    LET b == B(e.in)
        h == Header(b, Code(e.t))
        m == IF h = "ok" THEN Parse(c, e.t, b, e.ds, e.ss, e.sr) ELSE Bad
        exp == IF h = "other" THEN "other" ELSE IF m.ok THEN "ok" ELSE "err"
        p == Kind(e)
    IN IF e.res = "panic" THEN Flag(TRUE, "decoding panics", p \cup {"C10"})
       ELSE IF exp # "ok" THEN Flag(e.res # exp, "decoding accepts a message that is not well formed: " \o e.t,
                                  p \cup (IF exp = "err" /\ Over(c, e, b) THEN {"C15"} ELSE {}))
       ELSE IF e.res \in {"reenc", "stray"} THEN Flag(TRUE, "encoding what was decoded: " \o e.t, p)
       ELSE Flag(e.res # "ok", "decoding refuses a well formed message: " \o e.t, p)
         \cup (IF e.res # "ok" THEN {} ELSE
                 Flag(B(e.re) # Enc(c, e.t, m), "encoding what was decoded: " \o e.t, p)
            \cup Flag(e.hf /\ Abs(c, e.t, e.f) # m, "decoded fields: " \o e.t, p))

JudgeEnc(c, e) ==
    LET m == Abs(c, e.t, e.f)
        x == Enc(c, e.t, m)
        long == e.t = "CHALLENGE_AUTH" /\ Len(EncOpaque(m.opaque)) > MaxOpaque
        p == Kind(e)
    IN IF e.res = "panic" THEN Flag(TRUE, "encoding panics: " \o e.t, p \cup {"C10"})
       ELSE IF long \/ e.cap < Len(x)
       THEN Flag(e.res # "err", "encoding something that does not fit: " \o e.t, p \cup {"C15"})
       ELSE Flag(e.res # "ok", "no encoding although it fits: " \o e.t, p)
         \cup Flag(e.res = "ok" /\ B(e.out) # x, "encoding: " \o e.t, p)

JudgeEncGm(c, e) ==
    LET out == B(e.out)
        signed == e.attr % 2 = 1
        n == IF signed THEN 5 + c.nonceLen ELSE 4
        valid == CASE e.var \in {"any", "named"} -> TRUE [] e.var = "impl" -> e.index \in 1..239 [] e.var = "res" -> e.index \in 240..252
        nonce == IF signed /\ Len(out) >= 4 + c.nonceLen THEN Slice(out, 5, c.nonceLen) ELSE <<>>
        x == EncGetMeasurements([attr |-> e.attr, index |-> e.index, nonce |-> nonce,
                                 slot |-> IF signed THEN << e.slot >> ELSE <<>>])
    IN IF e.res = "panic" THEN Flag(TRUE, "encoding GET_MEASUREMENTS panics", {"C17", "C10"})
       ELSE IF ~valid \/ e.cap < n THEN Flag(e.res # "err", "encoding a GET_MEASUREMENTS that is invalid or does not fit", {"C17"})
       ELSE Flag(e.res # "ok" \/ out # x, "encoding GET_MEASUREMENTS", {"C17"})

(********************************* names ************************************)
\* the bit that the protocol gives to each name
BitNames(t) ==
    CASE t = "ReqFlags" ->
           [CERT_CAP |-> 1, CHAL_CAP |-> 2, ENCRYPT_CAP |-> 6, MAC_CAP |-> 7, MUT_AUTH_CAP |-> 8, KEY_EX_CAP |-> 9, PSK_CAP |-> 10,
            ENCAP_CAP |-> 12, HBEAT_CAP |-> 13, KEY_UPD_CAP |-> 14, HANDSHAKE_IN_THE_CLEAR_CAP |-> 15, PUB_KEY_ID_CAP |-> 16]
      [] t = "RspFlags" ->
           [CACHE_CAP |-> 0, CERT_CAP |-> 1, CHAL_CAP |-> 2, MEAS_CAP_NO_SIG |-> 3, MEAS_CAP_SIG |-> 4, MEAS_FRESH_CAP |-> 5, ENCRYPT_CAP |-> 6,
            MAC_CAP |-> 7, MUT_AUTH_CAP |-> 8, KEY_EX_CAP |-> 9, PSK_CAP |-> 10, ENCAP_CAP |-> 12, HBEAT_CAP |-> 13, KEY_UPD_CAP |-> 14,
            HANDSHAKE_IN_THE_CLEAR_CAP |-> 15, PUB_KEY_ID_CAP |-> 16]
      [] t \in {"BaseAsymAlgo", "ReqBaseAsymFixedAlgorithms"} ->
           [RSASSA_2048 |-> 0, RSAPSS_2048 |-> 1, RSASSA_3072 |-> 2, RSAPSS_3072 |-> 3, ECDSA_ECC_NIST_P256 |-> 4, RSASSA_4096 |-> 5,
            RSAPSS_4096 |-> 6, ECDSA_ECC_NIST_P384 |-> 7, ECDSA_ECC_NIST_P521 |-> 8]
      [] t = "BaseHashAlgo" -> [SHA_256 |-> 0, SHA_384 |-> 1, SHA_512 |-> 2, SHA3_256 |-> 3, SHA3_384 |-> 4, SHA3_512 |-> 5]
      [] t = "MeasurementSpec" -> [DMTF |-> 0]
      [] t = "DheFixedAlgorithms" -> [FFDHE_2048 |-> 0, FFDHE_3072 |-> 1, FFDHE_4096 |-> 2, SECP_256_R1 |-> 3, SECP_384_R1 |-> 4, SECP_521_R1 |-> 5]
      [] t = "AeadFixedAlgorithms" -> [AES_128_GCM |-> 0, AES_256_GCM |-> 1, CHACHA20_POLY1305 |-> 2]
      [] t = "KeyScheduleFixedAlgorithms" -> [SPDM |-> 0]
      [] t = "OperationalModeBits" -> [MANUFACTURING |-> 0, VALIDATION |-> 1, NORMAL |-> 2, RECOVERY |-> 3, RMA |-> 4, DECOMMISSIONED |-> 5]
      [] t = "DeviceModeBits" -> [NON_INVASIVE_DEBUG |-> 0, INVASIVE_DEBUG |-> 1, NON_INVASIVE_DEBUG_RESET_CYCLE |-> 2,
            INVASIVE_DEBUG_RESET_CYCLE |-> 3, INVASIVE_DEBUG_AT_LEAST_ONCE_AFTER_MANUFACTURING_MODE |-> 5]
NameProps(t) == CASE t \in {"ReqFlags", "RspFlags"} -> {"C14", "C18"} [] t \in {"OperationalModeBits", "DeviceModeBits"} -> {"C17"}
                  [] t = "BaseHashAlgo" -> {"C14", "C23"} [] OTHER -> {"C14"}
JudgeName(e) == Flag(SetOf(e.bits) # {BitNames(e.t)[e.n]}, "value of " \o e.t \o " " \o e.n, NameProps(e.t))
\* which names a text may stand for is not laid down, except for those of configurations
MustParse(t) == CASE t \in {"ReqFlags", "RspFlags"} -> {"CERT_CAP", "CHAL_CAP", "ENCRYPT_CAP", "MAC_CAP", "MUT_AUTH_CAP", "KEY_EX_CAP", "KEY_UPD_CAP"}
                  [] t = "BaseAsymAlgo" -> {"ECDSA_ECC_NIST_P256"} [] OTHER -> {}
JudgeStr(e) ==
    LET q == BitNames(e.t) IN
         Flag(e.res = "panic", "parsing a name panics", {"C10"})
    \cup Flag(e.res = "ok" /\ (e.n \notin DOMAIN q \/ SetOf(e.bits) # {q[e.n]}), "meaning of a name of " \o e.t, NameProps(e.t))
    \cup Flag(e.res = "err" /\ e.n \in MustParse(e.t), "a name of " \o e.t \o " is not known", NameProps(e.t))

(******************************** storage ***********************************)
\* the transcript: its content is the state
JudgeTr(c, s, e) ==
    LET cur == s.tr
        fits == Len(cur) + Len(B(e.in)) <= c.trMax
        want == CASE e.op \in {"new", "clear"} -> <<>>
                  [] e.op = "ext" /\ fits -> cur \o B(e.in)
                  [] OTHER -> cur
        res == IF e.op = "ext" /\ ~fits THEN "err" ELSE "ok"
    IN [s |-> [s EXCEPT !.tr = B(e.get)],
        bad |-> Flag(e.res = "panic", "transcript panics", {"C15", "C10"})
           \cup Flag(e.res # "panic" /\ e.res # res, "capacity of the transcript", {"C15"})
           \cup Flag(B(e.get) # want \/ e.len # Len(want), "content of the transcript", {"C15"})]

JudgeLim(c, e) ==
    LET fits == e.n <= e.max
        p == {"C15"} \cup (IF e.t = "digest" THEN {"C23"} ELSE {})
    IN IF e.res = "panic" THEN Flag(TRUE, "storing a " \o e.t \o " panics", {"C15", "C10"})
       ELSE Flag(e.size # fits \/ e.ok # fits, "capacity for a " \o e.t, {"C15"})
         \cup Flag(e.ok /\ (B(e.get) # B(e.in) \/ e.len # e.n), "stored " \o e.t, {"C15"})

JudgeOpq(c, e) ==
    LET o == ParseOpaque(c, B(e.in), 1) IN
    IF e.res = "panic" THEN Flag(TRUE, "decoding opaque data panics", {"C15", "C14", "C10"})
    ELSE Flag((e.res = "ok") # o.ok, "opaque data accepted", {"C15", "C14"})
      \cup Flag(e.res = "ok" /\ o.ok /\ ~(B(e.re) = EncOpaque(o.els) /\ e.size = Len(EncOpaque(o.els)) /\ e.used = o.next - 1),
                "opaque data", {"C15", "C14"})

(******************************** chains ************************************)
Refs(q) == [i \in 1..Len(q) |-> B(q[i])]
JudgeChainWrite(c, e) ==
    LET n == Len(e.inter)
        full == IF n > c.depth THEN c.depth + 1 ELSE 0
        inter == Refs(SubSeq(e.inter, 1, Min2(n, c.depth)))
        len == 4 + Len(B(e.root)) + Len(Flat(inter)) + Len(B(e.leaf))
    IN IF e.res = "panic" THEN Flag(TRUE, "writing a chain panics", {"C21", "C10"})
       ELSE Flag(e.full # full, "capacity for intermediates", {"C15", "C21"})
         \cup (IF len > 65535 \/ len > e.cap
               THEN Flag(e.res # "err", "a chain that does not fit is written", {"C21", "C15"})
               ELSE Flag(e.res # "ok" \/ B(e.out) # EncChain(B(e.root), inter, B(e.leaf)), "written chain", {"C21"}))
JudgeChainParse(c, e) ==
    LET r == ParseChain(c, B(e.in), e.ds) IN
    IF e.res = "panic" THEN Flag(TRUE, "parsing a chain panics", {"C21", "C10"})
    ELSE Flag((e.res = "ok") # r.ok, "chain accepted", {"C21"})
      \cup Flag(e.res = "ok" /\ r.ok /\ ~(B(e.root) = r.root /\ Refs(e.inter) = r.inter /\ B(e.leaf) = r.leaf), "parts of a chain", {"C21"})
      \cup Flag(e.res = "ok" /\ r.ok /\ B(e.re) # B(e.in), "chain written again", {"C21"})

(******************************** cursors ***********************************)
\* Reader: the buffer and the position in bits, -1 when a failed call left it unknown
BitAt(b, p) == IF (p % 8) \in ByteBits[b[p \div 8 + 1]] THEN 1 ELSE 0
RECURSIVE BitsValue(_, _, _)
BitsValue(b, p, n) == IF n = 0 THEN 0 ELSE BitAt(b, p) + 2 * BitsValue(b, p + 1, n - 1)
JudgeRead(s, e) ==
    LET b == s.rb
        p == s.rpos
        al == p % 8 = 0
        i == p \div 8
        left == Len(b) - i
        n == CASE e.op \in {"slice", "res", "ign"} -> e.n [] e.op = "byte" -> 1 [] e.op = "u16" -> 2
               [] e.op = "u24" -> 3 [] e.op = "u32" -> 4 [] OTHER -> 0
        nb == IF e.op = "bit" THEN 1 ELSE e.n
        bitop == e.op \in {"bits", "bit"}
        ok == IF bitop THEN nb <= 7 /\ p + nb <= 8 * Len(b)
              ELSE al /\ n <= left /\ (e.op = "res" => IsZero(b, i + 1, n))
        np == IF bitop THEN p + nb ELSE p + 8 * n
        v == CASE bitop -> BitsValue(b, p, nb) [] e.op = "byte" -> b[i+1] [] e.op = "u16" -> U16(b, i+1)
               [] e.op = "u24" -> U24(b, i+1) [] OTHER -> 0
        sl == IF e.op \in {"slice", "u32"} THEN Slice(b, i + 1, n) ELSE <<>>
        at == IF e.res = "ok" /\ ok THEN np ELSE IF e.al /\ e.off <= Len(b) THEN 8 * e.off ELSE 0-1
    IN IF e.res = "panic" THEN [s |-> s, bad |-> Flag(TRUE, "reading panics", {"C22", "C10"})]
       ELSE IF p < 0 THEN
         [s |-> [s EXCEPT !.rpos = IF e.al /\ e.off <= Len(b) THEN 8 * e.off ELSE 0-1],
          bad |-> Flag(e.off > Len(b) \/ e.rem # Len(b) - e.off, "position of a reader", {"C22"})]
       ELSE [s |-> [s EXCEPT !.rpos = at],
             bad |-> Flag((e.res = "ok") # ok, "a read that has to " \o (IF ok THEN "succeed" ELSE "fail"), {"C22"})
                \cup Flag(e.res = "ok" /\ ok /\ (e.v # v \/ B(e.s) # sl), "value read", {"C22"})
                \cup Flag(IF e.res = "ok" /\ ok THEN e.off # np \div 8 \/ e.al # (np % 8 = 0)
                          ELSE e.off > Len(b) \/ e.off < i, "position of a reader", {"C22"})
                \cup Flag(e.rem # Len(b) - e.off \/ e.emp # (e.off = Len(b)), "rest of a reader", {"C22"})]

\* Writer: what was written, 256 where a failed call may have written something
JudgeWrite(s, e) ==
    LET d == B(e.data)
        fits == Len(s.out) + Len(d) <= s.cap
        sane == e.off <= s.cap /\ e.off >= Len(s.out)
    IN IF e.res = "panic" THEN [s |-> s, bad |-> Flag(TRUE, "writing panics", {"C22", "C10"})]
       ELSE [s |-> IF e.res = "ok" THEN [s EXCEPT !.out = @ \o d]
                   ELSE [s EXCEPT !.out = IF sane THEN @ \o [i \in 1..(e.off - Len(@)) |-> 256] ELSE @, !.torn = TRUE],
             bad |-> Flag((e.res = "ok") # fits, "a write that has to " \o (IF fits THEN "succeed" ELSE "fail"), {"C22"})
                \cup Flag(e.res = "ok" /\ (e.off # Len(s.out) + Len(d) \/ e.v # e.off), "position of a writer", {"C22"})
                \cup Flag(e.res = "err" /\ ~sane, "position of a writer", {"C22"})
                \cup Flag(e.rem # s.cap - e.off \/ e.full # (e.off = s.cap), "rest of a writer", {"C22"})]
JudgeWriteEnd(s, e) ==
    LET g == B(e.out) IN
         Flag(Len(g) # s.cap \/ ~e.clean, "written outside the buffer", {"C22"})
    \cup Flag(Len(g) = s.cap /\ (Len(s.out) > s.cap \/ \E i \in 1..Min2(Len(s.out), s.cap) : s.out[i] # 256 /\ s.out[i] # g[i]),
              "bytes written", {"C22"})
    \cup Flag(Len(g) = s.cap /\ ~s.torn /\ \E i \in (Len(s.out)+1)..s.cap : g[i] # 165, "bytes beyond the position changed", {"C22"})

(****************************** signatures **********************************)
JudgeDer(e) ==
    IF e.res = "panic" THEN Flag(TRUE, "converting a signature panics", {"C20", "C10"})
    ELSE Flag(e.res = "long", "longer than the space reserved", {"C20"})
      \cup Flag(e.res = "ok" /\ B(e.out) # DerSig(B(e.in)), "encoding of a signature", {"C20"})
JudgeVer(e) ==
    IF e.res = "panic" THEN Flag(TRUE, "verifying a signature panics", {"C20", "C10"})
    ELSE Flag((e.res = "ok") # e.valid, "verification of a signature", {"C20"})

(******************************** digests ***********************************)
\* e.std: the standard digests of B(e.all), by another implementation
Implemented == {0, 1, 2}
Offered(c) == {h \in Implemented : DigestSize(h) <= c.maxDigest}
JudgeDig(c, s, e) ==
    CASE e.k = "dsup" -> Flag(SetOf(e.algs) # Offered(c), "hash algorithms offered", {"C23"})
      [] e.k = "dalg" ->
           LET a == SetOf(e.alg) IN
                Flag(e.res = "panic", "choosing a hash algorithm panics", {"C23", "C10"})
           \cup Flag(a \in {{h} : h \in Offered(c)} /\ ~(e.res = "ok" /\ e.size = DigestSize(MinOf(a))), "an offered hash algorithm", {"C23"})
           \cup Flag(a \notin {{h} : h \in Implemented} /\ e.res = "ok", "a hash algorithm that is not supported", {"C23"})
      [] e.k = "dwhole" -> Flag(e.res # "ok" \/ B(e.out) # e.std[e.h + 1] \/ Len(B(e.out)) # DigestSize(e.h), "digest of the whole", {"C23"})
      [] e.k = "dfin" -> Flag(e.res # "ok" \/ B(e.out) # e.std[s.h + 1], "digest of the pieces", {"C23"})
      [] OTHER -> {}

(******************************** nonces ************************************)
JudgeNonce(c, ev, k) ==
    LET e == ev[k]
        v == B(e.v) IN
         Flag(Len(v) # c.nonceLen, "length of a nonce", {"C16"})
    \cup Flag(\E j \in 1..(k-1) : ev[j].k = "nonce" /\ ev[j].v = e.v, "a nonce used before", {"C16"})
    \cup Flag(e.rq # 0 /\ e.rq = e.v, "the nonce of the request", {"C16"})
\* every four bytes of a nonce were delivered by the system's random source; src, if that was seen
JudgeNonces(c, ev, chal, seen, src) ==
    LET N(cls) == {B(ev[j].v) : j \in {i \in 1..Len(ev) : ev[i].k = "nonce" /\ ev[i].cls = cls}}
        all == {j \in 1..Len(ev) : ev[j].k = "nonce" /\ Len(B(ev[j].v)) = c.nonceLen}
        offs == {4 * i + 1 : i \in 0..((c.nonceLen - 8) \div 4)}
        windows == {Slice(B(ev[j].v), o, 8) : j \in all, o \in offs}
        full(S) == {v \in S : Len(v) = c.nonceLen}
        classes == {"made"} \cup (IF chal THEN {"challenge", "auth"} ELSE {})
        bits(S, i) == {ByteBits[v[i]] : v \in S}
        drawn == {Slice(src, o, 4) : o \in 1..(Len(src) - 3)}
        quarters == {Slice(B(ev[j].v), 4 * i + 1, 4) : j \in all, i \in 0..((c.nonceLen - 4) \div 4)}
    IN   Flag(\E x \in classes : Cardinality(N(x)) < 64, "too few different nonces", {"C16"})
    \cup Flag(Cardinality(windows) # Cardinality(all) * Cardinality(offs), "eight bytes of a nonce occur again", {"C16"})
    \cup Flag(seen /\ (Cardinality(drawn) = 0 \/ \E q \in quarters : q \notin drawn), "bytes of a nonce that the random source did not deliver", {"C16"})
    \cup UNION {LET S == full(N(x)) IN
              Flag(\E i \in 1..c.nonceLen : \E b \in 0..7 : LET q == bits(S, i) IN
                      (\A y \in q : b \in y) \/ (\A y \in q : b \notin y), "a bit that never changes", {"C16"})
         \cup Flag(\E i \in 1..c.nonceLen : \E j \in 1..(i-1) : \A v \in S : v[i] = v[j], "two bytes always equal", {"C16"})
            : x \in classes}

(****************************** configuration *******************************)
KnownAsym == {"ECDSA_ECC_NIST_P256"}
KnownCaps == {"CERT_CAP", "CHAL_CAP", "ENCRYPT_CAP", "MAC_CAP", "MUT_AUTH_CAP", "KEY_EX_CAP", "KEY_UPD_CAP"}
\* f: the values of a configuration file, crypto: whether a provider is enabled
Acceptable(f, crypto) ==
    /\ f.NUM_SLOTS \in 1..8 /\ f.MAX_CERT_CHAIN_SIZE <= 65536 /\ f.MAX_CERT_CHAIN_DEPTH <= 24
    /\ SetOf(f.ALGORITHMS_ASYMMETRIC_SIGNING) \subseteq KnownAsym
    /\ SetOf(f.CAPABILITIES) \subseteq KnownCaps
    /\ ~crypto => f.CAPABILITIES = <<>>
JudgeConf(e) ==
    LET ok == IF e.wf THEN Acceptable(e.f, e.crypto) ELSE FALSE IN
         Flag(ok /\ e.res # "ok", "a valid configuration is refused", {"C19"})
    \cup Flag(~ok /\ e.res = "ok", "an invalid configuration is accepted", {"C19"})
    \cup Flag(ok /\ e.res = "ok" /\ e.c # e.f, "constants of a configuration", {"C19"})

(********************************* steps ************************************)
Start == [tr |-> <<>>, rb |-> <<>>, rpos |-> 0, cap |-> 0, out |-> <<>>, torn |-> FALSE, h |-> 0, acc |-> <<>>]
Only(s, bad) == [s |-> s, bad |-> bad]
\* a driver's own call panicked: a value was refused that has to be constructible
DriverProps(g) ==
    {"C10"} \cup
    CASE g \in {"p_codec", "p_names"} -> {"C14"} [] g \in {"p_meas", "p_bigmeas"} -> {"C14", "C17"}
      [] g \in {"p_store", "p_bigstore"} -> {"C15", "C22"} [] g \in {"p_chain", "p_bigchain"} -> {"C15", "C21"}
      [] g = "p_cursor" -> {"C22"} [] g = "p_der" -> {"C20"} [] g \in {"p_digest", "p_bigdig"} -> {"C23"}
      [] g = "p_nonce" -> {"C16"} [] g = "p_const" -> {"C19"} [] OTHER -> {}
Step(c, s, ev, k) ==
    LET e == ev[k] IN
    CASE e.k = "abort" -> Only(s, Flag(TRUE, "the driver could not go on", DriverProps(e.g)))
      [] e.k = "dec" -> Only(s, JudgeDec(c, e))
      [] e.k = "enc" -> Only(s, JudgeEnc(c, e))
      [] e.k = "name" -> Only(s, JudgeName(e))
      [] e.k = "str" -> Only(s, JudgeStr(e))
      [] e.k = "encgm" -> Only(s, JudgeEncGm(c, e))
      [] e.k = "tr" -> JudgeTr(c, s, e)
      [] e.k = "lim" -> Only(s, JudgeLim(c, e))
      [] e.k = "opq" -> Only(s, JudgeOpq(c, e))
      [] e.k = "cw" -> Only(s, JudgeChainWrite(c, e))
      [] e.k = "cp" -> Only(s, JudgeChainParse(c, e))
      [] e.k = "rnew" -> Only([s EXCEPT !.rb = B(e.in), !.rpos = 0], {})
      [] e.k = "r" -> JudgeRead(s, e)
      [] e.k = "wnew" -> Only([s EXCEPT !.cap = e.cap, !.out = <<>>, !.torn = FALSE], {})
      [] e.k = "w" -> JudgeWrite(s, e)
      [] e.k = "wend" -> Only(s, JudgeWriteEnd(s, e))
      [] e.k = "der" -> Only(s, JudgeDer(e))
      [] e.k = "ver" -> Only(s, JudgeVer(e))
      [] e.k = "dnew" -> Only([s EXCEPT !.h = e.h, !.acc = <<>>], {})
      [] e.k = "dupd" -> Only([s EXCEPT !.acc = @ \o B(e.in)], {})
      [] e.k \in {"dsup", "dalg", "dwhole", "dfin"} ->
            IF e.k = "dfin" /\ ~Assert(s.acc = B(e.all), "TOOL ERROR: pieces") THEN Only(s, {}) ELSE Only(s, JudgeDig(c, s, e))
      [] e.k = "nonce" -> Only(s, JudgeNonce(c, ev, k))
      [] e.k = "nend" -> Only(s, JudgeNonces(c, ev, e.chal, e.seen, B(e.drawn)))
      [] e.k = "const" -> Only(s, Flag(e.c # c.consts, "constants", {"C19"}))
      [] e.k = "conf" -> Only(s, JudgeConf(e))

Report(t, k, bad) == \A b \in bad : PrintT(<<"REJECT", t, k, b.a, b.p>>)
Init == tid \in 1..NT /\ l = 1 /\ st = Start
Next ==
    /\ l <= Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ LET r == Step(CfgOf[Traces[tid].cfg], st, Traces[tid].ev, l) IN st' = r.s /\ Report(tid, l, r.bad)
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
