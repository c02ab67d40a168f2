-------------------------------- MODULE Wire --------------------------------
(* The wire format of the SPDM messages this library exchanges: for every    *)
(* message a predicate-with-result `Parse*` on byte sequences and a function *)
(* `Enc*` back to bytes.  A byte sequence is a TLA+ sequence over 0..255 and *)
(* includes the two header bytes.  A flag word is the set of its bit         *)
(* numbers (TLC integers have 31 bits).                                      *)
(*                                                                           *)
(* `c` is the build configuration, a record with at least:                   *)
(*   nslots, chainMax, depth, trMax, opqN, opqMax, mbN, mbMax, nonceLen      *)
EXTENDS Naturals, Sequences, FiniteSets

(* ------------------------------ bytes ---------------------------------- *)
Byte == 0..255
ByteBits == [x \in 0..255 |-> {k \in 0..7 : (x \div (2^k)) % 2 = 1}]

Zeros(n) == [i \in 1..n |-> 0]
U16(b, i) == b[i] + 256 * b[i+1]
U24(b, i) == b[i] + 256 * b[i+1] + 65536 * b[i+2]
Le16(n) == << n % 256, (n \div 256) % 256 >>
Le24(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256 >>
Has(b, n) == Len(b) >= n
IsZero(b, i, n) == \A k \in i..(i+n-1) : b[k] = 0
Slice(b, i, n) == SubSeq(b, i, i+n-1)

(* n bytes from position i, little endian, as a set of bit numbers *)
BitsAt(b, i, n) == UNION { {8*j + k : k \in ByteBits[b[i+j]]} : j \in 0..(n-1) }
SumPow(S) ==           \* S \subseteq 0..7
    (IF 0 \in S THEN 1 ELSE 0) + (IF 1 \in S THEN 2 ELSE 0) + (IF 2 \in S THEN 4 ELSE 0) + (IF 3 \in S THEN 8 ELSE 0)
    + (IF 4 \in S THEN 16 ELSE 0) + (IF 5 \in S THEN 32 ELSE 0) + (IF 6 \in S THEN 64 ELSE 0) + (IF 7 \in S THEN 128 ELSE 0)
EncBits(S, n) == [j \in 1..n |-> SumPow({k \in 0..7 : 8*(j-1)+k \in S})]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Bad == [ok |-> FALSE]

(* ------------------------------ header --------------------------------- *)
(* A message has a two byte header and at least one byte after it; the      *)
(* version byte belongs to the message type.                                *)
GET_VERSION == 132         VERSION == 4
GET_CAPABILITIES == 225    CAPABILITIES == 97
NEGOTIATE_ALGORITHMS == 227  ALGORITHMS == 99
GET_DIGESTS == 129         DIGESTS == 1
GET_CERTIFICATE == 130     CERTIFICATE == 2
CHALLENGE == 131           CHALLENGE_AUTH == 3
GET_MEASUREMENTS == 224    MEASUREMENTS == 96
ERROR == 127
V10 == 16  V11 == 17  V12 == 18

VersionOf == [code \in {GET_VERSION, VERSION, GET_CAPABILITIES, CAPABILITIES,
                        NEGOTIATE_ALGORITHMS, ALGORITHMS, GET_DIGESTS, DIGESTS,
                        GET_CERTIFICATE, CERTIFICATE, CHALLENGE, CHALLENGE_AUTH,
                        GET_MEASUREMENTS, MEASUREMENTS, ERROR} |->
    CASE code \in {GET_VERSION, VERSION} -> V10
      [] code \in {GET_MEASUREMENTS, MEASUREMENTS, ERROR} -> V12
      [] OTHER -> V11]

(* "ok": a header of this type; "other": some other type; "bad" otherwise *)
Header(b, code) ==
    IF ~Has(b, 3) THEN "bad"
    ELSE IF b[2] # code THEN "other"
    ELSE IF b[1] # VersionOf[code] THEN "bad" ELSE "ok"

Hdr(code) == << VersionOf[code], code >>

(* ------------------------------ VERSION -------------------------------- *)
MaxVersions == 2
(* an entry is major, minor, update, alpha: a 16 bit word, 4 bits each *)
Entry(lo, hi) == << hi \div 16, hi % 16, lo \div 16, lo % 16 >>
EncEntry(e) == << e[4] + 16*e[3], e[2] + 16*e[1] >>
EntryGt(a, b) == \E i \in 1..4 : a[i] > b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
OurVersions == << <<1,0,0,0>>, <<1,1,0,0>> >>

ParseVersion(b) ==
    IF Header(b, VERSION) # "ok" \/ ~Has(b, 6) THEN Bad
    ELSE IF ~IsZero(b, 3, 3) \/ b[6] > MaxVersions \/ ~Has(b, 6 + 2*b[6]) THEN Bad
    ELSE [ok |-> TRUE, k |-> "VERSION",
          entries |-> [i \in 1..b[6] |-> Entry(b[5 + 2*i], b[6 + 2*i])]]

Flat(ss) == LET f[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE f[i-1] \o ss[i] IN f[Len(ss)]

EncVersion(m) ==
    Hdr(VERSION) \o Zeros(3) \o << Len(m.entries) >>
      \o Flat([i \in 1..Len(m.entries) |-> EncEntry(m.entries[i])])

ParseGetVersion(b) ==
    IF Header(b, GET_VERSION) # "ok" \/ ~Has(b, 4) THEN Bad
    ELSE IF ~IsZero(b, 3, 2) THEN Bad ELSE [ok |-> TRUE, k |-> "GET_VERSION"]
EncGetVersion(m) == Hdr(GET_VERSION) \o Zeros(2)

(* ---------------------------- CAPABILITIES ----------------------------- *)
CapBit(name) ==
    CASE name = "CERT_CAP" -> 1 [] name = "CHAL_CAP" -> 2 [] name = "ENCRYPT_CAP" -> 6
      [] name = "MAC_CAP" -> 7 [] name = "MUT_AUTH_CAP" -> 8 [] name = "KEY_EX_CAP" -> 9
      [] name = "KEY_UPD_CAP" -> 14
ReqKnown == {1, 2} \cup (6..16)
RspKnown == 0..16
CERT_CAP == 1  CHAL_CAP == 2  MUT_AUTH_CAP == 8

ParseCaps(b, code, known, name) ==
    IF Header(b, code) # "ok" \/ ~Has(b, 12) THEN Bad
    ELSE IF ~IsZero(b, 3, 3) \/ ~IsZero(b, 7, 2) THEN Bad
    ELSE LET f == BitsAt(b, 9, 4) IN
         IF ~(f \subseteq known) THEN Bad
         ELSE [ok |-> TRUE, k |-> name, ct |-> b[6], flags |-> f]
ParseGetCapabilities(b) == ParseCaps(b, GET_CAPABILITIES, ReqKnown, "GET_CAPABILITIES")
ParseCapabilities(b) == ParseCaps(b, CAPABILITIES, RspKnown, "CAPABILITIES")
EncCaps(m, code) == Hdr(code) \o Zeros(3) \o << m.ct >> \o Zeros(2) \o EncBits(m.flags, 4)
EncGetCapabilities(m) == EncCaps(m, GET_CAPABILITIES)
EncCapabilities(m) == EncCaps(m, CAPABILITIES)

(* ----------------------------- ALGORITHMS ------------------------------ *)
MaxStructs == 4
StructTypes == 2..5            \* DHE, AEAD, ReqBaseAsym, KeySchedule
StructKnown == [t \in StructTypes |->
    CASE t = 2 -> 0..5 [] t = 3 -> 0..2 [] t = 4 -> 0..8 [] t = 5 -> {0}]
AsymKnown == 0..8
HashKnown == 0..5
DigestSize(h) == CASE h \in {0,3} -> 32 [] h \in {1,4} -> 48 [] h \in {2,5} -> 64
SigSize(a) == CASE a \in {0,1} -> 256 [] a \in {2,3} -> 384 [] a \in {5,6} -> 512
                [] a = 4 -> 64 [] a = 7 -> 96 [] a = 8 -> 132

(* n algorithm structures starting at position i *)
RECURSIVE Structs(_, _, _, _)
Structs(b, i, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, s |-> acc, next |-> i]
    ELSE IF ~Has(b, i + 3) THEN Bad
    ELSE IF b[i] \notin StructTypes \/ b[i+1] \div 16 # 2 THEN Bad
    ELSE LET sel == BitsAt(b, i+2, 2)
             ext == 4 * (b[i+1] % 16)
         IN IF ~(sel \subseteq StructKnown[b[i]]) \/ ~Has(b, i + 3 + ext) THEN Bad
            ELSE Structs(b, i + 4 + ext, n - 1, Append(acc, [t |-> b[i], sel |-> sel]))
EncStructs(s) == Flat([i \in 1..Len(s) |-> << s[i].t, 32 >> \o EncBits(s[i].sel, 2)])

ParseNegotiateAlgorithms(b) ==
    IF Header(b, NEGOTIATE_ALGORITHMS) # "ok" \/ ~Has(b, 32) THEN Bad
    ELSE LET asym == BitsAt(b, 9, 4)
             hash == BitsAt(b, 13, 4)
             ext == 4 * (b[29] + b[30])
         IN IF \/ b[3] > MaxStructs \/ b[4] # 0 \/ U16(b, 5) > 128
               \/ b[7] > 1 \/ b[8] # 0
               \/ ~(asym \subseteq AsymKnown) \/ ~(hash \subseteq HashKnown)
               \/ ~IsZero(b, 17, 12) \/ ~IsZero(b, 31, 2)
               \/ ~Has(b, 32 + ext)
            THEN Bad
            ELSE LET st == Structs(b, 33 + ext, b[3], <<>>) IN
                 IF ~st.ok THEN Bad
                 ELSE [ok |-> TRUE, k |-> "NEGOTIATE_ALGORITHMS", mspec |-> b[7],
                       asym |-> asym, hash |-> hash, structs |-> st.s]
EncNegotiateAlgorithms(m) ==
    Hdr(NEGOTIATE_ALGORITHMS) \o << Len(m.structs), 0 >>
      \o Le16(32 + 4 * Len(m.structs)) \o << m.mspec, 0 >>
      \o EncBits(m.asym, 4) \o EncBits(m.hash, 4) \o Zeros(16) \o EncStructs(m.structs)

ParseAlgorithms(b) ==
    IF Header(b, ALGORITHMS) # "ok" \/ ~Has(b, 36) THEN Bad
    ELSE LET mhash == BitsAt(b, 9, 4)
             asym == BitsAt(b, 13, 4)
             hash == BitsAt(b, 17, 4)
         IN IF \/ b[3] > MaxStructs \/ b[4] # 0 \/ b[7] # 1 \/ b[8] # 0
               \/ ~(mhash \subseteq HashKnown) \/ Cardinality(mhash) # 1
               \/ ~(asym \subseteq AsymKnown) \/ Cardinality(asym) # 1
               \/ ~(hash \subseteq HashKnown) \/ Cardinality(hash) # 1
               \/ ~IsZero(b, 21, 16)
            THEN Bad
            ELSE LET st == Structs(b, 37, b[3], <<>>) IN
                 IF ~st.ok THEN Bad
                 ELSE IF \E i \in 1..Len(st.s) : Cardinality(st.s[i].sel) # 1 THEN Bad
                 ELSE [ok |-> TRUE, k |-> "ALGORITHMS", mspec |-> b[7], mhash |-> mhash,
                       asym |-> asym, hash |-> hash, structs |-> st.s]
EncAlgorithms(m) ==
    Hdr(ALGORITHMS) \o << Len(m.structs), 0 >>
      \o Le16(36 + 4 * Len(m.structs)) \o << m.mspec, 0 >>
      \o EncBits(m.mhash, 4) \o EncBits(m.asym, 4) \o EncBits(m.hash, 4)
      \o Zeros(16) \o EncStructs(m.structs)

(* ----------------------------- DIGESTS --------------------------------- *)
ParseGetDigests(b) ==
    IF Header(b, GET_DIGESTS) # "ok" \/ ~Has(b, 4) THEN Bad
    ELSE IF ~IsZero(b, 3, 2) THEN Bad ELSE [ok |-> TRUE, k |-> "GET_DIGESTS"]
EncGetDigests(m) == Hdr(GET_DIGESTS) \o Zeros(2)

(* The slots a mask announces, in slot order.  Bits beyond the configured    *)
(* number of slots announce nothing.                                         *)
MaskSlots(c, mask) == ByteBits[mask] \cap (0..(c.nslots - 1))
Rank(S, x) == Cardinality({y \in S : y < x})
(* ds: the size of a digest under the negotiated hash *)
ParseDigests(c, b, ds) ==
    IF Header(b, DIGESTS) # "ok" \/ ~Has(b, 4) THEN Bad
    ELSE LET sl == MaskSlots(c, b[4]) IN
         IF b[3] # 0 \/ ~Has(b, 4 + ds * Cardinality(sl)) THEN Bad
         ELSE [ok |-> TRUE, k |-> "DIGESTS", mask |-> b[4],
               digests |-> [s \in 0..(c.nslots-1) |->
                    IF s \in sl THEN Slice(b, 5 + ds * Rank(sl, s), ds) ELSE <<>>]]
EncDigests(c, m) ==
    LET sl == MaskSlots(c, m.mask) IN
    Hdr(DIGESTS) \o << 0, m.mask >>
      \o Flat([i \in 1..Cardinality(sl) |->
                m.digests[CHOOSE s \in sl : Rank(sl, s) = i - 1]])

(* ---------------------------- CERTIFICATE ------------------------------ *)
ParseGetCertificate(b) ==
    IF Header(b, GET_CERTIFICATE) # "ok" \/ ~Has(b, 8) THEN Bad
    ELSE IF b[4] # 0 THEN Bad
    ELSE [ok |-> TRUE, k |-> "GET_CERTIFICATE", slot |-> b[3], off |-> U16(b, 5), len |-> U16(b, 7)]
EncGetCertificate(m) == Hdr(GET_CERTIFICATE) \o << m.slot, 0 >> \o Le16(m.off) \o Le16(m.len)

ParseCertificate(c, b) ==
    IF Header(b, CERTIFICATE) # "ok" \/ ~Has(b, 8) THEN Bad
    ELSE LET n == U16(b, 5) IN
         IF b[4] # 0 \/ n > c.chainMax \/ ~Has(b, 8 + n) THEN Bad
         ELSE [ok |-> TRUE, k |-> "CERTIFICATE", slot |-> b[3], rem |-> U16(b, 7),
               chain |-> Slice(b, 9, n)]
EncCertificate(m) ==
    Hdr(CERTIFICATE) \o << m.slot, 0 >> \o Le16(Len(m.chain)) \o Le16(m.rem) \o m.chain

(* -------------------- certificate chain container ---------------------- *)
(* total length, 2 reserved bytes, root digest, then DER certificates: the   *)
(* intermediates in order, the leaf last and exactly filling the container.  *)
EncChain(root, inter, leaf) ==
    Le16(4 + Len(root) + Len(Flat(inter)) + Len(leaf)) \o Zeros(2) \o root \o Flat(inter) \o leaf

(* The whole length of the DER sequence that starts at i, or 0 *)
DerLen(b, i) ==
    IF ~Has(b, i + 1) \/ b[i] # 48 THEN 0
    ELSE CASE b[i+1] < 128 -> 2 + b[i+1]
           [] b[i+1] = 129 -> IF ~Has(b, i+2) THEN 0 ELSE IF b[i+2] < 128 THEN 0 ELSE 3 + b[i+2]
           [] b[i+1] = 130 -> IF ~Has(b, i+3) THEN 0
                              ELSE LET n == 256 * b[i+2] + b[i+3] IN IF n < 256 THEN 0 ELSE 4 + n
           [] OTHER -> 0
RECURSIVE Certs(_, _, _, _)
Certs(c, b, i, acc) ==
    LET n == DerLen(b, i) IN
    IF n = 0 \/ ~Has(b, i + n - 1) THEN Bad
    ELSE IF i + n - 1 = Len(b) THEN [ok |-> TRUE, inter |-> acc, leaf |-> Slice(b, i, n)]
    ELSE IF Len(acc) = c.depth THEN Bad
    ELSE Certs(c, b, i + n, Append(acc, Slice(b, i, n)))
ParseChain(c, b, ds) ==
    IF ~Has(b, 4 + ds) THEN Bad
    ELSE IF U16(b, 1) # Len(b) \/ ~IsZero(b, 3, 2) THEN Bad
    ELSE LET r == Certs(c, b, 5 + ds, <<>>) IN
         IF ~r.ok THEN Bad
         ELSE [ok |-> TRUE, root |-> Slice(b, 5, ds), inter |-> r.inter, leaf |-> r.leaf]

(* ------------------------------ opaque --------------------------------- *)
VendorLen == [r \in 0..8 |-> CASE r = 0 -> 0 [] r \in {4, 5} -> 4 [] OTHER -> 2]
Pad4(n) == (4 - (n % 4)) % 4
RECURSIVE Elements(_, _, _, _, _)
Elements(c, b, i, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, els |-> acc, next |-> i]
    ELSE IF ~Has(b, i + 1) THEN Bad
    ELSE IF b[i] \notin 0..8 THEN Bad
    ELSE LET vl == VendorLen[b[i]] IN
         IF b[i+1] # vl \/ ~Has(b, i + 3 + vl) THEN Bad
         ELSE LET dl == U16(b, i + 2 + vl)
                  raw == 4 + vl + dl
              IN IF dl > c.opqMax \/ ~Has(b, i + raw + Pad4(raw) - 1) THEN Bad
                 ELSE IF ~IsZero(b, i + raw, Pad4(raw)) THEN Bad
                 ELSE Elements(c, b, i + raw + Pad4(raw), n - 1,
                        Append(acc, [reg |-> b[i], vid |-> Slice(b, i+2, vl),
                                     data |-> Slice(b, i + 4 + vl, dl)]))
ParseOpaque(c, b, i) ==
    IF ~Has(b, i + 3) THEN Bad
    ELSE IF b[i] > c.opqN \/ ~IsZero(b, i+1, 3) THEN Bad
    ELSE Elements(c, b, i + 4, b[i], <<>>)
EncElement(e) ==
    LET raw == 4 + Len(e.vid) + Len(e.data) IN
    << e.reg, Len(e.vid) >> \o e.vid \o Le16(Len(e.data)) \o e.data \o Zeros(Pad4(raw))
EncOpaque(els) == << Len(els) >> \o Zeros(3) \o Flat([i \in 1..Len(els) |-> EncElement(els[i])])

(* ----------------------------- CHALLENGE ------------------------------- *)
ParseChallenge(c, b) ==
    IF Header(b, CHALLENGE) # "ok" \/ ~Has(b, 4 + c.nonceLen) THEN Bad
    ELSE IF b[4] \notin {0, 1, 255} THEN Bad
    ELSE [ok |-> TRUE, k |-> "CHALLENGE", slot |-> b[3], mht |-> b[4],
          nonce |-> Slice(b, 5, c.nonceLen)]
EncChallenge(m) == Hdr(CHALLENGE) \o << m.slot, m.mht >> \o m.nonce

MaxOpaque == 1024
(* ds, ss: digest and signature size under the negotiated algorithms.  The   *)
(* signature is the `ss` bytes after the opaque data.                        *)
ParseChallengeAuth(c, b, ds, ss) ==
    LET po == 5 + 2*ds + c.nonceLen IN       \* position of the opaque length
    IF Header(b, CHALLENGE_AUTH) # "ok" \/ ~Has(b, po + 1) THEN Bad
    ELSE IF b[3] % 16 >= c.nslots \/ U16(b, po) > MaxOpaque THEN Bad
    ELSE LET o == ParseOpaque(c, b, po + 2) IN
         IF ~o.ok THEN Bad
         ELSE IF ~Has(b, o.next + ss - 1) THEN Bad
         ELSE [ok |-> TRUE, k |-> "CHALLENGE_AUTH", slot |-> b[3] % 16, mut |-> b[3] >= 128,
               mask |-> b[4], digest |-> Slice(b, 5, ds), nonce |-> Slice(b, 5 + ds, c.nonceLen),
               meas |-> Slice(b, 5 + ds + c.nonceLen, ds), opaque |-> o.els,
               sig |-> Slice(b, o.next, ss)]
EncChallengeAuthNoSig(m) ==
    Hdr(CHALLENGE_AUTH) \o << m.slot + (IF m.mut THEN 128 ELSE 0), m.mask >>
      \o m.digest \o m.nonce \o m.meas
      \o Le16(Len(EncOpaque(m.opaque))) \o EncOpaque(m.opaque)
EncChallengeAuth(m) == EncChallengeAuthNoSig(m) \o m.sig

(* ------------------------------- ERROR --------------------------------- *)
PlainErrors == {1, 3, 4, 5, 6, 8, 9, 10, 11, 12, 14, 16, 65, 67}
ParseError(b) ==
    IF Header(b, ERROR) # "ok" \/ ~Has(b, 4) THEN Bad
    ELSE LET e(x) == [ok |-> TRUE, k |-> "ERROR", code |-> b[3], data |-> b[4], ext |-> x] IN
         CASE b[3] \in PlainErrors -> [e(<<>>) EXCEPT !.data = 0]
           [] b[3] = 7 -> e(<<>>)
           [] b[3] = 13 -> IF Has(b, 8) THEN [e(Slice(b, 5, 4)) EXCEPT !.data = 0] ELSE Bad
           [] b[3] = 15 -> IF Has(b, 5) THEN [e(Slice(b, 5, 1)) EXCEPT !.data = 0] ELSE Bad
           [] b[3] = 66 -> IF Has(b, 8) THEN [e(Slice(b, 5, 4)) EXCEPT !.data = 0] ELSE Bad
           [] b[3] = 255 ->
                IF b[4] \notin 0..8 \/ ~Has(b, 5) THEN Bad
                ELSE IF b[5] \notin {0, 2, 4} \/ ~Has(b, 5 + b[5]) THEN Bad
                ELSE e(Slice(b, 5, 1 + b[5]))
           [] OTHER -> Bad
EncError(m) == Hdr(ERROR) \o << m.code, m.data >> \o m.ext
(* What a peer puts on the wire when it fails: exactly one of the above *)
WellFormedError(b) == LET p == ParseError(b) IN IF p.ok THEN EncError(p) = b ELSE FALSE
MaxErrorSize == 8

(* --------------------------- MEASUREMENTS ------------------------------ *)
ParseGetMeasurements(c, b) ==
    IF Header(b, GET_MEASUREMENTS) # "ok" \/ ~Has(b, 4) THEN Bad
    ELSE IF b[3] > 3 THEN Bad
    ELSE IF b[3] % 2 = 0 THEN
         [ok |-> TRUE, k |-> "GET_MEASUREMENTS", attr |-> b[3], index |-> b[4],
          nonce |-> <<>>, slot |-> <<>>]
    ELSE IF ~Has(b, 5 + c.nonceLen) THEN Bad
    ELSE IF b[5 + c.nonceLen] >= c.nslots THEN Bad
    ELSE [ok |-> TRUE, k |-> "GET_MEASUREMENTS", attr |-> b[3], index |-> b[4],
          nonce |-> Slice(b, 5, c.nonceLen), slot |-> << b[5 + c.nonceLen] >>]
EncGetMeasurements(m) == Hdr(GET_MEASUREMENTS) \o << m.attr, m.index >> \o m.nonce \o m.slot

RECURSIVE Blocks(_, _, _, _, _)
Blocks(c, b, i, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, bl |-> acc, next |-> i]
    ELSE IF ~Has(b, i + 6) THEN Bad
    ELSE LET sz == U16(b, i + 2)
             ty == b[i+4] % 128
             raw == b[i+4] >= 128
             vl == U16(b, i + 5)
         IN IF \/ b[i+1] # 1 \/ ty > 7
               \/ (raw /\ vl > c.mbMax) \/ (~raw /\ vl > c.maxDigest)
               \/ sz # 3 + vl \/ ~Has(b, i + 6 + vl)
            THEN Bad
            ELSE Blocks(c, b, i + 7 + vl, n - 1,
                   Append(acc, [index |-> b[i], ty |-> b[i+4], val |-> Slice(b, i + 7, vl)]))
EncBlock(x) == << x.index, 1 >> \o Le16(3 + Len(x.val)) \o << x.ty >> \o Le16(Len(x.val)) \o x.val

(* sigreq: whether the request asked for a signature *)
ParseMeasurements(c, b, sigreq, ss) ==
    IF Header(b, MEASUREMENTS) # "ok" \/ ~Has(b, 8) THEN Bad
    ELSE IF \/ b[3] > c.mbN \/ b[4] % 16 >= c.nslots \/ (b[4] \div 16) % 4 = 3
            \/ b[5] > c.mbN
         THEN Bad
    ELSE LET bs == Blocks(c, b, 9, b[5], <<>>) IN
         IF ~bs.ok THEN Bad
         ELSE IF U24(b, 6) # bs.next - 9 \/ ~Has(b, bs.next + c.nonceLen + 1) THEN Bad
         ELSE IF U16(b, bs.next + c.nonceLen) > MaxOpaque THEN Bad
         ELSE LET o == ParseOpaque(c, b, bs.next + c.nonceLen + 2) IN
              IF ~o.ok THEN Bad
              ELSE IF sigreq /\ ~Has(b, o.next + ss - 1) THEN Bad
              ELSE [ok |-> TRUE, k |-> "MEASUREMENTS", total |-> b[3],
                    slot |-> b[4] % 16, changed |-> (b[4] \div 16) % 4,
                    blocks |-> bs.bl, nonce |-> Slice(b, bs.next, c.nonceLen),
                    opaque |-> o.els,
                    sig |-> IF sigreq THEN Slice(b, o.next, ss) ELSE <<>>]
EncMeasurements(m) ==
    LET rec == Flat([i \in 1..Len(m.blocks) |-> EncBlock(m.blocks[i])]) IN
    Hdr(MEASUREMENTS) \o << m.total, 16 * m.changed + (IF m.sig = <<>> THEN 0 ELSE m.slot),
                            Len(m.blocks) >>
      \o Le24(Len(rec)) \o rec \o m.nonce
      \o Le16(Len(EncOpaque(m.opaque))) \o EncOpaque(m.opaque) \o m.sig

(* -------------------------- DER signatures ----------------------------- *)
(* A raw signature is two integers of equal size, most significant byte      *)
(* first; its DER encoding is the sequence of the two.                       *)
RECURSIVE Strip(_)
Strip(b) == IF Len(b) > 1 /\ b[1] = 0 THEN Strip(Tail(b)) ELSE b
DerSize(n) == IF n < 128 THEN << n >> ELSE IF n < 256 THEN << 129, n >> ELSE << 130, n \div 256, n % 256 >>
Tlv(tag, v) == << tag >> \o DerSize(Len(v)) \o v
DerInt(b) == LET v == Strip(b) IN Tlv(2, IF v[1] >= 128 THEN << 0 >> \o v ELSE v)
DerSig(b) ==
    LET h == Len(b) \div 2 IN Tlv(48, DerInt(SubSeq(b, 1, h)) \o DerInt(SubSeq(b, h + 1, Len(b))))

(* ----------------------- requests and responses ------------------------ *)
(* Any byte sequence as a request: one well formed message, or "malformed"  *)
Malformed == [ok |-> FALSE, k |-> "malformed"]
ParseRequest(c, b) ==
    IF ~Has(b, 3) THEN Malformed
    ELSE LET p == CASE b[2] = GET_VERSION -> ParseGetVersion(b)
                    [] b[2] = GET_CAPABILITIES -> ParseGetCapabilities(b)
                    [] b[2] = NEGOTIATE_ALGORITHMS -> ParseNegotiateAlgorithms(b)
                    [] b[2] = GET_DIGESTS -> ParseGetDigests(b)
                    [] b[2] = GET_CERTIFICATE -> ParseGetCertificate(b)
                    [] b[2] = CHALLENGE -> ParseChallenge(c, b)
                    [] OTHER -> Bad
         IN IF p.ok THEN p ELSE Malformed

EncRequest(m) ==
    CASE m.k = "GET_VERSION" -> EncGetVersion(m)
      [] m.k = "GET_CAPABILITIES" -> EncGetCapabilities(m)
      [] m.k = "NEGOTIATE_ALGORITHMS" -> EncNegotiateAlgorithms(m)
      [] m.k = "GET_DIGESTS" -> EncGetDigests(m)
      [] m.k = "GET_CERTIFICATE" -> EncGetCertificate(m)
      [] m.k = "CHALLENGE" -> EncChallenge(m)

(* ds, ss: sizes under what the requester negotiated (0 before that) *)
ParseResponse(c, b, ds, ss) ==
    IF ~Has(b, 3) THEN Malformed
    ELSE LET p == CASE b[2] = VERSION -> ParseVersion(b)
                    [] b[2] = CAPABILITIES -> ParseCapabilities(b)
                    [] b[2] = ALGORITHMS -> ParseAlgorithms(b)
                    [] b[2] = DIGESTS -> ParseDigests(c, b, ds)
                    [] b[2] = CERTIFICATE -> ParseCertificate(c, b)
                    [] b[2] = CHALLENGE_AUTH -> ParseChallengeAuth(c, b, ds, ss)
                    [] OTHER -> Bad
         IN IF p.ok THEN p ELSE Malformed

EncResponse(c, m) ==
    CASE m.k = "VERSION" -> EncVersion(m)
      [] m.k = "CAPABILITIES" -> EncCapabilities(m)
      [] m.k = "ALGORITHMS" -> EncAlgorithms(m)
      [] m.k = "DIGESTS" -> EncDigests(c, m)
      [] m.k = "CERTIFICATE" -> EncCertificate(m)
      [] m.k = "CHALLENGE_AUTH" -> EncChallengeAuth(m)
=============================================================================
