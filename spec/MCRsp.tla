-------------------------------- MODULE MCRsp --------------------------------
(* The responder against anybody: every sequence of requests from a finite   *)
(* alphabet of byte strings (well formed ones of every kind, in every shape  *)
(* that matters, and malformed ones), buffers that are large or too small,   *)
(* signing keys that work or fail, resets, for several provisionings.        *)
(*                                                                           *)
(* Emit = FALSE: the state space up to Depth requests; the properties below. *)
(* Emit = TRUE: the same transitions, as paths to be replayed into the real  *)
(* responder; a path is remembered once per responder state and last Mem     *)
(* requests (the view), and every letter of the alphabet is tried there.     *)
EXTENDS Core, TLC, Json, IOUtils
CONSTANTS Emit, Depth, Mem

SetOf(q) == {q[i] : i \in 1..Len(q)}
\* What does not change is computed once and kept in TLC's registers.
c == TLCGet(1)
Raw == JsonDeserialize(IOEnv.CFG)
ASSUME TLCSet(1, TLCEval([nslots |-> Raw.nslots, chainMax |-> Raw.chainMax, depth |-> Raw.depth, trMax |-> Raw.trMax,
      opqN |-> Raw.opqN, opqMax |-> Raw.opqMax, mbN |-> Raw.mbN, mbMax |-> Raw.mbMax,
      nonceLen |-> Raw.nonceLen, caps |-> SetOf(Raw.caps), asyms |-> SetOf(Raw.asyms),
      crypto |-> Raw.crypto, maxDigest |-> Raw.maxDigest]))

(******************************* provisionings ******************************)
Last == c.nslots - 1
Provs == << {0}, {x \in 0..Last : x % 2 = 0}, 0..Last, {} >>
Slots(p) == [s \in 0..Last |->
    IF s \in Provs[p] THEN [has |-> TRUE, chain |-> << s >>, dig |-> [h \in 1..3 |-> << h, s >>]]
    ELSE [has |-> FALSE, chain |-> <<>>, dig |-> <<>>]]

(******************************** alphabet **********************************)
Big == 70000
Nonce == [i \in 1..c.nonceLen |-> i]
Caps == c.caps \cap ReqKnown
Map(f(_), q) == [i \in 1..Len(q) |-> f(q[i])]
St1 == << [t |-> 2, sel |-> {1, 4}], [t |-> 3, sel |-> {1, 2}], [t |-> 4, sel |-> {4, 7}], [t |-> 5, sel |-> {0}] >>
CapsMsg(f) == EncGetCapabilities([ct |-> 12, flags |-> f])
Neg(a, h, s) == EncNegotiateAlgorithms([mspec |-> 1, asym |-> a, hash |-> h, structs |-> s])
Neg0(h, s) == EncNegotiateAlgorithms([mspec |-> 0, asym |-> {4}, hash |-> h, structs |-> s])
Cert(s) == EncGetCertificate([slot |-> s, off |-> 0, len |-> 1024])
Chal(s) == EncChallenge([slot |-> s, mht |-> 0, nonce |-> Nonce])
Served ==
    << EncGetVersion(0), CapsMsg(Caps), CapsMsg(Caps \ {MUT_AUTH_CAP}), CapsMsg({}), CapsMsg(ReqKnown),
       Neg({4}, {0}, St1), Neg({4}, {1}, <<>>), Neg({4}, {2, 4}, SubSeq(St1, 2, 3)), Neg({3, 4, 8}, {0, 1, 2, 3}, << St1[4], St1[1] >>),
       EncGetDigests(0), Cert(0), Chal(0) >>
    \o Flat([i \in 1..Last |-> IF i \in {1, Last} THEN << Cert(i), Chal(i) >> ELSE <<>>])
    \o << EncChallenge([slot |-> 0, mht |-> 255, nonce |-> Zeros(c.nonceLen)]),
          EncGetCertificate([slot |-> 0, off |-> 7, len |-> 3]), EncGetVersion(0) \o << 1, 2, 3 >>, EncGetDigests(0) \o Zeros(9) >>
Refused ==
    << Neg({}, {0}, <<>>), Neg({4}, {}, <<>>), Neg({3}, {0}, St1), Neg({4}, {3}, St1), Neg({4}, {5}, <<>>),
       Neg({4}, {0}, << [t |-> 2, sel |-> {}] >>), Neg0({0}, <<>>),
       Cert(c.nslots), Cert(255), Chal(c.nslots), Chal(255), Chal(128),
       EncChallenge([slot |-> 0, mht |-> 2, nonce |-> Nonce]),
       SubSeq(Chal(0), 1, Len(Chal(0)) - 1), SubSeq(Cert(0), 1, 7), SubSeq(CapsMsg(Caps), 1, 11), SubSeq(Neg({4}, {0}, St1), 1, 47),
       CapsMsg({0}), CapsMsg({3}), CapsMsg({5}), CapsMsg({17}), CapsMsg({31}),
       <<>>, << 16 >>, << 16, GET_VERSION >>, << 16, GET_VERSION, 0 >>, << 17, GET_VERSION, 0, 0 >>, << 16, GET_VERSION, 1, 0 >>,
       << 16, GET_VERSION, 0, 1 >>, << 16, GET_DIGESTS, 0, 0 >>, << 17, GET_DIGESTS, 1, 0 >>, << 18, GET_DIGESTS, 0, 0 >>,
       << 16, 0, 0, 0 >>, << 17, 255, 0, 0 >>, << 18, ERROR, 1, 0 >>, << 17, ERROR, 1, 0 >>, << 17, 134, 0, 0 >>,
       << 18, GET_MEASUREMENTS, 0, 255 >>, << 17, GET_MEASUREMENTS, 0, 0, 0 >>,
       EncVersion([entries |-> OurVersions]), EncCapabilities([ct |-> 12, flags |-> c.caps]),
       EncAlgorithms([mspec |-> 1, mhash |-> {0}, asym |-> {4}, hash |-> {0}, structs |-> <<>>]),
       << 17, DIGESTS, 0, 0 >>, EncCertificate([slot |-> 0, rem |-> 0, chain |-> << 1 >>]) >>
Letter(b) == [b |-> b, cap |-> Big, f |-> {}]
Tight == << [b |-> EncGetVersion(0), cap |-> 3, f |-> {}], [b |-> Served[2], cap |-> 0, f |-> {}], [b |-> Served[6], cap |-> 4, f |-> {}],
            [b |-> EncGetDigests(0), cap |-> 3, f |-> {}], [b |-> Cert(0), cap |-> 7, f |-> {}], [b |-> Chal(0), cap |-> 99, f |-> {}] >>
Failing == << [b |-> Chal(0), cap |-> Big, f |-> {0}], [b |-> Chal(Last), cap |-> Big, f |-> 0..Last], [b |-> Chal(0), cap |-> Big, f |-> 1..Last] >>
ASSUME TLCSet(2, TLCEval(Map(Letter, Served) \o Map(Letter, Refused) \o Tight \o Failing))
Letters == TLCGet(2)
NL == Len(Letters)
ASSUME TLCSet(3, TLCEval([i \in 1..NL |-> ParseRequest(c, Letters[i].b)]))
Parsed == TLCGet(3)
RESET == 0

ASSUME Emit => JsonSerialize(IOEnv.OUT, [letters |-> Letters, provs |-> Provs])

(********************************* steps ************************************)
VARIABLES p, rs, tr, why, sg, path, resets, n
vars == <<p, rs, tr, why, sg, path, resets, n>>

Init == p \in 1..Len(Provs) /\ rs = RspInit /\ tr = <<>> /\ why = "" /\ sg = <<>> /\ path = <<>> /\ resets = 0 /\ n = 0

\* with a buffer that is smaller than any response
Tiny(i, r) == IF r.ok /\ Letters[i].cap < Big THEN Refuse("buf") ELSE r
Exchange(r, m) == [req |-> m, rsp |-> r.m]
Request(i) ==
    LET m == Parsed[i]
        signOk == IF m.k = "CHALLENGE" THEN m.slot \notin Letters[i].f ELSE TRUE
        r == Tiny(i, RspStep(c, Slots(p), rs, m, Nonce, signOk))
    IN /\ (IF rs.ph = "Error" THEN i = 1 ELSE TRUE)
       /\ n < Depth
       /\ n' = n + 1
       /\ rs' = IF r.ok THEN r.st ELSE RspError(rs)
       /\ tr' = IF ~r.ok THEN tr ELSE IF r.reset THEN << Exchange(r, m) >> ELSE Append(tr, Exchange(r, m))
       /\ why' = IF r.ok THEN "" ELSE r.why
       /\ sg' = IF r.ok /\ m.k = "CHALLENGE" THEN Append(sg, [key |-> m.slot, over |-> tr', m |-> r.m]) ELSE sg
       /\ UNCHANGED <<p, resets>>
       /\ path' = IF Emit THEN Append(path, i) ELSE path
       /\ Emit => PrintT(<<"B", p, path', IF r.ok THEN 1 ELSE 0>>)
Reset ==
    /\ resets < 1 /\ n > 0 /\ n < Depth
    /\ resets' = resets + 1 /\ n' = n + 1 /\ rs' = RspInit /\ tr' = <<>> /\ why' = ""
    /\ path' = IF Emit THEN Append(path, RESET) ELSE path
    /\ Emit => PrintT(<<"B", p, path', 1>>)
    /\ UNCHANGED <<p, sg>>
Next == Reset \/ \E i \in 1..NL : Request(i)
Spec == Init /\ [][Next]_vars

Tail2(q) == IF Len(q) <= Mem THEN q ELSE SubSeq(q, Len(q) - Mem + 1, Len(q))
View == IF Emit THEN <<p, rs, Tail2(path), resets, n = Depth>> ELSE <<p, rs, tr, why, sg, resets, n>>

(******************************* properties *********************************)
TypeOk == rs.ph \in RspPhases /\ (rs.ph = "Error") = (why # "")

(* C06: what the responder is depends on the exchanges since GET_VERSION     *)
(* only: a new responder that is given them is the same and answers alike.   *)
RECURSIVE Replay(_, _)
Replay(st, q) ==
    IF q = <<>> THEN [st |-> st, ok |-> TRUE]
    ELSE LET r == RspStep(c, Slots(p), st, Head(q).req, Nonce, TRUE) IN
         IF ~r.ok \/ r.m # Head(q).rsp THEN [st |-> st, ok |-> FALSE] ELSE Replay(r.st, Tail(q))
C06_HistoryFree == rs.ph # "Error" => LET x == Replay(RspInit, tr) IN x.ok /\ x.st = rs

(* C03: the exchanges since GET_VERSION are a word of the protocol, and the  *)
(* phase is the one that the word leads to.                                  *)
Pair == [k \in {"GET_VERSION", "GET_CAPABILITIES", "NEGOTIATE_ALGORITHMS", "GET_DIGESTS", "GET_CERTIFICATE", "CHALLENGE"} |->
    CASE k = "GET_VERSION" -> "VERSION" [] k = "GET_CAPABILITIES" -> "CAPABILITIES" [] k = "NEGOTIATE_ALGORITHMS" -> "ALGORITHMS"
      [] k = "GET_DIGESTS" -> "DIGESTS" [] k = "GET_CERTIFICATE" -> "CERTIFICATE" [] k = "CHALLENGE" -> "CHALLENGE_AUTH"]
After == [a \in {"Version", "Capabilities", "Algorithms", "IdAuth", "Challenge"} |->
    CASE a = "Version" -> {<<"GET_VERSION", "Capabilities">>}
      [] a = "Capabilities" -> {<<"GET_CAPABILITIES", "Algorithms">>}
      [] a = "Algorithms" -> {<<"NEGOTIATE_ALGORITHMS", "IdAuth">>}
      [] a = "IdAuth" -> {<<"GET_DIGESTS", "IdAuth">>, <<"GET_CERTIFICATE", "Challenge">>}
      [] a = "Challenge" -> {<<"CHALLENGE", "Challenge">>}]
RECURSIVE Lead(_, _)
Lead(a, q) ==
    IF q = <<>> THEN a
    ELSE LET s == {x \in After[a] : x[1] = Head(q).req.k} IN
         IF s = {} \/ Head(q).rsp.k # Pair[Head(q).req.k] THEN "none" ELSE Lead((CHOOSE x \in s : TRUE)[2], Tail(q))
C03_Order == LET a == Lead("Version", tr) IN a # "none" /\ (rs.ph # "Error" => a = rs.ph)

(* C05: every signature is by the challenged slot's key, over everything up  *)
(* to it, and the message names that slot, the provisioned ones and the      *)
(* digest of its chain under the hash negotiated                             *)
Negotiated(q) == LET i == CHOOSE j \in 1..Len(q) : q[j].rsp.k = "ALGORITHMS" IN q[i].rsp
Told(q) == LET i == CHOOSE j \in 1..Len(q) : q[j].req.k = "GET_CAPABILITIES" IN q[i].req.flags
C05_Attests == \A i \in 1..Len(sg) :
    LET a == sg[i]  q == a.over IN
    /\ a.m.slot = q[Len(q)].req.slot /\ a.key = a.m.slot /\ a.key \in Provs[p]
    /\ q[Len(q)].rsp = a.m
    /\ ByteBits[a.m.mask] = Provs[p]
    /\ a.m.digest = Slots(p)[a.key].dig[MinOf(Negotiated(q).hash) + 1]
    /\ a.m.mut <=> MUT_AUTH_CAP \in Told(q) /\ MUT_AUTH_CAP \in c.caps
    /\ \E j \in 1..Len(q) : q[j].rsp.k = "CERTIFICATE"

(* C07: only a reset ends the error phase, and nothing is recorded in it     *)
C07_Terminal == [][rs.ph = "Error" => IF resets' # resets THEN rs' = RspInit ELSE rs' = rs /\ tr' = tr /\ sg' = sg]_vars

(* C08 *)
C08_Selects == \A j \in 1..Len(tr) : tr[j].rsp.k = "ALGORITHMS" =>
    LET o == tr[j].req  a == tr[j].rsp IN
    /\ Cardinality(a.asym) = 1 /\ a.asym \subseteq o.asym \cap c.asyms
    /\ Cardinality(a.hash) = 1 /\ a.hash \subseteq o.hash \cap Hashes(c)
    /\ a.mspec = o.mspec
    /\ Len(a.structs) = Len(o.structs)
    /\ \A i \in 1..Len(o.structs) : a.structs[i].t = o.structs[i].t /\ Cardinality(a.structs[i].sel) = 1
                                    /\ a.structs[i].sel \subseteq o.structs[i].sel

(* C09, C12, C18 *)
C09_Versions == \A j \in 1..Len(tr) : tr[j].rsp.k = "VERSION" => tr[j].rsp.entries = OurVersions
C12_Identity == \A j \in 1..Len(tr) :
    /\ tr[j].rsp.k = "DIGESTS" =>
         /\ ByteBits[tr[j].rsp.mask] = Provs[p]
         /\ \A s \in Provs[p] : tr[j].rsp.digests[s] = Slots(p)[s].dig[MinOf(Negotiated(tr).hash) + 1]
    /\ tr[j].rsp.k = "CERTIFICATE" =>
         /\ tr[j].rsp.slot = tr[j].req.slot /\ tr[j].rsp.chain = Slots(p)[tr[j].req.slot].chain
C18_Honoured == \A j \in 1..Len(tr) :
    /\ tr[j].rsp.k \in {"DIGESTS", "CERTIFICATE"} => CERT_CAP \in c.caps
    /\ tr[j].rsp.k = "CHALLENGE_AUTH" => CHAL_CAP \in c.caps
    /\ tr[j].rsp.k = "CAPABILITIES" => tr[j].rsp.flags = c.caps

(* C14: whatever is served is a message whose encoding decodes to itself     *)
EncAny(m) == IF m.k = "CHALLENGE_AUTH" THEN EncChallengeAuthNoSig(m) ELSE EncResponse(c, m)
C14_Decodes == \A j \in 1..Len(tr) :
    tr[j].rsp.k \in {"VERSION", "CAPABILITIES", "CERTIFICATE"} \/ (tr[j].rsp.k = "ALGORITHMS" /\ tr[j].rsp.mspec = 1) =>
        LET x == ParseResponse(c, EncAny(tr[j].rsp), 0, 0) IN x.ok /\ \A f \in DOMAIN tr[j].rsp : x[f] = tr[j].rsp[f]
=============================================================================
