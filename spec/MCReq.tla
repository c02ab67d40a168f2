-------------------------------- MODULE MCReq --------------------------------
(* The requester against anybody: it writes the request of its phase and is  *)
(* given any response of a finite alphabet.  What a response contains that   *)
(* depends on cryptography is symbolic here (a chain is its name, a digest   *)
(* the pair of hash and chain, a signature who made it over what) and made   *)
(* real when a path is replayed.                                             *)
(* Emit as in MCRsp.                                                         *)
EXTENDS Core, TLC, Json, IOUtils
CONSTANTS Emit, Depth, Mem

SetOf(q) == {q[i] : i \in 1..Len(q)}
c == TLCGet(1)
Raw == JsonDeserialize(IOEnv.CFG)
ASSUME TLCSet(1, TLCEval([nslots |-> Raw.nslots, chainMax |-> Raw.chainMax, depth |-> Raw.depth, trMax |-> Raw.trMax,
      opqN |-> Raw.opqN, opqMax |-> Raw.opqMax, mbN |-> Raw.mbN, mbMax |-> Raw.mbMax,
      nonceLen |-> Raw.nonceLen, caps |-> SetOf(Raw.caps), asyms |-> SetOf(Raw.asyms),
      crypto |-> Raw.crypto, maxDigest |-> Raw.maxDigest]))

(******************************** alphabet **********************************)
Map(f(_), q) == [i \in 1..Len(q) |-> f(q[i])]
L0 == [k |-> "", b |-> <<>>, slot |-> 0, mask |-> 0, ch |-> "", good |-> TRUE, mut |-> FALSE, dig |-> "", by |-> "", over |-> "", opq |-> 0]
Bytes(b) == [L0 EXCEPT !.k = "raw", !.b = b]
Versions(es) == Bytes(EncVersion([entries |-> es]))
Caps(f) == Bytes(EncCapabilities([ct |-> 12, flags |-> f]))
One(t) == [t |-> t, sel |-> {CASE t = 2 -> 4 [] t = 3 -> 1 [] t = 4 -> 4 [] t = 5 -> 0}]
Algs(ms, mh, a, h, s) == Bytes(EncAlgorithms([mspec |-> ms, mhash |-> mh, asym |-> a, hash |-> h, structs |-> s]))
Digs(m, g) == [L0 EXCEPT !.k = "digests", !.mask = m, !.good = g]
Certif(s, n) == [L0 EXCEPT !.k = "cert", !.slot = s, !.ch = n]
\* "own": the digest of, and the signature by the leaf key of, the chain that was delivered
Auth == [L0 EXCEPT !.k = "auth", !.mask = 1, !.dig = "own", !.by = "own", !.over = "all"]
V(a, b, u, x) == << a, b, u, x >>

Advances ==
    << Versions(OurVersions), Versions(<< V(1,1,0,0) >>), Versions(<< V(1,1,0,0), V(1,0,0,0) >>), Versions(<< V(1,0,0,0), V(1,2,0,0) >>),
       Caps(c.caps), Caps(RspKnown), Caps({}), Caps({CERT_CAP}), Caps(RspKnown \ {CERT_CAP}), Caps(RspKnown \ {MUT_AUTH_CAP}),
       Algs(1, {0}, {4}, {0}, <<>>), Algs(1, {0}, {4}, {1}, << One(2), One(3), One(4), One(5) >>), Algs(1, {1}, {4}, {2}, << One(5), One(2) >>),
       Digs(1, TRUE), Digs(0, TRUE), Digs(255, TRUE), Digs(1, FALSE),
       Certif(0, "s0"), Certif(0, "s1"), Certif(0, "evil"), Certif(0, "cut"), Certif(0, "none"), Certif(0, "expired"),
       Auth, [Auth EXCEPT !.mut = TRUE], [Auth EXCEPT !.mask = 255], [Auth EXCEPT !.opq = 1] >>
Stops ==
    << Versions(<<>>), Versions(<< V(1,2,0,0) >>), Versions(<< V(1,1,0,1), V(1,0,1,0) >>), Bytes(EncVersion([entries |-> << OurVersions[1], OurVersions[2], OurVersions[2] >>])),
       Bytes(<< 17, VERSION, 0, 0, 0, 1, 0, 17 >>), Bytes(<< 16, VERSION, 0, 0, 0, 2, 0, 17 >>),
       Caps({17}), Bytes(SubSeq(EncCapabilities([ct |-> 1, flags |-> {1}]), 1, 11)), Bytes(<< 16 >> \o Tail(EncCapabilities([ct |-> 1, flags |-> {1, 2}]))),
       Algs(1, {0}, {4}, {3}, <<>>), Algs(1, {0}, {3}, {0}, <<>>), Algs(1, {3}, {4}, {0}, <<>>), Algs(1, {0}, {4}, {0, 1}, <<>>), Algs(1, {0}, {4, 7}, {0}, <<>>),
       Algs(1, {0}, {}, {0}, <<>>), Algs(1, {0}, {4}, {}, <<>>), Algs(1, {}, {4}, {0}, <<>>), Algs(0, {0}, {4}, {0}, <<>>), Algs(2, {0}, {4}, {0}, <<>>),
       Algs(1, {0}, {4}, {0}, << [t |-> 2, sel |-> {0}] >>), Algs(1, {0}, {4}, {0}, << [t |-> 2, sel |-> {1, 4}] >>), Algs(1, {0}, {4}, {0}, << [t |-> 5, sel |-> {}] >>),
       Certif(1, "s0"), Certif(c.nslots, "s0"), Certif(255, "s0"), Bytes(<< 17, CERTIFICATE, 0, 1, 1, 0, 0, 0, 48 >>), Bytes(<< 17, CERTIFICATE, 0, 0, 9, 0, 0, 0, 48 >>),
       [Auth EXCEPT !.slot = 1, !.mask = 3], [Auth EXCEPT !.slot = 15], [Auth EXCEPT !.mask = 0], [Auth EXCEPT !.mask = 2],
       [Auth EXCEPT !.dig = "other"], [Auth EXCEPT !.dig = "flip"], [Auth EXCEPT !.dig = "zero"],
       [Auth EXCEPT !.by = "s2"], [Auth EXCEPT !.by = "evil"], [Auth EXCEPT !.by = "zero"],
       [Auth EXCEPT !.over = "stale"], [Auth EXCEPT !.over = "late"], [Auth EXCEPT !.over = "plain"], [Auth EXCEPT !.over = "hash"], [Auth EXCEPT !.over = "body"],
       Bytes(<<>>), Bytes(<< 16 >>), Bytes(<< 16, VERSION >>), Bytes(<< 16, VERSION, 0 >>), Bytes(<< 17, 0, 0, 0 >>), Bytes(<< 17, 255, 0, 0, 0 >>),
       Bytes(<< 18, ERROR, 1, 0 >>), Bytes(<< 18, ERROR, 65, 16, 0 >>), Bytes(<< 17, ERROR, 3, 0 >>),
       Bytes(EncGetVersion(0)), Bytes(EncGetDigests(0)), Bytes(<< 18, MEASUREMENTS, 0, 0, 0, 0, 0, 0, 0 >>) >>
ASSUME TLCSet(2, TLCEval(Advances \o Stops))
Letters == TLCGet(2)
NL == Len(Letters)
ASSUME Emit => JsonSerialize(IOEnv.OUT, [letters |-> Letters, provs |-> << {0} >>])

\* chains that are well formed and validate to the root
GoodChains == {"s0", "s1", "s2"}
Hash(st) == IF st.hash = {} THEN 0 ELSE MinOf(st.hash)
Dig(st, how) == CASE how = "own" -> << Hash(st), st.chain >> [] how = "other" -> << Hash(st), << "s2" >> >> [] OTHER -> << how >>
Msg(st, x) ==
    CASE x.k = "raw" -> ParseResponse(c, x.b, ReqDs(st), ReqSs(st))
      [] x.k = "digests" -> [ok |-> TRUE, k |-> "DIGESTS", mask |-> x.mask, digests |->
            [s \in 0..(c.nslots-1) |-> IF s \in ByteBits[x.mask] THEN << Hash(st), << IF x.good THEN "s0" ELSE "junk" >> >> ELSE <<>>]]
      [] x.k = "cert" -> [ok |-> TRUE, k |-> "CERTIFICATE", slot |-> x.slot, rem |-> 0, chain |-> << x.ch >>]
      [] x.k = "auth" -> IF x.slot >= c.nslots THEN Malformed
            ELSE [ok |-> TRUE, k |-> "CHALLENGE_AUTH", slot |-> x.slot, mut |-> x.mut, mask |-> x.mask, digest |-> Dig(st, x.dig)]
Facts(st, x) == [dig |-> << Hash(st), st.chain >>, chain |-> st.chain # <<>> /\ st.chain[1] \in GoodChains,
                 sig |-> x.over = "all" /\ (x.by = "own" \/ << x.by >> = st.chain)]

(********************************* steps ************************************)
VARIABLES st, h, why, path
vars == <<st, h, why, path>>
Init == st = ReqInit /\ h = <<>> /\ why = "" /\ path = <<>>

\* the requester writes its request, and gets response i
Exchange(i) ==
    LET x == Letters[i]
        w == ReqWrote(st, IF st.ph \in ReqLive THEN ReqNext(c, st, <<>>) ELSE Malformed)
        m == Msg(w, x)
        r == ReqStep(c, w, m, Facts(w, x))
    IN /\ st.ph \in ReqLive
       /\ Len(h) < Depth
       /\ st' = IF r.ok THEN r.st ELSE [w EXCEPT !.ph = "Error"]
       /\ h' = Append(h, [req |-> ReqNext(c, st, <<>>), x |-> x, m |-> m])
       /\ why' = IF r.ok THEN "" ELSE r.why
       /\ path' = IF Emit THEN Append(path, i) ELSE path
       /\ Emit => PrintT(<<"B", 1, path', IF r.ok THEN IF r.st.ph = "NewSession" THEN 2 ELSE 1 ELSE 0>>)
Next == \E i \in 1..NL : Exchange(i)
Spec == Init /\ [][Next]_vars
Tail2(q) == IF Len(q) <= Mem THEN q ELSE SubSeq(q, Len(q) - Mem + 1, Len(q))
\* what decides how it goes on, and the last responses
Essence == <<st.ph, st.hasDigs, st.hash, st.chain, {CERT_CAP, CHAL_CAP} \cap st.rsf, st.mask = 1>>
View == IF ~Emit THEN <<st, h, why>> ELSE IF Mem = 0 THEN Essence ELSE <<Essence, Tail2(path)>>

(******************************* properties *********************************)
TypeOk == st.ph \in ReqPhases /\ (st.ph = "Error") = (why # "")
Got(k) == {i \in 1..Len(h) : h[i].m.k = k}
Only(k) == h[CHOOSE i \in Got(k) : TRUE]
Done == st.ph = "NewSession"
RspFlags == Only("CAPABILITIES").m.flags

(* C01 *)
C01_Authenticated ==
    Done /\ {CERT_CAP, CHAL_CAP} \subseteq c.caps \cap RspFlags =>
        LET a == h[Len(h)]  ch == Only("CERTIFICATE") IN
        /\ a.x.k = "auth" /\ a.m.slot = ch.m.slot /\ a.m.slot = RequestedSlot
        /\ a.m.slot \in ByteBits[a.m.mask]
        /\ a.x.dig = "own" /\ a.x.over = "all" /\ a.x.by \in {"own", ch.x.ch}
        /\ ch.x.ch \in GoodChains
(* C02: the responses are those of the protocol in its order, and a step is  *)
(* skipped only for want of a capability                                     *)
Kinds == [i \in 1..Len(h) |-> h[i].m.k]
Full == << "VERSION", "CAPABILITIES", "ALGORITHMS", "DIGESTS", "CERTIFICATE", "CHALLENGE_AUTH" >>
ReqOf == << "GET_VERSION", "GET_CAPABILITIES", "NEGOTIATE_ALGORITHMS", "GET_DIGESTS", "GET_CERTIFICATE", "CHALLENGE" >>
C02_Order ==
    /\ \A i \in 1..Len(h) : h[i].req.k = ReqOf[i]
    /\ \A i \in 1..(IF st.ph = "Error" THEN Len(h) - 1 ELSE Len(h)) : Kinds[i] = Full[i]
    /\ Done => Len(h) = (IF CERT_CAP \notin c.caps \cap RspFlags THEN 3
                         ELSE IF CHAL_CAP \notin c.caps \cap RspFlags THEN 5 ELSE 6)
C02_Progress == st.ph \in ReqLive => st.ph = <<"Version", "Capabilities", "Algorithms", "IdAuth", "IdAuth", "Challenge">>[Len(h) + 1]
(* C07 *)
C07_Terminal == [][st.ph \notin {"Error", "NewSession"}]_vars
(* C08 *)
C08_Within ==
    st.ph \in {"IdAuth", "Challenge", "NewSession"} =>
        LET m == Only("ALGORITHMS").m  o == Only("ALGORITHMS").req IN
        /\ Cardinality(m.asym) = 1 /\ m.asym \subseteq o.asym /\ m.asym \subseteq c.asyms /\ st.asym = m.asym
        /\ Cardinality(m.hash) = 1 /\ m.hash \subseteq o.hash /\ m.hash \subseteq Hashes(c) /\ st.hash = m.hash
        /\ Cardinality(m.mhash) = 1 /\ m.mhash \subseteq o.hash /\ m.mspec = o.mspec
        /\ \A i \in 1..Len(m.structs) : Cardinality(m.structs[i].sel) = 1
              /\ \E j \in 1..Len(o.structs) : o.structs[j].t = m.structs[i].t /\ m.structs[i].sel \subseteq o.structs[j].sel
(* C09 *)
C09_Highest ==
    st.ph \notin {"Version", "Error"} =>
        LET es == SetOf(Only("VERSION").m.entries) \cap {V(1,0,0,0), V(1,1,0,0)} IN
        /\ st.ver \in es
        /\ st.ver = V(1,0,0,0) => V(1,1,0,0) \notin es
(* C12, C18 *)
C12_Kept ==
    /\ st.ph = "Challenge" \/ (Done /\ Got("CERTIFICATE") # {}) => st.chain = Only("CERTIFICATE").m.chain /\ st.slot = RequestedSlot
    /\ st.hasDigs /\ st.ph # "Error" => st.digs = Only("DIGESTS").m.digests /\ st.mask = Only("DIGESTS").m.mask
C18_Recorded == st.ph \in {"Algorithms", "IdAuth", "Challenge", "NewSession"} => st.rsf = RspFlags
=============================================================================
