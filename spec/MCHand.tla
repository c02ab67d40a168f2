-------------------------------- MODULE MCHand -------------------------------
(* The states of the requester driven by hand, once algorithms are agreed    *)
(* on: the user chooses to ask for the digests or the certificate of a slot, *)
(* again and again, and when to challenge the slot held; anybody answers.    *)
(* Symbolic as in MCReq.                                                     *)
EXTENDS Core, TLC, Json, IOUtils
CONSTANTS Emit, Depth, Mem

SetOf(q) == {q[i] : i \in 1..Len(q)}
c == TLCGet(1)
Raw == JsonDeserialize(IOEnv.CFG)
ASSUME TLCSet(1, TLCEval([nslots |-> Raw.nslots, chainMax |-> Raw.chainMax, depth |-> Raw.depth, trMax |-> Raw.trMax,
      opqN |-> Raw.opqN, opqMax |-> Raw.opqMax, mbN |-> Raw.mbN, mbMax |-> Raw.mbMax,
      nonceLen |-> Raw.nonceLen, caps |-> SetOf(Raw.caps), asyms |-> SetOf(Raw.asyms),
      crypto |-> Raw.crypto, maxDigest |-> Raw.maxDigest]))

(******************************** alphabet **********************************)
L0 == [k |-> "", slot |-> 0, mask |-> 0, ch |-> "", dig |-> "", by |-> ""]
AskD == [L0 EXCEPT !.k = "askd"]
AskC(s) == [L0 EXCEPT !.k = "askc", !.slot = s]
Go == [L0 EXCEPT !.k = "go"]
Again == [L0 EXCEPT !.k = "again"]
Digs(m) == [L0 EXCEPT !.k = "digests", !.mask = m]
Certif(s, n) == [L0 EXCEPT !.k = "cert", !.slot = s, !.ch = n]
Auth(s, m, d, b) == [L0 EXCEPT !.k = "auth", !.slot = s, !.mask = m, !.dig = d, !.by = b]
Last == c.nslots - 1
Letters ==
    << AskD, AskC(0), AskC(1 % c.nslots), AskC(Last), Go, Again,
       Digs(1), Digs(0), Certif(0, "s0"), Certif(1, "s1"), Certif(Last, "s2"), Certif(1, "s0"), Certif(Last, "evil"), Certif(c.nslots, "s0"), Certif(15, "s0"),
       Auth(0, 1, "own", "own"), Auth(1, 2, "own", "own"), Auth(Last, 2 ^ Last, "own", "own"), Auth(Last, 255, "own", "own"), Auth(1, 255, "own", "own"), Auth(0, 255, "own", "own"),
       Auth(1, 1, "own", "own"), Auth(Last, 1, "own", "own"), Auth(1, 255, "s0", "s0"), Auth(1, 255, "own", "s0"), Auth(1, 255, "s0", "own"), Auth(15, 255, "own", "own") >>
NL == Len(Letters)
ASSUME Emit => JsonSerialize(IOEnv.OUT, [letters |-> Letters, provs |-> << {}, {} >>])

GoodChains == {"s0", "s1", "s2"}
Name(st, n) == IF n = "own" THEN st.chain ELSE << n >>
Msg(st, x) ==
    CASE x.k = "digests" -> [ok |-> TRUE, k |-> "DIGESTS", mask |-> x.mask, digests |-> [s \in 0..Last |-> IF s \in ByteBits[x.mask] THEN << "d" >> ELSE <<>>]]
      [] x.k = "cert" -> IF x.slot >= c.nslots THEN Malformed ELSE [ok |-> TRUE, k |-> "CERTIFICATE", slot |-> x.slot, rem |-> 0, chain |-> << x.ch >>]
      [] x.k = "auth" -> IF x.slot >= c.nslots THEN Malformed
            ELSE [ok |-> TRUE, k |-> "CHALLENGE_AUTH", slot |-> x.slot, mut |-> FALSE, mask |-> x.mask, digest |-> << "digest", Name(st, x.dig) >>]
Facts(st, x) == [dig |-> << "digest", st.chain >>, chain |-> st.chain # <<>> /\ st.chain[1] \in GoodChains, sig |-> Name(st, x.by) = st.chain]

(********************************* steps ************************************)
VARIABLES st, pend, h, why, path
vars == <<st, pend, h, why, path>>
\* algorithms are agreed on, with a peer that has every capability
Negotiated == [ReqHand(ReqInit) EXCEPT !.ph = "IdAuth", !.ver = <<1, 1, 0, 0>>, !.rsf = RspKnown, !.mspec = 1, !.mhash = {0}, !.hash = {0}, !.asym = {4}]
Init == st = Negotiated /\ pend = FALSE /\ h = <<>> /\ why = "" /\ path = <<>>
Write(s) == ReqWrote(s, ReqNext(c, s, <<>>))
Choose(x) ==
    CASE x.k = "askd" -> IF st.ph = "IdAuth" THEN Write(ReqAsk(st, "DIGESTS", 0)) ELSE st
      [] x.k = "askc" -> IF st.ph = "IdAuth" THEN Write(ReqAsk(st, "CERTIFICATE", x.slot)) ELSE st
      [] x.k = "go" -> Write(ReqMove(st))
      [] x.k = "again" -> Write(st)
User(i) ==
    LET x == Letters[i] IN
    /\ x.k \in {"askd", "askc", "go", "again"}
    /\ CASE x.k \in {"askd", "askc"} -> st.ph = "IdAuth"
         [] x.k = "go" -> st.ph = "IdAuth" /\ st.held /\ CHAL_CAP \in c.caps
         [] x.k = "again" -> pend
    /\ st' = Choose(x) /\ pend' = TRUE /\ why' = ""
    /\ h' = Append(h, [x |-> x, req |-> ReqNext(c, Choose(x), <<>>)])
Peer(i) ==
    LET x == Letters[i]
        m == Msg(st, x)
        r == ReqStep(c, st, m, Facts(st, x)) IN
    /\ x.k \in {"digests", "cert", "auth"} /\ pend
    /\ x.k = "auth" => st.ph = "Challenge"
    /\ st' = IF r.ok THEN r.st ELSE [st EXCEPT !.ph = "Error"]
    /\ pend' = FALSE /\ why' = (IF r.ok THEN "" ELSE r.why)
    /\ h' = Append(h, [x |-> x, m |-> m, ok |-> r.ok])
Next == \E i \in 1..NL :
    /\ st.ph \in ReqLive /\ Len(h) < Depth
    /\ User(i) \/ Peer(i)
    /\ path' = IF Emit THEN Append(path, i) ELSE path
    /\ Emit => PrintT(<<"B", 1, path', IF st'.ph = "NewSession" THEN 2 ELSE IF st'.ph = "Error" THEN 0 ELSE 1>>)
Spec == Init /\ [][Next]_vars
Essence == <<st.ph, pend, st.ask, st.want, st.held, st.slot, st.chain, st.hasDigs>>
Tail2(q) == IF Len(q) <= Mem THEN q ELSE SubSeq(q, Len(q) - Mem + 1, Len(q))
View == IF ~Emit THEN <<st, pend, h, why>> ELSE IF Mem = 0 THEN Essence ELSE <<Essence, Tail2(path)>>

(******************************* properties *********************************)
\* the last accepted certificate before step n
Held(n) == {i \in 1..(n-1) : h[i].x.k = "cert" /\ h[i].ok /\ \A j \in (i+1)..(n-1) : ~(h[j].x.k = "cert" /\ h[j].ok)}
\* the last GET_CERTIFICATE written before step n
AskedAt(n) == {i \in 1..(n-1) : "req" \in DOMAIN h[i] /\ h[i].req.k = "GET_CERTIFICATE"
                  /\ \A j \in (i+1)..(n-1) : ~("req" \in DOMAIN h[j] /\ h[j].req.k = "GET_CERTIFICATE")}
(* C12: a certificate is taken for the slot requested last, the one held     *)
(* last is challenged, and what is kept is what was received                 *)
C12_Slot ==
    /\ \A n \in 1..Len(h) : h[n].x.k = "cert" /\ h[n].ok => \E i \in AskedAt(n) : h[i].req.slot = h[n].m.slot
    /\ \A n \in 1..Len(h) : "req" \in DOMAIN h[n] /\ h[n].req.k = "CHALLENGE" => \E i \in Held(n) : h[n].req.slot = h[i].m.slot
    /\ st.held => \E i \in Held(Len(h) + 1) : st.chain = h[i].m.chain /\ st.slot = h[i].m.slot
(* C01 *)
C01_Authenticated ==
    st.ph = "NewSession" =>
        LET a == h[Len(h)]  n == Len(h) IN
        /\ a.x.k = "auth"
        /\ \E i \in Held(n) : /\ a.m.slot = h[i].m.slot /\ h[i].x.ch \in GoodChains
                              /\ a.x.by \in {"own", h[i].x.ch} /\ a.x.dig \in {"own", h[i].x.ch}
        /\ a.m.slot \in ByteBits[a.m.mask]
(* C02: what is taken was awaited *)
C02_Awaited == \A n \in 2..Len(h) : "m" \in DOMAIN h[n] /\ h[n].ok =>
    h[n-1].req.k = (CASE h[n].x.k = "digests" -> "GET_DIGESTS" [] h[n].x.k = "cert" -> "GET_CERTIFICATE" [] h[n].x.k = "auth" -> "CHALLENGE")
C07_Terminal == [][st.ph \notin {"Error", "NewSession"}]_vars
=============================================================================
