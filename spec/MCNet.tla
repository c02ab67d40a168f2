-------------------------------- MODULE MCNet --------------------------------
(* A requester and a responder with an attacker on the wire, who can alter,  *)
(* replace, repeat, drop and insert messages, replay those of earlier        *)
(* sessions, and sign with a key of its own, but not with the keys of the    *)
(* slots.  Messages are bytes (as in Wire), so that an alteration is the     *)
(* same here and when a path is replayed between the real peers; chains,     *)
(* digests and signatures are placeholders of their own sizes.               *)
(* A step is a whole exchange: the requester writes, the responder serves,   *)
(* the requester handles, with at most one alteration on either way.  Budget *)
(* bounds the number of alterations.                                         *)
EXTENDS Core, TLC, Json, IOUtils
CONSTANTS Emit, Depth, Budget, Focus

SetOf(q) == {q[i] : i \in 1..Len(q)}
c == TLCGet(1)
Raw == JsonDeserialize(IOEnv.CFG)
ASSUME TLCSet(1, TLCEval([nslots |-> Raw.nslots, chainMax |-> Raw.chainMax, depth |-> Raw.depth, trMax |-> Raw.trMax,
      opqN |-> Raw.opqN, opqMax |-> Raw.opqMax, mbN |-> Raw.mbN, mbMax |-> Raw.mbMax,
      nonceLen |-> Raw.nonceLen, caps |-> SetOf(Raw.caps), asyms |-> SetOf(Raw.asyms),
      crypto |-> Raw.crypto, maxDigest |-> Raw.maxDigest]))

(************************* placeholders of cryptography *********************)
EVIL == 15
Chain(x) == [i \in 1..16 |-> (16 * x + i) % 256]
Digest(h, x) == [i \in 1..DigestSize(h) |-> IF i = 1 THEN 200 + h ELSE IF i = 2 THEN x ELSE 0]
SlotRange == 0..(c.nslots - 1)
Provs == << {0}, SlotRange >>
Slots(p) == [s \in SlotRange |->
    IF s \in Provs[p] THEN [has |-> TRUE, chain |-> Chain(s), dig |-> [h \in 1..3 |-> Digest(h - 1, s)]]
    ELSE [has |-> FALSE, chain |-> <<>>, dig |-> <<>>]]
\* whose chain is it?  a slot, the attacker, or nobody's (100)
Owner(ch) == IF \E s \in 0..7 : Chain(s) = ch THEN CHOOSE s \in 0..7 : Chain(s) = ch ELSE IF ch = Chain(EVIL) THEN EVIL ELSE 100
Sig(i) == [j \in 1..64 |-> IF j = 1 THEN i ELSE IF j = 2 THEN 77 ELSE 0]

(******************************* alterations ********************************)
A0 == [o |-> "", k |-> 0, at |-> 0, b |-> <<>>]
Patch(k, at, b) == [A0 EXCEPT !.o = "set", !.k = k, !.at = at, !.b = b]     \* at < 0: from the end
Flip(k, at, b) == [A0 EXCEPT !.o = "xor", !.k = k, !.at = at, !.b = << b >>]
Cut(k) == [A0 EXCEPT !.o = "cut", !.k = k]
Instead(k, b) == [A0 EXCEPT !.o = "instead", !.k = k, !.b = b]
Before(k, b) == [A0 EXCEPT !.o = "before", !.k = k, !.b = b]
Op(o, k) == [A0 EXCEPT !.o = o, !.k = k]
Flags(f) == EncBits(f, 4)
Cert1 == EncGetCertificate([slot |-> 1, off |-> 0, len |-> 1024])
Nonce9 == [i \in 1..c.nonceLen |-> 9]
\* of requests
RaAll ==
    << Flip(GET_VERSION, 2, 1), Op("twice", GET_VERSION), Before(GET_VERSION, EncGetVersion(0)), Op("drop", GET_VERSION),
       Patch(GET_CAPABILITIES, 8, Flags({})), Patch(GET_CAPABILITIES, 8, Flags({CERT_CAP, CHAL_CAP})), Patch(GET_CAPABILITIES, 5, << 3 >>),
       Flip(GET_CAPABILITIES, 9, 128), Op("drop", GET_CAPABILITIES), Op("twice", GET_CAPABILITIES), Before(GET_CAPABILITIES, EncGetVersion(0)),
       Patch(NEGOTIATE_ALGORITHMS, 12, << 1 >>), Patch(NEGOTIATE_ALGORITHMS, 12, << 2 >>), Patch(NEGOTIATE_ALGORITHMS, 12, << 56 >>),
       Patch(NEGOTIATE_ALGORITHMS, 8, << 16, 1 >>), Patch(NEGOTIATE_ALGORITHMS, 8, << 8 >>), Patch(NEGOTIATE_ALGORITHMS, 2, << 0 >>),
       Patch(NEGOTIATE_ALGORITHMS, 2, << 5 >>), Op("drop", NEGOTIATE_ALGORITHMS), Op("replay", NEGOTIATE_ALGORITHMS), Before(NEGOTIATE_ALGORITHMS, EncGetVersion(0)),
       Op("drop", GET_DIGESTS), Op("twice", GET_DIGESTS), Instead(GET_DIGESTS, Cert1), Instead(GET_DIGESTS, EncGetVersion(0)), Before(GET_DIGESTS, Cert1),
       Patch(GET_CERTIFICATE, 2, << 1 >>), Patch(GET_CERTIFICATE, 2, << 200 >>), Patch(GET_CERTIFICATE, 4, << 1, 0, 9, 0 >>),
       Op("drop", GET_CERTIFICATE), Op("twice", GET_CERTIFICATE), Before(GET_CERTIFICATE, EncGetDigests(0)), Instead(GET_CERTIFICATE, EncGetDigests(0)),
       Patch(CHALLENGE, 2, << 1 >>), Patch(CHALLENGE, 3, << 1 >>), Flip(CHALLENGE, 4, 1), Flip(CHALLENGE, 0-1, 128), Op("drop", CHALLENGE), Op("twice", CHALLENGE),
       Op("replay", CHALLENGE), Before(CHALLENGE, EncChallenge([slot |-> 0, mht |-> 0, nonce |-> Nonce9])), Before(CHALLENGE, EncChallenge([slot |-> 1, mht |-> 0, nonce |-> Nonce9])),
       Instead(CHALLENGE, EncChallenge([slot |-> 0, mht |-> 0, nonce |-> Nonce9])), Cut(CHALLENGE) >>
\* of responses
SaAll ==
    << Patch(VERSION, 5, << 1 >>), Patch(VERSION, 6, << 0, 17 >>), Patch(VERSION, 5, << 2, 0, 18, 0, 17 >>), Op("drop", VERSION), Patch(VERSION, 5, << 0 >>),
       Patch(CAPABILITIES, 8, Flags({})), Patch(CAPABILITIES, 8, Flags({CERT_CAP})), Patch(CAPABILITIES, 8, Flags({CHAL_CAP})), Patch(CAPABILITIES, 8, Flags({1, 2})),
       Patch(CAPABILITIES, 5, << 9 >>), Op("drop", CAPABILITIES), Op("replay", CAPABILITIES), Patch(CAPABILITIES, 9, << 0 >>),
       Patch(ALGORITHMS, 16, << 2 >>), Patch(ALGORITHMS, 16, << 4 >>), Patch(ALGORITHMS, 8, << 2 >>), Patch(ALGORITHMS, 2, << 0 >>), Patch(ALGORITHMS, 12, << 128 >>),
       Patch(ALGORITHMS, 6, << 0 >>), Op("drop", ALGORITHMS), Op("replay", ALGORITHMS),
       Patch(DIGESTS, 3, << 0 >>), Flip(DIGESTS, 4, 1), Flip(DIGESTS, 0-1, 1), Op("drop", DIGESTS), Op("replay", DIGESTS), Cut(DIGESTS),
       Patch(CERTIFICATE, 2, << 1 >>), Patch(CERTIFICATE, 2, << 0 >>), Patch(CERTIFICATE, 6, << 1 >>), Flip(CERTIFICATE, 0-1, 1), Op("evil", CERTIFICATE), Op("other", CERTIFICATE),
       Op("drop", CERTIFICATE), Op("replay", CERTIFICATE), Cut(CERTIFICATE),
       Patch(CHALLENGE_AUTH, 2, << 0 >>), Patch(CHALLENGE_AUTH, 2, << 1 >>), Flip(CHALLENGE_AUTH, 2, 128), Patch(CHALLENGE_AUTH, 3, << 0 >>), Patch(CHALLENGE_AUTH, 3, << 255 >>),
       Flip(CHALLENGE_AUTH, 4, 1), Flip(CHALLENGE_AUTH, 40, 1), Flip(CHALLENGE_AUTH, 0-70, 1), Flip(CHALLENGE_AUTH, 0-1, 1), Flip(CHALLENGE_AUTH, 0-64, 1), Cut(CHALLENGE_AUTH),
       Op("drop", CHALLENGE_AUTH), Op("replay", CHALLENGE_AUTH), Op("evil", CHALLENGE_AUTH), Op("resign", CHALLENGE_AUTH), Op("other", CHALLENGE_AUTH),
       Instead(ERROR, << 18, ERROR, 3, 0 >>), Op("replay", ERROR) >>
\* those that redirect, downgrade or replay, for longer attacks
Chosen(q) == SelectSeq(q, LAMBDA a : a.o \in {"replay", "evil", "resign", "other", "before"} \/ (a.o = "set" /\ a.at \in {2, 8, 12, 16} /\ a.k # CAPABILITIES) \/ (a.o = "drop" /\ a.k \in {CHALLENGE, CHALLENGE_AUTH}))
ASSUME TLCSet(2, TLCEval(IF Focus THEN Chosen(RaAll) ELSE RaAll))
ASSUME TLCSet(3, TLCEval(IF Focus THEN Chosen(SaAll) ELSE SaAll))
Ra == TLCGet(2)
Sa == TLCGet(3)
ASSUME Emit => JsonSerialize(IOEnv.OUT, [ra |-> Ra, sa |-> Sa, provs |-> Provs])

Put(m, at, b) ==
    LET i == IF at < 0 THEN Len(m) + at ELSE at IN
    [j \in 1..Len(m) |-> IF j > i /\ j <= i + Len(b) THEN b[j - i] ELSE m[j]]
FlipBit(x, y) == IF (x \div y) % 2 = 1 THEN x - y ELSE x + y
Xor(m, at, y) ==
    LET i == IF at < 0 THEN Len(m) + at ELSE at IN
    IF i < 0 \/ i >= Len(m) THEN m ELSE [m EXCEPT ![i + 1] = FlipBit(@, y)]
\* the latest message of this type in the history before the last one
Earlier(hist, k) ==
    LET S == {i \in 1..(Len(hist) - 1) : Len(hist[i]) > 1 /\ hist[i][2] = k}
    IN IF S = {} THEN <<>> ELSE hist[CHOOSE i \in S : \A j \in S : j <= i]
Applies(a, m) == IF Len(m) < 2 THEN FALSE ELSE m[2] = a.k
Simple(a, m, hist) ==
    CASE a.o = "set" -> Put(m, a.at, a.b) [] a.o = "xor" -> Xor(m, a.at, a.b[1]) [] a.o = "cut" -> SubSeq(m, 1, Len(m) - 1)
      [] a.o = "instead" -> a.b [] a.o = "replay" -> Earlier(hist, a.k) [] OTHER -> m

(********************************* steps ************************************)
VARIABLES p,        \* provisioning
          q, r,     \* requester and responder: s (Core), tr (transcript); r also on: alive
          signed,   \* every signature made: key, over
          hq, hr,   \* requests and responses written so far
          n, left, path, done   \* done: the signatures that completed a session, in order
vars == <<p, q, r, signed, hq, hr, n, left, path, done>>

Init == /\ p \in 1..Len(Provs)
        /\ q = [s |-> ReqInit, tr |-> <<>>] /\ r = [s |-> RspInit, tr |-> <<>>]
        /\ signed = <<>> /\ hq = <<>> /\ hr = <<>> /\ n = 0 /\ left = Budget /\ path = <<>> /\ done = <<>>

\* the responder serves one request: new state, response, signatures
Nonce(i, who) == [j \in 1..c.nonceLen |-> IF j = 1 THEN i % 256 ELSE IF j = 2 THEN who ELSE 0]
Serve1(x, sg, req, i) ==
    IF x.s.ph = "Error" THEN [x |-> x, sg |-> sg, out |-> <<>>]
    ELSE LET m == ParseRequest(c, req)
             y == RspStep(c, Slots(p), x.s, m, Nonce(i, 2), TRUE)
         IN IF ~y.ok THEN [x |-> [x EXCEPT !.s = RspError(@)], sg |-> sg, out |-> << 18, ERROR, 1, 0 >>]
            ELSE LET body == IF y.m.k = "CHALLENGE_AUTH" THEN EncChallengeAuthNoSig(y.m) ELSE EncResponse(c, y.m)
                     t == (IF y.reset THEN <<>> ELSE x.tr) \o req \o body
                     sg2 == IF y.m.k = "CHALLENGE_AUTH" THEN Append(sg, [key |-> m.slot, over |-> t]) ELSE sg
                 IN [x |-> [s |-> y.st, tr |-> t], sg |-> sg2,
                     out |-> IF y.m.k = "CHALLENGE_AUTH" THEN body \o Sig(Len(sg2)) ELSE body]

\* the attacker's own messages, given what the requester has
Body(m) == SubSeq(m, 1, Len(m) - 64)
Forge(a, m, w, sg) ==
    CASE a.k = CERTIFICATE ->
            [m |-> EncCertificate([slot |-> 0, rem |-> 0, chain |-> Chain(IF a.o = "evil" THEN EVIL ELSE 1)]), sg |-> sg]
      [] a.k = CHALLENGE_AUTH ->     \* evil: attests the attacker's chain; resign: only signed anew; other: attests slot 1's chain, with the same signature
            LET h == MinOf(w.s.hash)
                b0 == Body(m)
                b == IF a.o = "resign" THEN b0 ELSE Put(b0, 4, Digest(h, IF a.o = "evil" THEN EVIL ELSE 1))
            IN IF a.o = "other" THEN [m |-> b \o SubSeq(m, Len(m) - 63, Len(m)), sg |-> sg]
               ELSE [m |-> b \o Sig(Len(sg) + 1), sg |-> Append(sg, [key |-> EVIL, over |-> w.tr \o b])]
      [] OTHER -> [m |-> m, sg |-> sg]

\* the requester handles a response
Handle1(w, m, sg) ==
    LET ds == ReqDs(w.s)  ss == ReqSs(w.s)
        pm == ParseResponse(c, m, ds, ss)
        isAuth == pm.k = "CHALLENGE_AUTH" /\ w.s.ph = "Challenge"
        o == Owner(w.s.chain)
        h == MinOf(w.s.hash)
        over == w.tr \o SubSeq(m, 1, Len(m) - ss)
        \* nobody has made this signature, or the one who made it: its number
        i == IF isAuth /\ pm.sig[1] \in 1..Len(sg) /\ pm.sig = Sig(pm.sig[1]) THEN pm.sig[1] ELSE 0
        fx == IF ~isAuth THEN [dig |-> <<>>, chain |-> FALSE, sig |-> FALSE]
              ELSE [dig |-> Digest(h, o), chain |-> o \in 0..7,
                    sig |-> i # 0 /\ sg[i].key = o /\ sg[i].over = over]
        y == ReqStep(c, w.s, pm, fx)
    IN IF ~y.ok THEN [w |-> [w EXCEPT !.s.ph = "Error"], d |-> <<>>]
       ELSE [w |-> [s |-> y.st, tr |-> IF isAuth THEN over ELSE w.tr \o m], d |-> IF isAuth THEN << i >> ELSE <<>>]

Live == q.s.ph \in ReqLive
Exchange(a, b) ==
    LET ra == IF a = 0 THEN A0 ELSE Ra[a]
        sa == IF b = 0 THEN A0 ELSE Sa[b]
        m == ReqNext(c, q.s, Nonce(n, 1))
        req == EncRequest(m)
        w == [s |-> ReqWrote(q.s, m), tr |-> (IF q.s.ph = "Version" THEN <<>> ELSE q.tr) \o req]
        hq2 == Append(hq, req)
        x1 == IF ra.o = "before" THEN Serve1(r, signed, ra.b, n + 100) ELSE IF ra.o = "twice" THEN Serve1(r, signed, req, n + 100)
              ELSE [x |-> r, sg |-> signed, out |-> <<>>]
        x2 == IF ra.o = "drop" THEN x1 ELSE Serve1(x1.x, x1.sg, Simple(ra, req, hq2), n)
        \* the response that is on its way is the last one served
        hr2 == IF ra.o = "drop" THEN hr ELSE Append(hr, x2.out)
        rsp == x2.out
        f == Forge(sa, rsp, w, x2.sg)
        rsp2 == IF sa.o \in {"evil", "resign", "other"} THEN f.m ELSE Simple(sa, rsp, hr2)
        sg2 == IF sa.o \in {"evil", "resign"} THEN f.sg ELSE x2.sg
        z == IF ra.o = "drop" \/ sa.o = "drop" THEN [w |-> w, d |-> <<>>] ELSE Handle1(w, rsp2, sg2)
        cost == (IF a = 0 THEN 0 ELSE 1) + (IF b = 0 THEN 0 ELSE 1)
    IN /\ Live /\ n < Depth
       /\ IF a = 0 THEN TRUE ELSE Applies(ra, req)
       /\ IF b = 0 THEN TRUE ELSE Applies(sa, rsp) /\ ra.o # "drop"
       /\ IF ra.o = "replay" THEN Earlier(hq2, ra.k) # <<>> ELSE TRUE
       /\ IF sa.o = "replay" THEN Earlier(hr2, sa.k) # <<>> ELSE TRUE
       /\ left >= cost
       /\ left' = left - cost
       /\ q' = z.w /\ r' = x2.x /\ signed' = sg2 /\ hq' = hq2 /\ hr' = hr2 /\ n' = n + 1
       /\ done' = done \o z.d
       /\ p' = p
       /\ path' = IF Emit THEN Append(path, 1 + 100 * a + b) ELSE path
       /\ Emit => PrintT(<<"B", p, path', IF z.w.s.ph = "Error" THEN 0 ELSE IF z.w.s.ph = "NewSession" THEN 2 ELSE 1>>)
\* a new requester; a responder that failed is reset
Renew ==
    /\ left > 0 /\ n > 0 /\ n < Depth
    /\ path # <<>> => path[Len(path)] # 0
    /\ left' = left - 1 /\ n' = n + 1
    /\ q' = [s |-> ReqInit, tr |-> <<>>]
    /\ r' = IF r.s.ph = "Error" THEN [s |-> RspInit, tr |-> <<>>] ELSE r
    /\ path' = IF Emit THEN Append(path, 0) ELSE path
    /\ Emit => PrintT(<<"B", p, path', 1>>)
    /\ UNCHANGED <<p, signed, hq, hr, done>>
Next ==
    \/ Renew
    \/ IF ~Live \/ n >= Depth THEN FALSE
       ELSE LET req == EncRequest(ReqNext(c, q.s, Nonce(n, 1)))
            IN \E a \in {0} \cup {i \in 1..Len(Ra) : left > 0 /\ Applies(Ra[i], req)}, b \in 0..(IF left > 0 THEN Len(Sa) ELSE 0) : Exchange(a, b)
Spec == Init /\ [][Next]_vars
View == <<p, q, r, signed, hq, hr, n, left, done>>

(******************************* properties *********************************)
Done == q.s.ph = "NewSession"
Authenticated == Done /\ {CERT_CAP, CHAL_CAP} \subseteq c.caps \cap q.s.rsf

TypeOk == q.s.ph \in ReqPhases /\ r.s.ph \in RspPhases
(* C01: a requester that completes has the chain of a slot of the responder, *)
(* and that slot's key signed exactly the requester's transcript             *)
C01_Agreement == Authenticated =>
    LET i == done[Len(done)] IN
    /\ done # <<>> /\ i \in 1..Len(signed)
    /\ Owner(q.s.chain) \in Provs[p] /\ signed[i].key = Owner(q.s.chain)
    /\ signed[i].over = q.tr
(* ... and no signature completes two sessions                               *)
C01_Fresh == \A i, j \in 1..Len(done) : done[i] = done[j] => i = j
(* C04: with nobody on the wire the transcripts agree after every exchange   *)
C04_Same == left = Budget => q.tr = r.tr
(* C11: and the handshake completes                                          *)
C11_Completes == left = Budget =>
    /\ q.s.ph # "Error" /\ r.s.ph # "Error"
    /\ n >= 6 => Done
    /\ Done => q.s.hash = r.s.hash /\ q.s.asym = r.s.asym /\ q.s.rsf = c.caps
(* C08, C18: agreement on what was negotiated, if the attacker cannot sign   *)
C08_Agreed == Authenticated /\ r.tr = q.tr =>
    /\ q.s.hash = r.s.hash /\ q.s.asym = r.s.asym
    /\ r.s.rqf = c.caps /\ q.s.rsf = c.caps
(* C05: nobody but the responder uses the keys of the slots                  *)
C05_Keys == \A i \in 1..Len(signed) : signed[i].key = EVIL \/ signed[i].key \in Provs[p]
=============================================================================
