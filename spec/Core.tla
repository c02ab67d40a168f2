-------------------------------- MODULE Core --------------------------------
(* The two peers of the handshake as pure transition functions, shared by    *)
(* the model-checking modules (MCRsp, MCReq, MCNet) and by trace validation  *)
(* (Trace).  A peer never looks at bytes here: it is given a parsed message  *)
(* (Wire!ParseRequest, Wire!ParseResponse) and answers with a message        *)
(* record.  What depends on cryptography enters as a parameter: the digests  *)
(* of the slots' chains, whether signing succeeds, whether a received chain  *)
(* and signature verify.                                                     *)
(*                                                                           *)
(* The configuration `c` has, besides the fields used by Wire:               *)
(*   caps (bit numbers of the configured capabilities), asyms (configured    *)
(*   signing algorithms), crypto (a cryptography provider is enabled),       *)
(*   maxDigest                                                               *)
EXTENDS Wire

Hashes(c) == IF c.crypto THEN {h \in {0, 1, 2} : DigestSize(h) <= c.maxDigest} ELSE {0}
CtExponent == 12

Refuse(why) == [ok |-> FALSE, why |-> why]

(***************************** the responder ********************************)
(* st.ph is the phase; the rest is what was exchanged or negotiated since    *)
(* the latest GET_VERSION.  Transcript bytes are kept by the caller, which   *)
(* appends request and response on success (from scratch when `reset`).      *)
RspInit == [ph |-> "Version", rct |-> 0, rqf |-> {}, hash |-> {}, asym |-> {}]
RspLive == {"Version", "Capabilities", "Algorithms", "IdAuth", "Challenge"}
RspPhases == RspLive \cup {"Error"}

Serve(st, m) == [ok |-> TRUE, st |-> st, m |-> m, reset |-> FALSE]

(* slots: sl[s] = [has, chain, dig] with dig[h+1] the digest of the chain    *)
Provisioned(c, sl) == {s \in 0..(c.nslots-1) : sl[s].has}
SlotMask(c, sl) == SumPow(Provisioned(c, sl))
ChainTooBig(c, sl, s) == sl[s].has /\ Len(sl[s].chain) > c.chainMax

Selected(c, m) ==
    [k |-> "ALGORITHMS", mspec |-> m.mspec,
     mhash |-> {MinOf(m.hash \cap Hashes(c))}, asym |-> {MinOf(m.asym \cap c.asyms)},
     hash |-> {MinOf(m.hash \cap Hashes(c))},
     structs |-> [i \in 1..Len(m.structs) |->
                    [t |-> m.structs[i].t, sel |-> {MinOf(m.structs[i].sel)}]]]
Selectable(c, m) ==
    /\ m.asym \cap c.asyms # {}
    /\ m.hash \cap Hashes(c) # {}
    /\ \A i \in 1..Len(m.structs) : m.structs[i].sel # {}

RspStep(c, sl, st, m, nonce, signOk) ==
    IF st.ph \notin RspLive THEN Refuse("dead")
    ELSE IF m.k = "malformed" THEN Refuse("malformed")
    ELSE IF m.k = "GET_VERSION" THEN
         [Serve([RspInit EXCEPT !.ph = "Capabilities"],
                [k |-> "VERSION", entries |-> OurVersions]) EXCEPT !.reset = TRUE]
    ELSE IF st.ph = "Capabilities" /\ m.k = "GET_CAPABILITIES" THEN
         Serve([st EXCEPT !.ph = "Algorithms", !.rct = m.ct, !.rqf = m.flags],
               [k |-> "CAPABILITIES", ct |-> CtExponent, flags |-> c.caps])
    ELSE IF st.ph = "Algorithms" /\ m.k = "NEGOTIATE_ALGORITHMS" THEN
         IF ~Selectable(c, m) THEN Refuse("algo")
         ELSE LET a == Selected(c, m) IN
              Serve([st EXCEPT !.ph = "IdAuth", !.hash = a.hash, !.asym = a.asym], a)
    ELSE IF st.ph = "IdAuth" /\ m.k = "GET_DIGESTS" THEN
         IF CERT_CAP \notin c.caps THEN Refuse("cap")
         ELSE IF \E s \in Provisioned(c, sl) : ChainTooBig(c, sl, s) THEN Refuse("chainmax")
         ELSE Serve(st, [k |-> "DIGESTS", mask |-> SlotMask(c, sl),
                         digests |-> [s \in 0..(c.nslots-1) |->
                            IF sl[s].has THEN sl[s].dig[MinOf(st.hash) + 1] ELSE <<>>]])
    ELSE IF st.ph = "IdAuth" /\ m.k = "GET_CERTIFICATE" THEN
         IF CERT_CAP \notin c.caps THEN Refuse("cap")
         ELSE IF m.slot >= c.nslots THEN Refuse("slot")
         ELSE IF ChainTooBig(c, sl, m.slot) THEN Refuse("chainmax")
         ELSE Serve([st EXCEPT !.ph = "Challenge"],
                    [k |-> "CERTIFICATE", slot |-> m.slot, rem |-> 0,
                     chain |-> IF sl[m.slot].has THEN sl[m.slot].chain ELSE <<>>])
    ELSE IF st.ph = "Challenge" /\ m.k = "CHALLENGE" THEN
         IF CHAL_CAP \notin c.caps THEN Refuse("cap")
         ELSE IF m.slot >= c.nslots THEN Refuse("slot")
         ELSE IF ~sl[m.slot].has THEN Refuse("slot")
         ELSE IF ChainTooBig(c, sl, m.slot) THEN Refuse("chainmax")
         ELSE IF ~signOk THEN Refuse("sign")
         ELSE LET h == MinOf(st.hash) IN
              Serve(st, [k |-> "CHALLENGE_AUTH", slot |-> m.slot,
                         mut |-> MUT_AUTH_CAP \in st.rqf \cap c.caps,
                         mask |-> SlotMask(c, sl), digest |-> sl[m.slot].dig[h + 1],
                         nonce |-> nonce, meas |-> Zeros(DigestSize(h)), opaque |-> <<>>])
    ELSE Refuse("phase")

(* The whole step with the two storage limits: the response must fit the     *)
(* caller's buffer, the exchange the transcript.  trl: transcript length;    *)
(* reqLen, rspLen, sigLen: lengths of request, response, signature.          *)
RspLimits(c, r, trl, reqLen, rspLen, sigLen, cap) ==
    IF ~r.ok THEN r
    ELSE IF rspLen > cap THEN Refuse("buf")
    ELSE IF (IF r.reset THEN 0 ELSE trl) + reqLen + rspLen - sigLen > c.trMax THEN Refuse("trfull")
    ELSE r

RspError(st) == [st EXCEPT !.ph = "Error"]

(* An ERROR reply: a well formed ERROR that fits, or nothing if it does not  *)
ErrorReplyOk(out, cap) ==
    IF out = <<>> THEN cap < MaxErrorSize ELSE Len(out) <= cap /\ WellFormedError(out)

(***************************** the requester ********************************)
ReqInit == [ph |-> "Version", ver |-> <<0, 0, 0, 0>>, rct |-> 0, rsf |-> {},
            mspec |-> 0, mhash |-> {}, hash |-> {}, asym |-> {}, structs |-> <<>>,
            hasDigs |-> FALSE, mask |-> 0, digs |-> <<>>, held |-> FALSE, slot |-> 0, chain |-> <<>>,
            want |-> 0 - 1,                             \* the slot whose certificate was last requested
            hand |-> FALSE, ask |-> "", aslot |-> 0,    \* the states driven by hand: what to ask for
            offer |-> [mspec |-> 0, asym |-> {}, hash |-> {}, structs |-> <<>>]]
ReqLive == {"Version", "Capabilities", "Algorithms", "IdAuth", "Challenge"}
ReqPhases == ReqLive \cup {"NewSession", "Error"}

OfferedStructs == << [t |-> 2, sel |-> {1, 4}], [t |-> 3, sel |-> {1, 2}],
                     [t |-> 4, sel |-> {4, 7}], [t |-> 5, sel |-> {0}] >>
Offer(c) == [ok |-> TRUE, k |-> "NEGOTIATE_ALGORITHMS", mspec |-> 1, asym |-> c.asyms,
             hash |-> Hashes(c), structs |-> OfferedStructs]

RequestedSlot == 0

(* RequesterInit asks for the digests, then for slot 0, then challenges it.  *)
(* Who drives its states by hand chooses what to identify, and when to go on *)
Asked(st) == IF st.hand THEN st.ask ELSE IF st.hasDigs THEN "CERTIFICATE" ELSE "DIGESTS"
ReqHand(st) == [st EXCEPT !.hand = TRUE, !.ask = "DIGESTS"]
ReqAsk(st, what, slot) == [st EXCEPT !.ask = what, !.aslot = slot]
ReqMove(st) == [st EXCEPT !.ph = "Challenge"]

(* The request the requester has to send next *)
ReqNext(c, st, nonce) ==
    CASE st.ph = "Version" -> [ok |-> TRUE, k |-> "GET_VERSION"]
      [] st.ph = "Capabilities" -> [ok |-> TRUE, k |-> "GET_CAPABILITIES", ct |-> CtExponent, flags |-> c.caps]
      [] st.ph = "Algorithms" -> Offer(c)
      [] st.ph = "IdAuth" /\ Asked(st) = "DIGESTS" -> [ok |-> TRUE, k |-> "GET_DIGESTS"]
      [] st.ph = "IdAuth" /\ Asked(st) = "CERTIFICATE" ->
            [ok |-> TRUE, k |-> "GET_CERTIFICATE", slot |-> IF st.hand THEN st.aslot ELSE RequestedSlot, off |-> 0, len |-> c.chainMax % 65536]
      [] st.ph = "Challenge" -> [ok |-> TRUE, k |-> "CHALLENGE", slot |-> st.slot, mht |-> 0, nonce |-> nonce]

(* What a request leaves open: got is what was written, exp what ReqNext     *)
(* asks for.  No property fixes the CT exponent, the algorithm structures    *)
(* offered, the portion size asked for or the measurements asked for.        *)
RequestMeets(exp, got) ==
    /\ got.k = exp.k
    /\ CASE exp.k = "GET_CAPABILITIES" -> got = [exp EXCEPT !.ct = got.ct]
         [] exp.k = "NEGOTIATE_ALGORITHMS" -> got = [exp EXCEPT !.structs = got.structs]
         [] exp.k = "GET_CERTIFICATE" -> got = [exp EXCEPT !.len = got.len]
         [] exp.k = "CHALLENGE" -> got = [exp EXCEPT !.mht = got.mht, !.nonce = got.nonce]
         [] OTHER -> got = exp

(* The state after request m was written: the requester knows what it offered *)
(* and which slot it asked for                                               *)
ReqWrote(st, m) ==
    IF m.k = "GET_CERTIFICATE" THEN [st EXCEPT !.want = m.slot]
    ELSE IF m.k # "NEGOTIATE_ALGORITHMS" THEN st
    ELSE [st EXCEPT !.offer = [mspec |-> m.mspec, asym |-> m.asym, hash |-> m.hash,
                               structs |-> m.structs]]

ReqNextLimits(c, st, trl, len, cap) ==
    IF st.ph \notin ReqLive THEN Refuse("phase")
    ELSE IF len > cap THEN Refuse("buf")
    ELSE IF (IF st.ph = "Version" THEN 0 ELSE trl) + len > c.trMax THEN Refuse("trfull")
    ELSE [ok |-> TRUE]

(* The only type of response the requester is waiting for *)
Awaits(st) ==
    CASE st.ph = "Version" -> "VERSION" [] st.ph = "Capabilities" -> "CAPABILITIES"
      [] st.ph = "Algorithms" -> "ALGORITHMS"
      [] st.ph = "IdAuth" -> Asked(st)
      [] st.ph = "Challenge" -> "CHALLENGE_AUTH"
      [] OTHER -> "nothing"

Common(m) == {m.entries[i] : i \in 1..Len(m.entries)} \cap {OurVersions[i] : i \in 1..Len(OurVersions)}
Highest(S) == CHOOSE e \in S : \A f \in S : e = f \/ EntryGt(e, f)

(* exactly one of each (the parser sees to that), each among those offered  *)
WithinOffer(o, m) ==
    /\ m.mspec = o.mspec
    /\ m.asym \subseteq o.asym
    /\ m.hash \subseteq o.hash
    /\ m.mhash \subseteq o.hash
    /\ \A i \in 1..Len(m.structs) : \E j \in 1..Len(o.structs) :
            m.structs[i].t = o.structs[j].t /\ m.structs[i].sel \subseteq o.structs[j].sel

Both(c, st, cap) == cap \in c.caps /\ cap \in st.rsf

(* fx: what the cryptography says about a CHALLENGE_AUTH:                    *)
(*   fx.dig     digest of the received chain under the negotiated hash       *)
(*   fx.chain   the chain is a well formed container that validates to the   *)
(*              provisioned root                                             *)
(*   fx.sig     the signature is valid under the leaf key, over the digest   *)
(*              of the transcript with this response                         *)
ReqStep(c, st, m, fx) ==
    IF m.k = "malformed" THEN Refuse("malformed")
    ELSE IF m.k # Awaits(st) THEN Refuse("type")
    ELSE CASE m.k = "VERSION" ->
                IF Common(m) = {} THEN Refuse("noversion")
                ELSE [ok |-> TRUE, st |-> [st EXCEPT !.ph = "Capabilities", !.ver = Highest(Common(m))]]
           [] m.k = "CAPABILITIES" ->
                [ok |-> TRUE, st |-> [st EXCEPT !.ph = "Algorithms", !.rct = m.ct, !.rsf = m.flags]]
           [] m.k = "ALGORITHMS" ->
                IF ~WithinOffer(st.offer, m) THEN Refuse("algo")
                ELSE [ok |-> TRUE, st |->
                        [st EXCEPT !.ph = IF Both(c, st, CERT_CAP) THEN "IdAuth" ELSE "NewSession",
                                   !.mspec = m.mspec, !.mhash = m.mhash, !.hash = m.hash,
                                   !.asym = m.asym, !.structs = m.structs]]
           [] m.k = "DIGESTS" ->
                [ok |-> TRUE, st |-> [st EXCEPT !.hasDigs = TRUE, !.mask = m.mask, !.digs = m.digests]]
           [] m.k = "CERTIFICATE" ->
                IF m.slot # st.want THEN Refuse("slot")
                ELSE [ok |-> TRUE, st |->
                        [st EXCEPT !.ph = IF st.hand THEN "IdAuth" ELSE IF Both(c, st, CHAL_CAP) THEN "Challenge" ELSE "NewSession",
                                   !.held = TRUE, !.slot = m.slot, !.chain = m.chain]]
           [] m.k = "CHALLENGE_AUTH" ->
                IF m.slot # st.slot THEN Refuse("authslot")
                ELSE IF m.slot \notin ByteBits[m.mask] THEN Refuse("authmask")
                ELSE IF m.digest # fx.dig THEN Refuse("authdigest")
                ELSE IF ~fx.chain THEN Refuse("authchain")
                ELSE IF ~fx.sig THEN Refuse("authsig")
                ELSE [ok |-> TRUE, st |-> [st EXCEPT !.ph = "NewSession"]]

ReqLimits(c, r, trl, rspLen, sigLen) ==
    IF ~r.ok THEN r
    ELSE IF trl + rspLen - sigLen > c.trMax THEN Refuse("trfull")
    ELSE r

ReqDs(st) == IF st.hash = {} THEN 0 ELSE DigestSize(MinOf(st.hash))
ReqSs(st) == IF st.asym = {} THEN 0 ELSE SigSize(MinOf(st.asym))
=============================================================================
