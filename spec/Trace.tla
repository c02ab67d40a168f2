------------------------------- MODULE Trace --------------------------------
(* Trace validation: is every recorded session of the implementation a       *)
(* behaviour of Core?  The input holds many sessions; each is one initial    *)
(* state, and each of its events is one step.  An event that the             *)
(* specification does not allow is reported (REJECT, the session, the event, *)
(* the aspect that disagrees, the properties it breaks); if the outcome      *)
(* itself disagrees the rest of the session is skipped, since the two have   *)
(* parted.                                                                   *)
EXTENDS Core, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.TRACE)
Blobs == In.blobs
Cfgs == In.cfgs
Provs == In.provs
Traces == In.traces
NT == Len(Traces)

B(i) == IF i = 0 THEN <<>> ELSE Blobs[i]
SetOf(q) == {q[i] : i \in 1..Len(q)}

\* configurations and provisionings as the specification wants them
CfgOf == [i \in 1..Len(Cfgs) |-> [Cfgs[i] EXCEPT !.caps = SetOf(@), !.asyms = SetOf(@)]]
ProvOf == [i \in 1..Len(Provs) |->
    LET q == Provs[i].slots IN
    [s \in 0..(Len(q)-1) |->
        IF q[s+1].has
        THEN [has |-> TRUE,
              chain |-> EncChain(B(q[s+1].root), [j \in 1..Len(q[s+1].inter) |-> B(q[s+1].inter[j])],
                                 B(q[s+1].leaf)),
              dig |-> [h \in 1..3 |-> B(q[s+1].dig[h])]]
        ELSE [has |-> FALSE, chain |-> <<>>, dig |-> <<>>]]]
\* the recorder digested the same chain bytes
ProvsSound == \A i \in 1..Len(Provs) : \A s \in 1..Len(Provs[i].slots) :
    Provs[i].slots[s].has => ProvOf[i][s-1].chain = B(Provs[i].slots[s].chain)

VARIABLES tid, l, st
vars == <<tid, l, st>>

(****************************** transcripts *********************************)
(* As recorded: a list of blobs.  An event tells how it changed: "same",     *)
(* "app" (a blob was appended) or "set" (it is that blob).                   *)
RECURSIVE FlatT(_)
FlatT(t) == IF t = <<>> THEN <<>> ELSE B(Head(t)) \o FlatT(Tail(t))
NewTr(t, e) == CASE e.top = "same" -> t [] e.top = "app" -> Append(t, e.tb) [] e.top = "set" -> <<e.tb>>
\* is the new transcript the old one (or nothing, if reset) followed by x?
TrIs(t, e, reset, x) ==
    IF e.top = "app" /\ ~reset THEN B(e.tb) = x
    ELSE IF e.top = "set" /\ reset THEN B(e.tb) = x
    ELSE FlatT(NewTr(t, e)) = (IF reset THEN <<>> ELSE FlatT(t)) \o x

Flag(bad, aspect, props) == IF bad THEN {[a |-> aspect, p |-> props]} ELSE {}

(******************************* responder **********************************)
RespProps(k) ==
    CASE k = "GET_VERSION" -> {"C06", "C09"} [] k = "GET_CAPABILITIES" -> {"C18"}
      [] k = "NEGOTIATE_ALGORITHMS" -> {"C08"} [] k = "GET_DIGESTS" -> {"C12"}
      [] k = "GET_CERTIFICATE" -> {"C12"} [] k = "CHALLENGE" -> {"C05"} [] OTHER -> {}
OutProps(k) == IF k = "GET_VERSION" THEN {"C09"} ELSE RespProps(k)
CodeName(b) ==
    IF Len(b) < 2 THEN "none"
    ELSE CASE b[2] = GET_VERSION -> "GET_VERSION" [] b[2] = GET_CAPABILITIES -> "GET_CAPABILITIES"
           [] b[2] = NEGOTIATE_ALGORITHMS -> "NEGOTIATE_ALGORITHMS" [] b[2] = GET_DIGESTS -> "GET_DIGESTS"
           [] b[2] = GET_CERTIFICATE -> "GET_CERTIFICATE" [] b[2] = CHALLENGE -> "CHALLENGE"
           [] OTHER -> "none"
WhyProps(why, code) ==
    CASE why = "malformed" -> {"C03", "C14"} \cup (IF code = "NEGOTIATE_ALGORITHMS" THEN {"C08"} ELSE {})
      [] why = "dead" -> {"C03", "C07"} [] why = "phase" -> {"C03"} [] why = "cap" -> {"C18"}
      [] why = "slot" -> {IF code = "CHALLENGE" THEN "C05" ELSE "C12"}
      [] why = "algo" -> {"C08", "C23"} [] why = "sign" -> {"C05", "C07"} [] why = "buf" -> {"C13"}
      [] why = "trfull" -> {"C15", "C04"} [] why = "chainmax" -> {"C15", "C12"}

\* well formed but for the configured capacities
Over(c, b, P(_, _)) ==
    \/ Len(b) > 5 /\ b[2] = VERSION /\ b[6] > MaxVersions
    \/ Len(b) > 2 /\ b[2] \in {ALGORITHMS, NEGOTIATE_ALGORITHMS} /\ b[3] > MaxStructs
    \/ P([c EXCEPT !.chainMax = 65535, !.depth = 99, !.trMax = 1000000, !.opqN = 255, !.opqMax = 65535], b).ok

HonestProps(tr) == IF tr.honest THEN {"C11"} ELSE {}
SigProps(tr) == IF tr.sigclass THEN {"C20"} ELSE {}

\* an error that names the code of an unexpected message names that message's
CodeReported(uc, b) == uc = <<>> \/ (Len(b) > 1 /\ uc[2] = b[2] /\ uc[1] # uc[2])
NoNonceSig(b, ds, nl, ss) ==      \* a CHALLENGE_AUTH without nonce and signature
    IF Len(b) < 4 + ds + nl + ss \/ b[2] # CHALLENGE_AUTH THEN b
    ELSE SubSeq(b, 1, 4 + ds) \o SubSeq(b, 5 + ds + nl, Len(b) - ss)

RestartProps(r) == IF r.ok /\ r.reset THEN {"C06"} ELSE {}
OutUnder(c, sl, s, pm, nonce, h) ==
    LET r == RspStep(c, sl, [s EXCEPT !.hash = {h}], pm, nonce, TRUE) IN
    IF ~r.ok THEN <<>> ELSE IF pm.k = "CHALLENGE" THEN EncChallengeAuthNoSig(r.m) ELSE EncResponse(c, r.m)

JudgeServe(c, sl, tr, s, e, used) ==
    LET req == B(e.req)  out == B(e.out)
        pm == ParseRequest(c, req)
        code == CodeName(req)
        ds == ReqDs(s)  ss == ReqSs(s)
        isChal == pm.k = "CHALLENGE"
        nonce == IF isChal /\ Len(out) >= 4 + ds + c.nonceLen THEN Slice(out, 5 + ds, c.nonceLen)
                 ELSE Zeros(c.nonceLen)
        signOk == ~isChal \/ pm.slot \notin SetOf(e.sf)
        r0 == RspStep(c, sl, s, pm, nonce, signOk)
        attest == r0.ok /\ isChal
        sigLen == IF attest THEN ss ELSE 0
        m0 == r0.m
        \* no property fixes the CT exponent
        m == IF r0.ok /\ m0.k = "CAPABILITIES" /\ Len(out) >= 6 THEN [m0 EXCEPT !.ct = out[6]] ELSE m0
        exp == IF ~r0.ok THEN <<>> ELSE IF attest THEN EncChallengeAuthNoSig(m) ELSE EncResponse(c, m)
        rspLen == Len(exp) + sigLen
        base == IF r0.ok /\ r0.reset THEN 0 ELSE tr.len
        r == RspLimits(c, r0, tr.len, Len(req), rspLen, sigLen, e.cap)
        ok == e.res = "ok"
        body == IF Len(out) >= sigLen THEN SubSeq(out, 1, Len(out) - sigLen) ELSE <<>>
        po == IF out = <<>> THEN Malformed ELSE ParseResponse(c, out, ds, ss)
        \* exactly the bytes of the message meant, or at least of some message
        wellOut == IF r0.ok /\ body = exp /\ Len(out) = rspLen THEN TRUE
                   ELSE IF ~po.ok THEN FALSE ELSE EncResponse(c, po) = out
        nearCap == e.cap < rspLen + 8
        nearTr == base + Len(req) + rspLen - sigLen + 64 > c.trMax
        nearChain == \E x \in Provisioned(c, sl) : Len(sl[x].chain) + 8 > c.chainMax
        twin == IF ~e.tw.has THEN {}
                ELSE Flag(\/ e.tw.res # e.res \/ e.tw.ph # e.ph
                          \/ NoNonceSig(B(e.tw.out), ds, c.nonceLen, ss) # NoNonceSig(out, ds, c.nonceLen, ss)
                          \/ ~e.tw.tr,
                          "differs from a new responder", {"C06"})
        outcome ==
            IF e.res = "panic"
            THEN Flag(TRUE, "panic", {"C10", "C07"} \cup HonestProps(tr.t)
                        \cup (IF r.ok THEN RespProps(pm.k) ELSE WhyProps(r.why, code))
                        \cup (IF nearCap THEN {"C13"} ELSE {})
                        \cup (IF nearTr \/ nearChain THEN {"C15"} ELSE {}))
            ELSE IF r.ok /\ ~ok
            THEN Flag(TRUE, "refused a request it has to serve",
                      {"C03", "C14"} \cup RespProps(pm.k) \cup HonestProps(tr.t)
                      \cup (IF nearCap THEN {"C13"} ELSE {})
                      \cup (IF nearTr \/ nearChain THEN {"C15"} ELSE {}))
            ELSE IF ~r.ok /\ ok
            THEN Flag(TRUE, "served a request it has to refuse: " \o r.why, WhyProps(r.why, code)
                        \cup (IF Len(out) > 1 /\ out[2] = ERROR THEN {"C07"} ELSE {})
                        \cup (IF r0.ok /\ (body # exp \/ Len(out) # rspLen) THEN RespProps(pm.k) ELSE {})
                        \cup (IF ~wellOut THEN {"C14"} ELSE {})
                        \cup (IF r.why = "malformed" /\ Over(c, req, ParseRequest) THEN {"C15"} ELSE {}))
            ELSE {}
        agreed == outcome = {}
        \* the same response had another hash been negotiated
        otherHash == \E h \in {0, 1, 2} \ s.hash : OutUnder(c, sl, s, pm, nonce, h) = body
        good == IF ~(agreed /\ ok) THEN {} ELSE
               Flag(e.ph # r.st.ph, "phase", {"C03"} \cup RestartProps(r))
          \cup Flag(body # exp /\ pm.k \in {"GET_DIGESTS", "CHALLENGE"} /\ otherHash,
                    "digests under another hash than negotiated", {"C08"})
          \cup Flag(attest /\ Len(out) > 2 /\ out[3] # exp[3] /\ out[3] % 16 = exp[3] % 16,
                    "mutual authentication indication", {"C05", "C18"})
          \cup Flag(attest /\ Len(e.sg) = 1 /\ \E h \in {0, 1, 2} \ s.hash : B(e.sg[1].m) = B(e.th[h + 1]),
                    "signature under another hash than negotiated", {"C08"})
          \cup Flag(body # exp \/ Len(out) # rspLen, "response", OutProps(pm.k))
          \cup Flag(~wellOut, "encoding of the response", {"C14"})
          \cup Flag(~TrIs(tr.p, e, r.reset, req \o body), "transcript",
                    {"C04"} \cup HonestProps(tr.t) \cup RestartProps(r))
          \cup Flag(IF attest
                    THEN ~(/\ Len(e.sg) = 1
                           /\ e.sg[1].s = pm.slot /\ e.sg[1].ok
                           /\ B(e.sg[1].m) = B(e.th[MinOf(s.hash) + 1])
                           /\ Len(out) >= ss /\ SubSeq(out, Len(out) - ss + 1, Len(out)) = B(e.sg[1].sig))
                    ELSE e.sg # <<>>, "signature", {"C05"})
          \cup Flag(e.hf /\ ~(e.f.rct # 0-1 => e.f.rct = r.st.rct /\ SetOf(e.f.rqf) = r.st.rqf),
                    "recorded capabilities", {"C18"})
          \cup Flag(e.hf /\ ~(e.f.alg => SetOf(e.f.hash) = r.st.hash /\ SetOf(e.f.asym) = r.st.asym),
                    "recorded algorithms", {"C08"})
        fail == IF ~(agreed /\ ~ok) THEN {} ELSE
               Flag(e.ph # "Error", "phase after an error", {"C07"})
          \cup Flag(~ErrorReplyOk(out, e.cap), "error reply", {"C07", "C14"})
          \cup Flag(Len(out) >= 4 /\ out[2] = ERROR /\ out[3] = 7 /\ (Len(req) < 2 \/ (Len(req) > 1 /\ out[4] # req[2])),
                    "the request an ERROR says is not supported", {"C07"})
          \cup Flag(~CodeReported(e.uc, req), "code reported as unexpected", {"C07"})
          \cup Flag(\E i \in 1..Len(e.sg) : e.sg[i].ok /\ (~isChal \/ pm.slot # e.sg[i].s),
                    "signed although refused", {"C05"})
        st2 == IF r.ok THEN r.st ELSE RspError(s)
        parted == ~agreed \/ e.ph # st2.ph
        newlen == IF agreed /\ ok THEN base + Len(req) + Len(body)
                  ELSE IF e.top = "same" THEN tr.len ELSE Len(FlatT(NewTr(tr.p, e)))
        drawn == IF agreed /\ ok /\ attest /\ Len(out) = rspLen THEN {nonce} ELSE {}
        fresh == Flag(drawn # {} /\ nonce \in used, "a nonce used before", {"C16"})
            \cup Flag(drawn # {} /\ nonce = pm.nonce, "the nonce of the request", {"C16"})
    IN [bad |-> outcome \cup good \cup fail \cup twin \cup fresh, cont |-> ~parted, nn |-> drawn,
        s |-> st2, p |-> NewTr(tr.p, e), len |-> newlen]

(******************************* requester **********************************)
ReqKind(k) ==
    CASE k = "GET_CAPABILITIES" -> {"C18"} [] k = "NEGOTIATE_ALGORITHMS" -> {"C08", "C23"}
      [] k \in {"GET_DIGESTS", "GET_CERTIFICATE", "CHALLENGE"} -> {"C12"} [] OTHER -> {}
AnyNonce(c) == Zeros(c.nonceLen)

JudgeNext(c, tr, s, e, used) ==
    LET out == B(e.out)
        live == s.ph \in ReqLive
        exp == IF live THEN ReqNext(c, s, AnyNonce(c)) ELSE Malformed
        got == ParseRequest(c, out)
        \* the algorithm structures are free, so their number is
        len == IF ~live THEN 0
               ELSE IF s.ph = "Algorithms" THEN (IF e.res = "ok" THEN Len(out) ELSE e.need)
               ELSE Len(EncRequest(exp))
        r == ReqNextLimits(c, s, tr.len, len, e.cap)
        ok == e.res = "ok"
        nearTr == tr.len + len + 16 > c.trMax
        outcome ==
            IF e.res = "panic" /\ live THEN Flag(TRUE, "panic", {"C10"} \cup HonestProps(tr.t)
                 \cup (IF e.cap < len + 8 THEN {"C13"} ELSE {}) \cup (IF nearTr THEN {"C15"} ELSE {}))
            ELSE IF r.ok /\ ~ok THEN Flag(TRUE, "no request although it fits",
                 {"C13", "C02"} \cup HonestProps(tr.t) \cup (IF nearTr THEN {"C15"} ELSE {}))
            ELSE IF ~r.ok /\ ok THEN Flag(TRUE, "a request although: " \o r.why,
                 CASE r.why = "phase" -> {"C07", "C02"} [] r.why = "buf" -> {"C13"} [] r.why = "trfull" -> {"C15", "C04"})
            ELSE {}
        agreed == outcome = {}
        good == IF ~(agreed /\ ok) THEN {} ELSE
               Flag(~got.ok \/ (got.ok /\ EncRequest(got) # out), "encoding of the request", {"C14"})
          \cup (IF ~got.ok THEN Flag(TRUE, "request", {"C02"} \cup ReqKind(exp.k))
                ELSE Flag(got.k # exp.k, "type of the request", {"C02"})
                \cup Flag(got.k = exp.k /\ ~RequestMeets(exp, got), "request", ReqKind(exp.k)))
          \cup Flag(~TrIs(tr.p, e, s.ph = "Version", out), "transcript", {"C04", "C13"} \cup HonestProps(tr.t))
          \cup Flag(e.ph # s.ph, "phase", {"C02"})
        fail == IF ~(agreed /\ ~ok /\ live) THEN {} ELSE
               Flag(e.ph # s.ph, "phase after a request that did not fit", {"C13"})
          \cup Flag(e.top # "same", "transcript after a request that did not fit",
                    {"C13"} \cup (IF r.why = "trfull" THEN {"C15"} ELSE {}))
        done == agreed /\ ok /\ got.ok
        drawn == IF done /\ got.k = "CHALLENGE" THEN {got.nonce} ELSE {}
        newlen == IF agreed /\ ok THEN (IF s.ph = "Version" THEN 0 ELSE tr.len) + Len(out)
                  ELSE IF e.top = "same" THEN tr.len ELSE Len(FlatT(NewTr(tr.p, e)))
    IN [bad |-> outcome \cup good \cup fail
                \cup Flag(drawn # {} /\ drawn \subseteq used, "a nonce used before", {"C16"}),
        cont |-> agreed /\ e.ph = s.ph, nn |-> drawn,
        s |-> IF done THEN ReqWrote(s, got) ELSE s, p |-> NewTr(tr.p, e), len |-> newlen]

RspKind(k) ==
    CASE k = "VERSION" -> {"C09"} [] k = "CAPABILITIES" -> {"C18"} [] k = "ALGORITHMS" -> {"C08"}
      [] k \in {"DIGESTS", "CERTIFICATE"} -> {"C12"} [] OTHER -> {}
ReqWhy(why, awaited) ==
    LET a == IF awaited = "CHALLENGE_AUTH" THEN {"C01"} ELSE {} IN
    CASE why = "malformed" -> {"C02", "C14"} \cup a
                              \cup RspKind(awaited)
      [] why = "type" -> {"C02"} \cup a [] why = "noversion" -> {"C09"}
      [] why = "algo" -> {"C08", "C23"} [] why = "slot" -> {"C12"} [] why = "trfull" -> {"C15", "C04"}
      [] OTHER -> {"C01"}

ReqFields(c, e, s) ==
    LET f == e.f IN
         Flag(f.ver # <<>> /\ f.ver # s.ver, "negotiated version", {"C09"})
    \cup Flag(f.rct # 0-1 /\ ~(f.rct = s.rct /\ SetOf(f.rsf) = s.rsf), "recorded capabilities", {"C18"})
    \cup Flag(f.alg /\ ~(/\ SetOf(f.hash) = s.hash /\ SetOf(f.asym) = s.asym /\ SetOf(f.mhash) = s.mhash
                         /\ f.mspec = s.mspec
                         /\ [i \in 1..Len(f.structs) |-> [t |-> f.structs[i].t, sel |-> SetOf(f.structs[i].sel)]]
                              = s.structs), "recorded algorithms", {"C08", "C14"})
    \cup Flag(f.dig /\ ~(/\ s.hasDigs /\ f.mask = s.mask
                         /\ \A x \in 0..(c.nslots-1) : B(f.digs[x+1]) = s.digs[x]), "stored digests", {"C12"})
    \cup Flag(f.cert /\ ~(f.slot = s.slot /\ B(f.chain) = s.chain), "stored certificate chain", {"C12"})

LaterDone(ev, k) == \E i \in k..Len(ev) : ev[i].k = "handle" /\ ev[i].res = "done"

(* The recorder verified the chain and the signature that the specification  *)
(* sees, not what the implementation took them for                           *)
FactsSound(fx, h, ch, pm, rsp, ss) ==
    /\ fx.has
    /\ ch.ok => /\ fx.split[h]
               /\ [i \in 1..Len(fx.inter[h]) |-> B(fx.inter[h][i])] = ch.inter
               /\ B(fx.leaf[h]) = ch.leaf
    /\ fx.pos[h] > 0 /\ Slice(rsp, fx.pos[h], ss) = pm.sig

JudgeHandle(c, tr, s, e, ev, k) ==
    LET rsp == B(e.rsp)
        ds == ReqDs(s)  ss == ReqSs(s)
        pm == ParseResponse(c, rsp, ds, ss)
        h == IF s.hash = {} THEN 0 ELSE MinOf(s.hash)
        isAuth == pm.k = "CHALLENGE_AUTH" /\ s.ph = "Challenge"
        ch == IF isAuth THEN ParseChain(c, s.chain, ds) ELSE Bad
        fx == IF isAuth /\ Assert(FactsSound(e.fx, h + 1, ch, pm, rsp, ss), "TOOL ERROR: facts of a CHALLENGE_AUTH")
              THEN [dig |-> B(e.fx.dig[h+1]), chain |-> ch.ok /\ e.fx.valid[h+1], sig |-> e.fx.sig[h+1]]
              ELSE [dig |-> <<>>, chain |-> FALSE, sig |-> FALSE]
        r == ReqLimits(c, ReqStep(c, s, pm, fx), tr.len, Len(rsp), IF isAuth THEN ss ELSE 0)
        ok == e.res \in {"ok", "done"}
        authable == Both(c, s, CERT_CAP) /\ Both(c, s, CHAL_CAP)
        nearTr == tr.len + Len(rsp) + 64 > c.trMax
        outcome ==
            IF e.res = "panic" THEN Flag(TRUE, "panic", {"C10", "C07"} \cup HonestProps(tr.t) \cup SigProps(tr.t)
                 \cup (IF r.ok THEN RspKind(pm.k) ELSE ReqWhy(r.why, Awaits(s)))
                 \cup (IF nearTr THEN {"C15"} ELSE {}))
            ELSE IF r.ok /\ ~ok THEN Flag(TRUE, "rejected a response it has to accept",
                 {"C02", "C14"} \cup RspKind(pm.k) \cup HonestProps(tr.t) \cup SigProps(tr.t)
                 \cup (IF nearTr \/ (pm.k = "CERTIFICATE" /\ Len(pm.chain) + 8 > c.chainMax) THEN {"C15"} ELSE {}))
            ELSE IF ~r.ok /\ ok THEN Flag(TRUE, "accepted a response it has to reject: " \o r.why,
                 ReqWhy(r.why, Awaits(s))
                 \cup (IF r.why = "malformed" /\ Over(c, rsp, LAMBDA w, b : ParseResponse(w, b, ds, ss)) THEN {"C15"} ELSE {})
                 \cup (IF LaterDone(ev, k) /\ Both(c, s, CERT_CAP) /\ Both(c, s, CHAL_CAP) THEN {"C01"} ELSE {})
                 \cup (IF r.why = "authsig" THEN SigProps(tr.t) ELSE {}))
            ELSE {}
        agreed == outcome = {}
        good == IF ~(agreed /\ ok) THEN {} ELSE
               Flag(e.ph # r.st.ph, "phase",
                    {"C02", "C18"} \cup (IF e.ph = "NewSession" THEN {"C01"} ELSE {}))
          \cup Flag((e.res = "done") # (r.st.ph = "NewSession"), "completion",
                    {"C02"} \cup (IF e.res = "done" /\ authable THEN {"C01"} ELSE {}))
          \cup Flag(~TrIs(tr.p, e, FALSE, IF isAuth THEN SubSeq(rsp, 1, Len(rsp) - ss) ELSE rsp),
                    "transcript", {"C04"} \cup HonestProps(tr.t))
          \cup (IF e.hf THEN ReqFields(c, e, r.st) ELSE {})
        fail == IF ~(agreed /\ ~ok) THEN {} ELSE Flag(e.ph # "Error", "phase after an error", {"C07"})
                 \cup Flag(~CodeReported(e.uc, rsp), "code reported as unexpected", {"C07"})
        newlen == IF agreed /\ ok THEN tr.len + Len(rsp) - (IF isAuth THEN ss ELSE 0)
                  ELSE IF e.top = "same" THEN tr.len ELSE Len(FlatT(NewTr(tr.p, e)))
        st2 == IF r.ok THEN r.st ELSE [s EXCEPT !.ph = "Error"]
    IN [bad |-> outcome \cup good \cup fail, cont |-> agreed /\ e.ph = st2.ph, nn |-> {},
        s |-> st2, p |-> NewTr(tr.p, e), len |-> newlen]

(******************************* sessions ***********************************)
(* A peer's call after its error phase (or after completion): it may panic   *)
(* or fail but must produce nothing.                                         *)
\* A call outside the judged ones panicked, one that only observes or provisions
JudgeAbort(e) == Flag(TRUE, "the driver could not go on",
    {"C10"} \cup (IF e.g \in {"b_rsp", "rsp_phase", "rsp_wire", "rsp_slots", "rsp_offers", "rsp_caps", "rsp_buf", "rsp_restart", "rsp_room", "rsp_long", "rsp_sizes", "rsp_rand"}
                  THEN {"C03"} ELSE IF e.g \in {"b_net", "b_far", "net_honest", "net_mitm", "net_sig", "net_hand", "net_long"} THEN {"C11"} ELSE {"C02"}))
JudgeDead(e) == Flag(e.res \in {"ok", "done"}, "a call after the end", {"C07", "C02"})

(* The end of a session of two honest peers                                  *)
JudgeEnd(c, x, e) ==
    LET n == x.rq.s  t == x.rs.s IN
         Flag(e.expect /\ n.ph # "NewSession", "the handshake is not complete", {"C11"})
    \cup Flag(n.ph = "NewSession" /\ FlatT(x.rq.p) # FlatT(x.rs.p), "transcripts differ", {"C04", "C11"})
    \cup Flag(n.ph = "NewSession" /\ ~(n.hash = t.hash /\ n.asym = t.asym), "algorithms differ", {"C11", "C08"})

Step(x, ev, k, tr) ==
    LET e == ev[k]
        c == CfgOf[tr.cfg]
        sl == ProvOf[tr.prov]
        put(who, r) == [st |-> [x EXCEPT ![who] = [s |-> r.s, p |-> r.p, len |-> r.len, t |-> @.t],
                                         !.on = r.cont, !.nn = @ \cup r.nn,
                                         !.rf = IF e.k = "next" THEN @ \/ e.res # "ok" ELSE IF e.k = "handle" THEN FALSE ELSE @],
                        \* what follows a request that did not fit
                        bad |-> IF who = "rq" /\ x.rf THEN {[b EXCEPT !.p = @ \cup {"C13"}] : b \in r.bad} ELSE r.bad]
    IN CASE e.k = "abort" -> [st |-> x, bad |-> JudgeAbort(e)]
         [] e.k = "serve" -> put("rs", JudgeServe(c, sl, x.rs, x.rs.s, e, x.nn))
         [] e.k = "next" -> put("rq", JudgeNext(c, x.rq, x.rq.s, e, x.nn))
         [] e.k = "handle" -> put("rq", JudgeHandle(c, x.rq, x.rq.s, e, ev, k))
         [] e.k = "reset" ->
              [st |-> [x EXCEPT !.rs = [s |-> RspInit, p |-> <<>>, len |-> 0, t |-> @.t]],
               bad |-> Flag(e.ph # "Version" \/ FlatT(NewTr(x.rs.p, e)) # <<>>, "reset", {"C06"})]
         \* choices of who drives the states by hand, which they carry out without a message
         [] e.k = "hand" -> [st |-> [x EXCEPT !.rq.s = ReqHand(@)], bad |-> {}]
         [] e.k = "ask" -> [st |-> [x EXCEPT !.rq.s = ReqAsk(@, e.what, e.slot)], bad |-> {}]
         [] e.k = "move" -> [st |-> [x EXCEPT !.rq.s = ReqMove(@)],
                             bad |-> Flag(e.ph # "Challenge" \/ ~x.rq.s.held, "the states of a requester", {"C02"})]
         [] e.k = "renew" ->
              [st |-> [x EXCEPT !.rq = [s |-> ReqInit, p |-> <<>>, len |-> 0, t |-> @.t]], bad |-> {}]
         [] e.k = "dead" -> [st |-> x, bad |-> JudgeDead(e)]
         [] e.k = "end" -> [st |-> x, bad |-> JudgeEnd(c, x, e)]

Report(t, k, bad) ==
    \A b \in bad : PrintT(<<"REJECT", t, k, b.a, b.p>>)

Flags(t) == [honest |-> Traces[t].honest, sigclass |-> Traces[t].sigclass]
Init ==
    /\ Assert(ProvsSound, "TOOL ERROR: provisioned chains")
    /\ tid \in 1..NT /\ l = 1
    /\ st = [rs |-> [s |-> RspInit, p |-> <<>>, len |-> 0, t |-> Flags(tid)],
             rq |-> [s |-> ReqInit, p |-> <<>>, len |-> 0, t |-> Flags(tid)], on |-> TRUE,
             nn |-> {},       \* the nonces drawn in this session
             rf |-> FALSE]    \* whether a request was refused since the last response
Next ==
    /\ l <= Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ IF ~st.on THEN
          /\ st' = st
          /\ LET e == Traces[tid].ev[l] IN
             /\ e.k = "end" => Report(tid, l, Flag(e.expect /\ e.ph # "NewSession", "the handshake is not complete", {"C11"}))
             /\ e.k = "abort" => Report(tid, l, JudgeAbort(e))
       ELSE LET r == Step(st, Traces[tid].ev, l, Traces[tid])
            IN st' = r.st /\ Report(tid, l, r.bad)
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
