--------------------------- MODULE TraceClientHs ----------------------------
(* Checks one connection attempt of the client builder: the request it wrote against     *)
(* Builder and Url, what it made of the peer's response against Handshake.                *)
EXTENDS Builder, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, phase, keytext, resp, HeadLen
vars == <<tid, l, phase, keytext, resp, HeadLen>>
T == Traces[tid]
E == T.ev[l]
Done == l > Len(T.ev)
RawLen == Len(T.raw)
PieceEnd == LET S == {T.cuts[i] : i \in {i \in 1..Len(T.cuts) : T.cuts[i] >= HeadLen}}
            IN IF S = {} THEN RawLen ELSE CHOOSE x \in S : \A y \in S : x <= y
Complete(a) == HeadLen > 0 /\ HeadLen <= a
Bad(why) == PrintT(<<"REJECT", T.id, l, why>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<tid, phase, keytext, resp, HeadLen>>
Go(p) == l' = l + 1 /\ phase' = p /\ UNCHANGED <<tid, keytext, resp, HeadLen>>

ReqStep ==
  \E r \in {IF E.lines = <<>> THEN [cls |-> "malformed"] ELSE RequestOf(E.lines)} :
  \E d \in {IF E.url # UrlText(T.u) THEN "url-text"
            ELSE IF E.extra # <<>> THEN "extra-bytes"
            ELSE RequestDiff(BAfter(T.ops), T.u, r)} :
    IF T.wfail THEN Go("asked")
    ELSE IF d # "" THEN Bad(d)
    ELSE l' = l + 1 /\ phase' = "asked" /\ keytext' = KeyText(r) /\ UNCHANGED <<tid, resp, HeadLen>>

HsStep ==
  IF E.peak > MemoryBound(E.c) THEN Bad("memory")
  ELSE IF T.wfail THEN (IF E.r = "client" THEN Bad("connected-without-request") ELSE Go("failed"))
  ELSE IF ~Complete(E.a)
  THEN IF E.r = "client" THEN Bad("connected-without-response")
       ELSE IF E.r \in {"redirect", "status"} THEN Bad("outcome-without-response")
       ELSE IF ~E.eof /\ ~T.junk /\ resp.cls # "malformed" THEN Bad("outcome-without-response")
       ELSE Go("failed")
  ELSE \E V \in {ResponseVerdict(keytext, resp)} :
       IF V.k = "either" THEN (IF E.r \in {"redirect", "status"} /\ resp.cls = "ok" THEN Bad("wrong-outcome")
                               ELSE IF E.r # "client" THEN Go("failed")
                               ELSE IF resp.cls = "ok" /\ ExposedDiff(resp.fs, E.headers) # "" THEN Bad("headers-exposed") ELSE Go("connected"))
       ELSE IF V.k = "connect"
       THEN IF E.r # "client" THEN Bad("refused:" \o E.r)
            ELSE IF ExposedDiff(resp.fs, E.headers) # "" THEN Bad("headers-exposed")
            ELSE IF E.c > PieceEnd THEN Bad("read-too-far")
            ELSE Go("connected")
       ELSE IF E.r = "client" THEN Bad("connected:" \o (IF V.k = "refuse" THEN (IF resp.cls = "malformed" THEN "malformed"
                                                        ELSE CHOOSE w \in ResponseComplaints(keytext, resp) : TRUE) ELSE "status"))
       ELSE IF V.k = "redirect" THEN IF E.r # "redirect" THEN Bad("redirect-not-reported")
                                     ELSE IF E.code # V.code THEN Bad("status-changed")
                                     ELSE IF E.loc # V.loc THEN Bad("location-changed") ELSE Go("failed")
       ELSE IF V.k = "status" THEN IF E.r # "status" THEN Bad("status-not-reported")
                                   ELSE IF E.code # V.code THEN Bad("status-changed") ELSE Go("failed")
       ELSE IF V.k = "failed" THEN (IF E.code # V.code THEN Bad("status-changed") ELSE Go("failed"))
       ELSE IF E.r \in {"redirect", "status"} THEN Bad("wrong-outcome")
       ELSE Go("failed")
NegStep == IF ~Readable(resp, sSProtocol) \/ ~Readable(resp, sSExtensions) THEN Go("connected")
           ELSE IF E.protos # ListOf(resp.fs, sSProtocol) THEN Bad("client-protocols")
           ELSE IF E.exts # ExtsOf(resp.fs) THEN Bad("client-extensions") ELSE Go("connected")
LeftStep == IF E.left \o E.rest # Sub(T.raw, HeadLen + T.skip + 1, RawLen) THEN Bad("bytes-lost-taking-stream") ELSE Go("over")
FinStep == IF E.out # T.reqlen THEN Bad("wrote-more") ELSE Go("fin")
Step == CASE E.k \in {"panic", "hang", "crash", "badfamily"} -> Bad(E.k)
          [] E.k = "req" -> IF phase = "new" THEN ReqStep ELSE Bad("order")
          [] E.k = "hs" -> IF phase = "asked" THEN HsStep ELSE Bad("order")
          [] E.k = "neg" -> IF phase = "connected" THEN NegStep ELSE Bad("order")
          [] E.k = "left" -> IF phase = "connected" THEN LeftStep ELSE Bad("order")
          [] E.k = "fin" -> FinStep
          [] E.k = "splitfail" -> Bad(E.k)
          [] OTHER -> Bad("unknown-event")
Finish == IF phase # "fin" THEN Bad("no-outcome")
          ELSE PrintT(<<"ACCEPT", T.id>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<tid, phase, keytext, resp, HeadLen>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ phase = "new" /\ keytext = <<>> /\ HeadLen = HeadEnd(T.raw)
             /\ resp = IF HeadLen = 0 THEN [cls |-> "none"] ELSE ResponseOf(HeadLines(Take(T.raw, HeadLen)))
TraceNext == \/ ~Done /\ Step
             \/ Done /\ l = Len(T.ev) + 1 /\ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
