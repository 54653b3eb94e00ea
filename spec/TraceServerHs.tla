--------------------------- MODULE TraceServerHs ----------------------------
(* Checks what the server's entry points and the upgrade object did with a byte stream  *)
(* against Handshake.  One line per run: the bytes that come in (raw), where the        *)
(* transport cuts them (cuts), the entry point, the application's choice, the events.   *)
EXTENDS Handshake, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
\* httpver: the version of a request that someone else parsed, where it is not the one of the text
VARIABLES tid, l,
          phase,    \* "reading", "upgrade", "answered", "over"
          req,      \* the request as the specification reads it
          HeadLen   \* where its head ends
vars == <<tid, l, phase, req, HeadLen>>
T == Traces[tid]
E == T.ev[l]
Done == l > Len(T.ev)
RawLen == Len(T.raw)
Complete(a) == HeadLen > 0 /\ HeadLen <= a
(* end of the piece that completes the head *)
PieceEnd == LET S == {T.cuts[i] : i \in {i \in 1..Len(T.cuts) : T.cuts[i] >= HeadLen}}
            IN IF S = {} THEN RawLen ELSE CHOOSE x \in S : \A y \in S : x <= y
Bad(why) == PrintT(<<"REJECT", T.id, l, why>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<tid, phase, req, HeadLen>>
Go(p) == l' = l + 1 /\ phase' = p /\ UNCHANGED <<tid, req, HeadLen>>

OneText(fs, name) == IF CountField(fs, name) = 1 /\ IsAscii(ValuesOf(fs, name)[1]) THEN ValuesOf(fs, name)[1] ELSE <<>>
(* lists whose lines are not all text are not shown at all *)
ListText(r, name) == IF Readable(r, name) THEN ListOf(r.fs, name) ELSE <<>>
ReqShown(r) == IF E.method # r.method THEN "method-shown"
               ELSE IF E.uri # r.target THEN "uri-shown"
               ELSE IF E.ver # (IF T.httpver # "" THEN T.httpver ELSE IF r.v11 THEN "1.1" ELSE "1.0") THEN "version-shown"
               ELSE ExposedDiff(r.fs, E.headers)
UpgradeShown(r) ==
  IF ReqShown(r) # "" THEN ReqShown(r)
  ELSE IF E.key # B64Dec(KeyText(r)).bytes THEN "key-shown"
  ELSE IF E.hasversion # HasField(r.fs, sSVersion) \/ (E.hasversion /\ E.version # sV13) THEN "wsversion-shown"
  ELSE IF E.origin # OneText(r.fs, sOrigin) THEN "origin-shown"
  ELSE IF E.protos # ListText(r, sSProtocol) THEN "protocols-shown"
  ELSE IF E.exts # (IF Readable(r, sSExtensions) THEN ExtsOf(r.fs) ELSE <<>>) THEN "extensions-shown"
  ELSE IF E.uritext # r.target THEN "uri-shown"
  ELSE IF E.preset # <<>> THEN "headers-before-accept"
  ELSE ""
(* unread bytes handed over *)
LeftOK == E.left = Sub(T.raw, HeadLen + 1, E.c)
Verdict == IF req.cls = "none" THEN "none" ELSE RequestVerdict(req)

HsStep ==
  IF E.peak > MemoryBound(E.c) THEN Bad("memory")
  ELSE IF E.out # 0 THEN Bad("wrote-before-answer")
  ELSE IF E.r = "upgrade"
  THEN IF ~Complete(E.a) THEN Bad("upgrade-without-head")
       ELSE IF Verdict = "refuse" THEN Bad("accepted:" \o (IF req.cls = "malformed" THEN "malformed" ELSE CHOOSE w \in RequestComplaints(req) : TRUE))
       ELSE IF E.c > PieceEnd THEN Bad("read-too-far")
       ELSE IF ~LeftOK THEN Bad("leftover")
       ELSE IF req.cls = "ok" /\ UpgradeShown(req) # "" THEN Bad(UpgradeShown(req))
       ELSE Go("upgrade")
  ELSE (* invalid *)
       IF Complete(E.a) /\ req.cls = "ok"
       THEN IF Verdict = "offer" THEN Bad("refused:" \o E.why)
            ELSE IF E.why \in {"parse", "io"} THEN Bad("reason:" \o E.why)
            ELSE IF Verdict = "refuse" /\ ~ReasonHolds(req, E.why) THEN Bad("reason:" \o E.why)
            ELSE IF ~E.req THEN Bad("request-withheld")
            ELSE IF ReqShown(req) # "" THEN Bad(ReqShown(req))
            ELSE IF T.entry # "hyper" /\ ~LeftOK THEN Bad("leftover")
            ELSE IF E.c > PieceEnd THEN Bad("read-too-far")
            ELSE Go("invalid")
       ELSE IF Complete(E.a) \/ HeadLen > 0   \* malformed heads may be refused before they are complete
       THEN IF req.cls = "ok" THEN Bad("refused-early:" \o E.why)
            ELSE IF E.req /\ req.cls = "malformed" THEN Bad("request-from-malformed-head")
            ELSE IF E.why \notin {"parse", "io"} /\ req.cls = "malformed" THEN Bad("reason:" \o E.why)
            ELSE Go("invalid")
       ELSE IF ~E.eof /\ ~T.junk THEN Bad("outcome-without-head")
       ELSE IF E.req THEN Bad("request-without-head")
       ELSE IF E.why \notin {"io", "parse"} THEN Bad("reason:" \o E.why)
       ELSE Go("invalid")
WaitStep == IF E.out # 0 THEN Bad("wrote-before-answer")
            ELSE IF Complete(E.a) THEN Bad("withheld") ELSE Go("reading")

(* after a refusal the caller holds the stream: what it gives plus what it had is everything *)
BackStep ==
  LET all == E.left \o E.rest
      from == IF T.entry = "sync" THEN "hs" ELSE ""
  IN IF E.out # T.ev[l - 1].out THEN Bad("wrote-late")
     ELSE IF E.rest # Sub(T.raw, E.c + 1, RawLen) THEN Bad("bytes-lost-on-return")
     ELSE IF phase = "rejected" /\ T.entry = "async" /\ E.left # Sub(T.raw, HeadLen + 1, E.c) THEN Bad("leftover")
     ELSE Go("over")

Answer == IF E.lines = <<>> THEN [cls |-> "malformed"] ELSE ResponseOf(E.lines)
DoneStep ==
  IF E.act = "drop" THEN IF E.out # 0 THEN Bad("drop-wrote") ELSE Go("over")
  ELSE IF E.r \notin {"client", "stream"}
  THEN IF T.wfail THEN Go("over") ELSE Bad("failed-answer")
  ELSE IF T.wfail THEN Bad("failure-hidden")
  ELSE IF E.extra # <<>> THEN Bad("extra-bytes")
  ELSE IF E.r = "client"
  THEN LET d == IF req.cls # "ok" THEN "" ELSE AcceptDiff(req, Answer, T.customf, T.protos, T.exts)
       IN IF E.act \notin {"accept", "accept_with", "accept_lim", "accept_hl"} THEN Bad("unasked-connection")
          ELSE IF d # "" THEN Bad(d)
          ELSE IF ExposedDiff(Answer.fs, [i \in 1..Len(E.headers) |-> [n |-> E.headers[i].n, v |-> Clean(E.headers[i].v)]]) # "" THEN Bad("exposed-headers")
          ELSE IF E.c > PieceEnd THEN Bad("read-too-far")
          ELSE Go("connected")
  ELSE LET d == RejectDiff(Answer, T.customf, T.protos, T.exts)
       IN IF E.act \notin {"reject", "reject_with"} THEN Bad("unasked-rejection")
          ELSE IF d # "" THEN Bad(d)
          ELSE IF E.c > PieceEnd THEN Bad("read-too-far")
          ELSE Go("rejected")
NegStep == IF E.protos # Flatten2([i \in 1..Len(T.protos) |-> CommaItems(Clean(T.protos[i]))]) /\ E.protos # T.protos THEN Bad("client-protocols")
           ELSE IF E.exts # T.exts THEN Bad("client-extensions") ELSE Go("connected")
(* the stream taken back from the connection; the first T.skip bytes were read as messages *)
LeftStep == IF E.left \o E.rest # Sub(T.raw, HeadLen + T.skip + 1, RawLen) THEN Bad("bytes-lost-taking-stream")
            ELSE Go("over")
FinStep == IF phase \in {"reading", "invalid"} /\ E.out # 0 THEN Bad("wrote-without-answer")
           ELSE IF E.extra # 0 /\ ~T.wfail THEN Bad("extra-bytes") ELSE Go(phase)

Step == CASE E.k \in {"panic", "hang", "crash", "badfamily"} -> Bad(E.k)
          [] E.k = "wb" -> IF phase = "reading" THEN WaitStep ELSE Bad("order")
          [] E.k = "hs" -> IF phase = "reading" THEN HsStep ELSE Bad("order")
          [] E.k = "back" -> IF phase \in {"invalid", "rejected"} THEN BackStep ELSE Bad("order")
          [] E.k = "done" -> IF phase = "upgrade" THEN DoneStep ELSE Bad("order")
          [] E.k = "neg" -> IF phase = "connected" THEN NegStep ELSE Bad("order")
          [] E.k = "left" -> IF phase = "connected" THEN LeftStep ELSE Bad("order")
          [] E.k = "fin" -> FinStep
          [] E.k \in {"splitfail", "unparsed"} -> Bad(E.k)
          [] OTHER -> Bad("unknown-event")
Finish == IF T.ev = <<>> THEN Bad("empty-trace")
          ELSE IF T.act \notin {"none"} /\ phase = "upgrade" THEN Bad("no-answer")
          ELSE PrintT(<<"ACCEPT", T.id>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<tid, phase, req, HeadLen>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ phase = "reading" /\ HeadLen = HeadEnd(T.raw)
             /\ req = IF HeadLen = 0 THEN [cls |-> "none"]
                      ELSE LET r == RequestOf(HeadLines(Take(T.raw, HeadLen)))
                           IN IF r.cls = "ok" /\ T.httpver # "" THEN [r EXCEPT !.v11 = T.httpver \in {"1.1", "2.0"}] ELSE r
TraceNext == \/ ~Done /\ Step
             \/ Done /\ l = Len(T.ev) + 1 /\ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
