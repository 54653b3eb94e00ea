------------------------------ MODULE TraceHttp -----------------------------
(* Checks the HTTP codecs used directly: a stream of heads, cut anywhere, decoded into    *)
(* its heads one at a time; heads encoded and read back.                                  *)
EXTENDS Handshake, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, off
vars == <<tid, l, off>>
T == Traces[tid]
E == T.ev[l]
Done == l > Len(T.ev)
Bad(why) == PrintT(<<"REJECT", T.id, l, why>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<tid, off>>
Rest == Drop(T.raw, off)
Parse(ls) == IF T.server THEN RequestOf(ls) ELSE ResponseOf(ls)
ShownDiff(r) == IF E.v11 # r.v11 THEN "version" ELSE
            IF T.server THEN (IF E.method # r.method THEN "method" ELSE IF E.uri # r.target THEN "uri" ELSE ExposedDiff(r.fs, E.headers))
            ELSE (IF E.code # r.code THEN "status" ELSE ExposedDiff(r.fs, E.headers))
DecStep ==
  \E s \in {Rest} : \E e \in {HeadEnd(s)} : \E r \in {IF e = 0 THEN [cls |-> "none"] ELSE Parse(HeadLines(s))} :
    CASE E.k = "head" ->
           IF e = 0 \/ off + e > E.a THEN Bad("head-invented")
           ELSE IF E.c # off + e THEN Bad("not-exactly-one-head")
           ELSE IF E.buf # E.a - E.c THEN Bad("buffer-changed")
           ELSE IF r.cls = "malformed" THEN Bad("malformed-taken")
           ELSE IF r.cls = "ok" /\ ShownDiff(r) # "" THEN Bad("shown:" \o ShownDiff(r))
           ELSE l' = l + 1 /\ off' = off + e /\ UNCHANGED tid
      [] E.k = "none" ->
           IF e > 0 /\ off + e <= E.a THEN Bad("withheld")
           ELSE IF E.c # off \/ E.buf # E.a - off THEN Bad("bytes-taken")
           ELSE l' = l + 1 /\ UNCHANGED <<tid, off>>
      [] E.k = "err" -> IF r.cls \in {"malformed", "either"} \/ T.junk THEN l' = l + 1 /\ UNCHANGED <<tid, off>> ELSE Bad("refused")
      [] OTHER -> Bad(E.k)
Header(h) == CustomFields(h)
EncStep ==
  \E h \in {T.heads[l]} : \E r \in {IF E.lines = <<>> THEN [cls |-> "malformed"] ELSE IF T.server THEN ResponseOf(E.lines) ELSE RequestOf(E.lines)} :
    IF E.k # "enc" THEN Bad(E.k)
    ELSE IF ~E.ok THEN Bad("encode-failed")
    ELSE IF ~E.kept THEN Bad("buffer-changed")
    ELSE IF E.extra # <<>> THEN Bad("extra-bytes")
    ELSE IF r.cls = "malformed" THEN Bad("malformed-head")
    ELSE IF r.cls = "ok" /\ (IF T.server THEN r.code # h.code ELSE r.method # h.method \/ r.target # h.uri) THEN Bad("start-line")
    ELSE IF r.cls = "ok" /\ r.v11 # h.v11 THEN Bad("version")
    ELSE IF r.cls = "ok" /\ (NamesOf(r.fs) # NamesOf(Header(h.fields)) \/ \E n \in NamesOf(r.fs) : ValuesOf(r.fs, n) # ValuesOf(Header(h.fields), n)) THEN Bad("headers")
    ELSE l' = l + 1 /\ UNCHANGED <<tid, off>>
Finish == IF T.ev = <<>> THEN Bad("empty-trace")
          ELSE PrintT(<<"ACCEPT", T.id>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<tid, off>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ off = 0
TraceNext == \/ ~Done /\ (IF T.fam = "httpc" THEN DecStep ELSE EncStep)
             \/ Done /\ l = Len(T.ev) + 1 /\ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
