---------------------------- MODULE TraceMessage ----------------------------
(* Traces of a message carried through conversions in the real code.               *)
EXTENDS Message, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
vars == <<mvars, tid, l>>
T == Traces[tid]
E == T.ev[l]
Bad(why) == PrintT(<<"REJECT", T.id, l, why>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<mvars, tid>>

Encoding == [h |-> EncodeHeader(TRUE, 0, val.t, Size, <<>>), p |-> Payload]
Op == CASE E.o = "new" -> Keep
        [] E.o \in {"own", "msg", "into"} -> Convert
        [] E.o \in {"clone", "nop", "cd"} -> Keep
        [] E.o \in {"reframe", "split"} -> Remake
        [] E.o = "pong" -> \E ok \in BOOLEAN : IntoPong(ok)
OpResult == E.r = (IF E.o = "pong" /\ val.t # OpPing THEN "err" ELSE "ok")

Step ==
  IF E.k \in {"panic", "hang", "crash"} THEN Bad(E.k)
  ELSE IF E.k = "lost" THEN Bad("lost")
  ELSE IF E.k = "cd" THEN (IF E.b = Payload THEN UNCHANGED mvars /\ l' = l + 1 /\ UNCHANGED tid ELSE Bad("close-data-bytes"))
  ELSE IF ~OpResult THEN Bad("into-pong-result")
  ELSE Op /\ UNCHANGED tid /\ l' = l + 1
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ val = [t |-> T.t, code |-> T.code, p |-> T.p] /\ rep = T.rep
(* observation of event l - 1 compared in the state it left *)
Prev == T.ev[l - 1]
Shown == l > 1 /\ l <= Len(T.ev) + 1 /\ T.ev[l - 1].k = "obs"
WrongPrev == LET e == Prev IN
  IF e.t # val.t THEN "kind" ELSE IF e.code # val.code THEN "close-code" ELSE IF e.p # val.p THEN "payload"
  ELSE IF e.rep # rep THEN "representation"
  ELSE IF e.op # val.t \/ ~e.fin \/ e.rsv # 0 THEN "opcode-or-flags"
  ELSE IF e.size # Size THEN "size"
  ELSE IF e.wp # Payload THEN "written-payload"
  ELSE IF e.tp # Payload THEN "taken-payload"
  ELSE IF rep = "owned" /\ e.preds # Predicates THEN "predicates"
  ELSE IF e.fsm # EncodedSize(Size, TRUE) \/ e.fsu # EncodedSize(Size, FALSE) \/ e.msm # e.fsm \/ e.msu # e.fsu THEN "frame-size"
  ELSE IF e.enc # Encodable THEN "encodable"
  ELSE IF Encodable /\ (~e.encs \/ Len(e.w) # 1 \/ e.w[1].h # Encoding.h \/ e.w[1].p # Encoding.p) THEN "encoding"
  ELSE IF ~Encodable /\ e.w # <<>> THEN "encoding"
  ELSE ""
Next == IF Shown /\ WrongPrev # "" THEN Bad(WrongPrev)
        ELSE IF l <= Len(T.ev) THEN Step
        ELSE /\ l = Len(T.ev) + 1
             /\ IF T.ev = <<>> THEN Bad("empty-trace") ELSE PrintT(<<"ACCEPT", T.id>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<mvars, tid>>
TraceSpec == Init /\ [][Next]_vars
=============================================================================
