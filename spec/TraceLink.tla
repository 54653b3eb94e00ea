----------------------------- MODULE TraceLink ------------------------------
(* Traces of two endpoints of the real code: sends at one end, receives at the     *)
(* other, in memory through scripted transports or over TCP.                       *)
EXTENDS Link, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
vars == <<lvars, tid, l>>
T == Traces[tid]
E == T.ev[l]
Bad(why) == PrintT(<<"REJECT", T.id, l, why>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<lvars, tid>>
Next_l == l' = l + 1 /\ UNCHANGED tid
Skip == UNCHANGED lvars /\ Next_l

MsgOfArg(a) == [t |-> a.t, code |-> a.code, p |-> a.p]
Sendable(a) == IsCtl(a.t) => BLen(IF a.o = "df" THEN a.p ELSE MsgPayload(a)) <= 125
SendStep(a) == IF a.o = "df" THEN SendFrame(0, a.fin, a.t, a.p) /\ Next_l
               ELSE Send(0, MsgOfArg(a)) /\ Next_l
Got(d, m) ==
  IF fly[d] = <<>> THEN Bad("invented")
  ELSE IF Head(fly[d]) # m
       THEN Bad(IF Len(fly[d]) > 1 /\ fly[d][2] = m THEN "lost" ELSE IF Head(fly[d]).t # m.t THEN "kind" ELSE "changed")
  ELSE Deliver(d, m) /\ Next_l
EndOf(d) == IF fly[d] # <<>> THEN Bad("lost")
            ELSE /\ ended' = [ended EXCEPT ![d] = TRUE] /\ shut' = [shut EXCEPT ![d] = TRUE]
                 /\ UNCHANGED <<fly, part, deliv>> /\ Next_l

Step ==
  CASE E.k \in {"panic", "hang", "crash", "badfamily"} -> Bad(E.k)
    [] E.k \in {"send", "start"} /\ "a" \in DOMAIN E ->
         IF E.r = "ok" THEN (IF Sendable(E.a) THEN SendStep(E.a) ELSE Bad("accepted-oversized-control"))
         ELSE IF E.r = "full" THEN Skip
         ELSE IF Sendable(E.a) THEN Bad("send-failed") ELSE Skip
    [] E.k = "send" -> Send(E.d, [t |-> E.t, code |-> E.code, p |-> E.p]) /\ Next_l
    [] E.k = "flush" -> IF E.r = "err" THEN Bad("send-failed") ELSE Skip
    [] E.k = "sent" -> Shut(0) /\ Next_l
    [] E.k = "msg" -> Got(0, [t |-> E.t, code |-> E.code, p |-> E.p])
    [] E.k = "recv" -> Got(E.d, [t |-> E.t, code |-> E.code, p |-> E.p])
    [] E.k \in {"none", "wb"} -> Skip
    [] E.k \in {"eof", "end"} /\ "d" \notin DOMAIN E -> EndOf(0)
    [] E.k = "end" -> EndOf(E.d)
    [] E.k = "err" -> IF E.eof /\ fly[0] = <<>> THEN EndOf(0) ELSE Bad("receive-failed")
    [] E.k = "senderr" -> Bad("send-failed")
    [] E.k = "handshake" -> Bad("handshake-failed")
    [] OTHER -> Bad("unknown-event")
Init == LInit /\ tid \in 1..Len(Traces) /\ l = 1
Next == \/ l <= Len(T.ev) /\ Step
        \/ /\ l = Len(T.ev) + 1
           /\ IF T.ev = <<>> THEN Bad("empty-trace")
              ELSE IF \E d \in Dirs : fly[d] # <<>> THEN Bad("lost")
              ELSE PrintT(<<"ACCEPT", T.id>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<lvars, tid>>
TraceSpec == Init /\ [][Next]_vars
EndIsLast == \A d \in Dirs : ended[d] => fly[d] = <<>>
=============================================================================
