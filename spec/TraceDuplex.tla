---------------------------- MODULE TraceDuplex -----------------------------
(* Traces of a connection under test driven step by step by a raw peer over TCP.    *)
EXTENDS Duplex, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
vars == <<dvars, tid, l>>
T == Traces[tid]
E == T.ev[l]
Cfg == [server |-> T.role = "server", maxf |-> T.maxf, maxm |-> T.maxm]
Bad(why) == PrintT(<<"REJECT", T.id, l, why>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<dvars, tid>>
Next_l == l' = l + 1 /\ UNCHANGED tid
Stay == UNCHANGED tid /\ UNCHANGED l

FrameIn(h, p) == ParseHeader(h) @@ [blob |-> p]
SentFrame(a) == [fin |-> IF a.o = "df" THEN a.fin ELSE TRUE, rsv |-> IF a.o = "df" THEN a.rsv ELSE 0, op |-> a.t,
                 p |-> IF a.o = "df" THEN a.p ELSE MsgPayload(a)]
(* the frame at the head of toB, as B must see it on the wire: role's masking, canonical length *)
ReadAs(w) == LET F == ParseHeader(w.h) IN [fin |-> F.fin, rsv |-> F.rsv, op |-> F.op, p |-> w.p]
WireOK(w) == LET F == ParseHeader(w.h) IN F.have = 3 /\ F.masked = (T.role = "client") /\ ~F.nonmin /\ F.len = BLen(w.p)

Recv ==
  IF st # "open" THEN (IF E.r = "msg" THEN Bad("delivered-after-end") ELSE UNCHANGED dvars /\ Next_l)
  ELSE IF fromB # <<>> /\ Kind(Cfg, rs, Head(fromB), "m") = "absorb" THEN
       \/ AAbsorb(Cfg) /\ Stay
       \/ ~ar /\ E.r \in {"end", "err"} /\ Ended /\ UNCHANGED <<toB, fromB, aw, ar, bw>> /\ Next_l
       \/ E.r = "err" /\ (rs.may \/ Push(Cfg, rs, Head(fromB)).may) /\ AFail /\ Next_l
  ELSE CASE E.r = "msg" ->
              IF fromB = <<>> THEN Bad("invented")
              ELSE IF Kind(Cfg, rs, Head(fromB), "m") = "fail" THEN Bad("accepted")
              ELSE IF Whole(rs, Head(fromB)) # [t |-> E.t, code |-> E.code, p |-> E.p] THEN Bad("message-changed")
              ELSE ADeliver(Cfg) /\ Next_l
         [] E.r = "to" ->
              IF fromB # <<>> THEN Bad("withheld")
              ELSE IF ~ar THEN Bad("receiving-side-not-shut")
              ELSE IF ~bw THEN Bad("end-not-seen")
              ELSE ANothing /\ Next_l
         [] E.r = "end" ->
              IF ~ar THEN Ended /\ UNCHANGED <<toB, fromB, aw, ar, bw>> /\ Next_l
              ELSE IF fromB # <<>> THEN (IF Complaints(Cfg, rs, Head(fromB), "m") # {} THEN AFail /\ Next_l ELSE Bad("lost"))
              ELSE IF bw THEN Bad("early-end")
              ELSE ASeesEnd /\ Next_l
         [] OTHER ->
              IF fromB # <<>> /\ (Complaints(Cfg, rs, Head(fromB), "m") # {} \/ rs.may) THEN AFail /\ Next_l
              ELSE IF ~ar \/ (fromB = <<>> /\ ~bw) THEN Ended /\ UNCHANGED <<toB, fromB, aw, ar, bw>> /\ Next_l
              ELSE Bad("receive-failed")
ShutResult(needed) == needed => E.r = "ok"
Step ==
  CASE E.k \in {"panic", "hang", "crash", "badfamily"} -> Bad(E.k)
    [] E.k = "pre" -> BSend(FrameIn(E.h, E.p)) /\ Next_l
    [] E.k = "asend" -> IF E.r = "ok" THEN (IF ~aw THEN Bad("sent-after-shutdown") ELSE ASend(SentFrame(E.a)) /\ Next_l)
                        ELSE (IF aw THEN Bad("send-failed") ELSE ASendFail /\ Next_l)
    [] E.k = "bsend" -> IF E.r # "ok" THEN Bad("peer-send-failed") ELSE BSend(FrameIn(E.h, E.p)) /\ Next_l
    [] E.k = "bread" ->
         CASE E.r = "frame" -> IF toB = <<>> THEN Bad("invented-frame")
                               ELSE IF ~WireOK(E.w[1]) THEN Bad("frame-encoding")
                               ELSE IF ReadAs(E.w[1]) # Head(toB) THEN Bad("frame-changed")
                               ELSE BRead(Head(toB)) /\ Next_l
           [] E.r = "to" -> IF toB # <<>> THEN Bad("frame-not-sent") ELSE IF ~aw THEN Bad("sending-side-not-shut") ELSE BNothing /\ Next_l
           [] E.r = "eof" -> IF toB # <<>> THEN Bad("frame-lost") ELSE IF aw THEN Bad("sending-side-shut") ELSE BSeesEnd /\ Next_l
           [] OTHER -> Bad("connection-broken")
    [] E.k = "arecv" -> Recv
    [] E.k \in {"split", "dropw", "dropr"} -> Split /\ Next_l
    [] E.k = "ashutw" -> IF aw /\ E.r # "ok" THEN Bad("shutdown-failed") ELSE AShutW /\ Next_l
    [] E.k = "ashutr" -> IF aw /\ E.r # "ok" THEN Bad("shutdown-failed") ELSE AShutR /\ Next_l
    [] E.k = "ashutall" -> IF aw /\ E.r # "ok" THEN Bad("shutdown-failed") ELSE AShutAll /\ Next_l
    [] E.k = "bshutw" -> BShutW /\ Next_l
    [] OTHER -> Bad("unknown-event")
Init == DInit /\ tid \in 1..Len(Traces) /\ l = 1
Next == \/ l <= Len(T.ev) /\ Step
        \/ /\ l = Len(T.ev) + 1
           /\ IF T.ev = <<>> THEN Bad("empty-trace")
              ELSE PrintT(<<"ACCEPT", T.id>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<dvars, tid>>
TraceSpec == Init /\ [][Next]_vars
=============================================================================
