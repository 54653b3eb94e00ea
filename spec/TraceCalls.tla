----------------------------- MODULE TraceCalls -----------------------------
(* For arbitrary bytes: every call of the handshake, of the HTTP codecs and of the        *)
(* header parsers returns (a value or an error), and takes memory in proportion to what    *)
(* it was given.                                                                           *)
EXTENDS Handshake, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
T == Traces[tid]
E == T.ev[l]
Fails == {"panic", "hang", "crash", "badfamily"}
Why == IF E.k \in Fails THEN E.k
       ELSE IF E.k = "hs" /\ E.peak > MemoryBound(E.c) THEN "memory"
       ELSE ""
Step == \E w \in {Why} : IF w # "" THEN PrintT(<<"REJECT", T.id, l, w>>) /\ l' = Len(T.ev) + 2 ELSE l' = l + 1
Finish == (IF T.ev = <<>> THEN PrintT(<<"REJECT", T.id, 1, "empty-trace">>) ELSE PrintT(<<"ACCEPT", T.id>>)) /\ l' = Len(T.ev) + 2
Init == tid \in 1..Len(Traces) /\ l = 1
Next == (IF l <= Len(T.ev) THEN Step ELSE l = Len(T.ev) + 1 /\ Finish) /\ UNCHANGED tid
TraceSpec == Init /\ [][Next]_<<tid, l>>
=============================================================================
