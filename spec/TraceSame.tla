------------------------------ MODULE TraceSame ------------------------------
(* One byte stream received several times, through different read schedules and  *)
(* interfaces: every run must have delivered the same messages, and through the   *)
(* same interface must have ended in the same way.                                *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i
T == Traces[tid]
Runs == T.runs
Init == tid \in 1..Len(Traces) /\ i = 1
Say(x) == PrintT(x)
SameMsgs(a, b) == a.msgs = b.msgs
SameEnd(a, b) == a.api = b.api => a.end = b.end
Done == i > Len(Runs)
Next == \/ /\ ~Done
           /\ IF ~SameMsgs(Runs[1], Runs[i]) THEN Say(<<"REJECT", T.id, i, "delivery-depends-on-cuts">>) /\ i' = Len(Runs) + 2
              ELSE IF \E j \in 1..(i-1) : ~SameEnd(Runs[j], Runs[i]) THEN Say(<<"REJECT", T.id, i, "ending-depends-on-cuts">>) /\ i' = Len(Runs) + 2
              ELSE i' = i + 1
           /\ UNCHANGED tid
        \/ i = Len(Runs) + 1 /\ Say(<<"ACCEPT", T.id>>) /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, i>>
=============================================================================
