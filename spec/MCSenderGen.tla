----------------------------- MODULE MCSenderGen ----------------------------
(* MCSender with its history: what was offered and what the transport did, printed *)
(* for every complete behaviour so that each can be replayed on the code.           *)
EXTENDS MCSender, Json
VARIABLES sched
GInit == MInit /\ sched = <<>>
GNext == \/ (\E f \in Fs : Ask(f)) /\ UNCHANGED sched
         \/ Start /\ UNCHANGED sched
         \/ \E n \in 1..9 : Write(n) /\ sched' = Append(sched, n)
         \/ cur # NoFrame /\ Fail /\ sched' = Append(sched, 0)
         \/ GiveUp /\ UNCHANGED sched
         \/ Return /\ UNCHANGED sched
GSpec == GInit /\ [][GNext]_<<mv, sched>>
Report == (Len(asked) = MaxSends /\ Idle /\ Held = 0) \/ (broken /\ Idle) =>
            PrintT(<<"BEH", ToJson([asked |-> asked, sched |-> sched, results |-> results])>>)
=============================================================================
