------------------------------ MODULE MCMessage -----------------------------
(* Every sequence of conversions of every small message: the value is what it was, *)
(* except for a ping that was made a pong.                                          *)
EXTENDS Message
CONSTANTS Steps
VARIABLES first, n, ponged
Ms == {m \in [t : Kinds, code : {0 - 1, 0, 1000, 65535}, p : {<<>>, << <<97, 1>> >>, << <<97, 2>>, <<98, 1>> >>}] : WellFormed(m)}
Init == val \in Ms /\ rep \in {"message", "owned"} /\ first = val /\ n = 0 /\ ponged = FALSE
Next == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED first
        /\ \/ Convert /\ UNCHANGED ponged
           \/ Keep /\ UNCHANGED ponged
           \/ Remake /\ UNCHANGED ponged
           \/ \E ok \in BOOLEAN : IntoPong(ok) /\ ponged' = (ponged \/ ok)
Spec == Init /\ [][Next]_<<mvars, first, n, ponged>>
SameValue == val = IF ponged THEN [first EXCEPT !.t = OpPong] ELSE first
StaysWellFormed == WellFormed(val)
=============================================================================
