------------------------------- MODULE MCLink -------------------------------
(* Link refined down to bytes in transit: each endpoint encodes a message into a    *)
(* frame of some length, the transport moves any number of bytes at a time, and the  *)
(* receiver delivers a message when its last byte is there.  The abstract Link is     *)
(* refined: whatever the cuts, deliveries are the sends, in order, once.              *)
EXTENDS Naturals, Sequences
CONSTANTS MaxMsgs
Dirs == {0, 1}
Ids == 1..MaxMsgs
LenOf(i) == 1 + i            \* frames of different sizes
VARIABLES nsent,     \* [Dirs -> number of messages handed to send so far]
          wire,      \* [Dirs -> bytes in transit, as <<message, position>>]
          buf,       \* [Dirs -> bytes received and not yet delivered]
          got,       \* [Dirs -> messages delivered]
          shut, ended
vars == <<nsent, wire, buf, got, shut, ended>>
Init == /\ nsent = [d \in Dirs |-> 0] /\ wire = [d \in Dirs |-> <<>>] /\ buf = [d \in Dirs |-> <<>>]
        /\ got = [d \in Dirs |-> <<>>] /\ shut = [d \in Dirs |-> FALSE] /\ ended = [d \in Dirs |-> FALSE]
Send(d) == /\ nsent[d] < MaxMsgs /\ ~shut[d]
           /\ nsent' = [nsent EXCEPT ![d] = @ + 1]
           /\ wire' = [wire EXCEPT ![d] = @ \o [j \in 1..LenOf(nsent[d] + 1) |-> <<nsent[d] + 1, j>>]]
           /\ UNCHANGED <<buf, got, shut, ended>>
Move(d, n) == /\ n <= Len(wire[d])
              /\ buf' = [buf EXCEPT ![d] = @ \o SubSeq(wire[d], 1, n)]
              /\ wire' = [wire EXCEPT ![d] = SubSeq(@, n + 1, Len(@))]
              /\ UNCHANGED <<nsent, got, shut, ended>>
Whole(d) == buf[d] # <<>> /\ Len(buf[d]) >= LenOf(buf[d][1][1])
Recv(d) == /\ Whole(d)
           /\ got' = [got EXCEPT ![d] = Append(@, buf[d][1][1])]
           /\ buf' = [buf EXCEPT ![d] = SubSeq(@, LenOf(@[1][1]) + 1, Len(@))]
           /\ UNCHANGED <<nsent, wire, shut, ended>>
Shut(d) == ~shut[d] /\ shut' = [shut EXCEPT ![d] = TRUE] /\ UNCHANGED <<nsent, wire, buf, got, ended>>
End(d) == /\ shut[d] /\ wire[d] = <<>> /\ ~Whole(d) /\ ~ended[d]
          /\ ended' = [ended EXCEPT ![d] = TRUE] /\ UNCHANGED <<nsent, wire, buf, got, shut>>
Next == \E d \in Dirs : Send(d) \/ (\E n \in 1..3 : Move(d, n)) \/ Recv(d) \/ Shut(d) \/ End(d)
Spec == Init /\ [][Next]_vars /\ \A d \in Dirs : WF_vars(\E n \in 1..3 : Move(d, n)) /\ WF_vars(Recv(d)) /\ WF_vars(End(d))
(* the abstract queue: sent and not delivered *)
L == INSTANCE LinkIds WITH fly <- [d \in Dirs |-> [i \in 1..(nsent[d] - Len(got[d])) |-> Len(got[d]) + i]],
                           shut <- shut, deliv <- [d \in Dirs |-> Len(got[d])], ended <- ended
Refines == L!Spec
OnceInOrder == \A d \in Dirs : got[d] = [i \in 1..Len(got[d]) |-> i]
AllDelivered == \A d \in Dirs : \A i \in Ids : [](nsent[d] >= i => <>(Len(got[d]) >= i))
EndSeen == \A d \in Dirs : [](shut[d] => <>ended[d])
EndAfterAll == \A d \in Dirs : ended[d] => Len(got[d]) = nsent[d]
=============================================================================
