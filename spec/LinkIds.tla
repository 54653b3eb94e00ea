------------------------------ MODULE LinkIds -------------------------------
(* Link with messages abstracted to their number: the specification MCLink refines. *)
EXTENDS Naturals, Sequences
VARIABLES fly, shut, deliv, ended
v == <<fly, shut, deliv, ended>>
Dirs == {0, 1}
Init == fly = [d \in Dirs |-> <<>>] /\ shut = [d \in Dirs |-> FALSE] /\ deliv = [d \in Dirs |-> 0] /\ ended = [d \in Dirs |-> FALSE]
Send(d) == ~shut[d] /\ fly' = [fly EXCEPT ![d] = Append(@, deliv[d] + Len(@) + 1)] /\ UNCHANGED <<shut, deliv, ended>>
Deliver(d) == /\ fly[d] # <<>> /\ Head(fly[d]) = deliv[d] + 1
              /\ fly' = [fly EXCEPT ![d] = Tail(@)] /\ deliv' = [deliv EXCEPT ![d] = @ + 1] /\ UNCHANGED <<shut, ended>>
Shut(d) == ~shut[d] /\ shut' = [shut EXCEPT ![d] = TRUE] /\ UNCHANGED <<fly, deliv, ended>>
SeeEnd(d) == shut[d] /\ fly[d] = <<>> /\ ~ended[d] /\ ended' = [ended EXCEPT ![d] = TRUE] /\ UNCHANGED <<fly, shut, deliv>>
Next == \E d \in Dirs : Send(d) \/ Deliver(d) \/ Shut(d) \/ SeeEnd(d)
Spec == Init /\ [][Next]_v
=============================================================================
