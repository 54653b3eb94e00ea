------------------------------ MODULE MCServer ------------------------------
(* All mixes and timings of a few clients against a server of either kind.               *)
EXTENDS Server, TLC
CONSTANTS Blocking, Max
VARIABLES cs, order      \* order: the connections the server spoke of, in the order it did
vars == <<cs, order>>
Init == cs = <<>> /\ order = <<>>
Upd(i, c) == cs' = [cs EXCEPT ![i] = c] /\ UNCHANGED order
Connect == Len(cs) < Max /\ cs' = Append(cs, NewConn) /\ UNCHANGED order
Send(i) == /\ cs[i].how = "open" /\ cs[i].st \in {"none", "part"}
           /\ \E s \in {"part", "good", "bad"} : s # cs[i].st /\ Upd(i, [cs[i] EXCEPT !.st = s])
End(i) == cs[i].how = "open" /\ \E h \in {"fin", "reset"} : Upd(i, [cs[i] EXCEPT !.how = h])
Speak == \E i \in Speakable(cs, Blocking) : \E r \in {"ok", "err"} :
            /\ May(cs[i], r) /\ cs' = [cs EXCEPT ![i] = Say(cs[i], r)] /\ order' = Append(order, i)
Client == Connect \/ \E i \in 1..Len(cs) : Send(i) \/ End(i)
Next == Client \/ Speak
(* only the server is fair: clients may stall for ever *)
Spec == Init /\ [][Next]_vars /\ WF_vars(Speak)

TypeOK == \A i \in 1..Len(cs) : cs[i].said = "no" \/ Decided(cs[i])
OnlyOnce == \A i, j \in 1..Len(order) : i # j => order[i] # order[j]
OkIsGood == \A i \in 1..Len(cs) : cs[i].said = "ok" => cs[i].st = "good"
ErrIsReason == \A i \in 1..Len(cs) : cs[i].said = "err" => cs[i].st # "good" \/ cs[i].how = "reset"
InOrder == Blocking => \A i \in 1..Len(order) : order[i] = i
(* whatever is owed can be said now: nothing else stands in its way *)
NeverStuck == \A i \in Owed(cs, Blocking) : Blocking \/ i \in Speakable(cs, Blocking)
(* P23: a complete handshake is yielded, and a failed one reported, whatever the others do *)
Served(i) == (i <= Len(cs) /\ Decided(cs[i])) ~> (i <= Len(cs) /\ cs[i].said # "no")
AsyncServes == \A i \in 1..Max : Served(i)
BlockingServes == \A i \in 1..Max : (i <= Len(cs) /\ \A j \in 1..i : j <= Len(cs) /\ Decided(cs[j])) ~> (i <= Len(cs) /\ cs[i].said # "no")
=============================================================================
