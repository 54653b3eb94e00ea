------------------------------ MODULE MCDuplex ------------------------------
(* All interleavings of sends, receives, splits and shutdowns on one connection.     *)
EXTENDS Duplex
CONSTANTS MaxA, MaxB
VARIABLES na, nb, readB, gotA, split
vars == <<dvars, na, nb, readB, gotA, split>>
Cfg == [server |-> TRUE, maxf |-> 3, maxm |-> 3]
Fr(fin, op, n) == [fin |-> fin, rsv |-> 0, op |-> op, masked |-> TRUE, mknown |-> TRUE, len |-> n, nonmin |-> FALSE, have |-> 3,
                   blob |-> IF n = 0 THEN <<>> ELSE << <<65, n>> >>]
(* B sends whole binary messages, fragments and pings; also one over the limit *)
BFrames == {Fr(TRUE, 2, 1), Fr(FALSE, 2, 1), Fr(TRUE, 0, 2), Fr(TRUE, 9, 0), Fr(TRUE, 2, 4)}
Init == DInit /\ na = 0 /\ nb = <<>> /\ readB = 0 /\ gotA = <<>> /\ split = FALSE
U == UNCHANGED <<na, nb, readB, gotA, split>>
Next ==
  \/ na < MaxA /\ ASend(na + 1) /\ na' = na + 1 /\ UNCHANGED <<nb, readB, gotA, split>>
  \/ Len(nb) < MaxB /\ \E f \in BFrames : BSend(f) /\ nb' = Append(nb, f) /\ UNCHANGED <<na, readB, gotA, split>>
  \/ \E f \in 1..MaxA : BRead(f) /\ readB' = f /\ UNCHANGED <<na, nb, gotA, split>>
  \/ AAbsorb(Cfg) /\ U
  \/ ADeliver(Cfg) /\ gotA' = Append(gotA, [t |-> out'.t, p |-> out'.p]) /\ UNCHANGED <<na, nb, readB, split>>
  \/ fromB # <<>> /\ Complaints(Cfg, rs, Head(fromB), "m") # {} /\ AFail /\ U
  \/ aw /\ AShutW /\ U
  \/ ar /\ AShutR /\ U
  \/ aw /\ ar /\ AShutAll /\ U
  \/ bw /\ BShutW /\ U
  \/ ASeesEnd /\ U
  \/ ~split /\ Split /\ split' = TRUE /\ UNCHANGED <<na, nb, readB, gotA>>
Spec == Init /\ [][Next]_vars /\ WF_vars(\E f \in 1..MaxA : BRead(f) /\ readB' = f /\ UNCHANGED <<na, nb, gotA, split>>)
        /\ WF_vars(AAbsorb(Cfg) /\ U) /\ WF_vars(ADeliver(Cfg) /\ gotA' = Append(gotA, [t |-> out'.t, p |-> out'.p]) /\ UNCHANGED <<na, nb, readB, split>>)
        /\ WF_vars(ASeesEnd /\ U)
TypeOK == RTypeOK /\ AssemblyOK /\ aw \in BOOLEAN /\ ar \in BOOLEAN /\ bw \in BOOLEAN
(* what B has read and what is in flight is what A sent, in order *)
NoLossToB == Len(toB) = na - readB /\ \A i \in 1..Len(toB) : toB[i] = readB + i
(* everything delivered was sent, counting payload bytes *)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
BytesToA == Sum([i \in 1..Len(gotA) |-> BLen(gotA[i].p)]) + rs.blen + Sum([i \in 1..Len(fromB) |-> fromB[i].len]) = Sum([i \in 1..Len(nb) |-> nb[i].len])
(* closing one direction leaves the other open *)
HalfClose == [][aw # aw' /\ ar = ar' => fromB' = fromB /\ rs' = rs]_vars
SentIsRead == \A i \in 1..MaxA : [](na >= i => <>(readB >= i))
EndIsSeen == [](~bw /\ ar => <>(st # "open" \/ fromB # <<>>))
LimitInForce == \A i \in 1..Len(gotA) : BLen(gotA[i].p) <= Cfg.maxf + Cfg.maxm
=============================================================================
