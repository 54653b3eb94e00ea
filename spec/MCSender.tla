------------------------------ MODULE MCSender ------------------------------
(* Exhaustive exploration of a sender over a transport that accepts any number of *)
(* bytes at a time, interrupts, or fails.  Depth = 1 is a blocking sender (one     *)
(* frame in flight, the call returns when it is finished or the transport fails);  *)
(* a larger Depth is a sink with a bounded write buffer.                           *)
EXTENDS Sender
CONSTANTS Masked, MaxSends, Depth
VARIABLES wire,      \* bytes accepted so far, as <<send number, position>>
          results,   \* what became of every frame offered, in order
          asked,     \* frames offered
          numb       \* number of the frame being written
mv == <<svars, wire, results, asked, numb>>
Fs == {[fin |-> TRUE, rsv |-> 0, op |-> 1, len |-> 3], [fin |-> FALSE, rsv |-> 0, op |-> 2, len |-> 0],
       [fin |-> TRUE, rsv |-> 0, op |-> 9, len |-> 1], [fin |-> TRUE, rsv |-> 0, op |-> 8, len |-> 126]}
Key == IF Masked THEN <<1, 2, 3, 4>> ELSE <<>>
Held == Len(queue) + (IF cur = NoFrame THEN 0 ELSE 1)
Pending == {i \in 1..Len(results) : results[i] = "pending"}
MInit == SInit /\ wire = <<>> /\ results = <<>> /\ asked = <<>> /\ numb = 0
Ask(f) == /\ Len(asked) < MaxSends /\ Held < Depth
          /\ asked' = Append(asked, f)
          /\ \/ ~broken /\ Enqueue(f) /\ results' = Append(results, "pending")
             \/ Refuse(f) /\ results' = Append(results, "refused")
             \/ broken /\ Encodable(f) /\ UNCHANGED svars /\ results' = Append(results, "failed")
          /\ UNCHANGED <<wire, numb>>
Start == Begin(Masked, Key) /\ numb' = (CHOOSE i \in Pending : \A j \in Pending : i <= j) /\ UNCHANGED <<wire, results, asked>>
Write(n) == Accepted(n, Masked) /\ wire' = wire \o [i \in 1..n |-> <<numb, got + i>>] /\ UNCHANGED <<results, asked, numb>>
Fail == Break /\ UNCHANGED <<wire, results, asked, numb>>
(* a broken transport fails everything that is not finished *)
GiveUp == /\ broken /\ Backlog
          /\ queue' = <<>> /\ cur' = NoFrame /\ got' = 0 /\ UNCHANGED <<sent, broken, keys>>
          /\ results' = [i \in 1..Len(results) |-> IF results[i] = "pending" THEN "failed" ELSE results[i]]
          /\ UNCHANGED <<wire, asked, numb>>
Return == Finish(Masked) /\ results' = [results EXCEPT ![numb] = "ok"] /\ UNCHANGED <<wire, asked, numb>>
MNext == (\E f \in Fs : Ask(f)) \/ Start \/ (\E n \in 1..9 : Write(n)) \/ Fail \/ GiveUp \/ Return
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(Start) /\ WF_mv(\E n \in 1..9 : Write(n)) /\ WF_mv(Return) /\ WF_mv(GiveUp)

BytesOf(i) == SelectSeq(wire, LAMBDA b : b[1] = i)
(* success means the whole frame, once, in one piece *)
OkMeansWhole == \A i \in 1..Len(results) : results[i] = "ok" =>
                   BytesOf(i) = [j \in 1..SizeOf(asked[i], Masked) |-> <<i, j>>]
RefusedMeansNothing == \A i \in 1..Len(results) : results[i] = "refused" => BytesOf(i) = <<>>
FailedMeansPrefix == \A i \in 1..Len(results) : results[i] \in {"failed", "pending"} =>
                   BytesOf(i) = [j \in 1..Len(BytesOf(i)) |-> <<i, j>>]
FailedMeansBroken == (\E i \in 1..Len(results) : results[i] = "failed") => broken
InOrder == \A a, b \in 1..Len(wire) : a < b => wire[a][1] <= wire[b][1]
SentAreOk == sent = [i \in 1..Len(sent) |-> asked[SetToSeq({j \in 1..Len(results) : results[j] = "ok"})[i]]]
                \/ Len(sent) = Cardinality({j \in 1..Len(results) : results[j] = "ok"})
OneAtATime == Depth = 1 => Held <= 1
Terminates == [](Backlog => <>Idle)
=============================================================================
