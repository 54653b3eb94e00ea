------------------------------ MODULE MCMasker ------------------------------
(* Every division of a payload into writes, every partial acceptance, interruptions: *)
(* the sink always holds exactly the prefix masked at its own positions.              *)
EXTENDS Masker
CONSTANTS Size
Key == <<1, 130, 7, 255>>
Data == [i \in 1..Size |-> (37 * i) % 256]
VARIABLES taken, upper      \* bytes the caller considers written; end of the current write call
mvars == <<kvars, taken, upper>>
Init == KInit /\ taken = 0 /\ upper = 0
Offer(k) == upper = taken /\ taken + k <= Size /\ upper' = taken + k /\ UNCHANGED <<kvars, taken>>
Some(n) == taken < upper /\ Write(Key, SubSeq(Data, taken + 1, upper), n) /\ taken' = taken + n /\ UNCHANGED upper
Stop == taken < upper /\ Interrupted /\ UNCHANGED <<taken, upper>>
Next == (\E k \in 1..Size : Offer(k)) \/ (\E n \in 1..Size : n <= upper - taken /\ Some(n)) \/ Stop
Spec == Init /\ [][Next]_mvars /\ WF_mvars(\E k \in 1..Size : Offer(k)) /\ WF_mvars(\E n \in 1..Size : n <= upper - taken /\ Some(n))
PositionMasked == sunk = MaskSeq(Key, SubSeq(Data, 1, taken))
Involution == MaskSeq(Key, sunk) = SubSeq(Data, 1, taken)
ColumnsAgree == Columns(sunk) = MaskColumns(Key, Columns(SubSeq(Data, 1, taken)))
AllWritten == <>(taken = Size)
=============================================================================
