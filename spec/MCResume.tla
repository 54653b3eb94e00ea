------------------------------ MODULE MCResume ------------------------------
(* Reception at byte level: a transport that hands out bytes in arbitrary pieces  *)
(* and interrupts, a reader that collects one frame at a time, and the caller who  *)
(* calls again after each interruption.                                           *)
(*   Keep      the reader keeps the bytes of an unfinished frame when interrupted  *)
(*             (asynchronous codecs: the buffer; blocking: only whole frames)      *)
(*   Anywhere  the transport may interrupt inside a frame, not only between frames *)
(* With Keep, nothing is lost wherever interruptions fall; without it, nothing is   *)
(* lost as long as they fall between frames; without it and with interruptions      *)
(* anywhere, bytes are lost - the known finding about blocking receives.            *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keep, Anywhere, MaxStops
(* frames: length in bytes, and whether the frame ends a message *)
Frames == << [len |-> 2, fin |-> FALSE], [len |-> 3, fin |-> TRUE], [len |-> 2, fin |-> TRUE],
             [len |-> 4, fin |-> FALSE], [len |-> 2, fin |-> FALSE], [len |-> 3, fin |-> TRUE] >>
NF == Len(Frames)
RECURSIVE SumTo(_)
SumTo(k) == IF k = 0 THEN 0 ELSE Frames[k].len + SumTo(k - 1)
Total == SumTo(NF)
Start(k) == SumTo(k - 1)
Msgs(k) == Cardinality({i \in 1..k : Frames[i].fin})

VARIABLES arrived,    \* bytes the transport has
          taken,      \* bytes read from it
          held,       \* stream positions (bytes) of the unfinished frame held by the reader
          whole,      \* frames put together so far, as the list of stream positions they consist of
          assembled,  \* fragments of the message under assembly
          given,      \* messages delivered, each the list of its frames
          stops, incall
vars == <<arrived, taken, held, whole, assembled, given, stops, incall>>

Cur == Len(whole) + 1
AtBoundary == held = <<>>

Init == /\ arrived = 0 /\ taken = 0 /\ held = <<>> /\ whole = <<>> /\ assembled = <<>> /\ given = <<>>
        /\ stops = 0 /\ incall = FALSE
Arrive == arrived < Total /\ \E n \in 1..(Total - arrived) : arrived' = arrived + n
          /\ UNCHANGED <<taken, held, whole, assembled, given, stops, incall>>
Call == ~incall /\ incall' = TRUE /\ UNCHANGED <<arrived, taken, held, whole, assembled, given, stops>>
(* one read takes between one byte and all that the frame still needs *)
Read == /\ incall /\ Cur <= NF /\ taken < arrived /\ Len(held) < Frames[Cur].len
        /\ \E n \in 1..(Frames[Cur].len - Len(held)) :
             /\ taken + n <= arrived
             /\ held' = held \o [i \in 1..n |-> taken + i]
             /\ taken' = taken + n
        /\ UNCHANGED <<arrived, whole, assembled, given, stops, incall>>
Complete == /\ incall /\ Cur <= NF /\ Len(held) = Frames[Cur].len
            /\ whole' = Append(whole, held) /\ held' = <<>>
            /\ IF Frames[Cur].fin
               THEN given' = Append(given, Append(assembled, held)) /\ assembled' = <<>> /\ incall' = FALSE
               ELSE assembled' = Append(assembled, held) /\ UNCHANGED <<given, incall>>
            /\ UNCHANGED <<arrived, taken, stops>>
Interrupt == /\ incall /\ stops < MaxStops
             /\ (Anywhere \/ AtBoundary)
             /\ stops' = stops + 1 /\ incall' = FALSE
             /\ held' = IF Keep THEN held ELSE <<>>
             /\ UNCHANGED <<arrived, taken, whole, assembled, given>>
Next == Arrive \/ Call \/ Read \/ Complete \/ Interrupt
Spec == Init /\ [][Next]_vars /\ WF_vars(Arrive) /\ WF_vars(Call) /\ WF_vars(Read) /\ WF_vars(Complete)

Exact(k) == [i \in 1..Frames[k].len |-> Start(k) + i]
FramesIntact == \A k \in 1..Len(whole) : whole[k] = Exact(k)
NothingLost == taken = SumTo(Len(whole)) + Len(held)
NoReadAhead == taken <= SumTo(Len(whole)) + (IF Cur <= NF THEN Frames[Cur].len ELSE 0)
InOrderOnce == /\ Len(given) = Msgs(Len(whole))
               /\ \A m \in 1..Len(given) : \A j \in 1..Len(given[m]) : \E k \in 1..Len(whole) : given[m][j] = Exact(k)
EventuallyAll == <>(Len(given) = Msgs(NF))
=============================================================================
