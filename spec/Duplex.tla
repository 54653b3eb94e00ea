------------------------------- MODULE Duplex -------------------------------
(* One live connection between the endpoint under test, A, and a raw peer, B.       *)
(* A's receiving side is Receiver; around it are the two directions of the           *)
(* connection with what is in flight, and who has closed what:                        *)
(*   aw / ar   A may still send / receive,   bw   B may still send.                    *)
(* Splitting A into halves changes none of this state - that is the property - so      *)
(* it is the identity here, whatever is in flight or half assembled.                    *)
EXTENDS Receiver
VARIABLES toB,       \* frames A sent that B has not read: [fin, rsv, op, p]
          fromB,     \* frames B sent that A has not consumed (records as Receiver wants them)
          aw, ar, bw
dvars == <<rs, st, out, toB, fromB, aw, ar, bw>>
DInit == RInit /\ toB = <<>> /\ fromB = <<>> /\ aw = TRUE /\ ar = TRUE /\ bw = TRUE

ASend(f)     == /\ aw /\ toB' = Append(toB, f) /\ UNCHANGED <<rs, st, out, fromB, aw, ar, bw>>
ASendFail    == /\ ~aw /\ UNCHANGED dvars
BSend(F)     == /\ bw /\ fromB' = Append(fromB, F) /\ UNCHANGED <<rs, st, out, toB, aw, ar, bw>>
BRead(f)     == /\ toB # <<>> /\ Head(toB) = f /\ toB' = Tail(toB) /\ UNCHANGED <<rs, st, out, fromB, aw, ar, bw>>
BSeesEnd     == /\ toB = <<>> /\ ~aw /\ UNCHANGED dvars
BNothing     == /\ toB = <<>> /\ aw /\ UNCHANGED dvars
AShutW       == /\ aw' = FALSE /\ UNCHANGED <<rs, st, out, toB, fromB, ar, bw>>
AShutR       == /\ ar' = FALSE /\ UNCHANGED <<rs, st, out, toB, fromB, aw, bw>>
AShutAll     == /\ aw' = FALSE /\ ar' = FALSE /\ UNCHANGED <<rs, st, out, toB, fromB, bw>>
BShutW       == /\ bw' = FALSE /\ UNCHANGED <<rs, st, out, toB, fromB, aw, ar>>
Split        == UNCHANGED dvars
Drop1        == fromB' = Tail(fromB) /\ UNCHANGED <<toB, aw, ar, bw>>
AAbsorb(cfg) == /\ fromB # <<>> /\ Absorb(cfg, Head(fromB)) /\ Drop1
ADeliver(cfg) == /\ fromB # <<>> /\ Deliver(cfg, Head(fromB)) /\ Drop1
AFail        == /\ Fail /\ UNCHANGED <<toB, fromB, aw, ar, bw>>
(* the end is seen when B has ended and everything has been consumed, or once A has shut its receiving side *)
ASeesEnd     == /\ (fromB = <<>> /\ ~bw) \/ ~ar
                /\ Ended /\ UNCHANGED <<toB, fromB, aw, ar, bw>>
ANothing     == /\ fromB = <<>> /\ bw /\ ar /\ UNCHANGED dvars
=============================================================================
