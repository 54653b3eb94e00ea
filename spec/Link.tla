-------------------------------- MODULE Link --------------------------------
(* A connection seen from both ends.  Each direction is a FIFO of messages: what   *)
(* one endpoint sends - whole, or as fragments with control frames in between - is  *)
(* delivered at the other end exactly once, in order.  A direction may be closed by  *)
(* its sender; then, when everything has been delivered, the receiver sees the end.  *)
EXTENDS Frame, FiniteSets

Dirs == {0, 1}
VARIABLES fly,       \* [Dirs -> Seq of messages sent and not delivered]
          part,      \* [Dirs -> fragments of the message being sent, NoPart when none]
          shut,      \* [Dirs -> BOOLEAN] the sender has ended the direction
          deliv,     \* [Dirs -> number delivered]
          ended      \* [Dirs -> BOOLEAN] the receiver has seen the end
lvars == <<fly, part, shut, deliv, ended>>
NoPart == [t |-> 0, p |-> <<>>]

LInit == /\ fly = [d \in Dirs |-> <<>>] /\ part = [d \in Dirs |-> NoPart]
         /\ shut = [d \in Dirs |-> FALSE] /\ deliv = [d \in Dirs |-> 0] /\ ended = [d \in Dirs |-> FALSE]

Send(d, m) == /\ ~shut[d] /\ fly' = [fly EXCEPT ![d] = Append(@, m)]
              /\ UNCHANGED <<part, shut, deliv, ended>>
(* a frame sent by hand: control frames are messages of their own *)
SendFrame(d, fin, op, p) ==
  /\ ~shut[d]
  /\ IF IsCtl(op) THEN fly' = [fly EXCEPT ![d] = Append(@, MsgOf(op, p))] /\ UNCHANGED part
     ELSE /\ (op = OpCont) = (part[d] # NoPart)
          /\ LET whole == BCat(part[d].p, p)
                 t == IF op = OpCont THEN part[d].t ELSE op
             IN IF fin THEN /\ fly' = [fly EXCEPT ![d] = Append(@, MsgOf(t, whole))]
                            /\ part' = [part EXCEPT ![d] = NoPart]
                ELSE /\ part' = [part EXCEPT ![d] = [t |-> t, p |-> whole]] /\ UNCHANGED fly
  /\ UNCHANGED <<shut, deliv, ended>>
Deliver(d, m) == /\ ~ended[d] /\ fly[d] # <<>> /\ Head(fly[d]) = m
                 /\ fly' = [fly EXCEPT ![d] = Tail(@)] /\ deliv' = [deliv EXCEPT ![d] = @ + 1]
                 /\ UNCHANGED <<part, shut, ended>>
Shut(d) == shut' = [shut EXCEPT ![d] = TRUE] /\ UNCHANGED <<fly, part, deliv, ended>>
SeeEnd(d) == /\ shut[d] /\ fly[d] = <<>>
             /\ ended' = [ended EXCEPT ![d] = TRUE] /\ UNCHANGED <<fly, part, shut, deliv>>
=============================================================================
