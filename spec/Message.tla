------------------------------- MODULE Message ------------------------------
(* A message value and its two representations.  Converting never changes the      *)
(* value; the only operation that does is turning a ping into a pong.               *)
EXTENDS Frame
VARIABLES val, rep         \* [t, code, p] and "message" or "owned"
mvars == <<val, rep>>

Kinds == {OpText, OpBin, OpClose, OpPing, OpPong}
WellFormed(m) == m.t \in Kinds /\ (m.code >= 0 => m.t = OpClose) /\ (m.t = OpClose /\ m.code < 0 => m.p = <<>>)

Convert == rep' = (IF rep = "message" THEN "owned" ELSE "message") /\ UNCHANGED val
Keep == UNCHANGED mvars
(* what makes the message anew from its frame *)
Remake == val' = MsgOf(val.t, MsgPayload(val)) /\ UNCHANGED rep
IntoPong(ok) ==
  /\ rep = "message" /\ ok = (val.t = OpPing)
  /\ val' = (IF ok THEN [val EXCEPT !.t = OpPong] ELSE val) /\ UNCHANGED rep

(* what both representations must report *)
Payload == MsgPayload(val)
Size == BLen(Payload)
Predicates == <<val.t = OpClose, IsCtl(val.t), ~IsCtl(val.t), val.t = OpPing, val.t = OpPong>>
Encodable == IsCtl(val.t) => Size <= 125
=============================================================================
