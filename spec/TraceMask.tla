----------------------------- MODULE TraceMask ------------------------------
(* Traces of the masking writer.  Events: w (offset, offered, taken or -1),       *)
(* wall (a whole part written, ok or err), data (the one-shot function and its     *)
(* inverse), out (what the sink holds).                                             *)
EXTENDS Masker, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
vars == <<kvars, tid, l>>
T == Traces[tid]
E == T.ev[l]
Bad(why) == PrintT(<<"REJECT", T.id, l, why>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<kvars, tid>>
Next_l == l' = l + 1 /\ UNCHANGED tid
Key2 == IF T.mode = "twice" THEN <<0, 0, 0, 0>> ELSE T.key
Step ==
  CASE E.k \in {"panic", "hang", "crash"} -> Bad(E.k)
    [] E.k = "w" ->
         IF E.off # pos THEN Bad("position")
         ELSE IF E.r > E.d THEN Bad("took-more-than-offered")
         ELSE IF E.r <= 0 THEN Interrupted /\ Next_l
         ELSE Write(Key2, SubSeq(T.d, pos + 1, pos + E.d), E.r) /\ Next_l
    [] E.k = "wall" ->
         IF E.r = "ok" THEN Write(Key2, SubSeq(T.d, pos + 1, pos + E.d), E.d) /\ Next_l
         ELSE UNCHANGED kvars /\ Next_l
    [] E.k = "data" ->
         IF E.o # MaskSeq(T.key, T.d) THEN Bad("wrong-masking")
         ELSE IF E.b # T.d THEN Bad("not-an-involution")
         ELSE UNCHANGED kvars /\ Next_l
    [] E.k = "big" ->
         IF "r" \in DOMAIN E /\ E.r # "ok" THEN Bad("write-failed")
         ELSE IF E.o # MaskColumns(T.key, T.cols) THEN Bad("wrong-masking")
         ELSE IF E.b # T.cols THEN Bad("not-an-involution")
         ELSE UNCHANGED kvars /\ Next_l
    [] E.k = "out" ->
         (* after a failed write_all a part of it may have got through *)
         IF l > 1 /\ T.ev[l - 1].k = "wall" /\ T.ev[l - 1].r = "err"
         THEN IF Len(E.o) >= pos /\ Len(E.o) <= Len(T.d) /\ E.o = MaskSeq(Key2, SubSeq(T.d, 1, Len(E.o))) THEN UNCHANGED kvars /\ Next_l ELSE Bad("wrong-masking")
         ELSE IF E.o # sunk THEN Bad("wrong-masking")
         ELSE UNCHANGED kvars /\ Next_l
    [] OTHER -> Bad("unknown-event")
Init == KInit /\ tid \in 1..Len(Traces) /\ l = 1
Next == \/ l <= Len(T.ev) /\ Step
        \/ /\ l = Len(T.ev) + 1
           /\ IF T.ev = <<>> THEN Bad("empty-trace") ELSE PrintT(<<"ACCEPT", T.id>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<kvars, tid>>
TraceSpec == Init /\ [][Next]_vars
Faithful == sunk = MaskSeq(Key2, SubSeq(T.d, 1, pos))
=============================================================================
