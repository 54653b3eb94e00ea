------------------------------- MODULE MCRun --------------------------------
(* k fragments at once (AbsorbRun) are k single ones (Absorb), for every message   *)
(* under assembly in a small scope, every continuation fragment and every count,   *)
(* with the limit on the number of fragments brought within reach.                 *)
EXTENDS Receiver
CONSTANT SmallMax
VARIABLES cfg, mode
mvars == <<rs, st, out, cfg, mode>>

F(fin, op, blob) == [fin |-> fin, rsv |-> 0, op |-> op, masked |-> TRUE, mknown |-> TRUE, len |-> BLen(blob), nonmin |-> FALSE, have |-> 3, blob |-> blob]
Starts == {F(FALSE, op, b) : op \in {OpText, OpBin, 3}, b \in {<<>>, << <<97, 2>> >>, << <<195, 1>> >>}}
Conts  == {[F(FALSE, OpCont, b) EXCEPT !.rsv = v] : b \in {<<>>, << <<97, 1>> >>, << <<97, 3>> >>, << <<200, 2>> >>, << <<97, 1>>, <<98, 1>> >>}, v \in {0, 2}}

MInit == RInit /\ cfg \in {[server |-> s, maxf |-> f, maxm |-> m] : s \in {TRUE}, f \in {2, 100}, m \in {3, 7, 130, 200, 450, 100000}} /\ mode = "start"
MNext == \/ /\ mode = "start" /\ \E f \in Starts : Absorb(cfg, f)
            /\ mode' = "open" /\ UNCHANGED cfg
         \/ /\ mode = "open" /\ \E f \in Conts : Absorb(cfg, f)
            /\ UNCHANGED <<cfg, mode>>
MSpec == MInit /\ [][MNext]_mvars

FewFragments == rs.n < SmallMax
(* the k-fold single step; none when a step on the way is not an Absorb *)
Iter(f, k) == FoldLeft(LAMBDA s, i : IF s.ok /\ Kind(cfg, s.r, f, "m") = "absorb" THEN [ok |-> TRUE, r |-> Push(cfg, s.r, f)] ELSE [ok |-> FALSE, r |-> s.r],
                       [ok |-> TRUE, r |-> rs], [i \in 1..k |-> i])
RunIsSteps ==
  \A f \in Conts : PlainRun(cfg, rs, f) =>
     \A k \in 1..(SmallMax + 2) :
        /\ k <= MaxRun(cfg, rs, f) => Iter(f, k).ok
        (* a longer run is none: it is refused on the way, or may be for its number of fragments *)
        /\ k > MaxRun(cfg, rs, f) => ~Iter(f, k).ok \/ Iter(f, k).r.n >= MaxFragments
        /\ k <= MaxRun(cfg, rs, f) => PushRun(cfg, rs, f, k) = Iter(f, k).r
=============================================================================
