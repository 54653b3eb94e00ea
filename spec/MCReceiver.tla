----------------------------- MODULE MCReceiver -----------------------------
(* Exhaustive exploration of Receiver over every sequence of up to Depth frames  *)
(* from an alphabet with a representative of each way a frame can be right or     *)
(* wrong.  The step-by-step receiver is compared with a declarative reading of    *)
(* the whole history (Meaning), and every behaviour is written out as a scenario  *)
(* for the real code (Emit).                                                      *)
EXTENDS Receiver, Json, IOUtils
CONSTANTS Depth, Server, Emit, MaxF, MaxM

VARIABLES hist,      \* indices of the frames received so far
          log        \* what the caller has been given
mvars == <<rs, st, out, hist, log>>

Cfg == [server |-> Server, maxf |-> MaxF, maxm |-> MaxM]

(* fin, rsv, op, payload, masked as required?, length in non-minimal form? *)
Sym == <<
  [n |-> "text",        f |-> TRUE,  r |-> 0, o |-> 1,  p |-> <<104, 105>>, ok |-> TRUE,  w |-> FALSE],
  [n |-> "text-open",   f |-> FALSE, r |-> 0, o |-> 1,  p |-> <<97>>,       ok |-> TRUE,  w |-> FALSE],
  [n |-> "text-half",   f |-> FALSE, r |-> 0, o |-> 1,  p |-> <<98, 195>>,  ok |-> TRUE,  w |-> FALSE],
  [n |-> "text-empty",  f |-> FALSE, r |-> 0, o |-> 1,  p |-> <<>>,         ok |-> TRUE,  w |-> FALSE],
  [n |-> "text-bad",    f |-> TRUE,  r |-> 0, o |-> 1,  p |-> <<99, 255>>,  ok |-> TRUE,  w |-> FALSE],
  [n |-> "bin",         f |-> TRUE,  r |-> 0, o |-> 2,  p |-> <<255, 0>>,   ok |-> TRUE,  w |-> FALSE],
  [n |-> "bin-open",    f |-> FALSE, r |-> 0, o |-> 2,  p |-> <<254>>,      ok |-> TRUE,  w |-> FALSE],
  [n |-> "cont",        f |-> FALSE, r |-> 0, o |-> 0,  p |-> <<100, 100>>, ok |-> TRUE,  w |-> FALSE],
  [n |-> "cont-rest",   f |-> FALSE, r |-> 0, o |-> 0,  p |-> <<169>>,      ok |-> TRUE,  w |-> FALSE],
  [n |-> "cont-fin",    f |-> TRUE,  r |-> 0, o |-> 0,  p |-> <<101>>,      ok |-> TRUE,  w |-> FALSE],
  [n |-> "cont-empty",  f |-> TRUE,  r |-> 0, o |-> 0,  p |-> <<>>,         ok |-> TRUE,  w |-> FALSE],
  [n |-> "cont-rsv",    f |-> FALSE, r |-> 4, o |-> 0,  p |-> <<102>>,      ok |-> TRUE,  w |-> FALSE],
  [n |-> "ping",        f |-> TRUE,  r |-> 0, o |-> 9,  p |-> <<1, 128>>,   ok |-> TRUE,  w |-> FALSE],
  [n |-> "pong",        f |-> TRUE,  r |-> 0, o |-> 10, p |-> <<>>,         ok |-> TRUE,  w |-> FALSE],
  [n |-> "close",       f |-> TRUE,  r |-> 0, o |-> 8,  p |-> <<3, 232, 98, 121>>, ok |-> TRUE, w |-> FALSE],
  [n |-> "close-empty", f |-> TRUE,  r |-> 0, o |-> 8,  p |-> <<>>,         ok |-> TRUE,  w |-> FALSE],
  [n |-> "close-one",   f |-> TRUE,  r |-> 0, o |-> 8,  p |-> <<3>>,        ok |-> TRUE,  w |-> FALSE],
  [n |-> "close-bad",   f |-> TRUE,  r |-> 0, o |-> 8,  p |-> <<3, 232, 192>>, ok |-> TRUE, w |-> FALSE],
  [n |-> "ping-open",   f |-> FALSE, r |-> 0, o |-> 9,  p |-> <<1>>,        ok |-> TRUE,  w |-> FALSE],
  [n |-> "ping-rsv",    f |-> TRUE,  r |-> 1, o |-> 9,  p |-> <<1>>,        ok |-> TRUE,  w |-> FALSE],
  [n |-> "text-rsv",    f |-> TRUE,  r |-> 2, o |-> 1,  p |-> <<103>>,      ok |-> TRUE,  w |-> FALSE],
  [n |-> "res3",        f |-> TRUE,  r |-> 0, o |-> 3,  p |-> <<104>>,      ok |-> TRUE,  w |-> FALSE],
  [n |-> "res7-open",   f |-> FALSE, r |-> 0, o |-> 7,  p |-> <<105>>,      ok |-> TRUE,  w |-> FALSE],
  [n |-> "res11",       f |-> TRUE,  r |-> 0, o |-> 11, p |-> <<106>>,      ok |-> TRUE,  w |-> FALSE],
  [n |-> "text-mask",   f |-> TRUE,  r |-> 0, o |-> 1,  p |-> <<107>>,      ok |-> FALSE, w |-> FALSE],
  [n |-> "cont-mask",   f |-> TRUE,  r |-> 0, o |-> 0,  p |-> <<108>>,      ok |-> FALSE, w |-> FALSE],
  [n |-> "ping-mask",   f |-> TRUE,  r |-> 0, o |-> 9,  p |-> <<>>,         ok |-> FALSE, w |-> FALSE],
  [n |-> "bin-wide",    f |-> TRUE,  r |-> 0, o |-> 2,  p |-> <<109>>,      ok |-> TRUE,  w |-> TRUE],
  [n |-> "bin-large",   f |-> TRUE,  r |-> 0, o |-> 2,  p |-> [i \in 1..11 |-> i], ok |-> TRUE, w |-> FALSE]
>>
NSym == Len(Sym)

Masked(s) == s.ok = Server
Rec(s) == [fin |-> s.f, rsv |-> s.r, op |-> s.o, masked |-> Masked(s), mknown |-> TRUE, len |-> Len(s.p),
           nonmin |-> s.w, have |-> 3, blob |-> ToBlob(s.p)]

(* ---------------- the history read as a whole, without an assembly state ---------------- *)
S(i) == Sym[hist[i]]
Data(i) == S(i).o < 8
PrevData(i) == {j \in 1..(i - 1) : Data(j)}
OpenAt(i) == PrevData(i) # {} /\ ~S(CHOOSE j \in PrevData(i) : \A k \in PrevData(i) : k <= j).f
StartOf(i) == IF ~OpenAt(i) THEN i
              ELSE LET c == {j \in PrevData(i) : ~OpenAt(j)} IN CHOOSE j \in c : \A k \in c : k <= j
Parts(i) == {j \in StartOf(i)..i : Data(j)}
Body(i) == FoldLeft(LAMBDA acc, j : IF j \in Parts(i) THEN acc \o S(j).p ELSE acc, <<>>, [j \in 1..i |-> j])
(* payload of the fragments before i (unfinished part while i is still to come) *)
Unfinished(i) == Len(Body(i))

BadFrame(i) == S(i).w \/ Masked(S(i)) # Server \/ Len(S(i).p) > MaxF
BadCtl(i) == ~S(i).f \/ S(i).r # 0 \/ S(i).o \notin {8, 9, 10}
             \/ (S(i).o = 8 /\ (Len(S(i).p) = 1 \/ ~ValidUtf8(Drop(S(i).p, 2))))
BadSeq(i) == (S(i).o = 0) # OpenAt(i)
BadWhole(i) == \/ \E j \in Parts(i) : S(j).r # 0
               \/ S(StartOf(i)).o \notin {1, 2}
               \/ S(StartOf(i)).o = 1 /\ ~ValidUtf8(Body(i))
Refused(i) == \/ BadFrame(i)
              \/ ~Data(i) /\ BadCtl(i)
              \/ Data(i) /\ (BadSeq(i) \/ (S(i).f /\ BadWhole(i)) \/ (~S(i).f /\ Unfinished(i) > MaxM))
Given(i) == IF ~Data(i) THEN <<MsgOf(S(i).o, ToBlob(S(i).p))>>
            ELSE IF S(i).f THEN <<MsgOf(S(StartOf(i)).o, ToBlob(Body(i)))>> ELSE <<>>
FirstRefused == LET R == {i \in 1..Len(hist) : Refused(i)} IN MinOf(R, Len(hist) + 1)
Meaning == FoldLeft(LAMBDA acc, i : IF i < FirstRefused THEN acc \o Given(i) ELSE acc, <<>>, [i \in 1..Len(hist) |-> i])

(* ------------------------------------- behaviours --------------------------------------- *)
Keys == << <<17, 34, 51, 68>>, <<0, 0, 0, 0>>, <<255, 128, 1, 254>>, <<7, 0, 9, 0>> >>
ItemOf(s, i) ==
  LET k == IF Masked(s) THEN Keys[(i % 4) + 1] ELSE <<>>
  IN [h |-> IF s.w THEN <<Byte0(s.f, s.r, s.o), (IF Masked(s) THEN 128 ELSE 0) + 126, 0, Len(s.p)>> \o k
            ELSE EncodeHeader(s.f, s.r, s.o, Len(s.p), k),
      p |-> ToBlob(s.p), rep |-> 1]
Behaviour == [items |-> [i \in 1..Len(hist) |-> ItemOf(Sym[hist[i]], i)], names |-> [i \in 1..Len(hist) |-> Sym[hist[i]].n]]

MInit == RInit /\ hist = <<>> /\ log = <<>>
Arrive(i) ==
  /\ Len(hist) < Depth
  /\ LET f == Rec(Sym[i])
     IN \/ Absorb(Cfg, f) /\ UNCHANGED log
        \/ Deliver(Cfg, f) /\ log' = Append(log, [x \in {"t", "code", "p"} |-> out'[x]])
        \/ Kind(Cfg, rs, f, "m") = "fail" /\ Fail /\ UNCHANGED log
        \/ st = "failed" /\ UNCHANGED <<rs, st, out, log>>
  /\ hist' = Append(hist, i)
  /\ (Emit => PrintT(<<"BEH", ToJson(Behaviour')>>))
MNext == (\E i \in 1..NSym : st = "open" /\ Arrive(i))
MSpec == MInit /\ [][MNext]_mvars

AgreesWithMeaning == log = Meaning
FailsExactly == (st = "failed") = (FirstRefused <= Len(hist))
NothingAfterFailure == st = "failed" => FirstRefused = Len(hist)
(* every delivered payload byte comes from the stream, in order, once *)
Conserved == LET dl == FoldLeft(LAMBDA a, m : a + BLen(MsgPayload(m)), 0, log)
             IN st = "open" => dl + rs.blen = FoldLeft(LAMBDA a, i : a + Len(Sym[i].p), 0, hist)
=============================================================================
