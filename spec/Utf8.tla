-------------------------------- MODULE Utf8 --------------------------------
(* RFC 3629 well-formedness as an automaton over bytes.  State 0 is a code     *)
(* point boundary, 1..3 mean that many continuation bytes are still due,       *)
(* 4..7 are the restricted second bytes after E0, ED, F0, F4, and 9 is the     *)
(* sink of malformed input.  A prefix is extensible iff its state is not 9,    *)
(* and valid iff its state is 0.                                               *)
EXTENDS Bytes

U8Start == 0
U8Bad == 9

U8StepDef(q, b) ==
  CASE q = 0 -> (CASE b <= 127 -> 0
                   [] b >= 194 /\ b <= 223 -> 1
                   [] b = 224 -> 4
                   [] b = 237 -> 5
                   [] b >= 225 /\ b <= 239 /\ b # 237 -> 2
                   [] b = 240 -> 6
                   [] b = 244 -> 7
                   [] b >= 241 /\ b <= 243 -> 3
                   [] OTHER -> U8Bad)
    [] q = 1 -> IF b >= 128 /\ b <= 191 THEN 0 ELSE U8Bad
    [] q = 2 -> IF b >= 128 /\ b <= 191 THEN 1 ELSE U8Bad
    [] q = 3 -> IF b >= 128 /\ b <= 191 THEN 2 ELSE U8Bad
    [] q = 4 -> IF b >= 160 /\ b <= 191 THEN 1 ELSE U8Bad
    [] q = 5 -> IF b >= 128 /\ b <= 159 THEN 1 ELSE U8Bad
    [] q = 6 -> IF b >= 144 /\ b <= 191 THEN 2 ELSE U8Bad
    [] q = 7 -> IF b >= 128 /\ b <= 143 THEN 2 ELSE U8Bad
    [] OTHER -> U8Bad

U8Table == [i \in 1..10 |-> [j \in 1..256 |-> U8StepDef(i - 1, j - 1)]]
U8Step(q, b) == U8Table[q + 1][b + 1]

U8Seq(q, s) == FoldLeft(LAMBDA r, b : U8Step(r, b), q, s)

(* A run of one byte longer than four behaves like a run of four: ASCII loops   *)
(* at 0, and at most three equal continuation or lead bytes can be consumed     *)
(* before the sink is reached.                                                  *)
U8Rep(q, b, n) ==
  IF n = 1 THEN U8Step(q, b)
  ELSE IF n = 2 THEN U8Step(U8Step(q, b), b)
  ELSE IF n = 3 THEN U8Step(U8Step(U8Step(q, b), b), b)
  ELSE U8Step(U8Step(U8Step(U8Step(q, b), b), b), b)
U8Blob(q, b) == FoldLeft(LAMBDA s, r : U8Rep(s, r[1], r[2]), q, b)

ValidUtf8(s) == U8Seq(U8Start, s) = 0
ValidUtf8Blob(b) == U8Blob(U8Start, b) = 0
=============================================================================
