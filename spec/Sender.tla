------------------------------- MODULE Sender -------------------------------
(* The sending side of one endpoint, down to the bytes a transport accepts.      *)
(*   Enqueue  a frame is handed over (a blocking send call, or a sink accepting)  *)
(*   Refuse   an unencodable frame is refused, nothing will reach the transport   *)
(*   Begin    the oldest frame handed over starts to be written                   *)
(*   Accepted the transport accepts some of the bytes on offer                    *)
(*   Break    the transport fails for good                                        *)
(*   Finish   the whole frame has been accepted                                   *)
(* A blocking call reports success only when its frame is finished; a sink only   *)
(* says it is flushed when nothing is left.  A frame has at least the fields      *)
(* fin, rsv, op, len.                                                             *)
EXTENDS Frame, FiniteSets, SequencesExt, Bitwise

VARIABLES queue,    \* frames handed over and not begun, oldest first
          cur,      \* frame being written, or NoFrame
          got,      \* how many of its bytes the transport has accepted
          sent,     \* frames completely written, in order
          broken,   \* the transport has failed
          keys      \* masking keys used so far (<<>> entries for unmasked frames)
svars == <<queue, cur, got, sent, broken, keys>>

NoFrame == [fin |-> FALSE, rsv |-> 0, op |-> 16, len |-> 0]

Encodable(f) == IsCtl(f.op) => f.len <= 125
SizeOf(f, masked) == EncodedSize(f.len, masked)
HeaderSize(f, masked) == SizeOf(f, masked) - f.len

Idle == queue = <<>> /\ cur = NoFrame
Backlog == ~Idle

SInit == queue = <<>> /\ cur = NoFrame /\ got = 0 /\ sent = <<>> /\ broken = FALSE /\ keys = <<>>

Enqueue(f) == Encodable(f) /\ queue' = Append(queue, f) /\ UNCHANGED <<cur, got, sent, broken, keys>>
Refuse(f) == ~Encodable(f) /\ UNCHANGED svars
(* a client's frame has a key, a server's has none *)
Begin(masked, key) ==
  /\ cur = NoFrame /\ queue # <<>> /\ ~broken
  /\ masked = (key # <<>>)
  /\ cur' = Head(queue) /\ queue' = Tail(queue) /\ got' = 0 /\ keys' = Append(keys, key)
  /\ UNCHANGED <<sent, broken>>
Accepted(n, masked) ==
  /\ cur # NoFrame /\ ~broken /\ n > 0 /\ got + n <= SizeOf(cur, masked)
  /\ got' = got + n /\ UNCHANGED <<queue, cur, sent, broken, keys>>
Break == ~broken /\ broken' = TRUE /\ UNCHANGED <<queue, cur, got, sent, keys>>
Finish(masked) ==
  /\ cur # NoFrame /\ got = SizeOf(cur, masked)
  /\ sent' = Append(sent, cur) /\ cur' = NoFrame /\ got' = 0 /\ UNCHANGED <<queue, broken, keys>>

(* ---------------------------- freshness of keys -------------------------------- *)
(* n keys drawn independently and uniformly, with tolerances that random keys exceed *)
(* with probability below 10^-9: hardly any repetition; the difference, exclusive or *)
(* and rotation relation of successive keys do not repeat; no byte position has few   *)
(* values; no bit is stuck or nearly so.                                              *)
DistinctCount(s) == Cardinality({s[i] : i \in 1..Len(s)})
KeyDiff(a, b) == [i \in 1..4 |-> (b[i] + 256 - a[i]) % 256]
KeyXor(a, b) == [i \in 1..4 |-> a[i] ^^ b[i]]
Rotation(a, b) == \E r \in 0..3 : \A i \in 1..4 : b[i] = a[((i - 1 + r) % 4) + 1]
Bit(x, j) == (x \div (2^j)) % 2
BitCount(ks, p, j) == Cardinality({i \in 1..Len(ks) : Bit(ks[i][p], j) = 1})
FreshKeys(ks) ==
  LET n == Len(ks)
  IN n >= 3 =>
       /\ DistinctCount(ks) >= n - 1 - n \div 1000
       /\ n >= 8 => /\ DistinctCount([i \in 1..(n - 1) |-> KeyDiff(ks[i], ks[i + 1])]) >= n - 3 - n \div 1000
                    /\ DistinctCount([i \in 1..(n - 1) |-> KeyXor(ks[i], ks[i + 1])]) >= n - 3 - n \div 1000
                    /\ Cardinality({i \in 1..(n - 1) : Rotation(ks[i], ks[i + 1])}) <= 1 + n \div 1000
       /\ n >= 48 => \A p \in 1..4 : /\ DistinctCount([i \in 1..n |-> ks[i][p]]) >= 16
                                     /\ \A j \in 0..7 : BitCount(ks, p, j) \in (n \div 10)..(n - n \div 10)
(* A key must not be a linear function of earlier ones either, which every linear  *)
(* generator is (counters, congruential generators in their low bits, shift         *)
(* registers, xorshift of up to 128 bits): the bits of 6 consecutive keys and a       *)
(* constant, taken over many positions, have full rank over GF(2).  With 40 rows      *)
(* more than columns, random keys fail this once in 2^40.                             *)
KeyWindow == 6
Triple(k, l, m) == (k * 256 + l) * 256 + m
WindowRow(ks, i) ==
  LET b(j) == ks[i + ((j - 1) \div 4)][((j - 1) % 4) + 1]
  IN <<Triple(b(1), b(2), b(3)), Triple(b(4), b(5), b(6)), Triple(b(7), b(8), b(9)), Triple(b(10), b(11), b(12)),
       Triple(b(13), b(14), b(15)), Triple(b(16), b(17), b(18)), Triple(b(19), b(20), b(21)), Triple(b(22), b(23), b(24)), 1>>
XorRow(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4], x[5] ^^ y[5], x[6] ^^ y[6], x[7] ^^ y[7], x[8] ^^ y[8], x[9] ^^ y[9]>>
LowBit(x) == CHOOSE j \in 0..23 : Bit(x, j) = 1 /\ \A h \in 0..(j - 1) : Bit(x, h) = 0
(* basis: rows with the word and bit each is known by *)
Reduce(basis, row) == FoldLeft(LAMBDA acc, e : IF Bit(acc[e.w], e.j) = 1 THEN XorRow(acc, e.row) ELSE acc, row, basis)
Insert(basis, row0) ==
  LET row == Reduce(basis, row0)
      nz == {w \in 1..9 : row[w] # 0}
  IN IF nz = {} THEN basis
     ELSE LET w == CHOOSE x \in nz : \A y \in nz : x <= y IN Append(basis, [row |-> row, w |-> w, j |-> LowBit(row[w])])
FullRank(ks, from) ==
  Len(FoldLeft(LAMBDA b, i : Insert(b, WindowRow(ks, from + i)), <<>>, [i \in 1..(32 * KeyWindow + 41) |-> i])) = 32 * KeyWindow + 1
NotLinear(ks) ==
  LET need == 32 * KeyWindow + 41 + KeyWindow
  IN Len(ks) >= need => FullRank(ks, 0) /\ (Len(ks) >= 2 * need => FullRank(ks, Len(ks) - need))
=============================================================================
