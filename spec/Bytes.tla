------------------------------- MODULE Bytes -------------------------------
(* Byte strings.  Short ones are sequences of 0..255.  Payloads are "blobs":    *)
(* canonical run-length encodings << <<byte, count>>, ... >> with adjacent runs *)
(* of different bytes and positive counts, so that a 64 KiB payload is a small  *)
(* value and equality of blobs is equality of byte strings.                     *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise, TLC

Byte == 0..255
IsByteSeq(s) == \A i \in 1..Len(s) : s[i] \in Byte

Inf == 2147483647            \* TLC integers are 32 bit; lengths at or above this are "huge"

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

(*************************** sequences of bytes ******************************)
Sub(s, i, j) == IF i > j THEN <<>> ELSE SubSeq(s, i, Min2(j, Len(s)))
Take(s, n)   == Sub(s, 1, n)
Drop(s, n)   == Sub(s, n + 1, Len(s))

XorByte(a, b) == a ^^ b

(* payload byte i (1-based) is exclusive-ored with key byte (i-1) mod 4 *)
MaskSeq(key, s) == [i \in 1..Len(s) |-> s[i] ^^ key[((i - 1) % 4) + 1]]
(* the same for a chunk that starts at payload offset off *)
MaskSeqAt(key, s, off) == [i \in 1..Len(s) |-> s[i] ^^ key[((off + i - 1) % 4) + 1]]

BE16(s, i) == s[i] * 256 + s[i + 1]

(* big-endian 64 bit value starting at i, or Inf when it does not fit *)
BE64(s, i) ==
  IF s[i] # 0 \/ s[i+1] # 0 \/ s[i+2] # 0 \/ s[i+3] # 0 \/ s[i+4] >= 128 THEN Inf
  ELSE ((s[i+4] * 256 + s[i+5]) * 256 + s[i+6]) * 256 + s[i+7]

U16(n) == << n \div 256, n % 256 >>
U64(n) == << 0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>

(********************************* blobs *************************************)
IsBlob(b) == /\ \A i \in 1..Len(b) : b[i][1] \in Byte /\ b[i][2] > 0
             /\ \A i \in 1..(Len(b) - 1) : b[i][1] # b[i+1][1]

BLen(b) == FoldLeft(LAMBDA acc, r : acc + r[2], 0, b)

BCat(a, b) ==
  IF a = <<>> THEN b
  ELSE IF b = <<>> THEN a
  ELSE IF a[Len(a)][1] = b[1][1]
       THEN SubSeq(a, 1, Len(a) - 1) \o << <<b[1][1], a[Len(a)][2] + b[1][2]>> >> \o SubSeq(b, 2, Len(b))
       ELSE a \o b

(* bytes -> blob: run starts are the positions that differ from their predecessor *)
ToBlob(s) ==
  LET st == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i = 1 \/ s[i] # s[i - 1])
      n == Len(st)
  IN [k \in 1..n |-> <<s[st[k]], (IF k = n THEN Len(s) + 1 ELSE st[k + 1]) - st[k]>>]

(* blob -> bytes, for small blobs *)
ToBytes(b) == FoldLeft(LAMBDA acc, r : acc \o [j \in 1..r[2] |-> r[1]], <<>>, b)

(* drop the first n bytes of a blob *)
RECURSIVE BDrop(_, _)
BDrop(b, n) ==
  IF n = 0 \/ b = <<>> THEN b
  ELSE IF b[1][2] <= n THEN BDrop(Tail(b), n - b[1][2])
  ELSE << <<b[1][1], b[1][2] - n>> >> \o Tail(b)

RECURSIVE BTake(_, _)
BTake(b, n) ==
  IF n = 0 \/ b = <<>> THEN <<>>
  ELSE IF b[1][2] <= n THEN <<b[1]>> \o BTake(Tail(b), n - b[1][2])
  ELSE << <<b[1][1], n>> >>

IsPrefixBlob(a, b) == BLen(a) <= BLen(b) /\ BTake(b, BLen(a)) = a
=============================================================================
