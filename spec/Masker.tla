------------------------------- MODULE Masker -------------------------------
(* A writer that masks what passes through it, over a sink that may take only a    *)
(* part of what it is offered.  pos is the position in the payload: it advances by  *)
(* what the sink took, never by what was offered.                                    *)
EXTENDS Bytes
VARIABLES pos, sunk       \* payload bytes taken so far; what the sink holds
kvars == <<pos, sunk>>
KInit == pos = 0 /\ sunk = <<>>
(* offered: the payload from pos on that the caller offers; n: how much the sink took *)
Write(key, offered, n) ==
  /\ n <= Len(offered)
  /\ sunk' = sunk \o MaskSeqAt(key, SubSeq(offered, 1, n), pos)
  /\ pos' = pos + n
Interrupted == UNCHANGED kvars
(* The same for payloads of any length: every fourth byte is combined with the same   *)
(* byte of the key, so each of the four columns keeps its runs.                        *)
Column(s, c) == ToBlob([i \in 1..((Len(s) + 4 - c) \div 4) |-> s[4 * (i - 1) + c]])
Columns(s) == [c \in 1..4 |-> Column(s, c)]
MaskColumns(key, cs) == [c \in 1..4 |-> [r \in 1..Len(cs[c]) |-> <<cs[c][r][1] ^^ key[c], cs[c][r][2]>>]]
=============================================================================
