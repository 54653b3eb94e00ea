------------------------------- MODULE Frame --------------------------------
(* The wire format of data frames (RFC 6455 section 5.2): header parsing with   *)
(* exact knowledge of how many bytes each conclusion needs, canonical encoding, *)
(* and masking.                                                                 *)
EXTENDS Utf8

OpCont == 0  OpText == 1  OpBin == 2  OpClose == 8  OpPing == 9  OpPong == 10
IsCtl(op) == op >= 8
KnownOps == {OpCont, OpText, OpBin, OpClose, OpPing, OpPong}

(* Header length announced by the first two bytes *)
ExtLen(b1) == CASE b1 % 128 = 126 -> 2 [] b1 % 128 = 127 -> 8 [] OTHER -> 0
KeyLen(b1) == IF b1 >= 128 THEN 4 ELSE 0
HdrLen(b1) == 2 + ExtLen(b1) + KeyLen(b1)

(* ParseHeader(h): h is a prefix of the remaining stream (up to 14 bytes are     *)
(* looked at).  have = 0: nothing; 1: first byte only; 2: two bytes but header   *)
(* incomplete; 3: header complete.  Fields that are not known yet hold values    *)
(* that give rise to no complaint.                                               *)
ParseHeader(h) ==
  IF Len(h) = 0
  THEN [have |-> 0, fin |-> TRUE, rsv |-> 0, op |-> 2, masked |-> FALSE, mknown |-> FALSE,
        len |-> 0, nonmin |-> FALSE, key |-> <<>>, hl |-> Inf]
  ELSE LET b0 == h[1]
           base == [fin |-> b0 >= 128, rsv |-> (b0 \div 16) % 8, op |-> b0 % 16]
       IN IF Len(h) = 1
          THEN base @@ [have |-> 1, masked |-> FALSE, mknown |-> FALSE, len |-> 0,
                        nonmin |-> FALSE, key |-> <<>>, hl |-> Inf]
          ELSE LET b1 == h[2]
                   l7 == b1 % 128
                   lenknown == Len(h) >= 2 + ExtLen(b1)
                   len == CASE l7 = 126 -> IF lenknown THEN BE16(h, 3) ELSE 126
                            [] l7 = 127 -> IF lenknown THEN BE64(h, 3) ELSE 65536
                            [] OTHER -> l7
                   nonmin == lenknown /\ ((l7 = 126 /\ len <= 125) \/ (l7 = 127 /\ len <= 65535))
                   complete == Len(h) >= HdrLen(b1)
               IN base @@ [have |-> IF complete THEN 3 ELSE 2,
                           masked |-> b1 >= 128, mknown |-> TRUE, len |-> len, nonmin |-> nonmin,
                           key |-> IF complete /\ b1 >= 128 THEN Sub(h, HdrLen(b1) - 3, HdrLen(b1)) ELSE <<>>,
                           hl |-> HdrLen(b1)]

(* The canonical encoding: shortest length form; key = <<>> means unmasked.      *)
Byte0(fin, rsv, op) == (IF fin THEN 128 ELSE 0) + rsv * 16 + op
EncodeHeader(fin, rsv, op, len, key) ==
  << Byte0(fin, rsv, op),
     (IF key = <<>> THEN 0 ELSE 128)
       + (CASE len <= 125 -> len [] len <= 65535 -> 126 [] OTHER -> 127) >>
  \o (CASE len <= 125 -> <<>> [] len <= 65535 -> U16(len) [] OTHER -> U64(len))
  \o key
EncodedSize(len, masked) ==
  2 + (CASE len <= 125 -> 0 [] len <= 65535 -> 2 [] OTHER -> 8) + (IF masked THEN 4 ELSE 0) + len

EncodeFrame(fin, rsv, op, payload, key) ==
  EncodeHeader(fin, rsv, op, Len(payload), key)
  \o (IF key = <<>> THEN payload ELSE MaskSeq(key, payload))

(* ---- messages as the API shows them: t = opcode, code = -1 or close code ---- *)
MsgPayload(m) == IF m.t = OpClose /\ m.code >= 0 THEN BCat(ToBlob(U16(m.code)), m.p) ELSE m.p
CloseCodeOf(p) == IF BLen(p) < 2 THEN 0 - 1 ELSE BE16(ToBytes(BTake(p, 2)), 1)
(* what a delivered message must look like, from its opcode and full payload *)
MsgOf(op, p) ==
  IF op = OpClose /\ BLen(p) >= 2
  THEN [t |-> op, code |-> CloseCodeOf(p), p |-> BDrop(p, 2)]
  ELSE [t |-> op, code |-> 0 - 1, p |-> p]
=============================================================================
