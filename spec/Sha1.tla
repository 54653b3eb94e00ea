-------------------------------- MODULE Sha1 --------------------------------
(* SHA-1 (RFC 3174) and base64 (RFC 4648) over byte sequences, as the opening        *)
(* handshake uses them.  TLC integers are 32 bit signed, so words are pairs of       *)
(* 16 bit halves <<hi, lo>>.                                                          *)
EXTENDS Bytes

LOCAL P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Pow(n) == P2[n + 1]
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
WNot(a)    == <<65535 - a[1], 65535 - a[2]>>
WSum(ws) == LET lo == FoldLeft(LAMBDA s, w : s + w[2], 0, ws)
                hi == FoldLeft(LAMBDA s, w : s + w[1], lo \div 65536, ws)
            IN <<hi % 65536, lo % 65536>>
(* rotate left by n < 16 *)
Rot(a, n) == << ((a[1] * Pow(n)) % 65536) + (a[2] \div Pow(16 - n)), ((a[2] * Pow(n)) % 65536) + (a[1] \div Pow(16 - n)) >>
Rot30(a) == Rot(<<a[2], a[1]>>, 14)

Pad(msg) == LET n == Len(msg)
                z == (119 - (n % 64)) % 64
            IN msg \o <<128>> \o [i \in 1..z |-> 0] \o <<0, 0, 0, 0, 0, n \div 8192, (n \div 32) % 256, (n * 8) % 256>>

KOf(t) == CASE t <= 20 -> <<23170, 31129>> [] t <= 40 -> <<28377, 60321>> [] t <= 60 -> <<36635, 48348>> [] OTHER -> <<51810, 49622>>
FOf(t, b, c, d) == CASE t <= 20 -> WOr(WAnd(b, c), WAnd(WNot(b), d))
                     [] t <= 40 -> WXor(WXor(b, c), d)
                     [] t <= 60 -> WOr(WOr(WAnd(b, c), WAnd(b, d)), WAnd(c, d))
                     [] OTHER -> WXor(WXor(b, c), d)
LOCAL Idx(n) == [i \in 1..n |-> i]
Schedule(blk) ==
  LET w0 == [i \in 1..16 |-> <<blk[4 * i - 3] * 256 + blk[4 * i - 2], blk[4 * i - 1] * 256 + blk[4 * i]>>]
  IN FoldLeft(LAMBDA w, t : Append(w, Rot(WXor(WXor(w[t + 13], w[t + 8]), WXor(w[t + 2], w[t])), 1)), w0, Idx(64))
Round(h, blk) ==
  LET w == Schedule(blk)
      r == FoldLeft(LAMBDA s, t : << WSum(<<Rot(s[1], 5), FOf(t, s[2], s[3], s[4]), s[5], w[t], KOf(t)>>), s[1], Rot30(s[2]), s[3], s[4] >>, h, Idx(80))
  IN [i \in 1..5 |-> WSum(<<h[i], r[i]>>)]
Sha1Of(msg) ==
  LET p == Pad(msg)
      h == FoldLeft(LAMBDA s, k : Round(s, SubSeq(p, 64 * k - 63, 64 * k)),
                    << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>> >>, Idx(Len(p) \div 64))
  IN FoldLeft(LAMBDA s, w : s \o <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>, <<>>, h)

(* ---------------------------------- base64 ----------------------------------- *)
B64Char(v) == CASE v < 26 -> 65 + v [] v < 52 -> 71 + v [] v < 62 -> v - 4 [] v = 62 -> 43 [] OTHER -> 47
B64Val(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> 99
B64(s) ==
  LET n == Len(s)
      at(i) == IF i <= n THEN s[i] ELSE 0
      grp(g) == LET a == at(3 * g - 2) b == at(3 * g - 1) c == at(3 * g)
                IN << B64Char(a \div 4), B64Char((a % 4) * 16 + b \div 16),
                      IF 3 * g - 1 <= n THEN B64Char((b % 16) * 4 + c \div 64) ELSE 61,
                      IF 3 * g <= n THEN B64Char(c % 64) ELSE 61 >>
  IN FoldLeft(LAMBDA acc, g : acc \o grp(g), <<>>, Idx((n + 2) \div 3))
(* [ok, canon, bytes]: ok - alphabet and padding are right; canon - no stray bits *)
B64Dec(t) ==
  LET n == Len(t)
      pads == IF n >= 2 /\ t[n] = 61 /\ t[n - 1] = 61 THEN 2 ELSE IF n >= 1 /\ t[n] = 61 THEN 1 ELSE 0
      m == n - pads
      good == \A i \in 1..m : B64Val(t[i]) < 64
      v(i) == IF i <= m THEN B64Val(t[i]) ELSE 0
      nb == (m * 6) \div 8
      byte(k) == LET g == (k - 1) \div 3 r == (k - 1) % 3
                 IN CASE r = 0 -> v(4 * g + 1) * 4 + v(4 * g + 2) \div 16
                      [] r = 1 -> (v(4 * g + 2) % 16) * 16 + v(4 * g + 3) \div 4
                      [] OTHER -> (v(4 * g + 3) % 4) * 64 + v(4 * g + 4)
      bytes == [k \in 1..nb |-> byte(k)]
  IN IF ~good \/ m % 4 = 1 THEN [ok |-> FALSE, canon |-> FALSE, bytes |-> <<>>]
     ELSE [ok |-> TRUE, canon |-> t = B64(bytes), bytes |-> bytes]

Guid == <<50,53,56,69,65,70,65,53,45,69,57,49,52,45,52,55,68,65,45,57,53,67,65,45,67,53,65,66,48,68,67,56,53,66,49,49>>
AcceptOf(keytext) == B64(Sha1Of(keytext \o Guid))

ASSUME Sha1Of(<<97, 98, 99>>) = <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113, 120, 80, 194, 108, 156, 208, 216, 157>>
ASSUME Sha1Of(<<>>) = <<218, 57, 163, 238, 94, 107, 75, 13, 50, 85, 191, 239, 149, 96, 24, 144, 175, 216, 7, 9>>
(* the example of RFC 6455, section 1.3: dGhlIHNhbXBsZSBub25jZQ== -> s3pPLMBiTxaQ9kYGzzhZRbK+xOo= *)
ASSUME AcceptOf(<<100,71,104,108,73,72,78,104,98,88,66,115,90,83,66,117,98,50,53,106,90,81,61,61>>)
       = <<115,51,112,80,76,77,66,105,84,120,97,81,57,107,89,71,122,122,104,90,82,98,75,43,120,79,111,61>>
ASSUME B64Dec(B64(<<1, 2, 3, 255>>)) = [ok |-> TRUE, canon |-> TRUE, bytes |-> <<1, 2, 3, 255>>]
=============================================================================
