-------------------------------- MODULE Http --------------------------------
(* HTTP/1 message heads (RFC 7230) as byte sequences: start lines, header fields,    *)
(* comma lists, the parts of extension lists.  A head is a sequence of lines without *)
(* their CRLF.                                                                        *)
EXTENDS Sha1, Ascii, FiniteSets

IsBlank(b) == b = 32 \/ b = 9
LowerB(b) == IF b \in 65..90 THEN b + 32 ELSE b
Lower(s) == [i \in 1..Len(s) |-> LowerB(s[i])]
EqCI(a, b) == Len(a) = Len(b) /\ Lower(a) = Lower(b)
IndexOf(s, c) == LET S == {i \in 1..Len(s) : s[i] = c} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Trim(s) ==
  LET n == Len(s)
      a == CHOOSE i \in 1..(n + 1) : (i = n + 1 \/ ~IsBlank(s[i])) /\ \A j \in 1..(i - 1) : IsBlank(s[j])
      z == CHOOSE k \in 0..n : (k = n \/ ~IsBlank(s[n - k])) /\ \A j \in 0..(k - 1) : IsBlank(s[n - j])
  IN IF a > n THEN <<>> ELSE SubSeq(s, a, n - z)
(* pieces of s between occurrences of c *)
SplitOn(s, c) ==
  LET cuts == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = c)
      k == Len(cuts)
  IN [i \in 1..(k + 1) |-> Sub(s, IF i = 1 THEN 1 ELSE cuts[i - 1] + 1, IF i = k + 1 THEN Len(s) ELSE cuts[i] - 1)]
NonEmpty(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)
MapTrim(ss) == [i \in 1..Len(ss) |-> Trim(ss[i])]
CommaItems(s) == NonEmpty(MapTrim(SplitOn(s, 44)))
Flatten2(sss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, sss)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, ss[1], Tail(ss))

IsTokenByte(b) == \/ b \in 48..57 \/ b \in 65..90 \/ b \in 97..122
                  \/ b \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
IsToken(s) == s # <<>> /\ \A i \in 1..Len(s) : IsTokenByte(s[i])
IsValueByte(b) == b = 9 \/ b = 32 \/ b \in 33..126 \/ b >= 128
IsValue(s) == \A i \in 1..Len(s) : IsValueByte(s[i])
IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128

(* ------------------------------- header fields -------------------------------- *)
LineOK(ln) == LET c == IndexOf(ln, 58) IN c > 1 /\ IsToken(Sub(ln, 1, c - 1)) /\ IsValue(Sub(ln, c + 1, Len(ln)))
FieldOf(ln) == LET c == IndexOf(ln, 58) IN [n |-> Lower(Sub(ln, 1, c - 1)), v |-> Trim(Sub(ln, c + 1, Len(ln)))]
FieldsOf(lines) == [i \in 1..Len(lines) |-> FieldOf(lines[i])]
ValuesOf(fs, name) == LET sel == SelectSeq(fs, LAMBDA f : f.n = name) IN [i \in 1..Len(sel) |-> sel[i].v]
HasField(fs, name) == \E i \in 1..Len(fs) : fs[i].n = name
CountField(fs, name) == Len(ValuesOf(fs, name))
NamesOf(fs) == {fs[i].n : i \in 1..Len(fs)}
ListOf(fs, name) == LET vs == ValuesOf(fs, name) IN Flatten2([i \in 1..Len(vs) |-> CommaItems(vs[i])])
ListHas(fs, name, tok) == \E x \in {ListOf(fs, name)[i] : i \in 1..Len(ListOf(fs, name))} : EqCI(x, tok)
(* how the library shows a header that came as one or more lines *)
Shown(fs, name) == Join(ValuesOf(fs, name), sCommaSp)

(* a; p; q=v  ->  [n, ps: sequence of <<name>> or <<name, value>>] *)
ParamOf(s) == LET e == IndexOf(s, 61) IN IF e = 0 THEN <<Trim(s)>> ELSE <<Trim(Sub(s, 1, e - 1)), Trim(Sub(s, e + 1, Len(s)))>>
ExtOf(s) == LET ps == SplitOn(s, 59) IN [n |-> Trim(ps[1]), ps |-> [i \in 1..(Len(ps) - 1) |-> ParamOf(ps[i + 1])]]
ExtsOf(fs) == LET l == ListOf(fs, sSExtensions) IN [i \in 1..Len(l) |-> ExtOf(l[i])]

(* -------------------------------- start lines ----------------------------------- *)
(* a request target in absolute form that needs no normalisation:
   scheme://labels[:port]/path, the port not one a scheme stands for *)
sAbsSchemes == {<<104, 116, 116, 112>>, <<104, 116, 116, 112, 115>>, <<119, 115>>, <<119, 115, 115>>}
PlainLabel(x) == x # <<>> /\ \A i \in 1..Len(x) : x[i] \in 97..122
PlainPort(x) == Len(x) \in 2..5 /\ x[1] \in 49..57 /\ (\A i \in 1..Len(x) : x[i] \in 48..57) /\ x \notin {<<56, 48>>, <<52, 52, 51>>} /\ (Len(x) = 5 => x[1] < 54)
PlainPathByte(b) == b \in 97..122 \/ b \in 65..90 \/ b \in 48..57 \/ b \in {45, 95, 126, 47, 61, 38}
PlainAbsolute(t) ==
  LET c == IndexOf(t, 58)
      rest == Sub(t, c + 3, Len(t))
      k == IndexOf(rest, 47)
      auth == SplitOn(Take(rest, k - 1), 58)
      path == SplitOn(Sub(rest, k, Len(rest)), 63)
  IN /\ c > 1 /\ Take(t, c - 1) \in sAbsSchemes /\ Sub(t, c + 1, c + 2) = <<47, 47>>
     /\ k > 1 /\ Len(auth) <= 2 /\ (\A x \in {SplitOn(auth[1], 46)[i] : i \in 1..Len(SplitOn(auth[1], 46))} : PlainLabel(x))
     /\ (Len(auth) = 2 => PlainPort(auth[2]))
     /\ Len(path) <= 2 /\ (\A i \in 1..Len(path) : \A j \in 1..Len(path[i]) : PlainPathByte(path[i][j]))
(* class: "ok", "malformed" (no recipient may take it), "either" (recipients differ) *)
RequestLine(ln) ==
  LET ps == SplitOn(ln, 32)
  IN IF Len(ps) # 3 THEN [cls |-> IF Len(NonEmpty(ps)) = 3 THEN "either" ELSE "malformed"]
     ELSE IF ~IsToken(ps[1]) \/ ps[2] = <<>> THEN [cls |-> "malformed"]
     ELSE IF ps[3] # sHttp11 /\ ps[3] # sHttp10 THEN [cls |-> "malformed"]
     ELSE IF ~(\A i \in 1..Len(ps[2]) : ps[2][i] \in 33..126) THEN [cls |-> "either"]
     ELSE [cls |-> IF ps[2][1] = 47 \/ ps[2] = <<42>> \/ PlainAbsolute(ps[2]) THEN "ok" ELSE "either",
           method |-> ps[1], target |-> ps[2], v11 |-> ps[3] = sHttp11]
IsDigit(b) == b \in 48..57
StatusLine(ln) ==
  LET ver == Take(ln, 8)
      c == Sub(ln, 10, 12)
  IN IF Len(ln) < 12 \/ (ver # sHttp11 /\ ver # sHttp10) \/ ln[9] # 32 \/ ~(\A i \in 1..3 : IsDigit(c[i])) THEN [cls |-> "malformed"]
     ELSE IF Len(ln) > 12 /\ ln[13] # 32 THEN [cls |-> "malformed"]
     ELSE IF ~IsValue(Drop(ln, 12)) \/ ~IsAscii(ln) THEN [cls |-> "either"]
     ELSE [cls |-> "ok", code |-> (c[1] - 48) * 100 + (c[2] - 48) * 10 + (c[3] - 48), v11 |-> ver = sHttp11]
HeadersClass(lines) == IF \E i \in 1..Len(lines) : ~LineOK(lines[i]) THEN "malformed"
                       ELSE IF Len(lines) > 100 THEN "malformed" ELSE "ok"
Worst(a, b) == IF a = "malformed" \/ b = "malformed" THEN "malformed" ELSE IF a = "either" \/ b = "either" THEN "either" ELSE "ok"
RequestOf(lines) ==
  LET rl == RequestLine(lines[1])
      cls == Worst(rl.cls, HeadersClass(Tail(lines)))
  IN IF cls # "ok" THEN [cls |-> cls] ELSE rl @@ [fs |-> FieldsOf(Tail(lines))]
ResponseOf(lines) ==
  LET sl == StatusLine(lines[1])
      cls == Worst(sl.cls, HeadersClass(Tail(lines)))
  IN IF cls # "ok" THEN [cls |-> cls] ELSE sl @@ [fs |-> FieldsOf(Tail(lines))]

(* -------------------------- cutting heads off a stream --------------------------- *)
(* lines of a byte string of complete CRLF lines *)
CrLfs(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = 13 /\ i < Len(s) /\ s[i + 1] = 10)
LinesOf(s) == LET c == CrLfs(s) IN [i \in 1..Len(c) |-> Sub(s, IF i = 1 THEN 1 ELSE c[i - 1] + 2, c[i] - 1)]
(* the head at the start of s: number of bytes up to and including its blank line, 0 when incomplete;
   blank lines before the start line belong to it *)
LeadBlank(s) == LET c == CrLfs(s)
                    k == {i \in 0..Len(c) : \A j \in 1..i : c[j] = 2 * j - 1}
                IN 2 * (CHOOSE i \in k : \A j \in k : i >= j)
HeadEnd(s) ==
  LET o == LeadBlank(s)
      E == {i \in (o + 1)..(Len(s) - 3) : s[i] = 13 /\ s[i + 1] = 10 /\ s[i + 2] = 13 /\ s[i + 3] = 10}
  IN IF E = {} THEN 0 ELSE (CHOOSE i \in E : \A j \in E : i <= j) + 3
HeadLines(s) == LET e == HeadEnd(s) IN SelectSeq(LinesOf(Sub(s, LeadBlank(s) + 1, e - 2)), LAMBDA x : TRUE)
=============================================================================
