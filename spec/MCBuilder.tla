------------------------------ MODULE MCBuilder ------------------------------
(* All sequences of builder operations up to a length.  What the builder holds afterwards  *)
(* is stated a second time, from the history alone, and the two are compared; the request   *)
(* made from it must satisfy RequestDiff, and requests that leave anything out must not.    *)
EXTENDS Builder, Json
CONSTANTS MaxOps, Emit
VARIABLES hist, b
vars == <<hist, b>>
Pa == <<97>>   Pb == <<98>>   Pc == <<99>>
Ea == [n |-> <<120>>, ps |-> <<>>]
Eb == [n |-> <<121>>, ps |-> <<<<<<112>>, <<49>>>>, <<<<113>>>>>>]
K1 == [i \in 1..16 |-> i]   K2 == [i \in 1..16 |-> 255]
sCookie == <<67, 111, 111, 107, 105, 101>>   sXA == <<88, 45, 65>>   sxa == <<120, 45, 97>>
Ops == {[o |-> "proto", v |-> Pa], [o |-> "protos", vs |-> <<Pb, Pc>>], [o |-> "protos", vs |-> <<>>], [o |-> "clrproto"],
        [o |-> "ext", v |-> Ea], [o |-> "exts", vs |-> <<Eb, Ea>>], [o |-> "clrext"],
        [o |-> "key", v |-> K1], [o |-> "key", v |-> K2], [o |-> "clrkey"],
        [o |-> "ver", v |-> <<56>>], [o |-> "clrver"], [o |-> "origin", v |-> <<110>>], [o |-> "origin", v |-> <<111>>], [o |-> "clrorigin"],
        [o |-> "hdrs", vs |-> <<<<sCookie, <<Pa>>>>, <<sXA, <<Pa, Pb>>>>>>], [o |-> "hdrs", vs |-> <<<<sxa, <<Pc>>>>>>],
        [o |-> "clrhdr", v |-> Lower(sCookie)], [o |-> "clrhdr", v |-> sSProtocol], [o |-> "clrhdr", v |-> sSKey], [o |-> "clrhdr", v |-> sSVersion],
        [o |-> "clrhdr", v |-> sOrigin], [o |-> "clrhdr", v |-> sSExtensions],
        [o |-> "maxf", v |-> 5], [o |-> "maxf", v |-> 7], [o |-> "maxm", v |-> 9], [o |-> "clone"]}
Init == hist = <<>> /\ b = BInit
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : hist' = Append(hist, o) /\ b' = BApply(b, o)
        /\ Emit /\ Len(hist') = MaxOps => PrintT(<<"BEH", ToJson(hist')>>)
Spec == Init /\ [][Next]_vars

(* -------------------- the same, from the history alone --------------------- *)
IsClr(o, name, op) == o.o = op \/ (o.o = "clrhdr" /\ o.v = name)
LastClr(name, op) == LET S == {i \in 1..Len(hist) : IsClr(hist[i], name, op)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Since(name, op) == SubSeq(hist, LastClr(name, op) + 1, Len(hist))
Adds(s, one, many) == Flatten2([i \in 1..Len(s) |-> IF s[i].o = one THEN <<s[i].v>> ELSE IF s[i].o = many THEN s[i].vs ELSE <<>>])
LastOf(s, op, dflt) == LET S == {i \in 1..Len(s) : s[i].o = op} IN IF S = {} THEN dflt ELSE s[CHOOSE i \in S : \A j \in S : j <= i].v
ByHistory ==
  /\ b.protos = Adds(Since(sSProtocol, "clrproto"), "proto", "protos")
  /\ b.exts = Adds(Since(sSExtensions, "clrext"), "ext", "exts")
  /\ b.key = LET k == LastOf(Since(sSKey, "clrkey"), "key", <<>>) IN IF k = <<>> THEN <<>> ELSE B64(k)
  /\ b.ver = LastOf(Since(sSVersion, "clrver"), "ver", sV13)
  /\ b.origin = LET x == LastOf(Since(sOrigin, "clrorigin"), "origin", <<>>) IN IF x = <<>> THEN <<>> ELSE <<x>>
  /\ b.maxf = LastOf(hist, "maxf", 104857600) /\ b.maxm = LastOf(hist, "maxm", 209715200)
(* a custom header holds what was given last, unless cleared after *)
CustomByHistory ==
  \A n \in {Lower(sCookie), Lower(sXA)} :
    LET S == {i \in 1..Len(hist) : \/ hist[i].o = "clrhdr" /\ hist[i].v = n
                                   \/ hist[i].o = "hdrs" /\ \E j \in 1..Len(hist[i].vs) : Lower(hist[i].vs[j][1]) = n}
        x == hist[CHOOSE i \in S : \A j \in S : j <= i]
    IN IF S = {} \/ x.o = "clrhdr" THEN ~HasField(b.custom, n)
       ELSE ValuesOf(b.custom, n) = (LET j == CHOOSE j \in 1..Len(x.vs) : Lower(x.vs[j][1]) = n IN x.vs[j][2])

(* ------------------------------ the request made from it ------------------- *)
U1 == [scheme |-> sws, user |-> Pa, haspass |-> TRUE, pass |-> Pb, host |-> <<72>>, port |-> 443, path |-> <<>>, hasq |-> TRUE, query |-> Pc, hasf |-> TRUE, frag |-> Pa]
ExtText(e) == Join(<<e.n>> \o [i \in 1..Len(e.ps) |-> Join(e.ps[i], <<61>>)], <<59, 32>>)
F(n, v) == <<[n |-> n, v |-> v]>>
Fields(bb, u) ==
  F(sHost, HostText(u)) \o F(sUpgrade, sWebsocket) \o F(sConnection, sUpgrade) \o F(sSKey, IF bb.key = <<>> THEN B64(K1) ELSE bb.key)
  \o F(sSVersion, bb.ver) \o (IF HasAuth(u) THEN F(sAuthorization, AuthText(u)) ELSE <<>>)
  \o (IF bb.protos = <<>> THEN <<>> ELSE F(sSProtocol, Join(bb.protos, sCommaSp)))
  \o (IF bb.exts = <<>> THEN <<>> ELSE F(sSExtensions, Join([i \in 1..Len(bb.exts) |-> ExtText(bb.exts[i])], sCommaSp)))
  \o (IF bb.origin = <<>> THEN <<>> ELSE F(sOrigin, bb.origin[1])) \o bb.custom
Request(fs, u) == [cls |-> "ok", method |-> sGET, target |-> Target(u), v11 |-> TRUE, fs |-> fs]
RequestRight == RequestDiff(b, U1, Request(Fields(b, U1), U1)) = ""
RequestLeavesNothingOut == \A i \in 1..Len(Fields(b, U1)) :
   LET fs == Fields(b, U1) IN RequestDiff(b, U1, Request(SubSeq(fs, 1, i - 1) \o SubSeq(fs, i + 1, Len(fs)), U1)) # ""
RequestAddsNothing == LET fs == Fields(b, U1) IN /\ RequestDiff(b, U1, Request(fs \o F(sLocation, Pa), U1)) # ""
                                                 /\ RequestDiff(b, U1, [Request(fs, U1) EXCEPT !.target = @ \o <<35>> \o Pa]) # ""
(* the server reads back what the builder put in *)
ReadBack == LET fs == Fields(b, U1) IN ListOf(fs, sSProtocol) = b.protos /\ ExtsOf(fs) = b.exts
=============================================================================
