------------------------------- MODULE Builder -------------------------------
(* The client builder: what a sequence of builder operations makes of the request.     *)
EXTENDS Url, Handshake
BInit == [protos |-> <<>>, exts |-> <<>>, key |-> <<>>, ver |-> sV13, origin |-> <<>>, custom |-> <<>>,
          maxf |-> 104857600, maxm |-> 209715200, touched |-> {}]
Without(custom, name) == SelectSeq(custom, LAMBDA f : f.n # name)
(* vs: lines of one header *)
AddHeader(custom, name, vs) == Without(custom, Lower(name)) \o [i \in 1..Len(vs) |-> [n |-> Lower(name), v |-> vs[i]]]
BApply(b, o) ==
  CASE o.o = "proto" -> [b EXCEPT !.protos = Append(@, o.v)]
    [] o.o = "protos" -> [b EXCEPT !.protos = @ \o o.vs, !.touched = @ \cup {sSProtocol}]
    [] o.o = "clrproto" -> [b EXCEPT !.protos = <<>>, !.touched = @ \ {sSProtocol}]
    [] o.o = "ext" -> [b EXCEPT !.exts = Append(@, o.v)]
    [] o.o = "exts" -> [b EXCEPT !.exts = @ \o o.vs, !.touched = @ \cup {sSExtensions}]
    [] o.o = "clrext" -> [b EXCEPT !.exts = <<>>, !.touched = @ \ {sSExtensions}]
    [] o.o = "key" -> [b EXCEPT !.key = B64(o.v)]
    [] o.o = "clrkey" -> [b EXCEPT !.key = <<>>]
    [] o.o = "ver" -> [b EXCEPT !.ver = o.v]
    [] o.o = "clrver" -> [b EXCEPT !.ver = sV13]
    [] o.o = "origin" -> [b EXCEPT !.origin = <<o.v>>]
    [] o.o = "clrorigin" -> [b EXCEPT !.origin = <<>>]
    [] o.o = "hdrs" -> [b EXCEPT !.custom = FoldLeft(LAMBDA c, h : AddHeader(c, h[1], h[2]), @, o.vs)]
    [] o.o = "clrhdr" -> CASE o.v = sSProtocol -> [b EXCEPT !.protos = <<>>, !.touched = @ \ {sSProtocol}]
                           [] o.v = sSExtensions -> [b EXCEPT !.exts = <<>>, !.touched = @ \ {sSExtensions}]
                           [] o.v = sSKey -> [b EXCEPT !.key = <<>>]
                           [] o.v = sSVersion -> [b EXCEPT !.ver = sV13]
                           [] o.v = sOrigin -> [b EXCEPT !.origin = <<>>]
                           [] OTHER -> [b EXCEPT !.custom = Without(@, Lower(o.v))]
    [] o.o = "maxf" -> [b EXCEPT !.maxf = o.v]
    [] o.o = "maxm" -> [b EXCEPT !.maxm = o.v]
    [] o.o = "clone" -> b
BAfter(ops) == FoldLeft(LAMBDA b, o : BApply(b, o), BInit, ops)

(* names the request must carry *)
Required(b, u) == {sHost, sUpgrade, sConnection, sSKey, sSVersion}
                  \cup (IF HasAuth(u) THEN {sAuthorization} ELSE {})
                  \cup (IF b.protos # <<>> THEN {sSProtocol} ELSE {})
                  \cup (IF b.exts # <<>> THEN {sSExtensions} ELSE {})
                  \cup (IF b.origin # <<>> THEN {sOrigin} ELSE {})
                  \cup NamesOf(b.custom)
OneIs(fs, name, v) == ValuesOf(fs, name) = <<v>>
(* "" when the request is what the builder and the URL ask for *)
RequestDiff(b, u, r) ==
  IF r.cls # "ok" THEN "request-malformed"
  ELSE IF r.method # sGET \/ ~r.v11 THEN "request-line"
  ELSE IF r.target # Target(u) THEN "target"
  ELSE IF ~OneIs(r.fs, sHost, HostText(u)) THEN "host"
  ELSE IF CountField(r.fs, sUpgrade) # 1 \/ ~EqCI(ValuesOf(r.fs, sUpgrade)[1], sWebsocket) THEN "upgrade-header"
  ELSE IF CountField(r.fs, sConnection) # 1 \/ ~ListHas(r.fs, sConnection, sUpgrade) THEN "connection-header"
  ELSE IF HasAuth(u) /\ ~OneIs(r.fs, sAuthorization, AuthText(u)) THEN "authorization"
  ELSE IF ~OneIs(r.fs, sSVersion, Trim(Clean(b.ver))) THEN "version-header"
  ELSE IF KeyClass(r) # "ok" THEN "key-header"
  ELSE IF b.key # <<>> /\ KeyText(r) # b.key THEN "key-changed"
  ELSE IF b.origin # <<>> /\ ~OneIs(r.fs, sOrigin, Trim(Clean(b.origin[1]))) THEN "origin"
  ELSE IF ~KeepsProtocols(r.fs, b.protos) THEN "protocols"
  ELSE IF ~KeepsExtensions(r.fs, b.exts) THEN "extensions"
  ELSE IF \E n \in NamesOf(b.custom) \ (Reserved \cup {sHost, sSKey, sSVersion} \cup (IF HasAuth(u) THEN {sAuthorization} ELSE {})) :
             ValuesOf(r.fs, n) # ValuesOf(CustomFields(b.custom), n) THEN "custom-headers"
  ELSE IF Required(b, u) \ NamesOf(r.fs) # {} THEN "missing-header"
  ELSE IF NamesOf(r.fs) \ (Required(b, u) \cup b.touched) # {} THEN "extra-header"
  ELSE ""
=============================================================================
