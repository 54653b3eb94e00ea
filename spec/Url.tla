--------------------------------- MODULE Url ---------------------------------
(* A WebSocket URL by its parts, and everything a connection takes from it.            *)
(* u: [scheme, user, haspass, pass, host, port (-1: none), path, hasq, query, hasf, frag] *)
EXTENDS Http
Dg(n, k) == 48 + ((n \div k) % 10)
Digits(n) == IF n < 10 THEN <<Dg(n, 1)>> ELSE IF n < 100 THEN <<Dg(n, 10), Dg(n, 1)>>
             ELSE IF n < 1000 THEN <<Dg(n, 100), Dg(n, 10), Dg(n, 1)>>
             ELSE IF n < 10000 THEN <<Dg(n, 1000), Dg(n, 100), Dg(n, 10), Dg(n, 1)>>
             ELSE <<Dg(n, 10000), Dg(n, 1000), Dg(n, 100), Dg(n, 10), Dg(n, 1)>>
UrlText(u) == u.scheme \o sCSS
              \o (IF u.user = <<>> /\ ~u.haspass THEN <<>> ELSE u.user \o (IF u.haspass THEN sColon \o u.pass ELSE <<>>) \o sAt)
              \o u.host \o (IF u.port < 0 THEN <<>> ELSE sColon \o Digits(u.port))
              \o u.path \o (IF u.hasq THEN sQuestion \o u.query ELSE <<>>) \o (IF u.hasf THEN sHash \o u.frag ELSE <<>>)
SecureScheme(u) == u.scheme \in {swss, shttps}
DefaultPort(u) == IF SecureScheme(u) THEN 443 ELSE 80
(* never the fragment, never the credentials *)
Target(u) == (IF u.path = <<>> THEN sSlash ELSE u.path) \o (IF u.hasq THEN sQuestion \o u.query ELSE <<>>)
HostText(u) == Lower(u.host) \o (IF u.port < 0 \/ u.port = DefaultPort(u) THEN <<>> ELSE sColon \o Digits(u.port))
(* RFC 3986, section 2.4: the parts of a URL are taken apart first and then decoded,    *)
(* so what a server is told as user name and password are the decoded parts            *)
HexVal(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE 16
PctAt(s, i) == s[i] = 37 /\ i + 2 <= Len(s) /\ HexVal(s[i + 1]) < 16 /\ HexVal(s[i + 2]) < 16
PctDecode(s) ==
  FoldLeft(LAMBDA a, i : IF a.skip > 0 THEN [a EXCEPT !.skip = a.skip - 1]
                         ELSE IF PctAt(s, i) THEN [out |-> Append(a.out, HexVal(s[i + 1]) * 16 + HexVal(s[i + 2])), skip |-> 2]
                         ELSE [a EXCEPT !.out = Append(a.out, s[i])],
           [out |-> <<>>, skip |-> 0], [i \in 1..Len(s) |-> i]).out
HasAuth(u) == u.user # <<>> \/ (u.haspass /\ u.pass # <<>>)
AuthText(u) == sBasic \o B64(PctDecode(u.user) \o sColon \o (IF u.haspass THEN PctDecode(u.pass) ELSE <<>>))
ConnPort(u) == IF u.port < 0 THEN DefaultPort(u) ELSE u.port
=============================================================================
