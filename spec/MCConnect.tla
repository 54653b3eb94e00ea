----------------------------- MODULE MCConnect ------------------------------
(* A client on its way to a peer: every kind of URL, way of connecting, connector and     *)
(* peer; what crosses the wire and when.                                                   *)
EXTENDS Connect, TLC
VARIABLES api, u, hosted, con, peer, phase, wire, port
vars == <<api, u, hosted, con, peer, phase, wire, port>>
Urls == {[scheme |-> s, port |-> p] : s \in {sws, swss, shttp, shttps, <<102>>}, p \in {-1, 80, 443, 9001}}
Peers == DOMAIN Certs \cup {"plain", "absent", "closes"}
Init == /\ api \in {"connect", "secure", "insecure", "aconnect", "asecure", "ainsecure"}
        /\ u \in Urls /\ hosted \in BOOLEAN /\ con \in Connectors /\ peer \in Peers
        /\ phase = "new" /\ wire = <<>> /\ port = 0
To(p) == phase' = p /\ UNCHANGED <<api, u, hosted, con, peer, port>>
Say(x) == wire' = Append(wire, x)
Quiet == UNCHANGED wire
Start == phase = "new" /\ IF ~hosted THEN To("refused") /\ Quiet
                          ELSE /\ port' = PortFor(api, u) /\ phase' = (IF peer = "absent" THEN "failed" ELSE "dialed")
                               /\ Quiet /\ UNCHANGED <<api, u, hosted, con, peer>>
Hello == phase = "dialed" /\ InTls(api, u) /\ Say("hello") /\ To("hello")
Answer == phase = "hello" /\ IF peer \in DOMAIN Certs /\ Trusts(con, Certs[peer]) THEN To("secured") /\ Quiet
                             ELSE To("failed") /\ (IF peer \in DOMAIN Certs THEN Say("alert") ELSE Quiet)
Ask == \/ phase = "secured" /\ Say("tlsrequest") /\ To("asked")
       \/ phase = "dialed" /\ ~InTls(api, u) /\ Say("request") /\ To("asked")
Conclude == phase = "asked" /\ Quiet /\ To(IF InTls(api, u) \/ peer = "plain" THEN "connected" ELSE "failed")
Next == Start \/ Hello \/ Answer \/ Ask \/ Conclude
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
On(x) == \E i \in 1..Len(wire) : wire[i] = x
NothingInTheClear == InTls(api, u) => ~On("request")
SecureUrlsAreTls == Choosing(api) /\ SecureScheme(u) => ~On("request")
PlainUrlsAreNot == Choosing(api) /\ ~SecureScheme(u) => ~On("hello")
Explicit == (api \in {"secure", "asecure"} => ~On("request")) /\ (api \in {"insecure", "ainsecure"} => ~On("hello"))
AskedOnlyTrusted == On("tlsrequest") => peer \in DOMAIN Certs /\ Trusts(con, Certs[peer])
HostlessStaysHome == ~hosted => port = 0 /\ wire = <<>>
RightPort == port # 0 => \/ port = u.port
                         \/ u.port < 0 /\ port = 443 /\ (u.scheme \in {swss, shttps} \/ (~KnownScheme(u) /\ InTls(api, u)))
                         \/ u.port < 0 /\ port = 80 /\ (u.scheme \in {sws, shttp} \/ (~KnownScheme(u) /\ ~InTls(api, u)))
NoTrustByDefault == con = "none" /\ InTls(api, u) => phase # "connected"
Ends == <>(phase \in {"refused", "failed", "connected"})
=============================================================================
