------------------------------ MODULE Connect -------------------------------
(* Where a client connects, whether the connection is carried in TLS, and whose           *)
(* certificate it takes.                                                                   *)
EXTENDS Url
(* apis: choosing by the URL ("connect", "aconnect"), explicitly secure ("secure",         *)
(* "asecure"), explicitly plain ("insecure", "ainsecure")                                  *)
Choosing(api) == api \in {"connect", "aconnect"}
InTls(api, u) == IF Choosing(api) THEN SecureScheme(u) ELSE api \in {"secure", "asecure"}
KnownScheme(u) == u.scheme \in {sws, swss, shttp, shttps}
(* other schemes have no port of their own: it follows from how the connection is made *)
PortFor(api, u) == IF u.port >= 0 THEN u.port ELSE IF KnownScheme(u) THEN DefaultPort(u) ELSE IF InTls(api, u) THEN 443 ELSE 80
(* a certificate: [root, named, current]: from the root that the test's connector trusts,   *)
(* for the host in the URL, not expired                                                     *)
Certs == [good |-> [root |-> TRUE, named |-> TRUE, current |-> TRUE],
          wrong |-> [root |-> TRUE, named |-> FALSE, current |-> TRUE],
          untrusted |-> [root |-> FALSE, named |-> TRUE, current |-> TRUE],
          expired |-> [root |-> TRUE, named |-> TRUE, current |-> FALSE]]
(* a connector: none given and the system's roots do not hold the test's root, or they do    *)
(* ("system"), the test's root, the test's root for any host name, anything at all           *)
Connectors == {"none", "system", "root", "anyhost", "any"}
Trusts(con, c) == CASE con = "none" -> FALSE
                    [] con \in {"root", "system"} -> c.root /\ c.named /\ c.current
                    [] con = "anyhost" -> c.root /\ c.current
                    [] OTHER -> TRUE
=============================================================================
