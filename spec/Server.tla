------------------------------- MODULE Server -------------------------------
(* A server with many connections.  What has arrived on a connection decides, by itself,  *)
(* what the server says about it; which connections it says anything about, and when,     *)
(* is the difference between the two kinds of server.                                     *)
EXTENDS Naturals, Sequences
(* st: "none", "part" (a request that is not complete), "good" (a complete, valid request, *)
(*     behind TLS if the server is secure), "bad" (complete but invalid, or malformed),    *)
(*     "unclear" (complete, and the rules leave it to the server);                         *)
(* how: "open", "fin", "reset"; said: "no", "ok", "err"                                    *)
NewConn == [st |-> "none", how |-> "open", said |-> "no"]
MayBeOk(c) == c.st \in {"good", "unclear"}
MayBeErr(c) == c.st \in {"bad", "unclear"} \/ (c.st \in {"none", "part"} /\ c.how # "open") \/ c.how = "reset"
Decided(c) == c.st \in {"good", "bad", "unclear"} \/ c.how # "open"
May(c, r) == c.said = "no" /\ (IF r = "ok" THEN MayBeOk(c) ELSE MayBeErr(c))
Say(c, r) == [c EXCEPT !.said = r]
Due(c) == Decided(c) /\ c.said = "no"
(* what the server owes: the asynchronous one everything that is decided, the blocking one *)
(* only what is not behind an undecided connection                                         *)
Owed(cs, blocking) ==
  {i \in 1..Len(cs) : Due(cs[i]) /\ (blocking => \A j \in 1..(i - 1) : Decided(cs[j]))}
(* which connection may be spoken of next *)
Speakable(cs, blocking) ==
  {i \in 1..Len(cs) : cs[i].said = "no" /\ Decided(cs[i]) /\ (blocking => \A j \in 1..(i - 1) : cs[j].said # "no")}
=============================================================================
