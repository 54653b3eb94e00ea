----------------------------- MODULE MCServerGen ----------------------------
(* Walks through MCServer with what the clients did and when the server was asked to have  *)
(* said all it owes; printed so that each can be replayed against the real servers.        *)
EXTENDS MCServer, Json
CONSTANTS Steps
VARIABLES hist
G(x) == hist' = Append(hist, x)
GInit == Init /\ hist = <<>>
Settled == Owed(cs, Blocking) = {}
Op(o, i) == [o |-> o, c |-> i]
GNext == /\ Len(hist) < Steps
         /\ \/ Connect /\ G(Op("conn", Len(cs) + 1))
            \/ \E i \in 1..Len(cs) : Send(i) /\ G(Op(cs'[i].st, i))
            \/ \E i \in 1..Len(cs) : End(i) /\ G(Op(cs'[i].how, i))
            \/ hist # <<>> /\ hist[Len(hist)].o # "settle" /\ UNCHANGED <<cs, order>> /\ G(Op("settle", 0))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Report == Len(hist) = Steps => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
