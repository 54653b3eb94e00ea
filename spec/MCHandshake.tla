----------------------------- MODULE MCHandshake ----------------------------
(* Both ends of an opening handshake over streams that are cut anywhere and may end       *)
(* anywhere.  Bytes are units: request head r..R, response head s..S (R and S complete    *)
(* the head), WebSocket bytes c.. and d.. that either side may send right behind its      *)
(* head.  What a head says is the scenario's choice; what the endpoints make of it is     *)
(* the specification.                                                                      *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS HeadUnits,    \* units of a head
          WsUnits       \* WebSocket units sent behind it
VARIABLES kind,         \* of this handshake: [req, act, resp]
          c2s, s2c,     \* what is under way
          eofC, eofS,   \* the client, the server has ended its direction
          cst, sst,     \* client: "new","asked","connected","refused","redirect","status","ended"
                        \* server: "reading","offered","connected","invalid","rejected","dropped","ended"
          cbuf, sbuf,   \* read, not yet consumed
          cseen, sseen, \* WebSocket units handed to the application
          cws, sws,     \* WebSocket units still to be sent
          swrote        \* units the server side has written
vars == <<kind, c2s, s2c, eofC, eofS, cst, sst, cbuf, sbuf, cseen, sseen, cws, sws, swrote>>
HeadOf(x, e) == [i \in 1..HeadUnits |-> IF i = HeadUnits THEN <<e, 0>> ELSE <<x, 0>>]
Kinds == [req : {"valid", "invalid", "malformed"}, act : {"accept", "reject", "drop"},
          resp : {"honest", "badaccept", "redirect", "status", "malformed", "good"}]
Scripted == kind.resp # "honest"      \* the client talks to a scripted peer instead
Has(b, e) == \E i \in 1..Len(b) : b[i] = <<e, 0>>
Upto(b, e) == CHOOSE i \in 1..Len(b) : b[i] = <<e, 0>> /\ \A j \in 1..(i - 1) : b[j] # <<e, 0>>
After(b, e) == SubSeq(b, Upto(b, e) + 1, Len(b))
Cs(n) == [i \in 1..n |-> <<"c", i>>]
Ds(n) == [i \in 1..n |-> <<"d", i>>]

Init == /\ kind \in Kinds
        /\ c2s = <<>> /\ s2c = <<>> /\ eofC = FALSE /\ eofS = FALSE
        /\ cst = "new" /\ sst = "reading" /\ cbuf = <<>> /\ sbuf = <<>>
        /\ cseen = <<>> /\ sseen = <<>> /\ cws = Cs(WsUnits) /\ sws = Ds(WsUnits) /\ swrote = <<>>

ClientAsks == /\ cst = "new" /\ cst' = "asked" /\ c2s' = c2s \o HeadOf("r", "R")
              /\ UNCHANGED <<kind, s2c, eofC, eofS, sst, cbuf, sbuf, cseen, sseen, cws, sws, swrote>>
(* a peer may send WebSocket bytes right behind its request *)
ClientWs == /\ cst \in {"asked", "connected"} /\ cws # <<>> /\ ~eofC
            /\ c2s' = Append(c2s, Head(cws)) /\ cws' = Tail(cws)
            /\ UNCHANGED <<kind, s2c, eofC, eofS, cst, sst, cbuf, sbuf, cseen, sseen, sws, swrote>>
ClientEnds == /\ cst # "new" /\ ~eofC /\ eofC' = TRUE
              /\ UNCHANGED <<kind, c2s, s2c, eofS, cst, sst, cbuf, sbuf, cseen, sseen, cws, sws, swrote>>
(* ------------------------------- the server side ------------------------------- *)
ServerReads == /\ sst = "reading" /\ ~Has(sbuf, "R") /\ c2s # <<>>
               /\ \E n \in 1..Len(c2s) : sbuf' = sbuf \o SubSeq(c2s, 1, n) /\ c2s' = SubSeq(c2s, n + 1, Len(c2s))
               /\ UNCHANGED <<kind, s2c, eofC, eofS, cst, sst, cbuf, cseen, sseen, cws, sws, swrote>>
ServerParses == /\ sst = "reading" /\ Has(sbuf, "R")
                /\ IF kind.req = "valid" THEN sst' = "offered" /\ sbuf' = After(sbuf, "R")
                   ELSE sst' = "invalid" /\ sbuf' = After(sbuf, "R")
                /\ UNCHANGED <<kind, c2s, s2c, eofC, eofS, cst, cbuf, cseen, sseen, cws, sws, swrote>>
ServerSeesEnd == /\ sst = "reading" /\ ~Has(sbuf, "R") /\ c2s = <<>> /\ eofC /\ sst' = "ended"
                 /\ UNCHANGED <<kind, c2s, s2c, eofC, eofS, cst, cbuf, sbuf, cseen, sseen, cws, sws, swrote>>
ServerActs == /\ sst = "offered"
              /\ sst' = (CASE kind.act = "accept" -> "connected" [] kind.act = "reject" -> "rejected" [] OTHER -> "dropped")
              /\ LET w == IF kind.act = "drop" THEN <<>> ELSE HeadOf("s", "S")
                 IN swrote' = swrote \o w /\ s2c' = IF Scripted THEN s2c ELSE s2c \o w
              /\ UNCHANGED <<kind, c2s, eofC, eofS, cst, cbuf, sbuf, cseen, sseen, cws, sws>>
ServerWs == /\ sst = "connected" /\ sws # <<>> /\ ~eofS /\ ~Scripted
            /\ s2c' = Append(s2c, Head(sws)) /\ swrote' = Append(swrote, Head(sws)) /\ sws' = Tail(sws)
            /\ UNCHANGED <<kind, c2s, eofC, eofS, cst, sst, cbuf, sbuf, cseen, sseen, cws>>
ServerEnds == /\ sst \in {"connected", "rejected", "dropped", "invalid", "ended"} /\ ~eofS /\ ~Scripted /\ eofS' = TRUE
              /\ UNCHANGED <<kind, c2s, s2c, eofC, cst, sst, cbuf, sbuf, cseen, sseen, cws, sws, swrote>>
(* the connection's reader: what was read with the head comes first *)
ServerTakes == /\ sst = "connected"
               /\ \/ sbuf # <<>> /\ sseen' = Append(sseen, Head(sbuf)) /\ sbuf' = Tail(sbuf) /\ UNCHANGED c2s
                  \/ sbuf = <<>> /\ c2s # <<>> /\ sseen' = Append(sseen, Head(c2s)) /\ c2s' = Tail(c2s) /\ UNCHANGED sbuf
               /\ UNCHANGED <<kind, s2c, eofC, eofS, cst, sst, cbuf, cseen, cws, sws, swrote>>
(* --------------------------- the client and its peer --------------------------- *)
PeerAnswers == /\ Scripted /\ cst = "asked" /\ s2c = <<>> /\ cbuf = <<>> /\ ~eofS
               /\ s2c' = HeadOf("s", "S") \o Ds(WsUnits) /\ sws' = <<>>
               /\ UNCHANGED <<kind, c2s, eofC, eofS, cst, sst, cbuf, sbuf, cseen, sseen, cws, swrote>>
PeerEnds == /\ Scripted /\ cst = "asked" /\ ~eofS /\ eofS' = TRUE
            /\ \E n \in 0..Len(s2c) : s2c' = SubSeq(s2c, 1, n) /\ sws' = IF s2c = <<>> THEN sws ELSE SubSeq(s2c, n + 1, Len(s2c))
            /\ UNCHANGED <<kind, c2s, eofC, cst, sst, cbuf, sbuf, cseen, sseen, cws, swrote>>
ClientReads == /\ cst = "asked" /\ ~Has(cbuf, "S") /\ s2c # <<>>
               /\ \E n \in 1..Len(s2c) : cbuf' = cbuf \o SubSeq(s2c, 1, n) /\ s2c' = SubSeq(s2c, n + 1, Len(s2c))
               /\ UNCHANGED <<kind, c2s, eofC, eofS, cst, sst, sbuf, cseen, sseen, cws, sws, swrote>>
RespIs == IF Scripted THEN kind.resp ELSE IF kind.act = "accept" THEN "good" ELSE "status"
ClientParses == /\ cst = "asked" /\ Has(cbuf, "S")
                /\ cst' = (CASE RespIs = "good" -> "connected" [] RespIs = "redirect" -> "redirect" [] RespIs = "status" -> "status" [] OTHER -> "refused")
                /\ cbuf' = After(cbuf, "S")
                /\ UNCHANGED <<kind, c2s, s2c, eofC, eofS, sst, sbuf, cseen, sseen, cws, sws, swrote>>
ClientSeesEnd == /\ cst = "asked" /\ ~Has(cbuf, "S") /\ s2c = <<>> /\ eofS /\ cst' = "ended"
                 /\ UNCHANGED <<kind, c2s, s2c, eofC, eofS, sst, cbuf, sbuf, cseen, sseen, cws, sws, swrote>>
ClientTakes == /\ cst = "connected"
               /\ \/ cbuf # <<>> /\ cseen' = Append(cseen, Head(cbuf)) /\ cbuf' = Tail(cbuf) /\ UNCHANGED s2c
                  \/ cbuf = <<>> /\ s2c # <<>> /\ cseen' = Append(cseen, Head(s2c)) /\ s2c' = Tail(s2c) /\ UNCHANGED cbuf
               /\ UNCHANGED <<kind, c2s, eofC, eofS, cst, sst, sbuf, sseen, cws, sws, swrote>>
Server == ServerReads \/ ServerParses \/ ServerSeesEnd \/ ServerActs \/ ServerWs \/ ServerTakes
Client == ClientAsks \/ ClientReads \/ ClientParses \/ ClientSeesEnd \/ ClientTakes \/ ClientWs
Next == Server \/ Client \/ ClientEnds \/ ServerEnds \/ PeerAnswers \/ PeerEnds
Spec == Init /\ [][Next]_vars /\ WF_vars(Server) /\ WF_vars(Client) /\ WF_vars(PeerAnswers \/ PeerEnds) /\ WF_vars(ServerEnds)

(* ------------------------------------ properties --------------------------------- *)
OnlyWs(s, w) == \A i \in 1..Len(s) : s[i] = <<w, i>>
Tagged(x) == x[2] # 0
WsOf(s) == SelectSeq(s, Tagged)
(* P21: the WebSocket bytes behind the head: handed over, kept, under way, each once and in order *)
ServerConserves == sst \in {"offered", "connected", "rejected", "dropped", "invalid"} =>
                     /\ OnlyWs(sseen \o sbuf \o WsOf(c2s) \o cws, "c")
                     /\ Len(sseen \o sbuf \o WsOf(c2s) \o cws) = WsUnits
ClientConserves == cst \in {"connected", "redirect", "status", "refused"} =>
                     /\ OnlyWs(cseen \o cbuf \o WsOf(s2c) \o sws, "d")
                     /\ Len(cseen \o cbuf \o WsOf(s2c) \o sws) = WsUnits
(* P15, P22: an answer only to a valid request, on the application's word; nothing else is ever written *)
NothingUnasked == sst \in {"reading", "offered", "invalid", "dropped", "ended"} => swrote = <<>>
ConnectedServer == sst = "connected" => kind.req = "valid" /\ kind.act = "accept"
OneAnswer == sst = "rejected" => swrote = HeadOf("s", "S")
(* P17 *)
ConnectedClient == cst = "connected" => RespIs = "good" /\ (~Scripted => sst = "connected")
Reported == /\ (cst = "redirect" => RespIs = "redirect")
            /\ (cst = "status" => RespIs = "status")
(* P28: however it was cut, the outcome is the one its bytes determine *)
ServerOutcome == /\ (sst = "offered" => kind.req = "valid")
                 /\ (sst = "invalid" => kind.req # "valid")
                 /\ (sst = "ended" => eofC)
ClientOutcome == cst = "ended" => eofS
Decides == <>(sst # "reading" \/ cst = "new")
ClientDecides == <>(cst \in {"connected", "refused", "redirect", "status", "ended"})
=============================================================================
