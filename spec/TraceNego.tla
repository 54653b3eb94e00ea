------------------------------ MODULE TraceNego -----------------------------
(* Whole negotiations between two real endpoints: what the client's builder put in is     *)
(* what the server's upgrade shows, what the server selected is what the client shows.    *)
EXTENDS Builder, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
T == Traces[tid]
E == T.ev[l]
Done == l > Len(T.ev)
Shows(hs) == [i \in 1..Len(hs) |-> [n |-> Lower(hs[i].n), v |-> Trim(Clean(hs[i].v))]]
ServerDiff ==
  LET b == BAfter(T.ops)
      u == [T.u EXCEPT !.port = T.port]
      fs == Shows(E.headers)
  IN IF E.method # sGET \/ ~E.v11 THEN "request-line"
     ELSE IF E.uri # Target(u) \/ E.uritext # Target(u) THEN "uri"
     ELSE IF E.protos # b.protos THEN "protocols"
     ELSE IF E.exts # b.exts THEN "extensions"
     ELSE IF E.origin # (IF b.origin = <<>> THEN <<>> ELSE b.origin[1]) THEN "origin"
     ELSE IF ~E.hasversion \/ E.version # b.ver THEN "version"
     ELSE IF Len(E.key) # 16 \/ (b.key # <<>> /\ B64(E.key) # b.key) THEN "key"
     ELSE IF ~OneIs(fs, sHost, HostText(u)) THEN "host"
     ELSE IF HasAuth(u) /\ ~OneIs(fs, sAuthorization, AuthText(u)) THEN "authorization"
     ELSE IF \E n \in NamesOf(b.custom) : ValuesOf(fs, n) # ValuesOf(CustomFields(b.custom), n) THEN "custom-headers"
     ELSE IF NamesOf(fs) \ (Required(b, u) \cup b.touched) # {} THEN "extra-header"
     ELSE ""
AnswerDiff(fs) == IF ~KeepsCustom(fs, T.customf) THEN "custom-headers"
                  ELSE IF ~KeepsProtocols(fs, T.protos) THEN "protocols"
                  ELSE IF ~KeepsExtensions(fs, T.exts) THEN "extensions"
                  ELSE ""
ClientDiff(server) ==
  LET fs == Shows(E.headers)
  IN IF E.protos # T.protos THEN "client-protocols"
     ELSE IF E.exts # T.exts THEN "client-extensions"
     ELSE IF AnswerDiff(fs) # "" THEN "client-" \o AnswerDiff(fs)
     ELSE IF ExposedDiff(fs, [i \in 1..Len(server.answer) |-> [n |-> server.answer[i].n, v |-> Clean(server.answer[i].v)]]) # "" THEN "headers-differ"
     ELSE IF ValuesOf(fs, sSAccept) # <<AcceptOf(B64(server.key))>> THEN "accept"
     ELSE ""
Bad(why) == PrintT(<<"REJECT", T.id, l, why>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED tid
Step == CASE E.k = "server" /\ l = 1 -> IF ServerDiff # "" THEN Bad("server:" \o ServerDiff)
                                        ELSE IF AnswerDiff(Shows(E.answer)) # "" THEN Bad("server-exposed:" \o AnswerDiff(Shows(E.answer)))
                                        ELSE l' = 2 /\ UNCHANGED tid
          [] E.k = "client" /\ l = 2 -> \E d \in {ClientDiff(T.ev[1])} : IF d # "" THEN Bad(d) ELSE l' = 3 /\ UNCHANGED tid
          [] OTHER -> Bad(E.k)
Finish == IF l # 3 THEN Bad("incomplete") ELSE PrintT(<<"ACCEPT", T.id>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED tid
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == \/ ~Done /\ Step
             \/ Done /\ l = Len(T.ev) + 1 /\ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
