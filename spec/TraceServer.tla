----------------------------- MODULE TraceServer ----------------------------
(* Checks what real servers said about real connections against Server.  One line per     *)
(* run: mode, blocking, and the driver's log: what each client did, what the server said. *)
EXTENDS Server, Handshake, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, cs, buf, anon
vars == <<tid, l, cs, buf, anon>>
T == Traces[tid]
E == T.ev[l]
Done == l > Len(T.ev)
Bad(why) == PrintT(<<"REJECT", T.id, l, why>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<tid, cs, buf, anon>>
Go(c2) == cs' = c2 /\ l' = l + 1 /\ UNCHANGED <<tid, anon>>
IsSt(s, b) == LET h == HeadEnd(b)
           IN IF b = <<>> THEN s = "none" ELSE IF h = 0 THEN s = "part"
              ELSE \E v \in {RequestVerdict(RequestOf(HeadLines(Take(b, h))))} :
                    s = (IF v = "offer" THEN "good" ELSE IF v = "either" THEN "unclear" ELSE "bad")
SendStep == \E b \in {buf[E.c] \o E.raw} : \E s \in {"none", "part", "good", "bad", "unclear"} :
              /\ IsSt(s, b)
              /\ buf' = [buf EXCEPT ![E.c] = b]
              /\ Go([cs EXCEPT ![E.c].st = s])
(* errors need not tell which connection they are about *)
Errable == Cardinality({i \in 1..Len(cs) : cs[i].said = "no" /\ MayBeErr(cs[i])})
First == IF \E i \in 1..Len(cs) : cs[i].said = "no" THEN CHOOSE i \in 1..Len(cs) : cs[i].said = "no" /\ \A j \in 1..(i - 1) : cs[j].said # "no" ELSE 0
ItemStep ==
  LET named == IF E.c # 0 THEN E.c ELSE E.u
      i == IF T.blocking THEN First ELSE named
  IN IF E.c # 0 /\ E.u # 0 /\ E.c # E.u THEN Bad("mixed-connections")
     ELSE IF T.blocking /\ i = 0 THEN Bad("result-without-connection")
     ELSE IF T.blocking /\ named # 0 /\ named # i THEN Bad("out-of-order")
     ELSE IF i = 0 THEN IF E.r = "ok" THEN Bad("unknown-connection")
                        ELSE IF anon >= Errable THEN Bad("error-without-cause")
                        ELSE anon' = anon + 1 /\ l' = l + 1 /\ UNCHANGED <<tid, cs, buf>>
     ELSE IF ~May(cs[i], E.r) THEN Bad("wrong-" \o E.r)
     ELSE Go([cs EXCEPT ![i] = Say(cs[i], E.r)]) /\ UNCHANGED buf
SettleStep ==
  \E O \in {Owed(cs, T.blocking)} :
     IF T.blocking THEN (IF O # {} THEN Bad("withheld") ELSE Go(cs) /\ UNCHANGED buf)
     ELSE IF \E i \in O : ~MayBeErr(cs[i]) THEN Bad("withheld-connection")
     ELSE IF Cardinality(O) > anon THEN Bad("withheld-error")
     ELSE IF Cardinality(O) < anon THEN Bad("error-without-cause")
     ELSE cs' = [i \in 1..Len(cs) |-> IF i \in O THEN Say(cs[i], "err") ELSE cs[i]] /\ anon' = 0 /\ l' = l + 1 /\ UNCHANGED <<tid, buf>>
(* the application accepted what it was given; the client must see that, and nobody else anything *)
RespStep == IF cs[E.c].said = "ok" THEN (IF E.code # 101 THEN Bad("no-answer") ELSE Go(cs) /\ UNCHANGED buf)
            ELSE IF E.code # 0 THEN Bad("unasked-answer") ELSE Go(cs) /\ UNCHANGED buf
Step == CASE E.k = "conn" -> /\ buf' = buf \o [i \in 1..E.n |-> <<>>]
                             /\ Go(cs \o [i \in 1..E.n |-> NewConn])
          [] E.k = "send" -> SendStep
          [] E.k = "tls" -> Go([cs EXCEPT ![E.c].st = IF @ = "none" THEN "part" ELSE @]) /\ UNCHANGED buf
          [] E.k = "garbage" -> Go([cs EXCEPT ![E.c].st = "bad"]) /\ UNCHANGED buf
          [] E.k = "how" -> Go([cs EXCEPT ![E.c].how = E.how]) /\ UNCHANGED buf
          [] E.k = "closeall" -> Go([i \in 1..Len(cs) |-> IF cs[i].how = "open" THEN [cs[i] EXCEPT !.how = "fin"] ELSE cs[i]]) /\ UNCHANGED buf
          [] E.k = "item" -> ItemStep
          [] E.k = "idle" -> IF First # 0 THEN Bad("connection-overlooked") ELSE Go(cs) /\ UNCHANGED buf
          [] E.k = "settle" -> SettleStep
          [] E.k = "resp" -> RespStep
          [] OTHER -> Bad(E.k)
Finish == IF T.ev = <<>> THEN Bad("empty-trace")
          ELSE PrintT(<<"ACCEPT", T.id>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<tid, cs, buf, anon>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ cs = <<>> /\ buf = <<>> /\ anon = 0
TraceNext == \/ ~Done /\ Step
             \/ Done /\ l = Len(T.ev) + 1 /\ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
