---------------------------- MODULE TraceConnect ----------------------------
(* Checks real connection attempts, seen from the sockets they reached, against Connect.   *)
EXTENDS Connect, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, round, dials
vars == <<tid, l, round, dials>>
T == Traces[tid]
E == T.ev[l]
Done == l > Len(T.ev)
Bad(why) == PrintT(<<"REJECT", T.id, l, why>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<tid, round, dials>>
U == [T.u EXCEPT !.port = T.port]
Tls == InTls(T.api, U)
Reachable == T.hosted /\ T.peer # "absent"
Trusted == T.peer \in DOMAIN Certs /\ Trusts(T.con, Certs[T.peer])
Works == Reachable /\ (IF Tls THEN Trusted ELSE T.peer = "plain")
Asked == IF Tls THEN Trusted ELSE TRUE
DialStep ==
  IF ~T.hosted THEN Bad("connected-without-host")
  ELSE IF T.peer = "absent" THEN Bad("connected-elsewhere")
  ELSE IF dials # 0 THEN Bad("connected-twice")
  ELSE IF E.port # PortFor(T.api, U) THEN Bad("wrong-port")
  ELSE IF ~(\E i \in 1..Len(T.addrs) : T.addrs[i] = E.addr) THEN Bad("wrong-address")
  ELSE IF Tls /\ E.first # "tls" THEN Bad("not-tls")
  ELSE IF Tls /\ E.leak THEN Bad("request-in-the-clear")
  ELSE IF ~Tls /\ E.first # "get" THEN Bad("not-plain")
  ELSE IF E.req # Asked THEN Bad(IF Asked THEN "no-request" ELSE "request-to-untrusted-peer")
  ELSE IF Tls /\ E.done # Trusted THEN Bad("tls-verdict")
  ELSE l' = l + 1 /\ dials' = 1 /\ UNCHANGED <<tid, round>>
ResultStep ==
  IF Reachable /\ dials = 0 THEN Bad("not-connected-to")
  ELSE IF Works /\ E.r # "ok" THEN Bad("failed:" \o E.e)
  ELSE IF ~Works /\ E.r = "ok" THEN Bad("connected-wrongly")
  ELSE IF Works /\ ~E.ws THEN Bad("connection-does-not-work")
  ELSE l' = l + 1 /\ dials' = 0 /\ round' = round + 1 /\ UNCHANGED tid
Step == CASE E.k = "dial" -> DialStep
          [] E.k = "result" -> ResultStep
          [] OTHER -> Bad(E.k)
Finish == IF round # T.times \/ dials # 0 THEN Bad("incomplete")
          ELSE PrintT(<<"ACCEPT", T.id>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<tid, round, dials>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ round = 0 /\ dials = 0
TraceNext == \/ ~Done /\ Step
             \/ Done /\ l = Len(T.ev) + 1 /\ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
