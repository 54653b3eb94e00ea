----------------------------- MODULE TraceHeader ----------------------------
(* Checks the WebSocket header values on their own: what is formatted reads back as the   *)
(* same value, and lines are read the way RFC 6455 and RFC 7230 say.                       *)
EXTENDS Handshake, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
T == Traces[tid]
Fields(name, lines) == [i \in 1..Len(lines) |-> [n |-> name, v |-> Trim(lines[i])]]
Value(lines) ==
  CASE T.kind = "proto" -> [ok |-> TRUE, v |-> ListOf(Fields(sSProtocol, lines), sSProtocol)]
    [] T.kind = "ext" -> [ok |-> TRUE, v |-> ExtsOf(Fields(sSExtensions, lines))]
    [] OTHER ->
       IF Len(lines) # 1 \/ Trim(lines[1]) = <<>> THEN [ok |-> FALSE]
       ELSE IF T.kind = "key" THEN LET d == B64Dec(Trim(lines[1])) IN IF d.ok /\ Len(d.bytes) = 16 THEN [ok |-> TRUE, v |-> d.bytes, canon |-> d.canon] ELSE [ok |-> FALSE]
       ELSE IF T.kind = "accept" THEN LET d == B64Dec(Trim(lines[1])) IN IF d.ok /\ Len(d.bytes) = 20 THEN [ok |-> TRUE, v |-> B64(d.bytes), canon |-> d.canon] ELSE [ok |-> FALSE]
       ELSE [ok |-> TRUE, v |-> Trim(lines[1])]
Text(v) ==   \* what formatting the value must give, for the kinds with one form
  CASE T.kind = "key" -> B64(v) [] T.kind = "accept" -> v [] T.kind = "proto" -> Join(v, sCommaSp) [] OTHER -> <<>>
Why ==
  IF Len(T.ev) # 2 \/ T.ev[1].k # "text" THEN (IF Len(T.ev) = 0 THEN "empty-trace" ELSE T.ev[Len(T.ev)].k)
  ELSE LET lines == T.ev[1].lines
           x == T.ev[2]
           w == Value(lines)
       IN IF T.build /\ x.k # "value" THEN "own-text-refused"
          ELSE IF T.build /\ T.kind # "accept" /\ x.v # T.v THEN "round-trip"
          ELSE IF T.build /\ T.kind = "accept" /\ lines # <<AcceptOf(B64(T.v))>> THEN "accept-value"
          ELSE IF T.build /\ T.kind \in {"key", "proto"} /\ lines # <<Text(T.v)>> THEN "text"
          ELSE IF w.ok /\ x.k # "value" THEN (IF T.kind \in {"key", "accept"} /\ ~w.canon THEN "" ELSE "refused")
          ELSE IF ~w.ok /\ x.k = "value" THEN "accepted"
          ELSE IF ~w.ok THEN ""
          ELSE IF x.v # w.v THEN "value"
          ELSE IF T.kind \in {"key", "accept", "proto"} /\ x.again # Text(w.v) THEN "text-again"
          ELSE ""
Init == tid \in 1..Len(Traces) /\ l = 1
Next == l = 1 /\ l' = 2 /\ UNCHANGED tid /\ \E w \in {Why} : PrintT(IF w = "" THEN <<"ACCEPT", T.id>> ELSE <<"REJECT", T.id, Len(T.ev), w>>)
TraceSpec == Init /\ [][Next]_<<tid, l>>
=============================================================================
