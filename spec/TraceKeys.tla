----------------------------- MODULE TraceKeys ------------------------------
(* Sequences of keys that must be fresh: masking keys of first, second ... frames *)
(* of many connections, and keys drawn by the generator itself.                    *)
EXTENDS Sender, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Init == SInit /\ tid \in 1..Len(Traces) /\ l = 1
Next == /\ l = 1 /\ l' = 2
        /\ keys' = Traces[tid].keys
        /\ IF Len(Traces[tid].keys) >= Traces[tid].min /\ FreshKeys(Traces[tid].keys) /\ NotLinear(Traces[tid].keys)
           THEN PrintT(<<"ACCEPT", Traces[tid].id>>)
           ELSE PrintT(<<"REJECT", Traces[tid].id, 1, "predictable-keys">>)
        /\ UNCHANGED <<queue, cur, got, sent, broken, tid>>
TraceSpec == Init /\ [][Next]_<<svars, tid, l>>
=============================================================================
