----------------------------- MODULE TraceRecv ------------------------------
(* Checks traces of receive calls on the real code against Receiver.            *)
(* Input (IOEnv.TRACE, ndjson): one line per trace with the endpoint's           *)
(* configuration, the incoming stream - as raw bytes, or as items (raw header    *)
(* bytes + unmasked payload blob + repetition) - and the calls with their        *)
(* results.  Each call says how many bytes had been available when it returned   *)
(* (a), how many it had taken (c), how often the transport interrupted it (st).  *)
EXTENDS Receiver, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l,      \* trace, next event
          off,         \* stream offset of the next frame
          item, rep,   \* item and repetition it belongs to (structural streams)
          verdict      \* "" while the trace is explained

vars == <<rs, st, out, tid, l, off, item, rep, verdict>>

T == Traces[tid]
E == T.ev[l]
Raw == T.raw # <<>>
Cfg == [server |-> T.server, maxf |-> T.maxf, maxm |-> T.maxm]
Total == T.tot

(* ---------------------------- the next frame --------------------------------- *)
HdrBytes == IF Raw THEN Sub(T.raw, off + 1, off + 14)
            ELSE IF item > Len(T.items) THEN <<>> ELSE T.items[item].h

NextFrame ==
  LET h == ParseHeader(HdrBytes)
      hl == h.hl
      blob == IF h.have < 3 THEN <<>>
              ELSE IF Raw
                   THEN LET body == Sub(T.raw, off + hl + 1, Min2(Total, IF h.len = Inf THEN Total ELSE off + hl + h.len))
                        IN ToBlob(IF h.masked THEN MaskSeq(h.key, body) ELSE body)
                   ELSE T.items[item].p
      end == IF h.have < 3 \/ h.len = Inf \/ h.len > Total - off - hl THEN Inf ELSE off + hl + h.len
  IN h @@ [blob |-> blob,
           o1 |-> IF h.have >= 1 THEN off + 1 ELSE Inf,
           o2 |-> IF h.have >= 2 THEN off + 2 ELSE Inf,
           o3 |-> IF h.have >= 3 THEN off + hl ELSE Inf,
           o4 |-> end]

At(F, phase) == CASE phase = 0 -> 0 [] phase = 1 -> F.o1 [] phase = 2 -> F.o2 [] phase = 3 -> F.o3
                  [] phase = 4 -> F.o4 [] OTHER -> Inf

Lvl == E.op

Done == l > Len(T.ev)

Advance(F) ==
  /\ off' = F.o4
  /\ IF Raw THEN UNCHANGED <<item, rep>>
     ELSE IF rep < T.items[item].rep THEN rep' = rep + 1 /\ UNCHANGED item
     ELSE item' = item + 1 /\ rep' = 1

Bad(why) == /\ verdict' = why
            /\ PrintT(<<"REJECT", T.id, l, why>>)
            /\ l' = Len(T.ev) + 2
            /\ UNCHANGED <<rs, st, out, tid, off, item, rep>>

Next_l == l' = l + 1 /\ UNCHANGED <<tid, verdict>>
Stay   == UNCHANGED <<off, item, rep>>

(* --------------------------- one trace step ----------------------------------- *)
Crashed == E.k \in {"panic", "hang", "crash", "badfamily"}

(* memory in one call: what arrived so far (buffers grow geometrically, a frame may be copied), the
   bookkeeping of the fragments of the message,
   plus the frame limit when one is in force *)
MemBound == 2097152 + 8 * Min2(E.a, 100000000) + 192 * rs.n
MemOK(F) == \/ E.peak <= MemBound
            \/ T.maxf < Inf /\ E.peak <= MemBound + Min2(T.maxf, 1000000000)
RefusalMemOK == E.peak <= 262144 + 8 * Min2(E.a, 100000000)

(* the rest of a repeated plain fragment is absorbed at once *)
RunLeft(F) == IF Raw \/ F.o4 = Inf THEN 0
              ELSE Min2(T.items[item].rep - rep + 1, (E.a - off) \div (F.o4 - off))
RunStep(F) ==
  /\ Lvl = "m" /\ RunLeft(F) >= 2 /\ PlainRun(Cfg, rs, F)
  /\ \E k \in {Min2(RunLeft(F), MaxRun(Cfg, rs, F))} :
       /\ k >= 2
       /\ AbsorbRun(Cfg, F, k)
       /\ off' = off + k * (F.o4 - off)
       /\ IF rep + k <= T.items[item].rep THEN rep' = rep + k /\ UNCHANGED item ELSE item' = item + 1 /\ rep' = 1
  /\ UNCHANGED <<tid, l, verdict>>
CanRun(F) == Lvl = "m" /\ RunLeft(F) >= 2 /\ PlainRun(Cfg, rs, F) /\ MaxRun(Cfg, rs, F) >= 2

(* a data fragment that is complete and legal is absorbed by the call in progress *)
AbsorbStep(F) ==
  /\ ~CanRun(F) /\ Lvl = "m" /\ F.o4 <= E.a
  /\ Absorb(Cfg, F)
  /\ Advance(F)
  /\ UNCHANGED <<tid, l, verdict>>

Blocked(F) == F.o4 > E.a
Must(F, D) == At(F, MustBy(D)) <= E.a
May(F, D) == rs.may \/ \E d \in D : At(F, d[2]) <= E.a

SameOut(k) == CASE k = "msg" -> /\ out'.t = E.t /\ out'.code = E.code /\ out'.p = E.p
                [] k = "frame" -> /\ out'.t = E.t /\ out'.fin = E.fin /\ out'.rsv = E.rsv /\ out'.p = E.p
DiffOf(F) ==
  IF E.k = "frame"
  THEN (IF E.fin # F.fin \/ E.rsv # F.rsv \/ E.t # F.op THEN "frame-header-changed" ELSE "payload-changed")
  ELSE LET m == Whole(rs, F)
       IN IF m.t # E.t THEN "type-changed" ELSE IF m.t = OpClose THEN "close-data-changed" ELSE "payload-changed"

JoinWhys(D) == LET W == Whys(D) IN IF W = {} THEN "none" ELSE CHOOSE w \in W : \A v \in W : TRUE

CallStep(F) ==
  \E D0 \in {Complaints(Cfg, rs, F, Lvl)} :
  \E D \in {D0 \cup (IF Lvl = "m" THEN Slack(Cfg, rs, F) ELSE {})} :
     /\ ~(Lvl = "m" /\ ~Blocked(F) /\ KindOf(D0, F, Lvl) = "absorb")
     /\ CASE E.k \in {"msg", "frame"} ->
               IF (E.k = "msg") # (Lvl = "m") THEN Bad("wrong-kind-of-result")
               ELSE IF Must(F, D0) THEN Bad("accepted:" \o JoinWhys({d \in D0 : At(F, d[3]) <= E.a}))
               ELSE IF Blocked(F) THEN Bad("invented")
               ELSE IF (IF E.k = "msg" THEN [k |-> "msg"] @@ Whole(rs, F)
                        ELSE [k |-> "frame", fin |-> F.fin, rsv |-> F.rsv, t |-> F.op, p |-> F.blob])
                       # (IF E.k = "msg" THEN [k |-> "msg", t |-> E.t, code |-> E.code, p |-> E.p]
                          ELSE [k |-> "frame", fin |-> E.fin, rsv |-> E.rsv, t |-> E.t, p |-> E.p])
                    THEN Bad(DiffOf(F))
               ELSE IF E.c >= 0 /\ E.c # F.o4 THEN Bad("overread")
               ELSE IF ~MemOK(F) THEN Bad("memory")
               ELSE /\ (IF E.k = "msg" THEN Deliver(Cfg, F) ELSE Surface(Cfg, F))
                    /\ SameOut(E.k)
                    /\ Advance(F) /\ Next_l
          [] E.k = "err" ->
               IF May(F, D)
               THEN IF "frame-limit" \in Whys(D) /\ ~RefusalMemOK THEN Bad("buffered-before-refusing")
                    ELSE IF ~MemOK(F) THEN Bad("memory")
                    ELSE Fail /\ Stay /\ Next_l
               ELSE IF E.eof /\ Blocked(F)
                    THEN IF ~MemOK(F) THEN Bad("memory") ELSE Ended /\ Stay /\ Next_l
               ELSE Bad("refused")
          [] E.k \in {"none", "wb"} ->
               IF Must(F, D0) THEN Bad("undetected:" \o JoinWhys({d \in D0 : At(F, d[3]) <= E.a}))
               ELSE IF ~Blocked(F) THEN Bad("withheld")
               ELSE IF E.k = "wb" /\ E.st = 0 THEN Bad("spurious-block")
               ELSE IF ~MemOK(F) THEN Bad("memory")
               ELSE UNCHANGED <<rs, st, out>> /\ Stay /\ Next_l
          [] E.k \in {"eof", "end"} ->
               (* "eof" is the error value NoDataAvailable, which also reports a close payload of one byte *)
               IF E.k = "eof" /\ ~Blocked(F) /\ May(F, D) THEN Fail /\ Stay /\ Next_l
               ELSE IF Must(F, D0) THEN Bad("undetected:" \o JoinWhys({d \in D0 : At(F, d[3]) <= E.a}))
               ELSE IF ~Blocked(F) THEN Bad("withheld")
               ELSE IF ~E.eof THEN (IF May(F, D) THEN Fail /\ Stay /\ Next_l ELSE Bad("early-end"))
               ELSE IF ~MemOK(F) THEN Bad("memory")
               ELSE Ended /\ Stay /\ Next_l
          [] OTHER -> Bad("unknown-result")

(* after the end nothing more may come out; a caller may go on after a refusal, but must not be  *)
(* given what was refused, which in such scenarios is made of a byte that nothing else has       *)
Marked(p) == \E i \in 1..Len(p) : p[i][1] = T.mark
AfterStep ==
  IF E.k \in {"err", "eof", "end"} THEN UNCHANGED <<rs, st, out>> /\ Stay /\ Next_l
     ELSE IF T.mark < 0 \/ st # "failed" THEN Bad("delivered-after-end")
     ELSE IF E.k \in {"msg", "frame"} /\ Marked(E.p) THEN Bad("refused-frame-delivered")
     ELSE UNCHANGED <<rs, st, out>> /\ Stay /\ Next_l

Accept == /\ Done /\ l = Len(T.ev) + 1
          /\ IF T.ev = <<>> THEN Bad("empty-trace")
             ELSE /\ PrintT(<<"ACCEPT", T.id>>)
                  /\ l' = Len(T.ev) + 2
                  /\ UNCHANGED <<rs, st, out, tid, off, item, rep, verdict>>

TraceInit == /\ RInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ off = 0 /\ item = 1 /\ rep = 1 /\ verdict = ""
TraceNext == \/ ~Done /\ Crashed /\ Bad(E.k)
             \/ ~Done /\ ~Crashed /\ st # "open" /\ AfterStep
             \/ ~Done /\ ~Crashed /\ st = "open" /\ \E F \in {NextFrame} : RunStep(F) \/ AbsorbStep(F) \/ CallStep(F)
             \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
