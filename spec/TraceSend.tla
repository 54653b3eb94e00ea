----------------------------- MODULE TraceSend ------------------------------
(* Checks traces of send calls on the real code against Sender.  Every event has  *)
(* n, the number of bytes the transport had accepted in all when the call          *)
(* returned; T.wire has all bytes accepted, split into frames.  Between two events  *)
(* the specification begins, writes and finishes frames until n is accounted for.   *)
EXTENDS Sender, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, ph,    \* trace, event, 0 = before the call's frame is handed over, 1 = after
          acc, verdict
vars == <<svars, tid, l, ph, acc, verdict>>

T == Traces[tid]
E == T.ev[l]
M == T.mask
Done == l > Len(T.ev)

PayloadOf(a) == IF a.o = "df" THEN a.p ELSE MsgPayload(a)
FrameOf(a) ==
  LET p == PayloadOf(a)
  IN [fin |-> IF a.o = "df" THEN a.fin ELSE TRUE, rsv |-> IF a.o = "df" THEN a.rsv ELSE 0, op |-> a.t, len |-> BLen(p), p |-> p]

Bad(why) == /\ verdict' = why
            /\ PrintT(<<"REJECT", T.id, l, why>>)
            /\ l' = Len(T.ev) + 2
            /\ UNCHANGED <<svars, tid, ph, acc>>
Next == l' = l + 1 /\ ph' = 0 /\ UNCHANGED <<tid, verdict>>

(* ------------------------------ the wire --------------------------------------- *)
W == T.wire[Len(keys) + 1]                 \* the frame that begins next
Whole(w, f) == Len(w.h) = HeaderSize(f, M) /\ BLen(w.p) = f.len
KeyIn(w, f) == IF ~M THEN <<>> ELSE IF Len(w.h) = HeaderSize(f, TRUE) THEN Sub(w.h, Len(w.h) - 3, Len(w.h)) ELSE <<0, 0, 0, 0>>
HeaderDiff(w, f) ==
  LET k == KeyIn(w, f)
      h == EncodeHeader(f.fin, f.rsv, f.op, f.len, k)
  IN IF Len(w.h) = HeaderSize(f, M) /\ w.h = h THEN ""
     ELSE IF Len(w.h) < HeaderSize(f, M) /\ w.p = <<>>
             /\ Len(T.wire) = Len(keys) + 1     \* cut off: all there is must agree
             /\ \A i \in 1..Len(w.h) : i <= HeaderSize(f, M) - (IF M THEN 4 ELSE 0) => w.h[i] = h[i]
     THEN ""
     ELSE IF Len(w.h) >= 1 /\ w.h[1] # h[1] THEN "first-byte"
     ELSE IF Len(w.h) >= 2 /\ (w.h[2] >= 128) # M THEN "mask-bit"
     ELSE "length-encoding"
Masked(w, f) == w.z = <<>> \/ ~Whole(w, f) \/ w.z = w.h \o (IF M THEN MaskSeq(KeyIn(w, f), ToBytes(f.p)) ELSE ToBytes(f.p))
FrameDiff(w, f) ==
  LET d == HeaderDiff(w, f)
  IN IF d # "" THEN d
     ELSE IF Whole(w, f) THEN (IF w.p # f.p THEN "payload" ELSE IF ~Masked(w, f) THEN "masking" ELSE "")
     ELSE IF Len(w.h) = HeaderSize(f, M) /\ ~(BLen(w.p) <= f.len /\ IsPrefixBlob(w.p, f.p)) THEN "payload"
     ELSE ""

Drain ==
  \/ /\ cur = NoFrame /\ queue # <<>> /\ Len(keys) >= Len(T.wire)
     /\ Bad(IF \E i \in l..Len(T.ev) : T.ev[i].k \in {"panic", "hang", "crash"} THEN "crashed" ELSE "frames-missing")
  \/ /\ cur = NoFrame /\ queue # <<>> /\ Len(keys) < Len(T.wire)
     /\ \E d \in {FrameDiff(W, Head(queue))} :
          IF d # "" THEN Bad(d)
          ELSE Begin(M, KeyIn(W, Head(queue))) /\ UNCHANGED <<tid, l, ph, acc, verdict>>
  \/ /\ cur # NoFrame /\ got < SizeOf(cur, M)
     /\ \E n \in {Min2(E.n - acc, SizeOf(cur, M) - got)} : Accepted(n, M) /\ acc' = acc + n
     /\ UNCHANGED <<tid, l, ph, verdict>>
Complete == cur # NoFrame /\ got = SizeOf(cur, M)

(* ------------------------------ one event -------------------------------------- *)
Crashed == E.k \in {"panic", "hang", "crash", "badfamily"}
Stopped == E.st > 0 \/ E.failed

Offer ==
  \E f \in {FrameOf(E.a)} :
     IF ~Encodable(f)
     THEN IF E.r # "err" THEN (IF E.r = "full" THEN ph' = 1 /\ UNCHANGED <<svars, tid, l, acc, verdict>> ELSE Bad("accepted-oversized-control"))
          ELSE IF E.k = "send" /\ E.n # acc THEN Bad("wrote-a-refused-frame")
          ELSE Refuse(f) /\ ph' = 1 /\ UNCHANGED <<tid, l, acc, verdict>>
     ELSE IF E.zm # SizeOf(f, TRUE) \/ E.zu # SizeOf(f, FALSE) THEN Bad("predicted-size")
     ELSE IF E.k = "start" /\ E.r # "ok" THEN ph' = 1 /\ UNCHANGED <<svars, tid, l, acc, verdict>>
     ELSE Enqueue(f) /\ ph' = 1 /\ UNCHANGED <<tid, l, acc, verdict>>

Conclude ==
  CASE E.k = "send" ->
         IF E.r = "ok" THEN (IF Backlog THEN Bad("success-before-whole-frame") ELSE UNCHANGED svars /\ Next /\ UNCHANGED acc)
         ELSE IF ~Encodable(FrameOf(E.a)) THEN UNCHANGED svars /\ Next /\ UNCHANGED acc
         ELSE IF ~Stopped THEN Bad("failed-without-cause")
         ELSE UNCHANGED svars /\ Next /\ UNCHANGED acc
    [] E.k = "start" ->
         IF E.r = "ok" THEN UNCHANGED svars /\ Next /\ UNCHANGED acc
         ELSE IF E.r = "full" THEN (IF Backlog /\ E.st > 0 THEN UNCHANGED svars /\ Next /\ UNCHANGED acc ELSE Bad("full-without-cause"))
         ELSE IF ~Encodable(FrameOf(E.a)) \/ Stopped THEN UNCHANGED svars /\ Next /\ UNCHANGED acc
         ELSE Bad("failed-without-cause")
    [] E.k = "flush" ->
         IF E.r = "ready" THEN (IF Backlog THEN Bad("flushed-too-early") ELSE UNCHANGED svars /\ Next /\ UNCHANGED acc)
         ELSE IF ~Stopped THEN Bad("failed-without-cause")
         ELSE UNCHANGED svars /\ Next /\ UNCHANGED acc
    [] E.k = "wire" ->
         IF Len(T.wire) # Len(keys) THEN Bad("extra-frames")
         ELSE IF T.fresh /\ M /\ ~FreshKeys(keys) THEN Bad("predictable-keys")
         ELSE IF l > 1 /\ T.ev[l - 1].k = "flush" /\ T.ev[l - 1].r = "wait" THEN Bad("never-flushed")
         ELSE UNCHANGED svars /\ Next /\ UNCHANGED acc
    [] OTHER -> Bad("unknown-event")

Step ==
  IF ph = 0 /\ E.k \in {"send", "start"} THEN Offer
  ELSE IF Complete THEN Finish(M) /\ UNCHANGED <<tid, l, ph, acc, verdict>>
  ELSE IF acc < E.n THEN (IF Idle THEN Bad("extra-bytes") ELSE Drain)
  ELSE IF acc > E.n THEN Bad("bytes-withdrawn")
  ELSE Conclude

Accept == /\ Done /\ l = Len(T.ev) + 1
          /\ IF T.ev = <<>> THEN Bad("empty-trace")
             ELSE PrintT(<<"ACCEPT", T.id>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED <<svars, tid, ph, acc, verdict>>

TraceInit == SInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ ph = 0 /\ acc = 0 /\ verdict = ""
TraceNext == \/ ~Done /\ (IF Crashed THEN Bad(E.k) ELSE Step)
             \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_vars
(* what the transport accepted is exactly the frames finished plus part of one *)
BytesAccounted == acc = FoldLeft(LAMBDA s, f : s + SizeOf(f, M), 0, sent) + got
KeysMatchRole == \A i \in 1..Len(keys) : (keys[i] # <<>>) = M
=============================================================================
