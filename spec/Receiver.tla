------------------------------ MODULE Receiver ------------------------------
(* The receiving side of one endpoint.  Critical steps, as in the code:         *)
(*   Absorb   a non-final data fragment is taken into the message under assembly *)
(*   Deliver  a message (or control message) is handed to the caller             *)
(*   Surface  frame-level API: a frame is handed to the caller as it is          *)
(*   Fail     the stream is refused; nothing is delivered afterwards             *)
(*   Ended    the stream is over                                                 *)
(* A frame record f has fin, rsv, op, masked, mknown, len, nonmin, have, blob.   *)
(* cfg has server (expects masked frames), maxf, maxm, msgcount.                 *)
EXTENDS Frame, FiniteSets

VARIABLES rs,      \* message under assembly: [n, t, body, u8, taint, may]
          st,      \* "open" | "failed" | "ended"
          out      \* what the last step handed to the caller

EmptyMsg == [n |-> 0, t |-> 0, body |-> <<>>, blen |-> 0, u8 |-> U8Start, taint |-> FALSE, may |-> FALSE]
NoOut == [k |-> "none"]

Overhead == 64                       \* accounting slack per fragment named in the property
MaxFragments == 1048576              \* MCRun replaces it by a small number

IsOpen(r) == r.n > 0
StartsText(r, f) == (~IsOpen(r) /\ f.op = OpText) \/ (IsOpen(r) /\ f.op = OpCont /\ r.t = OpText)
U8After(r, f) == U8Blob(IF IsOpen(r) THEN r.u8 ELSE U8Start, f.blob)
SatAdd(a, b) == IF b >= Inf - a THEN Inf ELSE a + b
BLenAfter(r, f) == SatAdd(r.blen, f.len)

(* ---------------------------------------------------------------------------- *)
(* Complaints about a frame in a given state: <<why, from, by>>.  from/by are     *)
(* the points of the frame's reception between which the refusal must come:       *)
(*   1 first byte, 2 second byte, 3 header complete, 4 frame complete,            *)
(*   9 not with this frame (it stays pending as a taint of the message).          *)
(* ---------------------------------------------------------------------------- *)
Never == 9
C(cond, why, from, by) == IF cond THEN {<<why, from, by>>} ELSE {}
AtEnd(f) == IF f.fin THEN 4 ELSE Never

HeaderComplaints(cfg, f) ==
       C(IsCtl(f.op) /\ ~f.fin, "ctl-fragmented", 1, 3)
  \cup C(IsCtl(f.op) /\ f.len > 125, "ctl-too-long", 2, 3)
  \cup C(f.nonmin, "length-not-minimal", 2, 3)
  \cup C(f.len > cfg.maxf, "frame-limit", 2, 3)
  \cup C(f.mknown /\ f.masked # cfg.server, "mask", 2, 4)

SequenceComplaints(cfg, r, f) ==
       C(f.op = OpCont /\ ~IsOpen(r), "cont-without-start", 1, 4)
  \cup C(f.op \in 1..7 /\ IsOpen(r), "data-inside-message", 1, 4)
  \cup C(f.op \in 11..15, "reserved-opcode", 1, 4)
  \cup C(f.op \in 3..7 /\ ~IsOpen(r), "reserved-opcode", 1, AtEnd(f))
  \cup C(f.rsv # 0, "reserved-bits", 1, AtEnd(f))
  \cup C(~IsCtl(f.op) /\ r.taint, "tainted", 0, AtEnd(f))

ContentComplaints(cfg, r, f) ==
       C(StartsText(r, f) /\ f.fin /\ U8After(r, f) # 0, "utf8", 3, 4)
  \cup C(StartsText(r, f) /\ ~f.fin /\ U8After(r, f) = U8Bad, "utf8", 3, Never)
  \cup C(f.op = OpClose /\ f.len = 1, "close-one-byte", 2, 4)
  \cup C(f.op = OpClose /\ f.len >= 2 /\ f.len <= 125 /\ ~ValidUtf8Blob(BDrop(f.blob, 2)), "close-utf8", 3, 4)

LimitComplaints(cfg, r, f) ==
       C(~f.fin /\ ~IsCtl(f.op) /\ BLenAfter(r, f) > cfg.maxm, "message-limit", 2, 4)
(* complaints that are allowed, never demanded: the accounting slack, very many fragments *)
Slack(cfg, r, f) ==
       C(~f.fin /\ ~IsCtl(f.op) /\ r.n + 1 >= MaxFragments, "fragment-count", 1, Never) \cup
       C(~f.fin /\ ~IsCtl(f.op) /\ SatAdd(BLenAfter(r, f), Overhead * (r.n + 1)) >= cfg.maxm, "slack", 2, Never)

Complaints(cfg, r, f, lvl) ==
  IF lvl = "d" THEN HeaderComplaints(cfg, f)
  ELSE HeaderComplaints(cfg, f) \cup SequenceComplaints(cfg, r, f)
       \cup ContentComplaints(cfg, r, f) \cup LimitComplaints(cfg, r, f)

MinOf(S, dflt) == IF S = {} THEN dflt ELSE CHOOSE x \in S : \A y \in S : x <= y
MustBy(D)  == MinOf({d[3] : d \in D}, Never)
MayFrom(D) == MinOf({d[2] : d \in D}, Never)
Whys(D) == {d[1] : d \in D}

KindOf(D, f, lvl) ==
  IF MustBy(D) <= 4 THEN "fail"
  ELSE IF lvl = "d" THEN "surface"
  ELSE IF IsCtl(f.op) \/ f.fin THEN "deliver"
  ELSE "absorb"
Kind(cfg, r, f, lvl) == KindOf(Complaints(cfg, r, f, lvl), f, lvl)

(* the message under assembly after absorbing a fragment *)
Push(cfg, r, f) ==
  LET D == Complaints(cfg, r, f, "m")
      E == D \cup Slack(cfg, r, f)
  IN [n |-> r.n + 1,
      t |-> IF IsOpen(r) THEN r.t ELSE f.op,
      body |-> BCat(r.body, f.blob),
      blen |-> BLenAfter(r, f),
      u8 |-> IF StartsText(r, f) THEN U8After(r, f) ELSE U8Start,
      taint |-> (r.taint \/ (MustBy(D) = Never /\ D # {})),
      may |-> (r.may \/ E # {})]

(* the message handed over when f completes one *)
Whole(r, f) == IF IsCtl(f.op) THEN MsgOf(f.op, f.blob)
               ELSE MsgOf(IF IsOpen(r) THEN r.t ELSE f.op, BCat(r.body, f.blob))

RInit == rs = EmptyMsg /\ st = "open" /\ out = NoOut

Absorb(cfg, f) ==
  /\ st = "open" /\ Kind(cfg, rs, f, "m") = "absorb"
  /\ rs' = Push(cfg, rs, f) /\ out' = NoOut /\ UNCHANGED st

(* Many fragments at once: k copies of a plain continuation fragment, when none of them  *)
(* can be complained about.  It is k times Absorb (checked by MCRun); traces with very   *)
(* many fragments are checked with it.                                                   *)
PlainRun(cfg, r, f) ==
  /\ IsOpen(r) /\ ~r.taint /\ f.op = OpCont /\ ~f.fin /\ f.rsv = 0
  /\ HeaderComplaints(cfg, f) = {}
  /\ f.blob = <<>> \/ (Len(f.blob) = 1 /\ (r.t = OpText => r.u8 = U8Start /\ f.blob[1][1] < 128))
MaxRun(cfg, r, f) ==
  Min2(MaxFragments - 1 - r.n, IF f.len = 0 THEN MaxFragments ELSE IF r.blen > cfg.maxm THEN 0 ELSE (cfg.maxm - r.blen) \div f.len)
PushRun(cfg, r, f, k) ==
  LET total == k * f.len
  IN [n |-> r.n + k,
      t |-> r.t,
      body |-> BCat(r.body, IF total = 0 THEN <<>> ELSE << <<f.blob[1][1], total>> >>),
      blen |-> r.blen + total,
      u8 |-> r.u8,
      taint |-> FALSE,
      may |-> (r.may \/ SatAdd(r.blen + total, Overhead * (r.n + k)) >= cfg.maxm)]
AbsorbRun(cfg, f, k) ==
  /\ st = "open" /\ PlainRun(cfg, rs, f) /\ k <= MaxRun(cfg, rs, f)
  /\ rs' = PushRun(cfg, rs, f, k) /\ out' = NoOut /\ UNCHANGED st

Deliver(cfg, f) ==
  /\ st = "open" /\ Kind(cfg, rs, f, "m") = "deliver"
  /\ out' = [k |-> "msg"] @@ Whole(rs, f)
  /\ rs' = IF IsCtl(f.op) THEN rs ELSE EmptyMsg
  /\ UNCHANGED st

Surface(cfg, f) ==
  /\ st = "open" /\ Kind(cfg, rs, f, "d") = "surface"
  /\ out' = [k |-> "frame", fin |-> f.fin, rsv |-> f.rsv, t |-> f.op, p |-> f.blob]
  /\ UNCHANGED <<rs, st>>

Fail == st = "open" /\ st' = "failed" /\ out' = [k |-> "err"] /\ UNCHANGED rs
Ended == st = "open" /\ st' = "ended" /\ out' = [k |-> "end"] /\ UNCHANGED rs

(* --- what every reachable state satisfies --- *)
RTypeOK ==
  /\ st \in {"open", "failed", "ended"}
  /\ rs.n >= 0 /\ rs.t \in 0..15 /\ IsBlob(rs.body) /\ BLen(rs.body) = rs.blen
AssemblyOK ==
  /\ rs.n = 0 => rs.body = <<>> /\ ~rs.taint
  /\ rs.n > 0 => rs.t \in 1..7
  /\ rs.n > 0 /\ rs.t = OpText => rs.u8 = U8Blob(U8Start, rs.body)
  /\ (rs.n > 0 /\ rs.t \notin {OpText, OpBin}) => rs.taint
DeliveredOK ==
  out.k = "msg" =>
    /\ out.t \in {OpText, OpBin, OpClose, OpPing, OpPong}
    /\ out.t = OpText => ValidUtf8Blob(out.p)
    /\ out.t = OpClose => ValidUtf8Blob(out.p) /\ (out.code = 0 - 1 => out.p = <<>>)
    /\ IsCtl(out.t) => BLen(MsgPayload(out)) <= 125
=============================================================================
