----------------------------- MODULE SinkTrace ------------------------------
(* Recorded behaviours of the real sinks.                                    *)
EXTENDS Sink, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]

Growable == R.kind \in {"vec", "mutvec", "bufsys"}
Cap == IF Growable THEN 1000000 ELSE R.cap

(* What a sink may answer to a chunk d and hold afterwards. *)
Allowed(have, e) ==
  CASE R.kind = "bufslice" ->
         \* The allocator needs room of its own; what surely fits has to be accepted.
         /\ e.r \in {"ok", "err"}
         /\ e.r = "ok" => Fits(have, e.d, R.cap)
         /\ 2 * (Len(have) + Len(e.d)) + 64 <= R.cap => e.r = "ok"
    [] OTHER -> e.r = Write(have, e.d, Cap).r
Held(have, e) == IF e.r = "ok" THEN have \o e.d ELSE have

RECURSIVE Run(_, _)
Run(have, i) ==
  IF i > Len(R.ops) THEN [ok |-> TRUE, have |-> have]
  ELSE LET e == R.ops[i]
           h == Held(have, e)
       IN IF Allowed(have, e) /\ (e.known => e.have = h) THEN Run(h, i + 1) ELSE [ok |-> FALSE, have |-> have]

(* An I/O writer refuses part of a chunk only: what it was handed up to there stays with it. *)
RECURSIVE Drip(_, _)
Drip(have, i) ==
  IF i > Len(R.ops) THEN [ok |-> TRUE, have |-> have]
  ELSE LET e == R.ops[i]
           all == have \o e.d
       IN IF e.r # Write(have, e.d, R.cap).r THEN [ok |-> FALSE, have |-> have]
          ELSE Drip(IF e.r = "ok" THEN all ELSE SubSeq(all, 1, R.cap), i + 1)

SinkOK == LET x == IF R.kind = "wrap" THEN Drip(<<>>, 1) ELSE Run(R.pre, 1)
          IN /\ x.ok
             /\ R.have = x.have
             /\ ~R.over
             /\ (R.kind = "slice" => R.fin = R.cap - Len(x.have))
             /\ (R.kind # "slice" => R.fin = -1)

(* The byte buffer by itself. *)
Own(have, e) == CASE e.op \in {"push", "ext"} -> Write(have, e.d, R.cap)
                  [] e.op = "clear" -> [r |-> "ok", have |-> <<>>]
                  [] e.op = "set" -> [r |-> "ok", have |-> [i \in 1..Len(have) |-> IF i <= Len(e.d) THEN e.d[i] ELSE have[i]]]
                  [] e.op = "cap" -> IF e.d[1] <= R.cap THEN [r |-> "ok", have |-> <<>>] ELSE [r |-> "panic", have |-> have]
RECURSIVE OwnRun(_, _)
OwnRun(have, i) ==
  IF i > Len(R.own) THEN [ok |-> TRUE, have |-> have]
  ELSE LET e == R.own[i]
           w == Own(have, e)
       IN IF e.r = w.r /\ e.have = w.have /\ e.len = Len(w.have) /\ e.rem = R.cap - Len(w.have) /\ e.empty = (w.have = <<>>)
          THEN OwnRun(w.have, i + 1) ELSE [ok |-> FALSE, have |-> have]
FixedOK == R.kind = "fixed" => LET x == OwnRun(R.have, 1) IN
              x.ok /\ R.whole.some = (Len(x.have) = R.cap) /\ (R.whole.some => R.whole.v = x.have)
=============================================================================
