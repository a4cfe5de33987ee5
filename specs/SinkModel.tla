----------------------------- MODULE SinkModel ------------------------------
(* Design: a bounded sink never holds more than its capacity, what it holds  *)
(* is the accepted chunks in order, and a chunk refused changes nothing -    *)
(* for every sequence of chunks.  Also enumerates them as scripts.           *)
EXTENDS Sink, Json, TLC
CONSTANTS Caps, Chunks, MaxOps, Gen
VARIABLES cap, have, log, hist
vars == <<cap, have, log, hist>>
Chunk(n) == [i \in 1..n |-> (7 * Len(hist) + i) % 256]
Init == cap \in Caps /\ have = <<>> /\ log = <<>> /\ hist = <<>>
Put(n) == LET w == Write(have, Chunk(n), cap) IN
          /\ have' = w.have
          /\ log' = Append(log, [r |-> w.r, d |-> Chunk(n)])
          /\ hist' = Append(hist, n)
          /\ UNCHANGED cap
Next == Len(hist) < MaxOps /\ \E n \in Chunks : Put(n)
Spec == Init /\ [][Next]_vars
RECURSIVE Cat(_, _)
Cat(l, i) == IF i = 0 THEN <<>> ELSE Cat(l, i - 1) \o (IF l[i].r = "ok" THEN l[i].d ELSE <<>>)
Exact == have = Cat(log, Len(log))
Bounded == Len(have) <= cap
(* Only what does not fit is refused. *)
Honest == \A i \in 1..Len(log) : (log[i].r = "err") = (Len(Cat(log, i - 1)) + Len(log[i].d) > cap)
Emit == ~Gen \/ Len(hist) < MaxOps \/ PrintT("@@" \o ToJson([cap |-> cap, h |-> hist]))
=============================================================================
