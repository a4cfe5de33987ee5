----------------------------- MODULE CollTrace ------------------------------
(* Recorded behaviours of the real collections, and of decoding elements     *)
(* which count their drops.                                                  *)
EXTENDS Coll, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Lead(n) == IF n < 64 THEN n ELSE 64
Init == r \in 1..Lead(Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]
Cfg == [alloc |-> R.alloc, el |-> R.el]

(* What is shown are the items there are, with their contents. *)
Shown(m, live) == /\ {live[i][1] : i \in 1..Len(live)} = {i \in 0..7 : m[i].k # "none"}
                  /\ \A i \in 1..Len(live) : live[i][2] = m[live[i][1]].x
Good(t, e) == t.ok /\ Shown(t.m, e.live) /\ e.back = t.back /\ Perm(e.gone, t.gone)
RECURSIVE Run(_, _)
Run(m, i) == i > Len(R.steps) \/ LET e == R.steps[i]
                                     t == Step(Cfg, m, e)
                                 IN Good(t, e) /\ Run(t.m, i + 1)
OpsOK == R.kind = "ops" => Run([i \in 0..7 |-> None], 1)

(* Decoding: every element made is dropped exactly once, and those of the value only along with it. *)
Made(id) == id \div 256
DecOK == R.kind = "dec" =>
  LET gone == R.early \o R.late
  IN /\ R.r \in {"ok", "err"}
     /\ Len(gone) = R.made
     /\ {Made(gone[i]) : i \in 1..Len(gone)} = 1..R.made
     /\ Perm(R.held, R.late)
=============================================================================
