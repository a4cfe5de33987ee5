---------------------------- MODULE TargetTrace -----------------------------
(* One value encoded into every target, and read back from every source.     *)
EXTENDS Sink, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]
Target(o) == /\ o.r = (IF Len(R.full) <= o.cap THEN "ok" ELSE "err")
             /\ (o.r = "ok" => o.v = R.full)
             /\ ~o.over
             /\ ("start" \in DOMAIN o => o.start)
TargetsOK == \A i \in 1..Len(R.out) : Target(R.out[i])
\* packed options are only read back at the end of the input, and this record has some before its end
SourcesOK == (R.fmt # "packed" \/ R.ty # "rec") => \A i \in 1..Len(R.read) : R.read[i].r = "ok" /\ R.read[i].same /\ R.read[i].left = 3
=============================================================================
