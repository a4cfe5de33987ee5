----------------------------- MODULE MapTrace ------------------------------
EXTENDS FiniteMap, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]
Built == R.res.r = "ok"
Ok(o, x) == o.r = "ok" /\ o.v = x
LookupOK == Built => \A i \in 1..Len(R.q) :
   LET o == R.res.v.q[i]
       v == Val(R.ents, R.q[i])
       h == v # <<>>
   IN Ok(o.bg, v) /\ Ok(o.ug, v) /\ Ok(o.bc, h) /\ Ok(o.uc, h) /\ Ok(o.sb, h) /\ Ok(o.su, h)
LenOK == (Built /\ R.kind = "swiss") => R.res.v.lens = <<Len(R.ents), Len(R.ents), R.ents = <<>>, R.ents = <<>>>>
=============================================================================
