----------------------------- MODULE TrieTrace -----------------------------
(* Recorded behaviours of the real trie, judged by the abstract multimap.   *)
EXTENDS Trie, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]
Built == R.res.r = "ok"
Ok(o, x) == o.r = "ok" /\ o.v = x
GetOK == Built => \A i \in 1..Len(R.q) : Ok(R.res.v.q[i].get, Get(R.ins, R.q[i]))
PrefixOK == Built => LET sorted == Sorted(R.ins) IN \A i \in 1..Len(R.q) :
   LET u == UnderSorted(sorted, R.q[i])
       o == R.res.v.q[i]
   IN Ok(o.it, u) /\ Ok(o.itf, u) /\ Ok(o.vi, ValuesOf(u)) /\ Ok(o.vif, ValuesOf(u))
IterOK == Built => LET u == Under(R.ins, <<>>)
                       o == R.res.v
                   IN Ok(o.iter, u) /\ Ok(o.iterf, u) /\ Ok(o.values, ValuesOf(u)) /\ Ok(o.valuesf, ValuesOf(u))
=============================================================================
