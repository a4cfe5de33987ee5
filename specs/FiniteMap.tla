----------------------------- MODULE FiniteMap -----------------------------
(* P21, abstract: a stored map answers like the finite map of its entries.  *)
EXTENDS Bytes
\* entries: sequence of <<key, value>> with distinct keys
At(ents, k) == {i \in 1..Len(ents) : ents[i][1] = k}
Has(ents, k) == At(ents, k) # {}
Val(ents, k) == LET s == At(ents, k) IN IF s = {} THEN <<>> ELSE <<ents[MinOf(s)][2]>>
=============================================================================
