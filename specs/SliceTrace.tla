----------------------------- MODULE SliceTrace -----------------------------
(* P23.  References to slices denote sequences.                             *)
EXTENDS ZcTypes, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]
V == R.v
N == Len(V)
Is(o, x) == o.r = "ok" /\ o.v = x
SeqOK(o) ==
  /\ o.len = N /\ o.empty = (N = 0) /\ Is(o.all, V)
  /\ Is(o.get, IF R.i < N THEN <<V[R.i + 1]>> ELSE <<>>)
  /\ IF R.at <= N THEN Is(o.split, <<Take(V, R.at), Drop(V, R.at), R.at, N - R.at>>) ELSE o.split.r = "panic"
ViewOK == R.k = "seq" => SeqOK(R.res.ref) /\ SeqOK(R.res.refbe)
PackedOK == R.k = "seq" => SeqOK(R.res.pk) /\ SeqOK(R.res.pkbe)
\* elements taken alternately from the front and the back
Alt == [k \in 1..N |-> IF k % 2 = 1 THEN V[(k + 1) \div 2] ELSE V[N + 1 - (k \div 2)]]
IterOK == R.k = "seq" => Is(R.res.iter, V) /\ Is(R.res.rev, Rev(V)) /\ Is(R.res.both, Alt)
\* binary search in an ascending sequence
Found(o) ==
  o.r = "ok" /\
  LET i == o.v[2] IN
  IF o.v[1] = 1 THEN i < N /\ V[i + 1] = R.x
  ELSE i <= N /\ (i > 0 => V[i] < R.x) /\ (i < N => V[i + 1] > R.x)
SearchOK == R.k = "bs" => Found(R.r1) /\ Found(R.r2) /\ Found(R.r3)
SwapOK == R.k = "swap" =>
  IF R.i >= N \/ R.j >= N THEN Is(R.res, <<"none">>)
  ELSE Is(R.res, [k \in 1..N |-> IF k = R.i + 1 THEN V[R.j + 1] ELSE IF k = R.j + 1 THEN V[R.i + 1] ELSE V[k]])
\* exchange of two places of sz bytes in n bytes; an offset is <<0, o>>, or <<1, k>> for k below the largest
RawBytes == [k \in 1..R.n |-> k - 1]
Inside(o) == o[1] = 0 /\ o[2] + R.sz <= R.n
RawSwapOK == R.k = "rawswap" =>
  /\ (R.res.r = "ok") = ((Inside(R.a) /\ Inside(R.b)) \/ R.a = R.b)
  /\ R.res.r \in {"ok", "err"}
  /\ LET a == R.a[2]
         b == R.b[2]
     IN R.after = (IF R.res.r = "err" \/ a = b THEN RawBytes
                   ELSE [k \in 1..R.n |-> IF k > a /\ k <= a + R.sz THEN RawBytes[k - a + b]
                                          ELSE IF k > b /\ k <= b + R.sz THEN RawBytes[k - b + a] ELSE RawBytes[k]])
=============================================================================
