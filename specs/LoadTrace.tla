----------------------------- MODULE LoadTrace -----------------------------
(* P19.  A load of any reference from any bytes succeeds exactly when the   *)
(* range is inside the buffer, aligned, and holds a valid bit pattern, and  *)
(* then denotes exactly those bytes; otherwise it is an error.              *)
EXTENDS ZcTypes, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]
B == R.b
Ty == T[R.t]
Is(o, ok, x) == IF ok THEN o.r = "ok" /\ o.v = x ELSE o.r = "err"
InRange(off, neg, n) == ~neg /\ off + n <= Len(B)
Aligned(off, al) == (R.skew + off) % al = 0      \* the buffer starts at a multiple of 64 plus skew
Bits == At(B, R.off, Ty.sz)
Plain == InRange(R.off, R.neg, Ty.sz) /\ Valid(Ty, Bits)
Sized == Plain /\ Aligned(R.off, Ty.al)
Value == Dec(Ty, Bits)
SizedOK == /\ Is(R.load, Sized, Value) /\ Is(R.at, Sized, Value)
           /\ Is(R.mut, Sized, Value) /\ Is(R.atmut, Sized, Value)
UnalignedOK == Is(R.un, Plain, Value)
FromOK == R.from.r = "na" \/ Is(R.from, Sized, Value)
Elem(i) == At(B, R.off + (i - 1) * Ty.sz, Ty.sz)
SliceFits == ~R.neg /\ R.off <= Len(B) /\ (Ty.sz = 0 \/ (~R.nneg /\ R.n <= (Len(B) - R.off) \div Ty.sz))
Slice == SliceFits /\ Aligned(R.off, Ty.al) /\ \A i \in 1..R.n : Valid(Ty, Elem(i))
SliceOK == LET x == [i \in 1..R.n |-> Dec(Ty, Elem(i))] IN Is(R.sl, Slice, x) /\ Is(R.slmut, Slice, x)
StrFits == InRange(R.off, R.neg, 0) /\ ~R.nneg /\ R.n <= Len(B) - R.off
StrOK == LET s == At(B, R.off, R.n)
             ok == StrFits /\ Utf8Valid(s)
         IN Is(R.str, ok, s) /\ (R.strbe.r = "na" \/ Is(R.strbe, ok, s))
\* exchanging two u32-sized cells
SwapFits == InRange(R.off, R.neg, 4) /\ InRange(R.j, FALSE, 4)
Apart == R.off + 4 <= R.j \/ R.j + 4 <= R.off
SwapOK == IF SwapFits THEN
            R.swap.r = "ok" /\ Len(R.swap.v) = Len(B) /\
            \A p \in 1..Len(B) :
              LET q == p - 1
                  a == q >= R.off /\ q < R.off + 4
                  b == q >= R.j /\ q < R.j + 4
              IN (a /\ b) \/ (a /\ ~Apart) \/ (b /\ ~Apart) \/
                 R.swap.v[p] = IF a THEN B[p + R.j - R.off] ELSE IF b THEN B[p + R.off - R.j] ELSE B[p]
          ELSE (~R.neg /\ R.off = R.j) \/ R.swap.r = "err"
=============================================================================
