----------------------------- MODULE PortTrace -----------------------------
(* P20.  Recorded bytes and conversions of numbers and references agree     *)
(* with Portable on a little-endian machine.                                *)
EXTENDS Portable, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]
Is(o, x) == o.r = "ok" /\ o.v = x
NumOK == R.k = "num" =>
  LET t == PT[R.t]
      be == EncIn(t, R.v, TRUE)
      le == EncIn(t, R.v, FALSE)
  IN /\ Is(R.be, be) /\ Is(R.le, le) /\ Is(R.raw, le)
     /\ Is(R.ber, R.v) /\ Is(R.ler, R.v)
     /\ Is(R.fbe, be) /\ Is(R.fle, le)
W == CASE R.size = "u8" -> 1 [] R.size = "u16" -> 2 [] R.size = "u32" -> 4 [] OTHER -> 8
Big == R.order = "be"
X == R.res
Pair(off, len, lw, big) == [off |-> Cut(off, 8), len |-> Cut(len, 8), b |-> RefBytes(off, len, W, lw, big)]
\* o is the reference <<off, len>> if both fit, and refused otherwise
Made(o, off, len, lw, big) == IF InWidth(off, W) /\ InWidth(len, lw) THEN Is(o, Pair(off, len, lw, big)) ELSE o.r # "ok"
NoLen == Zeros(8)
RefOK == R.k = "ref" =>
  /\ IF InWidth(R.off, W) THEN Is(X.sized, [off |-> R.off, len |-> NoLen, b |-> RefBytes(R.off, NoLen, W, 0, Big)]) ELSE X.sized.r # "ok"
  /\ Made(X.slice, R.off, R.len, W, Big) /\ Made(X.str, R.off, R.len, W, Big) /\ Made(X["try"], R.off, R.len, W, Big)
  /\ X["try"].r # "panic"
PackedOK == R.k = "ref" => Made(X.packed, R.off, R.len, 1, Big) /\ X.packed.r # "panic"
Whole == R.k = "ref" /\ InWidth(R.off, W) /\ InWidth(R.len, W)
EndianOK == Whole => /\ Is(X.tobe, Pair(R.off, R.len, W, TRUE)) /\ Is(X.tole, Pair(R.off, R.len, W, FALSE)) /\ Is(X.tone, Pair(R.off, R.len, W, FALSE))
                     /\ Is(X.empty, R.len = NoLen)
\* coercing between element types keeps the bytes designated; a length that does not fit is refused
CoerceOK == Whole =>
  LET by == Mul(R.len, 4)
      hw == Mul(R.len, 2)
  IN /\ Made(X.tco8, R.off, by, W, Big) /\ Made(X.co16, R.off, hw, W, Big) /\ Made(X.costr, R.off, by, W, Big)
     /\ (InWidth(by, W) => Is(X.co8, Pair(R.off, by, W, Big)))
     /\ X.tco8.r # "panic" /\ X.co16.r # "panic"
FromSized == R.k = "ref" /\ InWidth(R.off, W) =>
  /\ Is(X.arr, Pair(R.off, LE(5, 8), W, Big)) /\ Is(X.one8, Pair(R.off, LE(4, 8), W, Big))
  /\ Made(X.tarr300, R.off, LE(300, 8), W, Big) /\ Made(X.arr300, R.off, LE(300, 8), W, Big)
  /\ Made(X.tarr100, R.off, LE(400, 8), W, Big) /\ Made(X.arr100, R.off, LE(200, 8), W, Big)
  /\ X.tarr300.r # "panic" /\ X.tarr100.r # "panic"
  /\ Is(X.zero, [off |-> NoLen, len |-> NoLen, b |-> Zeros(W)])
=============================================================================
