----------------------------- MODULE ValueTrace -----------------------------
(* Dynamic values recorded from the real code: value v of type w captured    *)
(* (cap), read back as the types rs (dec), its descriptive bytes read         *)
(* dynamically (dd), the capture written (vb) and read dynamically (vv).      *)
EXTENDS Codec, IOUtils

VARIABLE r
Recs == ndJsonDeserialize(IOEnv.TRACE)
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64

C == Codec("desc", "Binary", "d")
Term(x) == Model("Binary", TypeOf(x.w), x.v, FALSE)
Captured(x) == Capture(C, Term(x))
Ok(o, v) == o.r = "ok" /\ o.v = v

NoPanic == LET x == Recs[r] IN \A o \in {x.cap.r, x.dd.r, x.vb.r, x.vv.r} \cup {x.dec[i].r : i \in 1..Len(x.dec)} : o # "panic"
Capturing == LET x == Recs[r] IN Ok(x.cap, Captured(x))
RECURSIVE HasFloat(_)
HasFloat(y) ==
  CASE y[1] = "int" -> y[2] = "f"
    [] y[1] = "some" -> HasFloat(y[2])
    [] y[1] = "seq" -> \E i \in 1..Len(y[2]) : HasFloat(y[2][i])
    [] y[1] = "map" -> \E i \in 1..Len(y[2]) : HasFloat(y[2][i][1]) \/ HasFloat(y[2][i][2])
    [] y[1] = "var" -> HasFloat(y[2]) \/ HasFloat(y[3])
    [] OTHER -> FALSE
\* reading a dynamic value as a type (what floats are as integers is left open)
Reading == LET x == Recs[r] IN \A i \in 1..Len(x.rs) : (x.rs[i] = x.w \/ ~HasFloat(Captured(x))) =>
             LET e == DecV(C, TypeOf(x.rs[i]), Captured(x)) IN IF Len(e) = 0 THEN x.dec[i].r = "err" ELSE Ok(x.dec[i], e[1])
RoundTrip == LET x == Recs[r] IN x.rt => \A i \in 1..Len(x.rs) : x.rs[i] = x.w => Ok(x.dec[i], Normal("Binary", TypeOf(x.w), x.v))
\* the descriptive bytes of a value are the same structure
Described == LET x == Recs[r] IN Ok(x.dd, Sized(Captured(x)))
Written == LET x == Recs[r] IN Ok(x.vb, Enc(C, Replay(Captured(x))))
Reread == LET x == Recs[r] IN Ok(x.vv, Sized(Captured(x)))
\* values are equal when they are the same structure (floats have an order of their own)
Equality == LET x == Recs[r] IN ("w2" \in DOMAIN x /\ x.w2 # "") =>
              LET y == Capture(C, Model("Binary", TypeOf(x.w2), x.v2, FALSE))
                  same == Captured(x) = y
              IN HasFloat(y) \/ HasFloat(Captured(x)) \/ x.eq = <<same, same, TRUE, ~same>>
=============================================================================
