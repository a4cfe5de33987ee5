----------------------------- MODULE JsonTrace ------------------------------
(* JSON recorded from the real code: value v of type w written (enc), or the  *)
(* text b, read as the types rs from every kind of source:                    *)
(* dec[i] = [slice, str, mslice, mstr], each [r, v, left, valid].             *)
EXTENDS JsonText, IOUtils

VARIABLE r
Recs == ndJsonDeserialize(IOEnv.TRACE)
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64

C(x) == Codec("json", x.m, "d")
Term(x) == Model(x.m, TypeOf(x.w), x.v, FALSE)
Text(x) == IF x.w = "" THEN x.b ELSE IF x.enc.r = "ok" THEN x.enc.v ELSE <<>>
Outs(x, i) == <<x.dec[i].slice, x.dec[i].str, x.dec[i].mslice, x.dec[i].mstr>>

Written ==
  LET x == Recs[r]
  IN x.w = "" \/
     (x.enc.r # "panic" /\
      LET t == Term(x)
      IN IF ~Writable(t) THEN x.enc.r = "err"
         ELSE x.enc.r = "ok" /\
              (Finite(t) => LET p == PVal(x.enc.v, 1) IN p[1] = "ok" /\ SkipWs(x.enc.v, p[3]) = Len(x.enc.v) + 1 /\ Denotes(t, p[2])))
RoundTrip ==
  LET x == Recs[r]
  IN (x.rt /\ x.w # "" /\ x.enc.r = "ok") =>
       \A i \in 1..Len(x.rs) : x.rs[i] = x.w => x.dec[i].slice.r = "ok" /\ x.dec[i].slice.v = Normal(x.m, TypeOf(x.w), x.v)
Agree(e, o, any) ==
  CASE e[1] = "open" -> TRUE
    [] e[1] = "err" -> o.r = "err"
    [] e[1] = "maybe" -> o.r = "err" \/ (o.r = "ok" /\ (IF any THEN AnySame(e[2], o.v) ELSE o.v = e[2]))
    [] OTHER -> o.r = "ok" /\ (IF any THEN AnySame(e[2], o.v) ELSE o.v = e[2])
Meaning ==
  LET x == Recs[r]
      b == Text(x)
      p == PVal(b, 1)
  IN (x.w # "" /\ x.enc.r # "ok") \/ (x.w # "" /\ ~Finite(Term(x))) \/
     \A i \in 1..Len(x.rs) :
       LET any == x.rs[i] = "$any"
           e == IF p[1] \in {"str", "eof"} THEN Err ELSE IF p[1] = "open" THEN Open
                ELSE IF any THEN JAny(p[2]) ELSE JDec(C(x), x.full, TypeOf(x.rs[i]), p[2])
           os == Outs(x, i)
       IN /\ Agree(e, x.dec[i].slice, any)
          \* a cursor is left directly after the value
          /\ (p[1] = "ok" /\ x.dec[i].mslice.r = "ok") => x.dec[i].mslice.left = Len(b) + 1 - p[3]
\* sources agree, nothing panics, and a string cursor stays a string
Sources ==
  LET x == Recs[r]
  IN \A i \in 1..Len(x.dec) :
       LET os == Outs(x, i)
       IN /\ \A k \in 1..4 : os[k].r \in {"ok", "err", "na"}
          /\ \A k \in 2..4 : os[k].r = "na" \/ (os[k].r = os[1].r /\ (os[k].r = "ok" => os[k].v = os[1].v))
          /\ os[4].r = "na" \/ os[4].valid
          /\ (os[4].r = "ok") => os[4].left = os[3].left
=============================================================================
