----------------------------- MODULE SerdeTrace ------------------------------
(* The serde bridge, recorded from the real code: value v of type w written   *)
(* (enc), followed by suf and read as each of rs (dec), the same bytes read   *)
(* by native types (tdec), what the native type writes (tenc) read through    *)
(* the bridge (back), the proper beginnings which were accepted, and altered  *)
(* input.                                                                    *)
EXTENDS Serde, IOUtils

VARIABLE r
Recs == ndJsonDeserialize(IOEnv.TRACE)
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
X == Recs[r]

C == Codec(X.f, X.m, X.o)
Term == SModel(X.m, SType(X.w), X.v)
Is(o, v) == o.r = "ok" /\ o.v[1] = v /\ (X.f = "json" \/ o.v[2] = Len(X.suf))
Text(e, s) == Len(e) >= Len(s) /\ SubSeq(e, 1, Len(s)) = s

NoPanic == /\ X.enc.r # "panic" /\ X.back.r # "panic" /\ X.panics = <<>>
           /\ \A i \in 1..Len(X.rs) : X.dec[i].r # "panic" /\ X.tdec[i].r # "panic"
           /\ \A i \in 1..Len(X.alt) : X.alt[i][1].r # "panic" /\ X.alt[i][2].r # "panic"

\* what is written is the value's term, or an error where there is no writing it
Written ==
  IF Refused(SType(X.w), X.v, 255) THEN X.enc.r = "err" /\ X.enc.text = "not written"
  ELSE LET can == ~Unspoken(SType(X.w), X.v) /\ IF X.f = "json" THEN Writable(Term) ELSE ~IsBad(Enc(C, Term))
           may == SType(X.w).k \in {"lazy", "lazymap"}
       IN IF ~can THEN X.enc.r = "err"
          ELSE /\ X.enc.r = "ok" \/ (may /\ X.enc.r = "err")
               /\ X.enc.r = "ok" =>
                    IF X.f = "json" THEN LET p == PVal(X.enc.v, 1) IN p[1] = "ok" /\ SkipWs(X.enc.v, p[3]) = Len(X.enc.v) + 1 /\ Denotes(Term, p[2])
                    ELSE X.enc.v = Enc(C, Term)

\* it is read back
RoundTrip ==
  (X.rt /\ X.enc.r = "ok") =>
     \A i \in 1..Len(X.rs) : X.rs[i] = X.w =>
        IF Refused(SType(X.w), X.v, 254) THEN X.dec[i].r = "err" /\ Text(X.dec[i].text, "not read")
        ELSE Is(X.dec[i], SNormal(X.m, SType(X.w), X.v))

\* the native type of the same structure writes the same, and each reads what the other wrote
Twin ==
  (X.twin /\ X.enc.r = "ok") =>
     /\ X.tenc.r \in {"na", "ok"}
     /\ X.tenc.r = "ok" => /\ X.tenc.v = X.enc.v
                           /\ X.rt => Is(X.back, X.v) /\ \A i \in 1..Len(X.rs) : X.rs[i] = X.w => Is(X.tdec[i], X.v)
\* where one cannot write, neither can the other
TwinErr == (X.twin /\ X.enc.r = "err") => X.tenc.r \in {"na", "err"}

\* input is never read as one thing by the bridge and as another by the native type
Same(a, b) == (a.r = "ok" /\ b.r = "ok") => a.v = b.v
Agree == X.twin => /\ \A i \in 1..Len(X.rs) : Same(X.dec[i], X.tdec[i])
                   /\ \A i \in 1..Len(X.alt) : Same(X.alt[i][1], X.alt[i][2])

\* no value ends before it was written whole
Cuts == X.cut => X.accepted = <<>>
=============================================================================
