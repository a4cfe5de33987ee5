----------------------------- MODULE SerdeValue ------------------------------
(* Dynamic values of bridged types, recorded from the real code: value v of   *)
(* type w captured (cap) and read back (dec), captured by its native type     *)
(* (tcap) and read by the bridge (back), and the bridge's capture read by the *)
(* native type (tdec).                                                       *)
EXTENDS Serde, IOUtils

VARIABLE r
Recs == ndJsonDeserialize(IOEnv.TRACE)
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
X == Recs[r]
Refusing == Refused(SType(X.w), X.v, 255) \/ Unspoken(SType(X.w), X.v)
Gave(o, v) == o.r = "ok" /\ o.v = v

NoPanic == "panic" \notin {X.cap.r, X.tcap.r, X.dec.r, X.back.r, X.tdec.r}
\* of unknown length: may be refused
Lazily == SType(X.w).k \in {"lazy", "lazymap"} /\ X.cap.r = "err"
Capturing == IF Refusing THEN X.cap.r = "err" ELSE Lazily \/ Gave(X.cap, Capture(Codec("desc", "Binary", "d"), SModel("Binary", SType(X.w), X.v)))
RoundTrip == ~Refusing /\ ~Lazily => IF Refused(SType(X.w), X.v, 254) THEN X.dec.r = "err" ELSE X.rt => Gave(X.dec, SNormal("Binary", SType(X.w), X.v))
Twin == X.tcap.r # "na" => /\ X.tcap = X.cap
                           /\ X.cap.r = "ok" /\ X.rt => Gave(X.back, X.v) /\ Gave(X.tdec, X.v)
=============================================================================
