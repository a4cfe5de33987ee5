----------------------------- MODULE CodecTrace -----------------------------
(* Encodings and decodings recorded from the real code.  A record: format f, *)
(* mode m, options o, writer type w with value v (or "" with bytes b), bytes   *)
(* suf that follow, reader types rs, whole: decoded from the whole slice.     *)
EXTENDS Codec, IOUtils

VARIABLE r
Recs == ndJsonDeserialize(IOEnv.TRACE)
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64

C(x) == Codec(x.f, x.m, x.o)
Wrote(x) == x.w # ""
Written(x) == Bytes(C(x), TypeOf(x.w), x.v)
Input(x) == (IF Wrote(x) THEN x.enc.v ELSE x.b) \o x.suf
Expected(x, i) == Decode(C(x), TypeOf(x.rs[i]), Input(x))

NoPanic == Recs[r].enc.r # "panic" /\ \A i \in 1..Len(Recs[r].dec) : Recs[r].dec[i].r # "panic"
\* exactly the bytes of the layout are written, or an error where there are none
Layout == LET x == Recs[r] IN Wrote(x) =>
            LET s == Written(x) IN IF IsBad(s) THEN x.enc.r = "err" ELSE x.enc.r = "ok" /\ x.enc.v = s
\* what is read is what the grammar says, and exactly its bytes are consumed
Meaning == LET x == Recs[r] IN \A i \in 1..Len(x.rs) : x.dec[i].r = "ok" =>
             LET e == Expected(x, i) IN e # <<>> /\ x.dec[i].v[1] = e[1] /\ (~x.whole => x.dec[i].v[2] = e[2])
\* and what the grammar says is read
Complete == LET x == Recs[r] IN \A i \in 1..Len(x.rs) : x.dec[i].r = "err" => Expected(x, i) = <<>>
\* reading what was written as the same type gives the value back
RoundTrip == LET x == Recs[r] IN (Wrote(x) /\ x.enc.r = "ok" /\ x.rt) =>
               \A i \in 1..Len(x.rs) : x.rs[i] = x.w => x.dec[i].r = "ok" /\ x.dec[i].v[1] = Normal(x.m, TypeOf(x.w), x.v) /\ (~x.whole => x.dec[i].v[2] = Len(x.suf))
=============================================================================
