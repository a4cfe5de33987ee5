----------------------------- MODULE CodecModel -----------------------------
(* The codecs are what P01-P05 and P10 say of them, for small values of all  *)
(* types: what is written is read back as the same value up to its end and   *)
(* whatever follows, no proper beginning of it is anything, it is skipped    *)
(* whole, and read without knowing its type it is what capturing the value   *)
(* gives, which reads as the value again.  A state is a codec, a type and    *)
(* one of its values.                                                       *)
EXTENDS Values

CONSTANTS Confs, Types, Most
VARIABLES conf, ty, at
Opts8 == {"d", "vbig", "fix", "fixbig", "fix8", "fix16b", "v32", "fixv"}
Storage == {<<"storage", "Binary", "d">>, <<"packed", "Binary", "fix">>}
StorageAll == ({"storage"} \X {"Binary", "Text"} \X Opts8) \cup ({"packed"} \X {"Binary", "Text"} \X {"fix", "d", "fixbig"})
Wire == {<<"wire", "Binary", "d">>}
WireAll == {"wire"} \X {"Binary", "Text"} \X Opts8
Desc == {<<"desc", "Binary", "d">>}
DescAll == {"desc"} \X {"Binary", "Text"} \X {"d", "fix", "fixbig", "v32"}
T == TypeOf(ty)
V == Vals(T, 0)[at]
C == Codec(conf[1], conf[2], conf[3])

AllTypes == DOMAIN J.types

Init == conf \in Confs /\ ty \in Types /\ at = 0
Next == at < Min2(Most, Len(Vals(T, 0))) /\ at' = at + 1 /\ UNCHANGED <<conf, ty>>

\* ---- what can be told apart ----
\* a type and all inside of it
RECURSIVE Subs(_, _)
Subs(t, d) ==
  <<t>> \o IF d > 5 THEN <<>>
  ELSE CASE t.k \in {"nz", "opt", "seq", "set", "arr", "w"} -> Subs(t.t, d + 1)
       [] t.k = "map" -> Subs(t.kt, d + 1) \o Subs(t.vt, d + 1)
       [] t.k = "res" -> Subs(t.t, d + 1) \o Subs(t.e, d + 1)
       [] t.k \in {"tup", "rng"} -> Flat([i \in 1..Len(t.ts) |-> Subs(t.ts[i], d + 1)])
       [] t.k = "d" -> LET x == Decl(t.n)
                           fs == IF x.k = "struct" THEN x.fields ELSE Flat([i \in 1..Len(x.vars) |-> x.vars[i].fields])
                       IN Flat([i \in 1..Len(fs) |-> Subs(fs[i].t, d + 1)])
       [] OTHER -> <<>>
Within(t, P(_)) == LET s == Subs(t, 0) IN \E i \in 1..Len(s) : P(s[i])
IsOpt(t) == t.k = "opt"
IsRaw(t) == t.k = "rbytes"
PackedHere(as) == \E i \in 1..Len(as) : as[i].a = "packed"
PackedOpt(t) ==
  t.k = "d" /\ LET x == Decl(t.n)
                   bs == IF x.k = "struct" THEN <<x>> ELSE x.vars
               IN \E i \in 1..Len(bs) : \E j \in 1..Len(bs[i].fields) :
                    (PackedHere(bs[i].attrs) \/ PackedHere(bs[i].fields[j].attrs)) /\ Within(bs[i].fields[j].t, IsOpt)
Internal(t) == t.k = "d" /\ Decl(t.n).k = "enum" /\ Tagging(conf[2], Decl(t.n)) = "internal"
Untag(t) == t.k = "d" /\ Decl(t.n).k = "enum" /\ Tagging(conf[2], Decl(t.n)) = "untagged"
Exact ==
  ~ \/ conf[1] = "packed" /\ Within(T, IsOpt)
    \/ C.f = "storage" /\ Within(T, PackedOpt)
    \/ C.f # "storage" /\ Within(T, IsRaw)
    \/ C.f # "desc" /\ Within(T, Internal)
    \/ Within(T, Sided)

-----------------------------------------------------------------------------
W == Bytes(C, T, V)
Dec1(b) == Dec(C, T, FALSE, b, 1, Len(b))
Back == at > 0 => LET w == W IN (Exact /\ ~IsBad(w)) =>
          \A s \in {<<>>, <<0>>, <<255, 1, 255>>} : LET r == Dec1(w \o s) IN r = <<Normal(conf[2], T, V), Len(w) + 1>>
\* an untagged enum may take a beginning for another variant
Whole == at > 0 => LET w == W IN (Exact /\ ~IsBad(w) /\ ~Within(T, Untag)) =>
           \A n \in 0..(Len(w) - 1) : (n < 24 \/ n > Len(w) - 4) => Dec1(Take(w, n)) = <<>>
Skipped == at > 0 => LET w == W IN (C.f # "storage" /\ ~IsBad(w)) => \A s \in {<<>>, <<0>>} : Skip(C, 1, w \o s, 1, Len(w \o s)) = Len(w) + 1
Term == Model(conf[2], T, V, FALSE)
Described == (at > 0 /\ C.f = "desc" /\ conf[3] = "d") =>
               LET w == W
                   x == Capture(C, Term)
                   r == DescAny(w, 1, Len(w))
               IN r = <<Sized(x), Len(w) + 1>>
Captured == (at > 0 /\ C.f = "desc" /\ conf[3] = "d" /\ Exact) => DecV(C, T, Capture(C, Term)) = <<Normal(conf[2], T, V)>>
Rewritten == (at > 0 /\ C.f = "desc" /\ conf[3] = "d") => LET x == Capture(C, Term) IN LET b == Enc(C, Replay(x)) IN DescAny(b, 1, Len(b)) = <<Sized(x), Len(b) + 1>>
=============================================================================
