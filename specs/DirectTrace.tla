----------------------------- MODULE DirectTrace -----------------------------
(* Programs which write and read by hand, recorded from the real code.  A     *)
(* node of a program p has a kind k and parts x, is written the way w, and    *)
(* read the way r, as: n of its elements where there are any.  However it is  *)
(* written it is the same term; what is read are its parts; what is left of   *)
(* sequences and maps is skipped, or refused.                                *)
EXTENDS JsonText, IOUtils

VARIABLE r
Recs == ndJsonDeserialize(IOEnv.TRACE)
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
X == Recs[r]
C == Codec(IF X.f = "value" THEN "desc" ELSE X.f, "Binary", X.o)

RECURSIVE Term(_), Seen(_), Got(_), Gets(_, _), Loses(_), Hard(_), Over(_), Kids(_), Packed(_)
Term(p) ==
  CASE p.k \in {"bool", "char"} -> <<p.k, p.x>>
    [] p.k = "int" -> <<"int", p.x[1], p.x[2], p.x[3]>>
    [] p.k \in {"str", "bytes"} -> <<p.k, Flat(p.x)>>
    [] p.k = "array" -> <<p.k, p.x>>
    [] p.k \in {"empty", "none"} -> <<p.k>>
    [] p.k = "some" -> <<p.k, Term(p.x)>>
    [] p.k \in {"seq", "pack"} -> <<p.k, [i \in 1..Len(p.x) |-> Term(p.x[i])]>>
    [] p.k = "map" -> <<p.k, [i \in 1..Len(p.x) |-> <<Term(p.x[i][1]), Term(p.x[i][2])>>]>>
    [] p.k = "var" -> <<p.k, Term(p.x[1]), Term(p.x[2])>>
\* what a reader of a text sees of a term
Seen(t) ==
  CASE t[1] = "int" -> LET s == Decimal(t[2] \in {"i", "is"}, t[4])
                           neg == s[1] = 45
                       IN SmallestInt(neg, IF neg THEN Tail(s) ELSE s)[1]
    [] t[1] = "char" -> <<"str", Utf8(t[2])>>
    [] t[1] \in {"bytes", "array"} -> <<"seq", [i \in 1..Len(t[2]) |-> <<"int", "u", 1, <<t[2][i]>>>>]>>
    [] t[1] \in {"empty", "none"} -> <<"unit">>
    [] t[1] = "some" -> Seen(t[2])
    [] t[1] \in {"seq", "pack"} -> <<"seq", [i \in 1..Len(t[2]) |-> Seen(t[2][i])]>>
    [] t[1] = "map" -> <<"map", [i \in 1..Len(t[2]) |-> <<<<"str", KeyText(t[2][i][1])[1]>>, Seen(t[2][i][2])>>]>>
    [] t[1] = "var" -> <<"map", <<<<<<"str", KeyText(t[2])[1]>>, Seen(t[3])>>>>>>
    [] OTHER -> t
Blind == {"skip", "tryskip", "any", "visit", "number"}
\* what is read by a program
Gets(p, as) ==
  CASE as = "skip" -> <<"skip">>
    [] as = "tryskip" -> <<"skip">>
    [] as \in {"any", "visit", "number"} -> <<"any", IF X.f = "json" THEN Seen(Term(p)) ELSE IF X.f = "value" /\ as = "visit" THEN Capture(C, Term(p)) ELSE Sized(Capture(C, Term(p)))>>
    [] as = "buffer" -> <<"twice", Gets(p, ""), Gets(p, "")>>
    [] as = "clone" -> <<"twice", Gets(p, ""), Gets(p, "")>>
    [] OTHER ->
       CASE p.k = "int" -> p.x[3]
         [] p.k \in {"str", "bytes"} -> Flat(p.x)
         [] p.k \in {"empty", "none"} -> <<>>
         [] p.k = "some" -> <<Got(p.x)>>
         [] p.k = "pack" -> [i \in 1..Len(p.x) |-> Got(p.x[i])]
         [] p.k = "seq" -> [i \in 1..p.n |-> Got(p.x[i])]
         [] p.k = "map" -> [i \in 1..p.n |-> <<Got(p.x[i][1]), Got(p.x[i][2])>>]
         [] p.k = "var" -> <<Got(p.x[1]), Got(p.x[2])>>
         [] OTHER -> p.x
Got(p) == Gets(p, p.as)
\* the nodes below a node which are read
Kids(p) ==
  CASE p.as \in Blind -> <<>>
    [] p.k = "some" -> <<p.x>>
    [] p.k = "pack" -> p.x
    [] p.k = "var" -> p.x
    [] p.k = "seq" -> SubSeq(p.x, 1, p.n)
    [] p.k = "map" -> Flat(SubSeq(p.x, 1, p.n))
    [] OTHER -> <<>>
\* something is left, or skipped
Loses(p) == \/ p.as \in {"skip", "tryskip"} \/ (p.k \in {"seq", "map"} /\ p.n < Len(p.x))
            \/ \E i \in 1..Len(Kids(p)) : Loses(Kids(p)[i])
\* a buffer or a dynamic value is asked for
Hard(p) == p.as \in {"buffer", "any", "visit", "number", "clone"} \/ \E i \in 1..Len(Kids(p)) : Hard(Kids(p)[i])
\* within a pack
Packed(p) == \/ p.k = "pack" /\ \E i \in 1..Len(Kids(p)) : Loses(p.x[i]) \/ Hard(p.x[i])
             \/ \E i \in 1..Len(Kids(p)) : Packed(Kids(p)[i])
\* more is asked for than there is
Over(p) == \/ p.as \notin Blind /\ p.k = "seq" /\ p.r = "over"
           \/ \E i \in 1..Len(Kids(p)) : Over(Kids(p)[i])

\* without a need to remember, formats have no buffers, and without tags nothing is skipped;
\* packs have none
May == CASE X.f \in {"storage", "packed"} -> Loses(X.p) \/ Hard(X.p)
         [] X.f = "wire" -> Hard(X.p) \/ Packed(X.p)
         [] X.f \in {"desc", "value"} -> Packed(X.p)
         [] OTHER -> FALSE

NoPanic == X.enc.r # "panic" /\ X.dec.r # "panic" /\ X.panics = <<>>
Written ==
  LET s == Enc(C, Term(X.p)) IN
  IF X.f \notin {"value", "json"} /\ IsBad(s) THEN X.enc.r = "err" ELSE
  /\ X.enc.r = "ok"
  /\ CASE X.f = "value" -> X.enc.v = Capture(C, Term(X.p))
       [] X.f = "json" -> LET v == PVal(X.enc.v, 1) IN v[1] = "ok" /\ SkipWs(X.enc.v, v[3]) = Len(X.enc.v) + 1 /\ Denotes(Term(X.p), v[2])
       [] OTHER -> X.enc.v = s
Read ==
  IF X.enc.r = "err" THEN TRUE
  ELSE IF Over(X.p) THEN X.dec.r = "err"
  ELSE IF X.dec.r = "ok" THEN X.dec.v[1] = Got(X.p) /\ (X.f \in {"value", "json"} \/ X.dec.v[2] = Len(X.suf))
  ELSE May
\* hints of lengths are right, if they are given
\* (a text has no lengths, and readers of texts give back the hint they got)
Hints == X.f = "json" \/ \A i \in 1..Len(X.hints) : X.hints[i][1] \in {0, X.hints[i][2]}
\* no value is complete before its last byte, but for numbers as text, and for null
Cuts == (X.f = "json" /\ X.p.k \in {"int", "none", "some", "empty"}) \/ X.accepted = <<>>
\* all ways of writing write the same, and all ways of reading read the same
Doors ==
  /\ \A i \in 1..Len(X.outs) : LET d == X.outs[i] IN d.r = X.enc.r /\ (d.r = "ok" => d.v = X.enc.v)
  /\ \A i \in 1..Len(X.ins) : LET d == X.ins[i] IN d.r = X.dec.r /\ (d.r = "ok" => d.v = X.dec.v[1])
=============================================================================
