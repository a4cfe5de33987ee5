------------------------------- MODULE Values -------------------------------
(* Small sequences of values of every type of the universe, for checking the *)
(* specification itself: boundary numbers, strings of one to four byte       *)
(* characters, empty to three-element containers and, at the top, lengths    *)
(* around the ends of the short tags.                                       *)
EXTENDS Codec

Times(x, n) == [i \in 1..n |-> x]
Fill(b, x, w) == [i \in 1..w |-> IF i <= Len(b) THEN b[i] ELSE x]
Top(x, y, w) == [i \in 1..w |-> IF i = w THEN y ELSE x]
IntVals(w, d) ==
  LET few == <<Zeros(w), Fill(<<127>>, 0, w), Times(255, w)>>
      more == <<Fill(<<1>>, 0, w), Fill(<<31>>, 0, w), Fill(<<62>>, 0, w), Fill(<<63>>, 0, w), Fill(<<64>>, 0, w), Fill(<<128>>, 0, w), Fill(<<255>>, 0, w),
                Fill(<<192>>, 255, w), Fill(<<191>>, 255, w), Fill(<<255, 63>>, 0, w), Fill(<<0, 64>>, 0, w), Top(0, 128, w), Top(255, 127, w), Top(0, 16, w)>>
  IN IF d = 0 THEN few \o more ELSE few
FloatVals(w) == <<Zeros(w), Top(0, 128, w), IF w = 4 THEN <<0, 0, 128, 63>> ELSE <<0, 0, 0, 0, 0, 0, 240, 63>>, IF w = 4 THEN <<1, 0, 0, 0>> ELSE <<255, 255, 255, 255, 255, 255, 239, 127>>>>
StrVals(d, nul) ==
  LET few == <<<<>>, <<97>>, <<195, 169, 98>>, <<240, 157, 132, 158>>>>
      ctl == IF nul THEN <<<<0, 34, 92, 10>>>> ELSE <<>>
  IN IF d = 0 THEN few \o ctl \o [i \in 1..8 |-> Times(120, <<30, 31, 32, 62, 63, 64, 127, 128>>[i])] ELSE few
CharVals == <<0, 97, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111>>
Now(s) == SubSeq(s, 1, Len(s)) \* a sequence whose elements are evaluated only once
Pick(s, i) == s[((i - 1) % Len(s)) + 1]
\* tuples of the i-th, (i + step)-th ... of the parts
Mix(ps) ==
  LET parts == Now(ps) IN
  IF Len(parts) = 0 THEN <<<<>>>>
  ELSE IF \E j \in 1..Len(parts) : Len(parts[j]) = 0 THEN <<>>
  ELSE LET n == Min2(8, MaxOf({Len(parts[j]) : j \in 1..Len(parts)}) + (IF Len(parts) > 1 THEN 2 ELSE 0))
       IN Now([i \in 1..n |-> Now([j \in 1..Len(parts) |-> Pick(parts[j], i + ((j - 1) * (i - 1)))])])
Lists(us, d) ==
  LET vs == Now(us) IN
  IF Len(vs) = 0 THEN <<<<>>>>
  ELSE <<<<>>, <<vs[1]>>, <<vs[Len(vs)], Pick(vs, 2)>>, <<Pick(vs, 2), vs[Len(vs)], vs[1]>>>>
       \o (IF d = 0 THEN [i \in 1..5 |-> [j \in 1..(<<30, 31, 32, 63, 64>>[i]) |-> Pick(vs, j)]] ELSE <<>>)
Of(n, us) == LET vs == Now(us) IN Now([i \in 1..Len(vs) |-> <<n, vs[i]>>])
RECURSIVE Vals(_, _), Each(_, _), Fields(_, _)
Vals(t, d) ==
  IF d > 7 THEN <<>>
  ELSE IF d > 4 /\ t.k \in {"seq", "set", "map", "opt"} THEN <<<<>>>>
  ELSE Each(t, d)
Each(t, d) ==
  CASE t.k \in {"u", "i", "us", "is"} -> IntVals(t.w, d)
    [] t.k = "f" -> FloatVals(t.w)
    [] t.k = "nz" -> SelectSeq(Vals(t.t, d), LAMBDA v : ~AllZero(v))
    [] t.k = "bool" -> <<0, 1>>
    [] t.k = "char" -> CharVals
    [] t.k \in {"unit", "rfull"} -> <<<<>>>>
    [] t.k = "str" -> StrVals(d, TRUE)
    [] t.k \in {"cstr", "path"} -> StrVals(d, FALSE)
    [] t.k = "rbytes" -> Lists(<<0, 255, 7>>, d)
    [] t.k = "ip4" -> <<<<0, 0, 0, 0>>, <<127, 0, 0, 1>>, <<255, 10, 99, 100>>>>
    [] t.k = "ip6" -> <<Zeros(16), Top(0, 1, 16), Times(255, 16), <<32, 1, 13, 184, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1>>, Zeros(10) \o <<255, 255, 1, 2, 3, 4>>, Zeros(12) \o <<1, 2, 3, 4>>, <<0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0>>>>
    [] t.k = "ip" -> Of(0, Vals([k |-> "ip4"], d + 1)) \o Of(1, Vals([k |-> "ip6"], d + 1))
    [] t.k \in {"sock4", "sock6"} -> Mix([i \in 1..Len(SockTypes(t.k)) |-> Vals(SockTypes(t.k)[i], d + 1)])
    [] t.k = "sock" -> Of(0, Vals([k |-> "sock4"], d + 1)) \o Of(1, Vals([k |-> "sock6"], d + 1))
    [] t.k = "opt" -> LET vs == Now(Vals(t.t, d + 1)) IN <<<<>>>> \o [i \in 1..Len(vs) |-> <<vs[i]>>]
    [] t.k = "seq" -> Lists(Vals(t.t, d + 1), d)
    [] t.k = "set" -> LET ls == Lists(Vals(t.t, d + 1), d + 1) IN Now([i \in 1..Len(ls) |-> SetOf(t, ls[i])])
    [] t.k = "map" -> LET ks == Lists(Vals(t.kt, d + 1), d + 1)
                          vs == Vals(t.vt, d + 1)
                          es == IF Len(vs) = 0 THEN <<<<>>>> ELSE Now([i \in 1..Len(ks) |-> Entries(t.kt, [j \in 1..Len(ks[i]) |-> <<ks[i][j], Pick(vs, i + j)>>])])
                      IN IF "max1" \in DOMAIN t THEN SubSeq(es, 1, Min2(2, Len(es))) ELSE es
    [] t.k \in {"tup", "rng"} -> Mix([i \in 1..Len(t.ts) |-> Vals(t.ts[i], d + 1)])
    [] t.k = "arr" -> Mix([i \in 1..t.n |-> Vals(t.t, d + 1)])
    [] t.k = "res" -> Of(0, Vals(t.t, d + 1)) \o Of(1, Vals(t.e, d + 1))
    [] t.k = "w" -> Vals(t.t, d)
    [] t.k = "d" -> LET x == Decl(t.n)
                    IN IF x.k = "struct" THEN Fields(x.fields, d + 1)
                       ELSE Flat([i \in 1..Len(x.vars) |-> Of(i - 1, LET fs == Fields(x.vars[i].fields, d + 1) IN SubSeq(fs, 1, Min2(IF d = 0 THEN 8 ELSE 3, Len(fs))))])
\* values of fields, with those which some attribute singles out
Fields(fs, d) ==
  Mix([i \in 1..Len(fs) |->
        LET own == SelectSeq(fs[i].attrs, LAMBDA a : a.a \in {"skipif", "default_path"})
        IN [j \in 1..Len(own) |-> own[j].v.v] \o Vals(fs[i].t, d)])
=============================================================================
