------------------------------- MODULE Schema -------------------------------
(* The universe of types, and what every value of them is in the data model *)
(* under a mode: this is where the attributes of derived types get their     *)
(* meaning.  Terms of the data model are tuples starting with their kind:    *)
(*   <<"int", kind, width, bytes>>  <<"bool", 0/1>>  <<"char", code>>         *)
(*   <<"str", bytes>> <<"bytes", bytes>> <<"array", bytes>> <<"empty">>       *)
(*   <<"none">> <<"some", t>> <<"seq", ts>> <<"map", <<k, v>>...>>            *)
(*   <<"var", tag, body>> <<"pack", ts>>                                     *)
(* and, for values offered for bitwise copying in the position they are in:  *)
(*   <<"fseq", ts>> (array)  <<"fempty">> (unit)  <<"fpack", ts, ts'>>       *)
EXTENDS Num, TLC, Json

J == JsonDeserialize("types.json")
TypeOf(n) == J.types[n]
Decl(n) == J.decls[n]

\* A mode is "Binary", "Text" or one of the user's; with "<" in front it is that
\* mode when reading, since an attribute may be for only one of the two sides.
Base(m) == CASE m = "<Text" -> "Text" [] m = "<Binary" -> "Binary" [] m = "<Third" -> "Third" [] OTHER -> m
OnRead(m) == CASE m = "Text" -> "<Text" [] m = "Binary" -> "<Binary" [] m = "Third" -> "<Third" [] OTHER -> m
SideOf(m) == IF m \in {"<Text", "<Binary", "<Third"} THEN "D" ELSE "E"
\* What is said for the mode comes before what is said for every mode, and then
\* what is said for the side before what is said for both.
BestOf(as, m, names) ==
  LET ok == SelectSeq(as, LAMBDA x : x.a \in names /\ (x.m = "any" \/ x.m = Base(m)) /\ ("o" \notin DOMAIN x \/ x.o = SideOf(m)))
      rank(x) == (IF x.m = "any" THEN 0 ELSE 2) + (IF "o" \in DOMAIN x THEN 1 ELSE 0)
      best == CHOOSE i \in 1..Len(ok) : \A j \in 1..Len(ok) : rank(ok[i]) >= rank(ok[j])
  IN IF Len(ok) = 0 THEN <<>> ELSE IF Len(ok) = 1 THEN ok ELSE <<ok[best]>>
Attr(as, m, a) == LET x == BestOf(as, m, {a}) IN IF Len(x) = 0 THEN <<>> ELSE <<x[1].v>>
Has(as, m, a) == Len(Attr(as, m, a)) > 0
\* whether a type is declared to be written otherwise than it is read
Sided(t) ==
  LET some(as) == \E i \in 1..Len(as) : "o" \in DOMAIN as[i]
      body(x) == some(x.attrs) \/ \E i \in 1..Len(x.fields) : some(x.fields[i].attrs)
  IN t.k = "d" /\ LET d == Decl(t.n) IN IF d.k = "struct" THEN body(d) ELSE some(d.attrs) \/ \E i \in 1..Len(d.vars) : body(d.vars[i])

-----------------------------------------------------------------------------
\* Names
UsT(v) == <<"int", "us", 8, v>>
StrT(s) == <<"str", s>>
Lit(v) == IF v.k = "str" THEN StrT(v.b) ELSE UsT(v.b)
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
IsUpper(c) == c >= 65 /\ c <= 90
\* words of an identifier: separated by underscores, each capital starts one
RECURSIVE Words(_, _, _)
Words(s, cur, acc) ==
  LET done == IF cur = <<>> THEN acc ELSE acc \o <<cur>>
  IN IF s = <<>> THEN done
     ELSE IF s[1] = 95 THEN Words(Tail(s), <<>>, done)
     ELSE IF IsUpper(s[1]) THEN Words(Tail(s), <<s[1]>>, done)
     ELSE Words(Tail(s), cur \o <<s[1]>>, acc)
LowerS(s) == [i \in 1..Len(s) |-> Lower(s[i])]
UpperS(s) == [i \in 1..Len(s) |-> Upper(s[i])]
Cap(s) == [i \in 1..Len(s) |-> IF i = 1 THEN Upper(s[i]) ELSE Lower(s[i])]
Join(ws, sep) == Flat([i \in 1..Len(ws) |-> IF i = 1 THEN ws[i] ELSE sep \o ws[i]])
Rename(policy, id) ==
  LET ws == Words(id, <<>>, <<>>)
      map(F(_)) == [i \in 1..Len(ws) |-> F(ws[i])]
  IN CASE policy = "name" -> id
       [] policy = "PascalCase" -> Join(map(Cap), <<>>)
       [] policy = "camelCase" -> Join([i \in 1..Len(ws) |-> IF i = 1 THEN LowerS(ws[i]) ELSE Cap(ws[i])], <<>>)
       [] policy = "snake_case" -> Join(map(LowerS), <<95>>)
       [] policy = "SCREAMING_SNAKE_CASE" -> Join(map(UpperS), <<95>>)
       [] policy = "kebab-case" -> Join(map(LowerS), <<45>>)
       [] policy = "SCREAMING-KEBAB-CASE" -> Join(map(UpperS), <<45>>)
Policy(m, as) ==
  IF Has(as, m, "name_all") THEN Attr(as, m, "name_all")[1]
  ELSE IF Has(as, m, "name_type") THEN (IF Attr(as, m, "name_type")[1] = "str" THEN "name" ELSE "index")
  ELSE IF Base(m) = "Text" THEN "name" ELSE "index"
\* the name of a field or variant x inside a container with attributes as
NameOf(m, as, x) ==
  IF Has(x.attrs, m, "name") THEN Lit(Attr(x.attrs, m, "name")[1])
  ELSE IF x.id = <<>> \/ Policy(m, as) = "index" THEN UsT(x.idx)
  ELSE StrT(Rename(Policy(m, as), x.id))
\* everything that is read as that name
Patterns(m, as, x) ==
  IF Has(x.attrs, m, "pattern") THEN LET ps == Attr(x.attrs, m, "pattern")[1] IN [i \in 1..Len(ps) |-> Lit(ps[i])]
  ELSE <<NameOf(m, as, x)>>
\* what kind of name a container uses: "us" or "str"
NameKind(m, as, xs) ==
  IF Has(as, m, "name_type") THEN (IF Attr(as, m, "name_type")[1] = "str" THEN "str" ELSE "us")
  ELSE IF Has(as, m, "name_all") THEN (IF Policy(m, as) = "index" THEN "us" ELSE "str")
  ELSE IF Len(xs) > 0 THEN (IF NameOf(m, as, xs[1])[1] = "str" THEN "str" ELSE "us")
  ELSE IF Policy(m, as) = "index" THEN "us" ELSE "str"

-----------------------------------------------------------------------------
\* Types which may be copied bitwise when encoded, and when decoded
RECURSIVE BitE(_), BitD(_), BitSym(_)
BitDecl(n) == LET d == Decl(n) IN d.k = "struct" /\ \E i \in 1..Len(d.attrs) : d.attrs[i].a = "bitwise"
BitE(t) ==
  CASE t.k \in {"u", "i", "us", "is", "f", "bool", "char", "unit", "nz"} -> TRUE
    [] t.k = "arr" -> BitE(t.t) /\ BitSym(t.t)
    [] t.k = "w" -> BitE(t.t)
    [] t.k = "d" -> BitDecl(t.n) /\ \A i \in 1..Len(Decl(t.n).fields) : BitE(Decl(t.n).fields[i].t)
    [] OTHER -> FALSE
BitSym(t) ==
  CASE t.k \in {"bool", "char", "nz"} -> FALSE
    [] t.k \in {"arr", "w"} -> BitSym(t.t)
    [] t.k = "d" -> \A i \in 1..Len(Decl(t.n).fields) : BitSym(Decl(t.n).fields[i].t)
    [] OTHER -> TRUE
BitD(t) == BitE(t) /\ BitSym(t)

-----------------------------------------------------------------------------
\* Addresses as text
Hex1(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexOf(_)
HexOf(n) == IF n < 16 THEN <<Hex1(n)>> ELSE HexOf(n \div 16) \o <<Hex1(n % 16)>>
Ip4Text(v) == Join([i \in 1..4 |-> Dec10(v[i])], <<46>>)
Ip6Text(v) ==
  LET g == [i \in 1..8 |-> (256 * v[(2 * i) - 1]) + v[2 * i]]
      run(i) == LET z == {j \in i..8 : g[j] # 0} IN (IF z = {} THEN 9 ELSE MinOf(z)) - i
      best == MaxOf({run(i) : i \in 1..8})
      at == MinOf({i \in 1..8 : run(i) = best})
      part(a, b) == Join([i \in 1..(b - a + 1) |-> HexOf(g[a + i - 1])], <<58>>)
  IN IF \A i \in 1..5 : g[i] = 0 /\ g[6] = 65535
     THEN part(1, 0) \o <<58, 58>> \o HexOf(65535) \o <<58>> \o Ip4Text(Drop(v, 12))
     ELSE IF best < 2 THEN part(1, 8)
     ELSE part(1, at - 1) \o <<58, 58>> \o part(at + best, 8)

RECURSIVE Split(_, _, _, _)
Split(s, sep, cur, acc) ==
  IF s = <<>> THEN acc \o <<cur>>
  ELSE IF s[1] = sep THEN Split(Tail(s), sep, <<>>, acc \o <<cur>>) ELSE Split(Tail(s), sep, cur \o <<s[1]>>, acc)
RECURSIVE Radix(_, _, _)
DigitVal(ch) == IF ch >= 48 /\ ch <= 57 THEN ch - 48 ELSE IF ch >= 97 /\ ch <= 102 THEN ch - 87 ELSE IF ch >= 65 /\ ch <= 70 THEN ch - 55 ELSE 99
Radix(s, base, acc) == IF s = <<>> THEN acc ELSE IF DigitVal(s[1]) >= base THEN -1 ELSE Radix(Tail(s), base, (base * acc) + DigitVal(s[1]))
\* the bytes of an address written as text, in a singleton; <<>> if there is none
Ip4Parse(s) ==
  LET ps == Split(s, 46, <<>>, <<>>)
      n(x) == IF Len(x) \notin 1..3 \/ (Len(x) > 1 /\ x[1] = 48) THEN -1 ELSE Radix(x, 10, 0)
  IN IF Len(ps) # 4 \/ \E i \in 1..4 : n(ps[i]) < 0 \/ n(ps[i]) > 255 THEN <<>> ELSE <<[i \in 1..4 |-> n(ps[i])]>>
Ip6Parse(s) ==
  LET at == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
      parts(x) == IF x = <<>> THEN <<>> ELSE Split(x, 58, <<>>, <<>>)
      grp(x, last) == IF Len(x) \in 1..4 /\ Radix(x, 16, 0) >= 0 THEN <<Radix(x, 16, 0) \div 256, Radix(x, 16, 0) % 256>>
                      ELSE IF last /\ Len(Ip4Parse(x)) = 1 THEN Ip4Parse(x)[1] ELSE <<-1>>
      bytesOf(ps, tail) == Flat([i \in 1..Len(ps) |-> grp(ps[i], tail /\ i = Len(ps))])
      k == MinOf(at)
      l == bytesOf(parts(Take(s, k - 1)), FALSE)
      r == bytesOf(parts(Drop(s, k + 1)), TRUE)
      whole == bytesOf(parts(s), TRUE)
      bad(x) == \E i \in 1..Len(x) : x[i] < 0
  IN IF at = {} THEN (IF bad(whole) \/ Len(whole) # 16 THEN <<>> ELSE <<whole>>)
     ELSE IF bad(l) \/ bad(r) \/ Len(l) + Len(r) > 14 THEN <<>> ELSE <<l \o Zeros(16 - Len(l) - Len(r)) \o r>>

Sock4Text(v) == Ip4Text(v[1]) \o <<58>> \o DigitsOf(v[2])
Sock6Text(v) == <<91>> \o Ip6Text(v[1]) \o (IF AllZero(v[4]) THEN <<>> ELSE <<37>> \o DigitsOf(v[4])) \o <<93, 58>> \o DigitsOf(v[2])
LastOf(s, ch) == LET h == {i \in 1..Len(s) : s[i] = ch} IN IF h = {} THEN 0 ELSE MaxOf(h)
Sock4Parse(s) ==
  LET i == LastOf(s, 58)
      a == Ip4Parse(Take(s, i - 1))
      p == ParseDec(Drop(s, i), 2)
  IN IF i = 0 THEN <<>> ELSE IF Len(a) = 0 \/ Len(p) = 0 THEN <<>> ELSE <<<<a[1], p[1]>>>>
Sock6Parse(s) ==
  LET i == LastOf(s, 58)
      q == IF i < 3 \/ s[1] # 91 \/ s[Max2(i - 1, 1)] # 93 THEN <<>> ELSE SubSeq(s, 2, i - 2)
      j == LastOf(q, 37)
      a == Ip6Parse(IF j = 0 THEN q ELSE Take(q, j - 1))
      n == IF j = 0 THEN <<Zeros(4)>> ELSE ParseDec(Drop(q, j), 4)
      p == ParseDec(Drop(s, i), 2)
  IN IF q = <<>> THEN <<>> ELSE IF Len(a) = 0 \/ Len(p) = 0 \/ Len(n) = 0 THEN <<>> ELSE <<<<a[1], p[1], Zeros(4), n[1]>>>>

-----------------------------------------------------------------------------
\* The term of a value.  fast: whether it may be offered for bitwise copying.
OkId == <<79, 107>>
ErrId == <<69, 114, 114>>
StdTag(m, n, text) == IF m = "Text" THEN StrT(text) ELSE UsT(LE(n, 8))
IpTag(m, n) == StdTag(m, n, IF n = 0 THEN <<105, 112, 118, 52>> ELSE <<105, 112, 118, 54>>)
SockTag(m, n) == StdTag(m, n, IF n = 0 THEN <<118, 52>> ELSE <<118, 54>>)
SockTypes(k) == IF k = "sock4" THEN <<[k |-> "ip4"], [k |-> "u", w |-> 2]>> ELSE <<[k |-> "ip6"], [k |-> "u", w |-> 2], [k |-> "u", w |-> 4], [k |-> "u", w |-> 4]>>
ResTag(m, n) == StdTag(m, n, IF n = 0 THEN OkId ELSE ErrId)
UnixTag(m) == StdTag(m, 0, <<85, 110, 105, 120>>)
\* packed, transparent and untagged exclude each other
Packing(m, as) == LET x == BestOf(as, m, {"packed", "transparent", "untagged"}) IN IF Len(x) = 0 THEN "map" ELSE x[1].a
Tagging(m, d) ==
  IF Packing(m, d.attrs) = "untagged" THEN "untagged"
  ELSE IF Has(d.attrs, m, "content") THEN "adjacent"
  ELSE IF Has(d.attrs, m, "tag") THEN "internal"
  ELSE IF \A i \in 1..Len(d.vars) : d.vars[i].style = "unit" THEN "name"
  ELSE "external"

RECURSIVE Model(_, _, _, _), FieldT(_, _, _), Body(_, _, _), BodyMap(_, _, _)
Model(m, t, v, fast) ==
  CASE t.k \in {"u", "i", "us", "is", "f"} -> <<"int", t.k, t.w, v>>
    [] t.k = "bool" -> <<"bool", v>>
    [] t.k = "char" -> <<"char", v>>
    [] t.k = "unit" -> IF fast THEN <<"fempty">> ELSE <<"empty">>
    [] t.k = "str" -> <<"str", v>>
    [] t.k = "cstr" -> <<"bytes", v \o <<0>>>>
    [] t.k \in {"ip4", "ip6"} -> IF m = "Text" THEN StrT(IF t.k = "ip4" THEN Ip4Text(v) ELSE Ip6Text(v)) ELSE <<"array", v>>
    [] t.k = "ip" -> <<"var", IpTag(m, v[1]), Model(m, [k |-> IF v[1] = 0 THEN "ip4" ELSE "ip6"], v[2], TRUE)>>
    [] t.k \in {"sock4", "sock6"} -> IF m = "Text" THEN StrT(IF t.k = "sock4" THEN Sock4Text(v) ELSE Sock6Text(v))
                                     ELSE <<"pack", [i \in 1..Len(v) |-> Model(m, SockTypes(t.k)[i], v[i], TRUE)]>>
    [] t.k = "sock" -> <<"var", SockTag(m, v[1]), Model(m, [k |-> IF v[1] = 0 THEN "sock4" ELSE "sock6"], v[2], TRUE)>>
    [] t.k = "rbytes" -> <<"seq", [i \in 1..Len(v) |-> <<"int", "u", 1, <<v[i]>>>>]>>
    [] t.k = "path" -> <<"var", UnixTag(m), <<"bytes", v>>>>
    [] t.k = "rfull" -> <<"seq", <<>>>>
    [] t.k = "nz" -> Model(m, t.t, v, fast)
    [] t.k = "opt" -> IF v = <<>> THEN <<"none">> ELSE <<"some", Model(m, t.t, v[1], TRUE)>>
    [] t.k \in {"seq", "set"} -> <<"seq", [i \in 1..Len(v) |-> Model(m, t.t, v[i], TRUE)]>>
    [] t.k = "map" -> <<"map", [i \in 1..Len(v) |-> <<Model(m, t.kt, v[i][1], TRUE), Model(m, t.vt, v[i][2], TRUE)>>]>>
    [] t.k \in {"tup", "rng"} -> <<"seq", [i \in 1..Len(v) |-> Model(m, t.ts[i], v[i], TRUE)]>>
    [] t.k = "arr" -> <<IF fast /\ BitE(t) THEN "fseq" ELSE "seq", [i \in 1..Len(v) |-> Model(m, t.t, v[i], TRUE)]>>
    [] t.k = "res" -> <<"var", ResTag(m, v[1]), Model(m, IF v[1] = 0 THEN t.t ELSE t.e, v[2], TRUE)>>
    [] t.k = "w" -> Model(m, t.t, v, FALSE)
    [] t.k = "d" ->
         LET d == Decl(t.n)
         IN IF d.k = "struct"
            THEN IF BitDecl(t.n) /\ Packing(m, d.attrs) = "packed"
                 THEN <<"fpack", [i \in 1..Len(v) |-> Model(m, d.fields[i].t, v[i], TRUE)], [i \in 1..Len(v) |-> Model(m, d.fields[i].t, v[i], FALSE)]>>
                 ELSE Body(m, d, v)
            ELSE LET x == d.vars[v[1] + 1]
                     nm == NameOf(m, d.attrs, x)
                     tag == Tagging(m, d)
                 IN CASE tag = "untagged" -> Body(m, x, v[2])
                      [] tag = "name" -> nm
                      [] tag = "external" -> <<"var", nm, Body(m, x, v[2])>>
                      [] tag = "internal" -> <<"map", <<<<Lit(Attr(d.attrs, m, "tag")[1]), nm>>>> \o BodyMap(m, x, v[2])>>
                      [] tag = "adjacent" -> <<"map", <<<<Lit(Attr(d.attrs, m, "tag")[1]), nm>>, <<Lit(Attr(d.attrs, m, "content")[1]), Body(m, x, v[2])>>>>>>

\* one field of a derived type
FieldT(m, f, v) ==
  IF Has(f.attrs, m, "with")
  THEN (IF Attr(f.attrs, m, "with")[1] = "wide" THEN <<"int", "u", 8, v \o Zeros(4)>>
        ELSE <<"seq", LET cs == Rev(Chars(v, 1)) IN [i \in 1..Len(cs) |-> <<"char", cs[i]>>]>>)
  ELSE IF Has(f.attrs, m, "bytes") THEN <<IF f.t.k = "arr" THEN "array" ELSE "bytes", Flat(v)>>
  ELSE IF Has(f.attrs, m, "packed")
  THEN <<"pack", [i \in 1..Len(v) |-> Model(m, IF f.t.k = "arr" THEN f.t.t ELSE f.t.ts[i], v[i], TRUE)]>>
  ELSE Model(m, f.t, v, FALSE)
Present(m, f, v) == ~Has(f.attrs, m, "skip") /\ ~(Has(f.attrs, m, "skipif") /\ v = Attr(f.attrs, m, "skipif")[1].v)
Shown(m, st, v) == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : Present(m, st.fields[i], v[i]))
BodyMap(m, st, v) ==
  LET is == Shown(m, st, v)
  IN [j \in 1..Len(is) |-> LET f == st.fields[is[j]] IN <<NameOf(m, st.attrs, f), FieldT(m, f, v[is[j]])>>]
Body(m, st, v) ==
  LET is == Shown(m, st, v)
      p == Packing(m, st.attrs)
  IN CASE p = "packed" -> <<"pack", [j \in 1..Len(is) |-> FieldT(m, st.fields[is[j]], v[is[j]])]>>
       [] p = "transparent" -> FieldT(m, st.fields[is[1]], v[is[1]])
       [] OTHER -> <<"map", BodyMap(m, st, v)>>

-----------------------------------------------------------------------------
\* Defaults, and the value which is left of one after a round trip
RECURSIVE DefaultOf(_)
DefaultOf(t) ==
  CASE t.k \in {"u", "i", "us", "is", "f"} -> Zeros(t.w)
    [] t.k \in {"bool", "char"} -> 0
    [] t.k = "tup" -> [i \in 1..Len(t.ts) |-> DefaultOf(t.ts[i])]
    [] t.k = "arr" -> [i \in 1..t.n |-> DefaultOf(t.t)]
    [] OTHER -> <<>>
Defaulted(m, f) == Has(f.attrs, m, "default") \/ Has(f.attrs, m, "default_path") \/ Has(f.attrs, m, "skip")
FieldDefault(m, f) == LET x == BestOf(f.attrs, m, {"default", "default_path"}) IN IF Len(x) = 1 /\ x[1].a = "default_path" THEN x[1].v.v ELSE DefaultOf(f.t)

RECURSIVE Normal(_, _, _), NormalF(_, _, _)
NormalF(m, fs, v) == [i \in 1..Len(v) |-> IF Present(m, fs[i], v[i]) /\ ~Has(fs[i].attrs, OnRead(m), "skip") THEN (IF Has(fs[i].attrs, m, "with") THEN v[i] ELSE Normal(m, fs[i].t, v[i])) ELSE FieldDefault(OnRead(m), fs[i])]
Normal(m, t, v) ==
  CASE t.k = "opt" -> IF v = <<>> THEN <<>> ELSE <<Normal(m, t.t, v[1])>>
    [] t.k \in {"seq", "set", "arr"} -> [i \in 1..Len(v) |-> Normal(m, t.t, v[i])]
    [] t.k = "map" -> [i \in 1..Len(v) |-> <<v[i][1], Normal(m, t.vt, v[i][2])>>]
    [] t.k \in {"tup", "rng"} -> [i \in 1..Len(v) |-> Normal(m, t.ts[i], v[i])]
    [] t.k = "res" -> <<v[1], Normal(m, IF v[1] = 0 THEN t.t ELSE t.e, v[2])>>
    [] t.k = "w" -> Normal(m, t.t, v)
    [] t.k = "sock6" -> IF m = "Text" THEN <<v[1], v[2], Zeros(4), v[4]>> ELSE v
    [] t.k = "sock" -> <<v[1], Normal(m, [k |-> IF v[1] = 0 THEN "sock4" ELSE "sock6"], v[2])>>
    [] t.k = "d" -> LET d == Decl(t.n) IN IF d.k = "struct" THEN NormalF(m, d.fields, v) ELSE <<v[1], NormalF(m, d.vars[v[1] + 1].fields, v[2])>>
    [] OTHER -> v
=============================================================================
