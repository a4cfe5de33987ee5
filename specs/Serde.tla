-------------------------------- MODULE Serde --------------------------------
(* What the serde bridge makes of a value of a type with the usual serde     *)
(* derives: a term of the data model of Schema.tla, which Codec.tla and      *)
(* JsonText.tla say how to write.  stypes.json has the types: kinds are those *)
(* of Schema.tla and                                                         *)
(*   sbytes serde_bytes   dur Duration   jv serde_json::Value               *)
(*   anyn an integer of any kind, read as whatever integer is there          *)
(*   lazy, lazymap: of unknown length   boom: refused at 255 and 254        *)
(*   d: declared, a struct of a style or an enum with its tagging           *)
EXTENDS JsonText

SJ == JsonDeserialize("stypes.json")
SType(n) == SJ.types[n]
SDecl(n) == SJ.decls[n]

Secs == <<115, 101, 99, 115>>
Nanos == <<110, 97, 110, 111, 115>>
StartId == <<115, 116, 97, 114, 116>>
EndId == <<101, 110, 100>>
VTag(n) == StrT(IF n = 0 THEN <<86, 52>> ELSE <<86, 54>>)
EmptyT == <<"empty">>
Octets(v) == <<"seq", [i \in 1..Len(v) |-> <<"int", "u", 1, <<v[i]>>>>]>>

RECURSIVE SModel(_, _, _), SBody(_, _, _), JvModel(_)
JvModel(v) ==
  CASE v[1] = "null" -> EmptyT
    [] v[1] = "bool" -> <<"bool", v[2]>>
    [] v[1] = "pos" -> <<"int", "u", 8, v[2]>>
    [] v[1] = "neg" -> <<"int", "i", 8, v[2]>>
    [] v[1] = "f" -> <<"int", "f", 8, v[2]>>
    [] v[1] = "str" -> StrT(v[2])
    [] v[1] = "arr" -> <<"seq", [i \in 1..Len(v[2]) |-> JvModel(v[2][i])]>>
    [] v[1] = "obj" -> <<"map", [i \in 1..Len(v[2]) |-> <<StrT(v[2][i][1]), JvModel(v[2][i][2])>>]>>
SModel(m, t, v) ==
  LET human == m = "Text"
      k == t.k
  IN CASE k \in {"us", "is"} -> <<"int", IF k = "us" THEN "u" ELSE "i", 8, v>>
       [] k \in {"u", "i", "f"} -> <<"int", k, t.w, v>>
       [] k = "boom" -> <<"int", "u", 1, <<v>>>>
       [] k \in {"bool", "char"} -> <<k, v>>
       [] k \in {"str", "path"} -> StrT(v)
       [] k \in {"sbytes", "cstr"} -> <<"bytes", v>>
       [] k = "unit" -> EmptyT
       [] k \in {"w", "nz"} -> SModel(m, t.t, v)
       [] k = "opt" -> IF v = <<>> THEN <<"none">> ELSE <<"some", SModel(m, t.t, v[1])>>
       [] k \in {"seq", "set", "arr", "lazy"} -> <<"seq", [i \in 1..Len(v) |-> SModel(m, t.t, v[i])]>>
       [] k = "tup" -> <<"seq", [i \in 1..Len(v) |-> SModel(m, t.ts[i], v[i])]>>
       [] k = "map" -> <<"map", [i \in 1..Len(v) |-> <<SModel(m, t.kt, v[i][1]), SModel(m, t.vt, v[i][2])>>]>>
       [] k = "lazymap" -> <<"map", [i \in 1..Len(v) |-> <<StrT(v[i][1]), <<"int", "u", 1, v[i][2]>>>>]>>
       [] k = "rng" -> <<"map", [i \in 1..Len(v) |-> <<StrT(IF i = 1 /\ ~t.to THEN StartId ELSE EndId), SModel(m, t.ts[i], v[i])>>]>>
       [] k = "res" -> <<"var", StrT(IF v[1] = 0 THEN OkId ELSE ErrId), SModel(m, IF v[1] = 0 THEN t.t ELSE t.e, v[2])>>
       [] k = "dur" -> <<"map", <<<<StrT(Secs), <<"int", "u", 8, v[1]>>>>, <<StrT(Nanos), <<"int", "u", 4, v[2]>>>>>>>>
       [] k = "jv" -> JvModel(v)
       [] k = "anyn" -> <<"int", v[1], v[2], v[3]>> \* kind, width, bytes
       [] k = "ip4" -> IF human THEN StrT(Ip4Text(v)) ELSE Octets(v)
       [] k = "ip6" -> IF human THEN StrT(Ip6Text(v)) ELSE Octets(v)
       [] k = "ip" -> LET x == SModel(m, [k |-> IF v[1] = 0 THEN "ip4" ELSE "ip6"], v[2]) IN IF human THEN x ELSE <<"var", VTag(v[1]), x>>
       [] k = "sock4" -> IF human THEN StrT(Sock4Text(v)) ELSE <<"seq", <<Octets(v[1]), <<"int", "u", 2, v[2]>>>>>>
       [] k = "sock6" -> IF human THEN StrT(Sock6Text(v)) ELSE <<"seq", <<Octets(v[1]), <<"int", "u", 2, v[2]>>>>>>
       [] k = "sock" -> LET x == SModel(m, [k |-> IF v[1] = 0 THEN "sock4" ELSE "sock6"], v[2]) IN IF human THEN x ELSE <<"var", VTag(v[1]), x>>
       [] k = "d" ->
            LET d == SDecl(t.n)
            IN IF d.k = "struct" THEN SBody(m, d, v)
               ELSE LET x == d.vars[v[1] + 1]
                        name == StrT(x.id)
                        body == SBody(m, x, v[2])
                    IN IF d.untagged = 1 THEN body
                       ELSE IF d.tag = <<>> THEN <<"var", name, body>>
                       ELSE IF d.content = <<>> THEN <<"map", <<<<StrT(d.tag), name>>>> \o (IF body = EmptyT THEN <<>> ELSE body[2])>>
                       ELSE <<"map", <<<<StrT(d.tag), <<"var", name, EmptyT>>>>>> \o (IF x.style = "unit" THEN <<>> ELSE <<<<StrT(d.content), body>>>>)>>
SBody(m, b, v) ==
  CASE b.style = "unit" -> EmptyT
    [] b.style = "newtype" -> SModel(m, b.fields[1].t, v[1])
    [] b.style = "tuple" -> <<"seq", [i \in 1..Len(v) |-> SModel(m, b.fields[i].t, v[i])]>>
    [] b.style = "named" -> LET is == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : ~(b.fields[i].skip = 1 /\ v[i] = <<>>))
                            IN <<"map", [j \in 1..Len(is) |-> <<StrT(b.fields[is[j]].id), SModel(m, b.fields[is[j]].t, v[is[j]])>>]>>

\* what is left of a value after it was written and read
RECURSIVE SNormal(_, _, _)
SNormal(m, t, v) ==
  CASE t.k = "opt" -> IF v = <<>> THEN <<>> ELSE <<SNormal(m, t.t, v[1])>>
    [] t.k \in {"seq", "set", "arr"} -> [i \in 1..Len(v) |-> SNormal(m, t.t, v[i])]
    [] t.k = "map" -> [i \in 1..Len(v) |-> <<v[i][1], SNormal(m, t.vt, v[i][2])>>]
    [] t.k \in {"tup", "rng"} -> [i \in 1..Len(v) |-> SNormal(m, t.ts[i], v[i])]
    [] t.k = "w" -> SNormal(m, t.t, v)
    [] t.k = "anyn" -> Wide(v[1] = "i", v[3])
    [] t.k = "sock6" -> IF m = "Text" THEN <<v[1], v[2], Zeros(4), v[4]>> ELSE <<v[1], v[2], Zeros(4), Zeros(4)>>
    [] t.k = "sock" -> <<v[1], SNormal(m, [k |-> IF v[1] = 0 THEN "sock4" ELSE "sock6"], v[2])>>
    [] OTHER -> v

\* serde writes paths as strings, so those which are none are refused
Unspoken(t, v) == t.k = "path" /\ ~Utf8Valid(v)
\* the first refusal of a value when it is written or read
RECURSIVE Refused(_, _, _)
Refused(t, v, at) ==
  CASE t.k = "boom" -> v = at
    [] t.k = "seq" -> \E i \in 1..Len(v) : Refused(t.t, v[i], at)
    [] t.k = "tup" -> \E i \in 1..Len(v) : Refused(t.ts[i], v[i], at)
    [] OTHER -> FALSE
=============================================================================
