------------------------------ MODULE JsonModel ------------------------------
(* JSON is what P07-P09 say of it, for small values of all types written in  *)
(* several ways: plainly, with every space there may be, with every character *)
(* escaped, and with short escapes.  Each is one document which denotes the   *)
(* term, means the value again wherever it stands, is nothing when it ends    *)
(* early, and means the same in every way of writing it.                     *)
EXTENDS Values, JsonText

CONSTANTS Modes, Styles, Types, Most
VARIABLES mode, style, ty, at
T == TypeOf(ty)
V == Vals(T, 1)[at]
C == Codec("json", mode, "d")
Term == Model(mode, T, V, FALSE)

AllTypes == DOMAIN J.types

Init == mode \in Modes /\ style \in Styles /\ ty \in Types /\ at = 0
Next == at < Min2(Most, Len(Vals(T, 1))) /\ at' = at + 1 /\ UNCHANGED <<mode, style, ty>>

\* ---- writing ----
Hex(ch) == <<Hex1(ch \div 4096), Hex1((ch \div 256) % 16), Hex1((ch \div 16) % 16), Hex1(ch % 16)>>
U(ch) == <<92, 117>> \o Hex(ch)
Short(ch) == CASE ch = 34 -> 34 [] ch = 92 -> 92 [] ch = 47 -> 47 [] ch = 8 -> 98 [] ch = 12 -> 102 [] ch = 10 -> 110 [] ch = 13 -> 114 [] ch = 9 -> 116 [] OTHER -> 0
Ch(s, ch) ==
  IF s = "u" THEN (IF ch < 65536 THEN U(ch) ELSE U(55296 + ((ch - 65536) \div 1024)) \o U(56320 + ((ch - 65536) % 1024)))
  ELSE IF s = "s" /\ Short(ch) # 0 THEN <<92, Short(ch)>>
  ELSE IF ch < 32 \/ ch = 34 \/ ch = 92 THEN U(ch) ELSE Utf8(ch)
Quoted(s, text) == LET cs == Chars(text, 1) IN <<34>> \o Flat([i \in 1..Len(cs) |-> Ch(s, cs[i])]) \o <<34>>
Sp(s) == IF s = "w" THEN <<32, 10, 9, 13>> ELSE <<>>
Sep(s, xs) == Flat([i \in 1..Len(xs) |-> (IF i = 1 THEN <<>> ELSE <<44>>) \o Sp(s) \o xs[i] \o Sp(s)])
\* the decimal text of the floats there are in Values
Neg0 == <<45, 48, 46, 48>>
FloatText(w, v) ==
  CASE AllZero(v) -> <<48, 46, 48>>
    [] v = Top(0, 128, w) -> Neg0
    [] v = <<0, 0, 128, 63>> \/ v = <<0, 0, 0, 0, 0, 0, 240, 63>> -> <<49>>
    [] v = <<1, 0, 0, 0>> -> <<49, 101, 45, 52, 53>>
    [] OTHER -> <<49, 46, 55, 57, 55, 54, 57, 51, 49, 51, 52, 56, 54, 50, 51, 49, 53, 55, 69, 43, 51, 48, 56>>
RECURSIVE Write(_, _)
Write(s, t) ==
  CASE t[1] = "int" /\ t[2] = "f" -> FloatText(t[3], t[4])
    [] t[1] = "int" -> Decimal(t[2] \in {"i", "is"}, t[4])
    [] t[1] = "bool" -> IF t[2] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
    [] t[1] = "char" -> Quoted(s, Utf8(t[2]))
    [] t[1] = "str" -> Quoted(s, t[2])
    [] t[1] \in {"bytes", "array"} -> <<91>> \o Sep(s, [i \in 1..Len(t[2]) |-> Decimal(FALSE, <<t[2][i]>>)]) \o <<93>>
    [] t[1] \in {"empty", "fempty", "none"} -> <<110, 117, 108, 108>>
    [] t[1] = "some" -> Write(s, t[2])
    [] t[1] \in {"seq", "fseq", "pack", "fpack"} -> <<91>> \o Sep(s, [i \in 1..Len(t[2]) |-> Write(s, t[2][i])]) \o <<93>>
    [] t[1] = "map" -> <<123>> \o Sep(s, [i \in 1..Len(t[2]) |-> Quoted(s, KeyText(t[2][i][1])[1]) \o Sp(s) \o <<58>> \o Sp(s) \o Write(s, t[2][i][2])]) \o <<125>>
    [] t[1] = "var" -> <<123>> \o Sp(s) \o Quoted(s, KeyText(t[2])[1]) \o <<58>> \o Write(s, t[3]) \o Sp(s) \o <<125>>

\* ---- what can be told apart ----
RECURSIVE Subs(_, _)
Subs(t, d) ==
  <<t>> \o IF d > 5 THEN <<>>
  ELSE CASE t.k \in {"nz", "opt", "seq", "set", "arr", "w"} -> Subs(t.t, d + 1)
       [] t.k = "map" -> Subs(t.kt, d + 1) \o Subs(t.vt, d + 1)
       [] t.k = "res" -> Subs(t.t, d + 1) \o Subs(t.e, d + 1)
       [] t.k \in {"tup", "rng"} -> Flat([i \in 1..Len(t.ts) |-> Subs(t.ts[i], d + 1)])
       [] t.k = "d" -> LET x == Decl(t.n)
                           fs == IF x.k = "struct" THEN x.fields ELSE Flat([i \in 1..Len(x.vars) |-> x.vars[i].fields])
                       IN Flat([i \in 1..Len(fs) |-> Subs(fs[i].t, d + 1)])
       [] OTHER -> <<>>
Within(t, P(_)) == LET s == Subs(t, 0) IN \E i \in 1..Len(s) : P(s[i])
\* an option of what may be null itself, and what is read by way of a dynamic value
RECURSIVE Nullish(_, _)
Nullish(t, d) ==
  CASE t.k \in {"opt", "unit"} -> TRUE
    [] t.k = "w" -> Nullish(t.t, d)
    [] t.k = "d" /\ d < 4 -> LET x == Decl(t.n)
                                 bs == IF x.k = "struct" THEN <<x>> ELSE x.vars
                             IN \E i \in 1..Len(bs) : Packing(mode, bs[i].attrs) = "transparent" /\ \E j \in 1..Len(bs[i].fields) : Nullish(bs[i].fields[j].t, d + 1)
    [] OTHER -> FALSE
Lost(t) == \/ t.k = "opt" /\ Nullish(t.t, 0)
           \/ Sided(t) \/ t.k = "rbytes" \/ (Borrowed(t) /\ style \in {"u", "s"})
           \/ t.k = "d" /\ Decl(t.n).k = "enum" /\ Tagging(mode, Decl(t.n)) \in {"internal", "untagged"}
Exact == ~Within(T, Lost)

-----------------------------------------------------------------------------
Able == at > 0 /\ Writable(Term)
Doc == Write(style, Term)
Number(b) == b # <<>> /\ (b[1] = 45 \/ Digit(b[1]))
Parsed == Able => LET b == Doc
                  IN /\ \A s \in {<<>>, <<32, 93>>, <<44, 49>>, <<125>>} : LET p == PVal(b \o s, 1) IN p[1] = "ok" /\ p[3] = Len(b) + 1
                     /\ Denotes(Term, PVal(b, 1)[2])
Same == Able => PVal(Doc, 1)[2] = PVal(Write("c", Term), 1)[2] \/ style \in {"u", "s"}
Meaning == (Able /\ Exact) => \A full \in {TRUE, FALSE} :
             LET e == JDec(C, full, T, PVal(Doc, 1)[2]) IN e[1] = "ok" /\ e[2] = Normal(mode, T, V)
\* escapes do not change what is meant
Escaped == (Able /\ ~Within(T, Borrowed)) => \A full \in {TRUE, FALSE} : JDec(C, full, T, PVal(Doc, 1)[2]) = JDec(C, full, T, PVal(Write("c", Term), 1)[2])
Cut == Able => LET b == Doc IN ~Number(b) => \A n \in 0..(Len(b) - 1) : (n < 40 \/ n > Len(b) - 4) => PVal(Take(b, n), 1)[1] # "ok"
=============================================================================
