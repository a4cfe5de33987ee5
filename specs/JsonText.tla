------------------------------ MODULE JsonText ------------------------------
(* JSON: the strict grammar (RFC 8259) of the first value of a text, the      *)
(* nearest float of a decimal number, what a value means as each type, and    *)
(* what document a value is written as.                                       *)
EXTENDS Codec

-----------------------------------------------------------------------------
\* Grammar.  Values: <<"null">> <<"bool", b>> <<"num", neg, digits, fraction,
\* exponent digits, exponent negative, has fraction or exponent>>
\* <<"str", bytes, valid UTF-8, has escapes>> <<"arr", values>>
\* <<"obj", <<key, value>>...>>.
\* Results: <<status, value, next>>; status is ok, or why there is no value:
\* "str" (escape, surrogate or control character), "eof" (unterminated) or
\* "open" (anything else).
Ws(ch) == ch \in {32, 9, 10, 13}
RECURSIVE SkipWs(_, _)
SkipWs(b, p) == IF p <= Len(b) /\ Ws(b[p]) THEN SkipWs(b, p + 1) ELSE p
No(why) == <<why, <<>>, 0>>
Digit(ch) == ch >= 48 /\ ch <= 57
RECURSIVE DigitsEnd(_, _)
DigitsEnd(b, p) == IF p <= Len(b) /\ Digit(b[p]) THEN DigitsEnd(b, p + 1) ELSE p
At(b, p) == IF p <= Len(b) THEN b[p] ELSE 0
PNum(b, p) ==
  LET neg == b[p] = 45
      i == IF neg THEN p + 1 ELSE p
      j == IF At(b, i) = 48 THEN i + 1 ELSE DigitsEnd(b, i)
      hasF == At(b, j) = 46
      k == IF hasF THEN DigitsEnd(b, j + 1) ELSE j
      hasE == At(b, k) \in {69, 101}
      s == IF hasE THEN (IF At(b, k + 1) \in {43, 45} THEN k + 2 ELSE k + 1) ELSE k
      e == IF hasE THEN DigitsEnd(b, s) ELSE k
      ok == j > i /\ (hasF => k > j + 1) /\ (hasE => e > s) /\ ~(Digit(At(b, e)) \/ At(b, e) \in {43, 45, 46, 69, 101})
  IN IF ok THEN <<"ok", <<"num", neg, SubSeq(b, i, j - 1), IF hasF THEN SubSeq(b, j + 1, k - 1) ELSE <<>>,
                         IF hasE THEN SubSeq(b, s, e - 1) ELSE <<>>, hasE /\ At(b, k + 1) = 45, hasF \/ hasE>>, e>>
     ELSE No("open")
Hex4(b, p) == \* the number of four hex digits, or -1
  IF p + 3 > Len(b) THEN -1 ELSE IF \E i \in 0..3 : DigitVal(b[p + i]) = 99 THEN -1 ELSE Radix(SubSeq(b, p, p + 3), 16, 0)
EscOf(ch) == CASE ch = 34 -> 34 [] ch = 92 -> 92 [] ch = 47 -> 47 [] ch = 98 -> 8 [] ch = 102 -> 12 [] ch = 110 -> 10 [] ch = 114 -> 13 [] ch = 116 -> 9 [] OTHER -> 0
RECURSIVE PStr(_, _, _, _, _)
PStr(b, p, acc, valid, esc) ==
  IF p > Len(b) THEN No("eof")
  ELSE LET ch == b[p]
       IN CASE ch = 34 -> <<"ok", <<"str", acc, valid, esc>>, p + 1>>
            [] ch < 32 -> No("str")
            [] ch = 92 ->
                 IF At(b, p + 1) # 117 THEN (IF EscOf(At(b, p + 1)) = 0 THEN No(IF p + 1 > Len(b) THEN "eof" ELSE "str") ELSE PStr(b, p + 2, acc \o <<EscOf(b[p + 1])>>, valid, TRUE))
                 ELSE LET h == Hex4(b, p + 2)
                          l == IF At(b, p + 6) = 92 /\ At(b, p + 7) = 117 THEN Hex4(b, p + 8) ELSE -1
                      IN IF h < 0 THEN No("str")
                         ELSE IF h >= 56320 /\ h <= 57343 THEN No("str")
                         ELSE IF h >= 55296 /\ h <= 56319
                         THEN (IF l < 56320 \/ l > 57343 THEN No("str")
                               ELSE PStr(b, p + 12, acc \o Utf8(65536 + (1024 * (h - 55296)) + (l - 56320)), valid, TRUE))
                         ELSE PStr(b, p + 6, acc \o Utf8(h), valid, TRUE)
            [] ch < 128 -> PStr(b, p + 1, acc \o <<ch>>, valid, esc)
            [] OTHER -> LET k == Utf8Step(b, p)
                        IN IF k = 0 THEN PStr(b, p + 1, acc \o <<ch>>, FALSE, esc) ELSE PStr(b, p + k, acc \o SubSeq(b, p, p + k - 1), valid, esc)
Word(b, p, w, v) ==
  LET n == Min2(Len(w), Len(b) + 1 - p)
  IN IF SubSeq(b, p, p + n - 1) # Take(w, n) THEN No("open") ELSE IF n < Len(w) THEN No("eof") ELSE <<"ok", v, p + n>>
RECURSIVE PVal(_, _), PArr(_, _, _), PObj(_, _, _)
PVal(b, p0) ==
  LET p == SkipWs(b, p0)
      ch == At(b, p)
      q == SkipWs(b, p + 1)
  IN IF p > Len(b) THEN No("eof")
     ELSE CASE ch = 123 -> IF At(b, q) = 125 THEN <<"ok", <<"obj", <<>>>>, q + 1>> ELSE PObj(b, q, <<>>)
            [] ch = 91 -> IF At(b, q) = 93 THEN <<"ok", <<"arr", <<>>>>, q + 1>> ELSE PArr(b, q, <<>>)
            [] ch = 34 -> PStr(b, p + 1, <<>>, TRUE, FALSE)
            [] ch = 45 \/ Digit(ch) -> PNum(b, p)
            [] ch = 116 -> Word(b, p, <<116, 114, 117, 101>>, <<"bool", 1>>)
            [] ch = 102 -> Word(b, p, <<102, 97, 108, 115, 101>>, <<"bool", 0>>)
            [] ch = 110 -> Word(b, p, <<110, 117, 108, 108>>, <<"null">>)
            [] OTHER -> No("open")
PArr(b, p, acc) ==
  LET r == PVal(b, p)
      q == SkipWs(b, r[3])
  IN IF r[1] # "ok" THEN r
     ELSE IF q > Len(b) THEN No("eof")
     ELSE IF b[q] = 44 THEN PArr(b, q + 1, acc \o <<r[2]>>)
     ELSE IF b[q] = 93 THEN <<"ok", <<"arr", acc \o <<r[2]>>>>, q + 1>>
     ELSE No("open")
PObj(b, p0, acc) ==
  LET p == SkipWs(b, p0)
      k == IF p > Len(b) THEN No("eof") ELSE IF b[p] # 34 THEN No("open") ELSE PStr(b, p + 1, <<>>, TRUE, FALSE)
      c == SkipWs(b, k[3])
      r == PVal(b, c + 1)
      q == SkipWs(b, r[3])
  IN IF k[1] # "ok" THEN k
     ELSE IF c > Len(b) THEN No("eof")
     ELSE IF b[c] # 58 THEN No("open")
     ELSE IF r[1] # "ok" THEN r
     ELSE IF q > Len(b) THEN No("eof")
     ELSE IF b[q] = 44 THEN PObj(b, q + 1, acc \o <<<<k[2], r[2]>>>>)
     ELSE IF b[q] = 125 THEN <<"ok", <<"obj", acc \o <<<<k[2], r[2]>>>>>>, q + 1>>
     ELSE No("open")

\* whether a value has a string in it which is not UTF-8
RECURSIVE Tainted(_)
Tainted(j) ==
  CASE j[1] = "str" -> ~j[3]
    [] j[1] = "arr" -> \E i \in 1..Len(j[2]) : Tainted(j[2][i])
    [] j[1] = "obj" -> \E i \in 1..Len(j[2]) : Tainted(j[2][i][1]) \/ Tainted(j[2][i][2])
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
\* Big naturals: little-endian limbs of 15 bits without leading zeros.
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE MulC(_, _, _, _)
MulC(a, i, m, c) == \* a[i..] * m + c, m <= 2^15
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE IF c < 32768 THEN <<c>> ELSE <<c % 32768, c \div 32768>>)
  ELSE LET x == (a[i] * m) + c IN <<x % 32768>> \o MulC(a, i + 1, m, x \div 32768)
BMul(a, m, c) == Trim(MulC(a, 1, m, c))
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == ByteAt(a, i) + ByteAt(b, i) + c IN <<x % 32768>> \o AddC(a, b, i + 1, x \div 32768)
RECURSIVE BTimes(_, _, _)
BTimes(a, b, i) == IF i > Len(a) THEN <<>> ELSE AddC(BMul(b, a[i], 0), <<0>> \o BTimes(a, b, i + 1), 1, 0)
Pow10000 == JsonDeserialize("powers.json") \* the powers of 10000 from 0
ASSUME Pow10000[1] = <<1>> /\ \A i \in 1..119 : Pow10000[i + 1] = BMul(Pow10000[i], 10000, 0)
RECURSIVE BPow10(_)
BPow10(n) ==
  IF n >= 480 THEN Trim(BTimes(BPow10(476), BPow10(n - 476), 1))
  ELSE LET x == Pow10000[1 + (n \div 4)] IN CASE n % 4 = 0 -> x [] n % 4 = 1 -> BMul(x, 10, 0) [] n % 4 = 2 -> BMul(x, 100, 0) [] OTHER -> BMul(x, 1000, 0)
BShl(a, n) == IF a = <<>> THEN a ELSE BMul(Zeros(n \div 15) \o a, 2 ^ (n % 15), 0)
RECURSIVE BDigits(_, _, _)
BDigits(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF i + 3 <= Len(s) THEN BDigits(s, i + 4, BMul(acc, 10000, (1000 * (s[i] - 48)) + (100 * (s[i + 1] - 48)) + (10 * (s[i + 2] - 48)) + (s[i + 3] - 48)))
  ELSE BDigits(s, i + 1, BMul(acc, 10, s[i] - 48))
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i - 1)
BLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessAt(a, b, Len(a))
RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET x == a[i] - ByteAt(b, i) - c IN IF x < 0 THEN <<x + 32768>> \o SubC(a, b, i + 1, 1) ELSE <<x>> \o SubC(a, b, i + 1, 0)
BSub(a, b) == Trim(SubC(a, b, 1, 0))
RECURSIVE BitLen15(_)
BitLen15(x) == IF x = 0 THEN 0 ELSE 1 + BitLen15(x \div 2)
BLen(a) == IF a = <<>> THEN 0 ELSE (15 * (Len(a) - 1)) + BitLen15(a[Len(a)])
\* <<limbs of a \div d, most significant first, remainder>>: n limbs, and the top limb of d has its highest bit set
RECURSIVE DivLimb(_, _, _)
DivLimb(a, d, q) == \* <<q + a \div d, a % d>>, when a \div d is less than 2^15
  IF BLess(a, d) THEN <<q, a>>
  ELSE LET n == Len(d)
           x == Max2(1, ((32768 * ByteAt(a, n + 1)) + a[n]) \div (d[n] + 1))
       IN DivLimb(BSub(a, BMul(d, x, 0)), d, q + x)
RECURSIVE BDiv(_, _, _)
BDiv(a, d, n) ==
  IF n = 0 THEN <<<<>>, a>>
  ELSE LET s == DivLimb(a, Zeros(n - 1) \o d, 0)
           t == BDiv(s[2], d, n - 1)
       IN <<<<s[1]>> \o t[1], t[2]>>
RECURSIVE IncBits(_)
IncBits(m) == \* <<carry, bits>>
  IF m = <<>> THEN <<1, m>> ELSE LET r == IncBits(Tail(m)) IN IF r[1] = 0 THEN <<0, <<m[1]>> \o r[2]>> ELSE IF m[1] = 1 THEN <<1, <<0>> \o r[2]>> ELSE <<0, <<1>> \o r[2]>>
BitsOf(n, w) == [i \in 1..w |-> (n \div (2 ^ (w - i))) % 2]
\* bytes, least significant first, of bits, most significant first
PackBits(s) == LET n == Len(s) \div 8 IN [i \in 1..n |-> LET o == Len(s) - (8 * i) IN (128 * s[o + 1]) + (64 * s[o + 2]) + (32 * s[o + 3]) + (16 * s[o + 4]) + (8 * s[o + 5]) + (4 * s[o + 6]) + (2 * s[o + 7]) + s[o + 8]]
\* the float of w bytes nearest to digits * 10^e, ties to even
Sig(w) == IF w = 8 THEN 53 ELSE 24
ExpBits(w) == IF w = 8 THEN 11 ELSE 8
MinExp(w) == IF w = 8 THEN 1074 ELSE 149
Bias(w) == IF w = 8 THEN 1023 ELSE 127
FloatBits(w, neg, ex, mant) == PackBits(<<IF neg THEN 1 ELSE 0>> \o BitsOf(ex, ExpBits(w)) \o mant)
InfOf(w, neg) == FloatBits(w, neg, (2 ^ ExpBits(w)) - 1, Zeros(Sig(w) - 1))
ZeroOf(w, neg) == FloatBits(w, neg, 0, Zeros(Sig(w) - 1))
RECURSIVE StripL(_)
StripL(s) == IF s = <<>> THEN s ELSE IF s[1] = 48 THEN StripL(Tail(s)) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 48 THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Nearest(w, neg, digits, e) ==
  LET ds == StripL(digits)
      p == Sig(w)
      a == IF e > 0 THEN Trim(BTimes(BDigits(ds, 1, <<>>), BPow10(e), 1)) ELSE BDigits(ds, 1, <<>>)
      d == IF e < 0 THEN BPow10(0 - e) ELSE <<1>>
      s == BLen(a) - BLen(d)
      k == Min2(p - s, MinExp(w))
      den0 == BShl(d, Max2(0 - k, 0))
      norm == 15 - BitLen15(den0[Len(den0)])
      den == BShl(den0, norm)
      num == BShl(a, Max2(k, 0) + norm)
      q == BDiv(num, den, 4)
      qs == BitsOf(q[1][1], 15) \o BitsOf(q[1][2], 15) \o BitsOf(q[1][3], 15) \o BitsOf(q[1][4], 15)
      wide == qs[60 - p] = 1
      cut == IF wide THEN SubSeq(qs, 60 - p, 59) ELSE SubSeq(qs, 61 - p, 60)
      k2 == IF wide THEN k - 1 ELSE k
      odd == cut[p] = 1
      twice == BMul(q[2], 2, 0)
      up == IF wide THEN qs[60] = 1 /\ (odd \/ q[2] # <<>>)
            ELSE BLess(den, twice) \/ (twice = den /\ odd)
      inc == IncBits(cut)
      m == IF ~up THEN cut ELSE IF inc[1] = 1 THEN <<1>> \o Zeros(p - 1) ELSE inc[2]
      k3 == IF up /\ inc[1] = 1 THEN k2 - 1 ELSE k2
      ex == IF m[1] = 1 THEN (p - 1) - k3 + Bias(w) ELSE 0
  IN IF ds = <<>> \/ e + Len(ds) < -400 THEN ZeroOf(w, neg)
     ELSE IF e + Len(ds) > 400 THEN InfOf(w, neg)
     ELSE IF ex >= (2 ^ ExpBits(w)) - 1 THEN InfOf(w, neg)
     ELSE FloatBits(w, neg, ex, Tail(m))
\* the exponent of a number, saturating
ExpOf(j) == LET s == StripL(j[5]) IN (IF j[6] THEN -1 ELSE 1) * (IF Len(s) > 6 THEN 999999 ELSE Radix(s, 10, 0))
FloatOf(w, j) == Nearest(w, j[2], j[3] \o j[4], ExpOf(j) - Len(j[4]))

-----------------------------------------------------------------------------
\* Meaning.  Verdicts: <<"ok", v>>; <<"err">>; <<"maybe", v>>: an error or v;
\* <<"open">>: anything.
Ok(v) == <<"ok", v>>
Err == <<"err">>
Open == <<"open">>
Force(s) == SubSeq(s, 1, Len(s)) \* a sequence whose elements are evaluated only once
All(vs) == \* of a sequence of verdicts
  LET rs == Force(vs) IN
  IF \E i \in 1..Len(rs) : rs[i][1] = "err" THEN Err
  ELSE IF \E i \in 1..Len(rs) : rs[i][1] = "open" THEN Open
  ELSE <<IF \E i \in 1..Len(rs) : rs[i][1] = "maybe" THEN "maybe" ELSE "ok", Force([i \in 1..Len(rs) |-> rs[i][2]])>>
On(r, F(_)) == IF r[1] \in {"ok", "maybe"} THEN <<r[1], F(r[2])>> ELSE r
Then(r, F(_)) == IF r[1] = "ok" THEN F(r[2]) ELSE IF r[1] # "maybe" THEN r
                 ELSE LET q == F(r[2]) IN IF q[1] = "ok" THEN <<"maybe", q[2]>> ELSE q
Soft(r) == IF r[1] = "ok" THEN <<"maybe", r[2]>> ELSE IF r[1] = "err" THEN Open ELSE r
Skipped(j, v) == IF Tainted(j) THEN <<"maybe", v>> ELSE Ok(v)
Sub(o) == IF Len(o) = 0 THEN Err ELSE Ok(o[1])

\* plain decimal digits as an integer type; a singleton or <<>>
AsInt(k, w, neg, digits) ==
  IF k \in {"u", "us"}
  THEN ParseDec(digits, w)
  ELSE LET m == ParseDec(digits, w)
           n == IF Len(m) = 0 THEN Zeros(w) ELSE IF neg THEN Negate(m[1]) ELSE m[1]
       IN IF Len(m) = 0 THEN <<>> ELSE IF AllZero(n) THEN <<n>> ELSE IF Neg(n) # neg THEN <<>> ELSE <<n>>
\* the whole number a decimal number is, as digits; <<0>> if it has a fraction
WholeOf(j) ==
  LET e == ExpOf(j)
      all == StripL(j[3] \o j[4])
      sh == e - Len(j[4])
      z == Len(all) - Len(StripR(all))
  IN IF all = <<>> THEN <<48>>
     ELSE IF sh >= 0 THEN (IF Len(all) + sh > 60 THEN Rep(57, 60) ELSE all \o Rep(48, sh))
     ELSE IF z + sh < 0 THEN <<0>> ELSE SubSeq(all, 1, Len(all) + sh)
SmallestInt(neg, digits) == \* the narrowest type of a whole number, in a singleton
  LET k == IF neg THEN "i" ELSE "u"
      fits == {w \in {1, 2, 4, 8, 16} : Len(AsInt(k, w, neg, digits)) = 1}
  IN IF fits = {} THEN <<>> ELSE LET w == MinOf(fits) IN <<<<"int", k, w, AsInt(k, w, neg, digits)[1]>>>>
\* whether a number in a value is kept as a float, which is converted when it is read as an integer
RECURSIVE Floats(_)
Floats(j) ==
  CASE j[1] = "num" -> j[7] \/ Len(SmallestInt(j[2], j[3])) = 0
    [] j[1] = "arr" -> \E i \in 1..Len(j[2]) : Floats(j[2][i])
    [] j[1] = "obj" -> \E i \in 1..Len(j[2]) : Floats(j[2][i][2])
    [] OTHER -> FALSE
JInt(full, k, w, j) ==
  IF j[1] # "num" THEN Err
  ELSE LET whole == WholeOf(j)
           signed == k \in {"i", "is"}
           val == IF whole = <<0>> THEN <<>> ELSE AsInt(k, w, j[2], whole)
           zero == whole = <<48>>
           definite == full /\ ExpOf(j) \in -999..999 /\ Len(ParseDec(j[3], w)) = 1 /\ Len(ParseDec(<<48>> \o StripR(j[4]), w)) = 1
       IN IF j[2] /\ ~signed THEN (IF zero THEN <<"maybe", Zeros(w)>> ELSE Err)
          ELSE IF Len(val) = 0 THEN Err
          ELSE IF j[7] /\ ~definite THEN <<"maybe", val[1]>>
          ELSE Ok(val[1])
JFloat(w, j) == IF j[1] # "num" THEN Err
                ELSE LET f == FloatOf(w, j) IN IF f = InfOf(w, j[2]) THEN <<"maybe", f>> ELSE Ok(f)
JStr(j, F(_)) == IF j[1] # "str" THEN Err ELSE IF ~j[3] THEN Err ELSE F(j[2])
JArr(j, F(_)) == IF j[1] # "arr" THEN Err ELSE F(j[2])
JBytes(full, j) == JArr(j, LAMBDA xs : On(All([i \in 1..Len(xs) |-> JInt(full, "u", 1, xs[i])]), LAMBDA vs : Flat(vs)))

\* the text of a number in a key: plain, other numbers (left open), or none
JKeyInt(full, k, w, s) ==
  LET neg == Len(s) > 0 /\ s[1] = 45
      ds == IF neg THEN Tail(s) ELSE s
      p == SkipWs(s, 1)
      n == IF p > Len(s) THEN No("open") ELSE IF s[p] = 45 \/ Digit(s[p]) THEN PNum(s, p) ELSE No("open")
      plain == Len(ds) > 0 /\ (\A i \in 1..Len(ds) : Digit(ds[i])) /\ (ds[1] # 48 \/ Len(ds) = 1)
  IN IF plain THEN (IF neg /\ k \in {"u", "us"} THEN (IF ds = <<48>> THEN <<"maybe", Zeros(w)>> ELSE Err) ELSE Sub(AsInt(k, w, neg, ds)))
     ELSE IF n[1] # "ok" THEN (IF \E i \in 1..Len(s) : ~(Digit(s[i]) \/ Ws(s[i]) \/ s[i] \in {43, 45, 46, 69, 101}) THEN Err ELSE Open)
     ELSE IF n[3] # Len(s) + 1 THEN Err
     ELSE Soft(JInt(full, k, w, n[2]))

\* what a type which can be a key makes of the text of one
RECURSIVE JKey(_, _, _, _)
JName(c, full, as, xs, s) ==
  IF NameKind(c.d, as, xs) = "us" THEN On(JKeyInt(full, "us", 8, s), LAMBDA n : NameHit(c, as, xs, UsT(n)))
  ELSE Ok(NameHit(c, as, xs, StrT(s)))
JUnitEnum(c, d, r) == Then(r, LAMBDA n : LET i == IF n = 0 THEN DefaultVariant(c, d) ELSE n IN IF i = 0 THEN Err ELSE Ok(<<i - 1, <<>>>>))
JIpKey(c, t, s) ==
  IF c.m # "Text" THEN Err
  ELSE Sub(CASE t.k = "ip4" -> Ip4Parse(s) [] t.k = "ip6" -> Ip6Parse(s) [] t.k = "sock4" -> Sock4Parse(s) [] OTHER -> Sock6Parse(s))
JKey(c, full, t, s) ==
  CASE t.k \in {"u", "i", "us", "is"} -> JKeyInt(full, t.k, t.w, s)
    [] t.k = "str" -> Ok(s)
    [] t.k = "nz" -> Then(JKey(c, full, t.t, s), LAMBDA v : IF AllZero(v) THEN Err ELSE Ok(v))
    [] t.k = "w" -> JKey(c, full, t.t, s)
    [] t.k \in {"ip4", "ip6", "sock4", "sock6"} -> JIpKey(c, t, s)
    [] t.k = "d" -> IF Decl(t.n).k = "struct" THEN Open
                    ELSE IF Tagging(c.d, Decl(t.n)) # "name" THEN Err
                    ELSE JUnitEnum(c, Decl(t.n), JName(c, full, Decl(t.n).attrs, Decl(t.n).vars, s))
    [] OTHER -> Err

\* Types which keep their meaning when they are read by way of a dynamic value
RECURSIVE Safe(_, _)
SafeKey(t) == t.k \in {"u", "i", "us", "is", "str"}
SafeDecl(m, d) == d.k = "struct" /\ Packing(m, d.attrs) = "map" /\ d.style # "unit" /\ \A i \in 1..Len(d.fields) :
  ~Has(d.fields[i].attrs, m, "with") /\ ~Has(d.fields[i].attrs, m, "bytes") /\ ~Has(d.fields[i].attrs, m, "packed") /\ Safe(m, d.fields[i].t)
Safe(m, t) ==
  CASE t.k \in {"u", "i", "us", "is", "bool", "str"} -> TRUE
    [] t.k \in {"seq", "set", "w"} -> Safe(m, t.t)
    [] t.k = "map" -> SafeKey(t.kt) /\ Safe(m, t.vt)
    [] t.k = "d" -> SafeDecl(m, Decl(t.n))
    [] OTHER -> FALSE
SafeBody(m, x) == Packing(m, x.attrs) = "map" /\ \A i \in 1..Len(x.fields) :
  ~Has(x.fields[i].attrs, m, "with") /\ ~Has(x.fields[i].attrs, m, "bytes") /\ ~Has(x.fields[i].attrs, m, "packed") /\ Safe(m, x.fields[i].t)

Borrowed(t) == "ref" \in DOMAIN t
\* full: whether numbers with a fraction or exponent are read as integers when they are whole
RECURSIVE JDec(_, _, _, _), JDecl(_, _, _, _), JBody(_, _, _, _), JField(_, _, _, _), JFields(_, _, _, _, _, _)
JSeq(c, full, ts, xs) == \* types of the elements read, which may be followed by more
  IF Len(xs) < Len(ts) THEN Err
  ELSE Then(All([i \in 1..Len(ts) |-> JDec(c, full, ts[i], xs[i])]), LAMBDA vs : IF \E i \in (Len(ts) + 1)..Len(xs) : Tainted(xs[i]) THEN <<"maybe", vs>> ELSE Ok(vs))
JVar(c, full, names, j, T(_)) == \* a variant with one of two standard names
  IF j[1] # "obj" THEN Err
  ELSE IF Len(j[2]) # 1 THEN Err
  ELSE IF ~j[2][1][1][3] THEN Err
  ELSE LET s == j[2][1][1][2]
           n == IF c.m = "Text" THEN (IF s = names[1] THEN Ok(0) ELSE IF s = names[2] THEN Ok(1) ELSE Err)
                ELSE Then(JKeyInt(full, "us", 8, s), LAMBDA x : IF Small(x) > 1 THEN Err ELSE Ok(x[1]))
       IN Then(n, LAMBDA i : On(T(i), LAMBDA v : <<i, v>>))
JDec(c, full, t, j) ==
  CASE t.k \in {"u", "i", "us", "is"} -> JInt(full, t.k, t.w, j)
    [] t.k = "f" -> JFloat(t.w, j)
    [] t.k = "bool" -> IF j[1] = "bool" THEN Ok(j[2]) ELSE Err
    [] t.k = "char" -> JStr(j, LAMBDA s : LET cs == Chars(s, 1) IN IF Len(cs) = 1 THEN Ok(cs[1]) ELSE Err)
    [] t.k = "unit" -> Skipped(j, <<>>)
    [] t.k = "rfull" -> IF j[1] = "arr" THEN Skipped(j, <<>>) ELSE Err
    [] t.k = "str" -> JStr(j, LAMBDA s : IF Borrowed(t) /\ j[4] THEN <<"maybe", s>> ELSE Ok(s))
    [] t.k = "cstr" -> Then(JBytes(full, j), LAMBDA s : IF Len(s) > 0 /\ s[Len(s)] = 0 /\ (\A i \in 1..(Len(s) - 1) : s[i] # 0) THEN Ok(Take(s, Len(s) - 1)) ELSE Err)
    [] t.k = "rbytes" -> Open
    [] t.k \in {"ip4", "ip6"} -> IF c.m = "Text" THEN JStr(j, LAMBDA s : JIpKey(c, t, s))
                                 ELSE Then(JBytes(full, j), LAMBDA s : IF Len(s) = (IF t.k = "ip4" THEN 4 ELSE 16) THEN Ok(s) ELSE Err)
    [] t.k = "ip" -> JVar(c, full, <<IpTag("Text", 0)[2], IpTag("Text", 1)[2]>>, j, LAMBDA i : JDec(c, full, [k |-> IF i = 0 THEN "ip4" ELSE "ip6"], j[2][1][2]))
    [] t.k \in {"sock4", "sock6"} -> IF c.m = "Text" THEN JStr(j, LAMBDA s : JIpKey(c, t, s)) ELSE JArr(j, LAMBDA xs : JSeq(c, full, SockTypes(t.k), xs))
    [] t.k = "sock" -> JVar(c, full, <<SockTag("Text", 0)[2], SockTag("Text", 1)[2]>>, j, LAMBDA i : JDec(c, full, [k |-> IF i = 0 THEN "sock4" ELSE "sock6"], j[2][1][2]))
    [] t.k = "path" -> On(JVar(c, full, <<UnixTag("Text")[2], <<>>>>, j, LAMBDA i : IF i = 0 THEN JBytes(full, j[2][1][2]) ELSE Err), LAMBDA v : v[2])
    [] t.k = "nz" -> Then(JDec(c, full, t.t, j), LAMBDA v : IF AllZero(v) THEN Err ELSE Ok(v))
    [] t.k = "opt" -> IF j[1] = "null" THEN Ok(<<>>) ELSE On(JDec(c, full, t.t, j), LAMBDA v : <<v>>)
    [] t.k = "seq" -> JArr(j, LAMBDA xs : All([i \in 1..Len(xs) |-> JDec(c, full, t.t, xs[i])]))
    [] t.k = "set" -> JArr(j, LAMBDA xs : On(All([i \in 1..Len(xs) |-> JDec(c, full, t.t, xs[i])]), LAMBDA vs : SetOf(t, vs)))
    [] t.k = "map" -> IF j[1] # "obj" THEN Err
                      ELSE On(All([i \in 1..Len(j[2]) |-> IF ~j[2][i][1][3] THEN Err
                                                           ELSE All(<<IF Borrowed(t.kt) /\ j[2][i][1][4] THEN Soft(JKey(c, full, t.kt, j[2][i][1][2])) ELSE JKey(c, full, t.kt, j[2][i][1][2]), JDec(c, full, t.vt, j[2][i][2])>>)]),
                              LAMBDA xs : Entries(t.kt, xs))
    [] t.k \in {"tup", "rng"} -> JArr(j, LAMBDA xs : JSeq(c, full, t.ts, xs))
    [] t.k = "arr" -> JArr(j, LAMBDA xs : IF Len(xs) # t.n THEN Err ELSE All([i \in 1..t.n |-> JDec(c, full, t.t, xs[i])]))
    [] t.k = "res" -> JVar(c, full, <<OkId, ErrId>>, j, LAMBDA i : JDec(c, full, IF i = 0 THEN t.t ELSE t.e, j[2][1][2]))
    [] t.k = "w" -> JDec(c, full, t.t, j)
    [] t.k = "d" -> JDecl(c, full, t.n, j)
JDecl(c, full, dn, j) ==
  LET d == Decl(dn)
      tag == Tagging(c.d, d)
      dv == DefaultVariant(c, d)
      key(i) == j[2][i][1]
      hit(i, l) == IF ~key(i)[3] THEN Err \* whether the key of an entry is a literal
                   ELSE IF l[1] = "str" THEN Ok(key(i)[2] = l[2]) ELSE On(JKeyInt(full, "us", 8, key(i)[2]), LAMBDA v : v = l[Len(l)])
      named(q) == IF NameKind(c.d, d.attrs, d.vars) = "us" THEN On(JInt(full, "us", 8, q), LAMBDA v : NameHit(c, d.attrs, d.vars, UsT(v)))
                  ELSE JStr(q, LAMBDA s : Ok(NameHit(c, d.attrs, d.vars, StrT(s))))
      body(n, q) == On(JBody(c, full, d.vars[n], q), LAMBDA v : <<n - 1, v>>)
  IN IF d.k = "struct" THEN JBody(c, full, d, j)
     ELSE CASE tag = "untagged" ->
                 LET rs == Force([i \in 1..Len(d.vars) |-> body(i, j)])
                     s == {i \in 1..Len(rs) : rs[i][1] # "err"}
                 IN IF s = {} THEN Err ELSE LET i == MinOf(s) IN IF rs[i][1] = "ok" THEN rs[i] ELSE IF Cardinality(s) = 1 THEN rs[i] ELSE Open
            [] tag = "name" -> JUnitEnum(c, d, named(j))
            [] tag = "external" ->
                 IF j[1] # "obj" THEN Err
                 ELSE IF Len(j[2]) # 1 THEN Err
                 ELSE IF ~key(1)[3] THEN Err
                 ELSE Then(JName(c, full, d.attrs, d.vars, key(1)[2]),
                           LAMBDA n : IF n # 0 THEN body(n, j[2][1][2]) ELSE IF dv = 0 THEN Err ELSE Skipped(j, <<dv - 1, <<>>>>))
            [] tag = "internal" ->
                 IF j[1] # "obj" THEN Err
                 ELSE IF Tainted(j) THEN Err
                 ELSE LET l == Lit(Attr(d.attrs, c.d, "tag")[1])
                          hs == Force([i \in 1..Len(j[2]) |-> hit(i, l)])
                          s == {i \in 1..Len(hs) : hs[i][1] = "ok" /\ hs[i][2]}
                          i == IF s = {} THEN 0 ELSE MinOf(s)
                      IN IF \E k \in 1..(IF i = 0 THEN Len(hs) ELSE i - 1) : hs[k][1] # "ok" THEN Open
                         ELSE IF i = 0 THEN Err
                         ELSE IF Floats(j[2][i][2]) THEN Open
                         ELSE Then(named(j[2][i][2]), LAMBDA n : IF n = 0 THEN Err
                                   ELSE LET r == body(n, j) IN IF Floats(j) THEN Open ELSE IF SafeBody(c.d, d.vars[n]) THEN r ELSE Soft(r))
            [] tag = "adjacent" ->
                 IF j[1] # "obj" THEN Err
                 ELSE LET l == Lit(Attr(d.attrs, c.d, "tag")[1])
                          m == Lit(Attr(d.attrs, c.d, "content")[1])
                          n == Len(j[2])
                          hl == Force([i \in 1..n |-> hit(i, l)])
                          hm == Force([i \in 1..n |-> hit(i, m)])
                          cs == {i \in 1..n : hm[i][1] = "ok" /\ hm[i][2]}
                          at == IF cs = {} THEN 0 ELSE MinOf(cs)
                          ts == {i \in 1..(at - 1) : hl[i][1] = "ok" /\ hl[i][2]}
                          odd == \E i \in 1..n : hl[i][1] # "ok" \/ Tainted(j[2][i][1]) \/ (i > at /\ Tainted(j[2][i][2])) \/ (hl[i][1] = "ok" /\ hl[i][2] /\ i > at)
                      IN IF \E i \in 1..(IF at = 0 THEN n ELSE at) : hl[i][1] = "err" THEN Err
                         ELSE IF odd \/ (at # 0 /\ ts = {}) \/ Cardinality(ts) > 1 THEN Open
                         ELSE IF at = 0 THEN Err
                         ELSE Then(named(j[2][MaxOf(ts)][2]), LAMBDA k : IF k = 0 THEN Err ELSE body(k, j[2][at][2]))
JField(c, full, f, j) ==
  IF Has(f.attrs, c.d, "with")
  THEN (IF Attr(f.attrs, c.d, "with")[1] = "wide"
        THEN Then(JInt(full, "u", 8, j), LAMBDA v : IF AllZero(Drop(v, 4)) THEN Ok(Take(v, 4)) ELSE Err)
        ELSE On(JDec(c, full, [k |-> "seq", t |-> [k |-> "char"]], j), LAMBDA cs : Flat([i \in 1..Len(cs) |-> Utf8(cs[Len(cs) + 1 - i])])))
  ELSE IF Has(f.attrs, c.d, "bytes")
  THEN Then(JBytes(full, j), LAMBDA s : IF f.t.k = "arr" /\ Len(s) # (IF f.t.k = "arr" THEN f.t.n ELSE 0) THEN Err ELSE Ok([i \in 1..Len(s) |-> <<s[i]>>]))
  ELSE IF Has(f.attrs, c.d, "packed")
  THEN JArr(j, LAMBDA xs : JSeq(c, full, IF f.t.k = "arr" THEN [i \in 1..f.t.n |-> f.t.t] ELSE f.t.ts, xs))
  ELSE JDec(c, full, f.t, j)
\* the entries from the i-th; got: the fields read so far
JFields(c, full, st, es, i, got) ==
  IF i > Len(es) THEN Ok(got)
  ELSE IF ~es[i][1][3] THEN Err
  ELSE Then(JName(c, full, st.attrs, st.fields, es[i][1][2]),
            LAMBDA n : LET r == IF n = 0 THEN Skipped(es[i][2], <<>>) ELSE JField(c, full, st.fields[n], es[i][2])
                           g == IF r[1] \in {"ok", "maybe"} THEN (IF n = 0 THEN got ELSE [got EXCEPT ![n] = <<r[2]>>]) ELSE got
                           rest == JFields(c, full, st, es, i + 1, g)
                       IN IF r[1] = "err" \/ rest[1] = "err" THEN Err ELSE IF r[1] = "open" \/ rest[1] = "open" THEN Open
                          ELSE IF r[1] = "maybe" THEN <<"maybe", rest[2]>> ELSE rest)
JBody(c, full, st, j) ==
  LET pk == Packing(c.d, st.attrs)
      fs == st.fields
      live == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : ~Has(fs[i].attrs, c.d, "skip"))
  IN IF st.style = "unit" /\ pk # "packed" THEN (IF j[1] = "obj" THEN Skipped(j, <<>>) ELSE Err)
     ELSE CASE pk = "packed" ->
                 JArr(j, LAMBDA xs : IF Len(xs) < Len(live) THEN Err
                                     ELSE Then(All([i \in 1..Len(live) |-> JField(c, full, fs[live[i]], xs[i])]),
                                               LAMBDA vs : LET v == [k \in 1..Len(fs) |-> IF Has(fs[k].attrs, c.d, "skip") THEN FieldDefault(c.d, fs[k]) ELSE vs[CHOOSE i \in 1..Len(live) : live[i] = k]]
                                                           IN IF \E i \in (Len(live) + 1)..Len(xs) : Tainted(xs[i]) THEN <<"maybe", v>> ELSE Ok(v)))
            [] pk = "transparent" -> On(JField(c, full, fs[live[1]], j), LAMBDA v : [k \in 1..Len(fs) |-> IF k = live[1] THEN v ELSE FieldDefault(c.d, fs[k])])
            [] OTHER ->
                 IF j[1] # "obj" THEN Err
                 ELSE Then(JFields(c, full, st, j[2], 1, [i \in 1..Len(fs) |-> <<>>]),
                           LAMBDA got : IF \E i \in 1..Len(fs) : Len(got[i]) = 0 /\ ~Defaulted(c.d, fs[i]) THEN Err
                                        ELSE Ok([i \in 1..Len(fs) |-> IF Len(got[i]) = 0 THEN FieldDefault(c.d, fs[i]) ELSE got[i][1]]))

\* as a dynamic value
RECURSIVE JAny(_)
JAny(j) ==
  CASE j[1] = "null" -> Ok(<<"unit">>)
    [] j[1] = "bool" -> Ok(<<"bool", j[2]>>)
    [] j[1] = "str" -> IF j[3] THEN Ok(<<"str", j[2]>>) ELSE Err
    [] j[1] = "arr" -> On(All([i \in 1..Len(j[2]) |-> JAny(j[2][i])]), LAMBDA vs : <<"seq", vs>>)
    [] j[1] = "obj" -> On(All([i \in 1..Len(j[2]) |-> All(<<IF j[2][i][1][3] THEN Ok(<<"str", j[2][i][1][2]>>) ELSE Err, JAny(j[2][i][2])>>)]), LAMBDA vs : <<"map", vs>>)
    [] OTHER -> LET whole == WholeOf(j)
                    n == IF whole = <<0>> THEN <<>> ELSE SmallestInt(j[2], whole)
                    f == <<"int", "f", 8, FloatOf(8, j)>>
                IN IF ~j[7] THEN (IF Len(n) = 1 THEN Ok(n[1]) ELSE Ok(f))
                   ELSE IF whole = <<0>> THEN Ok(f)
                   ELSE IF Len(n) = 0 THEN (IF f[4] = InfOf(8, j[2]) THEN Open ELSE Ok(f)) ELSE Ok(<<"num", n[1], f>>)
\* a number written with a fraction or exponent which is whole is either one
RECURSIVE AnySame(_, _)
AnySame(e, g) ==
  IF e[1] = "num" THEN g = e[2] \/ g = e[3]
  ELSE IF e[1] # g[1] THEN FALSE
  ELSE IF e[1] = "seq" THEN Len(e[2]) = Len(g[2]) /\ \A i \in 1..Len(e[2]) : AnySame(e[2][i], g[2][i])
  ELSE IF e[1] = "map" THEN Len(e[2]) = Len(g[2]) /\ \A i \in 1..Len(e[2]) : e[2][i][1] = g[2][i][1] /\ AnySame(e[2][i][2], g[2][i][2])
  ELSE e = g

-----------------------------------------------------------------------------
\* Writing: the text of a term as a key, in a singleton; whether a document denotes a term
KeyText(t) == CASE t[1] = "str" -> <<t[2]>> [] t[1] = "int" /\ t[2] # "f" -> <<Decimal(t[2] \in {"i", "is"}, t[4])>> [] OTHER -> <<>>
RECURSIVE Writable(_), Denotes(_, _), Finite(_)
Writable(t) ==
  CASE t[1] = "some" -> Writable(t[2])
    [] t[1] \in {"seq", "fseq", "pack", "fpack"} -> \A i \in 1..Len(t[2]) : Writable(t[2][i])
    [] t[1] = "map" -> \A i \in 1..Len(t[2]) : Len(KeyText(t[2][i][1])) = 1 /\ Writable(t[2][i][2])
    [] t[1] = "var" -> Len(KeyText(t[2])) = 1 /\ Writable(t[3])
    [] OTHER -> TRUE
FiniteF(w, v) == LET e == ((256 * v[w]) + v[w - 1]) % 32768 IN IF w = 8 THEN (e \div 16) # 2047 ELSE (e \div 128) # 255
Finite(t) ==
  CASE t[1] = "int" /\ t[2] = "f" -> FiniteF(t[3], t[4])
    [] t[1] = "some" -> Finite(t[2])
    [] t[1] \in {"seq", "fseq", "pack", "fpack"} -> \A i \in 1..Len(t[2]) : Finite(t[2][i])
    [] t[1] = "map" -> \A i \in 1..Len(t[2]) : Finite(t[2][i][2])
    [] t[1] = "var" -> Finite(t[3])
    [] OTHER -> TRUE
IsKey(j, k) == Len(KeyText(k)) = 1 /\ j[3] /\ j[2] = KeyText(k)[1]
Denotes(t, j) ==
  CASE t[1] = "int" /\ t[2] = "f" -> j[1] = "num" /\ FloatOf(t[3], j) = t[4]
    [] t[1] = "int" -> LET s == t[2] \in {"i", "is"}
                           d == Decimal(s, t[4])
                       IN j[1] = "num" /\ ~j[7] /\ (IF j[2] THEN <<45>> ELSE <<>>) \o j[3] = d
    [] t[1] = "bool" -> j = <<"bool", t[2]>>
    [] t[1] = "char" -> j[1] = "str" /\ j[3] /\ j[2] = Utf8(t[2])
    [] t[1] = "str" -> j[1] = "str" /\ j[3] /\ j[2] = t[2]
    [] t[1] \in {"bytes", "array"} -> j[1] = "arr" /\ Len(j[2]) = Len(t[2]) /\ \A i \in 1..Len(t[2]) : Denotes(<<"int", "u", 1, <<t[2][i]>>>>, j[2][i])
    [] t[1] \in {"empty", "fempty", "none"} -> j = <<"null">>
    [] t[1] = "some" -> Denotes(t[2], j)
    [] t[1] \in {"seq", "fseq", "pack", "fpack"} -> j[1] = "arr" /\ Len(j[2]) = Len(t[2]) /\ \A i \in 1..Len(t[2]) : Denotes(t[2][i], j[2][i])
    [] t[1] = "map" -> j[1] = "obj" /\ Len(j[2]) = Len(t[2]) /\ \A i \in 1..Len(t[2]) : IsKey(j[2][i][1], t[2][i][1]) /\ Denotes(t[2][i][2], j[2][i][2])
    [] t[1] = "var" -> j[1] = "obj" /\ Len(j[2]) = 1 /\ IsKey(j[2][1][1], t[2]) /\ Denotes(t[3], j[2][1][2])
=============================================================================
