-------------------------------- MODULE Num --------------------------------
(* Numbers of any width as little-endian byte strings: variable-length      *)
(* (7 bits per byte) representation, zigzag, widening and comparison.       *)
EXTENDS Bytes

Pow2(n) == 2 ^ n
ByteAt(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
AllZero(v) == \A i \in 1..Len(v) : v[i] = 0

\* the i-th group (from 1) of seven bits
Group(v, i) ==
  LET s == 7 * (i - 1)
      q == s \div 8
      r == s % 8
  IN ((ByteAt(v, q + 1) + 256 * ByteAt(v, q + 2)) \div Pow2(r)) % 128
VarEnc(v) ==
  LET g == ((8 * Len(v)) + 6) \div 7
      nz == {i \in 1..g : Group(v, i) # 0}
      n == IF nz = {} THEN 1 ELSE MaxOf(nz)
  IN [i \in 1..n |-> Group(v, i) + (IF i < n THEN 128 ELSE 0)]

\* Read a variable-length number of w bytes at p..e; <<>> when there is none.
RECURSIVE VarEnd(_, _, _, _)
VarEnd(b, p, e, left) == IF p > e \/ left = 0 THEN 0 ELSE IF b[p] < 128 THEN p ELSE VarEnd(b, p + 1, e, left - 1)
VarDec(w, b, p, e) ==
  LET n == ((8 * w) + 6) \div 7
      x == VarEnd(b, p, e, n)
      k == x - p + 1
      g(i) == IF i <= k THEN b[p + i - 1] % 128 ELSE 0
      spare == (8 * w) - (7 * (n - 1))
      val == [j \in 1..w |-> LET s == 8 * (j - 1)
                                 q == s \div 7
                                 r == s % 7
                             IN ((g(q + 1) + 128 * g(q + 2) + 16384 * g(q + 3)) \div Pow2(r)) % 256]
  IN IF x = 0 THEN <<>>
     ELSE IF k = n /\ g(n) >= Pow2(spare) THEN <<>>
     ELSE <<val, x + 1>>

\* Two's complement and zigzag
Neg(v) == v[Len(v)] >= 128
Shl1(v, bit) == [i \in 1..Len(v) |-> ((2 * v[i]) % 256) + (IF i = 1 THEN bit ELSE v[i - 1] \div 128)]
Shr1(v) == [i \in 1..Len(v) |-> (v[i] \div 2) + 128 * (ByteAt(v, i + 1) % 2)]
Flip(v) == [i \in 1..Len(v) |-> 255 - v[i]]
Zig(v) == IF Neg(v) THEN Shl1(Flip(v), 1) ELSE Shl1(v, 0)
Unzig(v) == IF v[1] % 2 = 1 THEN Flip(Shr1(v)) ELSE Shr1(v)

\* A number of any integer type as 17 bytes of two's complement
Wide(signed, v) == [i \in 1..17 |-> IF i <= Len(v) THEN v[i] ELSE IF signed /\ Neg(v) THEN 255 ELSE 0]
Fits(x, signed, w) ==
  IF signed THEN LET f == IF x[w] >= 128 THEN 255 ELSE 0 IN \A i \in (w + 1)..17 : x[i] = f
  ELSE \A i \in (w + 1)..17 : x[i] = 0
\* convert to another integer type: the same number or nothing
Convert(x, signed, w) == IF Fits(x, signed, w) THEN <<Take(x, w)>> ELSE <<>>

\* as a small natural, everything out of reach of any input being equally large
Huge == 16777216
Small(v) == IF \E i \in 4..Len(v) : v[i] # 0 THEN Huge ELSE ByteAt(v, 1) + (256 * ByteAt(v, 2)) + (65536 * ByteAt(v, 3))

\* code points of a (valid) UTF-8 string
RECURSIVE Chars(_, _)
Chars(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET k == Utf8Step(s, i)
           c == CASE k = 1 -> s[i]
                  [] k = 2 -> ((s[i] - 192) * 64) + (s[i + 1] - 128)
                  [] k = 3 -> ((s[i] - 224) * 4096) + ((s[i + 1] - 128) * 64) + (s[i + 2] - 128)
                  [] OTHER -> ((s[i] - 240) * 262144) + ((s[i + 1] - 128) * 4096) + ((s[i + 2] - 128) * 64) + (s[i + 3] - 128)
       IN <<c>> \o Chars(s, i + k)
Scalar(c) == c >= 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)

\* decimal digits (as character codes)
RECURSIVE Dec10(_)
Dec10(n) == IF n < 10 THEN <<48 + n>> ELSE Dec10(n \div 10) \o <<48 + (n % 10)>>
\* digits of a little-endian unsigned number
RECURSIVE DivMod10(_, _, _)
DivMod10(v, i, rem) == \* from the most significant byte: <<quotient bytes (big-endian), remainder>>
  IF i = 0 THEN <<<<>>, rem>>
  ELSE LET x == (256 * rem) + v[i]
           r == DivMod10(v, i - 1, x % 10)
       IN <<<<x \div 10>> \o r[1], r[2]>>
RECURSIVE DigitsOf(_)
DigitsOf(v) ==
  LET d == DivMod10(v, Len(v), 0)
      q == Rev(d[1])
  IN IF AllZero(q) THEN <<48 + d[2]>> ELSE DigitsOf(q) \o <<48 + d[2]>>
Negate(v) == \* two's complement negation
  LET f == Flip(v)
      nz == {i \in 1..Len(v) : v[i] # 0}
      k == IF nz = {} THEN Len(v) ELSE MinOf(nz)
  IN [i \in 1..Len(v) |-> IF i < k THEN 0 ELSE IF i = k THEN (256 - v[i]) % 256 ELSE f[i]]
\* ten times v plus d: <<bytes>>, or <<>> when it does not fit
RECURSIVE MulAdd(_, _, _, _)
MulAdd(v, i, m, carry) == \* from the least significant byte: <<bytes, carry>>
  IF i > Len(v) THEN <<<<>>, carry>>
  ELSE LET x == (m * v[i]) + carry
           r == MulAdd(v, i + 1, m, x \div 256)
       IN <<<<x % 256>> \o r[1], r[2]>>
RECURSIVE ParseDecFrom(_, _, _)
ParseDecFrom(s, i, v) ==
  IF i > Len(s) THEN <<v>>
  ELSE IF s[i] < 48 \/ s[i] > 57 THEN <<>>
  ELSE LET r == MulAdd(v, 1, 10, s[i] - 48) IN IF r[2] # 0 THEN <<>> ELSE ParseDecFrom(s, i + 1, r[1])
\* the number of w bytes a string of digits is, in a singleton
ParseDec(s, w) == IF Len(s) = 0 THEN <<>> ELSE ParseDecFrom(s, 1, Zeros(w))
Decimal(signed, v) == IF signed /\ Neg(v) THEN <<45>> \o DigitsOf(Negate(v)) ELSE DigitsOf(v)
=============================================================================
