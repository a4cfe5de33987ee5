------------------------------- MODULE Bytes -------------------------------
(* Byte strings (sequences over 0..255) and the arithmetic shared by every  *)
(* format.  Numbers wider than TLC's integers are little-endian byte or bit *)
(* sequences.                                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Rep(b, n) == [i \in 1..n |-> b]
Zeros(n) == Rep(0, n)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
IsPfx(p, s) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : p[i] = s[i]

RECURSIVE FlatOf(_)
FlatOf(ss) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET h == Len(ss) \div 2 IN FlatOf(SubSeq(ss, 1, h)) \o FlatOf(SubSeq(ss, h + 1, Len(ss)))
\* TLC evaluates the elements of a function every time it is asked for them, and those of a SubSeq once
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE FlatOf(SubSeq(ss, 1, Len(ss)))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* little-endian representation of a small natural in w bytes
LE(n, w) == [i \in 1..w |-> IF i <= 4 THEN (n \div (256 ^ (i - 1) )) % 256 ELSE 0]
InOrder(s, big) == IF big THEN Rev(s) ELSE s

\* lexicographic order on byte strings
Less(a, b) ==
  LET n == Min2(Len(a), Len(b))
      d == {i \in 1..n : a[i] # b[i]}
  IN IF d = {} THEN Len(a) < Len(b) ELSE LET m == MinOf(d) IN a[m] < b[m]

AlignUp(n, a) == ((n + a - 1) \div a) * a

\* Unicode table 3-7: well-formed UTF-8
Cont(b) == b >= 128 /\ b <= 191
Utf8Step(s, i) ==
  LET n == Len(s) - i + 1
      a == s[i]
      In(k, lo, hi) == n > k /\ s[i + k] >= lo /\ s[i + k] <= hi
      C(k) == In(k, 128, 191)
  IN CASE a <= 127 -> 1
       [] a >= 194 /\ a <= 223 -> IF C(1) THEN 2 ELSE 0
       [] a = 224 -> IF In(1, 160, 191) /\ C(2) THEN 3 ELSE 0
       [] (a >= 225 /\ a <= 236) \/ a = 238 \/ a = 239 -> IF C(1) /\ C(2) THEN 3 ELSE 0
       [] a = 237 -> IF In(1, 128, 159) /\ C(2) THEN 3 ELSE 0
       [] a = 240 -> IF In(1, 144, 191) /\ C(2) /\ C(3) THEN 4 ELSE 0
       [] a >= 241 /\ a <= 243 -> IF C(1) /\ C(2) /\ C(3) THEN 4 ELSE 0
       [] a = 244 -> IF In(1, 128, 143) /\ C(2) /\ C(3) THEN 4 ELSE 0
       [] OTHER -> 0
RECURSIVE Utf8From(_, _)
Utf8From(s, i) == IF i > Len(s) THEN TRUE
                  ELSE LET k == Utf8Step(s, i) IN k > 0 /\ Utf8From(s, i + k)
Utf8Valid(s) == Utf8From(s, 1)

\* UTF-8 encoding of a scalar value
Utf8(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
=============================================================================
