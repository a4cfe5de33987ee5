----------------------------- MODULE FloatModel -----------------------------
(* The nearest float of a decimal is the one integer arithmetic gives, for     *)
(* whole numbers and binary fractions around every place at which mantissas  *)
(* of 24 bits are rounded, and exact in 53 bits; and so are their negatives, *)
(* the same numbers with zeros added, and shifted by an exponent.            *)
EXTENDS JsonText

VARIABLES n, k, i
Near(x, d) == {y \in (x - d)..(x + d) : y > 0}
Numbers == Near(0, 300) \cup Near(4096, 3) \cup UNION {Near(2 ^ p, 5) : p \in 13..27} \cup Near(3 * (2 ^ 23), 9) \cup Near(3 * (2 ^ 24), 17) \cup Near((2 ^ 27) - 64, 64)
Init == n \in Numbers /\ k \in 0..2 /\ (k < 2 \/ n < 80000000) /\ i = -1
Next == i < 4 /\ i' = i + 1 /\ UNCHANGED <<n, k>>
Digits10 == Dec10(n * (5 ^ k))
\* n * 2^-k as a float of p significant bits: <<mantissa, exponent>>, the mantissa having p bits
RECURSIVE BL(_)
BL(x) == IF x = 0 THEN 0 ELSE 1 + BL(x \div 2)
Round(p) ==
  LET l == BL(n)
      d == l - p
      q == n \div (2 ^ d)
      r == n % (2 ^ d)
      h == 2 ^ (d - 1)
      up == r > h \/ (r = h /\ q % 2 = 1)
  IN IF d <= 0 THEN <<n, 0>> ELSE <<IF up THEN q + 1 ELSE q, d>>
\* the bits of m * 2^e, m > 0, below 2^28 and exact in w
Bits(w, neg, m, e) ==
  LET l == BL(m)
      frac == SubSeq(BitsOf(m, l), 2, l)
      p == Sig(w) - 1
      all == frac \o Zeros(p)
  IN FloatBits(w, neg, e + l - 1 + Bias(w), SubSeq(all, 1, p))
Expect(w, neg) == IF w = 8 THEN Bits(8, neg, n, 0 - k) ELSE LET r == Round(24) IN Bits(4, neg, r[1], r[2] - k)
\* ways of writing it: digits and exponent
Way == LET z == 4 * i IN
  CASE i = 0 -> <<Digits10, 0 - k>>
    [] i = 1 -> <<Digits10 \o Rep(48, 5), 0 - k - 5>>
    [] i = 2 -> <<Rep(48, 3) \o Digits10, 0 - k>>
    [] i = 3 -> <<Digits10 \o Rep(48, 30), 0 - k - 30>>
    [] OTHER -> <<Digits10 \o Rep(48, 320), 0 - k - 320>>
Exactly == i >= 0 => \A w \in {4, 8} : \A neg \in BOOLEAN : Nearest(w, neg, Way[1], Way[2]) = Expect(w, neg)
\* a hair above and below the number: the same in 53 bits as long as the hair is thin
Hair == i = 0 => \A neg \in BOOLEAN : Nearest(8, neg, Digits10 \o Rep(48, 25) \o <<49>>, 0 - k - 26) = Expect(8, neg)
\* a hair above the middle of two floats is the upper, and below it the lower
Middle == (i = 0 /\ BL(n) > 24) =>
            LET d == BL(n) - 24
                r == n % (2 ^ d)
                q == n \div (2 ^ d)
            IN r = 2 ^ (d - 1) => /\ Nearest(4, FALSE, Digits10 \o Rep(48, 9) \o <<49>>, 0 - k - 10) = Bits(4, FALSE, q + 1, d - k)
                                  /\ Nearest(4, FALSE, Dec10((n * (5 ^ k)) - 1) \o Rep(57, 10), 0 - k - 10) = Bits(4, FALSE, q, d - k)
=============================================================================
