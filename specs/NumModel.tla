------------------------------ MODULE NumModel ------------------------------
(* The arithmetic on byte strings is arithmetic: for every number of up to    *)
(* two bytes, of either sign, against TLC's integers.                        *)
EXTENDS Num, TLC

CONSTANT Step
VARIABLE n
Init == n \in {-32768 + i : i \in 0..(Step - 1)}
Next == n + Step <= 65535 /\ n' = n + Step

\* n as w bytes of two's complement
Two(x, w) == [i \in 1..w |-> IF i <= 3 THEN ((x + (IF x < 0 THEN 16777216 ELSE 0)) \div (256 ^ (i - 1))) % 256 ELSE IF x < 0 THEN 255 ELSE 0]
In(x, signed, w) == CASE w = 1 -> (IF signed THEN x \in -128..127 ELSE x \in 0..255)
                      [] w = 2 -> (IF signed THEN x \in -32768..32767 ELSE x \in 0..65535)
                      [] OTHER -> signed \/ x >= 0
Ws == {1, 2, 4, 8, 16}
Converted == \A s \in BOOLEAN : \A w \in Ws : In(n, s, w) =>
               \A s2 \in BOOLEAN : \A w2 \in Ws :
                 Convert(Wide(s, Two(n, w)), s2, w2) = (IF In(n, s2, w2) THEN <<Two(n, w2)>> ELSE <<>>)
Variable == n >= 0 => \A w \in Ws : In(n, FALSE, w) =>
              LET v == Two(n, w)
                  b == VarEnc(v)
              IN /\ Len(b) = (IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE 3)
                 /\ \A x \in {<<>>, <<255>>} : VarDec(w, b \o x, 1, Len(b \o x)) = <<v, Len(b) + 1>>
                 /\ \A k \in 0..(Len(b) - 1) : VarDec(w, Take(b, k), 1, k) = <<>>
\* what does not fit is nothing
Narrow == n >= 256 => VarDec(1, VarEnc(Two(n, 2)), 1, 3) = <<>>
Zigzag == \A w \in Ws : In(n, TRUE, w) =>
            /\ Unzig(Zig(Two(n, w))) = Two(n, w)
            /\ Zig(Two(n, w)) = Two(IF n >= 0 THEN 2 * n ELSE (0 - (2 * n)) - 1, w)
Text == \A w \in Ws :
          /\ In(n, FALSE, w) => /\ Decimal(FALSE, Two(n, w)) = Dec10(n)
                                /\ ParseDec(Dec10(n), w) = <<Two(n, w)>>
          /\ (n >= 0 /\ ~In(n, FALSE, w)) => ParseDec(Dec10(n), w) = <<>>
          /\ (In(n, TRUE, w) /\ n < 0) => Decimal(TRUE, Two(n, w)) = <<45>> \o Dec10(0 - n)
Chars1 == (n >= 0 /\ n \notin 55296..57343) =>
            \A x \in {n, n + 65536} \cup (IF n < 16384 THEN {1048576 + n} ELSE {}) :
              /\ Utf8Valid(Utf8(x)) /\ Chars(Utf8(x), 1) = <<x>>
              /\ Len(Utf8(x)) = (IF x < 128 THEN 1 ELSE IF x < 2048 THEN 2 ELSE IF x < 65536 THEN 3 ELSE 4)
Surrogate == n \in 55296..57343 => ~Utf8Valid(Utf8(n))
=============================================================================
