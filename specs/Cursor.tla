------------------------------- MODULE Cursor -------------------------------
(* A byte source is one cursor over its input.  A state is the position and *)
(* the absolute ends of the limits in force, outermost first.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b

Start == [pos |-> 0, ends |-> <<>>]
End(len, s) == LET RECURSIVE M(_)
                   M(i) == IF i = 0 THEN len ELSE Min2(s.ends[i], M(i - 1))
               IN M(Len(s.ends))
(* What may still be delivered: what is left of the input within every limit. *)
Avail(len, s) == IF End(len, s) < s.pos THEN 0 ELSE End(len, s) - s.pos
(* What the innermost limit, or the source without one, says is left.        *)
Remaining(len, s) == (IF s.ends = <<>> THEN len ELSE s.ends[Len(s.ends)]) - s.pos

CanTake(len, s, n) == n <= Avail(len, s)
Take(s, n) == [s EXCEPT !.pos = s.pos + n]
(* A failed operation delivers nothing and leaves the position.  Limits ask  *)
(* inwards out: the j innermost ones, which would have let it through, may   *)
(* have counted it all the same.                                             *)
Lets(s, n) == LET k == Len(s.ends)
                  RECURSIVE L(_)
                  L(j) == IF j < k /\ s.ends[k - j] - s.pos >= n THEN L(j + 1) ELSE j
              IN L(0)
Fail(s, n, j) == [s EXCEPT !.ends = [i \in 1..Len(s.ends) |-> IF i > Len(s.ends) - j THEN s.ends[i] - n ELSE s.ends[i]]]
Push(s, n) == [s EXCEPT !.ends = Append(s.ends, s.pos + n)]
Pop(s) == [s EXCEPT !.ends = SubSeq(s.ends, 1, Len(s.ends) - 1)]
=============================================================================
