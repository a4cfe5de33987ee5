-------------------------------- MODULE Sink --------------------------------
(* An output sink holds the concatenation of the chunks it accepted.  A      *)
(* bounded one accepts exactly the chunks which still fit, whole.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
Fits(have, d, cap) == Len(have) + Len(d) <= cap
(* What a bounded sink holds after a write, and what it answers. *)
Write(have, d, cap) == IF Fits(have, d, cap) THEN [r |-> "ok", have |-> have \o d] ELSE [r |-> "err", have |-> have]
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
=============================================================================
