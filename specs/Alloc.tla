-------------------------------- MODULE Alloc -------------------------------
(* What an allocator over one fixed buffer owes its users.  A slot is a live *)
(* allocation: element size and alignment, the capacity it was promised and  *)
(* the bytes of its initialised elements.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

New(es, al) == [es |-> es, al |-> al, need |-> 0, len |-> 0, v |-> <<>>]
Fill(n, b) == [i \in 1..n |-> (b + i - 1) % 256]
Same(n, b) == [i \in 1..n |-> b]

(* A placement shows, for one slot, its offset, capacity and contents. *)
Placed(s, p, size) ==
  /\ p.len = s.len
  /\ p.mis = 0
  /\ p.v = s.v
  /\ s.es = 0 \/ p.cap >= Max2(s.need, s.len)
  /\ s.es = 0 \/ p.cap = 0 \/ (p.off >= 0 /\ p.off + p.cap * s.es <= size)
Apart(p, q) == p.es = 0 \/ q.es = 0 \/ p.cap = 0 \/ q.cap = 0
               \/ p.off + p.cap * p.es <= q.off \/ q.off + q.cap * q.es <= p.off

(* Space.  Since the buffer was last unused, every request took at most its  *)
(* bytes, a gap to align them and what describes it: as long as these fit,   *)
(* the request has to succeed.                                               *)
Slot == 96
Cost(bytes) == bytes + Slot
Fits(spent, most, bytes, size) == spent + Cost(bytes) + Slot * most <= size
=============================================================================
