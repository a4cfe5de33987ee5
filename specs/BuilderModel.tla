---------------------------- MODULE BuilderModel ----------------------------
(* Design check of Builder: every reference stays aligned, in range, apart   *)
(* from the others and decodes to the value it was stored with; everything   *)
(* else is zero.  With Depth reached each history is also printed, to be     *)
(* replayed into the real builders.                                          *)
EXTENDS Builder, TLC, Json
CONSTANTS Depth, Gen
VARIABLES s, h, raw
vars == <<s, h, raw>>
C == [big |-> TRUE, osz |-> 2, cap |-> -1, al |-> 2]
Ops == <<
  [op |-> "store", t |-> "u8", v |-> <<7>>],
  [op |-> "store", t |-> "u32", v |-> <<1, 2, 3, 4>>],
  [op |-> "store", t |-> "u32", v |-> <<9, 8, 7, 6>>],
  [op |-> "store", t |-> "S2", v |-> <<<<5>>, <<1, 0, 0, 0, 0, 0, 0, 2>>, <<3, 4>>>>],
  [op |-> "store", t |-> "E1", v |-> <<2, <<17, 18>>, <<19>>>>],
  [op |-> "slice", t |-> "u16", v |-> <<<<1, 2>>, <<3, 4>>, <<5, 6>>>>],
  [op |-> "slice", t |-> "u64", v |-> <<>>],
  [op |-> "str", v |-> <<97, 98, 99>>],
  [op |-> "uninit", t |-> "u64"],
  [op |-> "write", i |-> 1, v |-> <<8, 7, 6, 5, 4, 3, 2, 1>>],
  [op |-> "write", i |-> 2, v |-> <<8, 7, 6, 5, 4, 3, 2, 1>>],
  [op |-> "ref", i |-> 1], [op |-> "ref", i |-> 2],
  [op |-> "next", t |-> "u128"], [op |-> "reqalign", t |-> "A10"],
  [op |-> "extend", v |-> <<255>>],
  [op |-> "clear"], [op |-> "swap", i |-> 1, j |-> 2], [op |-> "alignip"], [op |-> "clone"]>>
Init == s = Start(C) /\ h = <<>> /\ raw = {}
Next == /\ Len(h) < Depth
        /\ \E k \in 1..Len(Ops) :
             LET o == Ops[k]
                 x == Apply(C, s, o)
             IN /\ x.ap
                /\ s' = x.s /\ h' = Append(h, k)
                /\ raw' = IF o.op = "clear" THEN {} ELSE IF o.op = "extend" THEN raw \cup {Len(x.s.b)} ELSE raw
Spec == Init /\ [][Next]_vars
Cells(x) == {x.off + k : k \in 1..Size(x, C)}
InRange == \A k \in 1..Len(s.refs) : s.refs[k].off + Size(s.refs[k], C) <= Len(s.b)
Aligned == \A k \in 1..Len(s.refs) : s.refs[k].off % Al(s.refs[k], C) = 0 /\ s.req % Al(s.refs[k], C) = 0
Apart == \A a, b \in 1..Len(s.refs) : a < b => Cells(s.refs[a]) \cap Cells(s.refs[b]) = {}
Intact == \A k \in 1..Len(s.refs) :
  LET x == s.refs[k]
      b == At(s.b, x.off, Size(x, C))
  IN CASE x.k = "sized" -> Valid(T[x.t], b) /\ Dec(T[x.t], b) = x.v
       [] x.k = "slice" -> \A j \in 1..x.n : Dec(T[x.t], At(b, (j - 1) * T[x.t].sz, T[x.t].sz)) = x.v[j]
       [] x.k = "str" -> b = x.v
       [] OTHER -> TRUE
PaddingZero == \A p \in 1..Len(s.b) : (p \notin raw /\ \A k \in 1..Len(s.refs) : p \notin Cells(s.refs[k])) => s.b[p] = 0
Emit == Gen /\ Len(h) = Depth => PrintT("@@" \o ToJson([k \in 1..Depth |-> Ops[h[k]]]))
=============================================================================
