------------------------------- MODULE Tracing -------------------------------
(* What a tracing context knows: the steps which have been entered and not    *)
(* left, how far into the input it is, and the errors it was told of.  A      *)
(* context which has little memory keeps the outermost `fit` of the steps and *)
(* counts the others, and drops errors it has no room for.                    *)
EXTENDS Paths

NewContext == [stack |-> <<>>, pos |-> 0, errs |-> <<>>, marks |-> <<>>, captured |-> ""]

(* A mark can be returned to as long as the steps around it have not been left. *)
Left(marks, n) == [i \in 1..Len(marks) |-> IF Len(marks[i].stack) > n THEN [marks[i] EXCEPT !.live = FALSE] ELSE marks[i]]
Inside(op, typed) == op[2] \notin {"s", "e"} \/ typed

At(from, to) == IF from = 0 /\ to = 0 THEN <<>> ELSE IF from = to THEN <<from>> ELSE <<from, to>>

(* May the operation be asked for? *)
Asked(s, op) ==
  CASE op[1] = "leave" -> s.stack # <<>>
    [] op[1] \in {"restore"} -> op[2] <= Len(s.marks) /\ s.marks[op[2]].live
    [] op[1] \in {"msgat", "custat"} -> op[3] <= Len(s.marks) /\ s.marks[op[3]].live
    [] OTHER -> TRUE

Told(s, text, from) == [s EXCEPT !.errs = Append(s.errs, [text |-> text, at |-> At(from, s.pos)]), !.captured = text]

After(s, op) ==
  CASE op[1] = "enter" -> [s EXCEPT !.stack = Append(s.stack, <<op[2], op[3]>>)]
    [] op[1] = "leave" -> LET n == Len(s.stack) - 1 IN [s EXCEPT !.stack = SubSeq(s.stack, 1, n), !.marks = Left(s.marks, n)]
    [] op[1] = "adv" -> [s EXCEPT !.pos = s.pos + op[2]]
    [] op[1] = "mark" -> [s EXCEPT !.marks = Append(s.marks, [stack |-> s.stack, pos |-> s.pos, errs |-> Len(s.errs), live |-> TRUE])]
    [] op[1] = "restore" ->
         LET m == s.marks[op[2]]
         IN [s EXCEPT !.stack = m.stack, !.pos = m.pos, !.errs = SubSeq(s.errs, 1, m.errs),
                      !.marks = [i \in 1..Len(s.marks) |-> IF i > op[2] THEN [s.marks[i] EXCEPT !.live = FALSE] ELSE s.marks[i]]]
    [] op[1] \in {"msg", "cust"} -> Told(s, op[2], s.pos)
    [] op[1] \in {"msgat", "custat"} -> Told(s, op[2], s.marks[op[3]].pos)
    [] op[1] = "ask" -> [s EXCEPT !.captured = ""]
    [] op[1] = "clear" -> [s EXCEPT !.stack = <<>>, !.pos = 0, !.errs = <<>>, !.captured = "", !.marks = Left(s.marks, -1)]

(* What is shown of a path the first n visible steps of which were kept. *)
Kept(p, n) == Shown(SubSeq(p, 1, n)) \o Capped(Len(p) - n)
=============================================================================
