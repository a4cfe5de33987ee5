----------------------------- MODULE TracingModel -----------------------------
(* The context as it is built: a path which may refuse a step, and a count of *)
(* the steps which did not fit.  What it keeps is what Tracing says, for any  *)
(* pattern of steps refused, and a mark brings back what there was.           *)
EXTENDS Tracing, Json
Min2(a, b) == IF a < b THEN a ELSE b
CONSTANTS MaxOps, Gen, Refuses
VARIABLES s, path, cap, marks, ops
vars == <<s, path, cap, marks, ops>>

Init == s = NewContext /\ path = <<>> /\ cap = 0 /\ marks = <<>> /\ ops = <<>>

Live == {i \in 1..Len(s.marks) : s.marks[i].live}
Ops == {<<"enter", "f", "a">>, <<"enter", "s", "Type">>, <<"enter", "v", "A">>, <<"enter", "e", "E">>, <<"enter", "i", "3">>, <<"enter", "k", "key">>,
        <<"leave">>, <<"adv", 2>>, <<"mark">>, <<"msg", "one">>, <<"clear">>}
       \cup {<<"restore", i>> : i \in Live} \cup {<<"msgat", "two", i>> : i \in Live}

Step(op) ==
  /\ Asked(s, op)
  /\ s' = After(s, op)
  /\ ops' = Append(ops, op)
  /\ CASE op[1] = "enter" -> \/ cap = 0 /\ path' = Append(path, <<op[2], op[3]>>) /\ UNCHANGED <<cap, marks>>
                             \/ (cap > 0 \/ Refuses) /\ cap' = cap + 1 /\ UNCHANGED <<path, marks>>
       [] op[1] = "leave" -> IF cap > 0 THEN cap' = cap - 1 /\ UNCHANGED <<path, marks>> ELSE path' = SubSeq(path, 1, Len(path) - 1) /\ UNCHANGED <<cap, marks>>
       [] op[1] = "mark" -> marks' = Append(marks, [path |-> Len(path), cap |-> cap]) /\ UNCHANGED <<path, cap>>
       [] op[1] = "restore" -> path' = SubSeq(path, 1, Min2(marks[op[2]].path, Len(path))) /\ cap' = marks[op[2]].cap /\ UNCHANGED marks
       [] op[1] = "clear" -> path' = <<>> /\ cap' = 0 /\ UNCHANGED marks
       [] OTHER -> UNCHANGED <<path, cap, marks>>

Next == Len(ops) < MaxOps /\ \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_vars
View == IF Gen THEN <<ops>> ELSE <<s, path, cap, marks>>

KeptIsPrefix == Len(path) + cap = Len(s.stack) /\ path = SubSeq(s.stack, 1, Len(path))
MarksBringBack == \A i \in Live : marks[i].path <= Len(path) /\ marks[i].path + marks[i].cap = Len(s.marks[i].stack)
ErrorsInOrder == \A i \in 1..Len(s.errs) : s.errs[i].at = <<>> \/ (s.errs[i].at[Len(s.errs[i].at)] <= s.pos /\ s.errs[i].at[1] <= s.errs[i].at[Len(s.errs[i].at)])
Emit == Gen /\ Len(ops) = MaxOps => PrintT("@@" \o ToJson(ops))
=============================================================================
