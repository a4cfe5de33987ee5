----------------------------- MODULE CollModel ------------------------------
(* All histories of operations on two items, with every allowed answer: each *)
(* element ever made is in one place, held, handed back or dropped once.     *)
EXTENDS Coll, Json, TLC
CONSTANTS El0, Alloc0, MaxOps, Gen, Texts
VARIABLES m, made, out, dead, hist
vars == <<m, made, out, dead, hist>>
C == [alloc |-> Alloc0, el |-> El0]
Init == /\ m = [i \in 0..7 |-> None]
        /\ made = 0 /\ out = <<>> /\ dead = <<>> /\ hist = <<>>
Ev(op, i, a, b, s) == [op |-> op, i |-> i, a |-> a, b |-> b, s |-> s]
Ops == UNION {
  {Ev(op, i, made + 1, 0, <<>>) : op \in {"box", "put", "push"}, i \in {0, 1}},
  {Ev(op, i, 0, 0, <<>>) : op \in {"new", "pop", "clear", "raw", "std", "drop"}, i \in {0, 1}},
  {Ev(op, 0, n, 0, <<>>) : op \in {"cap", "res"}, n \in {0, 1, 3, 2000000000}},
  {Ev("swap", 0, 0, 1, <<>>), Ev("cmp", 0, 1, 0, <<>>)},
  IF Drops(El0) THEN {} ELSE {Ev("xs", 0, 0, 0, s) : s \in {<<>>, <<7>>, <<8, 9, 10>>}} \cup {Ev("ext", 0, 1, 0, <<>>), Ev("ext", 1, 0, 0, <<>>)},
  IF ~Texts THEN {} ELSE {Ev(op, i, 0, 0, <<>>) : op \in {"snew", "sbytes"}, i \in {0, 1}} \cup {Ev(op, 0, c, 0, <<>>) : op \in {"spush", "schr"}, c \in {65, 233, 8364, 128512}}
                         \cup {Ev(op, 0, 0, 0, s) : op \in {"sstr", "sfmt"}, s \in {<<>>, <<97, 98>>, <<8364, 100>>}}
                         \cup {Ev("utf8", 1, 0, 0, s) : s \in {<<>>, <<97>>, <<195, 169>>, <<195>>, <<237, 160, 128>>}}}
(* Can the operation be asked for at all? *)
Asked(e) == CASE e.op \in {"new", "cap", "box", "snew", "utf8"} -> m[e.i].k = "none"
              [] e.op \in {"push", "pop", "clear", "res", "raw", "xs"} -> m[e.i].k = "vec"
              [] e.op = "swap" -> m[e.i].k = "vec" /\ Len(m[e.i].x) >= 2
              [] e.op = "ext" -> m[e.i].k = "vec" /\ m[e.a].k = "vec"
              [] e.op = "cmp" -> m[e.i].k # "none" /\ m[e.i].k = m[e.a].k
              [] e.op = "put" -> m[e.i].k = "box"
              [] e.op = "std" -> m[e.i].k \in {"vec", "str"}
              [] e.op = "drop" -> m[e.i].k # "none"
              [] OTHER -> m[e.i].k = "str"
Takes(e) == e.op \in {"box", "put", "push"}
With(e, a) == [op |-> e.op, i |-> e.i, a |-> e.a, b |-> e.b, s |-> e.s, r |-> a]
Next == /\ Len(hist) < MaxOps
        /\ \E e \in Ops : Asked(e) /\ \E a \in {"ok", "err", "none", "full", "lt", "eq", "gt"} :
             LET t == Step(C, m, With(e, a))
             IN /\ t.ok
                /\ m' = t.m
                /\ made' = IF Takes(e) THEN made + 1 ELSE made
                /\ out' = IF Drops(El0) /\ e.op = "pop" THEN out \o t.back ELSE out
                /\ dead' = dead \o t.gone
                /\ hist' = Append(hist, IF e.op \in {"xs", "sstr", "sfmt", "utf8"} THEN <<e.op, e.i, e.s>> ELSE <<e.op, e.i, e.a, e.b>>)
Spec == Init /\ [][Next]_vars
(* ---- *)
Conserved == Drops(El0) => Perm(All(C, m, 0) \o out \o dead, [i \in 1..made |-> El(El0, i)])
Answered == \A e \in Ops : Asked(e) => \E a \in {"ok", "err", "none", "lt", "eq", "gt"} : Step(C, m, With(e, a)).ok
Promised == \A i \in 0..7 : m[i].k = "vec" => Step(C, m, With(Ev("push", i, made + 1, 0, <<>>), "ok")).ok
Texted == \A i \in 0..7 : m[i].k = "str" => Utf8Valid(m[i].x)
Emit == ~Gen \/ Len(hist) < MaxOps \/ PrintT("@@" \o ToJson(hist))
=============================================================================
