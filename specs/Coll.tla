-------------------------------- MODULE Coll --------------------------------
(* Vectors, boxes and strings of one element type placed in an allocator.    *)
(* An item is [k, x, need]: its kind, its elements (or bytes), and how many  *)
(* elements were promised to fit.  A step names the operation, the item,     *)
(* its arguments and the answer; it determines what the items are after it,  *)
(* what was handed back and what was dropped.                                *)
EXTENDS Bytes, FiniteSets
Huge(n) == n >= 1999999999

None == [k |-> "none", x |-> <<>>, need |-> 0]
Vec(x, need) == [k |-> "vec", x |-> x, need |-> need]
Box(x) == [k |-> "box", x |-> <<x>>, need |-> 0]
Str(x) == [k |-> "str", x |-> x, need |-> 0]

(* Element types: d, l are dropped and have a size, z and o are dropped and  *)
(* have none, u, w are copied, n is copied and has no size.                  *)
Zst(el) == el \in {"z", "o", "n"}
Drops(el) == el \in {"d", "l", "z", "o"}
El(el, x) == IF Zst(el) THEN 0 ELSE IF el = "u" THEN x % 256 ELSE x
Els(el, s) == [i \in 1..Len(s) |-> El(el, s[i])]

(* May an operation which needs room for n elements in all be refused? *)
Free(c, it, n) == it.k = "vec" /\ (Zst(c.el) \/ n <= Max2(it.need, Len(it.x)))
Refused(c, it, n, huge) == huge \/ (c.alloc # "sys" /\ ~Free(c, it, n))

RECURSIVE Utf8All(_, _)
Utf8All(s, i) == IF i > Len(s) THEN <<>> ELSE Utf8(s[i]) \o Utf8All(s, i + 1)

Set(m, i, it) == [m EXCEPT ![i] = it]
(* [ok: is the answer allowed, m: the items after, back, gone] *)
To(ok, m, back, gone) == [ok |-> ok, m |-> m, back |-> back, gone |-> gone]
Is(m, e, k) == m[e.i].k = k
Gone(c, s) == IF Drops(c.el) THEN s ELSE <<>>

RECURSIVE All(_, _, _)
All(c, m, i) == IF i > 7 THEN <<>> ELSE (IF m[i].k \in {"vec", "box"} THEN Gone(c, m[i].x) ELSE <<>>) \o All(c, m, i + 1)

(* What comes first of two sequences. *)
RECURSIVE Order(_, _, _)
Order(s, t, i) == IF i > Len(s) \/ i > Len(t) THEN (IF Len(s) < Len(t) THEN "lt" ELSE IF Len(s) > Len(t) THEN "gt" ELSE "eq")
                  ELSE IF s[i] < t[i] THEN "lt" ELSE IF s[i] > t[i] THEN "gt" ELSE Order(s, t, i + 1)

Step(c, m, e) ==
  LET it == m[e.i]
      x == El(c.el, e.a)
      same == To(TRUE, m, <<>>, <<>>)
      grow(more) == [it EXCEPT !.x = it.x \o more]
      err(n, huge) == To(e.r = "err" /\ Refused(c, it, n, huge), m, <<>>, <<>>)
      text(s) == IF e.r = "ok" THEN To(it.k = "str", Set(m, e.i, grow(s)), <<>>, <<>>)
                 ELSE To(it.k = "str" /\ e.r = "err" /\ c.alloc # "sys", m, <<>>, <<>>)
  IN CASE e.op = "new" -> To(e.r = "ok" /\ it.k = "none", Set(m, e.i, Vec(<<>>, 0)), <<>>, <<>>)
       [] e.op = "cap" -> IF e.r = "ok" THEN To(it.k = "none", Set(m, e.i, Vec(<<>>, IF Huge(e.a) THEN 0 ELSE e.a)), <<>>, <<>>)
                          ELSE To(e.r = "err" /\ ~Zst(c.el) /\ e.a > 0 /\ (c.alloc # "sys" \/ Huge(e.a)), m, <<>>, <<>>)
       [] e.op = "box" -> IF e.r = "ok" THEN To(it.k = "none", Set(m, e.i, Box(x)), <<>>, <<>>)
                          ELSE To(e.r = "err" /\ c.alloc # "sys" /\ ~Zst(c.el), m, <<>>, Gone(c, <<x>>))
       [] e.op = "put" -> To(e.r = "ok" /\ it.k = "box", Set(m, e.i, Box(x)), <<>>, Gone(c, it.x))
       [] e.op = "push" -> IF e.r = "ok" THEN To(it.k = "vec", Set(m, e.i, grow(<<x>>)), <<>>, <<>>)
                           ELSE [err(Len(it.x) + 1, FALSE) EXCEPT !.gone = Gone(c, <<x>>)]
       [] e.op = "pop" -> IF it.x = <<>> THEN To(e.r = "none" /\ it.k = "vec", m, <<>>, <<>>)
                          ELSE To(e.r = "ok" /\ it.k = "vec", Set(m, e.i, [it EXCEPT !.x = SubSeq(it.x, 1, Len(it.x) - 1), !.need = Max2(it.need, Len(it.x))]), <<it.x[Len(it.x)]>>, <<>>)
       [] e.op = "clear" -> To(e.r = "ok" /\ it.k = "vec", Set(m, e.i, [it EXCEPT !.x = <<>>, !.need = Max2(it.need, Len(it.x))]), <<>>, Gone(c, it.x))
       [] e.op = "res" -> IF e.r = "ok" THEN To(it.k = "vec", Set(m, e.i, [it EXCEPT !.need = IF Huge(e.a) THEN it.need ELSE Max2(it.need, Len(it.x) + e.a)]), <<>>, <<>>)
                          ELSE err(Len(it.x) + (IF Huge(e.a) THEN 0 ELSE e.a), Huge(e.a) /\ (~Zst(c.el) \/ Len(it.x) > 0))
       [] e.op = "swap" -> To(e.r = "ok", Set(m, e.i, [it EXCEPT !.x = [[it.x EXCEPT ![e.a + 1] = it.x[e.b + 1]] EXCEPT ![e.b + 1] = it.x[e.a + 1]]]), <<>>, <<>>)
       [] e.op = "cmp" -> To(it.k # "none" /\ it.k = m[e.a].k /\ e.r = Order(it.x, m[e.a].x, 1), m, <<>>, <<>>)
       [] e.op = "raw" -> To(e.r = "ok" /\ it.k = "vec", m, <<>>, <<>>)
       [] e.op = "std" -> To(e.r = (IF c.alloc = "sys" THEN "ok" ELSE "err"), Set(m, e.i, [it EXCEPT !.need = IF c.alloc = "sys" THEN 0 ELSE it.need]), <<>>, <<>>)
       [] e.op = "xs" -> IF e.r = "ok" THEN To(it.k = "vec", Set(m, e.i, grow(Els(c.el, e.s))), <<>>, <<>>)
                         ELSE err(Len(it.x) + Len(e.s), FALSE)
       [] e.op = "ext" -> LET o == m[e.a]
                          IN IF e.r = "ok" THEN To(it.k = "vec" /\ o.k = "vec", [Set(m, e.i, grow(o.x)) EXCEPT ![e.a] = None], <<>>, <<>>)
                             ELSE [err(Len(it.x) + Len(o.x), FALSE) EXCEPT !.m = Set(m, e.a, None)]
       [] e.op = "drop" -> To(e.r = "ok" /\ it.k # "none", Set(m, e.i, None), <<>>, IF it.k = "str" THEN <<>> ELSE Gone(c, it.x))
       [] e.op \in {"snew", "scap"} -> IF e.r = "ok" THEN To(it.k = "none", Set(m, e.i, Str(<<>>)), <<>>, <<>>)
                                       ELSE To(e.op = "scap" /\ e.r = "err" /\ e.a > 0 /\ (c.alloc # "sys" \/ Huge(e.a)), m, <<>>, <<>>)
       [] e.op \in {"spush", "schr"} -> text(Utf8(e.a))
       [] e.op \in {"sstr", "sfmt"} -> text(Utf8All(e.s, 1))
       [] e.op = "utf8" -> IF e.r = "full" THEN To(c.alloc # "sys" /\ it.k = "none", m, <<>>, <<>>)
                           ELSE IF Utf8Valid(e.s) THEN To(e.r = "ok" /\ it.k = "none", Set(m, e.i, Str(e.s)), <<>>, <<>>)
                           ELSE To(e.r = "err" /\ it.k = "none", m, e.s, <<>>)
       [] e.op = "sbytes" -> To(e.r = "ok" /\ it.k = "str", Set(m, e.i, None), it.x, <<>>)
       [] e.op = "end" -> To(TRUE, [i \in 0..7 |-> None], <<>>, All(c, m, 0))
       [] OTHER -> To(FALSE, m, <<>>, <<>>)

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Perm(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
=============================================================================
