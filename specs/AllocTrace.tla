----------------------------- MODULE AllocTrace -----------------------------
(* Recorded behaviours of the real slice allocator.                          *)
EXTENDS Alloc, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]

Shown(e) == {e.live[i] : i \in 1..Len(e.live)}
At(e, id) == CHOOSE p \in Shown(e) : p.id = id
Has(e, id) == \E p \in Shown(e) : p.id = id

(* m: live slots; spent: bytes spent since nothing was live; most: most slots live at once. *)
Begin == [m |-> [i \in {} |-> 0], spent |-> 0, most |-> 0]
Put(m, id, s) == [i \in DOMAIN m \cup {id} |-> IF i = id THEN s ELSE m[i]]
Del(m, id) == [i \in DOMAIN m \ {id} |-> m[i]]

(* Bytes a step asks for. *)
Asked(st, e) == CASE e.op = "v" -> (IF Has(e, e.id) THEN At(e, e.id).es ELSE 32)
                  [] e.op = "r" -> (IF e.n > 100000 THEN 100000000 ELSE (st.m[e.id].len + e.n) * st.m[e.id].es)
                  [] OTHER -> 0
Spends(e) == e.op \in {"e", "v", "r"}

Live(st, e) ==
  CASE e.op \in {"e", "v"} ->
         IF e.r = "ok" THEN LET p == At(e, e.id)
                                s == New(p.es, p.al)
                            IN Put(st.m, e.id, IF e.op = "v" THEN [s EXCEPT !.need = 1, !.len = 1, !.v = Same(p.es, e.b)] ELSE s)
         ELSE st.m
    [] e.op = "r" -> IF e.r = "ok" THEN [st.m EXCEPT ![e.id].need = Max2(st.m[e.id].need, st.m[e.id].len + e.n)] ELSE st.m
    [] e.op = "w" -> [st.m EXCEPT ![e.id].len = e.n, ![e.id].v = Fill(e.n * st.m[e.id].es, e.b)]
    [] e.op = "f" -> Del(st.m, e.id)
    [] e.op = "m" -> IF e.r = "ok" THEN LET a == st.m[e.id]
                                            b == st.m[e.n]
                                        IN Put(Del(st.m, e.n), e.id, [a EXCEPT !.len = a.len + b.len, !.need = a.len + b.len, !.v = a.v \o b.v])
                     ELSE st.m
After(st, e) == LET m == Live(st, e)
                    used == {i \in DOMAIN m : m[i].es > 0}
                IN [m |-> m,
                    spent |-> IF used = {} THEN 0 ELSE IF Spends(e) THEN st.spent + Cost(Min2(Asked(st, e), 100000000)) ELSE st.spent,
                    most |-> Max2(st.most, Cardinality(used))]

Answer(st, e) ==
  CASE e.op = "v" -> e.r = "ok" \/ (e.r = "err" /\ ~Fits(st.spent, st.most, Asked(st, e), R.size))
    [] e.op = "r" -> e.r = "ok" \/ (e.r = "err" /\ st.m[e.id].es > 0 /\ ~Fits(st.spent, st.most, Asked(st, e), R.size))
    [] e.op = "m" -> e.r \in {"ok", "err"}
    [] OTHER -> e.r = "ok"

Good(st, e) == /\ Answer(st, e)
               /\ LET t == After(st, e)
                      ps == Shown(e)
                  IN /\ {p.id : p \in ps} = DOMAIN t.m
                     /\ \A p \in ps : Placed(t.m[p.id], p, R.size)
                     /\ \A p, q \in ps : p.id < q.id => Apart(p, q)
RECURSIVE Run(_, _)
Run(st, i) == i > Len(R.steps) \/ (Good(st, R.steps[i]) /\ Run(After(st, R.steps[i]), i + 1))
Sound == ~R.over /\ Run(Begin, 1)
=============================================================================
