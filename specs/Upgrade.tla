------------------------------ MODULE Upgrade ------------------------------
(* What a reader of one version of a structure makes of a value written by  *)
(* another version, said about values and not about bytes: shared fields     *)
(* keep their values in whatever order, missing fields are defaulted or are  *)
(* an error, unknown fields are ignored where the format can skip them.      *)
EXTENDS Schema

Skips(f) == f # "storage" /\ f # "packed"
\* <<>> is an error
RECURSIVE Upg(_, _, _, _, _)
UpgBody(f, m, w, s, v) ==
  LET name(st, i) == NameOf(m, st.attrs, st.fields[i])
      sent == {i \in 1..Len(w.fields) : Present(m, w.fields[i], v[i])}
      from(j) == {i \in sent : name(w, i) = name(s, j) /\ ~Has(s.fields[j].attrs, m, "skip")}
      known(i) == \E j \in 1..Len(s.fields) : i \in from(j)
      field(j) == IF from(j) = {} THEN (IF Defaulted(m, s.fields[j]) THEN <<FieldDefault(m, s.fields[j])>> ELSE <<>>)
                  ELSE LET i == CHOOSE i \in from(j) : TRUE IN Upg(f, m, w.fields[i].t, s.fields[j].t, v[i])
      rs == [j \in 1..Len(s.fields) |-> field(j)]
  IN IF ~Skips(f) /\ \E i \in sent : ~known(i) THEN <<>>
     ELSE IF \E j \in 1..Len(rs) : Len(rs[j]) = 0 THEN <<>>
     ELSE <<[j \in 1..Len(rs) |-> rs[j][1]]>>
UpgAll(rs) == IF \E i \in 1..Len(rs) : Len(rs[i]) = 0 THEN <<>> ELSE <<[i \in 1..Len(rs) |-> rs[i][1]]>>
\* w: type written, s: type read
Upg(f, m, w, s, v) ==
  IF w = s THEN <<Normal(m, w, v)>>
  ELSE CASE w.k = "d" /\ s.k = "d" ->
              LET a == Decl(w.n)
                  b == Decl(s.n)
              IN IF a.k = "struct" THEN UpgBody(f, m, a, b, v)
                 ELSE LET x == a.vars[v[1] + 1]
                          hit == {i \in 1..Len(b.vars) : NameOf(m, b.attrs, b.vars[i]) = NameOf(m, a.attrs, x)}
                          dv == {i \in 1..Len(b.vars) : Has(b.vars[i].attrs, m, "default")}
                          n == CHOOSE i \in hit : TRUE
                          r == UpgBody(f, m, x, b.vars[n], v[2])
                      IN IF hit # {} THEN (IF Len(r) = 0 THEN <<>> ELSE <<<<n - 1, r[1]>>>>)
                         ELSE IF dv # {} /\ Skips(f) THEN <<<<(CHOOSE i \in dv : TRUE) - 1, <<>>>>>> ELSE <<>>
         [] w.k = "seq" -> UpgAll([i \in 1..Len(v) |-> Upg(f, m, w.t, s.t, v[i])])
         [] w.k = "opt" -> IF v = <<>> THEN <<<<>>>> ELSE UpgAll(<<Upg(f, m, w.t, s.t, v[1])>>)
         [] w.k = "map" -> LET r == UpgAll([i \in 1..Len(v) |-> Upg(f, m, w.vt, s.vt, v[i][2])])
                           IN IF Len(r) = 0 THEN <<>> ELSE <<[i \in 1..Len(v) |-> <<v[i][1], r[1][i]>>]>>
         [] w.k = "tup" -> \* a reader may stop early
              IF Len(s.ts) > Len(w.ts) \/ (~Skips(f) /\ Len(s.ts) < Len(w.ts)) THEN <<>>
              ELSE UpgAll([i \in 1..Len(s.ts) |-> Upg(f, m, w.ts[i], s.ts[i], v[i])])
=============================================================================
