----------------------------- MODULE TracingTrace -----------------------------
(* Histories of the calls a real tracing context was given. With plenty of    *)
(* memory everything is kept; with little the steps which were kept are what  *)
(* the errors show, and stay so while inside of a step which was not.         *)
EXTENDS Tracing, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Lead(n) == IF n < 64 THEN n ELSE 64
Init == r \in 1..Lead(Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]
Roomy == R.room = 0 \/ R.room >= 16384

(* fits: how many of the visible steps may have been kept; at: what is known of that for each mark *)
Seen(s) == Visible(s.stack, R.typed)
Fits(s, old, fits, at, op) ==
  LET n == Len(Seen(s))
      was == Len(Seen(old))
  IN IF Roomy THEN {n}
     ELSE CASE op[1] = "enter" -> IF n = was THEN fits ELSE {k \in 0..n : (k = n /\ was \in fits) \/ (k <= was /\ k \in fits)}
            [] op[1] = "leave" -> {IF k > n THEN n ELSE k : k \in fits}
            [] op[1] = "restore" -> at[op[2]]
            [] op[1] = "clear" -> {0}
            [] OTHER -> fits

Texts(errs, p, k) == [i \in 1..Len(errs) |-> [text |-> Kept(p, k) \o ": " \o errs[i].text, at |-> errs[i].at]]

RECURSIVE Run(_, _, _, _)
Run(s, fits, at, i) ==
  i > Len(R.ops) \/
  LET op == R.ops[i]
      o == R.out[i]
      t == After(s, op)
      \* An error there is no room for is dropped.
      told == op[1] \in {"msg", "cust", "msgat", "custat"}
      kept == IF told /\ ~Roomy /\ Len(o.errs) = Len(s.errs) THEN [t EXCEPT !.errs = s.errs] ELSE t
      f == Fits(t, s, fits, at, op)
      p == Seen(t)
      shown == {k \in f : o.errs = Texts(kept.errs, p, k)}
  IN /\ Asked(s, op)
     /\ Len(o.errs) = Len(kept.errs) /\ shown # {}
     /\ o.report
     /\ o.said = (IF told THEN op[2] ELSE "")
     /\ o.asked = (IF op[1] = "ask" THEN s.captured ELSE "")
     /\ Run(kept, shown, IF op[1] = "mark" THEN Append(at, shown) ELSE at, i + 1)

HistoryOK == R.r = "ok" /\ Run(NewContext, {0}, <<>>, 1)
=============================================================================
