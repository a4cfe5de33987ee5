----------------------------- MODULE PathsTrace -----------------------------
(* Errors of the real tracing context, and of a context which records what   *)
(* it is told.                                                               *)
EXTENDS Paths, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Lead(n) == IF n < 64 THEN n ELSE 64
Init == r \in 1..Lead(Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]
W == Where(R.t, R.v, R.dir)
At(e, len) == \A i \in 1..Len(e.at) : e.at[i] <= len /\ (i > 1 => e.at[i - 1] <= e.at[i])

(* One use of the context which meets the refused leaf. *)
Use(u) == IF W.bad THEN /\ u.r = "err" /\ Len(u.errs) = 1
                        /\ u.errs[1].text = Shown(Visible(W.p, R.typed)) \o ": " \o W.m
                        /\ At(u.errs[1], R.len)
          ELSE u.r = "ok" /\ u.errs = <<>>
FirstOK == R.dir \in {"enc", "dec"} => Use(R.first)
(* The context is used again: nothing is left over, and it knows to be nowhere once it is done. *)
AgainOK == R.dir \in {"enc", "dec"} => /\ R.again.r = "ok" /\ R.again.errs = <<>>
                                       /\ Len(R.probe) = 1 /\ R.probe[1].text = ": probe"
                                       /\ Use(R.third) /\ R.third = R.first

(* Input which ends early: the place is the one at which the whole input was being read there. A JSON *)
(* number is complete wherever it is cut, and what is not null at the end of the input is taken for a  *)
(* value, the type of which has been entered then.                                                     *)
RECURSIVE Stack(_, _, _)
Stack(ev, n, i) == IF i > n THEN <<>>
                   ELSE LET s == Stack(ev, n - 1, i) IN IF ev[n][2] = 1 THEN Append(s, ev[n][3]) ELSE SubSeq(s, 1, Len(s) - 1)
Before(k, eq) == Cardinality({i \in 1..Len(R.events) : R.events[i][1] < k \/ (eq /\ R.events[i][1] = k)})
Cut(c) ==
  /\ c.r \in {"ok", "err"} /\ ~c.bad
  /\ c.r = "err" => /\ c.errors = 1 /\ c.n = 1
                    /\ \E i \in Before(c.k, FALSE)..Before(c.to, TRUE) :
                          LET s == Stack(R.events, i, 1) IN c.stack = s \/ (c.null /\ Len(c.stack) > Len(s) /\ SubSeq(c.stack, 1, Len(s)) = s)
                    /\ c.last.text # "" /\ Starts(c.last.text, Shown(Visible(c.stack, R.typed)) \o ": ")
                    /\ At(c.last, c.k)
  /\ c.r = "ok" => c.stack = <<>> /\ c.errors = 0 /\ c.n = 0
CutOK == R.dir = "cut" => /\ R.r = "ok" /\ ~R.bad /\ R.left = <<>> /\ R.errors = 0 /\ R.pos = R.len
                          /\ \A i \in 1..Len(R.cuts) : Cut(R.cuts[i])
=============================================================================
