---------------------------- MODULE CursorTrace -----------------------------
(* Recorded behaviours of the real readers, judged by the cursor.            *)
EXTENDS Cursor, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Init == r \in 1..Min2(64, Len(Recs))
Next == r + 64 <= Len(Recs) /\ r' = r + 64
Spec == Init /\ [][Next]_r
R == Recs[r]
N == Len(R.src)

(* How many bytes an operation asks for. *)
Want(e) == CASE e.op = "byte" -> 1
             [] e.op = "peek" -> 0
             [] e.op = "arr" -> IF e.n \in 0..9 \/ e.n = 16 THEN e.n ELSE 64
             [] e.op = "read" -> Min2(e.n, 4096)
             [] OTHER -> e.n
Seen(s) == IF Avail(N, s) > 0 THEN R.src[s.pos + 1] ELSE -1
Slice(s, n) == SubSeq(R.src, s.pos + 1, s.pos + n)

Enter == [pos |-> 0, ends |-> <<>>, stack |-> <<>>]
Back(s) == [s.stack[Len(s.stack)] EXCEPT !.stack = SubSeq(s.stack, 1, Len(s.stack) - 1)]

(* The states which may follow a step. *)
After(s, e) == CASE e.op = "push" -> {Push(s, e.n)}
                 [] e.op = "pop" -> {Pop(s)}
                 [] e.op = "clone" -> {[s EXCEPT !.stack = Append(s.stack, s)]}
                 [] e.op = "unclone" -> {Back(s)}
                 [] OTHER -> IF CanTake(N, s, Want(e)) THEN {Take(s, Want(e))} ELSE {Fail(s, Want(e), j) : j \in 0..Lets(s, Want(e))}
(* Whether the step from s to t shows what the cursor shows. *)
Allowed(s, t, e) ==
  LET n == Want(e)
  IN e.op \in {"push", "pop", "clone", "unclone"} \/
     /\ e.r = (IF CanTake(N, s, n) THEN "ok" ELSE "err")
     /\ e.v = (IF e.r # "ok" \/ e.op = "skip" THEN <<>> ELSE IF e.op = "peek" THEN (IF Seen(s) = -1 THEN <<>> ELSE <<Seen(s)>>) ELSE Slice(s, n))
     /\ e.r = "ok" /\ e.op = "bytes" /\ n > 0 => e.off \in {-1, s.pos}
     \* The context is told of exactly what was delivered.
     /\ e.adv = (IF e.r = "ok" THEN n ELSE 0)
     /\ e.eof = (Avail(N, t) = 0)
     /\ e.peek = Seen(t)
     /\ e.left \in {-1, Remaining(N, t)}

RECURSIVE Run(_, _)
Run(S, i) == IF i > Len(R.ev) \/ S = {} THEN S
             ELSE Run(UNION {{t \in After(s, R.ev[i]) : Allowed(s, t, R.ev[i])} : s \in S}, i + 1)
Behaves == \E s \in Run({Enter}, 1) : R.rest = SubSeq(R.src, s.pos + 1, N)
=============================================================================
