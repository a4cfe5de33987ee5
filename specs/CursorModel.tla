---------------------------- MODULE CursorModel -----------------------------
(* Design: nested limits as a chain of counters, each asking the next one    *)
(* out, are one cursor with absolute ends - also after an operation failed,  *)
(* and for a copy of the reader which goes on by itself.                     *)
EXTENDS Cursor, Json, TLC
CONSTANTS Input, MaxOps, MaxDepth, Takes, Limits, Gen

VARIABLES s,      \* the abstract cursor
          chain,  \* the implementation: bytes left in the source, then the counters
          saved,  \* the originals of copies being used
          hist, agree
vars == <<s, chain, saved, hist, agree>>

(* The chain of readers: index 1 is the source, the last is the innermost limit. *)
RECURSIVE Ask(_, _, _)
Ask(c, i, n) == IF c[i] < n THEN [ok |-> FALSE, c |-> c]
                ELSE IF i = 1 THEN [ok |-> TRUE, c |-> [c EXCEPT ![1] = c[1] - n]]
                ELSE Ask([c EXCEPT ![i] = c[i] - n], i - 1, n)

Init == s = Start /\ chain = <<Input>> /\ saved = <<>> /\ hist = <<>> /\ agree = TRUE
DoTake(n) == LET r == Ask(chain, Len(chain), n) IN
   /\ agree' = (r.ok = CanTake(Input, s, n))
   /\ chain' = r.c
   /\ s' = IF CanTake(Input, s, n) THEN Take(s, n) ELSE Fail(s, n, Lets(s, n))
   /\ hist' = Append(hist, <<"take", n>>)
   /\ UNCHANGED saved
DoPush(n) == /\ Len(s.ends) < MaxDepth
             /\ s' = Push(s, n) /\ chain' = Append(chain, n)
             /\ hist' = Append(hist, <<"push", n>>) /\ UNCHANGED <<saved, agree>>
DoPop == /\ s.ends # <<>> /\ (IF saved = <<>> THEN TRUE ELSE Len(s.ends) > Len(saved[Len(saved)][1].ends))
         /\ s' = Pop(s) /\ chain' = SubSeq(chain, 1, Len(chain) - 1)
         /\ hist' = Append(hist, <<"pop", 0>>) /\ UNCHANGED <<saved, agree>>
DoClone == /\ saved = <<>>
           /\ saved' = <<<<s, chain>>>> /\ hist' = Append(hist, <<"clone", 0>>) /\ UNCHANGED <<s, chain, agree>>
DoUnclone == /\ saved # <<>>
             /\ s' = saved[1][1] /\ chain' = saved[1][2] /\ saved' = <<>>
             /\ hist' = Append(hist, <<"unclone", 0>>) /\ UNCHANGED agree
Next == Len(hist) < MaxOps /\ ((\E n \in Takes : DoTake(n)) \/ (\E n \in Limits : DoPush(n)) \/ DoPop \/ DoClone \/ DoUnclone)
Spec == Init /\ [][Next]_vars

Agree == agree
(* Every counter is what is left of its limit. *)
Counters == /\ chain[1] = Input - s.pos
            /\ \A i \in 1..Len(s.ends) : chain[i + 1] = s.ends[i] - s.pos
(* Positions never pass any end, and the end of input is when nothing may be taken. *)
Inside == s.pos <= Input /\ \A i \in 1..Len(s.ends) : s.pos <= s.ends[i]
Eof == (Avail(Input, s) = 0) = (\E i \in 1..Len(chain) : chain[i] = 0)
Emit == ~Gen \/ Len(hist) < MaxOps \/ PrintT("@@" \o ToJson(hist))
(* Without the history the state space is finite for any number of operations. *)
View == <<s, chain, saved, agree, IF Gen THEN hist ELSE <<>>, Len(hist)>>
=============================================================================
