---------------------------- MODULE BuilderTrace ----------------------------
(* Recorded histories of OwnedBuf and SliceMut are behaviours of Builder.   *)
EXTENDS Builder, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, i, s, bad
vars == <<r, i, s, bad>>
Cfg(x) == [big |-> x.big, osz |-> x.osz, cap |-> IF x.tgt = "slice" THEN x.cap ELSE -1, al |-> x.al]
Init == /\ r \in 1..Len(Recs) /\ i = 0 /\ bad = ""
        /\ s = Start(Cfg(Recs[r]))

SameBytes(b, o) == Len(o) = Len(b) /\ \A p \in 1..Len(b) : b[p] = o[p] \/ b[p] = -1
LoadOK(c, x, e, l) ==
  IF x.k = "uninit" THEN TRUE
  ELSE IF (e.base + x.off) % Al(x, c) = 0 THEN l.r = "ok" /\ l.v = x.v ELSE l.r = "err"
Judge(c, e, x) ==
  LET mustpanic == ~Fits(c, s, e, x) \/ (c.cap >= 0 /\ x.need > c.cap)
      mayPanic == mustpanic \/ (c.cap >= 0 /\ Enough(s, e, x) > c.cap)
  IN IF e.ap # x.ap THEN "applies"
     ELSE IF e.r = "panic" THEN IF mayPanic THEN "" ELSE "panic"
     ELSE IF mustpanic THEN "accepted"
     ELSE IF e.off # x.off \/ e.rlen # x.n THEN "reference"
     ELSE IF e.len # Len(x.s.b) \/ ~SameBytes(x.s.b, e.bytes) THEN "bytes"
     ELSE IF e.req # x.s.req \/ ~e.capok THEN "requested"
     ELSE IF (e.op = "alignip" \/ (e.op = "clone" /\ x.s.b # <<>>)) /\ c.cap < 0 /\ e.base % Min2(x.s.req, 64) # 0 THEN "align"
     ELSE IF Len(e.loads) # Len(x.s.refs) \/ \E k \in 1..Len(e.loads) : ~LoadOK(c, x.s.refs[k], e, e.loads[k]) THEN "loads"
     ELSE ""
Next == /\ bad = "" /\ i < Len(Recs[r].ev)
        /\ LET c == Cfg(Recs[r])
               e == Recs[r].ev[i + 1]
               x == Apply(c, s, e)
           IN /\ bad' = Judge(c, e, x)
              /\ s' = x.s
        /\ i' = i + 1 /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
