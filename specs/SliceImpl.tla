----------------------------- MODULE SliceImpl ------------------------------
(* Design of the slice allocator: regions in address order, described by     *)
(* headers growing down from the end of the buffer; freed headers are        *)
(* chained for reuse, gaps and released regions join the region before them, *)
(* and a released first region is remembered as occupied.  Memory cells      *)
(* carry the name of the slot whose value they hold, so that contents can be *)
(* followed through every move.                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Size,     \* cells in the buffer
          H,        \* cells a header takes
          Slots,    \* names of allocations
          Types,    \* element types: their size, which is also their alignment
          MaxLen, MaxOps, Gen
VARIABLES st,       \* the allocator
          slot,     \* what its users hold: [id, t, len], or Nil
          hist
vars == <<st, slot, hist>>
Nil == [id |-> 0, t |-> 0, len |-> 0]

Fe(a) == Size - H * Len(a.h)
Cap(a, id) == a.h[id].e - a.h[id].s
Fail(a) == [ok |-> FALSE, a |-> a, id |-> 0]
Done(a, id) == [ok |-> TRUE, a |-> a, id |-> id]
Up(x, al) == al * ((x + al - 1) \div al)

AllocHeader(a, end) ==
  IF a.fh # 0 THEN LET id == a.fh IN Done([a EXCEPT !.fh = a.h[id].n, !.h[id] = [s |-> a.fs, e |-> end, p |-> 0, n |-> 0]], id)
  ELSE IF Fe(a) - H < end THEN Fail(a)
  ELSE Done([a EXCEPT !.h = Append(a.h, [s |-> a.fs, e |-> end, p |-> 0, n |-> 0])], Len(a.h) + 1)
PushBack(a, id) == IF a.tail = 0 THEN [a EXCEPT !.tail = id]
                   ELSE [a EXCEPT !.h[id].p = a.tail, !.h[a.tail].n = id, !.tail = id]
Unlink(a, id) ==
  LET p == a.h[id].p
      n == a.h[id].n
      b == IF n # 0 THEN [a EXCEPT !.h[n].p = p] ELSE [a EXCEPT !.tail = p]
  IN IF p # 0 THEN [b EXCEPT !.h[p].n = n] ELSE b
FreeRegion(a, id) == LET b == Unlink(a, id) IN [b EXCEPT !.h[id] = [s |-> 0, e |-> 0, p |-> 0, n |-> b.fh], !.fh = id]

Align(a, al) ==
  LET to == Up(a.fs, al)
  IN IF to = a.fs THEN Done(a, 0)
     ELSE IF to > Fe(a) THEN Fail(a)
     ELSE IF a.tail # 0 THEN Done([a EXCEPT !.h[a.tail].e = to, !.fs = to], 0)
     ELSE LET r == AllocHeader(a, to)
          IN IF ~r.ok THEN Fail(a)
             ELSE LET b == PushBack(r.a, r.id) IN Done([b EXCEPT !.occ = r.id, !.fs = to], 0)
Alloc(a, req, al) ==
  IF a.occ # 0 /\ Cap(a, a.occ) >= req /\ a.h[a.occ].s % al = 0 THEN Done([a EXCEPT !.occ = 0], a.occ)
  ELSE LET b == Align(a, al)
       IN IF ~b.ok \/ Fe(b.a) - b.a.fs < req THEN Fail(b.a)
          ELSE LET r == AllocHeader(b.a, b.a.fs + req)
               IN IF ~r.ok THEN Fail(b.a) ELSE Done(PushBack([r.a EXCEPT !.fs = b.a.fs + req], r.id), r.id)
FreeTail(a, id) ==
  LET old == a.h[id]
      b == FreeRegion(a, id)
  IN IF old.p # 0 /\ a.occ = old.p
     THEN LET from == b.h[old.p].s IN [FreeRegion([b EXCEPT !.occ = 0], old.p) EXCEPT !.fs = from]
     ELSE [b EXCEPT !.fs = old.s]
Free(a, id) ==
  LET old == a.h[id]
  IN IF old.n = 0 THEN FreeTail(a, id)
     ELSE IF old.p = 0 THEN [a EXCEPT !.occ = id]
     ELSE LET b == FreeRegion(a, id) IN [b EXCEPT !.h[old.p].e = old.e]
Copy(a, from, to, n) == [a EXCEPT !.mem = [i \in DOMAIN a.mem |-> IF i >= to /\ i < to + n THEN a.mem[from + (i - to)] ELSE a.mem[i]]]
Reserve(a, more, al) == LET b == Align(a, al) IN IF b.ok /\ b.a.fs + more <= Fe(b.a) THEN b ELSE Fail(b.a)
ReplaceBack(a, id) ==
  LET p == a.h[id].p
      n == a.h[id].n
      b == [a EXCEPT !.h[id].p = 0, !.h[id].n = 0]
      c == IF p # 0 THEN [b EXCEPT !.h[p].n = n] ELSE b
      d == IF n # 0 THEN [c EXCEPT !.h[n].p = p] ELSE c
  IN PushBack(d, id)
Realloc(a, id, len, req, al) ==
  IF a.h[id].n = 0 THEN
    LET more == req - Cap(a, id)
        b == Reserve(a, more, al)
    IN IF ~b.ok THEN b ELSE Done([b.a EXCEPT !.fs = b.a.fs + more, !.h[id].e = b.a.h[id].e + more], id)
  ELSE IF Cap(a, id) = 0 THEN
    LET b == Reserve(a, req, al)
    IN IF ~b.ok THEN b ELSE Done(ReplaceBack([b.a EXCEPT !.h[id].s = b.a.fs, !.h[id].e = b.a.fs + req, !.fs = b.a.fs + req], id), id)
  ELSE LET p == a.h[id].p
       IN IF p # 0 /\ a.occ = p /\ Cap(a, p) + Cap(a, id) >= req /\ a.h[p].s % al = 0
          THEN LET old == a.h[id]
                   b == Copy(FreeRegion(a, id), old.s, a.h[p].s, len)
               IN Done([b EXCEPT !.h[p].e = old.e, !.occ = 0], p)
          ELSE LET r == Alloc(a, req, al)
               IN IF ~r.ok THEN r ELSE Done(Free(Copy(r.a, r.a.h[id].s, r.a.h[r.id].s, len), id), r.id)

(* ---- what users do ---- *)
Init == /\ st = [h |-> <<>>, fh |-> 0, tail |-> 0, occ |-> 0, fs |-> 0, mem |-> [i \in 0..(Size - 1) |-> 0]]
        /\ slot = [s \in Slots |-> Nil]
        /\ hist = <<>>
Say(x) == hist' = Append(hist, x)
Write(a, s, from, n) == [a EXCEPT !.mem = [i \in DOMAIN a.mem |-> IF i >= from /\ i < from + n THEN s ELSE a.mem[i]]]

Empty(s, t) ==
  /\ slot[s].t = 0
  /\ LET r == Alloc(st, 0, t)
     IN /\ st' = r.a
        /\ slot' = [slot EXCEPT ![s] = [id |-> r.id, t |-> t, len |-> 0]]
  /\ Say(<<"e", s, t>>)
Value(s, t) ==
  /\ slot[s].t = 0
  /\ LET r == Alloc(st, t, t)
     IN /\ st' = IF r.ok THEN Write(r.a, s, r.a.h[r.id].s, t) ELSE r.a
        /\ slot' = IF r.ok THEN [slot EXCEPT ![s] = [id |-> r.id, t |-> t, len |-> 1]] ELSE slot
  /\ Say(<<"v", s, t>>)
(* Room for n more elements, which are then written. *)
Resize(s, n) ==
  /\ slot[s].t # 0 /\ slot[s].len + n <= MaxLen
  /\ LET x == slot[s]
         req == (x.len + n) * x.t
         r == IF x.id = 0 THEN Fail(st) ELSE IF Cap(st, x.id) >= req THEN Done(st, x.id) ELSE Realloc(st, x.id, x.len * x.t, req, x.t)
     IN /\ st' = IF r.ok THEN Write(r.a, s, r.a.h[r.id].s + x.len * x.t, n * x.t) ELSE r.a
        /\ slot' = IF r.ok THEN [slot EXCEPT ![s] = [id |-> r.id, t |-> x.t, len |-> x.len + n]] ELSE slot
  /\ Say(<<"r", s, n>>)
Release(s) ==
  /\ slot[s].t # 0
  /\ st' = IF slot[s].id = 0 THEN st ELSE Free(st, slot[s].id)
  /\ slot' = [slot EXCEPT ![s] = Nil]
  /\ Say(<<"f", s, 0>>)
Merge(s, o) ==
  /\ s # o /\ slot[s].t # 0 /\ slot[s].t = slot[o].t /\ slot[s].id # 0 /\ slot[o].id # 0
  /\ LET x == slot[s]
         y == slot[o]
         this == st.h[x.id]
         other == st.h[y.id].s
         next == this.n
     IN /\ this.e = other /\ next # 0 /\ Cap(st, next) > 0 /\ Cap(st, y.id) \div y.t > 0
        /\ LET old == st.h[next]
               b == Copy(st, this.e, this.s + x.len * x.t, y.len * y.t)
               c == [FreeRegion(b, next) EXCEPT !.h[x.id].e = old.e]
           IN /\ st' = [c EXCEPT !.mem = [i \in DOMAIN c.mem |->
                          IF i >= this.s + x.len * x.t /\ i < this.s + (x.len + y.len) * x.t /\ c.mem[i] = o THEN s ELSE c.mem[i]]]
              /\ slot' = [slot EXCEPT ![s].len = x.len + y.len, ![o] = Nil]
  /\ Say(<<"m", s, o>>)
Next == Len(hist) < MaxOps /\ \E s \in Slots : \/ \E t \in Types : Empty(s, t) \/ Value(s, t)
                                                  \/ \E n \in 1..MaxLen : Resize(s, n)
                                                  \/ Release(s)
                                                  \/ \E o \in Slots : Merge(s, o)
Spec == Init /\ [][Next]_vars

(* ---- what the allocator owes ---- *)
Held == {s \in Slots : slot[s].id # 0}
From(s) == st.h[slot[s].id].s
To(s) == st.h[slot[s].id].e
Inside == \A s \in Held : 0 <= From(s) /\ From(s) <= To(s) /\ To(s) <= st.fs /\ st.fs <= Fe(st)
Aligned == \A s \in Held : From(s) % slot[s].t = 0
Room == \A s \in Held : (To(s) - From(s)) >= slot[s].len * slot[s].t
Disjoint == \A s, o \in Held : s = o \/ (slot[s].id # slot[o].id /\ (From(s) = To(s) \/ From(o) = To(o) \/ To(s) <= From(o) \/ To(o) <= From(s)))
Contents == \A s \in Held : \A i \in From(s)..(From(s) + slot[s].len * slot[s].t - 1) : st.mem[i] = s
(* The regions in order: they follow each other without gaps up to the free space, and every one is held, occupied or nothing's. *)
RECURSIVE Back(_, _)
Back(id, n) == IF id = 0 \/ n = 0 THEN <<>> ELSE Append(Back(st.h[id].p, n - 1), id)
Order == Back(st.tail, Len(st.h) + 1)
RECURSIVE Chain(_, _)
Chain(id, n) == IF id = 0 \/ n = 0 THEN <<>> ELSE <<id>> \o Chain(st.h[id].n, n - 1)
Linked == /\ Len(Order) <= Len(st.h)
          /\ \A i \in 1..(Len(Order) - 1) : st.h[Order[i]].n = Order[i + 1] /\ st.h[Order[i]].e = st.h[Order[i + 1]].s
          /\ Order # <<>> => st.h[Order[1]].s = 0 /\ st.h[st.tail].n = 0 /\ st.h[st.tail].e = st.fs
          /\ Order = <<>> => st.fs = 0
(* No header is lost: each is in the list of regions or in the chain of free ones. *)
Accounted == LET f == Chain(st.fh, Len(st.h) + 1)
                 in == {Order[i] : i \in 1..Len(Order)}
                 out == {f[i] : i \in 1..Len(f)}
             IN in \cap out = {} /\ in \cup out = 1..Len(st.h) /\ Len(f) = Cardinality(out)
                /\ in = {slot[s].id : s \in Held} \cup (IF st.occ = 0 THEN {} ELSE {st.occ})
                /\ (st.occ # 0 => st.occ = Order[1] /\ \A s \in Held : slot[s].id # st.occ)
(* With nothing held, all there is left is the gap a failed request may have made. *)
Reclaimed == Held = {} => st.fs < 2 * (CHOOSE m \in Types : \A t \in Types : t <= m) /\ Len(Order) <= 1

Emit == ~Gen \/ Len(hist) < MaxOps \/ PrintT("@@" \o ToJson(hist))
View == <<st, slot, IF Gen THEN hist ELSE <<>>, Len(hist)>>
=============================================================================
