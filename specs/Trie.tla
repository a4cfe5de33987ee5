------------------------------- MODULE Trie --------------------------------
(* P22.  The abstract trie: an ordered multimap given by its insertion      *)
(* history, and the node structure of musli-zerocopy's builder, walked the  *)
(* way lookups walk it.  TLC checks that the structure answers every query  *)
(* like the multimap, for every insertion history over a small key space.   *)
EXTENDS Bytes, SequencesExt, TLC

(* ---- abstract ordered multimap: ins is a sequence of <<key, value>> ---- *)
Get(ins, k) == LET f == SelectSeq(ins, LAMBDA e : e[1] = k) IN [i \in 1..Len(f) |-> f[i][2]]
Before(ins, i, j) == Less(ins[i][1], ins[j][1]) \/ (ins[i][1] = ins[j][1] /\ i < j)
Sorted(ins) ==
  LET s == SetToSortSeq(1..Len(ins), LAMBDA i, j : Before(ins, i, j))
  IN [n \in 1..Len(s) |-> ins[s[n]]]
UnderSorted(sorted, p) == SelectSeq(sorted, LAMBDA e : IsPfx(p, e[1]))
Under(ins, p) == UnderSorted(Sorted(ins), p)
ValuesOf(pairs) == [i \in 1..Len(pairs) |-> pairs[i][2]]

(* ---- node structure: links = [vals, kids], kid = [str, links] ---- *)
Empty == [vals |-> <<>>, kids |-> <<>>]
Leaf(k, v) == [str |-> k, links |-> [vals |-> <<v>>, kids |-> <<>>]]
Common(a, b) == LET d == {i \in 1..Min2(Len(a), Len(b)) : a[i] # b[i]}
                IN IF d = {} THEN Min2(Len(a), Len(b)) ELSE MinOf(d) - 1
\* number of kids strictly below s
Pos(kids, s) == Cardinality({i \in 1..Len(kids) : Less(kids[i].str, s)})
FoundAt(kids, s) == {i \in 1..Len(kids) : kids[i].str = s}

RECURSIVE Insert(_, _, _)
Insert(links, k, v) ==
  LET f == FoundAt(links.kids, k) IN
  IF f # {} THEN
    LET i == MinOf(f) IN [links EXCEPT !.kids[i].links.vals = Append(@, v)]
  ELSE
    LET n == Pos(links.kids, k)
        near == {i \in {n, n + 1} : i \in 1..Len(links.kids) /\ Common(links.kids[i].str, k) > 0}
    IN IF near = {} THEN
         [links EXCEPT !.kids = SubSeq(@, 1, n) \o <<Leaf(k, v)>> \o SubSeq(@, n + 1, Len(@))]
       ELSE
         LET i == MinOf(near)
             kid == links.kids[i]
             p == Common(kid.str, k)
             split == IF p = Len(kid.str) THEN kid
                      ELSE [str |-> Take(kid.str, p),
                            links |-> [vals |-> <<>>, kids |-> <<[kid EXCEPT !.str = Drop(@, p)]>>]]
             rest == Drop(k, p)
             sub == IF rest = <<>> THEN [split.links EXCEPT !.vals = Append(@, v)]
                    ELSE Insert(split.links, rest, v)
         IN [links EXCEPT !.kids[i] = [split EXCEPT !.links = sub]]

RECURSIVE Build(_)
Build(ins) == IF ins = <<>> THEN Empty
              ELSE LET m == Len(ins) IN Insert(Build(SubSeq(ins, 1, m - 1)), ins[m][1], ins[m][2])

RECURSIVE Lookup(_, _)
Lookup(links, k) ==
  LET f == FoundAt(links.kids, k)
      n == Pos(links.kids, k)
  IN IF f # {} THEN links.kids[MinOf(f)].links.vals
     ELSE IF n = 0 THEN <<>>
     ELSE LET kid == links.kids[n]
              p == Common(kid.str, k)
          IN IF p = 0 \/ p # Len(kid.str) THEN <<>> ELSE Lookup(kid.links, Drop(k, p))

RECURSIVE Walk(_, _)
Walk(links, pre) ==
  [i \in 1..Len(links.vals) |-> <<pre, links.vals[i]>>]
  \o Flat([i \in 1..Len(links.kids) |-> Walk(links.kids[i].links, pre \o links.kids[i].str)])

RECURSIVE FindIn(_, _, _)
FindIn(links, p, done) ==
  IF p = <<>> /\ done = <<>> THEN Walk(links, <<>>)
  ELSE
    LET f == FoundAt(links.kids, p)
        n == Pos(links.kids, p)
        near == {i \in {n, n + 1} : i \in 1..Len(links.kids) /\
                   LET c == Common(links.kids[i].str, p) IN c > 0 /\ (c = Len(p) \/ c = Len(links.kids[i].str))}
    IN IF f # {} THEN LET kid == links.kids[MinOf(f)] IN Walk(kid.links, done \o kid.str)
       ELSE IF near = {} THEN <<>>
       ELSE LET kid == links.kids[MinOf(near)]
                c == Common(kid.str, p)
            IN IF c = Len(p) THEN Walk(kid.links, done \o kid.str)
               ELSE FindIn(kid.links, Drop(p, c), done \o kid.str)
=============================================================================
