----------------------------- MODULE TrieModel -----------------------------
(* Exhaustive: every insertion history over a small key space.  Also prints *)
(* each history as a script for the conformance harness (Gen = TRUE).       *)
EXTENDS Trie, Json
CONSTANTS Letters, MaxKey, MaxIns, Gen

Strings == UNION {[1..n -> Letters] : n \in 0..MaxKey}
Queries == UNION {[1..n -> Letters] : n \in 0..(MaxKey + 1)}
VARIABLES hist, links
vars == <<hist, links>>

Init == hist = <<>> /\ links = Empty
Add(k) == /\ Len(hist) < MaxIns
          /\ hist' = Append(hist, <<k, Len(hist) + 1>>)
          /\ links' = Insert(links, k, Len(hist) + 1)
Next == \E k \in Strings : Add(k)
Spec == Init /\ [][Next]_vars

RECURSIVE WellFormed(_)
WellFormed(l) ==
  /\ \A i, j \in 1..Len(l.kids) : i < j => Less(l.kids[i].str, l.kids[j].str) /\ Common(l.kids[i].str, l.kids[j].str) = 0
  /\ \A i \in 1..Len(l.kids) : WellFormed(l.kids[i].links)
TreeOK == WellFormed(links)
LookupOK == \A q \in Queries : Lookup(links, q) = Get(hist, q)
PrefixOK == \A q \in Queries : FindIn(links, q, <<>>) = Under(hist, q)
Emit == ~Gen \/ Len(hist) < MaxIns \/ PrintT("@@" \o ToJson(hist))
=============================================================================
