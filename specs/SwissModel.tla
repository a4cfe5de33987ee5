----------------------------- MODULE SwissModel ----------------------------
(* P21, design: open addressing with control-byte groups.  B buckets, group *)
(* width W, hashes <<h1, h2>> chosen by the environment for every key.  TLC *)
(* checks that after any insertion history every lookup finds its key, and  *)
(* that an absent key with any hash is reported absent.                     *)
EXTENDS Bytes, TLC
CONSTANTS B, W, H2, MaxKeys
Empty == -1
Mask(x) == x % B
Capacity == IF B <= 8 THEN B - 1 ELSE (B \div 8) * 7
VARIABLES ctrl, slots, keys      \* keys: sequence of hashes, key i has hash keys[i]
vars == <<ctrl, slots, keys>>
Init == /\ ctrl = [i \in 0..(B + W - 1) |-> Empty]
        /\ slots = [i \in 0..(B - 1) |-> 0]
        /\ keys = <<>>

\* probe positions: pos, pos + W, pos + W + 2W, ... while stride <= B - 1
RECURSIVE Probe(_, _)
Probe(pos, stride) == <<pos>> \o IF stride > B - 1 THEN <<>> ELSE Probe(Mask(pos + stride + W), stride + W)
Group(c, pos) == [i \in 0..(W - 1) |-> c[pos + i]]
FirstFree(c, pos) == LET s == {i \in 0..(W - 1) : c[pos + i] = Empty} IN IF s = {} THEN -1 ELSE Mask(pos + MinOf(s))
RECURSIVE SlotFor(_, _)
SlotFor(c, probes) == IF probes = <<>> THEN -1
                      ELSE LET f == FirstFree(c, Head(probes)) IN
                           IF f = -1 THEN SlotFor(c, Tail(probes))
                           ELSE IF c[f] # Empty THEN FirstFree(c, 0)  \* trailing bytes of a small table
                           ELSE f
Mirror(i) == Mask(i + B * W - W) + W
Insert(h) ==
  /\ Len(keys) < MaxKeys /\ Len(keys) < Capacity
  /\ LET i == SlotFor(ctrl, Probe(Mask(h[1]), 0)) IN
     /\ i # -1
     /\ ctrl' = [ctrl EXCEPT ![i] = h[2], ![Mirror(i)] = h[2]]
     /\ slots' = [slots EXCEPT ![i] = Len(keys) + 1]
     /\ keys' = Append(keys, h)
Hashes == (0..(B - 1)) \X H2
Next == \E h \in Hashes : Insert(h)
Spec == Init /\ [][Next]_vars

RECURSIVE Find(_, _, _)
Find(h, k, probes) ==
  IF probes = <<>> THEN "error"
  ELSE LET pos == Head(probes)
           hit == {i \in 0..(W - 1) : ctrl[pos + i] = h[2] /\ slots[Mask(pos + i)] = k}
           end == \E i \in 0..(W - 1) : ctrl[pos + i] = Empty
       IN IF hit # {} THEN "found" ELSE IF end THEN "absent" ELSE Find(h, k, Tail(probes))
FindOK == \A k \in 1..Len(keys) : Find(keys[k], k, Probe(Mask(keys[k][1]), 0)) = "found"
AbsentOK == \A h \in Hashes : Find(h, 999, Probe(Mask(h[1]), 0)) = "absent"
NoLoss == \A h \in Hashes : Len(keys) < Capacity => SlotFor(ctrl, Probe(Mask(h[1]), 0)) # -1
OneSlotEach == \A k \in 1..Len(keys) : Cardinality({i \in DOMAIN slots : slots[i] = k}) = 1
=============================================================================
