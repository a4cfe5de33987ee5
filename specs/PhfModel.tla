----------------------------- MODULE PhfModel ------------------------------
(* P21, design: perfect hashing by displacement.  Every key has an arbitrary*)
(* hash <<g, f1, f2>>; buckets are placed largest first, the displacement   *)
(* found for a bucket is stored under that bucket's index, and the entries  *)
(* are permuted in place into the slots they were assigned.                 *)
EXTENDS Bytes, TLC
CONSTANTS N, Lambda, F1
Buckets == (N + Lambda - 1) \div Lambda
VARIABLES hash, disp, map, todo, entries, slot, st
vars == <<hash, disp, map, todo, entries, slot, st>>
Keys == 0..(N - 1)
Displace(h, d) == (d[2] + h[2] * d[1] + h[3]) % N
Bucket(b) == {k \in Keys : hash[k][1] = b}
Init == /\ hash \in [Keys -> (0..(Buckets - 1)) \X F1 \X (0..(N - 1))]
        /\ disp = [b \in 0..(Buckets - 1) |-> <<0, 0>>]
        /\ map = [i \in Keys |-> N]
        /\ todo = 0..(Buckets - 1)
        /\ entries = [i \in Keys |-> i] /\ slot = 0 /\ st = "place"
Fits(b, d) == /\ \A k \in Bucket(b) : map[Displace(hash[k], d)] = N
              /\ \A k, l \in Bucket(b) : k # l => Displace(hash[k], d) # Displace(hash[l], d)
Place == /\ st = "place" /\ todo # {}
         /\ \E b \in {x \in todo : \A y \in todo : Cardinality(Bucket(x)) >= Cardinality(Bucket(y))} :
            LET ds == {d \in (0..(N - 1)) \X (0..(N - 1)) : Fits(b, d)} IN
            IF ds = {} THEN st' = "retry" /\ UNCHANGED <<hash, disp, map, todo, entries, slot>>
            ELSE LET d == CHOOSE x \in ds : \A y \in ds : x[1] * N + x[2] <= y[1] * N + y[2] IN
                 /\ disp' = [disp EXCEPT ![b] = d]
                 /\ map' = [i \in Keys |-> LET s == {k \in Bucket(b) : Displace(hash[k], d) = i} IN IF s = {} THEN map[i] ELSE MinOf(s)]
                 /\ todo' = todo \ {b}
                 /\ UNCHANGED <<hash, entries, slot, st>>
Placed == st = "place" /\ todo = {} /\ st' = "permute" /\ UNCHANGED <<hash, disp, map, todo, entries, slot>>
RECURSIVE Follow(_)
Follow(from) == IF from < slot THEN Follow(map[from]) ELSE from
Permute == /\ st = "permute" /\ slot < N
           /\ LET f == Follow(map[slot]) IN entries' = [entries EXCEPT ![slot] = entries[f], ![f] = entries[slot]]
           /\ slot' = slot + 1
           /\ UNCHANGED <<hash, disp, map, todo, st>>
Done == st = "permute" /\ slot = N /\ st' = "done" /\ UNCHANGED <<hash, disp, map, todo, entries, slot>>
Next == Place \/ Placed \/ Permute \/ Done
Spec == Init /\ [][Next]_vars
LookupOK == st = "done" => \A k \in Keys : entries[Displace(hash[k], disp[hash[k][1]])] = k
PermOK == \A k \in Keys : \E i \in Keys : entries[i] = k
=============================================================================
