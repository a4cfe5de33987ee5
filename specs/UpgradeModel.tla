---------------------------- MODULE UpgradeModel ----------------------------
(* What Upgrade says of values is what the bytes of the formats come to: for *)
(* small values of every version of every structure, written as one version  *)
(* and read as another, the codec gives what Upgrade does, and ends there.   *)
EXTENDS Values, Upgrade

CONSTANTS Formats, Most
VARIABLES f, g, w, s, at
Members(i) == {J.shapes[i][j] : j \in 1..Len(J.shapes[i])}
V == Vals(TypeOf(w), 0)[at]
C == Codec(f, "Binary", "d")
Init == /\ f \in Formats /\ g \in 1..Len(J.shapes) /\ w \in Members(g) /\ s \in Members(g) /\ at = 0
        \* tagged by a field, which only the descriptive format can look ahead for
        /\ ("W3" \in Members(g) => f = "desc")
Next == at < Min2(Most, Len(Vals(TypeOf(w), 0))) /\ at' = at + 1 /\ UNCHANGED <<f, g, w, s>>
Agree == at > 0 => LET b == Bytes(C, TypeOf(w), V)
                       u == Upg(f, "Binary", TypeOf(w), TypeOf(s), V)
                   IN \A x \in {<<>>, <<0>>} :
                        LET r == Dec(C, TypeOf(s), FALSE, b \o x, 1, Len(b \o x))
                        IN IF u = <<>> THEN r = <<>> ELSE r = <<u[1], Len(b) + 1>>
=============================================================================
