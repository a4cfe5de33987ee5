-------------------------------- MODULE Paths -------------------------------
(* Where an error is.  A path is a sequence of steps <<kind, name>>: s struct,*)
(* e enum, v variant, f named and u unnamed field, i index, k map key.       *)
(* Types say which steps lead to each of their leaves, and a value which of  *)
(* these is refused first.                                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Fine == [bad |-> FALSE, p |-> <<>>, m |-> ""]
Under(s, w) == IF w.bad THEN [w EXCEPT !.p = s \o w.p] ELSE w

(* t: type; v: value; dir: "enc" or "dec" *)
RECURSIVE Where(_, _, _), Fields(_, _, _, _), Items(_, _, _, _), Entries(_, _, _, _)
Fields(f, v, dir, i) == IF i > Len(f) THEN Fine
                        ELSE LET w == Under(f[i].s, Where(f[i].t, v[i], dir)) IN IF w.bad THEN w ELSE Fields(f, v, dir, i + 1)
Items(t, v, dir, i) == IF i > Len(v) THEN Fine
                       ELSE LET w == Under(<<<<"i", ToString(i - 1)>>>>, Where(t, v[i], dir)) IN IF w.bad THEN w ELSE Items(t, v, dir, i + 1)
Entries(t, v, dir, i) == IF i > Len(v) THEN Fine
                         ELSE LET w == Under(IF t.trace THEN <<<<"k", v[i][3]>>>> ELSE <<>>, Where(t.t, v[i][2], dir)) IN IF w.bad THEN w ELSE Entries(t, v, dir, i + 1)
Where(t, v, dir) ==
  CASE t.k = "leaf" -> IF v = 255 THEN [bad |-> TRUE, p |-> <<>>, m |-> "refused"] ELSE Fine
    [] t.k = "st" -> Under(<<<<"s", t.n>>>>, Fields(t.f, v, dir, 1))
    [] t.k = "tup" -> Fields(t.f, v, dir, 1)
    [] t.k = "opt" -> IF v = <<>> THEN Fine ELSE Where(t.t, v[1], dir)
    [] t.k = "seq" -> Items(t.t, v, dir, 1)
    [] t.k = "map" -> Entries(t, v, dir, 1)
    [] t.k = "en" ->
         LET x == t.v[v[1] + 1]
             w == Fields(x.f, v[2], dir, 1)
             in == IF x.n = "" THEN w ELSE Under(<<<<"v", x.n>>>>, w)
         IN IF dir = "enc" \/ t.n = "" THEN in
            ELSE IF t.untagged THEN (IF w.bad THEN [bad |-> TRUE, p |-> <<<<"e", t.n>>>>, m |-> "No variant of " \o t.n \o " could be decoded"] ELSE w)
            ELSE Under(<<<<"e", t.n>>>>, in)

(* ---- how a path is shown ---- *)
Visible(p, typed) == SelectSeq(p, LAMBDA s : typed \/ s[1] \notin {"s", "e"})
RECURSIVE Text(_, _, _, _, _)
Close(n) == IF n = 0 THEN "" ELSE IF n = 1 THEN " }" ELSE IF n = 2 THEN " } }" ELSE IF n = 3 THEN " } } }" ELSE IF n = 4 THEN " } } } }" ELSE " } } } } }"
(* ty: a type was just named; fl: a field was *)
Text(p, i, ty, fl, level) ==
  IF i > Len(p) THEN [s |-> "", level |-> level]
  ELSE LET k == p[i][1]
           n == p[i][2]
           named == k \in {"s", "e", "v"}
           lead == IF named THEN (IF fl THEN " = " ELSE "") ELSE (IF ty THEN " { " ELSE "")
           word == CASE k \in {"s", "v"} -> n [] k = "e" -> n \o "::" [] k \in {"f", "u"} -> "." \o n [] OTHER -> "[" \o n \o "]"
           rest == Text(p, i + 1, k \in {"s", "v"} \/ (k = "e" /\ ty), ~named, IF ~named /\ ty THEN level + 1 ELSE level)
       IN [s |-> lead \o word \o rest.s, level |-> rest.level]
Shown(p) == LET x == Text(p, 1, FALSE, FALSE, 0)
                RECURSIVE Ends(_)
                Ends(n) == IF n <= 5 THEN Close(n) ELSE Close(5) \o Ends(n - 5)
            IN x.s \o Ends(x.level)
Capped(n) == IF n = 0 THEN "" ELSE IF n = 1 THEN " .. *one capped step*" ELSE " .. *" \o ToString(n) \o " capped steps*"
Starts(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
=============================================================================
