---------------------------- MODULE UpgradeTrace ----------------------------
(* Values written by one version of a structure and read by the others.     *)
EXTENDS CodecTrace, Upgrade

Upgraded == LET x == Recs[r] IN x.enc.r = "ok" /\ x.rt =>
              \A i \in 1..Len(x.rs) :
                LET u == Upg(x.f, x.m, TypeOf(x.w), TypeOf(x.rs[i]), x.v)
                IN IF Len(u) = 0 THEN x.dec[i].r = "err"
                   ELSE x.dec[i].r = "ok" /\ x.dec[i].v[1] = u[1] /\ (~x.whole => x.dec[i].v[2] = Len(x.suf))
=============================================================================
