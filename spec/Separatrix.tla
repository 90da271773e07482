----------------------------- MODULE Separatrix -----------------------------
(***************************************************************************)
(* Abstract model of the boundary of stable bound orbits.                  *)
(*                                                                         *)
(* For fixed spin and eccentricity the inclination is walked from          *)
(* retrograde to prograde; at each inclination the distance of p from the  *)
(* separatrix is chosen.  The state keeps what an implementation may       *)
(* report: the order of the reported boundary values along the walk and    *)
(* the verdict at each distance.  The invariants say that verdicts are     *)
(* monotone (one boundary), and the behaviours are exported as walks.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Spins == {"zero", "tiny", "small", "mid", "high", "extreme"}
Eccs  == {"circ", "nearcirc", "low", "mid", "high", "near1", "parab"}
\* from retrograde to prograde
Walk == <<"retro", "neareq-", "gen-", "nearpol-", "polar", "nearpol+", "gen+", "neareq+", "pro">>
\* p = p_s (1 + sign 10^-k); "in" is deep inside (below any bound orbit), "out" far outside
Offsets == <<"in", "-2", "-4", "-6", "at", "+6", "+4", "+2", "out">>
AtIdx == 5

VARIABLES spin, ecc, i, k, verdict
vars == <<spin, ecc, i, k, verdict>>

Init == spin \in Spins /\ ecc \in Eccs /\ i = 1 /\ k = 1 /\ verdict = "unstable"
Outward == k < Len(Offsets) /\ k' = k + 1 /\ verdict' = (IF k + 1 > AtIdx THEN "stable" ELSE "unstable")
           /\ UNCHANGED <<spin, ecc, i>>
Tilt == k = Len(Offsets) /\ i < Len(Walk) /\ i' = i + 1 /\ k' = 1 /\ verdict' = "unstable"
        /\ UNCHANGED <<spin, ecc>>
Next == Outward \/ Tilt
Spec == Init /\ [][Next]_vars

VerdictInv == (verdict = "stable") <=> (k > AtIdx)
\* along p the verdict never goes back from stable to unstable
OneBoundary == [][i' = i => (verdict = "stable" => verdict' = "stable")]_vars

Export == TLCGet("stats").distinct > 0
          /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq({[spin |-> s, ecc |-> e, walk |-> Walk, offsets |-> Offsets] : s \in Spins, e \in Eccs}))
=============================================================================
