----------------------------- MODULE Spacetime ------------------------------
(***************************************************************************)
(* Abstract model of the regions of Kerr spacetime.                        *)
(*                                                                         *)
(* An observer moves through the regions that the horizons, the ergosphere *)
(* and the axis cut out, crossing one boundary at a time.  In each region  *)
(* the signs of Delta and g_tt are fixed; the invariants tie them to the   *)
(* region (signature is Lorentzian everywhere: the determinant             *)
(* -Sigma^2 sin^2(theta) does not know about Delta).                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Spins  == {"zero", "tiny", "small", "mid", "high", "extreme"}
Signs  == {"+", "-"}
\* from the inside out; the ergosphere is below the static limit 1 + sqrt(1 - a^2 cos^2);
\* "beyond" is the other side of the ring, where r < 0
Radii  == <<"beyond", "core", "inner", "between", "horizon+", "ergo", "near", "far">>
Angles == <<"axis+", "north", "equator", "south", "axis-">>
Vectors == {"generic", "timelike", "basis", "zero"}

VARIABLES spin, sign, ri, ai, vec
vars == <<spin, sign, ri, ai, vec>>

\* without spin there is one horizon, at r = 2, no inner region, no ergosphere,
\* and no way past r = 0
Exists(s, g, i, j) == /\ s = "zero" => g = "+" /\ Radii[i] \notin {"beyond", "core", "inner", "ergo"}
                      \* on the axis the static limit touches the horizon
                      /\ Angles[j] \in {"axis+", "axis-"} => Radii[i] # "ergo"
Init == /\ spin \in Spins /\ sign \in Signs /\ vec \in Vectors
        /\ ri \in 1 .. Len(Radii) /\ ai \in 1 .. Len(Angles) /\ Exists(spin, sign, ri, ai)
In(n)   == ri' = ri + n /\ ri' \in 1 .. Len(Radii) /\ UNCHANGED <<spin, sign, ai, vec>>
Tilt(n) == ai' = ai + n /\ ai' \in 1 .. Len(Angles) /\ UNCHANGED <<spin, sign, ri, vec>>
Next == (In(1) \/ In(-1) \/ Tilt(1) \/ Tilt(-1)) /\ Exists(spin, sign, ri', ai')
Spec == Init /\ [][Next]_vars

DeltaSign == IF Radii[ri] = "between" THEN -1 ELSE 1
GttSign   == IF Radii[ri] \in {"between", "ergo"} THEN 1 ELSE -1
\* inside the inner static limit g_tt is negative again only near the ring; "core" is taken there
RegionInv == /\ DeltaSign = -1 => GttSign = 1
             /\ (DeltaSign = 1 /\ GttSign = 1) => Radii[ri] = "ergo"

Export == TLCGet("stats").distinct > 0
  /\ ndJsonSerialize(IOEnv.VERIF_OUT,
       SetToSeq({q \in [spin : Spins, sign : Signs, radius : {Radii[i] : i \in DOMAIN Radii}, angle : {Angles[i] : i \in DOMAIN Angles}, vec : Vectors] :
                   \E i \in DOMAIN Radii, j \in DOMAIN Angles : Radii[i] = q.radius /\ Angles[j] = q.angle /\ Exists(q.spin, q.sign, i, j)}))
=============================================================================
