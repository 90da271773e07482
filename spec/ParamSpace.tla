----------------------------- MODULE ParamSpace -----------------------------
(***************************************************************************)
(* The abstract space of stable bound orbits: every coordinate of (a, p,   *)
(* e, x) is split into the classes the physics (and any implementation of  *)
(* it) treats differently, boundaries included.  A behaviour walks through *)
(* the space one coordinate at a time; TLC visits every combination, checks*)
(* that the case distinction below is a partition, and exports the         *)
(* combinations as abstract scenarios for the conformance drivers.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

CONSTANTS Spins, Signs, Eccs, Incls, Dists

AllSpins == {"zero", "tiny", "small", "mid", "high", "extreme"}
AllEccs  == {"circ", "nearcirc", "low", "mid", "high", "near1", "parab"}
AllIncls == {"pro", "retro", "gen+", "gen-", "nearpol+", "nearpol-", "polar", "neareq+", "neareq-"}
AllDists == {"sep", "close", "mid", "far", "vfar"}
ASSUME Spins \subseteq AllSpins /\ Eccs \subseteq AllEccs /\ Incls \subseteq AllIncls /\ Dists \subseteq AllDists

VARIABLE pt
Points == [spin : Spins, sign : Signs, ecc : Eccs, incl : Incls, dist : Dists]
\* the sign of a vanishing spin means nothing
Canonical(q) == q.spin = "zero" => q.sign = "+"

Init == pt \in {q \in Points : Canonical(q)}
Move(f, vals) == \E v \in vals : pt' = [pt EXCEPT ![f] = v] /\ Canonical(pt') /\ pt' # pt
Next == \/ Move("spin", Spins) \/ Move("sign", Signs) \/ Move("ecc", Eccs)
        \/ Move("incl", Incls) \/ Move("dist", Dists)
Spec == Init /\ [][Next]_pt

-----------------------------------------------------------------------------
(* The physical cases: exactly one radial and one polar case holds, and     *)
(* they determine what is supported.                                        *)
Circular(q)   == q.ecc = "circ"
Marginal(q)   == q.ecc = "parab"
Eccentric(q)  == ~Circular(q) /\ ~Marginal(q)
Equatorial(q) == q.incl \in {"pro", "retro"}
Polar(q)      == q.incl = "polar"
Inclined(q)   == ~Equatorial(q) /\ ~Polar(q)
Prograde(q)   == q.incl \in {"pro", "gen+", "nearpol+", "neareq+"}
Retrograde(q) == q.incl \in {"retro", "gen-", "nearpol-", "neareq-"}

RadialPartition == Cardinality({c \in {1, 2, 3} : (c = 1 /\ Circular(pt)) \/ (c = 2 /\ Marginal(pt)) \/ (c = 3 /\ Eccentric(pt))}) = 1
PolarPartition  == Cardinality({c \in {1, 2, 3} : (c = 1 /\ Equatorial(pt)) \/ (c = 2 /\ Polar(pt)) \/ (c = 3 /\ Inclined(pt))}) = 1
SensePartition  == Cardinality({c \in {1, 2, 3} : (c = 1 /\ Prograde(pt)) \/ (c = 2 /\ Polar(pt)) \/ (c = 3 /\ Retrograde(pt))}) = 1

\* what the package documents as supported
HasConstants(q)   == TRUE
HasFrequencies(q) == ~Marginal(q) /\ ~Polar(q)
\* turning points an orbit has: the number of radial and polar legs per period
RadialLegs(q) == IF Circular(q) THEN 0 ELSE IF Marginal(q) THEN 1 ELSE 2
PolarLegs(q)  == IF Equatorial(q) THEN 0 ELSE 2
LegsInv == HasFrequencies(pt) => RadialLegs(pt) \in {0, 2} /\ PolarLegs(pt) \in {0, 2}

Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq({q \in Points : Canonical(q)}))
=============================================================================
