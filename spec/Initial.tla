------------------------------ MODULE Initial -------------------------------
(***************************************************************************)
(* Admission of initial data.  Initial data are described by what matters: *)
(* the spin, the norm of the four-velocity, the energy, the region the     *)
(* state lies in (State.tla) and whether it is polar.  A constructor makes *)
(* its checks in some order and stops at the first that fails; whatever    *)
(* the order, what is admitted is the same, and an orbit that is admitted  *)
(* has the kind of its region.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Spins == {"none", "some", "extreme"}
Norms == {"unit", "scaled", "null", "spacelike", "undefined"}
Energies == {"bound", "marginal", "unbound"}
Regions == {"stable", "plunge", "inside"}
Data == [spin : Spins, norm : Norms, energy : Energies, region : Regions, polar : BOOLEAN]
\* data that exist: without spin there is no inner region; polar is said of stable orbits only
Exists(d) == (d.spin = "none" => d.region # "inside") /\ (d.polar => d.region = "stable")

Checks == {"spin", "norm", "energy", "region", "supported"}
Fails(d, c) == CASE c = "spin" -> d.spin = "extreme"
                 [] c = "norm" -> d.norm # "unit"
                 [] c = "energy" -> d.energy # "bound"
                 [] c = "region" -> d.region = "inside"
                 [] c = "supported" -> (d.region = "plunge" /\ d.spin = "none") \/ (d.region = "stable" /\ d.polar)
Admissible(d) == \A c \in Checks : ~Fails(d, c)

VARIABLES data, todo, out
vars == <<data, todo, out>>
Init == data \in {d \in Data : Exists(d)} /\ todo = Checks /\ out = "pending"
Check(c) == /\ out = "pending" /\ c \in todo
            /\ todo' = todo \ {c}
            /\ out' = IF Fails(data, c) THEN "ValueError" ELSE IF todo = {c} THEN data.region ELSE "pending"
            /\ UNCHANGED data
Next == \E c \in Checks : Check(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OutcomeInv == /\ out = "ValueError" => ~Admissible(data)
              /\ out \in Regions => Admissible(data) /\ out = data.region
Decided == <>(out # "pending")

\* scenarios for the constructor: where the body is, how it moves, what is wrong with the data
Places == {"far", "near", "between", "inside"}
Motions == {"in", "out", "turning"}
Polar == {"equator", "up", "down", "turning"}
Flaws == {"none", "scaled", "slightly", "null", "spacelike", "undefined", "extreme", "marginal", "unbound", "random"}
Classes == {"zero", "small", "mid", "high", "extreme"}
Scenarios == [place : Places, radial : Motions, polar : Polar, flaw : Flaws, spin : Classes, sign : {"+", "-"}, sense : {"pro", "retro", "none"}, energy : {"low", "mid", "near1"}]
Sensible(q) == /\ q.spin = "zero" => q.place \in {"far", "near"} /\ q.sign = "+"
               /\ q.radial = "turning" => q.place # "between"
               /\ q.flaw # "none" => q.energy = "mid" /\ q.polar # "turning"
               /\ q.flaw = "random" => q.place \in {"far", "near"}
Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq({q \in Scenarios : Sensible(q)}))
=============================================================================
