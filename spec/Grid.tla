-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Tabulating a function on ever finer grids (P19).                        *)
(*                                                                         *)
(* A spacing 1/m gives m nodes over the unit interval, evenly spread, ends *)
(* included.  The state walks through refinements at a fixed place t/Parts;*)
(* it keeps the cell that holds the place and the distance to the nearest  *)
(* node, in which the error of an interpolation is bounded.                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Parts == 60
VARIABLES t, m, cell
vars == <<t, m, cell>>
\* nodes are k Parts / (m - 1) of 1/Parts; multiplied by m - 1 to be whole
Node(n, k) == k * Parts
Place(n) == t * (n - 1)
CellOf(n) == CHOOSE k \in 0 .. n - 2 : Node(n, k) <= Place(n) /\ (Place(n) < Node(n, k + 1) \/ (k = n - 2 /\ Place(n) = Node(n, k + 1)))
Init == t \in 0 .. Parts /\ m \in 4 .. 6 /\ cell = CellOf(m)
Refine == m <= 40 /\ m' = 2 * m /\ cell' = CellOf(m') /\ UNCHANGED t
Next == Refine
Spec == Init /\ [][Next]_vars

\* numerator of the distance to the nearest node over (m - 1) Parts
Distance == LET lo == Place(m) - Node(m, cell)  hi == Node(m, cell + 1) - Place(m) IN IF lo < hi THEN lo ELSE hi
CellInv == /\ Node(m, cell) <= Place(m) /\ Place(m) <= Node(m, cell + 1)
           /\ Cardinality({k \in 0 .. m - 2 : Node(m, k) < Place(m) /\ Place(m) < Node(m, k + 1)}) <= 1
DistanceInv == 2 * Distance <= Parts
EndsInv == (t = 0 => cell = 0 /\ Distance = 0) /\ (t = Parts => cell = m - 2 /\ Distance = 0)
\* the cells shrink: twice as many nodes, cells less than half as wide
Shrinks == [][m' - 1 > 2 * (m - 1)]_vars

Spins == {"zero", "tiny", "small", "mid", "high", "extreme"}
Chains == { <<"4", "8", "16">>, <<"5", "10", "20">>, <<"4", "16">>, <<"7", "14">>, <<"odd">> }
Calls == {"scalar", "arrays", "points"}
Export == TLCGet("stats").distinct > 0
          /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq([spin : Spins, chain : Chains, call : Calls]))
=============================================================================
