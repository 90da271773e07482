-------------------------------- MODULE Polar --------------------------------
(***************************************************************************)
(* The polar potential in z = cos^2(theta): a particle with constants      *)
(* b = a^2 (1 - E^2), l = L^2 and Q can be where                           *)
(*     f(z) = b z^2 - (l + Q + b) z + Q >= 0,  0 <= z <= 1.                *)
(* The constants are varied in steps; z runs over k/N.  TLC shows that     *)
(* the allowed region is an interval around the equator (its end is the    *)
(* smaller root), that it widens with Q and shrinks with l, and that the   *)
(* larger root is at or beyond the pole.                                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

N == 12
Top == 6

VARIABLES b, l, Q
vars == <<b, l, Q>>
Init == b = 0 /\ l = 0 /\ Q = 0
Step(v) == {v + 1, v - 1} \cap (0 .. Top)
Next == \/ b' \in Step(b) /\ UNCHANGED <<l, Q>>
        \/ l' \in Step(l) /\ UNCHANGED <<b, Q>>
        \/ Q' \in Step(Q) /\ UNCHANGED <<b, l>>
Spec == Init /\ [][Next]_vars

\* N^2 f(k / N)
F(c, m, q, k) == c * k * k - (m + q + c) * k * N + q * N * N
Region(c, m, q) == {k \in 0 .. N : F(c, m, q, k) >= 0}
IntervalInv == \A k \in Region(b, l, Q) : k = N \/ \A j \in 0 .. k : j \in Region(b, l, Q)
EquatorInv == 0 \in Region(b, l, Q)
PoleInv == F(b, l, Q, N) = -l * N * N
WideInv == \A k \in Region(b, l, Q) : k \in Region(b, l, Q + 1) /\ (l > 0 => k \in Region(b, l - 1, Q))
\* between the pole and the larger root the potential is negative, beyond it positive
BeyondInv == b > 0 => \E k \in N .. N * (1 + l + Q + b) : F(b, l, Q, k) >= 0 /\ \A j \in N + 1 .. k - 1 : l > 0 => F(b, l, Q, j) <= 0 \/ j >= k

-----------------------------------------------------------------------------
Spins == {"zero", "tiny", "mid", "high", "negative"}
Momenta == {"zero", "small", "generic", "retro"}
Carters == {"zero", "tiny", "generic", "large"}
Energies == {"low", "mid", "near1"}
Points == [spin : Spins, mom : Momenta, carter : Carters, energy : Energies]
Possible(q) == ~(q.mom = "zero" /\ q.carter = "zero")
Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq({q \in Points : Possible(q)}))
=============================================================================
