------------------------------- MODULE Motion -------------------------------
(***************************************************************************)
(* Abstract model of bound motion: two coupled oscillators on the torus of *)
(* radial and polar phases.  A period is N steps; phase 0 of the radial    *)
(* oscillator is the inner turning point, N/2 the outer; phase 0 of the    *)
(* polar oscillator is minimal theta, N/2 maximal theta.  Mino time runs   *)
(* in either direction; the oscillators advance at rates wr and wt.        *)
(*                                                                         *)
(* The invariants are what the trace specifications rely on: legs          *)
(* alternate, the velocity has the sign of the leg, reversal happens only  *)
(* at turning points, and the state after lambda0 is the state with phases *)
(* advanced by rate * lambda0 (TranslationInv).                            *)
(* The start states - every combination of radial and polar leg with a     *)
(* direction of time and a distance from the start - are exported as       *)
(* scenarios.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

CONSTANTS N, Rates
ASSUME N % 4 = 0

VARIABLES qr0, qt0, wr, wt, lam, qr, qt, dir
vars == <<qr0, qt0, wr, wt, lam, qr, qt, dir>>

Mod(i) == ((i % N) + N) % N

Init == /\ qr0 \in 0 .. N - 1 /\ qt0 \in 0 .. N - 1 /\ wr \in Rates /\ wt \in Rates
        /\ lam = 0 /\ qr = qr0 /\ qt = qt0 /\ dir \in {1, -1}
Advance == /\ lam' = lam + dir /\ lam' \in -N .. N
           /\ qr' = Mod(qr + dir * wr) /\ qt' = Mod(qt + dir * wt)
           /\ UNCHANGED <<qr0, qt0, wr, wt, dir>>
Next == Advance
Spec == Init /\ [][Next]_vars

Leg(q) == IF q = 0 THEN "low" ELSE IF q < N \div 2 THEN "up" ELSE IF q = N \div 2 THEN "high" ELSE "down"
\* displacement from the lower turning point, in steps: a triangle wave
Height(q) == IF q <= N \div 2 THEN q ELSE N - q
Velocity(q) == IF Leg(q) = "up" THEN 1 ELSE IF Leg(q) = "down" THEN -1 ELSE 0

HeightInv == Height(qr) \in 0 .. N \div 2 /\ Height(qt) \in 0 .. N \div 2
TurningInv == /\ (Velocity(qr) = 0) <=> (Height(qr) \in {0, N \div 2})
              /\ (Velocity(qt) = 0) <=> (Height(qt) \in {0, N \div 2})
TranslationInv == qr = Mod(qr0 + wr * lam) /\ qt = Mod(qt0 + wt * lam)
\* a single step that reverses the velocity passes a turning point
Reversal == [][ /\ (Velocity(qr) = 1 /\ Velocity(qr') = -1 /\ dir = 1 /\ wr = 1) => FALSE
                /\ (Velocity(qt) = 1 /\ Velocity(qt') = -1 /\ dir = 1 /\ wt = 1) => FALSE ]_vars
\* evenness: displaced equally before and after a turning point
EvenInv == \A q \in 0 .. N - 1 : Height(q) = Height(Mod(-q)) /\ Velocity(q) = -Velocity(Mod(-q))

\* A coordinate that grows by a function of one phase plus a function of the
\* other: t and phi.  Grow(n) is its growth over the first n steps.
Rate(i) == Height(Mod(qr0 + wr * i)) * Height(Mod(qr0 + wr * i)) + 3 * Height(Mod(qt0 + wt * i)) + 1
RECURSIVE Grow(_)
Grow(n) == IF n = 0 THEN 0 ELSE Grow(n - 1) + Rate(n - 1)
Period(w) == CHOOSE n \in 1 .. N : Mod(n * w) = 0 /\ \A m \in 1 .. n - 1 : Mod(m * w) # 0
\* ... so that the corners of a parallelogram of full radial and full polar
\* oscillations balance, however far apart they are
LatticeInv == lam >= 0 => \A i \in 1 .. 2 : \A j \in 1 .. 2 :
  LET u == i * Period(wr)  v == j * Period(wt)
  IN Grow(lam + u + v) + Grow(lam) = Grow(lam + u) + Grow(lam + v)

Legs == {"low", "up", "high", "down"}
Starts == [rleg : Legs, pleg : Legs, when : {"start", "future", "past", "farfuture", "farpast", "turning"}, turns : {"none", "some"}]
Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq(Starts))
=============================================================================
