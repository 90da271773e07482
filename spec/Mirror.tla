------------------------------- MODULE Mirror -------------------------------
(***************************************************************************)
(* The reflection phi -> -phi.  The physical state is the sign of the spin *)
(* and the sign of the axial angular momentum in fixed coordinates; a      *)
(* reflection reverses both.  What the package reports refers to one of    *)
(* two frames:                                                             *)
(*                                                                         *)
(*   "spin"    with respect to the direction of the spin: functions of     *)
(*             (a, p, e, x) and stable orbit objects, where x > 0 is       *)
(*             prograde whatever the sign of a;                            *)
(*   "coord"   in the coordinates in which a has the given sign:           *)
(*             trajectories with negative spin, plunging orbits and orbits *)
(*             from initial data.                                          *)
(*                                                                         *)
(* Parity says how a quantity changes under the reflection in a frame.  It *)
(* is what the trace specification holds the code to; the invariants check *)
(* it against the definition of the frames.                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Even == {"E", "Q", "t", "r", "theta", "ut", "ur", "utheta", "Yr", "Ytheta", "Gamma", "p", "e", "stable", "Omega", "Ysigned"}
Odd == {"L", "phi", "uphi", "x"}
Frames == {"spin", "coord"}
Parity(frame, q) == IF frame = "coord" /\ q \in Odd THEN -1 ELSE 1

VARIABLES sa, sl, n
vars == <<sa, sl, n>>
Signs == {1, -1}
\* s in spin, l sign of the angular momentum, as reported
Report(s, l, frame, q) ==
  IF q \notin Odd THEN 1 ELSE IF frame = "coord" THEN l ELSE s * l

Init == sa \in Signs /\ sl \in Signs /\ n = 0
Reflect == n < 3 /\ sa' = -sa /\ sl' = -sl /\ n' = n + 1
Next == Reflect
Spec == Init /\ [][Next]_vars

ParityInv == \A f \in Frames : \A q \in Even \cup Odd :
  Report(-sa, -sl, f, q) = Parity(f, q) * Report(sa, sl, f, q)
\* the spin frame cannot tell a reflection at all, the coordinate frame can
SpinBlind == \A q \in Even \cup Odd : Report(-sa, -sl, "spin", q) = Report(sa, sl, "spin", q)
Involution == \A f \in Frames : \A q \in Even \cup Odd : Parity(f, q) * Parity(f, q) = 1

\* entry points and the frame they report in
Entry == [ constants |-> "spin", stability |-> "spin", frequencies |-> "spin", object |-> "spin",
           trajectory |-> "coord", plunge |-> "coord", initialstable |-> "coord", initialplunge |-> "coord" ]
Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq({[entry |-> k, frame |-> Entry[k]] : k \in DOMAIN Entry}))
=============================================================================
