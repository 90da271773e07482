-------------------------------- MODULE Movie -------------------------------
(***************************************************************************)
(* Frames of an animation (P20).                                           *)
(*                                                                         *)
(* The orbit is sampled at points 0 .. total-1, rate of them per unit of   *)
(* Mino time; every frame advances by mult points.  Operationally the tail *)
(* is a queue: the body leaves the points it passes behind, and those      *)
(* older than the tail length are dropped.  TLC shows that the queue is    *)
(* the window the frame's number determines, that every frame is drawn and *)
(* that no point is left out when the tail is at least as long as a step.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

VARIABLES total, mult, tail, i, body, queue, shown, drawn
vars == <<total, mult, tail, i, body, queue, shown, drawn>>

Frames == total \div mult
Init == /\ total \in 1 .. 14 /\ mult \in 1 .. 5 /\ tail \in 0 .. 9
        /\ i = 0 /\ body = 0 /\ queue = <<>> /\ shown = {} /\ drawn = 0
\* draw the frame
Draw == /\ drawn = i /\ i < Frames /\ drawn' = i + 1 /\ shown' = shown \cup {queue[k] : k \in DOMAIN queue}
        /\ UNCHANGED <<total, mult, tail, i, body, queue>>
\* let time go on
Passed(q, from, n) == q \o [k \in 1 .. n |-> from + k - 1]
Drop(q) == IF Len(q) <= tail THEN q ELSE SubSeq(q, Len(q) - tail + 1, Len(q))
Advance == /\ drawn = i + 1 /\ i + 1 < Frames /\ i' = i + 1 /\ body' = body + mult
           /\ queue' = Drop(Passed(queue, body, mult))
           /\ UNCHANGED <<total, mult, tail, shown, drawn>>
Next == Draw \/ Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Larger(a, b) == IF a > b THEN a ELSE b
Window == LET j == mult * i  j0 == Larger(0, j - tail) IN [k \in 1 .. j - j0 |-> j0 + k - 1]
WindowInv == queue = Window /\ body = mult * i
InRange == Frames > 0 => body < total
AgeInv == \A k \in DOMAIN queue : body - queue[k] <= tail /\ queue[k] < body
\* everything the body has passed when the last frame is drawn has been shown, if the tail is long enough
CoverInv == (drawn = Frames /\ drawn > 0 /\ tail >= mult) => shown = 0 .. body - 1
AllDrawn == <>(drawn = Frames)

-----------------------------------------------------------------------------
Kinds == {"stable", "circular", "near", "plunge", "orbit"}
Speeds == {"eighth", "quarter", "half", "one", "two"}
Tails == {"zero", "short", "fraction", "whole", "long"}
Cameras == {"default", "fixed", "pan", "tilt", "roll"}
Limits == {"auto", "given"}
Options == {"plain", "components", "background", "bare"}
Spans == {"origin", "negative", "late"}
Phases == {"own", "given"}
Scenarios == [kind : Kinds, speed : Speeds, tail : Tails, camera : Cameras, limit : Limits, option : Options, span : Spans, phases : Phases]
Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq(Scenarios))
=============================================================================
