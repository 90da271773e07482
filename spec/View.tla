-------------------------------- MODULE View --------------------------------
(***************************************************************************)
(* What is seen of an orbit (P18).                                         *)
(*                                                                         *)
(* A point P is seen from direction d if the straight line from P towards  *)
(* the observer never meets the ball of the horizon.  The transition       *)
(* system sends light from P along d in short steps and absorbs it in the  *)
(* ball; Visible is the closed formula; TLC shows that they agree but for  *)
(* rays that graze the ball.  Lengths are in units of 1/(4 norm).          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

\* directions with their integer norms
Dirs == { <<1, 0, 0, 1>>, <<0, -1, 0, 1>>, <<0, 0, 1, 1>>, <<0, 0, -1, 1>>, <<3, 4, 0, 5>>, <<-4, 0, 3, 5>>, <<1, 2, 2, 3>>, <<-2, -1, -2, 3>>, <<2, -3, -6, 7>> }
Radii2 == {1, 2, 4}           \* squared horizon radii
Side == -3 .. 3

VARIABLES P, d, h2, pos, res
vars == <<P, d, h2, pos, res>>

Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
U(n) == 4 * n
Scaled(p, n) == [i \in 1 .. 3 |-> U(n) * p[i]]
Ball(n, k) == k * U(n) * U(n)
Init == /\ P \in Side \X Side \X Side /\ d \in Dirs /\ h2 \in Radii2 /\ pos = Scaled(P, d[4])
        /\ res = "-"
\* one step has length norm, that is a quarter of the unit
Move == /\ res = "-"
        /\ IF Dot(pos, pos) <= Ball(d[4], h2) THEN res' = "absorbed" /\ pos' = pos
           ELSE IF Dot(pos, d) > 0 THEN res' = "seen" /\ pos' = pos      \* on its way out
           ELSE res' = res /\ pos' = [i \in 1 .. 3 |-> pos[i] + d[i]]
        /\ UNCHANGED <<P, d, h2>>
Next == Move
Spec == Init /\ [][Next]_vars

\* outside of the ball, and in front of its centre or beside its disc
Outside(p) == Dot(p, p) > h2
Along(p) == Dot(p, d)            \* times norm
Beside2(p) == Dot(p, p) * d[4] * d[4] - Along(p) * Along(p)      \* squared distance from the line of sight of the centre, times norm^2
Visible(p) == Outside(p) /\ (Along(p) >= 0 \/ Beside2(p) > h2 * d[4] * d[4])
\* a chord shorter than a step can be stepped over
Grazing(p) == Beside2(p) * 16 >= (16 * h2 - 1) * d[4] * d[4] \/ ~Outside(p)
RayInv == /\ res = "absorbed" => ~Visible(P)
          /\ res = "seen" => Visible(P) \/ Grazing(P)
\* what is seen stays so on its way to the observer
NearerInv == Visible(P) => Visible([i \in 1 .. 3 |-> P[i] + d[i]])

-----------------------------------------------------------------------------
\* plots: what is drawn, from where, how
Kinds == {"stable", "circular", "equatorial", "retrograde", "near", "plunge", "orbit"}
Views == {"default", "pole", "below", "side", "wrapped", "any"}
Phases == {"own", "given"}
Spans == {"origin", "negative", "late"}
Looks == {"plain", "fading", "bare"}
\* "against": from the side opposite to an extreme point of the orbit, which the hole hides
Plots == [what : {"plot"}, kind : Kinds, view : Views \cup {"against"}, phases : Phases, span : Spans, look : Looks]
Spins == {"zero", "tiny", "mid", "high", "negative"}
Places == {"shell", "behind", "edge", "front", "mixed", "far"}
Forms == {"array", "list"}
Points == [what : {"points"}, spin : Spins, place : Places, view : Views, form : Forms]
Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq(Plots) \o SetToSeq(Points))
=============================================================================
