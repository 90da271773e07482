------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* Which arguments are accepted (P03).                                     *)
(*                                                                         *)
(* An argument tuple is a position on each of four axes.  Accepts is the   *)
(* documented domain of a family of entry points.  The transition system   *)
(* is how an entry point goes about it: it normalises the signs, looks at  *)
(* one guard after the other in any order and gives up at the first that   *)
(* is violated.  TLC shows that the answer is that of the domain, whatever *)
(* the order.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

\* positions on the axes ("nan": not a number)
Spins == {"under", "-one", "neg", "zero", "pos", "one", "over", "nan"}
Eccs  == {"neg", "zero", "mid", "one", "over", "nan"}
Incls == {"under", "-one", "neg", "zero", "pos", "one", "over", "nan"}
\* relative to the separatrix, where there is one
Semis == {"neg", "zero", "low", "below", "edge", "above", "far", "nan"}
\* families of entry points
Families == {"constants", "roots", "motion", "boundary"}

SpinOk(a) == a \in {"neg", "zero", "pos"}
EccOk(e) == e \in {"zero", "mid", "one"}
InclOk(x) == x \in {"-one", "neg", "zero", "pos", "one"}
SemiOk(p) == p \in {"above", "far"}
\* the boundary is documented for spins >= 0; negative ones may be refused
Optional(f, q) == f = "boundary" /\ q.a = "neg"
Accepts(f, q) ==
  /\ SpinOk(q.a) /\ EccOk(q.e) /\ InclOk(q.x)
  /\ f # "boundary" => SemiOk(q.p)
  /\ f \in {"roots", "motion"} => q.e # "one"
  /\ f = "motion" => q.x # "zero"

-----------------------------------------------------------------------------
VARIABLES q, fam, form, left, res
vars == <<q, fam, form, left, res>>

FlipA(a) == IF a = "under" THEN "over" ELSE IF a = "-one" THEN "one" ELSE IF a = "neg" THEN "pos" ELSE a
FlipX(x) == CASE x = "under" -> "over" [] x = "over" -> "under" [] x = "-one" -> "one" [] x = "one" -> "-one"
              [] x = "neg" -> "pos" [] x = "pos" -> "neg" [] OTHER -> x
Negative(a) == a \in {"under", "-one", "neg"}
Standardised(p) == IF Negative(p.a) THEN [p EXCEPT !.a = FlipA(@), !.x = FlipX(@)] ELSE p

Guards(f) == {"extreme", "range"} \cup (IF f = "boundary" THEN {} ELSE {"stable"})
             \cup (IF f \in {"roots", "motion"} THEN {"marginal"} ELSE {}) \cup (IF f = "motion" THEN {"polar"} ELSE {})
\* what a guard says about a normalised tuple
Violated(g, p) == CASE g = "extreme" -> p.a = "one"
                    [] g = "range" -> ~(p.a \in {"zero", "pos", "one"} /\ EccOk(p.e) /\ InclOk(p.x))
                    [] g = "marginal" -> p.e = "one"
                    [] g = "polar" -> p.x = "zero"
                    [] g = "stable" -> ~SemiOk(p.p)

Points == [a : Spins, e : Eccs, x : Incls, p : Semis]
Init == q \in Points /\ fam \in Families /\ form = "given" /\ left = Guards(fam) /\ res = "-"
Normalise == form = "given" /\ q' = Standardised(q) /\ form' = "standard" /\ UNCHANGED <<fam, left, res>>
Look(g) == /\ form = "standard" /\ res = "-" /\ g \in left
           /\ IF Violated(g, q) THEN res' = "ValueError" /\ left' = {} ELSE res' = res /\ left' = left \ {g}
           /\ UNCHANGED <<q, fam, form>>
Return == form = "standard" /\ res = "-" /\ left = {} /\ res' = "value" /\ UNCHANGED <<q, fam, form, left>>
Next == Normalise \/ (\E g \in left : Look(g)) \/ Return
Spec == Init /\ [][Next]_vars

Decided == res # "-" /\ ~(fam \notin {"boundary"} /\ q.p = "edge")
AnswerInv == Decided => (res = "value") = Accepts(fam, q)
\* reversing the spin with the inclination changes nothing
MirrorInv == \A f \in Families : Accepts(f, q) = Accepts(f, [q EXCEPT !.a = IF SpinOk(@) THEN FlipA(@) ELSE @, !.x = IF Negative(q.a) THEN FlipX(@) ELSE @])
\* what moves has roots, what has roots has constants, what has constants is on one side of the boundary
NestedInv == (Accepts("motion", q) => Accepts("roots", q)) /\ (Accepts("roots", q) => Accepts("constants", q)) /\ (Accepts("constants", q) => Accepts("boundary", q))

-----------------------------------------------------------------------------
(* Plunging orbits take constants: spin, energy.                             *)
Energies == {"under", "-one", "bound", "one", "over", "nan"}
PlungeAccepts(a, E) == a \in {"neg", "pos"} /\ E = "bound"

Tuples == {[what |-> "params", a |-> a, e |-> e, x |-> x, p |-> p] : a \in Spins, e \in Eccs, x \in Incls, p \in Semis}
          \cup {[what |-> "plunge", a |-> a, e |-> e, x |-> "-", p |-> "-"] : a \in Spins, e \in Energies}
          \cup {[what |-> w, a |-> a, e |-> "-", x |-> "-", p |-> "-"] : w \in {"state", "recover"}, a \in Spins}
Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq(Tuples))
=============================================================================
