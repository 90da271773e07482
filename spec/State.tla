------------------------------- MODULE State --------------------------------
(***************************************************************************)
(* A particle on the r axis.  The axis is the order of the real roots of   *)
(* the radial polynomial and of the two horizons (m, p) - every order that *)
(* can occur for 0 < E < 1, Q > 0, see Plunge.tla - and the particle sits  *)
(* in one of the gaps.  The geodesic flow moves it within its allowed      *)
(* region; constants of motion vary by merging and splitting roots.        *)
(*                                                                         *)
(* What the particle does is defined by the region it is in; what the code *)
(* has to decide with is the number of roots above the outer horizon and   *)
(* above the particle.  DecisionInv: the two agree.  The trace             *)
(* specifications use the decision, with exact root counts (Sturm.tla).    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

VARIABLES ax, at
vars == <<ax, at>>
Axes == { <<"root", "m", "p", "root">>,
          <<"root", "m", "p", "root", "root", "root">>,
          <<"root", "root", "root", "m", "p", "root">> }
Gaps(s) == 0 .. Len(s)                    \* gap i lies between s[i] and s[i+1]
Roots(s) == {i \in DOMAIN s : s[i] = "root"}
Pos(s, c) == CHOOSE i \in DOMAIN s : s[i] = c
BelowGap(s, g) == Cardinality({i \in Roots(s) : i <= g})
AboveGap(s, g) == Cardinality({i \in Roots(s) : i > g})
Allowed(s, g) == BelowGap(s, g) % 2 = 1   \* R > 0

Init == ax \in Axes /\ at \in Gaps(ax) /\ Allowed(ax, at)
\* moving past a horizon, never past a root
Move == \E d \in {-1, 1} :
          /\ at + d \in Gaps(ax)
          /\ ax[IF d = 1 THEN at + 1 ELSE at] \in {"m", "p"}
          /\ at' = at + d /\ UNCHANGED ax
Next == Move
Spec == Init /\ [][Next]_vars

\* the region: all gaps reachable without passing a root
Region(s, g) == {h \in Gaps(s) : \A i \in Roots(s) : (i <= g) <=> (i <= h)}
Kind(s, g) == IF Pos(s, "m") \in Region(s, g) THEN "plunge"          \* the gap above the inner horizon
              ELSE IF g >= Pos(s, "p") THEN "stable" ELSE "inside"

\* decision by counting
NOuter(s) == AboveGap(s, Pos(s, "m"))     \* roots above the horizons
Decide(nout, above, below) ==
  IF nout = 3 THEN (IF above = 1 /\ below = 3 THEN "stable" ELSE IF above = 3 THEN "plunge" ELSE "forbidden")
  ELSE IF nout = 1 /\ above = 1 THEN "plunge"
  ELSE IF nout = 1 /\ above = 3 THEN "inside" ELSE "forbidden"
DecisionInv == Kind(ax, at) = Decide(NOuter(ax), AboveGap(ax, at), BelowGap(ax, at))
AllowedInv == Allowed(ax, at)
\* the kind is a constant of the motion, and stable motion never meets a horizon
KindConstant == [][Kind(ax, at)' = Kind(ax, at)]_vars
StableOutside == Kind(ax, at) = "stable" => at > Pos(ax, "p")
\* stable motion is possible exactly if three roots lie outside the horizons
AdmitsStable(s) == \E g \in Gaps(s) : Allowed(s, g) /\ Kind(s, g) = "stable"
AdmitsInv == AdmitsStable(ax) <=> NOuter(ax) = 3

\* constants of motion of every kind, for P13
Energies == {"negative", "zero", "low", "mid", "near1", "one", "unbound"}
Carters == {"negative", "zero", "tiny", "generic"}
Origins == {"stable", "shiftedE", "shiftedL", "shiftedQ", "random", "inner", "deep", "complex"}
Spins == {"zero", "tiny", "small", "mid", "high", "extreme"}
Constants == [energy : Energies, carter : Carters, origin : Origins, spin : Spins, sign : {"+", "-"}, sense : {"pro", "retro"}]
Sensible(q) == /\ (q.origin # "random") => q.energy \in {"low", "mid", "near1"} /\ q.carter \in {"tiny", "generic"}
               /\ (q.origin \in {"inner", "deep", "complex"}) => q.spin # "zero"
               /\ q.origin = "inner" => q.spin \in {"mid", "high"} /\ q.sense = "pro" /\ q.carter = "tiny"
               /\ q.origin = "deep" => q.energy # "low"
               /\ q.spin = "zero" => q.sign = "+"
Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq({q \in Constants : Sensible(q)}))
=============================================================================
