------------------------------- MODULE Plunge -------------------------------
(***************************************************************************)
(* Abstract model of the radial structure of bound Kerr geodesics: the     *)
(* order in which real roots of the radial polynomial (letters w, x, y, z  *)
(* in increasing order) and the two horizons (m, p) lie on the r axis.     *)
(*                                                                         *)
(* The constants of motion are varied continuously: roots merge and become *)
(* a complex pair, or a pair appears; a root never crosses a horizon (R is *)
(* positive on the horizons and between them).  TLC enumerates every order *)
(* reachable; the invariants state what a classification has to deliver:   *)
(* exactly one allowed region contains both horizons, the first two roots  *)
(* returned bound it, and a stable region, if there is one, lies outside.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

VARIABLE ax         \* the r axis: a sequence over {"root", "m", "p"}
Roots(s) == {i \in DOMAIN s : s[i] = "root"}
Count(s) == Cardinality(Roots(s))

\* E < 1 and Q > 0: R < 0 at r = 0 and at infinity, R > 0 between the horizons
Init == ax = <<"root", "m", "p", "root">>

Pos(s, c) == CHOOSE i \in DOMAIN s : s[i] = c
RemoveTwo(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 2, Len(s))
InsertTwo(s, i) == SubSeq(s, 1, i) \o <<"root", "root">> \o SubSeq(s, i + 1, Len(s))
\* a pair of roots merges (neighbours, with the region between them not containing the horizons)
Merge == /\ Count(ax) = 4
         /\ \E i \in 1 .. Len(ax) - 1 : ax[i] = "root" /\ ax[i + 1] = "root" /\ ax' = RemoveTwo(ax, i)
\* a pair appears where no horizon is between them
Appear == /\ Count(ax) = 2
          /\ \E i \in (0 .. Len(ax)) \ {Pos(ax, "m")} : ax' = InsertTwo(ax, i)
Next == Merge \/ Appear
Spec == Init /\ [][Next]_ax

Below(s, i) == Cardinality({j \in Roots(s) : j < i})
\* R > 0 where an odd number of roots lies below
Allowed(s, i) == Below(s, i) % 2 = 1
HorizonsAllowed == Allowed(ax, Pos(ax, "m")) /\ Allowed(ax, Pos(ax, "p")) /\ Pos(ax, "p") = Pos(ax, "m") + 1
Arrangement(s) ==
  IF Count(s) = 2 THEN "complex"
  ELSE IF Below(s, Pos(s, "m")) = 1 THEN "deep"        \* plunge inside, stable region outside
  ELSE IF Below(s, Pos(s, "m")) = 3 THEN "inner"       \* plunge outside, allowed region inside the inner horizon
  ELSE "impossible"
Known == Arrangement(ax) \in {"complex", "deep", "inner"}

\* the convention of the four roots returned: which root (counted from below) comes first, ...
Convention(arr) == CASE arr = "complex" -> <<1, 2>>
                     [] arr = "deep"    -> <<2, 1, 4, 3>>
                     [] arr = "inner"   -> <<4, 3, 2, 1>>
\* the first two bound the region with the horizons
ConventionInv ==
  LET c == Convention(Arrangement(ax))
      lo == IF c[1] < c[2] THEN c[1] ELSE c[2]
  IN Below(ax, Pos(ax, "m")) = lo

Orders == {"complex", "deep", "inner"}
Spins  == {"tiny", "small", "mid", "high", "extreme"}
Signs  == {"+", "-"}
Sense  == {"pro", "retro"}
Carter == {"equatorial", "tiny", "generic"}
Energy == {"low", "mid", "near1"}
Points == [arr : Orders, spin : Spins, sign : Signs, sense : Sense, carter : Carter, energy : Energy]
\* the inner pair needs a small Carter constant, and a root moves to r = 0 in the equatorial plane
Possible(q) == /\ q.arr = "inner" => q.carter = "tiny" /\ q.sense = "pro" /\ q.spin \in {"mid", "high"}
               /\ q.arr = "deep" => q.energy # "low"
Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq({q \in Points : Possible(q)}))
=============================================================================
