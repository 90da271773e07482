--------------------------- MODULE TraceSeparatrix ---------------------------
(***************************************************************************)
(* P02.  A walk over the inclination at fixed spin and eccentricity.       *)
(*                                                                         *)
(* "Begin" sets (a, e).  "Sep" reports the separatrix at an inclination.   *)
(* "Probe" reports the verdict for one p together with witness constants   *)
(* (E, L, Q) of the geodesic (a, p, e, x), found without the code under    *)
(* test; they are verified here before use.  With r1 = p/(1-e) and         *)
(* r2 = p/(1+e) the product of the distances of r2 from the remaining two  *)
(* roots of R is, up to a positive factor, by Vieta                        *)
(*    G = b r2^2 (2 r1 + r2) - (a^2 b + L^2 + Q) r2                        *)
(*        + a^2 Q (2/r1 + 1/r2)                       with b = 1 - E^2     *)
(* so that the separatrix is G = 0 and G > 0 for stable orbits.  This form *)
(* keeps its digits where b is small, next to e = 1.                       *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES a, ec, lastx, lastp, ps

vars == <<l, a, ec, lastx, lastp, ps>>

Begin == /\ Is("Begin") /\ a' = Ev.a /\ ec' = Ev.e
         /\ lastx' = NaN /\ lastp' = NaN /\ ps' = NaN /\ l' = l + 1

SepVerdict(e) ==
  [ Finite |-> AllNum(<<e.ps, e.ps2>>),
    SameThroughSpacetime |-> RelEq(e.ps, e.ps2, Tol(38)),
    NoSpin |-> Eq(a, Zero) => RelEq(e.ps, I(6) \oplus Mul(Two, ec), Tol(45)),
    Range |-> Ge(e.ps, Mul(One \ominus Tol(30), One \oplus ec)) /\ Le(e.ps, I(12)),
    \* more prograde, lower boundary
    Monotone |-> IsNum(lastx) /\ Gt(e.x, lastx) => Le(e.ps, Mul(One \oplus Tol(22), lastp)),
    \* what is at the boundary is not stable
    NotStableAt |-> e.stab = FALSE /\ e.stab2 = FALSE ]

Sep == /\ Is("Sep") /\ Verdict(SepVerdict(Ev))
       /\ lastx' = Ev.x /\ lastp' = Ev.ps /\ ps' = Ev.ps
       /\ UNCHANGED <<a, ec>> /\ l' = l + 1

(* G with r1 = p/d1, r2 = p/d2, d1 = 1-e, d2 = 1+e, times d1 d2^3 p           *)
GTerms(p, E, L, Q) ==
  LET d1 == One \ominus ec
      d2 == One \oplus ec
      b == One \ominus Sq(E)
      p3 == Mul3(p, p, p)
  IN IF Eq(ec, One)
     \* R = 2 r^3 - (L^2+Q) r^2 + ...; with r2 = p/2 and times 8 r2
     THEN << Mul(Two, p3), Neg((Sq(L) \oplus Q) \otimes Sq(p)), Mul3(I(4), Sq(a), Q) >>
     ELSE << Mul(Mul3(b, p3, p), Add3(d2, d2, d1)),
             Neg(Mul4(Add3(Mul(Sq(a), b), Sq(L), Q), Sq(p), d1, Sq(d2))),
             Mul3(Sq(a), Q, Mul3(Add3(d1, d1, d2), d1, Mul3(d2, d2, d2))) >>

\* 1 - E^2 is known no better than to an ulp of 1
Ulp(p) == IF Eq(ec, One) THEN Zero ELSE Mul(Tol(49), Sq(Sq(p)))

\* the witness belongs to (a, p, e, x)
WitnessOk(e) ==
  LET p == e.p  x == e.x  E == e.E  L == e.L  Q == e.Q
      c == RCoef(a, E, L, Q)
      m == RCoefMag(a, E, L, Q)
      dout == One \ominus ec
      din  == One \oplus ec
      x2 == Sq(x)
      z2 == One \ominus x2
  IN /\ AllNum(<<E, L, Q>>)
     /\ Le(Abs(Hom4(c, p, din)), Mul(Tol(38), Hom4(m, p, din)))
     /\ Le(Abs(Hom4(c, p, dout)), Mul(Tol(38), Hom4(m, p, dout)))
     /\ Eq(ec, Zero) => Le(Abs(DHom4(c, p, One)), Mul(Tol(38), DHom4(m, p, One)))
     /\ IF Eq(x, Zero) THEN Eq(L, Zero)
        ELSE Le(Abs((Q \otimes x2) \ominus Mul(z2, Mul(Beta(a, E), x2) \oplus Sq(L))),
                Mul(Tol(36), Mul(z2, Mul(Beta(a, E), x2) \oplus Sq(L)) \oplus Tol(20)))
     /\ Sgn(L) = Sgn(x)
     /\ Gt((E \otimes (Sq(p) \oplus Mul(Sq(a), Sq(din)))) \ominus Mul3(a, L, Sq(din)), Zero)

\* r2 = p/(1+e) lies outside the outer horizon
OutsideHorizon(e) ==
  LET d == One \oplus ec
  IN Gt(e.p, d) /\ Gt(Add3(Sq(e.p), Neg(Mul3(Two, e.p, d)), Mul(Sq(a), Sq(d))), Zero)

Truth(e) ==
  LET t == GTerms(e.p, e.E, e.L, e.Q)
      s == SumSeq(t)
      g == SumSeq(<<Abs(t[1]), Abs(t[2]), Abs(t[3])>>)
      noise == Mul(Tol(34), g) \oplus Ulp(e.p)
  IN IF e.off = "in" \/ ~OutsideHorizon(e) THEN "no"
     ELSE IF ~e.has THEN "none"
     ELSE IF Gt(s, noise) THEN "yes"
     ELSE IF Lt(s, Neg(noise)) THEN "no"
     ELSE "edge"

ProbeVerdict(e) ==
  LET t == GTerms(e.p, e.E, e.L, e.Q)
      s == SumSeq(t)
      g == SumSeq(<<Abs(t[1]), Abs(t[2]), Abs(t[3])>>)
      truth == Truth(e)
  IN [ Witness |-> e.has /\ e.off # "in" /\ OutsideHorizon(e) => WitnessOk(e),
       \* at the boundary the inner turning point is a double root
       DoubleRoot |-> e.off = "at" => e.has /\ Le(Abs(s), Mul(Tol(24), g) \oplus Ulp(e.p)),
       \* the verdict is that of the root structure
       Physical |-> CASE e.off = "at" -> TRUE
                      [] truth = "yes" -> e.stable
                      [] truth = "no" -> ~e.stable
                      [] OTHER -> TRUE,
       StableExists |-> e.stable => e.has,
       \* and that of the boundary reported
       Boundary |-> e.off # "at" => (e.stable <=> Gt(e.p, ps)),
       SameThroughSpacetime |-> e.stable = e.stable2 ]

Probe == Is("Probe") /\ Verdict(ProbeVerdict(Ev)) /\ UNCHANGED <<a, ec, lastx, lastp, ps>> /\ l' = l + 1

Init == l = 1 /\ a = NaN /\ ec = NaN /\ lastx = NaN /\ lastp = NaN /\ ps = NaN
Next == Begin \/ Sep \/ Probe \/ (Failed /\ UNCHANGED <<a, ec, lastx, lastp, ps>>)
Spec == Init /\ [][Next]_vars
=============================================================================
