--------------------------- MODULE TraceConstants ---------------------------
(***************************************************************************)
(* P01.  Constants of motion recorded from the code against the geodesic   *)
(* they are supposed to belong to.  With n1/d1 = p/(1-e) and n2/d2 =       *)
(* p/(1+e) every statement is polynomial and evaluated exactly; the        *)
(* tolerances only allow for the rounding of the code under test, as       *)
(* backward error relative to the size of the terms of each polynomial.    *)
(***************************************************************************)
EXTENDS TraceBase

Zeroish(v, mag, n) == Le(Abs(v), Mul(Tol(n), mag))

ConstantsVerdict(e) ==
  LET a == e.a  p == e.p  ec == e.e  x == e.x
      E == e.E  L == e.L  Q == e.Q
      c == RCoef(a, E, L, Q)
      m == RCoefMag(a, E, L, Q)
      dout == One \ominus ec
      din  == One \oplus ec
      circ == Eq(ec, Zero)
      marg == Eq(ec, One)
      x2 == Sq(x)
      z2 == One \ominus x2
      \* a point inside the radial range: halfway, or twice the periapsis when there is no apoapsis
      midn == IF marg THEN p ELSE Mul(p, Two)          \* numerator and denominator of the test radius
      midd == IF marg THEN One ELSE Mul(din, dout) \otimes Two
      \* r = p/(1-e) and p/(1+e): mean = p / (1-e^2)
      Pn(n, d) == (E \otimes (Sq(n) \oplus Mul(Sq(a), Sq(d)))) \ominus Mul3(a, L, Sq(d))
      \* away from e = 1 the turning points are where they should be to a few ulps, which is what
      \* keeps the eccentricity of nearly circular orbits (R has almost a double root there)
      n == 42
  IN [ Finite |-> AllNum(<<E, L, Q>>),
       InnerTurningPoint |-> Zeroish(Hom4(c, p, din), Hom4(m, p, din), n),
       OuterTurningPoint |-> Zeroish(Hom4(c, p, dout), Hom4(m, p, dout), n),
       DoubleRoot |-> circ => Zeroish(DHom4(c, p, One), DHom4(m, p, One), 30),
       MaximumAtDoubleRoot |-> circ => Le(D2Hom4(c, p, One), Mul(Tol(33), D2Hom4(m, p, One))),
       MotionBetween |-> ~circ => Ge(Hom4(c, midn, midd), Neg(Mul(Tol(33), Hom4(m, midn, midd)))),
       MarginallyBound |-> marg => Eq(E, One),
       Bound |-> ~marg => Gt(E, Zero) /\ Lt(E, One),
       Inclination |-> Zeroish((Q \otimes x2) \ominus Mul(z2, Mul(Beta(a, E), x2) \oplus Sq(L)),
                               Add(Mul(Abs(Q), x2), Mul(z2, Mul(Beta(a, E), x2) \oplus Sq(L))) \oplus Mul(Tol(20), Sq(L)), 30),
       CarterSign |-> Ge(Q, Neg(Tol(45))),
       Equatorial |-> Eq(z2, Zero) => Le(Abs(Q), Mul(Tol(45), Sq(L))),
       FutureDirected |-> Gt(Pn(p, din), Zero),
       Sense |-> IF Eq(x, Zero) THEN Eq(L, Zero) ELSE Sgn(L) = Sgn(x),
       \* the other ways to ask for the same numbers
       SingleEnergy |-> RelEq(E, e.E1, Tol(36)),
       SingleMomentum |-> Eq(L, e.L1) \/ RelEq(L, e.L1, Tol(33)),
       SingleCarter |-> Eq(Q, e.Q1) \/ RelEq(Q, e.Q1, Tol(30)),
       PrecomputedMomentum |-> Eq(L, e.L2) \/ RelEq(L, e.L2, Tol(33)),
       PrecomputedCarter |-> /\ Eq(Q, e.Q2) \/ RelEq(Q, e.Q2, Tol(30))
                             /\ Eq(Q, e.Q3) \/ RelEq(Q, e.Q3, Tol(30)) ]

Constants == Is("Constants") /\ Verdict(ConstantsVerdict(Ev)) /\ l' = l + 1

Init == l = 1
Next == Constants \/ Failed
Spec == Init /\ [][Next]_l
=============================================================================
