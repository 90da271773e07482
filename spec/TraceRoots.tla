----------------------------- MODULE TraceRoots -----------------------------
(***************************************************************************)
(* Recorded roots of the potentials (P21).  Radial roots are held to       *)
(* Vieta's relations with the coefficients of R, polar roots to those of   *)
(* the polar potential in z = cos^2(theta) (Polar.tla), all multiplied out.*)
(***************************************************************************)
EXTENDS TraceBase

Within(v, mag, n) == Le(Abs(v), Mul(Tol(n), mag))
Abs4(v) == Add4(Abs(v[1]), Abs(v[2]), Abs(v[3]), Abs(v[4]))

\* f(z), and the size of its terms
PolarAt(e, z) == Sub(Add(Mul(Beta(e.a, e.E), Sq(z)), e.Q), Mul(z, Add3(Sq(e.L), e.Q, Beta(e.a, e.E))))
\* (1 - E^2 is known no better than to an ulp of 1)
PolarMag(e, z) == Add(Add(Mul(Sq(e.a), Sq(z)), e.Q), Mul(Abs(z), Add3(Sq(e.L), e.Q, Sq(e.a))))
\* without spin there is no larger root
Lower(e, z) == Ge(z, Zero) /\ Le(z, One \oplus Tol(48))
Upper(e, z) == Eq(e.a, Zero) \/ Ge(z, One \ominus Tol(40))

\* roots r of the orbit (a, p, ec, x) with constants E, L, Q; again: with the constants given; z: polar roots
StableVerdict(e) ==
  LET r == e.r
      k == One \ominus Sq(e.E)
      c == RCoef(e.a, e.E, e.L, e.Q)
      m == RCoefMag(e.a, e.E, e.L, e.Q)
      s1 == Add4(r[1], r[2], r[3], r[4])
      s2 == Add3(Mul(r[1], Add3(r[2], r[3], r[4])), Mul(r[2], r[3] \oplus r[4]), Mul(r[3], r[4]))
      s3 == Add(Mul3(r[1], r[2], r[3] \oplus r[4]), Mul3(r[3], r[4], r[1] \oplus r[2]))
      s4 == Mul4(r[1], r[2], r[3], r[4])
      \* k is known no better than to an ulp of 1, which matters for nearly unbound orbits
      Holds(v, mag, sum, n) == Le(Abs(v), Mul(Tol(n), mag) \oplus Mul(Tol(49), sum))
  IN [ Finite |-> AllNum(r) /\ Len(r) = 4,
       Outer |-> RelEq(Mul(r[1], One \ominus e.e), e.p, Tol(46)),
       Inner |-> RelEq(Mul(r[2], One \oplus e.e), e.p, Tol(46)),
       Order |-> Ge(r[1], r[2]) /\ Gt(r[2], r[3]) /\ Ge(r[3], r[4]) /\ Ge(r[4], Neg(Tol(45))),
       Sum |-> Holds(Mul(k, s1) \ominus Two, Two, s1, 40),
       Product |-> Holds(Mul(k, s4) \ominus Mul(Sq(e.a), e.Q), Mul(Sq(e.a), Abs(e.Q)) \oplus Tol(60), s4, 40),
       Pairs |-> Holds(Mul(k, s2) \oplus c[3], m[3] \oplus Mul(k, s2), s2, 34),
       Triples |-> Holds(Mul(k, s3) \ominus c[2], m[2] \oplus Mul(k, s3), s3 \oplus Mul3(r[1], r[2], r[1] \oplus r[2]), 34),
       Again |-> \A i \in 1 .. 4 : RelEq(r[i], e.again[i], Tol(40)) \/ Eq(r[i], e.again[i]) ]
Stable == Is("Stable") /\ Verdict(StableVerdict(Ev)) /\ l' = l + 1

\* polar roots of a stable orbit: from its parameters, with the constants given, and from the constants
PolarStableVerdict(e) ==
  [ Inclination |-> \A w \in {e.z, e.again} : Near(w[1], One \ominus Sq(e.x), Tol(48)),
    Lower |-> \A w \in {e.z, e.again} : Lower(e, w[1]) /\ Within(PolarAt(e, w[1]), PolarMag(e, w[1]) \oplus Mul(Tol(20), Sq(e.L)), 28),
    Upper |-> Eq(e.a, Zero) \/ \A w \in {e.z, e.again} : Upper(e, w[2]) /\ Within(PolarAt(e, w[2]), PolarMag(e, w[2]), 28) ]
PolarStable == Is("PolarStable") /\ Verdict(PolarStableVerdict(Ev)) /\ l' = l + 1

\* polar roots from constants
PolarVerdict(e) ==
  [ Lower |-> Lower(e, e.z[1]) /\ Within(PolarAt(e, e.z[1]), PolarMag(e, e.z[1]), 46),
    Equator |-> Eq(e.Q, Zero) => Eq(e.z[1], Zero),
    Upper |-> Eq(e.a, Zero) \/ (Upper(e, e.z[2]) /\ Within(PolarAt(e, e.z[2]), PolarMag(e, e.z[2]), 46)),
    Product |-> Eq(e.a, Zero) \/ Within(Mul3(Beta(e.a, e.E), e.z[1], e.z[2]) \ominus e.Q, Mul3(Sq(e.a), e.z[1], e.z[2]) \oplus e.Q, 46) ]
PolarEv == Is("Polar") /\ Verdict(PolarVerdict(Ev)) /\ l' = l + 1

Init == l = 1
Next == Stable \/ PolarStable \/ PolarEv \/ Failed
Spec == Init /\ [][Next]_l
=============================================================================
