-------------------------------- MODULE Kerr --------------------------------
(***************************************************************************)
(* Timelike geodesics of Kerr spacetime (G = c = M = 1), written over the  *)
(* exact arithmetic of BF.  a is the spin, (E, L, Q) energy, angular       *)
(* momentum and Carter constant per unit mass, r the Boyer-Lindquist       *)
(* radius, z = cos(theta), and a dot is d/dlambda (Mino time):             *)
(*                                                                         *)
(*   rdot^2 = R(r)                                                         *)
(*   zdot^2 = V(z)                                                         *)
(*   tdot   = (r^2+a^2) P / Delta - a (a E (1-z^2) - L)                    *)
(*   phidot = a P / Delta - a E + L / (1-z^2)                              *)
(*                                                                         *)
(* Nothing here is taken from the implementation: these equations are the  *)
(* oracle.  Everything with a denominator is given multiplied out.         *)
(***************************************************************************)
EXTENDS BF

x \oplus y == Add(x, y)
x \ominus y == Sub(x, y)
x \otimes y == Mul(x, y)

I(n) == FromInt(n)
Two == FromInt(2)

\* pi to 112 bits after the point (8 limbs of 14 bits)
PI == <<1, -8, <<880, 10424, 12696, 13508, 8968, 8726, 13992, 2319, 3>>>>
-----------------------------------------------------------------------------
Delta(a, r) == Add3(Sq(r), Neg(Mul(Two, r)), Sq(a))
Sigma(a, r, z) == Add(Sq(r), Sq(Mul(a, z)))
Beta(a, E) == Sq(a) \otimes (One \ominus Sq(E))          \* a^2 (1 - E^2)

P(a, E, L, r) == (E \otimes (Sq(r) \oplus Sq(a))) \ominus (a \otimes L)
K(a, E, L, Q, r) == Add3(Sq(r), Sq(Mul(a, E) \ominus L), Q)

(* The radial polynomial, the size of its terms, and its derivatives *)
R(a, E, L, Q, r) == Sq(P(a, E, L, r)) \ominus (Delta(a, r) \otimes K(a, E, L, Q, r))
RMag(a, E, L, Q, r) ==
  Sq(P(a, E, L, r)) \oplus (Abs(Delta(a, r)) \otimes Abs(K(a, E, L, Q, r)))

\* coefficients c0 .. c4 of R = Sum c_k r^k
RCoef(a, E, L, Q) ==
  << Neg(Sq(a) \otimes Q),
     Add4(Mul(Two, Sq(L)), Mul(Two, Q), Mul(Two, Sq(Mul(a, E))), Neg(Mul4(I(4), a, E, L))),
     Sq(Mul(a, E)) \ominus Add3(Sq(L), Q, Sq(a)),
     Two,
     Sq(E) \ominus One >>
\* the same with every term of every coefficient counted positively
RCoefMag(a, E, L, Q) ==
  << Sq(a) \otimes Abs(Q),
     Add4(Mul(Two, Sq(L)), Mul(Two, Abs(Q)), Mul(Two, Sq(Mul(a, E))), Abs(Mul4(I(4), a, E, L))),
     Sq(Mul(a, E)) \oplus Add3(Sq(L), Abs(Q), Sq(a)),
     Two,
     Sq(E) \oplus One >>

\* Sum c_k n^k d^(4-k):  d^4 times the quartic at n/d
Hom4(c, n, d) ==
  LET n2 == Sq(n)  d2 == Sq(d)
  IN Add(Add4(Mul3(c[1], d2, d2), Mul4(c[2], n, d, d2), Mul3(c[3], n2, d2), Mul4(c[4], n2, n, d)),
         Mul3(c[5], n2, n2))
\* d^3 times the derivative of the quartic at n/d, and d^2 times the second derivative
DHom4(c, n, d) ==
  Add4(Mul4(c[2], d, d, d), Mul4(Two, c[3], n, Sq(d)), Mul4(I(3), c[4], Sq(n), d),
       Mul4(I(4), c[5], n, Sq(n)))
D2Hom4(c, n, d) ==
  Add3(Mul3(Two, c[3], Sq(d)), Mul4(I(6), c[4], n, d), Mul3(I(12), c[5], Sq(n)))

(* The polar potential in z = cos(theta) *)
V(a, E, L, Q, z) ==
  LET z2 == Sq(z)
  IN Q \ominus (z2 \otimes Add3(Q, Beta(a, E) \otimes (One \ominus z2), Sq(L)))
VMag(a, E, L, Q) == Add3(Abs(Q), Sq(L), Sq(a))

(* Delta tdot   and   Delta (1 - z^2) phidot,  and the size of their terms *)
TRateD(a, E, L, r, z) ==
  ((Sq(r) \oplus Sq(a)) \otimes P(a, E, L, r))
  \ominus Mul3(Delta(a, r), a, Mul3(a, E, One \ominus Sq(z)) \ominus L)
TRateMag(a, E, L, r, z) ==
  Abs((Sq(r) \oplus Sq(a)) \otimes P(a, E, L, r))
  \oplus Mul3(Abs(Delta(a, r)), Abs(a), Abs(Mul(a, E)) \oplus Abs(L))
PhiRateDS(a, E, L, r, z) ==
  LET s2 == One \ominus Sq(z)
  IN Add3(Mul3(s2, a, P(a, E, L, r)), Mul(Delta(a, r), L), Neg(Mul4(Delta(a, r), s2, a, E)))
PhiRateMag(a, E, L, r, z) ==
  LET s2 == One \ominus Sq(z)
  IN Add3(Abs(Mul3(s2, a, P(a, E, L, r))), Abs(Mul(Delta(a, r), L)), Abs(Mul4(Delta(a, r), s2, a, E)))

-----------------------------------------------------------------------------
(* The metric times Sigma, and g(v, v) times Sigma Delta.                  *)
(* s2 = sin^2(theta) = 1 - z^2.                                            *)
SgTT(a, r, z) == Mul(Two, r) \ominus Sigma(a, r, z)
SgTP(a, r, z) == Neg(Mul4(Two, a, r, One \ominus Sq(z)))
SgPP(a, r, z) ==
  LET s2 == One \ominus Sq(z)
  IN s2 \otimes (Mul(Sq(r) \oplus Sq(a), Sigma(a, r, z)) \oplus Mul4(Two, Sq(a), r, s2))

\* Sigma Delta g(u, v)
SDg(a, r, z, u, v) ==
  LET D == Delta(a, r)
      S == Sigma(a, r, z)
  IN Add4(Mul4(D, SgTT(a, r, z), u[1], v[1]),
          Mul3(D, SgTP(a, r, z), Mul(u[1], v[4]) \oplus Mul(u[4], v[1])),
          Mul4(D, SgPP(a, r, z), u[4], v[4]),
          Mul(Sq(S), Mul(u[2], v[2]) \oplus Mul3(D, u[3], v[3])))
SDgMag(a, r, z, u, v) ==
  LET D == Abs(Delta(a, r))
      S == Sigma(a, r, z)
  IN Add4(Mul4(D, Add(Mul(Two, Abs(r)), S), Abs(u[1]), Abs(v[1])),
          Mul3(D, Abs(SgTP(a, r, z)), Abs(Mul(u[1], v[4])) \oplus Abs(Mul(u[4], v[1]))),
          Mul4(D, IF Ge(r, Zero) THEN Abs(SgPP(a, r, z)) ELSE SgPP(a, Abs(r), z), Abs(u[4]), Abs(v[4])),
          Mul(Sq(S), Abs(Mul(u[2], v[2])) \oplus Mul3(D, Abs(u[3]), Abs(v[3]))))
=============================================================================
