------------------------------ MODULE Geodesic ------------------------------
(***************************************************************************)
(* A recorded motion against the geodesic equations.                       *)
(*                                                                         *)
(* An orbit is a record [a, E, L, Q, hin, hid, lon, lod, zz, mid, plunge,  *)
(* Rs, RM, VM]: constants of motion, the turning points hi = hin/hid and   *)
(* lo = lon/lod, zz = cos^2 of the polar turning point, a radius mid       *)
(* between the turning points, Rs = R(mid) (the size of R on the orbit)    *)
(* and RM, VM (the sizes of the terms of R and V).                         *)
(*                                                                         *)
(* A sample is <<t, r, theta, z, s, phi, X, Y>> with z, s cosine and sine  *)
(* of theta and (X, Y) = s (cos phi, sin phi).  Samples of a sequence are  *)
(* one step h of Mino time apart; derivatives are central differences of   *)
(* eighth order, and 840 h times the derivative is an exact combination of *)
(* samples.                                                                *)
(***************************************************************************)
EXTENDS TraceBase

MinI(i, j) == IF i < j THEN i ELSE j

iT == 1
iR == 2
iTh == 3
iZ == 4
iS == 5
iPh == 6
iX == 7
iY == 8

\* the closed form of phi loses digits as the horizons merge: exponent of the rounding of t and phi
Noise(a) ==
  LET b == Abs(a)
  IN IF Gt(b, One \ominus Tol(13)) THEN 7 ELSE IF Gt(b, One \ominus Tol(10)) THEN 12 ELSE IF Gt(b, One \ominus Tol(6)) THEN 26 ELSE 38

\* the same for plunges: sums of closed forms of both horizons
NoiseOf(e) == IF e.plunge /\ Gt(Abs(e.a), One \ominus Tol(8)) THEN MinI(7, Noise(e.a) - 4)
              ELSE IF e.plunge /\ Gt(Abs(e.a), One \ominus Tol(6)) THEN MinI(16, Noise(e.a))
              ELSE IF e.plunge THEN MinI(26, Noise(e.a)) ELSE Noise(e.a)
\* the size of the terms that cancel in t: the square of the largest radial root (all of them add up to 2/(1-E^2))
TSize(e) == IF e.plunge /\ Le(Mul(e.size, One \ominus Sq(e.E)), I(8)) THEN Sq(e.size) \oplus One ELSE One

MkOrbit(e) ==
  [ a |-> e.a, E |-> e.E, L |-> e.L, Q |-> e.Q, hin |-> e.hin, hid |-> e.hid, lon |-> e.lon, lod |-> e.lod,
    zz |-> e.zz, mid |-> e.mid, plunge |-> e.plunge,
    ns |-> NoiseOf(e), tz |-> TSize(e), Rs |-> Abs(R(e.a, e.E, e.L, e.Q, e.mid)), RM |-> RMag(e.a, e.E, e.L, e.Q, e.mid), VM |-> VMag(e.a, e.E, e.L, e.Q) ]

NoOrbit == [ a |-> NaN, E |-> NaN, L |-> NaN, Q |-> NaN, hin |-> NaN, hid |-> NaN, lon |-> NaN, lod |-> NaN,
             zz |-> NaN, mid |-> NaN, plunge |-> FALSE, ns |-> 38, tz |-> One, Rs |-> NaN, RM |-> NaN, VM |-> NaN ]

\* the turning points do belong to the constants: R(hi) = R(lo) = 0, V(zmax) = 0, and motion between them
OrbitVerdict(e) ==
  LET c == RCoef(e.a, e.E, e.L, e.Q)
      m == RCoefMag(e.a, e.E, e.L, e.Q)
  IN [ Finite |-> AllNum(<<e.a, e.E, e.L, e.Q, e.mid>>),
       OuterTurningPoint |-> Le(Abs(Hom4(c, e.hin, e.hid)), Mul(Tol(26), Hom4(m, e.hin, e.hid))),
       InnerTurningPoint |-> Le(Abs(Hom4(c, e.lon, e.lod)), Mul(Tol(26), Hom4(m, e.lon, e.lod))),
       PolarTurningPoint |-> Le(Abs(e.Q \ominus (e.zz \otimes Add3(e.Q, Beta(e.a, e.E) \otimes (One \ominus e.zz), Sq(e.L)))),
                                Mul(Tol(26), VMag(e.a, e.E, e.L, e.Q))),
       Ordered |-> Le(Mul(e.lon, e.hid), Mul(e.hin, e.lod)) ]

-----------------------------------------------------------------------------
(* 840 h times the derivative of coordinate f at sample k *)
Stencil(q, k, f) ==
  Add4(TimesInt(672, q[k + 1][f] \ominus q[k - 1][f]), TimesInt(-168, q[k + 2][f] \ominus q[k - 2][f]),
       TimesInt(32, q[k + 3][f] \ominus q[k - 3][f]), TimesInt(-3, q[k + 4][f] \ominus q[k - 4][f]))

Interior(q) == 5 .. (Len(q) - 4)

\* angles are what they are called
AngleOk(p) ==
  /\ AllNum(p)
  /\ Ge(p[iTh], Zero) /\ Le(p[iTh], PI)
  /\ Near(Sq(p[iZ]) \oplus Sq(p[iS]), One, Tol(45))
  /\ Near(Sq(p[iX]) \oplus Sq(p[iY]), Sq(p[iS]), Tol(45))

InRangeR(o, p) ==
  LET r == p[iR]
      slack == Tol(30)
  IN /\ Le(Mul(r, o.hid), Mul(o.hin, One) \oplus Mul(slack, Abs(o.hin) \oplus Abs(o.lon)))
     /\ Ge(Mul(r, o.lod), o.lon \ominus Mul(slack, Abs(o.hin) \oplus Abs(o.lon)))
InRangeZ(o, p) == Le(Sq(p[iZ]), o.zz \oplus Tol(32))

RadialOk(o, q, k, H) ==
  LET D == Stencil(q, k, iR)
      r == q[k][iR]
  IN Le(Abs(Sq(D) \ominus Mul(Sq(H), R(o.a, o.E, o.L, o.Q, r))),
        Mul(Sq(H), Mul(Tol(21), o.Rs) \oplus Mul(Tol(36), Max(o.RM, RMag(o.a, o.E, o.L, o.Q, r)))))

PolarOk(o, q, k, H) ==
  LET D == Stencil(q, k, iZ)
      z == q[k][iZ]
  IN Le(Abs(Sq(D) \ominus Mul(Sq(H), V(o.a, o.E, o.L, o.Q, z))),
        Mul(Sq(H), Mul(Tol(24), Abs(o.Q)) \oplus Mul(Tol(38), o.VM)))

\* far enough from the horizons for the difference formula (plunges cross them, where t and phi diverge)
Regular(o, q, k) ==
  IF ~o.plunge THEN TRUE
  ELSE /\ Ge(Abs(Delta(o.a, q[k][iR])), Mul(I(4), Abs(q[k + 4][iR] \ominus q[k][iR]) \oplus Abs(q[k][iR] \ominus q[k - 4][iR])))
       /\ Gt(Abs(Delta(o.a, q[k][iR])), Tol(10))

TimeOk(o, q, k, H, n) ==
  LET r == q[k][iR]  z == q[k][iZ]
  IN Le(Abs(Mul(Delta(o.a, r), Stencil(q, k, iT)) \ominus Mul(H, TRateD(o.a, o.E, o.L, r, z))),
        Mul3(Tol(n), H, TRateMag(o.a, o.E, o.L, r, z))
        \oplus Mul3(Tol(o.ns), Abs(Delta(o.a, r)), o.tz \oplus Abs(q[k][iT])))

AzimuthOk(o, q, k, H, n) ==
  LET r == q[k][iR]  z == q[k][iZ]
      w == (q[k][iX] \otimes Stencil(q, k, iY)) \ominus (q[k][iY] \otimes Stencil(q, k, iX))
  IN Le(Abs(Mul(Delta(o.a, r), w) \ominus Mul(H, PhiRateDS(o.a, o.E, o.L, r, z))),
        Mul3(Tol(n), H, PhiRateMag(o.a, o.E, o.L, r, z))
        \oplus Mul3(Tol(o.ns), Abs(Delta(o.a, r)), One \oplus Abs(q[k][iPh])))

\* phi itself (not only its direction) is continuous: no jump by a turn
Unwound(q, k) == Le(Abs(q[k + 1][iPh] \ominus q[k][iPh]), FromInt(4))

\* legs: the motion reverses only at the ends of the range (outward to inward above the middle, ...)
Eccentric(o) == Gt(o.Rs, Mul(Tol(24), o.RM))
Inclined(o) == Gt(Abs(o.Q), Mul(Tol(24), o.VM))
LegsOk(o, q, k) ==
  LET d1 == Sgn(Stencil(q, k, iR))  d2 == Sgn(Stencil(q, k + 1, iR))
      e1 == Sgn(Stencil(q, k, iZ))  e2 == Sgn(Stencil(q, k + 1, iZ))
  IN /\ (Eccentric(o) /\ d1 = 1 /\ d2 = -1) => Gt(q[k][iR], o.mid)
     /\ (Eccentric(o) /\ d1 = -1 /\ d2 = 1) => Lt(q[k][iR], o.mid)
     /\ (Inclined(o) /\ e1 = 1 /\ e2 = -1) => Gt(q[k][iZ], Zero)
     /\ (Inclined(o) /\ e1 = -1 /\ e2 = 1) => Lt(q[k][iZ], Zero)

\* q: samples one step h apart, H = 840 h; tt: tolerance exponent of the time and azimuth equations
MotionVerdict(o, q, H, tt) ==
  [ Angles |-> \A k \in DOMAIN q : AngleOk(q[k]),
    RadialRange |-> \A k \in DOMAIN q : InRangeR(o, q[k]),
    PolarRange |-> \A k \in DOMAIN q : InRangeZ(o, q[k]),
    RadialEquation |-> \A k \in Interior(q) : RadialOk(o, q, k, H),
    PolarEquation |-> \A k \in Interior(q) : PolarOk(o, q, k, H),
    TimeEquation |-> \A k \in Interior(q) : Regular(o, q, k) => TimeOk(o, q, k, H, tt),
    AzimuthEquation |-> \A k \in Interior(q) : Regular(o, q, k) => AzimuthOk(o, q, k, H, tt),
    Continuous |-> \A k \in Interior(q) : Regular(o, q, k) => Unwound(q, k),
    Legs |-> \A k \in Interior(q) : (k + 1) \in Interior(q) => LegsOk(o, q, k) ]
=============================================================================
