-------------------------- MODULE TraceFrequencies --------------------------
(***************************************************************************)
(* P05, P09.  Frequencies against the periods and averages they stand for. *)
(*                                                                         *)
(* Both oscillations are written in an angle chi that runs through 2 pi    *)
(* once per oscillation, so that w = dlambda/dchi is smooth and periodic:  *)
(*                                                                         *)
(*   stable   r = p / (1 + e cos chi)                                      *)
(*   plunge   r = mid - A cos chi                                          *)
(*   polar    z = sqrt(zz) cos chi                                         *)
(*                                                                         *)
(* The trapezoidal sum over N equidistant chi is then the period (it       *)
(* converges faster than any power of N; the driver doubles N until it has *)
(* converged).  The recorded grids contain cos chi_k, k = 0 .. N/2 (the    *)
(* integrands are even), and for every k the values of w and of the        *)
(* integrands; the spec checks the grid, that each recorded value is the   *)
(* one the geodesic equations define (multiplied out), and that the sums   *)
(* give the frequencies: Upsilon * Sum w = N, and so on.                   *)
(***************************************************************************)
EXTENDS TraceBase

\* even periodic sum: end points once, the others twice
ESum(s) == Mul(Two, SumSeq(s)) \ominus Add(s[1], s[Len(s)])
Steps(c) == 2 * (Len(c) - 1)
Map(F(_), n) == [k \in 1 .. n |-> F(k)]

\* c_k = cos(2 pi k / N)
GridOk(c) ==
  /\ Eq(c[1], One) /\ Eq(c[Len(c)], Neg(One))
  /\ \A k \in 2 .. Len(c) : Lt(c[k], c[k - 1])
  /\ \A k \in 2 .. Len(c) - 1 : Near(Add(c[k + 1], c[k - 1]), Mul3(Two, c[2], c[k]), Tol(50))

\* |x - y| small against the terms it is made of
Agree(x, y, m, n) == Le(Abs(Sub(x, y)), Mul(Tol(n), m))

-----------------------------------------------------------------------------
(* Stable orbits.  a >= 0, x carries the sense. *)
StableVerdict(ev) ==
  LET a == ev.a  p == ev.p  e == ev.e  x == ev.x  E == ev.E  L == ev.L  Q == ev.Q
      c == ev.cr  w == ev.wr  g == ev.gr  f == ev.fr  M == Len(c)
      N == FromInt(Steps(c))
      a2 == Sq(a)  p2 == Sq(p)  ee == One \ominus Sq(e)
      u == [k \in 1 .. M |-> One \oplus Mul(e, c[k])]
      \* R = (1 - E^2) (r1 - r) (r - r2) (r^2 - S r + T).  The coefficients of r^3 and r^2 give S = 2 p N0 / D0 and
      \* 1 - E^2 = ee D0 / (p H0) without E, whose difference from 1 means little for large eccentricities;
      \* (1 - E^2) T = a^2 Q ee / p^2, and (dr/dchi)^2 / R multiplied out is w^2 G = p^2 H0
      k0 == Sq(L) \oplus Q
      D0 == Add3(Mul4(I(4), p, p, p), Mul3(a2, Q, Sq(ee)), Neg(Mul3(p2, ee, k0)))
      N0 == Add4(Mul3(a2, ee, p), Neg(Mul(p2, p)), Mul(p2, k0), Neg(Mul3(a2, Q, ee)))
      H0 == D0 \oplus Mul(ee, N0)
      G(k) == Add(Mul3(p2, p, D0 \ominus Mul3(Two, N0, u[k])), Mul4(a2, Q, Sq(u[k]), H0))
      Gm(k) == Add(Mul3(p2, p, Abs(D0) \oplus Mul3(Two, Abs(N0), u[k])), Mul4(a2, Q, Sq(u[k]), Abs(H0)))
      D(k) == Add3(p2, Neg(Mul3(Two, p, u[k])), Mul(a2, Sq(u[k])))       \* u^2 Delta
      Pk(k) == Mul(E, p2 \oplus Mul(a2, Sq(u[k]))) \ominus Mul3(a, L, Sq(u[k]))  \* u^2 P
      cz == ev.cz  wz == ev.wz  d == ev.dz  m == Len(cz)
      Nz == FromInt(Steps(cz))
      x2 == Sq(x)  zz == One \ominus x2
      be == Beta(a, E)
      S == Mul(be, x2) \oplus Sq(L)                                       \* x^2 (beta + L^2/x^2)
      swr == ESum(w)  swz == ESum(wz)
      mg == ESum(Map(LAMBDA k : Mul(w[k], g[k]), M))
      mf == ESum(Map(LAMBDA k : Mul(w[k], f[k]), M))
      mc == ESum(Map(LAMBDA k : Mul(wz[k], Sq(cz[k])), m))
      md == ESum(d)
      sg == FromInt(Sgn(L))
      al == Abs(L)  ax == Abs(x)
      \* phi:  Upsilon_phi = mg/swr - aE + sg (Nz - (beta x^2/|L|) md)/swz ; times swr swz |L|
      lhsP == Mul4(ev.up, swr, swz, al)
      t1 == Mul3(mg, swz, al)
      t2 == Mul4(a, E, swr, Mul(swz, al))
      t3 == Mul3(sg, swr, Mul(Nz, al) \ominus Mul3(be, x2, md))
      magP == Add4(Abs(t1), Abs(t2), Mul3(swr, Nz, al), Mul4(swr, be, x2, md))
      \* t:  Gamma = mf/swr - a^2 E (1 - zz mc/swz) + a L ; times swr swz
      lhsT == Mul3(ev.ga, swr, swz)
      s1 == Mul(mf, swz)
      s2 == Mul3(Mul(a2, E), swr, swz \ominus Mul(zz, mc))
      s3 == Mul4(a, L, swr, swz)
      magT == Add3(Abs(s1), Mul4(a2, E, swr, swz), Abs(s3))
      R12(q) == \A i \in DOMAIN q : RelEq(Abs(q[i]), Abs(q[1]), Tol(36))
  IN [ Finite |-> AllNum(<<ev.ur, ev.ut, ev.up, ev.ga, E, L, Q>>),
       WGrid |-> GridOk(c) /\ GridOk(cz),
       \* witnesses
       WRadial |-> \A k \in 1 .. M : Agree(Mul(Sq(w[k]), G(k)), Mul(p2, H0), Mul(Sq(w[k]), Gm(k)), 48),
       WPhi |-> \A k \in 1 .. M : Agree(Mul(g[k], D(k)), Mul(a, Pk(k)), Abs(Mul(g[k], D(k))), 46),
       WTime |-> \A k \in 1 .. M : Agree(Mul3(f[k], D(k), Sq(u[k])), Mul(p2 \oplus Mul(a2, Sq(u[k])), Pk(k)), Abs(Mul3(f[k], D(k), Sq(u[k]))), 46),
       WPolar |-> \A k \in 1 .. m : Agree(Mul(Sq(wz[k]), S \ominus Mul4(be, x2, zz, Sq(cz[k]))), x2, x2, 46),
       WPolarPhi |-> \A k \in 1 .. m : Agree(Mul(d[k], Mul(wz[k], al) \oplus ax), Mul(Sq(wz[k]), al), Mul(Sq(wz[k]), al), 46),
       \* the claims
       RadialPeriod |-> Gt(ev.ur, Zero) /\ RelEq(Mul(ev.ur, swr), N, Tol(ev.n)),
       PolarPeriod |-> Gt(ev.ut, Zero) /\ RelEq(Mul(ev.ut, swz), Nz, Tol(ev.n)),
       AzimuthAverage |-> Agree(lhsP, Add3(t1, Neg(t2), t3), magP, ev.n),
       TimeAverage |-> Agree(lhsT, Add3(s1, Neg(s2), s3), magT, ev.n),
       CoordinateTime |-> /\ RelEq(Mul(ev.or, ev.ga), ev.ur, Tol(40)) /\ RelEq(Mul(ev.ot, ev.ga), ev.ut, Tol(40))
                          /\ RelEq(Mul(ev.op, ev.ga), ev.up, Tol(40)),
       \* every other way to obtain the same number
       SameRadial |-> R12(<<ev.ur>> \o ev.urs), SamePolar |-> R12(<<ev.ut>> \o ev.uts),
       SameAzimuth |-> R12(<<ev.up>> \o ev.ups) /\ \A i \in DOMAIN ev.ups : Sgn(ev.ups[i]) = Sgn(ev.up),
       SameTime |-> R12(<<ev.ga>> \o ev.gas),
       SameOmegas |-> R12(<<ev.or>> \o ev.ors) /\ R12(<<ev.ot>> \o ev.ots) /\ R12(<<ev.op>> \o ev.ops),
       PolarSense |-> Gt(a, Zero) => \A i \in DOMAIN ev.signed : Sgn(ev.signed[i]) = Sgn(L) ]

Stable == Is("Stable") /\ Verdict(StableVerdict(Ev)) /\ l' = l + 1

-----------------------------------------------------------------------------
(* Plunges.  roots = <<re1, im1, ..., re4, im4>>, arr the arrangement the   *)
(* constants were chosen to have, (lo, hi) its turning points.             *)
Vieta(ev) ==
  LET q == ev.roots
      re == <<q[1], q[3], q[5], q[7]>>  im == <<q[2], q[4], q[6], q[8]>>
      a == ev.a  E == ev.E  L == ev.L  Q == ev.Q
      EE == One \ominus Sq(E)
      c == RCoef(a, E, L, Q)  cm == RCoefMag(a, E, L, Q)
      cx == ev.arr = "complex"
      s12 == Add(re[1], re[2])  p12 == Mul(re[1], re[2])
      s34 == Add(re[3], re[4])
      p34 == IF cx THEN Sq(re[3]) \oplus Sq(im[3]) ELSE Mul(re[3], re[4])
      h(i) == Hom4(c, re[i], One)
      hm(i) == Hom4(cm, Abs(re[i]), One)
      dh(i) == DHom4(c, re[i], One)
  IN [ Finite |-> AllNum(q),
       SumOfRoots |-> Agree(Mul(EE, Add(s12, s34)), Two, Two, 30),
       Quadratic |-> Agree(Mul(EE, Add3(p12, p34, Mul(s12, s34))), Neg(c[3]), cm[3] \oplus Mul(EE, Add3(Abs(p12), Abs(p34), Abs(Mul(s12, s34)))), 30),
       Linear |-> Agree(Mul(EE, Add(Mul(p12, s34), Mul(p34, s12))), c[2], cm[2] \oplus Mul(EE, Add(Abs(Mul(p12, s34)), Abs(Mul(p34, s12)))), 30),
       ProductOfRoots |-> Agree(Mul3(EE, p12, p34), Neg(c[1]),
                                 \* a root next to r = 0 is only known up to the rounding of the coefficients
                                 cm[1] \oplus Mul3(EE, Abs(p12), Abs(p34))
                                 \oplus Mul4(Tol(16), EE, MaxSeq(<<One, Abs(re[1]), Abs(re[2])>>), Max(Abs(p34), Abs(Mul(Max(Abs(re[1]), Abs(re[2])), s34)))), 26),
       Real |-> Eq(im[1], Zero) /\ Eq(im[2], Zero) /\ (~cx => Eq(im[3], Zero) /\ Eq(im[4], Zero)),
       Conjugate |-> cx => RelEq(re[3], re[4], Tol(36)) /\ RelEq(im[3], Neg(im[4]), Tol(36)) /\ ~Eq(im[3], Zero),
       Decreasing |-> ~cx => Ge(re[3], re[4]),
       \* the first two roots are the turning points around the horizons
       TurningPoints |-> LET lo == Min(re[1], re[2])  hi == Max(re[1], re[2])
                         IN Agree(lo, ev.lo, One, 26) /\ Agree(hi, ev.hi, Max(One, hi), 26),
       RealOrder |-> ~cx => Gt(re[1], re[2]),
       EnclosesHorizons |-> LET lo == Min(re[1], re[2])  hi == Max(re[1], re[2])
                            IN Lt(lo, One) /\ Gt(hi, One) /\ Ge(Delta(a, lo), Neg(Tol(28))) /\ Ge(Delta(a, hi), Neg(Tol(28))) ]

PlungeVerdict(ev) ==
  LET a == ev.a  E == ev.E  L == ev.L  Q == ev.Q
      EE == One \ominus Sq(E)
      lo == ev.lo  hi == ev.hi
      c == ev.cr  w == ev.wr  M == Len(c)
      N == FromInt(Steps(c))
      \* 2 r = (lo + hi) - (hi - lo) c
      r2(k) == Add(lo, hi) \ominus Mul(hi \ominus lo, c[k])
      \* 4 (1 - E^2) (r - r3)(r - r4)  with  r3 + r4, r3 r4 from Vieta:
      \*   (1-E^2)(r3 + r4) = 2 - (1-E^2)(lo+hi);  (1-E^2) r3 r4 = (1-E^2)(lo^2+hi^2+lo hi) - 2 (lo+hi) - c2   (regular when lo = 0)
      s == Two \ominus Mul(EE, Add(lo, hi))
      pr == Add3(Mul(EE, Add3(Sq(lo), Sq(hi), Mul(lo, hi))), Neg(Mul(Two, Add(lo, hi))),
                 Neg(Sq(Mul(a, E)) \ominus Add3(Sq(L), Q, Sq(a))))
      prm == Add3(Mul(EE, Add3(Sq(lo), Sq(hi), Abs(Mul(lo, hi)))), Mul(Two, Add(Abs(lo), Abs(hi))),
                 Add4(Sq(Mul(a, E)), Sq(L), Abs(Q), Sq(a)))
      G4(k) == Add3(Mul(EE, Sq(r2(k))), Neg(Mul3(Two, s, r2(k))), Mul(I(4), pr))
      G4m(k) == Add3(Mul(EE, Sq(r2(k))), Abs(Mul3(Two, s, r2(k))), Mul(I(4), prm))
      cz == ev.cz  wz == ev.wz  m == Len(cz)
      Nz == FromInt(Steps(cz))
      be == Beta(a, E)
      S == Add3(Sq(L), Q, Mul(be, One \ominus ev.zz))
  IN [ WGrid |-> GridOk(c) /\ GridOk(cz),
       WPolarRoot |-> Agree(Mul(ev.zz, S), Q, Abs(Q), 46) /\ Le(ev.zz, One) /\ Ge(ev.zz, Zero),
       WRadial |-> \A k \in 1 .. M : Agree(Mul(Sq(w[k]), G4(k)), I(4), Mul(Sq(w[k]), G4m(k)), 44),
       WPolar |-> \A k \in 1 .. m : Agree(Mul(Sq(wz[k]), S \ominus Mul3(be, ev.zz, Sq(cz[k]))), One, One, 46),
       RadialPeriod |-> Gt(ev.ur, Zero) /\ RelEq(Mul(ev.ur, ESum(w)), N, Tol(ev.n)),
       PolarPeriod |-> Gt(ev.ut, Zero) /\ RelEq(Mul(ev.ut, ESum(wz)), Nz, Tol(ev.n)),
       SameRadial |-> \A i \in DOMAIN ev.urs : RelEq(ev.ur, ev.urs[i], Tol(36)),
       SamePolar |-> \A i \in DOMAIN ev.uts : RelEq(ev.ut, ev.uts[i], Tol(36)) ]

Roots == Is("Roots") /\ Verdict(Vieta(Ev)) /\ l' = l + 1
Plunge == Is("Plunge") /\ Verdict(PlungeVerdict(Ev)) /\ l' = l + 1

Init == l = 1
Next == Stable \/ Roots \/ Plunge \/ Failed
Spec == Init /\ [][Next]_l
=============================================================================
