--------------------------- MODULE TraceSpacetime ---------------------------
(***************************************************************************)
(* P15.  The metric, norm and horizons the code reports at a point, against*)
(* the Kerr metric.  z and s are the cosine and sine of the polar angle    *)
(* passed to the code; everything else is exact.  All components are       *)
(* compared in the form multiplied by Sigma, Delta.                        *)
(***************************************************************************)
EXTENDS TraceBase

T == Tol(40)
\* g * f = h  up to rounding relative to the terms of h
Match(g, f, h, mag) == IsNum(g) /\ Le(Abs((g \otimes f) \ominus h), Mul(T, mag \oplus Abs(Mul(g, f))))

MetricVerdict(e) ==
  LET a == e.a  r == e.r  z == e.z  s2 == Sq(e.s)
      S == Sq(r) \oplus Sq(Mul(a, z))
      D == Delta(a, r)
      dm == Add3(Sq(r), Mul(Two, Abs(r)), Sq(a))          \* size of the terms of Delta
      g == e.g
      off == {<<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 3>>, <<2, 4>>, <<3, 1>>, <<3, 2>>, <<3, 4>>, <<4, 2>>, <<4, 3>>}
      v == e.v
      quad == SumSeq([k \in 1 .. 16 |->
                LET i == ((k - 1) \div 4) + 1  j == ((k - 1) % 4) + 1 IN Mul3(g[i][j], v[i], v[j])])
      qmag == SumSeq([k \in 1 .. 16 |->
                LET i == ((k - 1) \div 4) + 1  j == ((k - 1) % 4) + 1 IN Abs(Mul3(g[i][j], v[i], v[j]))])
  IN [ Angle |-> Near(Sq(e.s) \oplus Sq(z), One, Tol(48)),
       TT |-> Match(g[1][1], S, Mul(Two, r) \ominus S, Mul(Two, Abs(r)) \oplus S),
       TPhi |-> Match(g[1][4], S, Neg(Mul4(Two, a, r, s2)), Zero),
       PhiPhi |-> Match(g[4][4], S, Mul(s2, Mul(Sq(r) \oplus Sq(a), S) \oplus Mul4(Two, Sq(a), r, s2)),
                       IF Ge(r, Zero) THEN Zero ELSE Mul(s2, Mul(Sq(r) \oplus Sq(a), S) \oplus Mul4(Two, Sq(a), Abs(r), s2))),
       RR |-> IsNum(g[2][2]) /\ Le(Abs(Mul(g[2][2], D) \ominus S), Mul(T, S \oplus Mul(Abs(g[2][2]), dm))),
       ThetaTheta |-> Match(g[3][3], One, S, Zero),
       Diagonal |-> \A p \in off : Eq(g[p[1]][p[2]], Zero),
       Symmetric |-> \A i \in 1 .. 4 : \A j \in 1 .. 4 : RelEq(g[i][j], g[j][i], Tol(45)),
       \* g_tphi^2 - g_tt g_phiphi = Delta sin^2(theta)
       Determinant |-> Le(Abs((Sq(g[1][4]) \ominus Mul(g[1][1], g[4][4])) \ominus Mul(D, s2)),
                          Mul(T, Add(Sq(g[1][4]) \oplus Abs(Mul(g[1][1], g[4][4])), Mul(dm, s2)))),
       Signature |-> /\ Gt(g[3][3], Zero) /\ Gt(g[2][2], Zero) = Gt(D, Zero)
                     /\ (Sgn(D) = e.dsign),
       StaticLimit |-> Gt(Abs(Mul(Two, r) \ominus S), Mul(Tol(30), Mul(Two, Abs(r)) \oplus S)) => Sgn(g[1][1]) = e.gttsign,
       Stationary |-> \A i \in 1 .. 4 : \A j \in 1 .. 4 : Eq(g[i][j], e.g2[i][j]),
       \* reversing the spin reverses the cross term only
       Reversal |-> \A i \in 1 .. 4 : \A j \in 1 .. 4 :
                      Eq(e.gr[i][j], IF <<i, j>> \in {<<1, 4>>, <<4, 1>>} THEN Neg(g[i][j]) ELSE g[i][j]),
       Norm |-> IsNum(e.n) /\ Le(Abs(e.n \ominus quad), Mul(T, qmag)),
       NormKerr |-> IsNum(e.n) /\ Le(Mul3(Abs(Mul3(e.n, S, D) \ominus SDg(a, r, z, v, v)), Abs(D), s2),
                                     Mul3(T, dm, Add3(SDgMag(a, r, z, v, v), Mul3(Abs(e.n), S, Abs(D)), Mul4(dm, S, qmag, One)))),
       NormHomogeneous |-> RelEq(e.n2, Mul(I(4), e.n), Tol(40)) \/ Le(Abs(e.n2 \ominus Mul(I(4), e.n)), Mul(T, qmag)) ]

Metric == Is("Metric") /\ Verdict(MetricVerdict(Ev)) /\ l' = l + 1

HorizonVerdict(e) ==
  LET a == e.a  p == e.rp  m == e.rm
  IN [ Finite |-> AllNum(<<p, m>>),
       Order |-> Ge(p, m) /\ Ge(p, One) /\ Le(m, One) /\ Ge(m, Zero) /\ Le(p, Two),
       Sum |-> Near(p \oplus m, Two, Tol(48)),
       Product |-> Near(Mul(p, m), Sq(a), Tol(48)),
       RootPlus |-> Near(Delta(a, p), Zero, Tol(48)),
       RootMinus |-> Near(Delta(a, m), Zero, Tol(48)) ]
Horizon == Is("Horizon") /\ Verdict(HorizonVerdict(Ev)) /\ l' = l + 1

Init == l = 1
Next == Metric \/ Horizon \/ Failed
Spec == Init /\ [][Next]_l
=============================================================================
