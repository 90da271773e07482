---------------------------- MODULE TraceInitial ----------------------------
(***************************************************************************)
(* Recorded attempts to build orbits from initial data (P11, P12), on top  *)
(* of the motion they lead to.                                             *)
(*                                                                         *)
(* x = <<t, r, theta, cos theta, sin theta, phi>>, u the four-velocity.    *)
(* c = <<E, L, Q>> are constants of the state worked out beside the code;  *)
(* the specification makes sure of them before it relies on them.          *)
(***************************************************************************)
EXTENDS TraceMotion, FiniteSets

St == INSTANCE State WITH ax <- <<>>, at <- 0
Sm == INSTANCE Sturm

xR == 2
xZ == 4
xS == 5

\* Sigma Delta (g(u, u) + 1) and the size of its terms
NormTimes(a, x, u) == SDg(a, x[xR], x[xZ], u, u) \oplus Mul(Sigma(a, x[xR], x[xZ]), Delta(a, x[xR]))
NormScale(a, x) == Mul(Sigma(a, x[xR], x[xZ]), Abs(Delta(a, x[xR])))
NormMag(a, x, u) == SDgMag(a, x[xR], x[xZ], u, u)
\* |g(u, u) + 1| below or above 2^-k, and well resolved in double precision
NormWithin(a, x, u, k) == Le(Abs(NormTimes(a, x, u)) \oplus Mul(Tol(44), NormMag(a, x, u)), Mul(Tol(k), NormScale(a, x)))
NormBeyond(a, x, u, k) == Gt(Abs(NormTimes(a, x, u)), Mul(Tol(k), NormScale(a, x)) \oplus Mul(Tol(44), NormMag(a, x, u)))

\* E and L are those of the state, and Q that of u^theta, up to relative errors of 2^-n of the terms
EnergyOf(a, x, u, E, n) ==
  LET r == x[xR]  z == x[xZ]
      f == Mul(SgTT(a, r, z), u[1])  g == Mul(SgTP(a, r, z), u[4])
  IN Le(Abs(Add3(f, g, Mul(Sigma(a, r, z), E))), Mul(Tol(n), Add3(Abs(f), Abs(g), Mul(Sigma(a, r, z), Abs(E)))))
MomentumOf(a, x, u, L, n) ==
  LET r == x[xR]  z == x[xZ]
      f == Mul(SgTP(a, r, z), u[1])  g == Mul(SgPP(a, r, z), u[4])
  IN Le(Abs(f \oplus g \ominus Mul(Sigma(a, r, z), L)), Mul(Tol(n), Add3(Abs(f), Abs(g), Mul(Sigma(a, r, z), Abs(L)))))
\* the same from cos theta alone, which says little about sin theta next to the axis
MomentumNear(a, x, u, L) ==
  LET r == x[xR]  z == x[xZ]  s2 == Sq(x[xS])
      f == Mul(SgTP(a, r, z), u[1])  g == Mul(SgPP(a, r, z), u[4])
  IN Le(Mul(s2, Abs(f \oplus g \ominus Mul(Sigma(a, r, z), L))),
        Mul(Mul(Tol(36), s2) \oplus Tol(50), Add3(Abs(f), Abs(g), Mul(Sigma(a, r, z), Abs(L)))))
CarterOf(a, x, u, E, L, Q, n) ==
  LET s2 == Sq(x[xS])  f == Mul(s2, Sq(Mul(Sigma(a, x[xR], x[xZ]), u[3])))
  IN Le(Abs(f \ominus V(a, E, L, Q, x[xZ])), Mul(Tol(n), f \oplus VMag(a, E, L, Q)))
ConstantsOf(a, x, u, c, n) == EnergyOf(a, x, u, c[1], n) /\ MomentumOf(a, x, u, c[2], n) /\ CarterOf(a, x, u, c[1], c[2], c[3], n)

\* what the state is, counting roots exactly; several answers where it is too close to call
Around(r) == {r, Mul(r, One \oplus Tol(15)), Mul(r, One \ominus Tol(15))}
AroundE(E) == {E, E \oplus Mul(Tol(20), One \ominus E), E \ominus Mul(Tol(20), One \ominus E)}
Kinds(a, x, c) ==
  UNION {LET ch == Sm!RadialChain(a, F, c[2], c[3])
         IN {St!Decide(Sm!Above(ch, One), Sm!Above(ch, r), Sm!Below(ch, r)) : r \in Around(x[xR])} : F \in AroundE(c[1])} \ {"forbidden"}

BuildVerdict(e) ==
  LET a == e.a  x == e.x  u == e.u  c == e.c
      sane == AllNum(x) /\ AllNum(u) /\ IsNum(a) /\ Lt(Abs(a), One)
      unit == sane /\ NormWithin(a, x, u, 21) /\ Sgn(Delta(a, x[xR])) # 0
      off  == ~sane \/ NormBeyond(a, x, u, 19)
      known == sane /\ AllNum(c) /\ ConstantsOf(a, x, u, c, 36)
      bound == known /\ Gt(c[1], Zero) /\ Lt(c[1], One \ominus Tol(20))
      unbound == known /\ Ge(c[1], One \oplus Tol(40))
      kinds == IF bound /\ unit THEN Kinds(a, x, c) ELSE {}
      polar == known /\ Lt(Abs(c[2]), Tol(20))
      supported(k) == IF k = "plunge" THEN Sgn(a) # 0 /\ ~polar ELSE k = "stable" /\ ~polar
  IN [ ConstantsKnown |-> (sane /\ e.c # <<>>) => known,
       RefusesBadNorm |-> off => ~e.accepted,
       RefusesUnbound |-> unbound => ~e.accepted,
       RefusesInside |-> (kinds = {"inside"}) => ~e.accepted,
       RefusesUnsupported |-> (kinds = {"plunge"} /\ Sgn(a) = 0) => ~e.accepted,
       AcceptsPhysical |-> (kinds # {} /\ \A k \in kinds : supported(k)) => e.accepted,
       Kind |-> (e.accepted /\ ~e.circular /\ Cardinality(kinds) = 1) => e.stable = ("stable" \in kinds),
       \* made from a circular orbit: its roots coincide, so that counting cannot tell
       Circular |-> (e.circular /\ e.accepted) => e.stable ]
Build == Is("Build") /\ Verdict(BuildVerdict(Ev)) /\ Stay

(* P11: the orbit that was built reports the constants of the state, and its *)
(* position y and four-velocity v at Mino time zero are the given ones.  n is *)
(* the exponent of the tolerance.                                            *)
BeginVerdict(e) ==
  LET a == e.a  x == e.x  u == e.u  y == e.y  v == e.v  c == e.got
      Sg == Sigma(a, x[xR], x[xZ])
      \* r and theta velocities in Mino time; their squares carry the rounding of the constants
      ur == Mul(Sg, u[2])  dr == Abs(Mul(Sg, v[2]) \ominus ur)
      uh == Mul3(Sg, x[xS], u[3])  dh == Abs(Mul3(Sg, x[xS], v[3]) \ominus uh)
  IN [ Finite |-> AllNum(y) /\ AllNum(v) /\ AllNum(c),
       Energy |-> EnergyOf(a, x, u, c[1], 36),
       Momentum |-> MomentumNear(a, x, u, c[2]),
       Carter |-> CarterOf(a, x, u, c[1], c[2], c[3], 34),
       Time |-> Near(y[1], x[1], Mul(Tol(36), One \oplus Abs(x[1]))),
       Radius |-> Near(y[2], x[2], Mul(Tol(e.n), x[2])),
       Theta |-> Near(y[3], x[3], Tol(26)),
       Azimuth |-> Near(y[4], x[6], Mul(Tol(36), One \oplus Abs(x[6]))),
       VelocityT |-> Near(v[1], u[1], Mul(Tol(e.n), One \oplus Abs(u[1]))),
       VelocityR |-> Le(Mul(dr, Max(dr, Abs(ur))), Mul(Tol(32), RMag(a, c[1], c[2], c[3], x[xR])) \oplus Mul(Tol(e.n), Sq(ur))),
       VelocityTheta |-> Le(Mul(dh, Max(dh, Abs(uh))), Mul(Tol(e.n + 2), VMag(a, c[1], c[2], c[3]))),
       VelocityPhi |-> Near(v[4], u[4], Mul(Tol(e.n), One \oplus Abs(u[4]))) ]
Begin == Is("Begin") /\ Verdict(BeginVerdict(Ev)) /\ Stay

BuildNext == Build \/ Begin \/ Next
BuildSpec == Init /\ [][BuildNext]_vars
=============================================================================
