---------------------------- MODULE TraceMotion -----------------------------
(***************************************************************************)
(* Recorded motion (P06, P07, P08, P10, P17).                              *)
(*                                                                         *)
(* State: the orbit in force and the last samples of the window being      *)
(* followed.  "Orbit" starts a new orbit; "Ticks" continues a window with  *)
(* further samples (or starts one); the other events report single         *)
(* results about the orbit in force.                                       *)
(***************************************************************************)
EXTENDS Geodesic

VARIABLES orb, tail, step
vars == <<l, orb, tail, step>>
\* the line determines the rest of the state
View == l

Orbit == /\ Is("Orbit") /\ Verdict(OrbitVerdict(Ev))
         /\ orb' = MkOrbit(Ev) /\ tail' = <<>> /\ step' = NaN /\ l' = l + 1

Last(q, n) == SubSeq(q, MaxI(1, Len(q) - n + 1), Len(q))

Ticks == LET q == (IF Ev.first THEN <<>> ELSE tail) \o Ev.s
         IN /\ Is("Ticks")
            /\ Verdict(MotionVerdict(orb, q, TimesInt(840, Ev.h), Ev.tt))
            /\ tail' = Last(q, 8) /\ step' = Ev.h
            /\ UNCHANGED orb /\ l' = l + 1

Stay == UNCHANGED <<orb, tail, step>> /\ l' = l + 1

-----------------------------------------------------------------------------
(* P07: the start.  s is the sample at Mino time zero; rleg, pleg the legs  *)
(* of the initial phases ("low" exactly at a turning point), after the      *)
(* sample a little later, r2, z2 radius and cos(theta) with the phase       *)
(* reflected (-q).                                                          *)
StartVerdict(o, e) ==
  LET p == e.s  n == e.after
      ecc == Eccentric(o)  inc == Inclined(o)
      hi == Mul(p[iR], o.hid)  lo == Mul(p[iR], o.lod)
      sz == Abs(o.hin) \oplus Abs(o.lon)
  IN [ Angles |-> AngleOk(p) /\ AngleOk(n),
       InitialTime |-> Near(p[iT], e.qt, Mul(Tol(30), Add3(One, Abs(e.qt), Abs(e.tscale)))),
       InitialAzimuth |-> Near(p[iPh], e.qphi, Mul(Tol(34), Add(I(8), Abs(e.qphi)))),
       InnerTurningPoint |-> e.rleg = "low" => Near(lo, o.lon, Mul(Tol(30), sz)),
       OuterTurningPoint |-> e.rleg = "high" => Near(hi, o.hin, Mul(Tol(30), sz)),
       MinimalTheta |-> e.pleg = "low" => Near(Sq(p[iZ]), o.zz, Tol(30)) /\ Ge(p[iZ], Neg(Tol(20))),
       MaximalTheta |-> e.pleg = "high" => Near(Sq(p[iZ]), o.zz, Tol(30)) /\ Le(p[iZ], Tol(20)),
       Outward |-> ecc /\ e.rleg = "up" => Gt(n[iR], p[iR]),
       Inward |-> ecc /\ e.rleg = "down" => Lt(n[iR], p[iR]),
       ThetaIncreases |-> inc /\ e.pleg = "up" => Lt(n[iZ], p[iZ]),
       ThetaDecreases |-> inc /\ e.pleg = "down" => Gt(n[iZ], p[iZ]),
       ReflectedRadius |-> Near(p[iR], e.r2, Mul(Tol(30), Abs(p[iR]))),
       ReflectedTheta |-> Near(p[iZ], e.z2, Tol(30)) ]
Start == Is("Start") /\ Verdict(StartVerdict(orb, Ev)) /\ Stay

(* P07: two trajectories that have to be the same motion, up to a constant  *)
(* in t and phi ("shift" TRUE) or exactly.  A and B are sequences of        *)
(* samples at corresponding times.                                          *)
\* too close to a horizon to compare t and phi of a plunge
Near0(o, p) == o.plunge /\ Lt(Abs(Delta(o.a, p[iR])), Tol(5))

SameVerdict(o, e) ==
  LET u == e.A  v == e.B
      tm == MaxSeq([k \in DOMAIN u |-> Abs(u[k][iT])]) \oplus Abs(v[1][iT]) \oplus One
      ft == MaxSeq([k \in DOMAIN u |-> Abs(u[k][iPh])]) \oplus Abs(v[1][iPh]) \oplus One
      dt == IF e.shift THEN v[1][iT] \ominus u[1][iT] ELSE Zero
      df == IF e.shift THEN v[1][iPh] \ominus u[1][iPh] ELSE Zero
  IN [ Finite |-> \A k \in DOMAIN u : AllNum(u[k]) /\ AllNum(v[k]),
       Radius |-> \A k \in DOMAIN u : Near(u[k][iR], v[k][iR], Mul(Tol(e.nr), Abs(u[k][iR]) \oplus Tol(4))),
       Theta |-> \A k \in DOMAIN u : Near(u[k][iZ], v[k][iZ], Tol(e.nr)) /\ Near(u[k][iTh], v[k][iTh], Tol(e.nr - 12)),
       Time |-> \A k \in DOMAIN u : Near0(o, u[k]) \/ Near(v[k][iT] \ominus u[k][iT], dt, Mul(Tol(e.n), tm)),
       Azimuth |-> \A k \in DOMAIN u : Near0(o, u[k]) \/ Near(v[k][iPh] \ominus u[k][iPh], df, Mul(Tol(e.n), ft)) ]
Same == Is("Same") /\ Verdict(SameVerdict(orb, Ev)) /\ Stay

(* P06, P08: the four corners of a parallelogram in Mino time, full radial  *)
(* oscillations along one side (A to B, C to D) and full polar ones along   *)
(* the other (A to C, B to D).  dt/dlambda and dphi/dlambda are sums of a   *)
(* function of r and one of theta, so t and phi balance over the corners    *)
(* (Motion!LatticeInv): a jump of t or phi anywhere on the way shows.       *)
LatticeVerdict(o, e) ==
  LET c == <<e.A, e.B, e.C, e.D>>
      balance(i) == (e.A[i] \ominus e.B[i]) \oplus (e.D[i] \ominus e.C[i])
      size(i) == Add4(Abs(e.A[i]), Abs(e.B[i]), Abs(e.C[i]), Abs(e.D[i]) \oplus One)
      sameR(u, v) == Near(u[iR], v[iR], Mul(Tol(e.nr), Abs(u[iR]) \oplus Tol(4)))
      sameZ(u, v) == Near(u[iZ], v[iZ], Tol(e.nr))
      clear == \A k \in 1 .. 4 : ~Near0(o, c[k])
  IN [ Finite |-> \A k \in 1 .. 4 : AllNum(c[k]),
       Radius |-> sameR(e.A, e.B) /\ sameR(e.C, e.D),
       Theta |-> sameZ(e.A, e.C) /\ sameZ(e.B, e.D),
       Time |-> clear => Le(Abs(balance(iT)), Mul(Tol(e.n), size(iT) \oplus o.tz)),
       Azimuth |-> clear => Le(Abs(balance(iPh)), Mul(Tol(e.n), size(iPh))) ]
Lattice == Is("Lattice") /\ Verdict(LatticeVerdict(orb, Ev)) /\ Stay

-----------------------------------------------------------------------------
(* P10: four-velocity u at the middle of nine samples h apart; un is the    *)
(* numerically differentiated one.                                          *)
FourVelocityVerdict(o, e) ==
  LET q == e.s  p == q[5]  u == e.u  un == e.un
      r == p[iR]  z == p[iZ]  s2 == Sq(p[iS])
      a == o.a  E == o.E  L == o.L  Q == o.Q
      D == Delta(a, r)  S == Sigma(a, r, z)
      H == TimesInt(840, e.h)
      reg == Regular(o, q, 5)
      mag == SDgMag(a, r, z, u, u)
      \* g(u, .) times Sigma
      ut == Mul(SgTT(a, r, z), u[1]) \oplus Mul(SgTP(a, r, z), u[4])
      up == Mul(SgTP(a, r, z), u[1]) \oplus Mul(SgPP(a, r, z), u[4])
      utm == Abs(Mul(SgTT(a, r, z), u[1])) \oplus Abs(Mul(SgTP(a, r, z), u[4]))
      upm == Abs(Mul(SgTP(a, r, z), u[1])) \oplus Abs(Mul(SgPP(a, r, z), u[4]))
      rd == Stencil(q, 5, iR)  zd == Stencil(q, 5, iZ)
      rsz == Mul(Sq(H), Mul(Tol(20), o.Rs) \oplus Mul(Tol(34), Max(o.RM, RMag(a, E, L, Q, r))))
      zsz == Mul(Sq(H), Mul(Tol(20), Abs(Q)) \oplus Mul(Tol(34), o.VM))
      ur == Mul(S, u[2])                       \* dr/dlambda
      uz == Neg(Mul3(S, p[iS], u[3]))          \* dz/dlambda
  IN [ Finite |-> AllNum(u) /\ AllNum(un),
       \* the square of the radial component carries the rounding of R, the rest is exact up to 2^-36
       UnitTimelike |-> Le(Abs(SDg(a, r, z, u, u) \oplus Mul(S, D)),
                           Add3(Mul(Tol(32), mag \oplus Mul(S, Abs(D))),
                                Mul(Tol(34), Max(o.RM, RMag(a, E, L, Q, r))), Mul3(Tol(34), Abs(D), o.VM))),
       Energy |-> Le(Abs(ut \oplus Mul(S, E)), Mul(Tol(32), utm \oplus Mul(S, E))),
       AngularMomentum |-> Le(Mul(s2, Abs(up \ominus Mul(S, L))), Mul(Mul(Tol(32), s2) \oplus Tol(48), upm \oplus Mul(S, Abs(L)))),
       \* the Carter constant: (Sigma u^theta)^2 sin^2 = V
       Carter |-> Le(Abs(Mul(Sq(Mul(S, u[3])), s2) \ominus V(a, E, L, Q, z)),
                     Mul(Tol(30), Abs(Q)) \oplus Mul(Tol(38), o.VM)),
       RadialComponent |-> Le(Abs(Sq(ur) \ominus R(a, E, L, Q, r)),
                     Mul(Tol(30), o.Rs) \oplus Mul(Tol(36), Max(o.RM, RMag(a, E, L, Q, r)))),
       TimeComponent |-> Le(Abs(Mul3(S, D, u[1]) \ominus TRateD(a, E, L, r, z)), Mul(Tol(32), TRateMag(a, E, L, r, z))),
       AzimuthComponent |-> Le(Mul(s2, Abs(Mul4(S, D, s2, u[4]) \ominus PhiRateDS(a, E, L, r, z))), Mul(Mul(Tol(32), s2) \oplus Tol(48), PhiRateMag(a, E, L, r, z))),
       \* tangent to the trajectory, signs included
       TangentR |-> Le(Sq(rd \ominus Mul(H, ur)), rsz),
       TangentTheta |-> Le(Sq(zd \ominus Mul(H, uz)), zsz),
       TangentT |-> reg => Le(Abs(Stencil(q, 5, iT) \ominus Mul3(H, S, u[1])),
                              Mul(H, Mul3(Tol(e.tt), S, Abs(u[1])) \oplus Mul(Tol(20), One)) \oplus Mul(Tol(o.ns), o.tz \oplus Abs(p[iT]))),
       TangentPhi |-> reg => Le(Abs(Mul(D, (p[iX] \otimes Stencil(q, 5, iY)) \ominus (p[iY] \otimes Stencil(q, 5, iX))) \ominus Mul4(H, s2, Mul(S, D), u[4])),
                                Mul3(H, Tol(e.tt), PhiRateMag(a, E, L, r, z)) \oplus Mul3(Tol(o.ns), Abs(D), One \oplus Abs(p[iPh]))),
       \* the numerical four-velocity with step e.dx: truncation of fourth order and the rounding of the coordinates over dx
       NumericR |-> Le(Mul(Sq(e.dx), Sq(Mul(S, un[2]) \ominus ur)),
                       Mul(Sq(e.dx), Mul(Tol(18), o.Rs) \oplus Mul(Tol(32), Max(o.RM, RMag(a, E, L, Q, r)))) \oplus Sq(Mul(Tol(40), One \oplus Abs(r)))),
       NumericTheta |-> Le(Sq(Mul3(S, p[iS], un[3]) \oplus uz), Mul(Tol(18), Abs(Q)) \oplus Mul(Tol(32), o.VM)),
       NumericT |-> reg => Le(Mul(e.dx, Abs(Mul(S, un[1]) \ominus Mul(S, u[1]))),
                              Mul4(e.dx, Tol(10), S, Abs(u[1])) \oplus Mul(Tol(o.ns + 6), o.tz \oplus Abs(p[iT]))),
       NumericPhi |-> reg => Le(Mul4(e.dx, S, s2, Abs(un[4] \ominus u[4])),
                                Mul(Mul(e.dx, Tol(10)), Mul3(S, s2, Abs(u[4])) \oplus Mul(Tol(4), Mul(S, Abs(u[1])))) \oplus Mul(Tol(o.ns + 6), One \oplus Abs(p[iPh]))) ]
FourVelocity == Is("FourVelocity") /\ Verdict(FourVelocityVerdict(orb, Ev)) /\ Stay

(* P10: what the object stores about Mino time zero *)
StoredVerdict(e) ==
  [ Position |-> \A k \in 1 .. 4 : Eq(e.x0[k], e.x[k]) \/ RelEq(e.x0[k], e.x[k], Tol(40)) \/ Near(e.x0[k], e.x[k], Tol(40)),
    Velocity |-> \A k \in 1 .. 4 : Eq(e.u0[k], e.u[k]) \/ RelEq(e.u0[k], e.u[k], Tol(36)) \/ Near(e.u0[k], e.u[k], Tol(36)) ]
Stored == Is("Stored") /\ Verdict(StoredVerdict(Ev)) /\ Stay

-----------------------------------------------------------------------------
(* P17: deltas.  d0 = <<t_r, t_theta, phi_r, phi_theta>> at phases zero;    *)
(* smp: at several Mino times the deltas d at the advanced phases, dp some  *)
(* full turns away, dn at minus the phases, dz those of zero initial phases *)
(* at the phases advanced by the initial ones, and the trajectory (t, ph).  *)
(* sec = <<Gamma, Upsilon_phi>>; where known is FALSE the object does not   *)
(* say, and the secular part only has to be linear.                         *)
DeltasVerdict(o, e) ==
  LET S == e.smp
      n == DOMAIN S
      d0 == e.d0
      mg(k) == SumSeq([j \in 1 .. 4 |-> Abs(S[k].d[j]) \oplus Abs(d0[j])])
      restT(k) == Sub(S[k].t \ominus e.t0, (S[k].d[1] \ominus d0[1]) \oplus (S[k].d[2] \ominus d0[2]))
      restF(k) == Sub(S[k].ph \ominus e.ph0, (S[k].d[3] \ominus d0[3]) \oplus (S[k].d[4] \ominus d0[4]))
      mt(k) == Add4(One, Abs(S[k].t), Abs(e.t0), Add(Abs(restT(k)), mg(k)))
      mf(k) == Add4(One, Abs(S[k].ph), Abs(e.ph0), Add(Abs(restF(k)), mg(k)))
      size == [j \in 1 .. 4 |-> Add3(One, IF j < 3 THEN Mul(Tol(4), Abs(o.mid)) ELSE Zero, MaxSeq([k \in n |-> Abs(S[k].d[j])]))]
      eps == Tol(IF o.ns < 36 THEN o.ns - 6 ELSE 30)
  IN [ Finite |-> AllNum(d0) /\ \A k \in n : AllNum(S[k].d),
       Time |-> e.known[1] => \A k \in n : Near(restT(k), Mul(e.sec[1], S[k].lam), Mul(Tol(30), mt(k))),
       Azimuth |-> e.known[2] => \A k \in n : Near(restF(k), Mul(e.sec[2], S[k].lam), Mul(Tol(30), mf(k))),
       TimeLinear |-> \A k \in n : \A m \in n : Near(Mul(restT(k), S[m].lam), Mul(restT(m), S[k].lam),
                          Mul(Tol(30), Mul(mt(k), Abs(S[m].lam)) \oplus Mul(mt(m), Abs(S[k].lam)))),
       AzimuthLinear |-> \A k \in n : \A m \in n : Near(Mul(restF(k), S[m].lam), Mul(restF(m), S[k].lam),
                          Mul(Tol(30), Mul(mf(k), Abs(S[m].lam)) \oplus Mul(mf(m), Abs(S[k].lam)))),
       \* plunges with complex roots keep the secular part in the deltas
       NothingSecular |-> e.inside => \A k \in n : Near(restT(k), Zero, Mul(Tol(30), mt(k))) /\ Near(restF(k), Zero, Mul(Tol(30), mf(k))),
       Advanced |-> \A k \in n : \A j \in 1 .. 4 : Near(S[k].d[j], S[k].dz[j], Mul(eps, size[j])),
       \* (rounding of the phase adds up over very many turns)
       Periodic |-> e.periodic => \A k \in n : \A j \in 1 .. 4 : Near(S[k].d[j], S[k].dp[j], Mul(IF S[k].far THEN Tol(10) ELSE eps, size[j])),
       Odd |-> e.odd => \A k \in n : \A j \in 1 .. 4 : Near(S[k].d[j], Neg(S[k].dn[j]), Mul(eps, size[j])) ]
Deltas == Is("Deltas") /\ Verdict(DeltasVerdict(orb, Ev)) /\ Stay

Init == l = 1 /\ orb = NoOrbit /\ tail = <<>> /\ step = NaN
Next == Orbit \/ Ticks \/ Start \/ Same \/ Lattice \/ FourVelocity \/ Stored \/ Deltas \/ (Failed /\ UNCHANGED <<orb, tail, step>>)
Spec == Init /\ [][Next]_vars
=============================================================================
