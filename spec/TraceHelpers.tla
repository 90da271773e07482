---------------------------- MODULE TraceHelpers ----------------------------
(***************************************************************************)
(* Recorded answers of the functions that read off an orbit from a state   *)
(* (P22).  "State" sets the state, taken from an orbit at known phases,    *)
(* with its constants of motion; they are verified here against position   *)
(* x = <<t, r, theta, cos theta, sin theta, phi>> and four-velocity u.     *)
(* The other events are calls about that state.                            *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLE st
vars == <<l, st>>

\* constants <<E, L, Q>> belong to the state: the covariant components times Sigma, and the polar equation
Belong(e, c, n) ==
  LET r == e.x[2]  z == e.x[4]  u == e.u  a == e.a
      s2 == Sq(e.x[5])
      S == Sigma(a, r, z)
      gtt == Mul(Two, r) \ominus S
      gtp == Neg(Mul4(Two, a, r, s2))
      gpp == Mul(s2, Mul(Sq(r) \oplus Sq(a), S) \oplus Mul4(Two, Sq(a), r, s2))
      w == Mul3(S, s2, Sq(Mul(S, u[3])))
  IN /\ Le(Abs(Add3(Mul(gtt, u[1]), Mul(gtp, u[4]), Mul(S, c[1]))), Mul(Tol(n), Add3(Abs(Mul(gtt, u[1])), Abs(Mul(gtp, u[4])), Mul(S, One))))
     /\ Le(Abs(Add3(Mul(gtp, u[1]), Mul(gpp, u[4]), Neg(Mul(S, c[2])))), Mul(Tol(n), Add3(Abs(Mul(gtp, u[1])), Abs(Mul(gpp, u[4])), Mul(S, One))))
     /\ Le(Abs(Sub(Mul(s2, Sub(c[3], Sq(Mul(S, u[3])))), Mul(Sq(z), Mul(s2, Beta(a, c[1])) \oplus Sq(c[2])))),
           Mul(Tol(n - 2), Add3(Abs(c[3]), Sq(Mul(S, u[3])), Add(Sq(c[2]), One))))
StateVerdict(e) ==
  [ Angles |-> Near(Sq(e.x[4]) \oplus Sq(e.x[5]), One, Tol(48)),
    Constants |-> Belong(e, e.c, 36) ]
State == Is("State") /\ Verdict(StateVerdict(Ev)) /\ st' = Ev /\ l' = l + 1

\* constants of motion from the state
ConstantsVerdict(s, e) ==
  [ Finite |-> AllNum(e.got),
    Energy |-> Near(e.got[1], s.c[1], Mul(Tol(s.n), One)),
    Momentum |-> Near(e.got[2], s.c[2], Mul(Tol(s.n), One \oplus Abs(s.c[2]))),
    Carter |-> Near(e.got[3], s.c[3], Mul(Tol(s.n), One \oplus Abs(s.c[3]) \oplus Sq(s.c[2]))) ]
Constants == Is("Constants") /\ Verdict(ConstantsVerdict(st, Ev)) /\ UNCHANGED st /\ l' = l + 1

\* stable or not
KindVerdict(s, e) == [ Kind |-> e.stable = s.stable ]
Kind == Is("Kind") /\ Verdict(KindVerdict(st, Ev)) /\ UNCHANGED st /\ l' = l + 1

\* initial phases <<q_t, cos q_r, sin q_r, cos q_theta, sin q_theta, q_phi>>; a circular or an equatorial orbit has any
PhasesVerdict(s, e) ==
  [ Finite |-> AllNum(e.got),
    Time |-> RelEq(e.got[1], s.x[1], Tol(50)) \/ Eq(e.got[1], s.x[1]),
    Azimuth |-> RelEq(e.got[6], s.x[6], Tol(50)) \/ Eq(e.got[6], s.x[6]),
    Radial |-> s.circular \/ (Near(e.got[2], s.q[1], Tol(s.nr)) /\ Near(e.got[3], s.q[2], Tol(s.nr))),
    Polar |-> s.equatorial \/ (Near(e.got[4], s.q[3], Tol(s.nt)) /\ Near(e.got[5], s.q[4], Tol(s.nt))) ]
Phases == Is("Phases") /\ Verdict(PhasesVerdict(st, Ev)) /\ UNCHANGED st /\ l' = l + 1

Init == l = 1 /\ st = <<>>
Next == State \/ Constants \/ Kind \/ Phases \/ (Failed /\ UNCHANGED st)
Spec == Init /\ [][Next]_vars
=============================================================================
