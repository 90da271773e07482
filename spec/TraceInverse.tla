---------------------------- MODULE TraceInverse ----------------------------
(***************************************************************************)
(* Recorded results about constants of motion and orbital parameters (P13).*)
(***************************************************************************)
EXTENDS TraceBase

S == INSTANCE Sturm

\* <<a, p, e, x>> recovered from the constants of the stable orbit (a, p, e, x).  The roots of a polynomial are determined
\* to an accuracy that depends on their distance: n and n2 are the exponents for p and for the square of e (near e = 0
\* nothing else is determined).
RecoverVerdict(e) ==
  LET p == e.got[2]  ec == e.got[3]  x == e.got[4]
      c == RCoef(e.a, e.E, e.L, e.Q)
      m == RCoefMag(e.a, e.E, e.L, e.Q)
      hi == One \ominus ec  lo == One \oplus ec
  IN [ Finite |-> AllNum(e.got),
       Spin |-> Eq(e.got[1], e.a),
       SemiLatusRectum |-> Near(p, e.p, Mul(Tol(e.n), e.p)),
       Eccentricity |-> Near(Sq(ec), Sq(e.e), Tol(e.n2)) /\ Ge(ec, Neg(Tol(30))),
       Inclination |-> Near(Sq(x), Sq(e.x), Tol(36)) /\ (Sgn(x) = Sgn(e.x)),
       InnerRoot |-> Le(Abs(Hom4(c, p, lo)), Mul(Tol(34), Hom4(m, p, lo))),
       OuterRoot |-> Le(Abs(Hom4(c, p, hi)), Mul(Tol(34), Hom4(m, p, hi))),
       PolarRoot |-> LET zz == One \ominus Sq(x)
                     IN Le(Abs(e.Q \ominus Mul(zz, Add3(e.Q, Mul(Beta(e.a, e.E), Sq(x)), Sq(e.L)))),
                           Mul(Tol(40), VMag(e.a, e.E, e.L, e.Q))) ]
Recover == Is("Recover") /\ Verdict(RecoverVerdict(Ev)) /\ l' = l + 1

\* the orbit made from the constants (A) against the orbit itself (B): the same numbers
PairVerdict(e) ==
  [ Same |-> \A k \in DOMAIN e.A : Le(Abs(e.A[k] \ominus e.B[k]), Mul(Tol(e.n), Max(Abs(e.B[k]), One))) ]
Pair == Is("Pair") /\ Verdict(PairVerdict(Ev)) /\ l' = l + 1

\* were the constants accepted?  An exact count of roots says whether there is stable motion with them.
DecideVerdict(e) ==
  LET numbers == AllNum(<<e.a, e.E, e.L, e.Q>>) /\ Lt(Abs(e.a), One)
      sound == numbers /\ Ge(e.Q, Zero)
  IN [ AcceptsStable |-> (sound /\ S!SurelyStable(e.a, e.E, e.L, e.Q)) => e.accepted,
       \* a Carter constant that is negative by rounding is nothing to complain about
       RefusesOthers |-> (~numbers \/ Lt(e.Q, Neg(Tol(24))) \/ S!SurelyNot(e.a, e.E, e.L, e.Q)) => ~e.accepted,
       FiniteIfAccepted |-> e.accepted => AllNum(e.got) ]
Decide == Is("Decide") /\ Verdict(DecideVerdict(Ev)) /\ l' = l + 1

Init == l = 1
Next == Recover \/ Pair \/ Decide \/ Failed
Spec == Init /\ [][Next]_l
=============================================================================
