------------------------------ MODULE TraceGrid ------------------------------
(***************************************************************************)
(* Recorded separatrix tables (P19): "Table" opens one of spacing h, twice *)
(* or more as fine as the one before at the same spin; "Nodes" and         *)
(* "Between" compare it with the separatrix at nodes and elsewhere;        *)
(* "Close" compares the errors of the two tables.                          *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES a, h, worst, before
vars == <<l, a, h, worst, before>>

\* distance of the approximation from the separatrix, relative
Off(f, s) == Abs(f \ominus s)

\* what a cubic spline makes of the separatrix, which is the steeper the faster the hole spins
H4 == Mul(I(4), h)
Bound == IF Le(a, Tol(1)) THEN Mul(Tol(11), Sq(Sq(H4))) \oplus Tol(22)
         ELSE IF Le(Mul(I(10), a), I(9)) THEN Mul3(Tol(8), H4, Sq(H4)) \oplus Tol(20)
         ELSE IF Le(Mul(I(100), a), I(99)) THEN Mul3(Tol(2), H4, Sq(H4)) \oplus Tol(14)
         ELSE Mul(I(6), Sq(H4)) \otimes Tol(3)

Fresh == Ev.fresh
Table == /\ Is("Table") /\ Verdict([Spacing |-> Fresh \/ Le(Mul(Two, Ev.h), Mul(h, One \oplus Tol(30))), SameSpin |-> Fresh \/ Eq(Ev.a, a)])
         /\ a' = Ev.a /\ h' = Ev.h /\ before' = (IF Fresh THEN NaN ELSE worst) /\ worst' = Zero /\ l' = l + 1

\* e = i / (ne - 1), x = 2 j / (nx - 1) - 1
NodesVerdict(e) ==
  [ Grid |-> \A k \in DOMAIN e.e : /\ Near(Mul(e.e[k], I(e.ne - 1)), I(e.i[k]), Tol(40)) /\ e.i[k] >= 0 /\ e.i[k] < e.ne
                                   /\ Near(Mul(e.x[k] \oplus One, I(e.nx - 1)), I(2 * e.j[k]), Tol(40)) /\ e.j[k] >= 0 /\ e.j[k] < e.nx,
    Spaced |-> /\ Le(Mul(I(e.ne), h), One \oplus Tol(30)) /\ Gt(Mul(I(e.ne + 1), h), One \ominus Tol(30))
               /\ Le(Mul(I(e.nx), h), Two \oplus Tol(30)) /\ Gt(Mul(I(e.nx + 1), h), Two \ominus Tol(30)),
    AtNodes |-> \A k \in DOMAIN e.f : IsNum(e.f[k]) /\ Le(Off(e.f[k], e.s[k]), Mul(Tol(40), e.s[k])) ]
Nodes == Is("Nodes") /\ Verdict(NodesVerdict(Ev)) /\ UNCHANGED <<a, h, worst, before>> /\ l' = l + 1

RECURSIVE Sup(_, _, _)
Sup(e, k, m) == IF k > Len(e.f) THEN m
                ELSE LET d == Off(e.f[k], e.s[k]) IN Sup(e, k + 1, IF Gt(d, m) THEN d ELSE m)
BetweenVerdict(e) ==
  [ Finite |-> AllNum(e.f),
    Domain |-> \A k \in DOMAIN e.e : Ge(e.e[k], Zero) /\ Le(e.e[k], One) /\ Le(Abs(e.x[k]), One),
    \* all ways to evaluate it agree
    Alike |-> \A k \in DOMAIN e.f : Eq(e.f[k], e.g[k]),
    Close |-> \A k \in DOMAIN e.f : IsNum(e.f[k]) => Le(Off(e.f[k], e.s[k]), Mul(Bound, e.s[k])) ]
Between == /\ Is("Between") /\ Verdict(BetweenVerdict(Ev)) /\ worst' = (IF AllNum(Ev.f) THEN Sup(Ev, 1, worst) ELSE worst)
           /\ UNCHANGED <<a, h, before>> /\ l' = l + 1

\* below the accuracy of the separatrix itself there is nothing to gain; close to an extreme
\* spin the tables here are too coarse to be in the regime where each one is better
CloseVerdict(e) == [ Improves |-> (IsNum(before) /\ Le(Mul(I(10), a), I(9))) => Le(Mul(I(4), worst), Mul(I(3), before) \oplus Tol(20)) ]
Closed == Is("Close") /\ Verdict(CloseVerdict(Ev)) /\ UNCHANGED <<a, h, worst, before>> /\ l' = l + 1

Init == l = 1 /\ a = NaN /\ h = NaN /\ worst = Zero /\ before = NaN
Next == Table \/ Nodes \/ Between \/ Closed \/ (Failed /\ UNCHANGED <<a, h, worst, before>>)
Spec == Init /\ [][Next]_vars
=============================================================================
