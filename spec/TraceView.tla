------------------------------ MODULE TraceView ------------------------------
(***************************************************************************)
(* Recorded plots and visibility (P18).                                    *)
(*                                                                         *)
(* "Scene" sets the spin and the direction of view; "Points" reports which *)
(* of a set of points are called visible; "Draw" is what a plot contains,  *)
(* in pieces: "Place" are consecutive vertices of the orbit with the       *)
(* coordinates of the orbit at the Mino times they stand for.              *)
(***************************************************************************)
EXTENDS TraceBase

\* horizon, direction of view, vertices drawn so far, the last of them
VARIABLES a, h, n, count, last
vars == <<l, a, h, n, count, last>>

Dot(u, v) == Add3(Mul(u[1], v[1]), Mul(u[2], v[2]), Mul(u[3], v[3]))
\* slack of comparisons with the horizon
Slack == Tol(40)

\* h = 1 + sqrt(1 - a^2); direction from (cos, sin) of elevation and azimuth
SceneVerdict(e) ==
  [ Horizon |-> Ge(e.h, One) /\ Near(Sq(e.h \ominus One), One \ominus Sq(e.a), Tol(48)),
    Angles |-> Near(Sq(e.el[1]) \oplus Sq(e.el[2]), One, Tol(48)) /\ Near(Sq(e.az[1]) \oplus Sq(e.az[2]), One, Tol(48)) ]
Scene == /\ Is("Scene") /\ Verdict(SceneVerdict(Ev))
         /\ a' = Ev.a /\ h' = Ev.h
         /\ n' = << Mul(Ev.el[1], Ev.az[1]), Mul(Ev.el[1], Ev.az[2]), Ev.el[2] >>
         /\ count' = 0 /\ last' = <<NaN, NaN, NaN>> /\ l' = l + 1

\* "yes", "no", or "edge" when rounding decides
Seen(p) ==
  LET d2 == Dot(p, p)
      h2 == Sq(h)
      al == Dot(p, n)
      b2 == d2 \ominus Sq(al)
      s2 == Mul(Slack, h2 \oplus d2)
      out(v) == IF Gt(v, h2 \oplus s2) THEN 1 ELSE IF Lt(v, h2 \ominus s2) THEN -1 ELSE 0
      front == IF Gt(al, Mul(Slack, h)) THEN 1 ELSE IF Lt(al, Neg(Mul(Slack, h))) THEN -1 ELSE 0
  IN IF out(d2) = -1 THEN "no" ELSE IF out(d2) = 0 THEN "edge"
     ELSE IF front = 1 \/ out(b2) = 1 THEN "yes"
     ELSE IF front = -1 /\ out(b2) = -1 THEN "no" ELSE "edge"
Right(p, v) == LET s == Seen(p) IN s = "edge" \/ v = (s = "yes")

\* a set of points, each on its own, and in another order
PointsVerdict(e) ==
  [ Count |-> Len(e.set) = Len(e.p) /\ Len(e.alone) = Len(e.p) /\ Len(e.shuffled) = Len(e.p),
    Visible |-> \A k \in DOMAIN e.p : k \in DOMAIN e.set => Right(e.p[k], e.set[k]),
    Alone |-> e.alone = e.set,
    Shuffled |-> e.shuffled = e.set ]
Points == Is("Points") /\ Verdict(PointsVerdict(Ev)) /\ UNCHANGED <<a, h, n, count, last>> /\ l' = l + 1

\* vertices: drawn position v (empty: hidden), Mino time of the vertex and orbit position <<r, sin, cos theta, sin, cos phi>>
Where(c) == << Mul3(c[1], c[2], c[5]), Mul3(c[1], c[2], c[4]), Mul(c[1], c[3]) >>
Same3(u, v, m) == \A i \in 1 .. 3 : Near(u[i], v[i], Mul(Tol(36), One \oplus m))
PlaceVerdict(e) ==
  [ Moments |-> \A k \in DOMAIN e.v : LET i == e.first + k - 1 IN
                  Near(Mul(e.lam[k], I(e.total - 1)), Mul(e.l0, I(e.total - 1)) \oplus Mul(I(i), e.l1 \ominus e.l0),
                       Mul(Tol(44), I(e.total) \otimes (Abs(e.l0) \oplus Abs(e.l1)))),
    Order |-> e.first = count /\ count + Len(e.v) <= e.total,
    Position |-> \A k \in DOMAIN e.v : e.v[k] # <<>> => Same3(e.v[k], Where(e.c[k]), Abs(e.c[k][1])),
    Hidden |-> \A k \in DOMAIN e.v : Right(Where(e.c[k]), e.v[k] # <<>>) ]
Place == /\ Is("Place") /\ Verdict(PlaceVerdict(Ev))
         /\ count' = count + Len(Ev.v) /\ last' = Where(Ev.c[Len(Ev.c)])
         /\ UNCHANGED <<a, h, n>> /\ l' = l + 1

\* the rest of the plot
DrawVerdict(e) ==
  LET N == I(e.total)
      exact == Mul(e.l1 \ominus e.l0, e.density)
  IN [ Complete |-> count = e.total,
       \* so many points per unit of Mino time
       Density |-> Lt(Abs(N \ominus exact), I(2)),
       Final |-> Len(e.body) = 1 /\ Same3(e.body[1], last, One \oplus Abs(last[1]) \oplus Abs(last[2]) \oplus Abs(last[3])),
       \* the ball of the horizon
       Ball |-> \A k \in DOMAIN e.ball : Near(Dot(e.ball[k], e.ball[k]), Sq(h), Tol(40)),
       BallAround |-> \A i \in 1 .. 3 : \A s \in {1, -1} : \E k \in DOMAIN e.ball : Gt(Mul(I(s), e.ball[k][i]), Mul(Tol(1), h)),
       Camera |-> Eq(e.elev, e.elevation) /\ Eq(e.azim, e.azimuth) /\ e.ortho /\ e.aspect,
       \* everything lies within the limits, which are equally scaled
       Limits |-> \A i \in 1 .. 3 : /\ Le(e.lim[i][1], Neg(Mul(One \ominus Tol(6), h))) /\ Ge(e.lim[i][2], Mul(One \ominus Tol(6), h))
                                    /\ Le(e.lim[i][1], e.low[i] \oplus Mul(Tol(30), One \oplus Abs(e.low[i])))
                                    /\ Ge(e.lim[i][2], e.high[i] \ominus Mul(Tol(30), One \oplus Abs(e.high[i]))),
       Fading |-> \A k \in 1 .. Len(e.width) - 1 : Le(e.width[k], e.width[k + 1]),
       \* the newest vertex has the line width asked for; widths fade geometrically, by the factor e.g = exp(- step / tau)
       Width |-> e.width # <<>> /\ Ge(e.width[Len(e.width)], Mul3(e.lw, e.g, e.g)) /\ Le(e.width[Len(e.width)], e.lw \oplus Tol(1)),
       Law |-> Gt(e.tau, Zero) => LET W == Len(e.width)  d(k) == e.width[k + 1] \ominus e.width[k]  eps == Mul(Tol(36), One \oplus e.lw)
                 IN W > 1 => Near(d(W - 1), Mul(e.lw, One \ominus e.g), eps) /\ \A k \in 1 .. W - 2 : Near(d(k), Mul(e.g, d(k + 1)), eps),
       Decay |-> Eq(e.tau, Zero) => \A k \in 1 .. Len(e.width) - 1 : Eq(e.width[k], e.width[k + 1]),
       Look |-> e.look ]
Draw == Is("Draw") /\ Verdict(DrawVerdict(Ev)) /\ UNCHANGED <<a, h, n, count, last>> /\ l' = l + 1

Init == l = 1 /\ a = NaN /\ h = NaN /\ n = <<>> /\ count = 0 /\ last = <<>>
Next == Scene \/ Points \/ Place \/ Draw \/ (Failed /\ UNCHANGED <<a, h, n, count, last>>)
Spec == Init /\ [][Next]_vars
=============================================================================
