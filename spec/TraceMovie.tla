----------------------------- MODULE TraceMovie -----------------------------
(***************************************************************************)
(* Recorded animations (P20).                                              *)
(*                                                                         *)
(* "Film" opens an animation, "Frame" reports a frame as it is written,    *)
(* "Tail" the vertices of its tail in pieces, "Curves" its component       *)
(* plots, "End" closes it.  A frame's window is Movie's: vertices          *)
(* j - 1, j - 2, ... no older than the tail length, j = mult * k.          *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES a, h, film, k, n, due, count
vars == <<l, a, h, film, k, n, due, count>>

Dot(u, v) == Add3(Mul(u[1], v[1]), Mul(u[2], v[2]), Mul(u[3], v[3]))
Slack == Tol(40)
\* as in TraceView
Seen(p) ==
  LET d2 == Dot(p, p)
      h2 == Sq(h)
      al == Dot(p, n)
      b2 == d2 \ominus Sq(al)
      s2 == Mul(Slack, h2 \oplus d2)
      out(v) == IF Gt(v, h2 \oplus s2) THEN 1 ELSE IF Lt(v, h2 \ominus s2) THEN -1 ELSE 0
      front == IF Gt(al, Mul(Slack, h)) THEN 1 ELSE IF Lt(al, Neg(Mul(Slack, h))) THEN -1 ELSE 0
  IN IF out(d2) = -1 THEN "no" ELSE IF out(d2) = 0 THEN "edge"
     ELSE IF front = 1 \/ out(b2) = 1 THEN "yes"
     ELSE IF front = -1 /\ out(b2) = -1 THEN "no" ELSE "edge"
Right(p, v) == LET s == Seen(p) IN s = "edge" \/ v = (s = "yes")
Where(c) == << Mul3(c[1], c[2], c[5]), Mul3(c[1], c[2], c[4]), Mul(c[1], c[3]) >>
Same3(u, v, m) == \A i \in 1 .. 3 : Near(u[i], v[i], Mul(Tol(36), One \oplus m))

\* total points, mult of them per frame; speed in Mino time per second
FilmVerdict(e) ==
  LET range == e.l1 \ominus e.l0
      exact == Mul3(range, e.fps, One)                 \* frames times speed
      pts == Mul(range, I(e.rate))
  IN [ Horizon |-> Ge(e.h, One) /\ Near(Sq(e.h \ominus One), One \ominus Sq(e.a), Tol(48)),
       Points |-> Lt(Abs(I(e.total) \ominus pts), I(2)),
       \* the Mino time of a second of the film
       Speed |-> Near(Mul3(I(e.mult), range, e.fps), Mul(e.speed, I(e.total - 1)), Mul3(Tol(20) \oplus One, e.speed, Two)),
       Length |-> Le(Mul(I(e.frames), e.speed), exact \oplus Tol(20)) /\ Gt(Mul(I(e.frames), e.speed), exact \ominus Mul(e.speed, One \oplus Tol(20)) \ominus Tol(2)),
       File |-> e.file,
       Ball |-> \A i \in DOMAIN e.ball : Near(Dot(e.ball[i], e.ball[i]), Sq(e.h), Tol(40)),
       BallThere |-> Len(e.ball) >= 100 ]
Film == /\ Is("Film") /\ Verdict(FilmVerdict(Ev))
        /\ a' = Ev.a /\ h' = Ev.h /\ k' = 0 /\ n' = <<>> /\ due' = 0 /\ count' = 0
        /\ film' = [l0 |-> Ev.l0, l1 |-> Ev.l1, total |-> Ev.total, mult |-> Ev.mult, frames |-> Ev.frames, tail |-> Ev.tail, rate |-> Ev.rate]
        /\ l' = l + 1

Moment(lam, j) == Near(Mul(lam, I(film.total - 1)), Mul(film.l0, I(film.total - 1)) \oplus Mul(I(j), film.l1 \ominus film.l0),
                       Mul(Tol(44), I(film.total) \otimes (Abs(film.l0) \oplus Abs(film.l1))))
NearAll(u, v, m) == Len(u) = Len(v) /\ \A i \in DOMAIN u : Near(u[i], v[i], Mul(m, One \oplus Abs(v[i])))

FrameVerdict(e) ==
  LET j == film.mult * k
      want == Mul(film.tail, I(film.rate))
  IN [ InOrder |-> e.k = k /\ k < film.frames,
       TailDone |-> count = due,
       Moment |-> Moment(e.lam, j),
       Body |-> Same3(e.body, Where(e.c), Abs(e.c[1])),
       \* elevation, azimuth, roll, and those asked for at that time; limits
       Camera |-> NearAll(e.camera, e.asked, Tol(40)),
       Direction |-> Near(Sq(e.el[1]) \oplus Sq(e.el[2]), One, Tol(48)) /\ Near(Sq(e.az[1]) \oplus Sq(e.az[2]), One, Tol(48)),
       Limits |-> IF e.given THEN NearAll(e.lim, e.askedlim, Tol(40))
                  ELSE \A i \in 1 .. 3 : /\ Near(e.lim[2 * i - 1], Neg(e.lim[2 * i]), Mul(Tol(30), e.lim[2]))
                                         /\ Ge(Mul(One \oplus Tol(20), e.lim[2 * i]), e.askedlim[1]) /\ Ge(e.lim[2 * i], Mul(One \ominus Tol(6), h)),
       \* not older than the tail is long, and that long if there is as much
       TailLength |-> /\ e.vertices <= j
                      /\ Lt(I(e.vertices), want \oplus Two)
                      /\ e.vertices = j \/ Gt(I(e.vertices), want \ominus Two),
       \* opacity of the tail from old to new
       Fading |-> /\ \A i \in 1 .. Len(e.alpha) - 1 : Le(e.alpha[i], e.alpha[i + 1])
                  /\ \A i \in DOMAIN e.alpha : Gt(e.alpha[i], Zero) /\ Le(e.alpha[i], One),
       FadingThere |-> e.vertices >= 3 => Len(e.alpha) >= e.vertices - 1 /\ Lt(e.alpha[1], e.alpha[Len(e.alpha)]),
       Look |-> e.look ]
Frame == /\ Is("Frame") /\ Verdict(FrameVerdict(Ev))
         /\ k' = k + 1 /\ n' = << Mul(Ev.el[1], Ev.az[1]), Mul(Ev.el[1], Ev.az[2]), Ev.el[2] >>
         /\ due' = (IF Ev.checked THEN Ev.vertices ELSE 0) /\ count' = 0
         /\ UNCHANGED <<a, h, film>> /\ l' = l + 1

\* vertices of the tail of the current frame; first: index of the first of them
TailVerdict(e) ==
  [ Order |-> e.first = film.mult * (k - 1) - due + count /\ count + Len(e.v) <= due,
    Moments |-> \A i \in DOMAIN e.v : Moment(e.lam[i], e.first + i - 1),
    Position |-> \A i \in DOMAIN e.v : e.v[i] # <<>> => Same3(e.v[i], Where(e.c[i]), Abs(e.c[i][1])),
    Hidden |-> \A i \in DOMAIN e.v : Right(Where(e.c[i]), e.v[i] # <<>>) ]
Tails == /\ Is("Tail") /\ Verdict(TailVerdict(Ev)) /\ count' = count + Len(Ev.v)
         /\ UNCHANGED <<a, h, film, k, n, due>> /\ l' = l + 1

\* component plots: number of points, some of them with what they should be
CurvesVerdict(e) ==
  LET j == film.mult * (k - 1)
  IN [ UpToNow |-> \A i \in DOMAIN e.len : e.len[i] >= j - 1 /\ e.len[i] <= j + 1,
       Abscissa |-> \A i \in DOMAIN e.x : NearAll(e.x[i], e.lam, Tol(40)),
       Curve |-> Len(e.y) = 4 /\ \A i \in DOMAIN e.y : NearAll(e.y[i], e.want[i], Tol(36)),
       \* (two digits after the point)
       Caption |-> Near(Mul(I(100), e.caption), Mul(I(100), e.now), Mul(I(17), Tol(5))) ]
Curves == /\ Is("Curves") /\ Verdict(CurvesVerdict(Ev)) /\ UNCHANGED <<a, h, film, k, n, due, count>> /\ l' = l + 1

EndVerdict(e) == [ AllFrames |-> k = film.frames, TailDone |-> count = due ]
End == /\ Is("End") /\ Verdict(EndVerdict(Ev)) /\ UNCHANGED <<a, h, film, k, n, due, count>> /\ l' = l + 1

Init == l = 1 /\ a = NaN /\ h = NaN /\ film = <<>> /\ k = 0 /\ n = <<>> /\ due = 0 /\ count = 0
Next == Film \/ Frame \/ Tails \/ Curves \/ End \/ (Failed /\ UNCHANGED <<a, h, film, k, n, due, count>>)
Spec == Init /\ [][Next]_vars
=============================================================================
