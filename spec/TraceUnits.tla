----------------------------- MODULE TraceUnits -----------------------------
(***************************************************************************)
(* Recorded conversions (P14).  The state is what the code takes for the   *)
(* mass of the sun in kilograms, for its gravitational radius in metres    *)
(* and that over the speed of light in seconds, and for the named units;   *)
(* these are pinned to their values by "Base", and everything else follows *)
(* from them exactly.                                                      *)
(***************************************************************************)
EXTENDS TraceBase

U == INSTANCE Units WITH dim <- <<0, 0, 0>>, fac <- <<0, 0, 0>>, n <- 0

VARIABLE base
vars == <<l, base>>

\* the constants of nature: c (exact), GM(sun) = 1.32712440018e20 m^3/s^2, G = 6.674e-11, au, light-year
cLight == I(299792458)
GMsun == Mul3(I(132712440), I(1000000), I(1000000))
Meters(au) == Mul(I(149597871), I(1000))
LightYear == Mul(cLight, I(31557600))
T10(k) == PowN(I(10), k)

BaseVerdict(e) ==
  LET m == e.kg  d == e.m  t == e.s
  IN [ SpeedOfLight |-> RelEq(d, Mul(cLight, t), Tol(46)),
       \* G M = c^2 d, to the accuracy G and the solar mass are known with
       GravitationalRadius |-> RelEq(Mul(d, Sq(cLight)), GMsun, Tol(11)),
       SolarMass |-> RelEq(m, TimesInt(19885, T10(26)), Tol(11)),
       Gravity |-> RelEq(Mul4(d, Sq(cLight), T10(15), One), Mul(m, I(66743)), Tol(11)),
       AstronomicalUnit |-> RelEq(e.au, Meters(1), Tol(12)),
       LightYears |-> RelEq(e.ly, LightYear, Tol(12)),
       Day |-> RelEq(e.day, I(86400), Tol(46)) ]
Base == /\ Is("Base") /\ Verdict(BaseVerdict(Ev))
        /\ base' = [kg |-> Ev.kg, m |-> Ev.m, s |-> Ev.s, au |-> Ev.au, ly |-> Ev.ly, day |-> Ev.day] /\ l' = l + 1

Pos(n) == IF n > 0 THEN n ELSE 0
\* got is v in natural units of the dimension of q (with black hole mass M and small mass mu, both in
\* solar masses), expressed in unit u
Converted(q, u, v, M, mu, got) ==
  LET d == U!Dim[q]
      o == U!OrderOf(q)
      tens == U!Tens(u, d)
      mk == Mul(M, base.kg)  mm == Mul(M, base.m)  ms == Mul(M, base.s)
      f(sgn) == Mul(Mul3(PowN(mk, Pos(sgn * d[1])), PowN(mm, Pos(sgn * d[2])), PowN(ms, Pos(sgn * d[3]))), PowN(I(10), Pos(sgn * tens)))
      name == IF u = "au" THEN base.au ELSE IF u = "lightyear" THEN base.ly ELSE IF u = "day" THEN base.day ELSE One
  IN IsNum(got) /\ RelEq(Mul4(got, f(-1), name, PowN(M, o)), Mul3(v, f(1), PowN(mu, o)), Tol(44))

\* conversion functions, on numbers or arrays
ConvertVerdict(e) ==
  [ Shape |-> Len(e.got) = Len(e.v),
    Conversion |-> \A k \in DOMAIN e.v : Converted(e.q, e.u, e.v[k], e.M, e.M, e.got[k]) ]
Convert == Is("Convert") /\ Verdict(ConvertVerdict(Ev)) /\ UNCHANGED base /\ l' = l + 1

\* answers of orbits: q[k] is what the k-th number is, nat the same in natural units
Served(e) == IF e.method = "trajectory" THEN U!ServeTrajectory(e.unit, e.tunit, e.hasM) ELSE U!Serve(e.method, e.unit, e.hasM, e.hasMu)
UnitOf(e, q) == LET u == IF e.method = "trajectory" /\ q = "time" THEN e.tunit ELSE e.unit
                IN IF u = "days" THEN "day" ELSE u
RequestVerdict(e) ==
  [ Answered |-> e.answer = Served(e),
    Shape |-> e.answer = "value" => Len(e.got) = Len(e.q) /\ Len(e.nat) = Len(e.q),
    Value |-> e.answer = "value" /\ Len(e.got) = Len(e.q) => \A k \in DOMAIN e.q :
                IF e.q[k] = "angle" \/ UnitOf(e, e.q[k]) = "natural" THEN Eq(e.got[k], e.nat[k])
                ELSE Converted(e.q[k], UnitOf(e, e.q[k]), e.nat[k], e.M, IF e.hasMu THEN e.mu ELSE e.M, e.got[k]) ]
Request == Is("Request") /\ Verdict(RequestVerdict(Ev)) /\ UNCHANGED base /\ l' = l + 1

\* scale_constants: E mu, L mu M, Q mu^2 M^2
ScaleVerdict(e) ==
  [ Energy |-> RelEq(e.got[1], Mul(e.c[1], e.mu), Tol(48)),
    Momentum |-> RelEq(e.got[2], Mul3(e.c[2], e.mu, e.M), Tol(48)),
    Carter |-> RelEq(e.got[3], Mul3(e.c[3], Sq(e.mu), Sq(e.M)), Tol(48)) ]
Scale == Is("Scale") /\ Verdict(ScaleVerdict(Ev)) /\ UNCHANGED base /\ l' = l + 1

Init == l = 1 /\ base = [kg |-> NaN, m |-> NaN, s |-> NaN, au |-> NaN, ly |-> NaN, day |-> NaN]
Next == Base \/ Convert \/ Request \/ Scale \/ (Failed /\ UNCHANGED base)
Spec == Init /\ [][Next]_vars
=============================================================================
