------------------------------- MODULE Sturm --------------------------------
(***************************************************************************)
(* Counting real roots exactly.  A polynomial is the sequence of its       *)
(* coefficients c0, c1, ..., cn over BF, the last one not zero.  Remainders*)
(* are pseudo remainders by positive factors, so no division is needed.    *)
(***************************************************************************)
EXTENDS Kerr

RECURSIVE Trim(_)
Trim(f) == IF f # <<>> /\ Sgn(f[Len(f)]) = 0 THEN Trim(SubSeq(f, 1, Len(f) - 1)) ELSE f
Lead(f) == f[Len(f)]
Diff(f) == Trim([i \in 1 .. Len(f) - 1 |-> TimesInt(i, f[i + 1])])

\* one step of division: |lc(g)| f - sign * lc(f) x^k g, of lower degree; a positive multiple of f modulo g
Step(f, g) ==
  LET k == Len(f) - Len(g)
      c == IF Sgn(Lead(g)) = 1 THEN Lead(f) ELSE Neg(Lead(f))
      m == Abs(Lead(g))
  IN Trim([i \in 1 .. Len(f) - 1 |-> IF i > k THEN Mul(m, f[i]) \ominus Mul(c, g[i - k]) ELSE Mul(m, f[i])])
RECURSIVE Rem(_, _)
Rem(f, g) == IF Len(f) < Len(g) THEN f ELSE Rem(Step(f, g), g)
RECURSIVE ChainFrom(_, _)
ChainFrom(f, g) == IF g = <<>> THEN <<f>>
                   ELSE LET r == IF Len(g) = 1 THEN <<>> ELSE Rem(f, g)
                        IN <<f>> \o ChainFrom(g, [i \in DOMAIN r |-> Neg(r[i])])
Chain(f0) == LET f == Trim(f0) IN ChainFrom(f, Diff(f))

RECURSIVE Horner(_, _, _)
Horner(f, x, i) == IF i > Len(f) THEN Zero ELSE f[i] \oplus Mul(x, Horner(f, x, i + 1))
At(f, x) == Horner(f, x, 1)

\* sign changes in a sequence of signs, zeros dropped
Changes(s) == LET q == SelectSeq(s, LAMBDA v : v # 0)
              IN Len(SelectSeq([i \in 1 .. MaxI(0, Len(q) - 1) |-> IF q[i] # q[i + 1] THEN 1 ELSE 0], LAMBDA v : v = 1))
SignsAt(ch, x) == [i \in DOMAIN ch |-> Sgn(At(ch[i], x))]
SignsTop(ch) == [i \in DOMAIN ch |-> Sgn(Lead(ch[i]))]
SignsBottom(ch) == [i \in DOMAIN ch |-> IF Len(ch[i]) % 2 = 1 THEN Sgn(Lead(ch[i])) ELSE -Sgn(Lead(ch[i]))]

\* number of different real roots above x (x no root), and in all
Above(ch, x) == Changes(SignsAt(ch, x)) - Changes(SignsTop(ch))
Below(ch, x) == Changes(SignsBottom(ch)) - Changes(SignsAt(ch, x))
Real(ch) == Changes(SignsBottom(ch)) - Changes(SignsTop(ch))

-----------------------------------------------------------------------------
(* The radial polynomial of (a, E, L, Q).  R >= 0 between the horizons and  *)
(* r = 1 lies between them, so roots above 1 are roots above the horizons.  *)
RadialChain(a, E, L, Q) == Chain(RCoef(a, E, L, Q))
BoundEnergy(E) == Gt(E, Zero) /\ Lt(E, One)
StableCount(a, E, L, Q) == BoundEnergy(E) /\ Above(RadialChain(a, E, L, Q), One) = 3
\* energies a little higher and lower, to stay clear of double roots: a nearly circular orbit is made or
\* unmade by an arbitrarily small shift, and next to the separatrix a large one shifts past its well
Shifts == {8, 12, 16, 20, 24}
Nudged(E) == {E} \cup {E \oplus Mul(Pow2(-k), One \ominus E) : k \in Shifts} \cup {E \ominus Mul(Pow2(-k), One \ominus E) : k \in Shifts}
SurelyStable(a, E, L, Q) == \A F \in Nudged(E) : StableCount(a, F, L, Q)
SurelyNot(a, E, L, Q) == \A F \in Nudged(E) : ~StableCount(a, F, L, Q)
=============================================================================
