------------------------------ MODULE MCSturm -------------------------------
(* The root counting of Sturm.tla against polynomials with known roots: all *)
(* products of a sign, linear factors and irreducible quadratic factors.    *)
EXTENDS Sturm, TLC, FiniteSets

Roots == {-3, -1, 0, 1, 2, 4}
VARIABLES s, lin, quad
Init == s \in {1, -1} /\ lin \in UNION {[1 .. n -> Roots] : n \in 0 .. 3} /\ quad \in 0 .. 1
Next == UNCHANGED <<s, lin, quad>>
Spec == Init /\ [][Next]_<<s, lin, quad>>

MulLin(f, r) == LET g == f \o <<Zero>> IN [i \in DOMAIN g |-> (IF i = 1 THEN Zero ELSE f[i - 1]) \ominus TimesInt(r, g[i])]
MulQuad(f) == LET g == f \o <<Zero, Zero>>      \* x^2 + x + 1
              IN [i \in DOMAIN g |-> Add3(IF i > 2 THEN f[i - 2] ELSE Zero, IF i > 1 /\ i - 1 <= Len(f) THEN f[i - 1] ELSE Zero, g[i])]
RECURSIVE Prod(_, _)
Prod(f, q) == IF q = <<>> THEN f ELSE Prod(MulLin(f, Head(q)), Tail(q))
Poly == LET f == Prod(<<FromInt(s)>>, lin) IN IF quad = 1 THEN MulQuad(f) ELSE f
Distinct == {lin[i] : i \in DOMAIN lin}

ch == Chain(Poly)
CountInv == Real(ch) = Cardinality(Distinct)
AboveInv == \A x \in -5 .. 5 : x \notin Distinct =>
              /\ Above(ch, FromInt(x)) = Cardinality({r \in Distinct : r > x})
              /\ Below(ch, FromInt(x)) = Cardinality({r \in Distinct : r < x})
=============================================================================
