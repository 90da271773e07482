----------------------------- MODULE TraceDomain -----------------------------
(***************************************************************************)
(* Recorded answers of the entry points (P03): the position of the numbers *)
(* on the axes is worked out here, exactly, and the answer of each must be *)
(* that of the domain of its family.                                       *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets

D == INSTANCE Domain WITH q <- <<>>, fam <- "", form <- "", left <- {}, res <- ""

PosA(a) == IF ~IsNum(a) THEN "nan" ELSE IF Lt(a, Neg(One)) THEN "under" ELSE IF Eq(a, Neg(One)) THEN "-one" ELSE IF Lt(a, Zero) THEN "neg"
           ELSE IF Eq(a, Zero) THEN "zero" ELSE IF Lt(a, One) THEN "pos" ELSE IF Eq(a, One) THEN "one" ELSE "over"
PosE(e) == IF ~IsNum(e) THEN "nan" ELSE IF Lt(e, Zero) THEN "neg" ELSE IF Eq(e, Zero) THEN "zero" ELSE IF Lt(e, One) THEN "mid"
           ELSE IF Eq(e, One) THEN "one" ELSE "over"
\* ps: the separatrix, known to 2^-24
PosP(p, ps) == IF ~IsNum(p) THEN "nan" ELSE IF ~IsNum(ps) THEN "far" ELSE IF Gt(p, Mul(ps, One \oplus Tol(22))) THEN "above"
               ELSE IF Lt(p, Mul(ps, One \ominus Tol(22))) THEN "below" ELSE "edge"
PosEn(E) == IF ~IsNum(E) THEN "nan" ELSE IF Lt(E, Neg(One)) THEN "under" ELSE IF Eq(E, Neg(One)) THEN "-one" ELSE IF Lt(E, One) THEN "bound"
            ELSE IF Eq(E, One) THEN "one" ELSE "over"

\* answers: "value" (finite numbers of the right number), "ValueError", "true" and "false" of predicates, anything else is wrong
Fits(f, q, o) == IF D!Accepts(f, q) THEN o = "value" \/ (D!Optional(f, q) /\ o = "ValueError") ELSE o = "ValueError"
FitsTest(q, o) ==
  IF ~D!Accepts("boundary", q) \/ (D!Optional("boundary", q) /\ o = "ValueError") THEN o = "ValueError"
  ELSE IF D!SemiOk(q.p) THEN o = "true" ELSE o = "false" \/ (q.p = "nan" /\ o = "ValueError")
\* at the separatrix itself either answer is right, but all must agree
Alike(q, asks) ==
  LET open(f) == D!Accepts(f, [q EXCEPT !.p = "above"])
      says == {IF k.o \in {"value", "true", "nonfinite"} THEN "in" ELSE "out" : k \in {asks[i] : i \in {j \in DOMAIN asks : asks[j].f # "boundary" /\ (asks[j].f = "test" \/ open(asks[j].f))
                                                                          /\ ~(asks[j].f = "test" /\ q.a = "neg")}}}
  IN Cardinality(says) <= 1

\* and the separatrix is the one the code itself reports: on it or below it nothing is accepted, above it everything
Strict(q, e) ==
  LET in == {"value", "true", "nonfinite"}
      asked == {i \in DOMAIN e.asks : LET k == e.asks[i] IN k.f # "boundary" /\ ~(k.f = "test" /\ q.a = "neg") /\ (k.f = "test" \/ D!Accepts(k.f, [q EXCEPT !.p = "above"]))}
  IN IF Le(e.p, e.ks) THEN \A i \in asked : e.asks[i].o \notin in
     ELSE Gt(e.p, Mul(e.ks, One \oplus Tol(33))) => \A i \in asked : e.asks[i].o \in in

AskVerdict(e) ==
  LET q == [a |-> PosA(e.a), e |-> PosE(e.e), x |-> PosA(e.x), p |-> PosP(e.p, e.ps)]
      edge == q.p = "edge"
      okay(k) == IF k.f = "test" THEN (edge /\ D!Accepts("boundary", q)) \/ FitsTest(q, k.o)
                 ELSE (edge /\ k.f # "boundary" /\ D!Accepts(k.f, [q EXCEPT !.p = "above"])) \/ Fits(k.f, q, k.o)
      \* (a double next to the boundary may be on its other side)
      allowed == {"value", "ValueError", "true", "false"} \cup (IF edge THEN {"nonfinite"} ELSE {})
  IN [ Boundary |-> \A i \in DOMAIN e.asks : e.asks[i].f = "boundary" => okay(e.asks[i]),
       Test |-> \A i \in DOMAIN e.asks : e.asks[i].f = "test" => okay(e.asks[i]),
       Constants |-> \A i \in DOMAIN e.asks : e.asks[i].f = "constants" => okay(e.asks[i]),
       Roots |-> \A i \in DOMAIN e.asks : e.asks[i].f = "roots" => okay(e.asks[i]),
       Motion |-> \A i \in DOMAIN e.asks : e.asks[i].f = "motion" => okay(e.asks[i]),
       NothingElse |-> \A i \in DOMAIN e.asks : e.asks[i].o \in allowed,
       Strict |-> edge /\ D!Accepts("boundary", q) /\ IsNum(e.ks) => Strict(q, e),
       Alike |-> edge /\ D!Accepts("boundary", q) => Alike(q, e.asks) ]
Ask == Is("Ask") /\ Verdict(AskVerdict(Ev)) /\ l' = l + 1

\* orbits from constants; L and Q belong to a plunge, or are no numbers
PlungeVerdict(e) ==
  [ Plunging |-> e.o = (IF D!PlungeAccepts(PosA(e.a), PosEn(e.E)) /\ IsNum(e.L) /\ IsNum(e.Q) THEN "value" ELSE "ValueError") ]
Plunge == Is("Plunge") /\ Verdict(PlungeVerdict(Ev)) /\ l' = l + 1

\* orbits from states and from constants of stable orbits, which are valid in every other respect
OrbitVerdict(e) ==
  [ Orbits |-> e.o = (IF D!SpinOk(PosA(e.a)) THEN "value" ELSE "ValueError") ]
Orbit == Is("Orbit") /\ Verdict(OrbitVerdict(Ev)) /\ l' = l + 1

Init == l = 1
Next == Ask \/ Plunge \/ Orbit \/ Failed
Spec == Init /\ [][Next]_l
=============================================================================
