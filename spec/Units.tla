-------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* Physical dimensions and requests for physical units.                    *)
(*                                                                         *)
(* A quantity has a dimension <<mass, length, time>> and an order in the   *)
(* mass of the small body (energies and angular momenta are reported per   *)
(* unit mass, the Carter constant per unit mass squared).  In natural      *)
(* units the black hole mass M is the unit of everything.  A state of the  *)
(* model is a quantity built up by multiplying and dividing by masses,     *)
(* lengths and times; the exponents of G, c and M its conversion factor    *)
(* collects on the way must be the ones read off its dimension.            *)
(*                                                                         *)
(* Serve says what a request for a quantity in some unit is answered with. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Dim == [ mass |-> <<1, 0, 0>>, distance |-> <<0, 1, 0>>, time |-> <<0, 0, 1>>, time2 |-> <<0, 0, 2>>, frequency |-> <<0, 0, -1>>,
         energy |-> <<1, 2, -2>>, momentum |-> <<1, 2, -1>>, carter |-> <<2, 4, -2>>, angle |-> <<0, 0, 0>> ]
\* order in the small mass
Order == [ energy |-> 1, momentum |-> 1, carter |-> 2 ]
OrderOf(q) == IF q \in DOMAIN Order THEN Order[q] ELSE 0
\* exponents of G, c and M in the value of the natural unit of a dimension
GExp(d) == d[2] + d[3]
CExp(d) == -2 * d[2] - 3 * d[3]
MExp(d) == d[1] + d[2] + d[3]

\* units: powers of ten in a metre, a kilogram and a second, or a named unit
Decimal == [ mks |-> <<0, 0, 0>>, cgs |-> <<3, 2, 0>>, km |-> <<0, -3, 0>>, mHz |-> <<0, 0, -3>> ]
Named == {"au", "lightyear", "day"}
\* power of ten in the value of a quantity of dimension d
Tens(u, d) == IF u \in DOMAIN Decimal THEN Decimal[u][1] * d[1] + Decimal[u][2] * d[2] + Decimal[u][3] * d[3] ELSE 0

VARIABLES dim, fac, n
vars == <<dim, fac, n>>
\* natural units of mass, length and time: exponents of G, c, M
Base == << <<0, 0, 1>>, <<1, -2, 1>>, <<1, -3, 1>> >>
Init == dim = <<0, 0, 0>> /\ fac = <<0, 0, 0>> /\ n = 0
Times(k, s) == /\ n < 8 /\ n' = n + 1
               /\ dim' = [dim EXCEPT ![k] = @ + s]
               /\ fac' = [j \in 1 .. 3 |-> fac[j] + s * Base[k][j]]
Next == \E k \in 1 .. 3 : \E s \in {1, -1} : Times(k, s)
Spec == Init /\ [][Next]_vars
FactorInv == fac = <<GExp(dim), CExp(dim), MExp(dim)>>
\* changing the unit system multiplies by powers of ten that add up like dimensions do
TensInv == \A u \in DOMAIN Decimal : Tens(u, dim) = dim[1] * Tens(u, <<1, 0, 0>>) + dim[2] * Tens(u, <<0, 1, 0>>) + dim[3] * Tens(u, <<0, 0, 1>>)

-----------------------------------------------------------------------------
Methods == [ constants |-> {"natural", "mks", "cgs"}, mino |-> {"natural", "mks", "cgs"}, fundamental |-> {"natural", "mks", "cgs", "mHz"} ]
NeedsMu(m) == m = "constants"
Serve(m, unit, hasM, hasMu) ==
  IF unit = "natural" THEN "value"
  ELSE IF ~hasM \/ (NeedsMu(m) /\ ~hasMu) THEN "ValueError"
  ELSE IF unit \in Methods[m] THEN "value" ELSE "ValueError"
DistanceUnits == {"natural", "mks", "cgs", "au", "km"}
TimeUnits == {"natural", "mks", "cgs", "days"}
ServeTrajectory(d, t, hasM) == IF (d # "natural" \/ t # "natural") /\ ~hasM THEN "ValueError" ELSE "value"
\* whatever is answered with a value without masses is natural; giving masses never loses an answer
ServeInv == /\ \A m \in DOMAIN Methods : \A u \in {"natural", "mks", "cgs", "mHz", "au", "furlong"} :
                 /\ (Serve(m, u, FALSE, FALSE) = "value" => u = "natural")
                 /\ \A h, k \in BOOLEAN : Serve(m, u, h, k) = "value" => Serve(m, u, TRUE, TRUE) = "value"
            /\ \A d \in DistanceUnits, t \in TimeUnits : ServeTrajectory(d, t, TRUE) = "value"

Who == {"stable", "constants", "orbit", "plunge", "orbitplunge"}
Asked(m) == IF m = "trajectory" THEN DistanceUnits \X TimeUnits
            ELSE {<<u, "-">> : u \in {"natural", "mks", "cgs", "mHz", "au", "furlong", "MKS", ""}}
Has(w) == IF w \in {"stable", "constants"} THEN {"constants", "mino", "fundamental", "trajectory"} ELSE {"constants", "trajectory"}
Requests == UNION {UNION {{[who |-> w, method |-> m, unit |-> u[1], tunit |-> u[2], M |-> h, mu |-> k] : u \in Asked(m), h \in BOOLEAN, k \in BOOLEAN}
                          : m \in Has(w)} : w \in Who}
Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq(Requests))
=============================================================================
