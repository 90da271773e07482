------------------------------ MODULE Optional ------------------------------
(***************************************************************************)
(* Functions with optional precomputed arguments (P22).                    *)
(*                                                                         *)
(* A call is about a state.  Quantities are derived from each other along  *)
(* Needs; a call is handed some of them (given) and derives the missing    *)
(* ones in any order.  Every quantity remembers the state it is about; TLC *)
(* shows that if what is handed over is about the state of the call, so is *)
(* everything derived from it - whatever the order and whatever was given  *)
(* - and that every answer can be derived.  (A function that mixed the     *)
(* state of the call with a quantity of its own making would not do.)      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Quantities == {"constants", "radial", "upsilon_r", "upsilon_theta", "answer"}
Needs(q) == CASE q = "constants" -> {}
              [] q = "radial" -> {"constants"}
              [] q = "upsilon_r" -> {"constants", "radial"}
              [] q = "upsilon_theta" -> {"constants", "radial"}
              [] q = "answer" -> {"constants", "radial", "upsilon_r", "upsilon_theta"}

\* what each function can be handed
Takes(f) == CASE f = "constants" -> {}
              [] f = "is_stable" -> {"constants"}
              [] f = "stable_phases" -> {"constants", "radial", "upsilon_r", "upsilon_theta"}
              [] f = "plunging_phases" -> {"constants", "radial"}
Functions == {"constants", "is_stable", "stable_phases", "plunging_phases"}

VARIABLES f, given, about      \* about: quantity -> the state it belongs to ("-": not there yet)
vars == <<f, given, about>>
Init == /\ f \in Functions /\ given \in SUBSET Takes(f)
        /\ about = [q \in Quantities |-> IF q \in given THEN "state" ELSE "-"]
Derive(q) == /\ about[q] = "-" /\ \A n \in Needs(q) : about[n] # "-"
             /\ about' = [about EXCEPT ![q] = IF \A n \in Needs(q) : about[n] = "state" THEN "state" ELSE "other"]
             /\ UNCHANGED <<f, given>>
Next == \E q \in Quantities : Derive(q)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AboutInv == \A q \in Quantities : about[q] \in {"-", "state"}
Answered == <>(about["answer"] = "state")

Leg == {"low", "up", "high", "down"}
Calls == UNION {[f : {g}, given : {SetToSeq(s) : s \in SUBSET Takes(g)}, rleg : Leg, pleg : Leg, when : {"start", "later"}] : g \in Functions}
Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq(Calls))
=============================================================================
