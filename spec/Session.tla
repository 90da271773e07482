------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Histories of calls over two live objects A and B (P16).                 *)
(*                                                                         *)
(* There are N operations, N prime.  A history is made from a step s: it   *)
(* visits the operations 0, s, 2s, ... (mod N) and calls each one          *)
(*   "alone"      twice in succession on A, or                             *)
(*   "alternate"  on A and then on B, which differs from A in one field.   *)
(*                                                                         *)
(* A library whose results depend on arguments only is the state machine   *)
(* with no memory.  The model gives it one: a cell that operation w sets,  *)
(* that a set C of others resets, and that spoils the result of operation  *)
(* r while set, on the same object or on any.  The set of all histories is *)
(* shown to expose every such fault (Exposing), and to compare every       *)
(* operation on objects that differ in just one field, which exposes every *)
(* result remembered under an incomplete key (Compares).                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC

CONSTANT N
Ops == 0 .. N - 1
Patterns == {"alone", "alternate"}
Steps == 1 .. N - 1
Histories == SetToSeq([step : Steps, pattern : Patterns])
Scopes == {"same", "any"}
Faults == { f \in [w : Ops, r : Ops, c : SUBSET Ops, scope : Scopes] : f.w \notin f.c }

\* the k-th call of a history
Call(h, k) == LET i == (k - 1) \div 2
              IN [op |-> (i * h.step) % N, on |-> IF h.pattern = "alternate" /\ k % 2 = 0 THEN "B" ELSE "A"]
\* once around and back to the first operation: without the return, the one that precedes it would be missed
Length == 2 * (N + 1)

VARIABLES fault, hist, pos, cell, exposed
vars == <<fault, hist, pos, cell, exposed>>
Init == fault \in Faults /\ hist = 1 /\ pos = 1 /\ cell = {} /\ exposed = FALSE
\* cell: the objects whose memory is set
Hit(on) == cell # {} /\ (fault.scope = "any" \/ on \in cell)
Step == /\ hist <= Len(Histories) /\ pos <= Length /\ ~exposed
        /\ LET c == Call(Histories[hist], pos)
           IN /\ exposed' = (c.op = fault.r /\ Hit(c.on))
              /\ cell' = IF c.op = fault.w THEN cell \cup {c.on} ELSE IF c.op \in fault.c THEN (IF fault.scope = "any" THEN {} ELSE cell \ {c.on}) ELSE cell
        /\ pos' = pos + 1 /\ UNCHANGED <<fault, hist>>
\* every history starts in a fresh process
Restart == hist <= Len(Histories) /\ pos > Length /\ ~exposed /\ hist' = hist + 1 /\ pos' = 1 /\ cell' = {} /\ UNCHANGED <<fault, exposed>>
Next == Step \/ Restart
Spec == Init /\ [][Next]_vars

TypeInv == hist \in 1 .. Len(Histories) + 1 /\ pos \in 1 .. Length + 1 /\ cell \subseteq {"A", "B"}
\* no fault survives all histories
Exposing == hist > Len(Histories) => exposed

-----------------------------------------------------------------------------
(* The concrete histories have 29 operations; A and B are of one of five    *)
(* kinds and differ in one field.                                           *)
M == 29
Fields == [ stable |-> {"a", "p", "e", "x", "phases", "M", "mu", "asign", "xsign", "none"},
            special |-> {"a", "p", "e", "x", "phases", "M", "mu", "none"},
            plunging |-> {"a", "E", "L", "Q", "phases", "M", "mu", "none"},
            state |-> {"t", "r", "phi", "ur", "utheta", "M", "mu", "none"},
            plungestate |-> {"t", "r", "phi", "utheta", "M", "mu", "none"} ]
Kinds == DOMAIN Fields
FieldSeq(kind) == SetToSeq(Fields[kind])
\* in every kind each field is the difference of at least two alternate histories
Made == { [kind |-> k, step |-> s, pattern |-> p, differ |-> FieldSeq(k)[((s + 3 * (IF p = "alone" THEN 1 ELSE 0)) % Len(FieldSeq(k))) + 1]]
          : k \in Kinds, s \in 1 .. M - 1, p \in Patterns }
Compares == \A k \in Kinds : \A f \in Fields[k] : Cardinality({h \in Made : h.kind = k /\ h.pattern = "alternate" /\ h.differ = f}) >= 2
\* every ordered pair of operations follows one another
Adjacent == \A v \in 0 .. M - 1 : \A u \in 0 .. M - 1 : u # v =>
            \E s \in 1 .. M - 1 : \E i \in 0 .. M - 1 : (i * s) % M = u /\ ((i + 1) * s) % M = v
ASSUME Compares /\ Adjacent

Export == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq(Made))
=============================================================================
