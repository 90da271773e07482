---------------------------- MODULE TraceMirror -----------------------------
(***************************************************************************)
(* Recorded pairs of mirror images (P04).  An event holds what one entry   *)
(* point reports about an orbit (A) and about its mirror image (B): names  *)
(* of the quantities, values, and the frame.                               *)
(***************************************************************************)
EXTENDS TraceBase

M == INSTANCE Mirror WITH sa <- 1, sl <- 1, n <- 0

TypeOk(e) == /\ e.frame \in M!Frames /\ Len(e.A) = Len(e.q) /\ Len(e.B) = Len(e.q)
             /\ \A k \in DOMAIN e.q : e.q[k] \in M!Even \cup M!Odd

PairVerdict(e) ==
  LET bad == {k \in DOMAIN e.q :
                LET b == IF M!Parity(e.frame, e.q[k]) = 1 THEN e.B[k] ELSE Neg(e.B[k])
                    d == Abs(e.A[k] \ominus b)
                IN ~Le(d, Mul(Tol(e.n), Max(Abs(e.A[k]), IF e.q[k] \in {"t", "r", "phi"} THEN One ELSE Tol(30))))}
  IN [ Shape |-> TypeOk(e),
       EvenPart |-> bad \cap {k \in DOMAIN e.q : e.q[k] \in M!Even} = {},
       OddPart |-> bad \cap {k \in DOMAIN e.q : e.q[k] \in M!Odd} = {} ]
Pair == Is("Pair") /\ Verdict(PairVerdict(Ev)) /\ l' = l + 1

Init == l = 1
Next == Pair \/ Failed
Spec == Init /\ [][Next]_l
=============================================================================
