---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Recorded histories (P16).  "Start" forgets everything.  "Golden" is the *)
(* result of one call made alone in a fresh process; "Born" an object of   *)
(* the history with the digest of its public attributes; "Call" a call     *)
(* made in the history, with digests of its arguments before and after and *)
(* of every object; "Again" a later evaluation of functions an earlier     *)
(* call handed out.  The state is what a user may rely on: the result of   *)
(* every call, the objects and the functions handed out.                   *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES seen, prints, handed
vars == <<l, seen, prints, handed>>

\* a result is a sequence of numbers, or the name of what was raised
Alike(x, y) == x = y \/ (IsNum(x) /\ IsNum(y) /\ Le(Abs(x \ominus y), Mul(Tol(24), Abs(x))))
RECURSIVE Largest(_, _, _)
Largest(s, i, m) == IF i > Len(s) THEN m ELSE Largest(s, i + 1, IF IsNum(s[i]) /\ Gt(Abs(s[i]), m) THEN Abs(s[i]) ELSE m)
Small(x, y, m) == IsNum(x) /\ IsNum(y) /\ Le(Abs(x \ominus y), Mul(Tol(40), m))
SameResult(g, r) == g = r \/ (g.out = r.out /\ Len(g.v) = Len(r.v) /\
                              LET m == Largest(g.v, 1, Zero) IN \A i \in DOMAIN g.v : Alike(g.v[i], r.v[i]) \/ Small(g.v[i], r.v[i], m))

Start == Is("Start") /\ seen' = <<>> /\ prints' = <<>> /\ handed' = {} /\ l' = l + 1
Golden == /\ Is("Golden") /\ Verdict([Once |-> Ev.key \notin DOMAIN seen])
          /\ seen' = (Ev.key :> [out |-> Ev.out, v |-> Ev.v]) @@ seen /\ UNCHANGED <<prints, handed>> /\ l' = l + 1
Born == /\ Is("Born") /\ Verdict([FreshObject |-> Ev.obj \notin DOMAIN prints])
        /\ prints' = (Ev.obj :> Ev.print) @@ prints /\ UNCHANGED <<seen, handed>> /\ l' = l + 1

CallVerdict(e) ==
  [ \* the call alone and the call with a past give the same
    History |-> e.key \in DOMAIN seen /\ SameResult(seen[e.key], [out |-> e.out, v |-> e.v]),
    Arguments |-> e.before = e.after,
    Objects |-> DOMAIN e.prints = DOMAIN prints /\ \A o \in DOMAIN prints : o \in DOMAIN e.prints => e.prints[o] = prints[o] ]
Call == /\ Is("Call") /\ Verdict(CallVerdict(Ev)) /\ handed' = (IF Ev.functions THEN handed \cup {Ev.key} ELSE handed)
        /\ UNCHANGED <<seen, prints>> /\ l' = l + 1

AgainVerdict(e) ==
  [ Handed |-> e.key \in handed,
    HandedOut |-> e.key \in DOMAIN seen /\ SameResult(seen[e.key], [out |-> "value", v |-> e.v]) ]
Again == Is("Again") /\ Verdict(AgainVerdict(Ev)) /\ UNCHANGED <<seen, prints, handed>> /\ l' = l + 1

Init == l = 1 /\ seen = <<>> /\ prints = <<>> /\ handed = {}
Next == Start \/ Golden \/ Born \/ Call \/ Again \/ (Failed /\ UNCHANGED <<seen, prints, handed>>)
Spec == Init /\ [][Next]_vars
=============================================================================
