----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What every trace specification shares: the recorded trace, the position *)
(* in it, and verdicts.  A verdict is total: the clauses of an event are a *)
(* record of Booleans, and each FALSE one is reported as                   *)
(* <<"@F", line, clause>>.                                                 *)
(***************************************************************************)
EXTENDS Kerr, TLC, Json, IOUtils

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
More == l <= Len(Trace)
Ev == Trace[l]
Is(k) == More /\ Ev.kind = k

\* (no disjunctions: in an action TLC would explore both sides)
Verdict(cl) ==
  LET bad == {c \in DOMAIN cl : ~cl[c]}
  IN IF bad = {} THEN TRUE ELSE \A c \in bad : PrintT(<<"@F", l, c>>)

\* The code raised, hung or returned something that is no number where a result was due.
Failed == Is("Error") /\ Verdict([NoResult |-> FALSE]) /\ l' = l + 1

Accepted == TLCGet("stats").diameter = Len(Trace) + 1

-----------------------------------------------------------------------------
(* Tolerances are powers of two: 2^-10 ~ 1e-3, 2^-20 ~ 1e-6, 2^-30 ~ 1e-9,   *)
(* 2^-40 ~ 1e-12, 2^-50 ~ 1e-15.                                            *)
Tol(n) == Pow2(-n)

Num(x) == IsNum(x)
AllNum(s) == \A i \in DOMAIN s : IsNum(s[i])
=============================================================================
