------------------------------- MODULE Finished -------------------------------
(***************************************************************************)
(* An index before and after it has been finalized: the contract.          *)
(* An answer is right if it is what the query returns when it is asked     *)
(* alone, or part of that if the query has been abandoned.                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
VARIABLES phase,    \* "open" or "final"
          version,  \* number of changes
          running   \* number of running queries, per query
fvars == <<phase, version, running>>

FInit == phase = "open" /\ version = 0 /\ running = [q \in {} |-> 0]
Running(q) == IF q \in DOMAIN running THEN running[q] ELSE 0

\* adding a statement, declaring an identity or inverse, compacting
Change(r) ==
  \/ phase = "open" /\ r = "ok" /\ version' = version + 1 /\ UNCHANGED <<phase, running>>
  \/ phase = "final" /\ r = "refused" /\ UNCHANGED fvars
Finalize(r) ==
  \/ phase = "open" /\ r = "ok" /\ phase' = "final" /\ UNCHANGED <<version, running>>
  \/ phase = "final" /\ r = "refused" /\ UNCHANGED fvars
\* queries are only asked of a finalized index
Begin(q) ==
  /\ phase = "final"
  /\ running' = [x \in DOMAIN running \cup {q} |-> Running(x) + IF x = q THEN 1 ELSE 0]
  /\ UNCHANGED <<phase, version>>
End(q, r, right) ==
  /\ Running(q) > 0 /\ r = "ok" /\ right
  /\ running' = [running EXCEPT ![q] = @ - 1]
  /\ UNCHANGED <<phase, version>>
=============================================================================
