----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The contract on resources and failures: what an observer of the         *)
(* storages, the source and the exporter may see of a run.                 *)
(*                                                                         *)
(* A resource is [r, s]: its name and its scope; the scopes are "index",   *)
(* "bundles" and "source".  ("exporter" belongs to the caller.)            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES open,    \* resources currently open
          seen,    \* resources that were open at some time
          using,   \* operations going on, by number
          ended,   \* scopes whose owner is gone
          failed,  \* some operation has failed
          lost,    \* some operation other than a close has failed
          result   \* "none", "ok" or "error"
lvars == <<open, seen, using, ended, failed, lost, result>>

LInit == open = {} /\ seen = {} /\ using = {} /\ ended = {} /\ failed = FALSE /\ lost = FALSE /\ result = "none"

Res(r, s) == [r |-> r, s |-> s]

OpenOp(x, ok) ==
  /\ x \notin open /\ x.s \notin ended
  /\ open' = IF ok THEN open \cup {x} ELSE open
  /\ seen' = IF ok THEN seen \cup {x} ELSE seen
  /\ failed' = (failed \/ ~ok) /\ lost' = (lost \/ ~ok)
  /\ UNCHANGED <<using, ended, result>>
(* an operation begins, and ends; the resource is open all the while *)
UseOp(x, n) ==
  /\ x.s # "exporter" => x \in open
  /\ using' = using \cup {[n |-> n, x |-> x]}
  /\ UNCHANGED <<open, seen, ended, failed, lost, result>>
UsedOp(x, n, ok) ==
  /\ [n |-> n, x |-> x] \in using
  /\ x.s # "exporter" => x \in open
  /\ using' = using \ {[n |-> n, x |-> x]}
  /\ failed' = (failed \/ ~ok) /\ lost' = (lost \/ ~ok)
  /\ UNCHANGED <<open, seen, ended, result>>
(* closing again does nothing; the outcome of a close comes later *)
CloseOp(x) ==
  /\ x \in seen
  /\ open' = open \ {x}
  /\ UNCHANGED <<seen, using, ended, failed, lost, result>>
ClosedOp(ok) ==
  /\ failed' = (failed \/ ~ok)
  /\ UNCHANGED <<open, seen, using, ended, lost, result>>
EndScope(s) ==
  /\ \A x \in open : x.s # s
  /\ ended' = ended \cup {s}
  /\ UNCHANGED <<open, seen, using, failed, lost, result>>
(* success only when complete, error only when something failed *)
Return(ok, complete) ==
  /\ result = "none"
  /\ ok => complete
  /\ ~ok => failed
  /\ result' = IF ok THEN "ok" ELSE "error"
  /\ UNCHANGED <<open, seen, using, ended, failed, lost>>
=============================================================================
