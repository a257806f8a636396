-------------------------------- MODULE Cache ---------------------------------
(* What is seen of a directory used as a cache by one run after the other.    *)
(*                                                                            *)
(* A history is a sequence of steps                                           *)
(*   [op |-> "run", medium, result, outside]   a run that is left to finish   *)
(*   [op |-> "kill", result, outside]          a run that is killed           *)
(*   [op |-> "damage", outside]                somebody else changes the cache*)
(*   [op |-> "storages", own, seen]  storages of bundles, the marks put into  *)
(*        each of them, and what is found in each of them afterwards          *)
(* result: "right", exactly what the input says; "wrong"; "failed" with an    *)
(* error; "none", if it was killed before telling. outside: what was changed  *)
(* outside of the cache. medium: "ok", or "limited" if the cache can't be     *)
(* written to as needed.                                                      *)
EXTENDS Naturals, Sequences
Results == {"right", "wrong", "failed", "none"}
Contained(s) == s.op \in {"run", "kill"} => s.outside = <<>>
\* nothing in what happened before makes a difference
Independent(s) == /\ s.op = "run" => s.result = "right" \/ (s.medium = "limited" /\ s.result = "failed")
                  /\ s.op = "kill" => s.result \in {"right", "none"}
Separate(s) == s.op = "storages" => s.seen = s.own
Step(s) == Contained(s) /\ Independent(s) /\ Separate(s)
Allowed(h) == \A i \in DOMAIN h : Step(h[i])
=============================================================================
