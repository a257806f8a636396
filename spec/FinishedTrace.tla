---------------------------- MODULE FinishedTrace -----------------------------
(* What happened to real indexes, against the contract. A trace is [alone,     *)
(* parts, events]: alone[q] is the number of the answer to query q when asked  *)
(* alone, parts the pairs of queries and answers that are part of that; an     *)
(* event is [k, r, q, ans, all].                                               *)
EXTENDS Finished, Sequences, TLC, Json, IOUtils
VARIABLES t, l
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(42)
TraceInit == FInit /\ t \in DOMAIN Traces /\ l = 1
Ev == Traces[t].events
E == Ev[l]
Right == IF E.all THEN E.ans = Traces[t].alone[E.q + 1]
         ELSE \E p \in DOMAIN Traces[t].parts : Traces[t].parts[p] = <<E.q, E.ans>>
TraceNext == /\ l <= Len(Ev) /\ l' = l + 1 /\ t' = t
             /\ CASE E.k \in {"r", "d", "same", "inv", "compact"} -> Change(E.r)
                  [] E.k = "fin" -> Finalize(E.r)
                  [] E.k = "begin" -> Begin(E.q)
                  [] E.k = "end" -> End(E.q, E.r, Right)
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, t, l>>
Explained == l = Len(Ev) + 1 => PrintT(ToJson([done |-> t]))
=============================================================================
