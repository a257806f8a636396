---------------------------- MODULE LoadingTrace -----------------------------
(* Requests to the real server while it is loading, against the contract.   *)
(* A trace is a sequence of events [k, i, kind, a].                         *)
EXTENDS Loading, TLC, Json, IOUtils
VARIABLES t, l
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(42)
TraceInit == LInit /\ t \in DOMAIN Traces /\ l = 1
E == Traces[t][l]
TraceNext ==
  /\ l <= Len(Traces[t]) /\ t' = t
  /\ \/ l' = l + 1 /\ CASE E.k = "begin" -> Begin(E.i, E.kind)
                        [] E.k = "end" -> End(E.i, E.a)
                        [] E.k = "prepare" -> Prepare
                        [] E.k = "prepared" -> Prepared
     \/ l' = l /\ Flip
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, t, l>>
Explained == l = Len(Traces[t]) + 1 => PrintT(ToJson([done |-> t]))
=============================================================================
