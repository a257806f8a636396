---------------------------- MODULE ArchiveTrace -----------------------------
(* What the code did with exports, against the contract. A trace is a       *)
(* sequence of events [k, at, size, r].                                     *)
EXTENDS Archive, TLC, Json, IOUtils
VARIABLES t, l
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(42)
TraceInit == AInit /\ t \in DOMAIN Traces /\ l = 1
E == Traces[t][l]
TraceNext == /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ t' = t
             /\ CASE E.k = "export" -> Export(E.at, E.size, E.r)
                  [] E.k = "cut" -> Cut(E.at)
                  [] E.k = "import" -> Import(E.r)
TraceSpec == TraceInit /\ [][TraceNext]_<<avars, t, l>>
Explained == l = Len(Traces[t]) + 1 => PrintT(ToJson([done |-> t]))
=============================================================================
