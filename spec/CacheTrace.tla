------------------------------ MODULE CacheTrace ------------------------------
(* Histories of real cache directories, see Cache.                            *)
EXTENDS Cache, TLC, Json, IOUtils
VARIABLE t
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(42)
TraceInit == t \in DOMAIN Traces
TraceSpec == TraceInit /\ [][FALSE]_t
Typed(s) == CASE s.op = "run" -> s.medium \in {"ok", "limited"} /\ s.result \in Results
              [] s.op = "kill" -> s.result \in Results
              [] s.op = "damage" -> TRUE
              [] s.op = "storages" -> Len(s.own) = Len(s.seen)
              [] OTHER -> FALSE
Explained == (\A i \in DOMAIN Traces[t] : Typed(Traces[t][i])) /\ Allowed(Traces[t]) => PrintT(ToJson([done |-> t]))
=============================================================================
