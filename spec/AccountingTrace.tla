---------------------------- MODULE AccountingTrace ---------------------------
(* Counters of the real code: [doc, pb, masked, useinv, counters].              *)
EXTENDS Accounting, Json, IOUtils
VARIABLE t
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(42)
TraceInit == t \in DOMAIN Traces
TraceSpec == TraceInit /\ [][FALSE]_t
T == Traces[t]
Explained == (\E i \in DOMAIN T.counters : ~Accounted(T.doc, T.pb, T.counters[i].masked, T.counters[i].useinv, T.counters[i])) \/ PrintT(ToJson([done |-> t]))
=============================================================================
