----------------------------- MODULE SourceTrace ------------------------------
(* What the code selected: [w, exports, args, r] with r as in Select.          *)
EXTENDS Source, TLC, Json, IOUtils
VARIABLE t
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(42)
TraceInit == t \in DOMAIN Traces
TraceSpec == TraceInit /\ [][FALSE]_t
T == Traces[t]
Explained ==
  LET r == Select(T.w, T.exports, T.args) IN (r.err = T.r.err /\ r.xml = T.r.xml /\ r.nq = T.r.nq /\ r.export = T.r.export) => PrintT(ToJson([done |-> t]))
=============================================================================
