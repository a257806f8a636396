----------------------------- MODULE TablesTrace ------------------------------
(* Tables written by the code: [ds, joined, bundles, fields], see Tables.       *)
EXTENDS Tables, TLC, Json, IOUtils
VARIABLE t
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(42)
TraceInit == t \in DOMAIN Traces
TraceSpec == TraceInit /\ [][FALSE]_t
T == Traces[t]
\* sets come as sequences
Set(s) == {s[i] : i \in DOMAIN s}
DS == [b \in DOMAIN T.ds |-> [T.ds[b] EXCEPT !.ents = Set(@), !.kids = Set(@)]]
Explained ==
  (LET ds == TLCEval(DS) IN \A b \in DOMAIN ds :
     /\ BundleTableOk(ds, b, T.joined, T.bundles[b])
     /\ ~T.joined => \A f \in DOMAIN ds[b].fields : FieldTableOk(ds, b, f, T.fields[b][f]))
  => PrintT(ToJson([done |-> t]))
=============================================================================
