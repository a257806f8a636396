---------------------------- MODULE ExtractTrace ----------------------------
(* Checks recorded extractions against the contract Extraction.            *)
(* A trace is [want, all, ev]: the writes expected, the bundles, and what  *)
(* happened at the interface of the storages.                              *)
EXTENDS Extraction, SequencesExt, TLC, Json, IOUtils

VARIABLES t, l
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))   \* read it only once
Traces == TLCGet(42)

TraceInit ==
  /\ t \in DOMAIN Traces /\ l = 1
  /\ CInit
  /\ want = ToSet(Traces[t].want) /\ all = ToSet(Traces[t].all)

Wr(e) == [b |-> e.b, g |-> e.g, w |-> e.w]
TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ l' = l + 1 /\ t' = t
  /\ LET e == Traces[t].ev[l] IN
     \/ e.e = "open"  /\ Open(e.b, e.how = "ok")
     \/ e.e = "call"  /\ Call(Wr(e))
     \/ e.e = "ret"   /\ Ret(Wr(e), e.how)
     \/ e.e = "fin"   /\ Finalize(e.b, TRUE)
     \/ e.e = "other" /\ Other(e.how = "ok")
     \/ e.e = "done"  /\ Done(e.how = "ok")
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, t, l>>
Explained == (l = Len(Traces[t].ev) + 1 /\ phase # "run") => PrintT(ToJson([done |-> t]))
At == PrintT(ToJson([at |-> l, t |-> t]))
=============================================================================
