---------------------------- MODULE PagingTrace ----------------------------
(* Checks the pages really served against the contract Paging.             *)
(* A trace is [n, ev], ev a sequence of [op, page].                        *)
EXTENDS Paging, TLC, Json, IOUtils
VARIABLES t, l
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))   \* read it only once
Traces == TLCGet(42)
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ total = Traces[t].n /\ PInit
TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ l' = l + 1 /\ t' = t
  /\ LET e == Traces[t].ev[l] IN IF e.op = "open" THEN Open(e.page) ELSE Follow(e.op, e.page)
TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, t, l>>
Explained == (l = Len(Traces[t].ev) + 1) => PrintT(ToJson([done |-> t]))
=============================================================================
