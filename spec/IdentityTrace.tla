--------------------------- MODULE IdentityTrace ---------------------------
(* Checks histories recorded from internal/triplestore/imap against Identity. *)
EXTENDS Identity, IOUtils

VARIABLES t, l
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))   \* read it only once
Traces == TLCGet(42)

TraceInit == Init /\ t \in DOMAIN Traces /\ l = 1

Ev == Traces[t][l]
Step == \/ Ev.op = "add"  /\ Add(Ev.x)
        \/ Ev.op = "mark" /\ Mark(Ev.x, Ev.y)
        \/ Ev.op = "fin"  /\ Finalize
        \/ Ev.op = "fresh" /\ Fresh
        \/ Ev.op = "compact" /\ Compact
TraceNext ==
  /\ l <= Len(Traces[t])
  /\ l' = l + 1 /\ t' = t
  /\ Step
  /\ hist'[Len(hist')].ret = Ev.ret
  /\ "table" \in DOMAIN Ev => hist'[Len(hist')].table = Ev.table

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, t, l>>
(* one line for every history explained to its end *)
Done == l = Len(Traces[t]) + 1 => PrintT(ToJson([done |-> t]))
At   == PrintT(ToJson([at |-> l, t |-> t]))
=============================================================================
