--------------------------- MODULE LifecycleTrace ---------------------------
(* Checks recorded runs against the contract Lifecycle.                    *)
(* Check = "resources": only who is open when; "errors": only the outcome. *)
EXTENDS Lifecycle, SequencesExt, TLC, Json, IOUtils
CONSTANT Check
VARIABLES t, l
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))   \* read it only once
Traces == TLCGet(42)
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ LInit

Skip == UNCHANGED lvars
Fails(e) == e.how = "fail"
Resources(e) ==
  LET x == Res(e.r, e.s) IN
  \/ e.e = "open"  /\ OpenOp(x, ~Fails(e))
  \/ e.e = "use"   /\ UseOp(x, e.n)
  \/ e.e = "used"  /\ e.op # "close" /\ UsedOp(x, e.n, ~Fails(e))
  \/ e.e = "used"  /\ e.op = "close" /\ Skip
  \/ e.e = "close" /\ CloseOp(x)
  \/ e.e = "end"   /\ EndScope(e.s)
  \/ e.e = "return" /\ Skip
Errors(e) ==
  \/ e.e \in {"open", "used"} /\ ClosedOp(~Fails(e))
  \/ e.e \in {"use", "close", "end"} /\ Skip
  \/ e.e = "return" /\ Return(e.how = "ok", e.op = "complete")
TraceNext ==
  /\ l <= Len(Traces[t])
  /\ l' = l + 1 /\ t' = t
  /\ IF Check = "resources" THEN Resources(Traces[t][l]) ELSE Errors(Traces[t][l])
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, t, l>>
Explained == (l = Len(Traces[t]) + 1) => PrintT(ToJson([done |-> t]))
=============================================================================
