--------------------------- MODULE LifecyclePipe ---------------------------
(***************************************************************************)
(* How a run builds an index, extracts and exports bundles, and cleans up  *)
(* (sparkl.MakeIndex, sparkl.Export, igraph.Index.Reset/Close), with any   *)
(* MaxFaults operations failing.  Bundles are extracted and exported by    *)
(* parallel tasks; everything else happens one after the other.            *)
(***************************************************************************)
EXTENDS Lifecycle, SequencesExt, TLC

CONSTANTS NStorages,  \* number of storages of an index
          Scans,      \* number of scans of the source
          Tokens,     \* number of tokens read in each
          Bundles,    \* bundles
          MaxFaults

VARIABLES pc, n, stage, task, budget, clean
vars == <<lvars, pc, n, stage, task, budget, clean>>

Storages == [i \in 1..NStorages |-> "s" \o ToString(i)]
IndexRes == [i \in DOMAIN Storages |-> Res(Storages[i], "index")]
Src == Res("source", "source")
BRes(b) == Res(b, "bundles")

(* the sequential part: a list of steps *)
S(op, x) == [op |-> op, x |-> x]
EachIndex(op) == [i \in DOMAIN Storages |-> S(op, IndexRes[i])]
Scan == <<S("open", Src)>> \o [i \in 1..Tokens |-> S("use", Src)] \o <<S("use", IndexRes[1]), S("close", Src)>> \o EachIndex("use")
RECURSIVE Repeat(_, _)
Repeat(s, k) == IF k = 0 THEN <<>> ELSE s \o Repeat(s, k - 1)
Build == EachIndex("open") \o Repeat(Scan, Scans) \o EachIndex("use")

(* what a task of a bundle does: extracting, and then exporting *)
Extracting(b) == <<S("open", BRes(b)), S("use", IndexRes[1]), S("use", BRes(b)), S("use", BRes(b))>>
Exporting(b) == <<S("use", BRes(b)), S("use", Res("exporter", "exporter")), S("use", BRes(b)), S("use", Res("exporter", "exporter")), S("close", BRes(b))>>

Init ==
  /\ LInit
  /\ pc = 1 /\ n = 0 /\ stage = "build"
  /\ task = [b \in Bundles |-> [at |-> 0, ok |-> TRUE]]
  /\ budget = MaxFaults
  /\ clean = <<>>

Fault(ok) == /\ ok \/ budget > 0
             /\ budget' = IF ok THEN budget ELSE budget - 1

(* performs one step (an operation is called and returns at once) *)
Perform(st, ok) ==
  CASE st.op = "open"  -> OpenOp(st.x, ok)
    [] st.op = "use"   -> /\ st.x.s # "exporter" => st.x \in open
                          /\ failed' = (failed \/ ~ok) /\ lost' = (lost \/ ~ok)
                          /\ UNCHANGED <<open, seen, using, ended, result>>
    [] st.op = "close" -> /\ st.x \in seen /\ open' = open \ {st.x}
                          /\ failed' = (failed \/ ~ok)
                          /\ UNCHANGED <<seen, using, ended, lost, result>>

(* everything that is open, in the order it has to be closed in *)
ToClose(scopes) == SetToSeq({x \in open' : x.s \in scopes})

BuildStep ==
  /\ stage = "build" /\ pc <= Len(Build)
  /\ \E ok \in BOOLEAN :
       /\ Fault(ok) /\ Perform(Build[pc], ok)
       /\ IF ok \/ Build[pc].op = "close"
          THEN pc' = pc + 1 /\ stage' = stage /\ clean' = clean
          ELSE pc' = pc /\ stage' = "unwind" /\ clean' = ToClose({"source", "index"})
  /\ UNCHANGED <<n, task>>
Built ==
  /\ stage = "build" /\ pc > Len(Build)
  /\ stage' = "extract" /\ task' = [b \in Bundles |-> [at |-> 1, ok |-> TRUE]]
  /\ UNCHANGED <<lvars, pc, n, budget, clean>>

TaskStep(prog(_), to) ==
  \E b \in Bundles :
    /\ task[b].at <= Len(prog(b))
    /\ \E ok \in BOOLEAN :
         /\ Fault(ok) /\ Perform(prog(b)[task[b].at], ok)
         \* an exporting task closes its storage whatever happens
         /\ task' = [task EXCEPT ![b] = IF ok THEN [at |-> @.at + 1, ok |-> @.ok]
                                        ELSE IF stage = "export" /\ @.at < Len(prog(b)) THEN [at |-> Len(prog(b)), ok |-> FALSE]
                                        ELSE [at |-> Len(prog(b)) + 1, ok |-> FALSE]]
    /\ UNCHANGED <<pc, n, stage, clean>>
TasksDone(prog(_)) == \A b \in Bundles : task[b].at > Len(prog(b))
AllOk == \A b \in Bundles : task[b].ok

Extract == stage = "extract" /\ TaskStep(Extracting, "export")
Extracted ==
  /\ stage = "extract" /\ TasksDone(Extracting)
  /\ IF AllOk
     THEN stage' = "export" /\ task' = [b \in Bundles |-> [at |-> 1, ok |-> TRUE]] /\ clean' = clean
     ELSE stage' = "unwind" /\ task' = task /\ clean' = SetToSeq({x \in open : x.s = "bundles"}) \o SetToSeq({x \in open : x.s = "index"})
  /\ UNCHANGED <<lvars, pc, n, budget>>
ExportAll == stage = "export" /\ TaskStep(Exporting, "unwind")
Exported ==
  /\ stage = "export" /\ TasksDone(Exporting)
  /\ stage' = "unwind" /\ clean' = SetToSeq({x \in open : x.s = "bundles"}) \o SetToSeq({x \in open : x.s = "index"})
  /\ UNCHANGED <<lvars, pc, n, task, budget>>

Unwind ==
  /\ stage = "unwind" /\ clean # <<>>
  /\ \E ok \in BOOLEAN : Fault(ok) /\ Perform(S("close", clean[1]), ok)
  /\ clean' = Tail(clean)
  /\ UNCHANGED <<pc, n, stage, task>>
Finish ==
  /\ stage = "unwind" /\ clean = <<>>
  /\ Return(~failed, ~lost)
  /\ stage' = "done"
  /\ UNCHANGED <<pc, n, task, budget, clean>>
Over == stage = "done" /\ UNCHANGED vars

Step == BuildStep \/ Built \/ Extract \/ Extracted \/ ExportAll \/ Exported \/ Unwind \/ Finish
Next == Step \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

NothingLeft == stage = "done" => open = {}
Told == stage = "done" => (result = "ok" => ~lost)
Ends == <>(stage = "done")
(* while bundles are extracted and exported, the source is closed *)
SourceClosed == stage \in {"extract", "export", "done"} => Src \notin open
=============================================================================
