----------------------------- MODULE Extraction -----------------------------
(***************************************************************************)
(* The contract of extracting bundles into storages: what an observer at   *)
(* the interface of the storages may see.  ExtractSched is the algorithm   *)
(* (and is checked to refine this); ExtractTrace checks recorded runs.     *)
(*                                                                         *)
(* A write is [b, g, w]: bundle, group, and what is written.  The groups   *)
(* of a bundle are its entities, each of its fields, and the children of   *)
(* each of its child bundles; writes of a group come one at a time.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES want,    \* the writes that make up the result
          all,     \* all bundles
          opened,  \* bundles whose storage has been created
          busy,    \* writes going on
          stored,  \* writes completed
          fin,     \* finalized storages
          failed,  \* whether an operation has failed
          phase    \* "run", "ok" or "error"
cvars == <<want, all, opened, busy, stored, fin, failed, phase>>

CInit == opened = {} /\ busy = {} /\ stored = {} /\ fin = {} /\ failed = FALSE /\ phase = "run"

Open(b, ok) ==
  /\ phase = "run" /\ b \in all \ opened
  /\ opened' = IF ok THEN opened \cup {b} ELSE opened
  /\ failed' = (failed \/ ~ok)
  /\ UNCHANGED <<want, all, busy, stored, fin, phase>>

Call(w) ==
  /\ phase = "run" /\ w.b \in opened \ fin
  /\ \A v \in busy : <<v.b, v.g>> # <<w.b, w.g>>
  /\ w \notin busy \cup stored
  /\ busy' = busy \cup {w}
  /\ UNCHANGED <<want, all, opened, stored, fin, failed, phase>>

(* how: "ok", "skip" (there is no such entity in this bundle) or "fail" *)
Ret(w, how) ==
  /\ w \in busy
  /\ busy' = busy \ {w}
  /\ stored' = IF how = "ok" THEN stored \cup {w} ELSE stored
  /\ how = "skip" => w \notin want
  /\ failed' = (failed \/ how = "fail")
  /\ UNCHANGED <<want, all, opened, fin, phase>>

Finalize(b, ok) ==
  /\ phase = "run" /\ b \in opened \ fin
  /\ \A v \in busy : v.b # b
  /\ fin' = fin \cup {b}
  /\ failed' = (failed \/ ~ok)
  /\ UNCHANGED <<want, all, opened, busy, stored, phase>>

Done(ok) ==
  /\ phase = "run" /\ busy = {}
  /\ ok => ~failed /\ stored = want /\ opened = all /\ fin = all
  /\ ~ok => failed
  /\ phase' = IF ok THEN "ok" ELSE "error"
  /\ UNCHANGED <<want, all, opened, busy, stored, fin, failed>>

(* other operations that may fail *)
Other(ok) ==
  /\ phase = "run"
  /\ failed' = (failed \/ ~ok)
  /\ UNCHANGED <<want, all, opened, busy, stored, fin, phase>>

CNext ==
  \/ \E b \in all, ok \in BOOLEAN : Open(b, ok) \/ Finalize(b, ok)
  \/ \E w \in want : Call(w) \/ \E how \in {"ok", "skip", "fail"} : Ret(w, how)
  \/ \E ok \in BOOLEAN : Done(ok) \/ Other(ok)
Contract == CInit /\ [][CNext]_cvars
=============================================================================
