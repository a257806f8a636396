------------------------------- MODULE Archive -------------------------------
(***************************************************************************)
(* Exporting and importing data sets: the contract.                        *)
(* Lengths are in bytes; a file is complete if it is as long as the export *)
(* would be if nothing went wrong.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES file,      \* [len, size] of the file, size is that of the complete export
          reported,  \* "none", or what the last export reported
          loaded     \* "none", or what the last import came to: "error", "original" (all of the data set), or anything else
avars == <<file, reported, loaded>>

AInit == file = [len |-> 0, size |-> 1] /\ reported = "none" /\ loaded = "none"
Export(len, size, r) ==
  /\ r \in {"ok", "error"} /\ len <= size /\ (r = "ok" => len = size)
  /\ file' = [len |-> len, size |-> size] /\ reported' = r /\ loaded' = "none"
Cut(at) == at < file.len /\ file' = [file EXCEPT !.len = at] /\ reported' = "none" /\ loaded' = "none"
Import(r) ==
  /\ IF file.len = file.size THEN r = "original" ELSE r \in {"error", "original"}
  /\ loaded' = r /\ UNCHANGED <<file, reported>>

NeverPartial == loaded \in {"none", "error", "original"}
ReportedIsLoadable == (reported = "ok" /\ loaded # "none") => loaded = "original"
=============================================================================
