----------------------------- MODULE ConverterMC ------------------------------
(* The converter as a sequence of stages. It writes Files files of Units      *)
(* units each, through a buffer of Buf units, onto a medium which takes Room  *)
(* units in total; units left in the buffer are written when flushing. A      *)
(* medium may also only report when a file is closed that it did not keep a   *)
(* unit, or refuse what it is given once. Every stage reports errors, unless a toggle is off.                  *)
EXTENDS Converter, Naturals, Sequences, TLC
CONSTANTS Files, Units, Buf, CheckOptions, CheckRead, CheckExtract, CheckWrite, CheckFlush, CheckClose, AllFiles
VARIABLES pc, input, options, room, fate, buf, disk, lost, file, unit, exit
vars == <<pc, input, options, room, fate, buf, disk, lost, file, unit, exit>>
Total == Files * Units

\* what will go wrong: with the source at some place, while extracting, while closing, or for a single write
Fates == {"none", "missing", "read", "extract", "close", "write"}
Init == /\ pc = "args" /\ options \in BOOLEAN /\ fate \in Fates /\ room \in 0..(Total + 1)
        /\ input = (IF fate \in {"missing", "read", "extract"} THEN "bad" ELSE "good")
        /\ buf = 0 /\ disk = 0 /\ lost = 0 /\ file = 1 /\ unit = 0 /\ exit = "none"
Fail == pc' = "done" /\ exit' = "fail" /\ UNCHANGED <<input, options, room, fate, buf, disk, lost, file, unit>>
Go(s) == pc' = s /\ UNCHANGED <<input, options, room, fate, buf, disk, lost, file, unit, exit>>
Or(bad, check, s) == IF bad /\ check THEN Fail ELSE Go(s)

Args == pc = "args" /\ Or(~options, CheckOptions, "find")
Find == pc = "find" /\ Or(fate = "missing", TRUE, "read")
Read == pc = "read" /\ Or(fate = "read", CheckRead, "extract")
Extract == pc = "extract" /\ Or(fate = "extract", CheckExtract, "write")
Stored(n) == IF disk + n <= room THEN n ELSE room - disk
Drain(check, s) == \E hit \in (IF fate = "write" THEN BOOLEAN ELSE {FALSE}) :
  LET k == IF hit THEN 0 ELSE Stored(buf) IN
  /\ fate' = (IF hit THEN "wrote" ELSE fate)
  /\ IF k < buf /\ check THEN pc' = "done" /\ exit' = "fail" ELSE pc' = s /\ UNCHANGED exit
  /\ disk' = disk + k /\ lost' = lost + (buf - k) /\ buf' = 0
Write == /\ pc = "write" /\ unit < Units /\ buf < Buf
         /\ unit' = unit + 1 /\ buf' = buf + 1 /\ UNCHANGED <<pc, input, options, room, fate, disk, lost, file, exit>>
Full == /\ pc = "write" /\ buf = Buf /\ unit < Units /\ Drain(CheckWrite, "write") /\ UNCHANGED <<input, options, room, file, unit>>
Flush == /\ pc = "write" /\ unit = Units /\ Drain(CheckFlush, "close") /\ UNCHANGED <<input, options, room, file, unit>>
Close == /\ pc = "close"
         /\ LET drop == fate = "close" /\ disk > 0 IN
            /\ disk' = IF drop THEN disk - 1 ELSE disk
            /\ lost' = IF drop THEN lost + 1 ELSE lost
            /\ IF drop /\ CheckClose THEN pc' = "done" /\ exit' = "fail" /\ UNCHANGED <<file, unit>>
               ELSE IF file < Files /\ AllFiles THEN pc' = "write" /\ file' = file + 1 /\ unit' = 0 /\ UNCHANGED exit
               ELSE pc' = "done" /\ exit' = "ok" /\ UNCHANGED <<file, unit>>
         /\ UNCHANGED <<input, options, room, fate, buf>>
Next == Args \/ Find \/ Read \/ Extract \/ Write \/ Full \/ Flush \/ Close
Spec == Init /\ [][Next]_vars

Run == [input |-> input, options |-> options,
        room |-> IF room < Total \/ fate \in {"close", "wrote"} THEN "no" ELSE IF fate = "write" THEN "unknown" ELSE "yes",
        exit |-> exit = "ok", out |-> IF disk = Total /\ lost = 0 /\ options /\ input = "good" THEN "complete" ELSE "other"]
Refines == pc = "done" => Allowed(Run)
\* nothing is ever written twice or out of thin air
Conserved == disk + buf + lost <= Total /\ disk <= room
=============================================================================
