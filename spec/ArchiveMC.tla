------------------------------ MODULE ArchiveMC ------------------------------
(***************************************************************************)
(* The layers an export goes through: values are encoded into records, a   *)
(* compressor keeps bytes back and adds a trailer in the end, the file     *)
(* takes as many bytes as there is room for, and is closed.  Importing     *)
(* reads the records one by one and does not look at what comes after.     *)
(***************************************************************************)
EXTENDS Archive, FiniteSets
CONSTANTS Trailer,       \* bytes after the last record
          ReportFinish,  \* errors of finishing the compressor are reported
          ReportClose,   \* errors of closing the file are reported
          CountFirst     \* records say how many follow (otherwise the end of the file ends the data)
Records == <<2, 1, 3>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Total == Sum(Records) + Trailer
End(i) == Sum(SubSeq(Records, 1, i))
VARIABLES room,    \* bytes that fit
          next,    \* next record to encode
          kept,    \* bytes kept back
          err, phase, disk
mvars == <<avars, room, next, kept, err, phase, disk>>
Init == AInit /\ room \in 0..(Total + 1) /\ next = 1 /\ kept = 0 /\ err = FALSE /\ phase = "encode" /\ disk = 0
Put(n) == IF disk + n <= room THEN disk' = disk + n /\ err' = err ELSE disk' = room /\ err' = TRUE
Encode == phase = "encode" /\ ~err /\ next <= Len(Records) /\ kept' = kept + Records[next] /\ next' = next + 1 /\ UNCHANGED <<avars, room, err, phase, disk>>
Flush == phase = "encode" /\ ~err /\ \E n \in 1..kept : Put(n) /\ kept' = kept - n /\ UNCHANGED <<avars, room, next, phase>>
Finish == phase = "encode" /\ (err \/ next > Len(Records)) /\ phase' = "close"
          /\ (IF err THEN UNCHANGED <<disk, err>>
              ELSE IF ReportFinish THEN Put(kept + Trailer)
              ELSE disk' = (IF disk + kept + Trailer <= room THEN disk + kept + Trailer ELSE room) /\ UNCHANGED err)
          /\ kept' = 0 /\ UNCHANGED <<avars, room, next>>
(* closing can fail to write the last byte *)
Close == phase = "close" /\ phase' = "closed"
         /\ \E lost \in {0} \cup (IF disk > 0 THEN {1} ELSE {}) : disk' = disk - lost /\ err' = (err \/ (lost > 0 /\ ReportClose))
         /\ UNCHANGED <<avars, room, next, kept>>
Report == phase = "closed" /\ phase' = "done" /\ file' = [len |-> disk, size |-> Total] /\ reported' = (IF err THEN "error" ELSE "ok") /\ loaded' = "none"
          /\ UNCHANGED <<room, next, kept, err, disk>>
(* or the program is killed *)
Kill == phase # "done" /\ phase' = "done" /\ file' = [len |-> disk, size |-> Total] /\ reported' = "none" /\ loaded' = "none" /\ UNCHANGED <<room, next, kept, err, disk>>
Truncate == phase = "done" /\ loaded = "none" /\ \E n \in 0..(file.len - 1) : file' = [file EXCEPT !.len = n] /\ reported' = "none" /\ loaded' = "none" /\ UNCHANGED <<room, next, kept, err, phase, disk>>
Load == phase = "done" /\ loaded = "none"
        /\ loaded' = (IF file.len >= End(Len(Records)) THEN "original" ELSE IF ~CountFirst /\ \E i \in 1..Len(Records) : file.len = End(i) THEN "part" ELSE "error")
        /\ UNCHANGED <<file, reported, room, next, kept, err, phase, disk>>
Next == Encode \/ Flush \/ Finish \/ Close \/ Report \/ Kill \/ Truncate \/ Load
Spec == Init /\ [][Next]_mvars
CompleteIsReported == reported = "ok" => file.len = file.size
=============================================================================
