----------------------------- MODULE ProgressMC -------------------------------
(* A load carries out Stages stages one after the other; in each of them      *)
(* workers finish Units units, counting and reporting every one of them,      *)
(* while somebody may close the progress at any time. Reports look whether    *)
(* progress has been closed, take the lock, look again, and write. Reading    *)
(* is one step. Toggles: Counted, counting and reporting is one step;         *)
(* Recheck, reports look again; CloseLocks, closing takes the lock.           *)
EXTENDS Progress, TLC, FiniteSets
CONSTANTS Stages, Units, Workers, Counted, Recheck, CloseLocks
VARIABLES st,       \* the progress, as in Progress
          pc,       \* of the load: which stage, and what
          count,    \* units finished in this stage
          todo,     \* units not yet taken
          w,        \* workers: [pc, c]
          lock, closed, atclose, last
vars == <<st, pc, count, todo, w, lock, closed, atclose, last>>
Free == "free"
Names == <<"one", "two", "three">>
List == SubSeq(Names, 1, Stages)

Init == /\ st = Empty /\ pc = [k |-> 1, at |-> "start"] /\ count = 0 /\ todo = 0
        /\ w = [i \in Workers |-> [pc |-> "idle", c |-> 0]] /\ lock = Free /\ closed = "no" /\ atclose = Empty
        /\ last = SeenProgress(Empty)
Touch == lock = Free    \* steps below take and release the lock at once unless said otherwise

\* the load
Begin == /\ pc.at = "start" /\ pc.k <= Stages /\ Touch
         /\ st' = Apply(st, [op |-> "start", stage |-> Names[pc.k], cur |-> 0, total |-> 0, n |-> 0])
         /\ pc' = [pc EXCEPT !.at = "work"] /\ count' = 0 /\ todo' = Units /\ UNCHANGED <<w, lock, closed, atclose, last>>
Finish == /\ pc.at = "work" /\ todo = 0 /\ (\A i \in Workers : w[i].pc = "idle") /\ Touch
          /\ st' = Apply(st, [op |-> "finish", stage |-> "", cur |-> 0, total |-> 0, n |-> 0])
          /\ pc' = [k |-> pc.k + 1, at |-> "start"] /\ UNCHANGED <<count, todo, w, lock, closed, atclose, last>>
\* the workers; with Counted, nobody else counts until the report has been made
Take(i) == /\ w[i].pc = "idle" /\ todo > 0 /\ (Counted => \A j \in Workers : w[j].pc = "idle")
           /\ todo' = todo - 1 /\ count' = count + 1 /\ w' = [w EXCEPT ![i] = [pc |-> "look", c |-> count + 1]]
           /\ UNCHANGED <<st, pc, lock, closed, atclose, last>>
Look(i) == /\ w[i].pc = "look" /\ w' = [w EXCEPT ![i].pc = IF st.done THEN "idle" ELSE "lock"]
           /\ UNCHANGED <<st, pc, count, todo, lock, closed, atclose, last>>
Lock(i) == /\ w[i].pc = "lock" /\ lock = Free /\ lock' = ToString(i) /\ w' = [w EXCEPT ![i].pc = IF Recheck THEN "again" ELSE "write"]
           /\ UNCHANGED <<st, pc, count, todo, closed, atclose, last>>
Again(i) == /\ w[i].pc = "again"
            /\ IF st.done THEN w' = [w EXCEPT ![i].pc = "idle"] /\ lock' = Free ELSE w' = [w EXCEPT ![i].pc = "write"] /\ lock' = lock
            /\ UNCHANGED <<st, pc, count, todo, closed, atclose, last>>
Write(i) == /\ w[i].pc = "write" /\ st' = [st EXCEPT !.cur = w[i].c, !.total = Units]
            /\ w' = [w EXCEPT ![i].pc = "idle"] /\ lock' = Free
            /\ UNCHANGED <<pc, count, todo, closed, atclose, last>>
\* closing
Close == /\ closed = "no" /\ (CloseLocks => lock = Free)
         /\ st' = Apply(st, [op |-> "close", stage |-> "", cur |-> 0, total |-> 0, n |-> 0])
         /\ closed' = "yes" /\ atclose' = st' /\ UNCHANGED <<pc, count, todo, w, lock, last>>
\* reading
Read == /\ Touch /\ last' = SeenProgress(st) /\ UNCHANGED <<st, pc, count, todo, w, lock, closed, atclose>>
Next == Begin \/ Finish \/ Close \/ Read \/ \E i \in Workers : Take(i) \/ Look(i) \/ Lock(i) \/ Again(i) \/ Write(i)
Spec == Init /\ [][Next]_vars

Monotone == [][Read => (last'.done \/ (~last.done /\ Position(last') /\ Forward(List, last, last')))]_vars
InOrder == StartOf([i \in DOMAIN SeenAll(st) |-> SeenAll(st)[i].stage], List)
Complete == \A i \in DOMAIN st.all : (closed = "no" => st.all[i].cur = Units /\ st.all[i].total = Units)
\* of what has been closed, only the running stage may still end
Frozen == closed = "yes" => st \in {atclose, Ended(atclose)}
=============================================================================
