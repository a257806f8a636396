------------------------------- MODULE Progress -------------------------------
(* What progress looks like. The state is                                     *)
(*   [stage, cur, total, all, done, store]                                    *)
(* the running stage ("" if none) with position and total, the finished       *)
(* stages, whether progress has been closed, and the stored statistic.        *)
(* Operations are [op, stage, cur, total, n].                                 *)
EXTENDS Naturals, Sequences
Idle == ""
Empty == [stage |-> Idle, cur |-> 0, total |-> 0, all |-> <<>>, done |-> FALSE, store |-> 0]
Entry(s) == [stage |-> s.stage, cur |-> s.cur, total |-> s.total]
Ended(s) == [s EXCEPT !.all = IF s.stage = Idle THEN @ ELSE Append(@, Entry(s)), !.stage = Idle, !.cur = 0, !.total = 0]
Apply(s, o) ==
  CASE o.op = "finish" -> Ended(s)               \* the end of a stage carried out, even if closed meanwhile
    [] o.op = "close" -> [s EXCEPT !.done = TRUE]
    [] s.done -> s                               \* nothing else changes what is closed
    [] o.op = "start" -> [Ended(s) EXCEPT !.stage = o.stage]
    [] o.op = "end" -> Ended(s)
    [] o.op = "set" -> [s EXCEPT !.cur = o.cur, !.total = o.total]
    [] o.op = "store" -> [s EXCEPT !.store = o.n]
    [] OTHER -> s

(* what can be seen of a state *)
SeenProgress(s) == IF s.done THEN [done |-> TRUE, stage |-> Idle, cur |-> 0, total |-> 0]
                   ELSE [done |-> FALSE, stage |-> s.stage, cur |-> s.cur, total |-> s.total]
SeenAll(s) == s.all \o (IF s.stage = Idle THEN <<>> ELSE <<Entry(s)>>)

(* the progress of a load: stages are those carried out, in order *)
Rank(stages, s) == CHOOSE i \in DOMAIN stages : stages[i] = s
Position(a) == a.total = 0 \/ a.cur <= a.total
Forward(stages, a, b) ==                         \* a has been seen before b by the same observer
  \/ b.stage = Idle \/ a.stage = Idle
  \/ Rank(stages, a.stage) < Rank(stages, b.stage)
  \/ a.stage = b.stage /\ a.cur <= b.cur /\ (a.total = 0 \/ b.total # 0)
Observed(stages, obs) ==                         \* all that one observer has seen
  /\ \A i \in DOMAIN obs : (obs[i].stage = Idle \/ \E k \in DOMAIN stages : stages[k] = obs[i].stage) /\ (obs[i].stage = Idle \/ Position(obs[i]))
  /\ LET seen == SelectSeq(obs, LAMBDA o : o.stage # Idle)
     IN \A i \in 1..(Len(seen) - 1) : Forward(stages, seen[i], seen[i + 1])
StartOf(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
=============================================================================
