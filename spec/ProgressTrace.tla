----------------------------- MODULE ProgressTrace ----------------------------
(* What has been seen of the progress of the real code:                        *)
(*   kind "load": a load with the stages stages, seen by observers; snaps, all *)
(*                and later are lists of its stages with position, total,      *)
(*                start and end (-1: none); failed if it did not succeed;      *)
(*                closed if progress has been closed                           *)
(*   kind "api":  operations by one writer, and what readers have seen between *)
(*                the lo-th operation ended and the hi-th began                *)
(*   kind "closed": what has been seen after closing, by and by                *)
EXTENDS Progress, TLC, Json, IOUtils, SequencesExt
VARIABLE t
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(42)
TraceInit == t \in DOMAIN Traces
TraceSpec == TraceInit /\ [][FALSE]_t
T == Traces[t]

Names(l) == [i \in DOMAIN l |-> l[i].stage]
\* finished stages neither change nor overlap, and start before they end
Sound(l) == \A i \in DOMAIN l : /\ Position(l[i])
                                /\ i < Len(l) => l[i].end >= l[i].start /\ l[i].start >= 0 /\ l[i + 1].start >= l[i].end
Grows(l, m) == \A i \in DOMAIN l : i < Len(l) => l[i] = m[i]
Load == /\ \A k \in DOMAIN T.observers : Observed(T.stages, T.observers[k])
        /\ \A k \in DOMAIN T.snaps : StartOf(Names(T.snaps[k]), T.stages) /\ Sound(T.snaps[k])
        /\ \A k \in DOMAIN T.snaps : Grows(T.snaps[k], IF k < Len(T.snaps) THEN T.snaps[k + 1] ELSE T.all)
        /\ Sound(T.all) /\ (T.all # <<>> => Last(T.all).end >= Last(T.all).start)
        /\ IF T.failed THEN StartOf(Names(T.all), T.stages)
           ELSE Names(T.all) = T.stages /\ \A i \in DOMAIN T.all : T.all[i].cur = T.all[i].total
        /\ T.later = T.all
        /\ T.finally.done = T.closed
        /\ \A k \in DOMAIN T.observers : \A i, j \in DOMAIN T.observers[k] : i < j /\ T.observers[k][i].done => T.observers[k][j].done

States == FoldLeft(LAMBDA h, o : Append(h, Apply(h[Len(h)], o)), <<Empty>>, T.ops)
Matches(s, e) == CASE e.kind = "progress" -> SeenProgress(s) = e.p
                   [] e.kind = "all" -> SeenAll(s) = [i \in DOMAIN e.all |-> [stage |-> e.all[i].stage, cur |-> e.all[i].cur, total |-> e.all[i].total]]
                   [] e.kind = "current" -> Entry(s) = [stage |-> e.p.stage, cur |-> e.p.cur, total |-> e.p.total]
                   [] e.kind = "store" -> s.store = e.n
                   [] e.kind = "done" -> s.done = e.p.done
                   [] OTHER -> FALSE
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(a, b) == IF a > b THEN a ELSE b
\* the earliest moment that explains it, not before the moment at (0: none)
Explain(H, at, e) == LET S == {i \in Max2(at, e.lo + 1)..(e.hi + 1) : i <= Len(H) /\ Matches(H[i], e)} IN IF at = 0 \/ S = {} THEN 0 ELSE Least(S)
Api == LET H == TLCEval(States) IN \A k \in DOMAIN T.seen : FoldLeft(LAMBDA at, e : Explain(H, at, e), 1, T.seen[k]) # 0

Closed == \A i \in DOMAIN T.seen : T.seen[i] = T.seen[1] /\ T.seen[1].p.done

Ok == CASE T.kind = "load" -> Load [] T.kind = "api" -> Api [] T.kind = "closed" -> Closed
Explained == Ok => PrintT(ToJson([done |-> t]))
=============================================================================
