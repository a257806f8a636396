------------------------------ MODULE FinishedMC ------------------------------
(***************************************************************************)
(* How queries are answered: each by two stages and a consumer, which      *)
(* run at the same time and hand elements over one at a time; any number   *)
(* of queries at the same time, some of them abandoned by their consumer;  *)
(* changes are attempted at any time. Refines Finished.                    *)
(*                                                                         *)
(* The index maps a node to the sequence of nodes following it. Query q    *)
(* starts at node q and follows two edges.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Queries, MaxChanges,
          Refuse,     \* changes are refused once the index is final
          Private,    \* every query has elements of its own
          Cancel      \* stages notice that they have been abandoned

VARIABLES store, phase, version, tries, final, at, elem, chan, closed, pc, answer, state
vars == <<store, phase, version, tries, final, at, elem, chan, closed, pc, answer, state>>
Stages == {1, 2}
Start(q) == 10 * q
None == 0
Empty == [n \in {} |-> <<>>]
Follow(s, n) == IF n \in DOMAIN s THEN s[n] ELSE <<>>
\* the index that is being built: query q finds 2 nodes, each of them with up to 2 successors
First == (Start(1) :> <<1, 2>>) @@ (Start(2) :> <<2, 1>>) @@ (1 :> <<3, 4>>) @@ (2 :> <<5>>)

Cat(ss) == IF ss = <<>> THEN <<>> ELSE LET RECURSIVE F(_) F(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o F(i + 1) IN F(1)
Whole(s, q) == Cat([i \in DOMAIN Follow(s, Start(q)) |-> Follow(s, Follow(s, Start(q))[i])])
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

Slot(q) == IF Private THEN q ELSE 0
Init == /\ store = First /\ phase = "open" /\ version = 0 /\ tries = 0 /\ final = Empty
        /\ at = [q \in Queries |-> [s \in Stages |-> 1]]
        /\ elem = [q \in Queries \cup {0} |-> None]
        /\ chan = [q \in Queries |-> [s \in Stages |-> <<>>]]
        /\ closed = [q \in Queries |-> FALSE]
        /\ pc = [q \in Queries |-> [s \in Stages |-> "idle"]]
        /\ answer = [q \in Queries |-> <<>>]
        /\ state = [q \in Queries |-> "new"]

Changed == store' = [store EXCEPT ![1] = Append(@, 7)]
Change == /\ tries < MaxChanges /\ tries' = tries + 1
          /\ IF phase = "open" \/ ~Refuse THEN Changed /\ version' = version + 1 ELSE UNCHANGED <<store, version>>
          /\ UNCHANGED <<phase, final, at, elem, chan, closed, pc, answer, state>>
Finalize == /\ phase = "open" /\ phase' = "final" /\ final' = store
            /\ UNCHANGED <<store, version, tries, at, elem, chan, closed, pc, answer, state>>

Begin(q) == /\ phase = "final" /\ state[q] = "new" /\ state' = [state EXCEPT ![q] = "running"]
            /\ pc' = [pc EXCEPT ![q] = [s \in Stages |-> "work"]]
            /\ UNCHANGED <<store, phase, version, tries, final, at, elem, chan, closed, answer>>
\* the first stage looks up one node after the other, and hands it over
Stage1(q) ==
  /\ pc[q][1] = "work"
  /\ LET ns == Follow(store, Start(q)) IN
     IF at[q][1] > Len(ns) \/ (Cancel /\ closed[q]) THEN pc' = [pc EXCEPT ![q][1] = "over"] /\ UNCHANGED <<at, chan>>
     ELSE /\ chan[q][1] = <<>> /\ chan' = [chan EXCEPT ![q][1] = <<ns[at[q][1]]>>] /\ at' = [at EXCEPT ![q][1] = @ + 1] /\ UNCHANGED pc
  /\ UNCHANGED <<store, phase, version, tries, final, elem, closed, answer, state>>
\* the second stage takes such a node, and hands over everything following it
Take(q) ==
  /\ pc[q][2] = "work"
  /\ \/ chan[q][1] # <<>> /\ elem' = [elem EXCEPT ![Slot(q)] = chan[q][1][1]] /\ chan' = [chan EXCEPT ![q][1] = <<>>]
        /\ at' = [at EXCEPT ![q][2] = 1] /\ pc' = [pc EXCEPT ![q][2] = "expand"]
     \/ chan[q][1] = <<>> /\ pc[q][1] = "over" /\ pc' = [pc EXCEPT ![q][2] = "over"] /\ UNCHANGED <<elem, chan, at>>
  /\ UNCHANGED <<store, phase, version, tries, final, closed, answer, state>>
Expand(q) ==
  /\ pc[q][2] = "expand"
  /\ LET ns == Follow(store, elem[Slot(q)]) IN
     IF Cancel /\ closed[q] THEN pc' = [pc EXCEPT ![q][2] = "over"] /\ UNCHANGED <<at, chan>>
     ELSE IF at[q][2] > Len(ns) THEN pc' = [pc EXCEPT ![q][2] = "work"] /\ UNCHANGED <<at, chan>>
     ELSE chan[q][2] = <<>> /\ chan' = [chan EXCEPT ![q][2] = <<ns[at[q][2]]>>] /\ at' = [at EXCEPT ![q][2] = @ + 1] /\ UNCHANGED pc
  /\ UNCHANGED <<store, phase, version, tries, final, elem, closed, answer, state>>
Receive(q) ==
  /\ state[q] = "running"
  /\ \/ chan[q][2] # <<>> /\ answer' = [answer EXCEPT ![q] = Append(@, chan[q][2][1])] /\ chan' = [chan EXCEPT ![q][2] = <<>>] /\ UNCHANGED state
     \/ chan[q][2] = <<>> /\ pc[q][2] = "over" /\ state' = [state EXCEPT ![q] = "done"] /\ UNCHANGED <<answer, chan>>
  /\ UNCHANGED <<store, phase, version, tries, final, at, elem, closed, pc>>
Abandon(q) ==
  /\ state[q] = "running" /\ state' = [state EXCEPT ![q] = "abandoned"] /\ closed' = [closed EXCEPT ![q] = TRUE]
  /\ UNCHANGED <<store, phase, version, tries, final, at, elem, chan, pc, answer>>

Steps(q) == Stage1(q) \/ Take(q) \/ Expand(q) \/ Receive(q)
Next == Change \/ Finalize \/ \E q \in Queries : Begin(q) \/ Steps(q) \/ Abandon(q)
Spec == Init /\ [][Next]_vars /\ WF_vars(Finalize) /\ \A q \in Queries : WF_vars(Begin(q)) /\ WF_vars(Steps(q))

\* the contract
Right(v, q, a, all) == IF all THEN a = Whole(final, q) ELSE IsPrefix(a, Whole(final, q))
Immutable == phase = "final" => store = final
Answered == \A q \in Queries : state[q] # "new" => Right(version, q, answer[q], state[q] = "done")
C == INSTANCE Finished WITH running <- [q \in {q \in Queries : state[q] # "new"} |-> IF state[q] = "running" THEN 1 ELSE 0]
\* steps of the model are steps of the contract
Refines == [][ \/ UNCHANGED C!fvars
               \/ \E r \in {"ok", "refused"} : C!Change(r) \/ C!Finalize(r)
               \/ \E q \in Queries : C!Begin(q) \/ C!End(q, "ok", Right(version, q, answer[q], state'[q] = "done")) ]_vars
\* everything that runs comes to its end, abandoned or not
Ends == \A q \in Queries : <>(pc[q] = [s \in Stages |-> "over"])
=============================================================================
