---------------------------- MODULE ExtractSched ----------------------------
(***************************************************************************)
(* The tasks of a parallel extraction (internal/sparkl/context.go), each a *)
(* small sequential process, with the two wait groups between them.        *)
(*                                                                         *)
(* A case is [up, ents, vals, kids, fault]:                                *)
(*   up[b]      parent bundle of b, or 0                                   *)
(*   ents[b]    number of matches of the path of b                         *)
(*   vals[b]    number of matches of each field of b                       *)
(*   kids[b]    number of (parent, entity) pairs of b within its parent    *)
(* Fault = TRUE lets any one operation fail.                               *)
(***************************************************************************)
EXTENDS Extraction, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

CONSTANTS Fault, Emit

VARIABLES case, pc, pos, extract, childAdd, order, budget

ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.CASES))   \* read it only once
Cases == TLCGet(42)

vars == <<cvars, case, pc, pos, extract, childAdd, order, budget>>

Bun == DOMAIN case.up
Kids(b) == SelectSeq([i \in 1..Len(case.up) |-> i], LAMBDA c : case.up[c] = b)

(* tasks *)
T(k, b, x) == [k |-> k, b |-> b, x |-> x]
TasksOf(cs) ==
  {T("main", 0, 0)} \cup {T("body", b, 0) : b \in DOMAIN cs.up} \cup {T("reg", b, 0) : b \in DOMAIN cs.up}
  \cup UNION {{T("field", b, f) : f \in DOMAIN cs.vals[b]} : b \in DOMAIN cs.up}
  \cup {T("child", cs.up[c], c) : c \in {d \in DOMAIN cs.up : cs.up[d] # 0}}

W(b, g, i) == [b |-> b, g |-> g, w |-> i]
FieldGroup(f) == "f" \o ToString(f)
ChildGroup(c) == "c" \o ToString(c)
WantOf(cs) ==
  UNION {{W(b, "e", i) : i \in 1..cs.ents[b]} : b \in DOMAIN cs.up} \cup
  UNION {UNION {{W(b, FieldGroup(f), i) : i \in 1..cs.vals[b][f]} : f \in DOMAIN cs.vals[b]} : b \in DOMAIN cs.up} \cup
  UNION {{W(cs.up[c], ChildGroup(c), i) : i \in 1..cs.kids[c]} : c \in {d \in DOMAIN cs.up : cs.up[d] # 0}}

Init ==
  /\ CInit
  /\ case \in Range(Cases)
  /\ all = DOMAIN case.up
  /\ want = WantOf(case)
  /\ pc = [t \in TasksOf(case) |-> IF t.k = "main" THEN "store" ELSE "off"]
  /\ pos = [t \in TasksOf(case) |-> 1]
  /\ extract = 1 /\ childAdd = 0 /\ order = <<>>
  /\ budget = IF Fault THEN 1 ELSE 0

Log(op) == order' = IF Emit THEN Append(order, op) ELSE order
NoLog == UNCHANGED order
CanFail == budget > 0
(* did the operation succeed? *)
Outcome(ok) == /\ ok \/ CanFail
               /\ budget' = IF ok THEN budget ELSE budget - 1

(* Store(b) called by task t, which continues at `next` (or at `stop` on failure) *)
Store(t, b, next, stop) ==
  \E ok \in BOOLEAN :
    /\ Outcome(ok)
    /\ Open(b, ok)
    /\ Log(<<"open", b, 0, 1>>)
    /\ extract' = IF ok THEN extract + 1 ELSE extract
    /\ pc' = [pc EXCEPT ![t] = IF ok THEN next ELSE stop, ![T("body", b, 0)] = IF ok THEN "add" ELSE @]
    /\ pos' = [pos EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<case, childAdd>>

Tops == SelectSeq([i \in 1..Len(case.up) |-> i], LAMBDA b : case.up[b] = 0)

Main == LET t == T("main", 0, 0) IN
  \/ /\ pc[t] = "store" /\ pos[t] <= Len(Tops)
     /\ Store(t, Tops[pos[t]], "store", "store")
  \/ /\ pc[t] = "store" /\ pos[t] > Len(Tops)
     /\ extract' = extract - 1 /\ pc' = [pc EXCEPT ![t] = "wait"]
     /\ NoLog /\ UNCHANGED <<cvars, case, pos, childAdd, budget>>
  \/ /\ pc[t] = "wait" /\ extract = 0 /\ pc' = [pc EXCEPT ![t] = "wait2"]
     /\ NoLog /\ UNCHANGED <<cvars, case, pos, extract, childAdd, budget>>
  \/ /\ pc[t] = "wait2" /\ childAdd = 0 /\ pc' = [pc EXCEPT ![t] = "done"]
     /\ Done(~failed)
     /\ NoLog /\ UNCHANGED <<case, pos, extract, childAdd, budget>>

(* task t writes w: a call, then a return *)
Writing(t, b, g, n, after) ==
  \/ /\ pc[t] = "add" /\ pos[t] <= n
     /\ Call(W(b, g, pos[t])) /\ Log(<<g, b, t.x, pos[t]>>)
     /\ pc' = [pc EXCEPT ![t] = "adding"]
     /\ UNCHANGED <<case, pos, extract, childAdd, budget>>
  \/ /\ pc[t] = "adding"
     /\ \E ok \in BOOLEAN :
          /\ Outcome(ok)
          /\ Ret(W(b, g, pos[t]), IF ok THEN "ok" ELSE "fail")
          /\ pc' = [pc EXCEPT ![t] = IF ~ok /\ t.k = "body" THEN "stop" ELSE "add"]
     /\ pos' = [pos EXCEPT ![t] = @ + 1]
     /\ NoLog /\ UNCHANGED <<case, extract, childAdd>>
  \/ /\ pc[t] = "add" /\ pos[t] > n
     /\ pc' = [pc EXCEPT ![t] = after]
     /\ pos' = [pos EXCEPT ![t] = 1]
     /\ NoLog /\ UNCHANGED <<cvars, case, extract, childAdd, budget>>

Body(b) == LET t == T("body", b, 0) IN
  \/ Writing(t, b, "e", case.ents[b], "fields")
  \/ /\ pc[t] = "fields"      \* start all the fields
     /\ extract' = extract + Len(case.vals[b])
     /\ pc' = [u \in DOMAIN pc |-> IF u.k = "field" /\ u.b = b THEN "add" ELSE IF u = t THEN "children" ELSE pc[u]]
     /\ NoLog /\ UNCHANGED <<cvars, case, pos, childAdd, budget>>
  \/ /\ pc[t] = "children" /\ pos[t] <= Len(Kids(b))
     /\ Store(t, Kids(b)[pos[t]], "children", "stop")
  \/ /\ pc[t] = "children" /\ pos[t] > Len(Kids(b))
     /\ childAdd' = childAdd + 1
     /\ pc' = [pc EXCEPT ![t] = "stop", ![T("reg", b, 0)] = "wait"]
     /\ NoLog /\ UNCHANGED <<cvars, case, pos, extract, budget>>
  \/ /\ pc[t] = "stop"
     /\ extract' = extract - 1 /\ pc' = [pc EXCEPT ![t] = "done"]
     /\ NoLog /\ UNCHANGED <<cvars, case, pos, childAdd, budget>>

Field(b, f) == LET t == T("field", b, f) IN
  \/ Writing(t, b, FieldGroup(f), case.vals[b][f], "stop")
  \/ /\ pc[t] = "stop"
     /\ extract' = extract - 1 /\ pc' = [pc EXCEPT ![t] = "done"]
     /\ NoLog /\ UNCHANGED <<cvars, case, pos, childAdd, budget>>

Reg(b) == LET t == T("reg", b, 0)
              mine == {T("child", b, c) : c \in Range(Kids(b))} IN
  \/ /\ pc[t] = "wait" /\ extract = 0
     /\ pc' = [u \in DOMAIN pc |-> IF u \in mine THEN "add" ELSE IF u = t THEN "join" ELSE pc[u]]
     /\ NoLog /\ UNCHANGED <<cvars, case, pos, extract, childAdd, budget>>
  \/ /\ pc[t] = "join" /\ \A u \in mine : pc[u] = "done"
     /\ \E ok \in BOOLEAN : Outcome(ok) /\ Finalize(b, ok)
     /\ Log(<<"fin", b, 0, 1>>)
     /\ pc' = [pc EXCEPT ![t] = "stop"]
     /\ UNCHANGED <<case, pos, extract, childAdd>>
  \/ /\ pc[t] = "stop"
     /\ childAdd' = childAdd - 1 /\ pc' = [pc EXCEPT ![t] = "done"]
     /\ NoLog /\ UNCHANGED <<cvars, case, pos, extract, budget>>

Child(b, c) == Writing(T("child", b, c), b, ChildGroup(c), case.kids[c], "done")

Step == \/ Main
        \/ \E b \in Bun : \/ Body(b) \/ Reg(b)
                          \/ \E f \in DOMAIN case.vals[b] : Field(b, f)
                          \/ \E c \in Range(Kids(b)) : Child(b, c)
Finished == phase # "run" /\ UNCHANGED vars
Next == Step \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

----------------------------------------------------------------------------
(* properties *)
Refines == Contract                       \* the algorithm keeps the contract
Terminates == <>(phase # "run")
(* nothing is left running when extraction is reported as done *)
Quiet == phase # "run" => \A t \in DOMAIN pc : pc[t] \in {"off", "done"}
Complete == phase = "ok" => stored = want /\ fin = all
Reported == failed => phase # "ok"
Counters == /\ extract >= 0 /\ childAdd >= 0

(* one line for every finished behaviour *)
Report == (Emit /\ phase # "run") => PrintT(ToJson([id |-> case.id, order |-> order]))
=============================================================================
