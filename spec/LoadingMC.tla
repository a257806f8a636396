------------------------------ MODULE LoadingMC ------------------------------
(* Handlers and the loader as the server implements them: the loader sets   *)
(* the parts of the data set and then a flag; a handler looks at the flag,  *)
(* at most once more at another place of the page, and then reads the data. *)
EXTENDS Loading
CONSTANTS Requests,
          FlagLast,   \* whether the flag is set after the data
          Stops       \* whether handlers stop after having answered that it is loading
VARIABLES cache, pb, done, loader, pc, kindof
mvars == <<lvars, cache, pb, done, loader, pc, kindof>>
Init == LInit /\ cache = FALSE /\ pb = FALSE /\ done = FALSE /\ loader = 0
        /\ pc = [i \in Requests |-> "new"] /\ kindof \in [Requests -> Kinds]
Steps == IF FlagLast THEN <<"cache", "pb", "flag">> ELSE <<"flag", "cache", "pb">>
Load == loader = 0 /\ loader' = 1 /\ Prepare /\ UNCHANGED <<cache, pb, done, pc, kindof>>
Step ==
  /\ loader \in 1..3
  /\ cache' = (cache \/ Steps[loader] = "cache") /\ pb' = (pb \/ Steps[loader] = "pb")
  /\ done' = (done \/ Steps[loader] = "flag")
  /\ IF Steps[loader] = "flag" THEN Flip ELSE UNCHANGED lvars
  /\ loader' = loader + 1 /\ UNCHANGED <<pc, kindof>>
Finish == loader = 4 /\ loader' = 5 /\ Prepared /\ UNCHANGED <<cache, pb, done, pc, kindof>>
New(i) == pc[i] = "new" /\ pc' = [pc EXCEPT ![i] = IF kindof[i] \in {"page", "api"} THEN "check" ELSE "answer"] /\ Begin(i, kindof[i])
          /\ UNCHANGED <<cache, pb, done, loader, kindof>>
Checks(i) == pc[i] = "check" /\ pc' = [pc EXCEPT ![i] = IF done THEN "read" ELSE "loading"] /\ UNCHANGED <<lvars, cache, pb, done, loader, kindof>>
Loads(i) == pc[i] = "loading" /\ pc' = [pc EXCEPT ![i] = IF Stops THEN "over" ELSE "read"]
            /\ (IF Stops THEN End(i, IF kindof[i] = "page" THEN "loading-page" ELSE "loading-api") ELSE UNCHANGED lvars) /\ UNCHANGED <<cache, pb, done, loader, kindof>>
Reads(i) == pc[i] = "read" /\ pc' = [pc EXCEPT ![i] = IF cache /\ pb THEN "over" ELSE "crashed"]
            /\ (IF cache /\ pb THEN End(i, "data") ELSE UNCHANGED lvars) /\ UNCHANGED <<cache, pb, done, loader, kindof>>
Answers(i) == pc[i] = "answer" /\ pc' = [pc EXCEPT ![i] = "over"] /\ End(i, Answer(kindof[i], ready)) /\ UNCHANGED <<cache, pb, done, loader, kindof>>
Next == Load \/ Step \/ Finish \/ \E i \in Requests : New(i) \/ Checks(i) \/ Loads(i) \/ Reads(i) \/ Answers(i)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
NoCrash == \A i \in Requests : pc[i] # "crashed"
(* no handler is in a state in which the contract does not let it answer *)
Answered == \A i \in Requests : pc[i] = "loading" => \E r \in pending[i].saw : ~r
AllAnswered == <>(\A i \in Requests : pc[i] = "over")
=============================================================================
