------------------------------- MODULE Loading -------------------------------
(***************************************************************************)
(* Serving while loading: the contract.  Requests overlap with the loading *)
(* of the data set; every answer must be right for some moment between the *)
(* beginning and the end of its request, and there is one moment at which  *)
(* the data set becomes available, for all requests alike.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES ready,     \* the data set is available
          prep,      \* "no", "running", "done": making it available
          pending,   \* function from requests being answered to [kind, saw]; saw the values of ready since they began
          shown      \* whether data has been shown to anybody
lvars == <<ready, prep, pending, shown>>

Kinds == {"page", "api", "free", "none"}
(* how a request may be answered, depending on whether the data set is available *)
Answer(kind, r) ==
  CASE kind = "page" -> (IF r THEN "data" ELSE "loading-page")
    [] kind = "api" -> (IF r THEN "data" ELSE "loading-api")
    [] kind = "free" -> "free"
    [] kind = "none" -> "notfound"

LInit == ready = FALSE /\ prep = "no" /\ pending = [i \in {} |-> {}] /\ shown = FALSE
Begin(i, kind) ==
  /\ i \notin DOMAIN pending
  /\ pending' = [j \in DOMAIN pending \cup {i} |-> IF j = i THEN [kind |-> kind, saw |-> {ready}] ELSE pending[j]]
  /\ UNCHANGED <<ready, prep, shown>>
End(i, a) ==
  /\ i \in DOMAIN pending
  /\ \E r \in pending[i].saw : a = Answer(pending[i].kind, r)
  /\ shown' = (shown \/ a = "data")
  /\ pending' = [j \in DOMAIN pending \ {i} |-> pending[j]]
  /\ UNCHANGED <<ready, prep>>
Prepare == prep = "no" /\ prep' = "running" /\ UNCHANGED <<ready, pending, shown>>
Flip == prep = "running" /\ ~ready /\ ready' = TRUE
        /\ pending' = [j \in DOMAIN pending |-> [pending[j] EXCEPT !.saw = @ \cup {TRUE}]]
        /\ UNCHANGED <<prep, shown>>
Prepared == prep = "running" /\ ready /\ prep' = "done" /\ UNCHANGED <<ready, pending, shown>>

NothingTooEarly == shown => ready
NothingTooLate == \A i \in DOMAIN pending : prep = "done" => TRUE \in pending[i].saw
=============================================================================
