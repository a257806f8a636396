----------------------------- MODULE SiteTrace -----------------------------
(* Checks the answers of the server to visitors against the contract Site. *)
(* A trace is [data, ev]; ev a sequence of states, data as in Site but     *)
(* with sequences in place of sets.                                        *)
EXTENDS Site, Integers, TLC, Json, IOUtils, SequencesExt
VARIABLES t, l
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))   \* read it only once
Traces == TLCGet(42)
State(s) == IF s.k = "nav" THEN [s EXCEPT !.cands = ToSet(@)]
            ELSE IF s.k = "page" THEN [s EXCEPT !.aliases = IF Cardinality(ToSet(@)) = Len(@) THEN ToSet(@) ELSE {"twice"}] ELSE s
TraceInit ==
  /\ t \in DOMAIN Traces /\ l = 1
  /\ data = [can |-> [a \in {Traces[t].can[i][1] : i \in DOMAIN Traces[t].can} |-> (CHOOSE p \in ToSet(Traces[t].can) : p[1] = a)[2]],
             ents |-> [b \in {Traces[t].ents[i][1] : i \in DOMAIN Traces[t].ents} |-> ToSet((CHOOSE p \in ToSet(Traces[t].ents) : p[1] = b)[2])]]
  /\ SInit
TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ l' = l + 1 /\ t' = t
  /\ LET s == State(Traces[t].ev[l]) IN IF Over(at) THEN Ask(s) ELSE Lead(s)
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, t, l>>
Explained == (l = Len(Traces[t].ev) + 1 /\ Over(at)) => PrintT(ToJson([done |-> t]))
=============================================================================
