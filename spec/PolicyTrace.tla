---------------------------- MODULE PolicyTrace -----------------------------
(* Responses of the server against the contract Policy.  A trace is        *)
(* [o, ev], ev a sequence of [phase, route, status, header].               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES opts, phase, resp, t, l
Tok(k) == k
INSTANCE Policy WITH T <- Tok
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(42)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1 /\ OInit
             /\ opts = [Traces[t].o EXCEPT !.publics = ToSet(@), !.frame = ToSet(@)]
Event == Traces[t].ev[l]
TraceNext == /\ l <= Len(Traces[t].ev) /\ t' = t
             /\ \/ Event.phase = phase /\ l' = l + 1 /\ Respond([route |-> Event.route, status |-> Event.status, header |-> Event.header])
                \/ Event.phase = "ready" /\ Ready /\ l' = l
TraceSpec == TraceInit /\ [][TraceNext]_<<ovars, t, l>>
Explained == l = Len(Traces[t].ev) + 1 => PrintT(ToJson([done |-> t]))
=============================================================================
