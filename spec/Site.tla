-------------------------------- MODULE Site --------------------------------
(***************************************************************************)
(* Finding entities: the contract on what a visitor asking for a URI sees. *)
(*                                                                         *)
(* data = [can, ents]: can maps every name that is not canonical to the    *)
(* canonical one, ents every bundle to its entities (canonical names).     *)
(* at   = what the visitor is about to see, or sees:                       *)
(*   [k |-> "idle"], [k |-> "resolve", uri], [k |-> "nav", cands],         *)
(*   [k |-> "entity", b, uri], [k |-> "api", b, uri],                      *)
(*   [k |-> "page", b, uri, aliases], [k |-> "answer", uri],               *)
(*   [k |-> "notfound"]                                                    *)
(***************************************************************************)
EXTENDS FiniteSets, Sequences

VARIABLES data, at, goal   \* goal: what the visitor asked for
svars == <<data, at, goal>>

Can(u) == IF u \in DOMAIN data.can THEN data.can[u] ELSE u
In(b, u) == b \in DOMAIN data.ents /\ Can(u) \in data.ents[b]
Denotes(u) == \E b \in DOMAIN data.ents : In(b, u)
Aliases(e) == {a \in DOMAIN data.can : data.can[a] = e /\ a # e}

Idle == [k |-> "idle"]
NotFound == [k |-> "notfound"]
Over(s) == s.k \in {"idle", "page", "answer", "notfound"}

SInit == at = Idle /\ goal = Idle
(* a request of the visitor *)
Ask(s) ==
  /\ Over(at) /\ s.k \in {"resolve", "nav", "entity", "api"}
  /\ at' = s /\ goal' = s /\ UNCHANGED data
(* what it leads to *)
Lead(s) ==
  /\ UNCHANGED <<data, goal>> /\ at' = s
  /\ CASE at.k = "nav" ->
            IF \E u \in at.cands : Denotes(u)
            THEN s.k = "resolve" /\ s.uri \in at.cands /\ Denotes(s.uri)
            ELSE s = NotFound
       [] at.k = "resolve" ->
            IF Denotes(at.uri)
            THEN s.k = "entity" /\ Can(s.uri) = Can(at.uri) /\ In(s.b, s.uri)
            ELSE s = NotFound
       [] at.k = "entity" ->
            IF In(at.b, at.uri)
            THEN s = [k |-> "page", b |-> at.b, uri |-> Can(at.uri), aliases |-> Aliases(Can(at.uri))]
            ELSE s = NotFound
       [] at.k = "api" ->
            IF In(at.b, at.uri) THEN s = [k |-> "answer", uri |-> Can(at.uri)] ELSE s = NotFound
       [] OTHER -> FALSE

(* a visit ends at the entity asked for, or nowhere if there is none *)
Arrives ==
  /\ at.k = "page" => /\ at.uri \in data.ents[at.b]
                      /\ \E u \in (IF goal.k = "nav" THEN goal.cands ELSE {goal.uri}) : Can(u) = at.uri
                      /\ goal.k = "entity" => goal.b = at.b
  /\ at.k = "answer" => Can(goal.uri) = at.uri /\ at.uri \in data.ents[goal.b]
  /\ at = NotFound => CASE goal.k = "nav" -> ~\E u \in goal.cands : Denotes(u)
                        [] goal.k = "resolve" -> ~Denotes(goal.uri)
                        [] OTHER -> ~In(goal.b, goal.uri)
=============================================================================
