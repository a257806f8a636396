------------------------------- MODULE SiteMC -------------------------------
(* The indexes of the server, for all small data sets; refines Site.       *)
EXTENDS Site, Integers, TLC
CONSTANTS N, Bundles
Uris == 1..N
VARIABLES eb, bi, alias     \* entity -> bundle, bundle -> entity -> position, entity -> names
vars == <<svars, eb, bi, alias>>

Canons == {f \in [Uris -> Uris] : \A u \in Uris : f[f[u]] = f[u]}
(* bundles are put into the index in order, the last one wins *)
LastBundle(ents, e) == CHOOSE b \in Bundles : e \in ents[b] /\ \A x \in Bundles : e \in ents[x] => x <= b
Init ==
  /\ \E f \in Canons :
     \E ents \in [Bundles -> SUBSET {u \in Uris : f[u] = u}] :
       LET same == [a \in {u \in Uris : f[u] # u} |-> f[a]] IN
       /\ data = [can |-> same, ents |-> ents]
       /\ eb = [e \in UNION {ents[b] : b \in Bundles} |-> LastBundle(ents, e)]
       /\ bi = ents
       /\ alias = [e \in Uris |-> {a \in DOMAIN same : same[a] = e}]
  /\ SInit
Canonical(u) == IF u \in DOMAIN data.can THEN data.can[u] ELSE u
Asks == [k : {"resolve"}, uri : Uris] \cup [k : {"entity", "api"}, b : Bundles, uri : Uris] \cup [k : {"nav"}, cands : {{u, v} : u, v \in Uris}]
First(cs) == CHOOSE u \in cs : Canonical(u) \in DOMAIN eb /\ \A v \in cs : Canonical(v) \in DOMAIN eb => u <= v
Step ==
  /\ CASE at.k = "nav" -> at' = IF \E u \in at.cands : Canonical(u) \in DOMAIN eb THEN [k |-> "resolve", uri |-> First(at.cands)] ELSE NotFound
       [] at.k = "resolve" -> at' = IF Canonical(at.uri) \in DOMAIN eb THEN [k |-> "entity", b |-> eb[Canonical(at.uri)], uri |-> Canonical(at.uri)] ELSE NotFound
       [] at.k = "entity" -> at' = IF Canonical(at.uri) \in bi[at.b] THEN [k |-> "page", b |-> at.b, uri |-> Canonical(at.uri), aliases |-> alias[Canonical(at.uri)]] ELSE NotFound
       [] at.k = "api" -> at' = IF Canonical(at.uri) \in bi[at.b] THEN [k |-> "answer", uri |-> Canonical(at.uri)] ELSE NotFound
       [] OTHER -> FALSE
  /\ UNCHANGED <<data, goal, eb, bi, alias>>
Request == \E s \in Asks : Ask(s) /\ UNCHANGED <<eb, bi, alias>>
Next == Step \/ Request
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Contract == SInit /\ [][(\E s \in Asks : Ask(s)) \/ Lead(at')]_svars
Answered == [](~Over(at) => <>Over(at))
(* every visit of a name that denotes an entity ends at that entity *)
Reached == \A u \in Uris : [](at = [k |-> "resolve", uri |-> u] /\ Denotes(u) => <>(at.k = "page" /\ at.uri = Can(u)))
=============================================================================
