------------------------------- MODULE CacheMC --------------------------------
(* A directory with storages, which runs use one after the other.             *)
(*                                                                            *)
(* The directory has places for the index, and places for bundles. What may   *)
(* be found at a place:                                                       *)
(*   none      nothing                                                        *)
(*   db        a storage, holding some entries                                *)
(*   bad       a damaged storage                                              *)
(*   file      a file                                                         *)
(*   link      a link to a storage outside of the cache                       *)
(*   dangling  a link to nowhere outside of the cache                         *)
(* Run d opens all places, one after the other, puts its own entries there,   *)
(* and afterwards its result is whatever it finds at its places. Its bundles  *)
(* have the identifiers Ids[d]; identifiers may be equal, or be the name of   *)
(* something else. A run may be killed at any time.                           *)
(*                                                                            *)
(* Toggles: Wipe   remove what is at a place before it is used, for places of *)
(*                 the index, and of bundles                                  *)
(*          Links  also remove links to nowhere                               *)
(*          Valid  remove even what looks like a storage                      *)
(*          Number places of bundles are numbered instead of named            *)
EXTENDS Cache, FiniteSets, TLC, Json
CONSTANTS Steps, WipeIndex, WipeBundles, Links, Valid, Number, Emit
VARIABLES fs, out, pc, d, todo, mine, hist
vars == <<fs, out, pc, d, todo, mine, hist>>

Index == {"i1", "i2"}
\* names of bundles: in the second data set, the same one twice; the third is called like somebody else's
Ids == <<<<"a", "b">>, <<"a", "a">>, <<"x", "i1">>>>
Runs == DOMAIN Ids
Names == {"a", "b", "x"}
Places == Index \cup (IF Number THEN {"1", "2"} ELSE Names)
Place(r, n) == IF Number THEN (IF n = 3 THEN "1" ELSE "2") ELSE Ids[r][n - 2]
\* the outside: one storage that can be linked to; "x" stands for a name that leads outside
Outside(p) == p = "x"

\* Entries of a storage: <<key, run>>; keys of bundles depend on the bundle only
Keys(r) == IF r = 1 THEN {1, 2} ELSE IF r = 2 THEN {2} ELSE {1, 3}
Own(r, u) == {<<k, r, u>> : k \in Keys(r)}       \* u: whose entries: of a place of the index, or of a bundle
Users == <<"i1", "i2", "first", "second">>
At(r, n) == IF n <= 2 THEN Users[n] ELSE Place(r, n)
Kinds == {"none", "bad", "file", "link", "dangling"}
Thing(k) == [kind |-> k, e |-> {}]
Theirs(r, u) == [kind |-> "db", e |-> Own(r, u)]

Init == /\ fs = [p \in Places |-> Thing("none")] /\ out = {} /\ pc = "idle" /\ d = 1 /\ todo = 1 /\ mine = {} /\ hist = <<>>

\* somebody changes what is at a place
Damage(p) == /\ pc = "idle" /\ Len(hist) < Steps - 1 /\ ~Outside(p)
             /\ (IF hist = <<>> THEN TRUE ELSE IF hist[Len(hist)].op = "damage" THEN hist[Len(hist)].at # p ELSE TRUE)
             /\ \E t \in {Thing(k) : k \in Kinds} \cup {Theirs(r, IF p \in Index THEN p ELSE "second") : r \in {3}} :
                  /\ fs' = [fs EXCEPT ![p] = t]
                  /\ hist' = Append(hist, [op |-> "damage", at |-> p, kind |-> t.kind])
             /\ UNCHANGED <<out, pc, d, todo, mine>>
Begin(r) == /\ pc = "idle" /\ Len(hist) < Steps
            /\ pc' = "open" /\ d' = r /\ todo' = 1 /\ mine' = {} /\ out' = {}
            /\ UNCHANGED <<fs, hist>>

Wipes(p, n) == LET t == fs[p] IN
  /\ IF n <= 2 THEN WipeIndex ELSE WipeBundles
  /\ t.kind = "dangling" => Links
  /\ t.kind = "db" => Valid
\* what opening finds: an empty storage, an old one, or an error; links are followed
Opened(p, n) == LET t == IF Wipes(p, n) THEN Thing("none") ELSE fs[p] IN
  CASE t.kind = "none" -> [kind |-> "db", e |-> {}]
    [] t.kind = "db" -> t
    [] OTHER -> Thing("error")
Finish(res) == /\ pc' = "idle"
               /\ hist' = Append(hist, [op |-> "run", data |-> d, medium |-> "ok", result |-> res, outside |-> IF out' = {} THEN <<>> ELSE <<"something">>])
Open == LET p == At(d, todo)  o == Opened(p, todo) IN
  /\ pc = "open" /\ todo <= 4
  /\ out' = out \cup (IF Outside(p) \/ (fs[p].kind \in {"link"} /\ ~Wipes(p, todo)) THEN {p} ELSE {})
  /\ IF o.kind = "error" \/ p \in mine      \* storages are locked while they are open
     THEN Finish("failed") /\ UNCHANGED <<fs, todo, mine>>
     ELSE /\ fs' = [fs EXCEPT ![p] = o] /\ todo' = todo + 1 /\ mine' = mine \cup {p}
          /\ pc' = (IF todo = 4 THEN "fill" ELSE "open") /\ UNCHANGED hist
  /\ UNCHANGED d
\* entries arrive in any order; only the first of a place needs to be told apart
Fill == /\ pc = "fill" /\ UNCHANGED <<out, d, mine, hist>>
        /\ \/ /\ todo > 1 /\ LET n == todo - 1  p == At(d, n) IN
                \E part \in {{}, {CHOOSE x \in Own(d, Users[n]) : TRUE}, Own(d, Users[n])} :
                /\ fs' = [fs EXCEPT ![p].e = {x \in @ : \A y \in part : y[1] # x[1]} \cup part]
                /\ IF part = Own(d, Users[n]) THEN todo' = n ELSE todo' = todo
                /\ UNCHANGED pc
           \/ todo = 1 /\ pc' = "read" /\ UNCHANGED <<fs, todo>>
Read == /\ pc = "read" /\ UNCHANGED <<fs, d, todo, mine, out>>
        /\ Finish(IF \A n \in 1..4 : fs[At(d, n)].e = Own(d, Users[n]) THEN "right" ELSE "wrong")
\* what has been written last may have been lost, or torn
Kill == /\ pc \in {"open", "fill", "read"} /\ Len(hist) < Steps - 1
        /\ pc' = "idle"
        /\ \E p \in mine, torn \in BOOLEAN : fs' = (IF torn THEN [fs EXCEPT ![p] = Thing("bad")] ELSE fs)
        /\ hist' = Append(hist, [op |-> "kill", data |-> d, stage |-> pc, result |-> "none", outside |-> IF out = {} THEN <<>> ELSE <<"something">>])
        /\ UNCHANGED <<out, d, todo, mine>>
Next == (\E p \in Places : Damage(p)) \/ (\E r \in Runs : Begin(r)) \/ Open \/ Fill \/ Read \/ Kill
Spec == Init /\ [][Next]_vars

Refines == Allowed(hist)
Emitted == (Emit /\ pc = "idle" /\ Len(hist) = Steps /\ hist[Steps].op = "run") => PrintT(ToJson(hist))
=============================================================================
