----------------------------- MODULE GraphEval -----------------------------
(***************************************************************************)
(* What given documents mean to a given pathbuilder, according to Graph.   *)
(* Scenarios come from the file SCEN, one [id, doc, pb, qs, trees]; the     *)
(* answer to each is printed: canonical names, edges with their sources,   *)
(* answers of the queries qs, and entities, fields and children.           *)
(***************************************************************************)
EXTENDS Graph, Json, IOUtils

ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.SCEN))   \* read it only once
Scenarios == TLCGet(42)
VARIABLES i, done

Init == i \in DOMAIN Scenarios /\ done = FALSE
Answer(sc) ==
  LET can == TLCEval(Canon(sc.doc))
      inv == TLCEval(InverseOf(sc.doc, can))
      E   == TLCEval(Edges(sc.doc, can, inv))
      tab == {[e |-> e, st |-> Stated(sc.doc, can, e), inf |-> Inferred(sc.doc, can, inv, e)] : e \in E}
      pb  == sc.pb
      M   == TLCEval(MaskedEdges(sc.doc, can, inv, pb))
      ext(X) == [b \in DOMAIN pb |-> [ents |-> Query(X, can, pb[b].path),
                        fields |-> [f \in DOMAIN pb[b].fields |-> FieldMatches(X, can, pb, b, pb[b].fields[f])],
                        kids |-> IF pb[b].up = 0 THEN {} ELSE ChildPairs(X, can, pb, b)]]
  IN [id |-> sc.id, proper |-> Proper(sc.doc),
      can |-> [l \in {x \in Lab : can[x] # x} |-> can[l]],
      edges |-> tab, ans |-> [k \in DOMAIN sc.qs |-> Query(E, can, sc.qs[k])],
      facts |-> [k \in DOMAIN sc.trees |-> Facts(E, can, pb, sc.trees[k])],
      ext |-> ext(E), maskok |-> ext(M) = ext(E)]
Next == ~done /\ done' = TRUE /\ i' = i /\ PrintT(ToJson(Answer(Scenarios[i])))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
