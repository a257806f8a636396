------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* What a document of statements means: identities, inverses, edges, where *)
(* every edge comes from, path queries, and the bundles of a pathbuilder.  *)
(* Everything here is declarative; IndexMC has the machine that computes it.*)
(*                                                                         *)
(* A statement is [k, s, p, o, l]: k = "r" (o is a resource) or "d" (o is  *)
(* a text in language l).  A document is a sequence of statements.         *)
(* A node is a resource, or "#i", the literal of the i-th statement.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANT Lab                       \* all resources, classes and properties

SameP == {"same", "eqc", "eqp"}    \* properties declaring identity
InvP  == {"inv"}                   \* properties declaring an inverse
None  == "-"
Lit(i) == "#" \o ToString(i)

(* the canonical resource of every resource: identity declarations in      *)
(* document order, the class of the object joins the class of the subject  *)
Merge(can, x, y) == TLCEval([l \in DOMAIN can |-> IF can[l] = can[y] THEN can[x] ELSE can[l]])
Canon(doc) ==
  FoldLeft(LAMBDA c, st : IF st.k = "r" /\ st.p \in SameP THEN Merge(c, st.s, st.o) ELSE c,
           [l \in Lab |-> l], doc)

(* the inverse of every (canonical) property that has one *)
AddInv(inv, can, x, y) ==
  IF x = y THEN inv
  ELSE TLCEval([l \in DOMAIN inv |-> IF l = can[y] THEN can[x] ELSE IF l = can[x] THEN can[y] ELSE inv[l]])
InverseOf(doc, can) ==
  FoldLeft(LAMBDA v, st : IF st.k = "r" /\ st.p \in InvP THEN AddInv(v, can, st.s, st.o) ELSE v,
           [l \in Lab |-> None], doc)

(* a property has at most one inverse and is not its own inverse (the      *)
(* documented domain of inverse declarations)                              *)
InvPairs(doc, can) == {{can[doc[i].s], can[doc[i].o]} : i \in {j \in DOMAIN doc : doc[j].k = "r" /\ doc[j].p \in InvP}}
Proper(doc) ==
  LET P == InvPairs(doc, Canon(doc))
  IN /\ \A a \in P : Cardinality(a) = 2
     /\ \A a, b \in P : a # b => a \cap b = {}

(* edges, and the statements each edge comes from *)
Edge(s, p, o) == <<s, p, o>>
DirectEdge(doc, can, i) ==
  IF doc[i].k = "r" THEN Edge(can[doc[i].s], can[doc[i].p], can[doc[i].o])
  ELSE Edge(can[doc[i].s], can[doc[i].p], Lit(i))
HasInverse(doc, can, inv, i) == doc[i].k = "r" /\ inv[can[doc[i].p]] # None
InverseEdge(doc, can, inv, i) == Edge(can[doc[i].o], inv[can[doc[i].p]], can[doc[i].s])

Edges(doc, can, inv) ==
  {DirectEdge(doc, can, i) : i \in DOMAIN doc} \cup
  {InverseEdge(doc, can, inv, i) : i \in {j \in DOMAIN doc : HasInverse(doc, can, inv, j)}}
Stated(doc, can, e) == {i \in DOMAIN doc : DirectEdge(doc, can, i) = e}
Inferred(doc, can, inv, e) == {i \in DOMAIN doc : HasInverse(doc, can, inv, i) /\ InverseEdge(doc, can, inv, i) = e}

(* Path queries.  q alternates classes and properties, and starts with a   *)
(* class; the answer is the set of node sequences.                         *)
RECURSIVE Extend(_, _, _, _, _)
Extend(E, can, q, i, paths) ==
  IF i > Len(q) THEN paths
  ELSE IF i % 2 = 0
       THEN Extend(E, can, q, i + 1, UNION {{Append(n, e[3]) : e \in {f \in E : f[1] = n[Len(n)] /\ f[2] = can[q[i]]}} : n \in paths})
       ELSE Extend(E, can, q, i + 1, {n \in paths : Edge(n[Len(n)], can["type"], can[q[i]]) \in E})
Query(E, can, q) ==
  IF q = <<>> THEN {}
  ELSE Extend(E, can, q, 2, {<<e[1]>> : e \in {f \in E : f[2] = can["type"] /\ f[3] = can[q[1]]}})

(* The bundles of a pathbuilder.  A pathbuilder is a sequence of bundles   *)
(* [id, up, path, fields]; up is the index of the parent bundle or 0;      *)
(* a field is [id, path, dt], dt = "" when it has no datatype property.    *)
(* The node standing for the entity of a bundle within its paths: *)
At(pb, b) == IF pb[b].up = 0 THEN 1 ELSE (Len(pb[b].path) \div 2) + 1
FieldQuery(f) == IF f.path = <<>> THEN <<>> ELSE IF f.dt = "" THEN f.path ELSE Append(f.path, f.dt)

Entities(E, can, pb, b) == {n[At(pb, b)] : n \in Query(E, can, pb[b].path)}
(* one value per match of the field's path through an entity of the bundle *)
FieldMatches(E, can, pb, b, f) ==
  {n \in Query(E, can, FieldQuery(f)) : n[At(pb, b)] \in Entities(E, can, pb, b)}
(* which entity is a child of which *)
ChildPairs(E, can, pb, b) ==
  {<<n[At(pb, pb[b].up)], n[At(pb, b)]>> : n \in Query(E, can, pb[b].path)}

(* the facts a match n of the query q consists of *)
PathFacts(can, q, n) ==
  {Edge(n[(i + 1) \div 2], can["type"], can[q[i]]) : i \in {j \in DOMAIN q : j % 2 = 1}} \cup
  {Edge(n[i \div 2], can[q[i]], n[i \div 2 + 1]) : i \in {j \in DOMAIN q : j % 2 = 0}}
(* the facts of an entity and everything nested in it: tree has the bundle *)
(* and the path of each of them                                            *)
Facts(E, can, pb, tree) ==
  UNION {LET b == tree[k].b
             n == tree[k].path
         IN PathFacts(can, pb[b].path, n) \cup
            UNION {LET f == pb[b].fields[i]
                   IN UNION {PathFacts(can, FieldQuery(f), m) : m \in {x \in FieldMatches(E, can, pb, b, f) : x[At(pb, b)] = n[At(pb, b)]}} : i \in DOMAIN pb[b].fields}
         : k \in DOMAIN tree}

(* the properties a pathbuilder needs, as the mask sees them: those on its *)
(* paths, its datatype properties and the property for classes, and their  *)
(* inverses; literals only on datatype properties                          *)
NeededData(can, pb) ==
  {can[dt] : dt \in (UNION {{pb[b].fields[i].dt : i \in DOMAIN pb[b].fields} : b \in DOMAIN pb}) \ {""}}
Needed(can, inv, pb) ==
  LET props(path) == {can[path[i]] : i \in {j \in DOMAIN path : j % 2 = 0}}
      direct == {can["type"]} \cup NeededData(can, pb) \cup UNION {props(pb[b].path) \cup UNION {props(pb[b].fields[i].path) : i \in DOMAIN pb[b].fields} : b \in DOMAIN pb}
  IN direct \cup ({inv[p] : p \in direct} \ {None})
(* the edges that survive the mask *)
MaskedEdges(doc, can, inv, pb) ==
  LET keep == {i \in DOMAIN doc : IF doc[i].k = "r" THEN can[doc[i].p] \in Needed(can, inv, pb) ELSE can[doc[i].p] \in NeededData(can, pb)}
  IN {DirectEdge(doc, can, i) : i \in keep} \cup
     {InverseEdge(doc, can, inv, i) : i \in {j \in keep : HasInverse(doc, can, inv, j)}}
=============================================================================
