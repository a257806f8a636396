------------------------------ MODULE IndexMC ------------------------------
(***************************************************************************)
(* The machine that reads a document in three scans (identities, inverses, *)
(* everything) into an index, one statement at a time.  Anchors:           *)
(* internal/sparkl/index.go (the scans), igraph.Index (insert, conflicts). *)
(*                                                                         *)
(*  phase  "build" while the document is being chosen, then the scans      *)
(*  doc    the document           pos   next statement of the scan         *)
(*  can    identity table         inv   inverse table                      *)
(*  idx    the index: edge -> the statement and role it is labelled with   *)
(*  cnt    the statistics                                                  *)
(***************************************************************************)
EXTENDS Graph, Json

CONSTANTS Mode,      \* "up"/"down": subsets in one order; "any": all sequences
          MaxLen,    \* size of documents
          MinLen,
          Base,      \* what every document starts with: "none", "typed" or "rich"
          Emit       \* "none", "queries" or "bundles"

R(s, p, o) == [k |-> "r", s |-> s, p |-> p, o |-> o, l |-> ""]
D(s, p, o, l) == [k |-> "d", s |-> s, p |-> p, o |-> o, l |-> l]

(* statements documents are made of: typed resources, a cycle, a loop,     *)
(* aliases, properties with an inverse and an equivalent, repeated texts   *)
Pool == <<
  R("x", "type", "C"), R("y", "type", "D"), R("y", "type", "C"), R("z", "type", "C"), R("z", "type", "D"),
  R("x", "p", "y"), R("y", "p", "z"), R("y", "p", "x"), R("x", "r", "y"), R("y", "q", "x"), R("z", "q", "y"), R("x", "p", "x"),
  R("C", "eqc", "D"), R("D", "eqc", "C"), R("p", "eqp", "r"), R("r", "eqp", "p"), R("p", "inv", "q"), R("q", "inv", "r"),
  R("x", "same", "z"), R("z", "same", "y"), R("x", "q", "z"),
  D("x", "n", "1", ""), D("y", "n", "1", "en"), D("y", "m", "2", ""), D("z", "n", "x", ""), R("n", "eqp", "m"), R("m", "eqp", "n"), D("x", "n", "1", "de"), R("y", "q", "y"), R("x", "p", "z"), R("x", "n", "y")
>>

VARIABLES phase, doc, last, pos, can, inv, idx, cnt
vars == <<phase, doc, last, pos, can, inv, idx, cnt>>

NoCount == [direct |-> 0, datum |-> 0, inverse |-> 0, conflict |-> 0]
Bases == [none  |-> <<>>,
          typed |-> <<R("x", "type", "C"), R("y", "type", "D"), R("z", "type", "C")>>,
          rich  |-> <<R("x", "type", "C"), R("x", "p", "y"), R("y", "type", "D"), D("y", "n", "1", ""), R("y", "p", "z"), R("D", "eqc", "C"), R("p", "inv", "q")>>]
Init == /\ phase = "build" /\ doc = Bases[Base] /\ last = 0 /\ pos = 1
        /\ can = [l \in Lab |-> l] /\ inv = [l \in Lab |-> None]
        /\ idx = <<>> /\ cnt = NoCount

Build ==
  /\ phase = "build" /\ Len(doc) < MaxLen + Len(Bases[Base])
  /\ \E i \in DOMAIN Pool :
       /\ Mode = "up" => i > last
       /\ Mode = "down" => (last = 0 \/ i < last)
       /\ doc' = Append(doc, Pool[i]) /\ last' = i
  /\ UNCHANGED <<phase, pos, can, inv, idx, cnt>>

Begin ==
  /\ phase = "build" /\ Len(doc) >= MinLen + Len(Bases[Base]) /\ Proper(doc)
  /\ phase' = "same"
  /\ UNCHANGED <<doc, last, pos, can, inv, idx, cnt>>

(* end of one scan *)
Turn(from, to) ==
  /\ phase = from /\ pos > Len(doc)
  /\ phase' = to /\ pos' = 1
  /\ UNCHANGED <<doc, last, can, inv, idx, cnt>>

ScanSame ==
  /\ phase = "same" /\ pos <= Len(doc)
  /\ LET st == doc[pos] IN
     can' = IF st.k = "r" /\ st.p \in SameP THEN Merge(can, st.s, st.o) ELSE can
  /\ pos' = pos + 1
  /\ UNCHANGED <<phase, doc, last, inv, idx, cnt>>

ScanInverse ==
  /\ phase = "inverse" /\ pos <= Len(doc)
  /\ LET st == doc[pos] IN
     inv' = IF st.k = "r" /\ st.p \in InvP THEN AddInv(inv, can, st.s, st.o) ELSE inv
  /\ pos' = pos + 1
  /\ UNCHANGED <<phase, doc, last, can, idx, cnt>>

(* insert an edge; an edge already present keeps its label, unless it was  *)
(* only inferred and is now stated                                         *)
Insert(ix, c, e, i, role) ==
  IF \E k \in DOMAIN ix : k = e
  THEN [ix |-> IF ix[e].role = "inverse" /\ role # "inverse" THEN [ix EXCEPT ![e] = [st |-> i, role |-> role]] ELSE ix,
        c  |-> [c EXCEPT !.conflict = @ + 1]]
  ELSE [ix |-> (e :> [st |-> i, role |-> role]) @@ ix,
        c  |-> [c EXCEPT ![role] = @ + 1]]

ScanData ==
  /\ phase = "data" /\ pos <= Len(doc)
  /\ LET st == doc[pos]
         a == Insert(idx, cnt, DirectEdge(doc, can, pos), pos, IF st.k = "r" THEN "direct" ELSE "datum")
         b == IF HasInverse(doc, can, inv, pos) THEN Insert(a.ix, a.c, InverseEdge(doc, can, inv, pos), pos, "inverse") ELSE a
     IN idx' = b.ix /\ cnt' = b.c
  /\ pos' = pos + 1
  /\ UNCHANGED <<phase, doc, last, can, inv>>

Next == Build \/ Begin \/ ScanSame \/ Turn("same", "inverse") \/ ScanInverse \/ Turn("inverse", "data") \/ ScanData \/ Turn("data", "done")
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == phase = "done"
AllEdges == Edges(doc, can, inv)

(* the scans compute what the document means *)
CanonRight == Done => can = Canon(doc)
InverseRight == Done => inv = InverseOf(doc, can)
IndexRight == Done => DOMAIN idx = AllEdges
(* every label is a genuine statement; stated facts are labelled as such *)
LabelRight == Done => \A e \in DOMAIN idx :
    IF Stated(doc, can, e) # {} THEN idx[e].role # "inverse" /\ idx[e].st \in Stated(doc, can, e)
    ELSE idx[e].role = "inverse" /\ idx[e].st \in Inferred(doc, can, inv, e)
(* every reading of every statement is counted once *)
CountRight == Done =>
    cnt.direct + cnt.datum + cnt.inverse + cnt.conflict = Len(doc) + Cardinality({i \in DOMAIN doc : HasInverse(doc, can, inv, i)})

Acc == INSTANCE Accounting
AccountRight == Done => Acc!Accounted(doc, <<>>, FALSE, TRUE, [maskedpred |-> 0, maskeddata |-> 0, direct |-> cnt.direct, datum |-> cnt.datum, inverse |-> cnt.inverse, conflict |-> cnt.conflict])

-----------------------------------------------------------------------------
(* Queries asked of every document *)
Queries == <<
  <<"C">>, <<"D">>, <<"C", "p", "C">>, <<"C", "q", "C">>, <<"D", "r", "C">>, <<"C", "p", "D", "p", "C">>, <<"C", "p", "D", "q", "C">>,
  <<"C", "n">>, <<"C", "m">>, <<"C", "p", "D", "n">>, <<"C", "p">>, <<"C", "q", "D", "q", "C", "n">>, <<"C", "p", "C", "p", "C", "p", "C">>,
  <<"C", "type">>, <<"E", "p", "C">>, <<"C", "e">> >>

(* Pathbuilders applied to every document *)
F(id, path, dt) == [id |-> id, path |-> path, dt |-> dt]
B(id, up, path, fields) == [id |-> id, up |-> up, path |-> path, fields |-> fields]
PBs == <<
  << B("b1", 0, <<"C">>, <<F("f1", <<"C">>, "n"), F("f2", <<"C", "p", "D">>, "")>>),
     B("b2", 1, <<"C", "p", "D">>, <<F("f3", <<"C", "p", "D">>, "n")>>) >>,
  << B("b1", 0, <<"C">>, <<F("f1", <<"C">>, "m")>>),
     B("b2", 1, <<"C", "p", "C">>, <<F("f2", <<"C", "p", "C">>, "n")>>),
     B("b3", 2, <<"C", "p", "C", "q", "C">>, <<F("f3", <<"C", "p", "C", "q", "C">>, "n"), F("f4", <<"C", "p", "C", "q", "C", "p", "D">>, "")>>) >>,
  << B("b1", 0, <<"C", "p", "C">>, <<F("f1", <<"C">>, "n"), F("f2", <<"C", "p", "C">>, "n")>>),
     B("b2", 1, <<"C", "p", "C", "r", "D">>, <<F("f3", <<"C", "p", "C", "r", "D">>, "n")>>),
     B("b3", 0, <<"D">>, <<F("f4", <<"D">>, "n"), F("f5", <<>>, ""), F("f6", <<"D", "q", "C">>, "m")>>),
     B("b4", 3, <<"D", "q", "C">>, <<>>),
     B("b5", 3, <<"D", "q", "C", "q", "C">>, <<F("f7", <<"D", "q", "C", "q", "C">>, "n")>>) >> >>

(* skipping what the pathbuilder does not need changes nothing *)
MaskRight == (Done /\ Emit = "bundles") => \A k \in DOMAIN PBs :
  LET M == MaskedEdges(doc, can, inv, PBs[k]) IN
  \A b \in DOMAIN PBs[k] :
     /\ Entities(M, can, PBs[k], b) = Entities(AllEdges, can, PBs[k], b)
     /\ \A i \in DOMAIN PBs[k][b].fields : FieldMatches(M, can, PBs[k], b, PBs[k][b].fields[i]) = FieldMatches(AllEdges, can, PBs[k], b, PBs[k][b].fields[i])
     /\ PBs[k][b].up # 0 => ChildPairs(M, can, PBs[k], b) = ChildPairs(AllEdges, can, PBs[k], b)

EdgeTable == {[e |-> e, st |-> Stated(doc, can, e), inf |-> Inferred(doc, can, inv, e)] : e \in DOMAIN idx}
Renamed == [l \in {x \in Lab : can[x] # x} |-> can[l]]
EmitQueries == (Done /\ Emit = "queries") =>
  LET E == AllEdges IN
  PrintT(ToJson([doc |-> doc, can |-> Renamed, edges |-> EdgeTable, cnt |-> cnt,
                 ans |-> [i \in DOMAIN Queries |-> Query(E, can, Queries[i])]]))
Extract(E, pb) ==
  [b \in DOMAIN pb |-> [ents |-> Query(E, can, pb[b].path),
                        fields |-> [i \in DOMAIN pb[b].fields |-> FieldMatches(E, can, pb, b, pb[b].fields[i])],
                        kids |-> IF pb[b].up = 0 THEN {} ELSE ChildPairs(E, can, pb, b)]]
EmitBundles == (Done /\ Emit = "bundles") =>
  LET E == AllEdges IN
  PrintT(ToJson([doc |-> doc, can |-> Renamed, edges |-> EdgeTable, cnt |-> cnt,
                 ext |-> [k \in DOMAIN PBs |-> Extract(E, PBs[k])]]))

ASSUME Emit = "none" \/ PrintT(ToJson([queries |-> Queries, pbs |-> PBs]))
=============================================================================
