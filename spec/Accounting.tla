------------------------------ MODULE Accounting ------------------------------
(* What the counters of an index say about the statements of a document.        *)
(* Properties that are not needed may be skipped, of statements about           *)
(* resources and of literals; every other statement, and every fact that        *)
(* follows from it by an inverse, is indexed, or merged with a fact already     *)
(* there.                                                                       *)
EXTENDS Graph

Stmts(doc, k) == {i \in DOMAIN doc : doc[i].k = k}
Props(doc, can, k) == {can[doc[i].p] : i \in Stmts(doc, k)}
\* the facts from the statements that are not skipped, with and without counting how often
Facts1(doc, can, K) == {DirectEdge(doc, can, i) : i \in K}
Facts2(doc, can, inv, K) == {InverseEdge(doc, can, inv, i) : i \in {j \in K : HasInverse(doc, can, inv, j)}}
Times(doc, can, inv, K) == Cardinality(K) + Cardinality({i \in K : HasInverse(doc, can, inv, i)})

Counted(doc, can, inv, kept, keptdata, c) ==
  LET K == {i \in Stmts(doc, "r") : can[doc[i].p] \in kept}
      D == {i \in Stmts(doc, "d") : can[doc[i].p] \in keptdata}
  IN /\ c.maskedpred = Cardinality(Stmts(doc, "r")) - Cardinality(K)
     /\ c.maskeddata = Cardinality(Stmts(doc, "d")) - Cardinality(D)
     /\ c.datum = Cardinality(D)
     /\ c.direct + c.inverse = Cardinality(Facts1(doc, can, K) \cup Facts2(doc, can, inv, K))
     /\ c.direct <= Cardinality(Facts1(doc, can, K))
     /\ c.inverse <= Cardinality(Facts2(doc, can, inv, K))
     /\ c.direct + c.inverse + c.conflict = Times(doc, can, inv, K)

Accounted(doc, pb, masked, useinv, c) ==
  LET can == TLCEval(Canon(doc))
      inv == TLCEval(IF useinv THEN InverseOf(doc, can) ELSE [l \in Lab |-> None])
      all == Props(doc, can, "r")
      dall == Props(doc, can, "d")
      need == IF masked THEN Needed(can, inv, pb) \cap all ELSE all
      dneed == IF masked THEN NeededData(can, pb) \cap dall ELSE dall
  IN \E more \in SUBSET (all \ need), dmore \in SUBSET (dall \ dneed) : Counted(doc, can, inv, need \cup more, dneed \cup dmore, c)
=============================================================================
