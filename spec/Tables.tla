-------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* The tables of an export of a data set: the contract.                    *)
(*                                                                         *)
(* A data set is a sequence of bundles [up, ents, fields, kids]: up is the *)
(* number of the parent bundle (0: none), ents the set of its entities,    *)
(* fields a sequence of sequences of values [of, v] (v is [text, lang]),   *)
(* kids the set of pairs of parent and child.                              *)
(* Tables are sequences of rows, and are compared as bags.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

RECURSIVE Reached(_, _)
\* the entities of a bundle that are part of an entity of a top-level bundle
Reached(ds, b) == IF ds[b].up = 0 THEN ds[b].ents ELSE {k[2] : k \in {k \in ds[b].kids : k[1] \in Reached(ds, ds[b].up)}}

Texts(ds, b, f, e) == SelectSeq(ds[b].fields[f], LAMBDA v : v.of = e)
Parents(ds, b) == IF ds[b].up = 0 THEN {} ELSE Reached(ds, ds[b].up)

\* one row for every entity, or for every pair of parent and child
Pairs(ds, b) == IF ds[b].up = 0 THEN {<<"", e>> : e \in ds[b].ents} ELSE {k \in ds[b].kids : k[1] \in Parents(ds, b)}

\* a row is [uri, parent, cells], a cell is a sequence of texts; values without a table of their own are in the cells
BundleTableOk(ds, b, joined, rows) ==
  /\ Len(rows) = Cardinality(Pairs(ds, b))
  /\ \A p \in Pairs(ds, b) : \E r \in DOMAIN rows :
       /\ rows[r].parent = p[1] /\ rows[r].uri = p[2]
       /\ IF joined THEN /\ Len(rows[r].cells) = Len(ds[b].fields)
                         /\ \A f \in DOMAIN rows[r].cells : LET vs == Texts(ds, b, f, p[2]) IN SameBag(rows[r].cells[f], [i \in DOMAIN vs |-> vs[i].v.text])
          ELSE rows[r].cells = <<>>

\* one row for every value of every entity
FieldTableOk(ds, b, f, rows) ==
  LET vs == SelectSeq(ds[b].fields[f], LAMBDA v : v.of \in Reached(ds, b))
  IN SameBag(rows, vs)
=============================================================================
