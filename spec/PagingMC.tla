------------------------------ MODULE PagingMC ------------------------------
(* The pages as the server computes them, which refine the contract.       *)
EXTENDS Paging
CONSTANTS MaxTotal, MaxLimit

Serve(limit, skip) ==
  LET left == IF skip >= total THEN 0 ELSE total - skip
      shown == IF limit < left THEN limit ELSE left
  IN [limit |-> limit, skip |-> skip, items |-> [i \in 1..shown |-> skip + i],
      from |-> skip + 1, to |-> skip + shown, of |-> total,
      first |-> IF skip > 0 THEN 0 ELSE None,
      prev |-> IF skip > 0 THEN (IF skip - limit < 0 THEN 0 ELSE skip - limit) ELSE None,
      next |-> IF skip + limit < total THEN skip + limit ELSE None,
      last |-> IF skip + limit < total THEN total - (total % limit) - 1 ELSE None]
Exists(skip) == skip = 0 \/ skip < total

Init == total \in 0..MaxTotal /\ PInit
Jump(l, s) == Exists(s) /\ page' = Serve(l, s) /\ walking' = (s = 0) /\ walked' = Serve(l, s).items /\ UNCHANGED total
Click(op) ==
  LET to == CASE op = "first" -> page.first [] op = "prev" -> page.prev [] op = "next" -> page.next [] op = "last" -> page.last
  IN /\ page # Nowhere /\ to # None
     /\ Exists(to)   \* checked by LinksExist
     /\ page' = Serve(page.limit, to)
     /\ walking' = (IF op = "next" THEN walking ELSE to = 0)
     /\ walked' = (IF op = "next" THEN walked \o page'.items ELSE page'.items)
     /\ UNCHANGED total
Next ==
  \/ page = Nowhere /\ \E l \in 1..MaxLimit, s \in 0..MaxTotal : Jump(l, s)
  \/ \E op \in {"first", "prev", "next", "last"} : Click(op)
Spec == Init /\ [][Next]_pvars

LinksExist == page # Nowhere => \A to \in {page.first, page.prev, page.next, page.last} \ {None} : Exists(to)
Contract == PInit /\ [][(\E l \in 1..MaxLimit, s \in 0..MaxTotal : Open(Serve(l, s)))
                     \/ (\E op \in {"first", "prev", "next", "last"}, s \in 0..MaxTotal : Follow(op, Serve(page.limit, s)))]_pvars
=============================================================================
