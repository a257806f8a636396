------------------------------- MODULE Paging -------------------------------
(***************************************************************************)
(* Paging through a bundle: the contract on what a visitor sees.           *)
(*                                                                         *)
(* A page is [limit, skip, items, from, to, of, first, prev, next, last]:  *)
(* items are positions in the listing of the API; each link is the skip of *)
(* the page it leads to, or None.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1

VARIABLES total,    \* number of entities
          page,     \* the page the visitor is on
          walked,   \* entities seen since the first page, following next links only
          walking   \* whether only next links have been followed
pvars == <<total, page, walked, walking>>

Smaller(a, b) == IF a < b THEN a ELSE b
Bigger(a, b) == IF a > b THEN a ELSE b
Positions(skip, limit, n) == [i \in 1..Smaller(limit, n - skip) |-> skip + i]

PageOK(n, p) ==
  /\ p.limit >= 1 /\ p.skip >= 0 /\ (p.skip < n \/ p.skip = 0)
  /\ p.items = Positions(p.skip, p.limit, n)
  /\ p.of = n /\ p.from = p.skip + 1 /\ p.to = p.skip + Len(p.items)
  (* links are there exactly when there is something to lead to *)
  /\ (p.first # None) = (p.skip > 0) /\ (p.prev # None) = (p.skip > 0)
  /\ (p.next # None) = (p.skip + p.limit < n) /\ (p.last # None) = (p.skip + p.limit < n)
  (* and lead there *)
  /\ p.first # None => p.first = 0
  /\ p.prev # None => p.prev = Bigger(0, p.skip - p.limit)
  /\ p.next # None => p.next = p.skip + p.limit
  /\ p.last # None => p.last < n /\ n <= p.last + p.limit /\ p.last >= 0

Nowhere == [limit |-> 0, skip |-> 0, items |-> <<>>, from |-> 0, to |-> 0, of |-> 0, first |-> None, prev |-> None, next |-> None, last |-> None]
PInit == page = Nowhere /\ walked = <<>> /\ walking = FALSE

(* the visitor opens a page by its address *)
Open(p) ==
  /\ PageOK(total, p)
  /\ page' = p /\ walking' = (p.skip = 0) /\ walked' = p.items
  /\ UNCHANGED total
(* or follows a link; limits stay the same *)
Follow(op, p) ==
  /\ page # Nowhere
  /\ LET to == CASE op = "first" -> page.first [] op = "prev" -> page.prev [] op = "next" -> page.next [] op = "last" -> page.last
     IN to # None /\ p.skip = to
  /\ p.limit = page.limit /\ PageOK(total, p)
  /\ page' = p
  /\ walking' = (IF op = "next" THEN walking ELSE p.skip = 0)
  /\ walked' = (IF op = "next" THEN walked \o p.items ELSE p.items)
  /\ UNCHANGED total

(* having followed next to the end, everything has been visited once, in order *)
WalkComplete == (walking /\ page.next = None) => walked = [i \in 1..total |-> i]
(* everything before the current page has been visited *)
WalkSoFar == walking => walked = [i \in 1..(page.skip + Len(page.items)) |-> i]
=============================================================================
