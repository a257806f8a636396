------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* How a value of a field is shown: the contract, and the way the server   *)
(* does it for formatted texts, which refines it.                          *)
(*                                                                         *)
(* A formatted text is a sequence of tokens [k, tag, addr]: text, opening  *)
(* of an element, closing of the last one opened, or an element without    *)
(* content.  Addresses: "in" and "in2" are below a public address of the   *)
(* configured site, others are not.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxDepth, Emit

In == {"in", "in2"}
Out == {"out", "near", "relative", "script"}
Addrs == In \cup Out
Local(a) == IF a = "in" THEN "local" ELSE IF a = "in2" THEN "local2" ELSE a

VARIABLES val, stack, kind
vars == <<val, stack, kind>>

Tok(k, tag, addr) == [k |-> k, tag |-> tag, addr |-> addr]
Text == Tok("text", "", "none")
Addressed == {"a", "img"}       \* elements whose address is rewritten
Types == {"text_long", "text", "link", "image", "reference"}

(* ---------------------- the contract, token by token ---------------------- *)
Rewritten(v) == [i \in DOMAIN v |-> IF v[i].tag \in Addressed THEN [v[i] EXCEPT !.addr = Local(@)] ELSE v[i]]
Elements(v) == SelectSeq(v, LAMBDA x : x.k \in {"open", "void"})
El(tag, addr) == Tok("open", tag, addr)
(* shown as: elements of the cell in order, and whether its text is that of the value read as markup, or the value itself *)
Shown(type, html, images, v) ==
  CASE type = "text_long" /\ html -> [els |-> Elements(Rewritten(v)), verbatim |-> FALSE]
    [] type = "image" /\ images -> [els |-> <<El("a", Local(v[1].addr)), El("img", Local(v[1].addr))>>, verbatim |-> FALSE]
    [] type \in {"link", "image"} /\ ~(type = "image" /\ images) -> [els |-> <<El("a", v[1].addr)>>, verbatim |-> TRUE]
    [] type = "reference" -> [els |-> <<El("a", "resolver")>>, verbatim |-> TRUE]
    [] OTHER -> [els |-> <<El("span", "none")>>, verbatim |-> TRUE]

(* ------------------- the server: a tree, walked and written ------------------- *)
RECURSIVE Parse(_, _)
(* nodes from position i up to the matching closing token: <<nodes, next position>> *)
Parse(v, i) ==
  IF i > Len(v) \/ v[i].k = "close" THEN <<<<>>, i + 1>>
  ELSE IF v[i].k = "open" THEN
         LET inner == Parse(v, i + 1)
             rest == Parse(v, inner[2])
         IN <<<<[tok |-> v[i], kids |-> inner[1]]>> \o rest[1], rest[2]>>
  ELSE LET rest == Parse(v, i + 1) IN <<<<[tok |-> v[i], kids |-> <<>>]>> \o rest[1], rest[2]>>
RECURSIVE Walk(_)
Walk(ns) == [i \in DOMAIN ns |-> [tok |-> IF ns[i].tok.tag \in Addressed THEN [ns[i].tok EXCEPT !.addr = Local(@)] ELSE ns[i].tok, kids |-> Walk(ns[i].kids)]]
RECURSIVE Write(_)
Write(ns) ==
  IF ns = <<>> THEN <<>>
  ELSE (IF Head(ns).tok.k = "open" THEN <<Head(ns).tok>> \o Write(Head(ns).kids) \o <<Tok("close", "", "none")>> ELSE <<Head(ns).tok>>) \o Write(Tail(ns))
Closed(v, n) == v \o [i \in 1..n |-> Tok("close", "", "none")]

(* ------------------------------- all values ------------------------------- *)
Init == /\ kind \in Types
        /\ stack = <<>>
        /\ IF kind = "text_long" THEN val = <<>> ELSE val \in {<<Tok("void", "a", a)>> : a \in Addrs} \cup (IF kind \in {"text", "reference"} THEN {<<Text>>, <<Tok("open", "b", "none"), Text, Tok("close", "", "none")>>} ELSE {})
Last == IF val = <<>> THEN Text ELSE val[Len(val)]
AddText == (val = <<>> \/ Last.k # "text") /\ val' = Append(val, Text) /\ UNCHANGED stack
Void == \E a \in Addrs \ {"script"} : val' = Append(val, Tok("void", "img", a)) /\ UNCHANGED stack
Open == /\ Len(stack) < MaxDepth
        /\ \/ \E a \in Addrs : "a" \notin {stack[i] : i \in DOMAIN stack} /\ val' = Append(val, Tok("open", "a", a)) /\ stack' = Append(stack, "a")
           \/ \E t \in {"b", "div"} : val' = Append(val, Tok("open", t, "none")) /\ stack' = Append(stack, t)
Close == stack # <<>> /\ Last # Tok("open", "b", "none") /\ val' = Append(val, Tok("close", "", "none")) /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Next == kind = "text_long" /\ Len(val) + Len(stack) < MaxLen /\ (AddText \/ Void \/ Open \/ Close) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

(* the server does what the contract says *)
Refines == kind = "text_long" => LET v == Closed(val, Len(stack)) IN Write(Walk(Parse(v, 1)[1])) = Rewritten(v)
(* and the contract is about what matters *)
Safe == \A images \in BOOLEAN : \A i \in DOMAIN Shown(kind, FALSE, images, Closed(val, Len(stack))).els :
          LET e == Shown(kind, FALSE, images, Closed(val, Len(stack))).els[i] IN e.tag \in {"span", "a"} \cup (IF images THEN {"img"} ELSE {})
NoImages == \A html \in BOOLEAN : kind # "text_long" => \A i \in DOMAIN Shown(kind, html, FALSE, Closed(val, Len(stack))).els : Shown(kind, html, FALSE, Closed(val, Len(stack))).els[i].tag # "img"
Stays == \A i \in DOMAIN Shown("text_long", TRUE, FALSE, Closed(val, Len(stack))).els : Shown("text_long", TRUE, FALSE, Closed(val, Len(stack))).els[i].addr \notin In
Cases == (Emit /\ stack = <<>> /\ val # <<>>) =>
           PrintT(ToJson([type |-> kind, val |-> val, shown |-> [h \in {"plain", "html"} |-> [i \in {"noimages", "images"} |-> Shown(kind, h = "html", i = "images", val)]]]))
=============================================================================
