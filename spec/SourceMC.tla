------------------------------- MODULE SourceMC -------------------------------
(* All worlds with up to Max entries and all command lines. A search that    *)
(* looks at one entry after the other refines the contract.                  *)
EXTENDS Source, TLC
CONSTANTS Max, Exactly, Regular   \* Exactly = FALSE: takes the first match; Regular = FALSE: does not look at what was found
VARIABLES w, exports, args, pc, at, xml, nq, res
vars == <<w, exports, args, pc, at, xml, nq, res>>

Entries == [ext : Exts, kind : Kinds]
Names(n) == {<<"d">>, <<"ld">>, <<"p">>, <<"e">>, <<"none">>, <<"p", 1>>} \cup {<<"d", i>> : i \in 1..n}
Init == /\ \E n \in 0..Max : w \in [1..n -> Entries] /\ args \in UNION {[1..k -> Names(n)] : k \in 0..2} \cup {<<<<"p", 1>>, <<"p", 2>>, <<"p", 2>>>>}
        /\ exports \in BOOLEAN /\ pc = "start" /\ at = 1 /\ xml = {} /\ nq = {} /\ res = Error
Listing == LET p == args[1] IN CASE p \in {<<"d">>, <<"ld">>} -> w [] p = <<"p">> -> P [] Len(p) = 2 /\ p[1] = "d" /\ w[p[2]].kind = "linkdir" -> P [] OTHER -> <<>>
Finish(r) == pc' = "done" /\ res' = r /\ UNCHANGED <<w, exports, args, at, xml, nq>>
Start == /\ pc = "start"
         /\ \/ Len(args) \notin {1, 2} /\ Finish(Error)
            \/ Len(args) = 2 /\ pc' = "check" /\ xml' = {args[1]} /\ nq' = {args[2]} /\ UNCHANGED <<w, exports, args, at, res>>
            \/ Len(args) = 1 /\ What(w, args[1]) = "nothing" /\ Finish(Error)
            \/ Len(args) = 1 /\ What(w, args[1]) \in {"file", "special"} /\ Finish(IF exports THEN [Error EXCEPT !.err = FALSE, !.export = args[1]] ELSE Error)
            \/ Len(args) = 1 /\ What(w, args[1]) = "dir" /\ pc' = "search" /\ UNCHANGED <<w, exports, args, at, xml, nq, res>>
Search == /\ pc = "search" /\ at \in DOMAIN Listing /\ at' = at + 1
          /\ LET f == Append(args[1], at) e == Listing[at].ext IN
             /\ xml' = IF e = "xml" /\ (Exactly \/ xml = {}) THEN xml \cup {f} ELSE xml
             /\ nq' = IF e = "nq" /\ (Exactly \/ nq = {}) THEN nq \cup {f} ELSE nq
          /\ UNCHANGED <<w, exports, args, pc, res>>
Found == /\ pc = "search" /\ at \notin DOMAIN Listing
         /\ IF Cardinality(xml) = 1 /\ Cardinality(nq) = 1 THEN pc' = "check" /\ UNCHANGED <<w, exports, args, at, xml, nq, res>> ELSE Finish(Error)
Check == /\ pc = "check"
         /\ LET x == CHOOSE f \in xml : TRUE n == CHOOSE f \in nq : TRUE
                ok(f) == IF Regular THEN What(w, f) = "file" ELSE What(w, f) # "nothing"
            IN Finish(IF ok(x) /\ ok(n) THEN [Error EXCEPT !.err = FALSE, !.xml = x, !.nq = n] ELSE Error)
Next == Start \/ Search \/ Found \/ Check
Spec == Init /\ [][Next]_vars

Refines == pc = "done" => res = Select(w, exports, args)
RegularFiles == pc = "done" => \A f \in {res.xml, res.nq} : f = Nothing \/ What(w, f) = "file"
AllOrNothing == pc = "done" => CASE res.err -> res = Error
                                 [] res.export # Nothing -> exports /\ res.xml = Nothing /\ res.nq = Nothing /\ Len(args) = 1
                                 [] OTHER -> res.xml # Nothing /\ res.nq # Nothing /\ (Len(args) = 2 => args = <<res.xml, res.nq>>)
=============================================================================
