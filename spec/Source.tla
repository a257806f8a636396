-------------------------------- MODULE Source --------------------------------
(***************************************************************************)
(* Which input files a command line selects: the contract.                 *)
(*                                                                         *)
(* A world is a sequence of entries [ext, kind] of one directory, called   *)
(* <<"d">>. Entry i is called <<"d", i>>. There is a second, proper        *)
(* directory <<"p">> with the two entries <<"p", 1>> (a pathbuilder) and   *)
(* <<"p", 2>> (data), and an empty directory <<"e">>. <<"ld">> is a        *)
(* symbolic link to <<"d">>. All other names do not exist.                 *)
(* Entries of kind "subdir" are empty directories, those of kind "linkdir" *)
(* links to the directory <<"p">>, those of kind "link" links to a regular *)
(* file, those of kind "dangling" links to nothing.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Exts == {"xml", "nq", "other"}
Kinds == {"file", "link", "subdir", "linkdir", "dangling", "fifo"}

P == <<[ext |-> "xml", kind |-> "file"], [ext |-> "nq", kind |-> "file"]>>

\* what following a kind leads to
Leads(kind) == CASE kind \in {"file", "link"} -> "file"
                 [] kind \in {"subdir", "linkdir"} -> "dir"
                 [] kind = "fifo" -> "special"
                 [] OTHER -> "nothing"

Entry(w, i) == IF i \in DOMAIN w THEN Leads(w[i].kind) ELSE "nothing"
What(w, p) ==
  CASE p \in {<<"d">>, <<"ld">>, <<"p">>, <<"e">>} -> "dir"
    [] Len(p) = 2 /\ p[1] \in {"d", "ld"} -> Entry(w, p[2])
    [] Len(p) = 2 /\ p[1] = "p" -> Entry(P, p[2])
    [] Len(p) = 3 /\ p[1] \in {"d", "ld"} -> IF p[2] \in DOMAIN w /\ w[p[2]].kind = "linkdir" THEN Entry(P, p[3]) ELSE "nothing"
    [] OTHER -> "nothing"

\* the entries of a directory with an extension
Inside(w, p, ext) ==
  LET Of(es) == {Append(p, i) : i \in {i \in DOMAIN es : es[i].ext = ext}} IN
  CASE p \in {<<"d">>, <<"ld">>} -> Of(w)
    [] p = <<"p">> -> Of(P)
    [] Len(p) = 2 /\ p[1] # "p" /\ p[2] \in DOMAIN w /\ w[p[2]].kind = "linkdir" -> Of(P)
    [] OTHER -> {}

Nothing == <<>>
Error == [err |-> TRUE, xml |-> Nothing, nq |-> Nothing, export |-> Nothing]
Files(w, xml, nq) == IF What(w, xml) = "file" /\ What(w, nq) = "file" THEN [err |-> FALSE, xml |-> xml, nq |-> nq, export |-> Nothing] ELSE Error

Select(w, exports, args) ==
  IF Len(args) = 2 THEN Files(w, args[1], args[2])
  ELSE IF Len(args) # 1 \/ What(w, args[1]) = "nothing" THEN Error
  ELSE IF What(w, args[1]) = "dir"
       THEN LET x == Inside(w, args[1], "xml") n == Inside(w, args[1], "nq")
            IN IF Cardinality(x) = 1 /\ Cardinality(n) = 1 THEN Files(w, CHOOSE i \in x : TRUE, CHOOSE i \in n : TRUE) ELSE Error
  ELSE IF exports THEN [err |-> FALSE, xml |-> Nothing, nq |-> Nothing, export |-> args[1]]
  ELSE Error
=============================================================================
